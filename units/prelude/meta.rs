// ---- prelude: foreign types inside cargo's metadata
/// std's and camino's paths; what they compare by is theirs
#[verifier::external_body] pub struct PathX { x: u64 }
/// the components of the path a text spells
pub uninterp spec fn components(t: Seq<u8>) -> Seq<Seq<u8>>;
/// the path has a root (unix)
pub open spec fn rooted(t: Seq<u8>) -> bool { t.len() > 0 && t[0] == 47 }
impl Bytes for PathX { uninterp spec fn b(&self) -> Seq<u8>; }
pub mod camino { pub use super::PathX as Utf8PathBuf; pub use super::PathX as Utf8Path; }
#[verifier::external_body] pub struct Comp<'a> { x: &'a u64 }
impl<'a> Comp<'a> {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r.b() == self.b() { unimplemented!() }
}
pub open spec fn cbytes(s: Seq<Comp<'_>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].b()) }
impl PathX {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r.b() == self.b() { unimplemented!() }
    /// `Path::starts_with` goes by components
    #[verifier::external_body] pub fn vx_under(&self, p: &str) -> (r: bool) ensures p.b() == seq![47u8] ==> r == rooted(self.b()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_components(&self) -> (r: It<Comp<'_>>) ensures r.i() == 0, r.wf(), cbytes(r.s()) == components(self.b()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_path_new<'a>(s: &'a str) -> (r: &'a PathX) ensures r.b() == s.b() { unimplemented!() }
/// paths are equal when their components are
impl VxEq<&PathX> for &str { open spec fn eqs(&self, o: &&PathX) -> bool { components(self.b()) == components(o.b()) } #[verifier::external_body] fn vx_eq_(&self, o: &&PathX) -> (r: bool) { unimplemented!() } }
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub struct Value { x: u64 } }
/// std's BTreeMap with String keys, by the characters of the key
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
pub use cm::{Package, PackageId, Metadata};
