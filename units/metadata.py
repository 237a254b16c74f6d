from _common import *
import _meta
C = "src/cm.rs"
SPEC = r"""
pub use cm::{WorkspaceDefaultMembers};
/// ids are equal when their texts are (derived equality)
impl VxEq<PackageId> for PackageId { open spec fn eqs(&self, o: &PackageId) -> bool { self.repr@ == o.repr@ } #[verifier::external_body] fn vx_eq_(&self, o: &PackageId) -> (r: bool) { unimplemented!() } }
impl VxEq<&PackageId> for &PackageId { open spec fn eqs(&self, o: &&PackageId) -> bool { self.repr@ == o.repr@ } #[verifier::external_body] fn vx_eq_(&self, o: &&PackageId) -> (r: bool) { unimplemented!() } }
impl VxEq<PathX> for PathX { open spec fn eqs(&self, o: &PathX) -> bool { components(self.b()) == components(o.b()) } #[verifier::external_body] fn vx_eq_(&self, o: &PathX) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn pjoin(a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn pparent(a: Seq<u8>) -> Option<Seq<u8>>;
pub trait AsPath { spec fn pb(&self) -> Seq<u8>; }
impl AsPath for &str { open spec fn pb(&self) -> Seq<u8> { (**self).b() } }
impl AsPath for &PathX { open spec fn pb(&self) -> Seq<u8> { (**self).b() } }
impl PathX {
    #[verifier::external_body] pub fn join<P: AsPath>(&self, p: P) -> (r: PathX) ensures r.b() == pjoin(self.b(), p.pb()) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathX>) ensures r is Some <==> pparent(self.b()) is Some, r is Some ==> r->0.b() == pparent(self.b())->0 { unimplemented!() }
}
pub open spec fn member(s: Seq<PackageId>, x: PackageId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).repr@ == x.repr@ }
pub trait HasX { spec fn can(&self) -> bool; spec fn ids(&self) -> Seq<PackageId>; fn vx_contains(&self, x: &PackageId) -> (r: bool) requires self.can(), ensures r == member(self.ids(), *x); }
impl HasX for Vec<PackageId> { open spec fn can(&self) -> bool { true } open spec fn ids(&self) -> Seq<PackageId> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &PackageId) -> (r: bool) { unimplemented!() } }
impl HasX for [PackageId] { open spec fn can(&self) -> bool { true } open spec fn ids(&self) -> Seq<PackageId> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &PackageId) -> (r: bool) { unimplemented!() } }
/// method calls on it go through its `Deref`, which is under contract below
impl HasX for WorkspaceDefaultMembers { open spec fn can(&self) -> bool { self.0 is Some } open spec fn ids(&self) -> Seq<PackageId> { self.0->0@ } fn vx_contains(&self, x: &PackageId) -> (r: bool) { self.deref_().vx_contains(x) } }
/// the packages listed, in document order
pub open spec fn marks(ps: Seq<Package>, ids: Seq<PackageId>) -> Seq<bool> { Seq::new(ps.len(), |i: int| member(ids, ps[i].id)) }
pub open spec fn listed<'a>(ps: Seq<Package>, ids: Seq<PackageId>) -> Seq<&'a Package> { kept(refs(ps), marks(ps, ids)) }
pub open spec fn first_with(ps: Seq<Package>, id: PackageId, i: int) -> bool { 0 <= i < ps.len() && ps[i].id.repr@ == id.repr@ }
pub open spec fn manifest_of(m: Metadata) -> Seq<u8> { pjoin(m.workspace_root.b(), "Cargo.toml"@.b_()) }
/// p is what the property calls the root package
pub open spec fn is_root(m: Metadata, p: Package) -> bool {
    match m.resolve {
        Some(r) => r.root is Some && p.id.repr@ == r.root->0.repr@,
        None => components(p.manifest_path.b()) == components(manifest_of(m)),
    }
}
/// the directory of the manifest
pub open spec fn dir_of(p: Package) -> Seq<u8> { match pparent(p.manifest_path.b()) { Some(d) => d, None => p.manifest_path.b() } }
pub open spec fn below(p: Package, f: Option<PathX>, r: Option<PathX>) -> bool { (r is Some <==> f is Some) && (r is Some ==> r->0.b() == pjoin(dir_of(p), f->0.b())) }
pub fn vx_unwrap_or_else<A, F: FnOnce() -> A>(a: Option<A>, f: F) -> (r: A) requires a is None ==> f.requires(()), ensures a is Some ==> r == a->0, a is None ==> f.ensures((), r) { match a { Some(x) => x, None => f() } }
"""
def keep(n, ids, req=""):
    return Fn("Metadata::" + n, C, "Metadata::" + n, f"fn {n}(&self) -> (r: Vec<&Package>) {req} ensures r@ == listed(self.packages@, {ids})", impl="impl Metadata", methods=M, eqs=True, closures={0: f"|vxp0: &&Package| -> (r: bool) ensures r == member({ids}, vxp0.id)"}, bind=["iter", "filter"],
              at={"b0": "proof { assert(vx_b0.vseq() == refs(self.packages@)); }",
                  "b1": f"proof {{ let z0 = refs(self.packages@); let o = choose|o: Seq<bool>| o.len() == z0.len() && vx_b1.s() == #[trigger] kept(z0, o) && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == member({ids}, z0[i].id); assert(o =~= marks(self.packages@, {ids})); }}"})
def path(n):
    return Fn("Package::" + n, C, "Package::" + n, f"fn {n}(&self) -> (r: Option<PathX>) ensures below(*self, self.{n}, r)", impl="impl Package", methods=M, eqs=True, closures={0: "|vxp0: &PathX| -> (r: PathX) ensures r.b() == pjoin(dir_of(*self), vxp0.b())"})
M = [("iter", "0", "vx_iter"), ("find", "*", "vx_find"), ("filter", "*", "vx_filter"), ("contains", "*", "vx_contains"), ("collect", "0", "vx_collect"), ("unwrap_or_else", "*", "fn:vx_unwrap_or_else")]
UNITS = [Unit("metadata", ["C18"], prelude=["str", "iter", "order", "streq", "chars", "opt", "coll", "semver", "cfgexpr", "meta"], types=_meta.TYPES, mods=_meta.MODS, spec=SPEC, fns=[
    Fn("WorkspaceDefaultMembers::deref", C, "Deref for WorkspaceDefaultMembers::deref", "fn deref_(&self) -> (r: &[PackageId]) requires self.0 is Some, ensures r@ == self.0->0@", impl="impl WorkspaceDefaultMembers"),
    Fn("Metadata::root_package", C, "Metadata::root_package", """fn root_package(&self) -> (r: Option<&Package>) ensures
        r is Some ==> is_root(*self, *r->0) && exists|i: int| 0 <= i < self.packages@.len() && #[trigger] self.packages@[i] == *r->0,
        r is None ==> forall|i: int| 0 <= i < self.packages@.len() ==> !is_root(*self, #[trigger] self.packages@[i])""", impl="impl Metadata", methods=M, eqs=True, bind=["iter", "find"],
       closures={0: "|vxp0: &&Package| -> (r: bool) ensures r == (vxp0.id.repr@ == root.repr@)", 1: "|vxp0: &&Package| -> (r: bool) ensures r == (components(vxp0.manifest_path.b()) == components(root_manifest_path.b()))"},
       at={"b0": "proof { assert(vx_b0.vseq() == refs(self.packages@)); }", "b1": "proof { let s = refs(self.packages@); if vx_b1 is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == vx_b1->0; assert(self.packages@[i] == *vx_b1->0); } else { assert forall|i: int| 0 <= i < self.packages@.len() implies !is_root(*self, #[trigger] self.packages@[i]) by { assert(*s[i] == self.packages@[i]); } } }",
           "b2": "proof { assert(vx_b2.vseq() == refs(self.packages@)); }", "b3": "proof { let s = refs(self.packages@); if vx_b3 is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == vx_b3->0; assert(self.packages@[i] == *vx_b3->0); } else { assert forall|i: int| 0 <= i < self.packages@.len() implies !is_root(*self, #[trigger] self.packages@[i]) by { assert(*s[i] == self.packages@[i]); } } }"}),
    keep("workspace_packages", "self.workspace_members@"),
    keep("workspace_default_packages", "self.workspace_default_members.0->0@", "requires self.workspace_default_members.0 is Some,"),
    Fn("Metadata::index", C, "Index for Metadata::index", "fn index_(&self, $p0: &PackageId) -> (r: &Package) requires exists|i: int| 0 <= i < self.packages@.len() && (#[trigger] self.packages@[i]).id.repr@ == $p0.repr@, ensures r.id.repr@ == $p0.repr@, exists|i: int| 0 <= i < self.packages@.len() && #[trigger] self.packages@[i] == *r", impl="impl Metadata", methods=M, eqs=True, bind=["iter", "find"],
       closures={0: "|vxp0: &&Package| -> (r: bool) ensures r == (vxp0.id.repr@ == $p0.repr@)", 1: "|| -> (r: &Package) requires false"},
       at={"b0": "proof { assert(vx_b0.vseq() == refs(self.packages@)); }", "b1": "proof { let s = refs(self.packages@); if vx_b1 is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == vx_b1->0; assert(self.packages@[i] == *vx_b1->0); } else { let i = choose|i: int| 0 <= i < self.packages@.len() && (#[trigger] self.packages@[i]).id.repr@ == $p0.repr@; assert(*s[i] == self.packages@[i]); } }"}),
    path("license_file"), path("readme"),
])]
