// ---- prelude: what PkgSpec's parser uses of std and semver
/// semver's own parser
pub uninterp spec fn vparse(t: Seq<u8>) -> Option<Version>;
#[verifier::external_body] pub struct VErr { x: u64 }
#[verifier::external_body] pub fn vx_parse_version(s: &str) -> (r: Result<Version, VErr>) ensures r is Ok <==> vparse(s.b()) is Some, r is Ok ==> r->Ok_0 == vparse(s.b())->0 { unimplemented!() }
/// std's Cow of a str
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn v(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.v() { unimplemented!() }
}
impl<'a> std::ops::Deref for Cow<'a> { type Target = str; fn deref(&self) -> (r: &str) ensures r@ == self.v() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } } }
/// first byte that is c or d
pub open spec fn first_of(b: Seq<u8>, c: u8, d: u8, i: int) -> bool { 0 <= i < b.len() && (b[i] == c || b[i] == d) && forall|j: int| 0 <= j < i ==> b[j] != c && b[j] != d }
pub uninterp spec fn alphabetic(c: char) -> bool;
pub trait CharX { spec fn ch(&self) -> char; fn vx_alphabetic(self) -> (r: bool) ensures r == alphabetic(self.ch()); fn vx_alnum(&self) -> (r: bool) ensures r == alnum(self.ch()); }
pub open spec fn alnum(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
impl CharX for char { open spec fn ch(&self) -> char { *self } #[verifier::external_body] fn vx_alphabetic(self) -> (r: bool) { unimplemented!() } fn vx_alnum(&self) -> (r: bool) { let c = *self; ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') } }
pub trait FindX: CharsX + Bytes {
    fn vx_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.cs().len() ==> #[trigger] f.requires((self.cs()[i],)),
        ensures
            text(self.b()) == self.cs(),
            r is None ==> forall|i: int| 0 <= i < self.cs().len() ==> f.ensures((#[trigger] self.cs()[i],), false),
            r is Some ==> exists|i: int| 0 <= i < self.cs().len() && f.ensures((#[trigger] self.cs()[i],), true);
    fn vx_find_arr(&self, p: [char; 2]) -> (r: Option<usize>)
        requires (p@[0] as u32) < 128, (p@[1] as u32) < 128,
        ensures
            r is Some ==> r->0 < isize::MAX && first_of(self.b(), p@[0] as u8, p@[1] as u8, r->0 as int) && bdy(self.b(), r->0 as int) && bdy(self.b(), r->0 + 1),
            r is None ==> !hasb(self.b(), p@[0] as u8) && !hasb(self.b(), p@[1] as u8);
}
impl FindX for str {
    #[verifier::external_body] fn vx_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_find_arr(&self, p: [char; 2]) -> (r: Option<usize>) { unimplemented!() }
}
pub trait OwnX { spec fn oc(&self) -> Seq<char>; fn vx_own(&self) -> (r: String) ensures r@ == self.oc(); }
impl OwnX for str { open spec fn oc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
