// ---- prelude: strings as their UTF-8 bytes
pub use vstd::string::*;
pub use vstd::utf8::*;
/// a char boundary of a string (std's definition on the bytes)
pub open spec fn bdy(b: Seq<u8>, i: int) -> bool { i == 0 || i == b.len() || (0 < i < b.len() && !(0x80 <= b[i] <= 0xbf)) }
/// assumed fact about UTF-8: the position after an ASCII byte is a char boundary, and so is that of the byte itself
#[verifier::external_body]
pub broadcast proof fn axiom_ascii_boundary(s: Seq<char>, i: int)
    requires 0 <= i < encode_utf8(s).len(), encode_utf8(s)[i] < 128,
    ensures #[trigger] encode_utf8(s)[i] < 128 ==> bdy(encode_utf8(s), i + 1) && bdy(encode_utf8(s), i)
{ }
/// p occurs in b at i
pub open spec fn occ(b: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= b.len() && b.subrange(i, i + p.len()) == p }
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { occ(b, p, 0) }
pub open spec fn ends(b: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= b.len() && b.subrange(b.len() - p.len(), b.len() as int) == p }
pub open spec fn hasb(b: Seq<u8>, c: u8) -> bool { exists|i: int| 0 <= i < b.len() && b[i] == c }
pub open spec fn first_at(b: Seq<u8>, c: u8, i: int) -> bool { 0 <= i < b.len() && b[i] == c && forall|j: int| 0 <= j < i ==> b[j] != c }
pub open spec fn last_at(b: Seq<u8>, c: u8, i: int) -> bool { 0 <= i < b.len() && b[i] == c && forall|j: int| i < j < b.len() ==> b[j] != c }

pub trait Bytes { spec fn b(&self) -> Seq<u8>; }
impl Bytes for str { open spec fn b(&self) -> Seq<u8> { encode_utf8(self@) } }
impl Bytes for String { open spec fn b(&self) -> Seq<u8> { encode_utf8(self@) } }
/// a Rust string never has more than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_len<S: Bytes + ?Sized>(s: &S) ensures s.b().len() <= isize::MAX { }
pub trait StrX: Bytes {
    fn vx_len(&self) -> (r: usize) ensures r == self.b().len(), r <= isize::MAX;
    fn vx_find_char(&self, c: char) -> (r: Option<usize>)
        requires (c as u32) < 128,
        ensures
            r.is_some() ==> r.unwrap() < isize::MAX && first_at(self.b(), c as u8, r.unwrap() as int) && bdy(self.b(), r.unwrap() as int) && bdy(self.b(), r.unwrap() + 1),
            r.is_none() ==> !hasb(self.b(), c as u8);
    fn vx_rfind_char(&self, c: char) -> (r: Option<usize>)
        requires (c as u32) < 128,
        ensures
            r.is_some() ==> r.unwrap() < isize::MAX && last_at(self.b(), c as u8, r.unwrap() as int) && bdy(self.b(), r.unwrap() as int) && bdy(self.b(), r.unwrap() + 1),
            r.is_none() ==> !hasb(self.b(), c as u8);
    fn vx_find_str(&self, p: &str) -> (r: Option<usize>)
        ensures
            r.is_some() ==> r.unwrap() + p.b().len() <= isize::MAX && occ(self.b(), p.b(), r.unwrap() as int) && (forall|j: int| 0 <= j < r.unwrap() ==> !occ(self.b(), p.b(), j)) && bdy(self.b(), r.unwrap() as int) && bdy(self.b(), r.unwrap() + p.b().len()),
            r.is_none() ==> (forall|j: int| !occ(self.b(), p.b(), j));
    fn vx_rfind_str(&self, p: &str) -> (r: Option<usize>)
        ensures
            r.is_some() ==> r.unwrap() + p.b().len() <= isize::MAX && occ(self.b(), p.b(), r.unwrap() as int) && (forall|j: int| r.unwrap() < j ==> !occ(self.b(), p.b(), j)) && bdy(self.b(), r.unwrap() as int) && bdy(self.b(), r.unwrap() + p.b().len()),
            r.is_none() ==> (forall|j: int| !occ(self.b(), p.b(), j));
    fn vx_contains_char(&self, c: char) -> (r: bool) requires (c as u32) < 128, ensures r == hasb(self.b(), c as u8);
    fn vx_contains_str(&self, p: &str) -> (r: bool) ensures r == exists|j: int| occ(self.b(), p.b(), j);
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == starts(self.b(), p.b()), r ==> bdy(self.b(), p.b().len() as int);
    fn vx_starts_with_char(&self, c: char) -> (r: bool) requires (c as u32) < 128, ensures r == (self.b().len() > 0 && self.b()[0] == c as u8), r ==> bdy(self.b(), 1);
    fn vx_ends_with(&self, p: &str) -> (r: bool) ensures r == ends(self.b(), p.b());
    fn vx_ends_with_char(&self, c: char) -> (r: bool) requires (c as u32) < 128, ensures r == (self.b().len() > 0 && self.b().last() == c as u8);
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) ensures r is Some <==> starts(self.b(), p.b()), r is Some ==> r->0.b() == self.b().subrange(p.b().len() as int, self.b().len() as int);
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.b().len() == 0);
    fn vx_range(&self, i: usize, j: usize) -> (r: &str)
        requires i <= j <= self.b().len(), bdy(self.b(), i as int), bdy(self.b(), j as int),
        ensures r.b() == self.b().subrange(i as int, j as int);
    fn vx_range_from(&self, i: usize) -> (r: &str)
        requires i <= self.b().len(), bdy(self.b(), i as int),
        ensures r.b() == self.b().subrange(i as int, self.b().len() as int);
    fn vx_range_to(&self, j: usize) -> (r: &str)
        requires j <= self.b().len(), bdy(self.b(), j as int),
        ensures r.b() == self.b().subrange(0, j as int);
}
impl StrX for str {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_find_char(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn vx_rfind_char(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body] fn vx_find_str(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body] fn vx_rfind_str(&self, p: &str) -> (r: Option<usize>) { self.rfind(p) }
    #[verifier::external_body] fn vx_contains_char(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body] fn vx_contains_str(&self, p: &str) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn vx_starts_with_char(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn vx_ends_with_char(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vx_range(&self, i: usize, j: usize) -> (r: &str) { &self[i..j] }
    #[verifier::external_body] fn vx_range_from(&self, i: usize) -> (r: &str) { &self[i..] }
    #[verifier::external_body] fn vx_range_to(&self, i: usize) -> (r: &str) { &self[..i] }
}
impl StrX for String {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_find_char(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn vx_rfind_char(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body] fn vx_find_str(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body] fn vx_rfind_str(&self, p: &str) -> (r: Option<usize>) { self.rfind(p) }
    #[verifier::external_body] fn vx_contains_char(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body] fn vx_contains_str(&self, p: &str) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn vx_starts_with_char(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn vx_ends_with_char(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vx_range(&self, i: usize, j: usize) -> (r: &str) { &self[i..j] }
    #[verifier::external_body] fn vx_range_from(&self, i: usize) -> (r: &str) { &self[i..] }
    #[verifier::external_body] fn vx_range_to(&self, i: usize) -> (r: &str) { &self[..i] }
}
