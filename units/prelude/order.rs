// ---- prelude: str ordering is bytewise lexicographic
pub use core::cmp::Ordering;
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == Ordering::Equal <==> a == b,
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() == 0 { }
    else {
        lex_eq(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
        if a == b { assert(a.drop_first() == b.drop_first()); }
    }
}
pub proof fn lex_rev(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == rev(lex(b, a)),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 { lex_rev(a.drop_first(), b.drop_first()); } }
pub proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) == Ordering::Less, lex(b, c) == Ordering::Less,
    ensures lex(a, c) == Ordering::Less,
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { if a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } } }
pub trait CmpX: Bytes {
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == lex(self.b(), o.b());
}
impl CmpX for str { #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl CmpX for String { #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub assume_specification [ <Ordering as PartialEq>::eq ] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
