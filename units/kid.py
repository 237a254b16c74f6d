from _common import *
L = "src/lib.rs"
KID_SPEC = r"""
impl Kid {
    /// representation invariant: three ranges inside repr at char boundaries (established by `Kid::from`, unit kid_from)
    pub open spec fn wf(&self) -> bool {
        forall|i: int| 0 <= i < 3 ==> {
            let c = #[trigger] self.components@[i];
            &&& c.0 <= c.1 <= self.repr.b().len() &&& bdy(self.repr.b(), c.0 as int) &&& bdy(self.repr.b(), c.1 as int)
        }
    }
    pub open spec fn part(&self, i: int) -> Seq<u8> { self.repr.b().subrange(self.components@[i].0 as int, self.components@[i].1 as int) }
}
/// lexicographic by name, then version, then source
#[verifier::opaque]
pub open spec fn kid_cmp(a: &Kid, b: &Kid) -> Ordering {
    if lex(a.part(0), b.part(0)) != Ordering::Equal { lex(a.part(0), b.part(0)) }
    else if lex(a.part(1), b.part(1)) != Ordering::Equal { lex(a.part(1), b.part(1)) }
    else { lex(a.part(2), b.part(2)) }
}
"""
ACC = [Fn(f"Kid::{n}", L, f"Kid::{n}", f"fn {n}(&self) -> (r: &str) requires self.wf(), ensures r.b() == self.part({i})", impl="impl Kid",
          at={"start": f"proof {{ let c = self.components@[{i}]; }}"}) for i, n in enumerate(["name", "version", "source"])]
SPEC = KID_SPEC + r"""

/// what a Hasher has been fed
#[verifier::external_body]
pub struct HState { x: u64 }
impl HState { pub uninterp spec fn fed(&self) -> Seq<Seq<u8>>; }
pub trait HashX: Bytes { fn vx_hash(&self, st: &mut HState) ensures final(st).fed() == old(st).fed().push(self.b()); }
impl HashX for str { #[verifier::external_body] fn vx_hash(&self, st: &mut HState) { unimplemented!() } }
impl HashX for String { #[verifier::external_body] fn vx_hash(&self, st: &mut HState) { unimplemented!() } }
pub open spec fn fed3(k: &Kid) -> Seq<Seq<u8>> { seq![k.part(0), k.part(1), k.part(2)] }
"""
LEMMAS = r"""
/// the order is total, antisymmetric and transitive, equality is equality of the three parts, and equal ids hash equally
proof fn laws(a: &Kid, b: &Kid, c: &Kid)
    ensures
        kid_cmp(a, a) == Ordering::Equal,
        kid_cmp(a, b) == rev(kid_cmp(b, a)),
        kid_cmp(a, b) == Ordering::Equal <==> (a.part(0) == b.part(0) && a.part(1) == b.part(1) && a.part(2) == b.part(2)),
        kid_cmp(a, b) == Ordering::Less && kid_cmp(b, c) == Ordering::Less ==> kid_cmp(a, c) == Ordering::Less,
        kid_cmp(a, b) == Ordering::Equal && kid_cmp(b, c) == Ordering::Less ==> kid_cmp(a, c) == Ordering::Less,
        kid_cmp(a, b) == Ordering::Less && kid_cmp(b, c) == Ordering::Equal ==> kid_cmp(a, c) == Ordering::Less,
        kid_cmp(a, b) == Ordering::Equal ==> fed3(a) == fed3(b),
{
    kid_laws(a, b, c);
    if kid_cmp(a, b) == Ordering::Equal { assert(fed3(a) =~= fed3(b)); }
}
"""
KID_LAWS = r"""
pub proof fn kid_laws(a: &Kid, b: &Kid, c: &Kid)
    ensures
        kid_cmp(a, a) == Ordering::Equal,
        kid_cmp(a, b) == rev(kid_cmp(b, a)),
        kid_cmp(a, b) == Ordering::Equal <==> (a.part(0) == b.part(0) && a.part(1) == b.part(1) && a.part(2) == b.part(2)),
        kid_cmp(a, b) == Ordering::Less && kid_cmp(b, c) == Ordering::Less ==> kid_cmp(a, c) == Ordering::Less,
        kid_cmp(a, b) == Ordering::Equal && kid_cmp(b, c) == Ordering::Less ==> kid_cmp(a, c) == Ordering::Less,
        kid_cmp(a, b) == Ordering::Less && kid_cmp(b, c) == Ordering::Equal ==> kid_cmp(a, c) == Ordering::Less,
{
    reveal(kid_cmp);
    lex_eq(a.part(0), a.part(0)); lex_eq(a.part(1), a.part(1)); lex_eq(a.part(2), a.part(2));
    lex_rev(a.part(0), b.part(0)); lex_rev(a.part(1), b.part(1)); lex_rev(a.part(2), b.part(2));
    lex_eq(a.part(0), b.part(0)); lex_eq(a.part(1), b.part(1)); lex_eq(a.part(2), b.part(2));
    lex_eq(b.part(0), c.part(0)); lex_eq(b.part(1), c.part(1)); lex_eq(b.part(2), c.part(2));
    if lex(a.part(0), b.part(0)) == Ordering::Less && lex(b.part(0), c.part(0)) == Ordering::Less { lex_trans(a.part(0), b.part(0), c.part(0)); }
    if lex(a.part(1), b.part(1)) == Ordering::Less && lex(b.part(1), c.part(1)) == Ordering::Less { lex_trans(a.part(1), b.part(1), c.part(1)); }
    if lex(a.part(2), b.part(2)) == Ordering::Less && lex(b.part(2), c.part(2)) == Ordering::Less { lex_trans(a.part(2), b.part(2), c.part(2)); }
}
"""
UNITS = [Unit("kid", ["C02"], prelude=["str", "iter", "order"], types=[Ty(L, "Kid")], spec=SPEC, lemmas=KID_LAWS + LEMMAS, fns=ACC + [
    Fn("Kid::cmp", L, "Ord for Kid::cmp", "fn cmp(&self, $p0: &Self) -> (r: Ordering) requires self.wf(), $p0.wf(), ensures r == kid_cmp(self, $p0)", impl="impl Kid",
       methods=[("cmp", "*", "vx_cmp"), ("into_iter", "0", "vx_into_iter"), ("zip", "*", "vx_zip")],
       loops={0: forinv(0, "zipped(self.components@, $p0.components@)", """self.wf(), $p0.wf(),
            forall|j: int| 0 <= j < vx_it0.i() ==> lex(#[trigger] self.part(j), $p0.part(j)) == Ordering::Equal""")},
       at={"start": "proof { reveal(kid_cmp); }", "l0_start": "let ghost k = vx_it0.i() - 1; proof { assert(ar == self.components@[k] && br == $p0.components@[k]); }",
           "l0_after": "proof { assert(self.components@.len() == 3); assert(lex(self.part(0), $p0.part(0)) == Ordering::Equal); assert(lex(self.part(1), $p0.part(1)) == Ordering::Equal); assert(lex(self.part(2), $p0.part(2)) == Ordering::Equal); }"}),
    Fn("Kid::partial_cmp", L, "PartialOrd for Kid::partial_cmp", "fn partial_cmp(&self, $p0: &Self) -> (r: Option<Ordering>) requires self.wf(), $p0.wf(), ensures r == Some(kid_cmp(self, $p0))", impl="impl Kid"),
    Fn("Kid::eq", L, "PartialEq for Kid::eq", "fn eq_(&self, $p0: &Self) -> (r: bool) requires self.wf(), $p0.wf(), ensures r == (kid_cmp(self, $p0) == Ordering::Equal)", impl="impl Kid"),
    Fn("Kid::hash", L, "Hash for Kid::hash", "fn hash(&self, $p0: &mut HState) requires self.wf(), ensures final($p0).fed() == old($p0).fed() + fed3(self)", impl="impl Kid",
       methods=[("hash", "*", "vx_hash")],
       loops={0: forinv(0, "self.components@", """self.wf(),
            $p0.fed() == old($p0).fed() + fed3(self).subrange(0, vx_it0.i())""")},
       at={"l0_before": "proof { assert($p0.fed() =~= old($p0).fed() + fed3(self).subrange(0, 0)); }",
           "l0_start": "let ghost k = vx_it0.i() - 1; proof { assert((s, e) == self.components@[k]); }",
           "l0_end": "proof { assert(fed3(self).subrange(0, k + 1) =~= fed3(self).subrange(0, k).push(fed3(self)[k])); assert(fed3(self)[k] == self.part(k)); }",
           "l0_after": "proof { assert(self.components@.len() == 3); assert(vx_it0.i() == 3); assert(fed3(self).subrange(0, 3) =~= fed3(self)); }"}),
])]
