from _common import *
import kid, _meta
L, B, CM = "src/lib.rs", "src/builder.rs", "src/cm.rs"
BM = "Builder::build_with_metadata"
IN = BM + "/"
KM = (r"BTreeMap<&'(\w+) Kid, ", r"KMap<'\1, ")
SETS = (r"\bBTreeSet<", "SetX<")
LNODE = Ty(L, "Node", subst=[("EnabledFeatures", "SetX<String>"), (r"\bNode\b", "LNode")])
INNER = [Ty(B, IN + "DepKindInfo"), Ty(B, IN + "NodeDep"), Ty(B, IN + "Node"), Ty(B, IN + "DependencyEdge"), Ty(B, IN + "PackageNode", subst=[KM]), Ty(B, IN + "KrateDependency", subst=[SETS]),
         Ty(B, IN + "FeatureEdgeName"), Ty(B, IN + "FeatureEdge"), Ty(B, IN + "KrateFeatures", subst=[KM, SETS])]
TYPES = _meta.TYPES + [Ty(L, "Kid"), Ty(L, "DepKind", attrs="#[derive(Clone, Copy)]"), Ty(L, "MdTarget"), LNODE] + INNER
BASE = kid.KID_SPEC + kid.KID_LAWS + r"""
pub trait CloneS: Sized { fn vx_clone(&self) -> (r: Self) ensures self.cl(&r); spec fn cl(&self, r: &Self) -> bool; }
impl CloneS for PackageId { open spec fn cl(&self, r: &Self) -> bool { self.repr@ == r.repr@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
/// ids that are written as cargo writes them, and the parts they name (Kid::from is proved against this in unit kid_from)
pub uninterp spec fn cargo_id(id: Seq<char>) -> bool;
pub uninterp spec fn id_key(id: Seq<char>) -> KKey;
impl Kid { #[verifier::external_body] pub fn from(id: PackageId) -> (r: Kid) requires cargo_id(id.repr@), ensures r.wf(), kkey(&r) == id_key(id.repr@) { unimplemented!() } }
"""
NODE_SPEC = r"""
pub type Pk = (Kid, Package);
pub open spec fn k_less(a: &Kid, b: &Kid) -> bool { kid_cmp(a, b) == Ordering::Less }
pub open spec fn is_text(s: Seq<String>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t }
/// nodes by strictly increasing identifier
pub open spec fn nodes_ok(ns: Seq<Node>) -> bool { (forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).id.wf()) && forall|i: int, j: int| 0 <= i < j < ns.len() ==> k_less(&(#[trigger] ns[i]).id, &(#[trigger] ns[j]).id) }
pub open spec fn is_node(ns: Seq<Node>, k: KKey, i: int) -> bool { 0 <= i < ns.len() && kkey(&ns[i].id) == k }
pub open spec fn has_node(ns: Seq<Node>, k: KKey) -> bool { exists|i: int| is_node(ns, k, i) }
pub trait UnwrapX<T, E>: Sized { spec fn rs(self) -> Result<T, E>; fn vx_unwrap(self) -> (r: T) requires self.rs() is Ok, ensures self.rs() == Ok::<T, E>(r); }
impl<T, E> UnwrapX<T, E> for Result<T, E> { open spec fn rs(self) -> Result<T, E> { self } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } }
pub trait OwnX { spec fn oc(&self) -> Seq<char>; fn vx_own(&self) -> (r: String) ensures r@ == self.oc(); }
impl OwnX for str { open spec fn oc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
"""
SPEC = BASE + NODE_SPEC + r"""
/// packages by strictly increasing identifier
pub open spec fn in_order(p: Seq<Pk>) -> bool { (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0.wf()) && forall|i: int, j: int| 0 <= i < j < p.len() ==> k_less(&(#[trigger] p[i]).0, &(#[trigger] p[j]).0) }
// ---- sorting
pub open spec fn cmp_pk() -> spec_fn(Pk, Pk) -> Ordering { |a: Pk, b: Pk| kid_cmp(&a.0, &b.0) }
pub open spec fn is_order<T>(k: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] k(a, b) == rev(k(b, a))
    &&& forall|a: T, b: T, c: T| #[trigger] k(a, b) != Ordering::Greater && #[trigger] k(b, c) != Ordering::Greater ==> k(a, c) != Ordering::Greater
}
pub open spec fn decided_by<T, F: Fn(&T, &T) -> Ordering>(f: F, k: spec_fn(T, T) -> Ordering) -> bool { is_order(k) && forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == k(*a, *b) }
pub trait SortX<T> {
    spec fn el(&self) -> Seq<T>;
    fn vx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, Ghost(k): Ghost<spec_fn(T, T) -> Ordering>)
        requires forall|a: &T, b: &T| old(self).el().contains(*a) && old(self).el().contains(*b) ==> #[trigger] f.requires((a, b)), decided_by(f, k),
        ensures final(self).el().to_multiset() == old(self).el().to_multiset(), forall|i: int, j: int| 0 <= i < j < final(self).el().len() ==> k(#[trigger] final(self).el()[i], #[trigger] final(self).el()[j]) != Ordering::Greater;
}
impl<T> SortX<T> for Vec<T> { open spec fn el(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, Ghost(k): Ghost<spec_fn(T, T) -> Ordering>) { unimplemented!() } }
/// each package is as the document has it, under its own identifier
pub open spec fn keyed(p: Pk) -> bool { p.0.wf() && kkey(&p.0) == id_key(p.1.id.repr@) }
pub open spec fn pks(p: Seq<Pk>) -> Seq<Package> { Seq::new(p.len(), |i: int| p[i].1) }
pub open spec fn distinct_ids(p: Seq<Package>) -> bool { (forall|i: int| 0 <= i < p.len() ==> cargo_id((#[trigger] p[i]).id.repr@)) && forall|i: int, j: int| 0 <= i < j < p.len() ==> id_key((#[trigger] p[i]).id.repr@) != id_key((#[trigger] p[j]).id.repr@) }
// ---- node insertion
pub trait OnFilter { spec fn log(&self) -> Seq<Package>; fn filtered(&mut self, p: Package) ensures final(self).log() == old(self).log().push(p); }
pub trait FromPkg: Sized { spec fn made(&self, p: Package) -> bool; fn from(p: Package) -> (r: Self) ensures r.made(p); }
impl SetX<String> { pub uninterp spec fn tx(&self) -> Set<Seq<char>>; }
impl FromIt<String> for SetX<String> { open spec fn from_it(s: Seq<String>, r: Self) -> bool { forall|t: Seq<char>| #[trigger] r.tx().contains(t) <==> is_text(s, t) } }
pub trait ClonedX<'a>: VxInto<T = &'a String> { fn vx_cloned(self) -> (r: It<String>) ensures r.i() == 0, r.wf(), r.s().len() == self.vseq().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.vseq()[i]] 0 <= i < r.s().len() ==> r.s()[i]@ == self.vseq()[i]@; }
pub trait MapV<T>: VxInto<T = T> { fn vx_mapv<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures r.i() == 0, r.wf(), r.s().len() == self.vseq().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.vseq()[i]] 0 <= i < r.s().len() ==> f.ensures((self.vseq()[i],), r.s()[i]); }
impl<T, I: VxInto<T = T>> MapV<T> for I { #[verifier::external_body] fn vx_mapv<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>) { unimplemented!() } }
impl<'a, I: VxInto<T = &'a String>> ClonedX<'a> for I { #[verifier::external_body] fn vx_cloned(self) -> (r: It<String>) { unimplemented!() } }
#[verifier::external_body] pub fn vx_nones(n: usize) -> (r: Vec<Option<NodeId>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None { unimplemented!() }
impl<W, E> Graph<W, E> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.raw() == Seq::<GNode<W>>::empty(), r.edges() == Seq::<GEdge<E>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn reserve_nodes(&mut self, n: usize) ensures final(self).raw() == old(self).raw(), final(self).edges() == old(self).edges() { unimplemented!() }
    #[verifier::external_body] pub fn reserve_edges(&mut self, n: usize) ensures final(self).raw() == old(self).raw(), final(self).edges() == old(self).edges() { unimplemented!() }
    /// petgraph panics when its index type overflows
    #[verifier::external_body] pub fn add_node(&mut self, w: W) -> (r: NodeId) requires old(self).raw().len() < u32::MAX, ensures r.ix == old(self).raw().len(), final(self).raw() == old(self).raw().push(GNode { weight: w }), final(self).edges() == old(self).edges() { unimplemented!() }
    #[verifier::external_body] pub fn add_edge(&mut self, a: NodeId, z: NodeId, w: E) -> (r: EdgeId) requires a.ix < old(self).raw().len(), z.ix < old(self).raw().len(), old(self).edges().len() < u32::MAX, ensures r.ix == old(self).edges().len(), final(self).edges() == old(self).edges().push(GEdge { a, z, w }), final(self).raw() == old(self).raw() { unimplemented!() }
}
/// the packages whose identifier is (yes) or is not a key of the map, in order
pub open spec fn part<V>(p: Seq<Pk>, m: Map<KKey, V>, yes: bool) -> Seq<Pk> decreases p.len() { if p.len() == 0 { p } else { let r = part(p.drop_last(), m, yes); if m.contains_key(kkey(&p.last().0)) == yes { r.push(p.last()) } else { r } } }
/// the enabled features: all resolved ones for a root, else those some dependent or feature switched on
pub open spec fn feats(pn: PackageNode<'_>, kf: KrateFeatures<'_>, n: Node, t: Seq<char>) -> bool {
    if pn.is_root { is_text(n.features@, t) } else { exists|i: usize| #[trigger] kf.actual@.contains(i) && n.features@[i as int]@ == t }
}
pub open spec fn ready(p: Seq<Pk>, dm: Map<KKey, PackageNode<'_>>, fm: Map<KKey, KrateFeatures<'_>>, ns: Seq<Node>) -> bool {
    &&& in_order(p) && nodes_ok(ns) && p.len() < u32::MAX
    &&& forall|k: KKey| #[trigger] dm.contains_key(k) ==> fm.contains_key(k) && has_node(ns, k)
    &&& forall|k: KKey, j: int, i: usize| #[trigger] fm.contains_key(k) && #[trigger] is_node(ns, k, j) && #[trigger] fm[k].actual@.contains(i) ==> i < ns[j].features@.len()
}
/// the node a package becomes
pub open spec fn node_of<N: FromPkg>(g: LNode<N>, p: Pk, dm: Map<KKey, PackageNode<'_>>, fm: Map<KKey, KrateFeatures<'_>>, ns: Seq<Node>) -> bool {
    &&& g is Krate && g->id == p.0 && g->krate.made(p.1)
    &&& g->dep_mapping@.len() == p.1.dependencies@.len() && forall|i: int| 0 <= i < g->dep_mapping@.len() ==> (#[trigger] g->dep_mapping@[i]) is None
    &&& exists|j: int| #[trigger] is_node(ns, kkey(&p.0), j) && forall|t: Seq<char>| #[trigger] g->Krate_features.tx().contains(t) <==> feats(dm[kkey(&p.0)], fm[kkey(&p.0)], ns[j], t)
}
pub open spec fn inserted<N: FromPkg, E>(g: Graph<LNode<N>, E>, p: Seq<Pk>, dm: Map<KKey, PackageNode<'_>>, fm: Map<KKey, KrateFeatures<'_>>, ns: Seq<Node>) -> bool {
    let k = part(p, dm, true);
    g.edges().len() == 0 && g.raw().len() == k.len() && forall|i: int| 0 <= i < k.len() ==> node_of((#[trigger] g.raw()[i]).weight, k[i], dm, fm, ns)
}
"""
LEM = r"""
proof fn pk_order() ensures is_order(cmp_pk())
{
    assert forall|a: Pk, b: Pk| #[trigger] cmp_pk()(a, b) == rev(cmp_pk()(b, a)) by { kid_laws(&a.0, &b.0, &a.0); }
    assert forall|a: Pk, b: Pk, c: Pk| #[trigger] cmp_pk()(a, b) != Ordering::Greater && #[trigger] cmp_pk()(b, c) != Ordering::Greater implies cmp_pk()(a, c) != Ordering::Greater by { kid_laws(&a.0, &b.0, &c.0); kid_laws(&b.0, &c.0, &a.0); kid_laws(&a.0, &c.0, &b.0); same_cmp(&a.0, &b.0, &c.0); }
}
proof fn same_cmp(a: &Kid, b: &Kid, c: &Kid) ensures kkey(a) == kkey(b) ==> kid_cmp(a, c) == kid_cmp(b, c) && kid_cmp(c, a) == kid_cmp(c, b), kid_cmp(a, b) == Ordering::Equal <==> kkey(a) == kkey(b)
{ reveal(kid_cmp); kid_laws(a, b, c); }
proof fn node_search(ns: Seq<Node>, k: &Kid)
    requires nodes_ok(ns), k.wf(), has_node(ns, kkey(k)),
    ensures
        forall|i: int, j: int| 0 <= i < j < ns.len() ==> ord_le(kid_cmp(&(#[trigger] ns[i]).id, k), kid_cmp(&(#[trigger] ns[j]).id, k)),
        forall|i: int| 0 <= i < ns.len() && kid_cmp(&(#[trigger] ns[i]).id, k) == Ordering::Equal ==> is_node(ns, kkey(k), i),
        exists|i: int| 0 <= i < ns.len() && kid_cmp(&(#[trigger] ns[i]).id, k) == Ordering::Equal,
{
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies ord_le(kid_cmp(&(#[trigger] ns[i]).id, k), kid_cmp(&(#[trigger] ns[j]).id, k)) by {
        assert(k_less(&ns[i].id, &ns[j].id));
        kid_laws(&ns[i].id, &ns[j].id, k); kid_laws(&ns[j].id, k, &ns[i].id); kid_laws(k, &ns[i].id, &ns[j].id);
    }
    assert forall|i: int| 0 <= i < ns.len() && kid_cmp(&(#[trigger] ns[i]).id, k) == Ordering::Equal implies is_node(ns, kkey(k), i) by { kid_laws(&ns[i].id, k, k); }
    let i = choose|i: int| is_node(ns, kkey(k), i);
    kid_laws(&ns[i].id, k, k);
}
"""

LEM += r"""
proof fn part_len<V>(p: Seq<Pk>, m: Map<KKey, V>, yes: bool) ensures part(p, m, yes).len() <= p.len() decreases p.len() { if p.len() > 0 { part_len(p.drop_last(), m, yes); } }
proof fn part_step<V>(p: Seq<Pk>, m: Map<KKey, V>, i: int)
    requires 0 <= i < p.len(),
    ensures
        m.contains_key(kkey(&p[i].0)) ==> part(p.take(i + 1), m, true) == part(p.take(i), m, true).push(p[i]) && part(p.take(i + 1), m, false) == part(p.take(i), m, false),
        !m.contains_key(kkey(&p[i].0)) ==> part(p.take(i + 1), m, true) == part(p.take(i), m, true) && part(p.take(i + 1), m, false) == part(p.take(i), m, false).push(p[i]) && pks(part(p.take(i + 1), m, false)) == pks(part(p.take(i), m, false)).push(p[i].1),
{
    assert(p.take(i + 1).drop_last() =~= p.take(i));
    assert(p.take(i + 1).last() == p[i]);
    assert(pks(part(p.take(i), m, false).push(p[i])) =~= pks(part(p.take(i), m, false)).push(p[i].1));
}
"""
LEM += r"""
/// same packages the same number of times: the same goes for their contents
proof fn perm_pks(a: Seq<Pk>, b: Seq<Pk>)
    requires a.to_multiset() == b.to_multiset(),
    ensures pks(a).to_multiset() == pks(b).to_multiset(), a.len() == b.len(),
    decreases a.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() == 0 { assert(pks(a) =~= pks(b)); } else {
        let x = a.last();
        assert(a.contains(x)); assert(b.to_multiset().count(x) > 0);
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
        let a2 = a.remove(a.len() - 1); let b2 = b.remove(i);
        perm_pks(a2, b2);
        pks(a).to_multiset_ensures(); pks(b).to_multiset_ensures();
        assert(pks(a2) =~= pks(a).remove(a.len() - 1)); assert(pks(b2) =~= pks(b).remove(i));
        assert(pks(a).to_multiset() =~= pks(a2).to_multiset().insert(x.1)) by { assert(pks(a)[a.len() - 1] == x.1); pks(a2).to_multiset_ensures(); assert(pks(a) =~= pks(a2).push(x.1)); }
        assert(pks(b).to_multiset().count(x.1) > 0) by { assert(pks(b)[i] == x.1); assert(pks(b).contains(x.1)); }
        assert(pks(b).to_multiset() =~= pks(b2).to_multiset().insert(x.1)) by { assert(pks(b)[i] == x.1); }
    }
}
/// a permutation of packages under distinct identifiers, sorted by identifier, is strictly sorted
proof fn sorted_strict(c: Seq<Pk>, f: Seq<Pk>)
    requires
        distinct_ids(pks(c)), forall|i: int| 0 <= i < c.len() ==> keyed(#[trigger] c[i]), f.to_multiset() == c.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < f.len() ==> kid_cmp(&(#[trigger] f[i]).0, &(#[trigger] f[j]).0) != Ordering::Greater,
    ensures in_order(f), forall|i: int| 0 <= i < f.len() ==> keyed(#[trigger] f[i]),
{
    f.to_multiset_ensures(); c.to_multiset_ensures();
    assert forall|i: int| 0 <= i < f.len() implies c.contains(#[trigger] f[i]) by { assert(f.contains(f[i])); assert(f.to_multiset().count(f[i]) > 0); }
    assert forall|i: int| 0 <= i < f.len() implies keyed(#[trigger] f[i]) by { let k = choose|k: int| 0 <= k < c.len() && #[trigger] c[k] == f[i]; assert(keyed(c[k])); }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies k_less(&(#[trigger] f[i]).0, &(#[trigger] f[j]).0) by {
        let a = choose|k: int| 0 <= k < c.len() && #[trigger] c[k] == f[i]; let b = choose|k: int| 0 <= k < c.len() && #[trigger] c[k] == f[j];
        assert(pks(c)[a] == c[a].1 && pks(c)[b] == c[b].1); assert(keyed(c[a]) && keyed(c[b]));
        if a == b {
            // it would be there twice
            let x = f[i];
            let f2 = f.remove(j); f2.to_multiset_ensures(); assert(f2[i] == x); assert(f2.contains(x));
            let c2 = c.remove(a); c2.to_multiset_ensures();
            assert(f2.to_multiset().count(x) > 0); assert(c2.to_multiset() =~= c.to_multiset().remove(c[a])); assert(f2.to_multiset() =~= f.to_multiset().remove(f[j])); assert(c2.contains(x));
            let k = choose|k: int| 0 <= k < c2.len() && #[trigger] c2[k] == x;
            let k2 = if k < a { k } else { k + 1 };
            assert(c[k2] == x); assert(pks(c)[k2] == pks(c)[a]);
            assert(false);
        }
        kid_laws(&f[i].0, &f[j].0, &f[j].0);
    }
}
"""
LEM += r"""
/// every package is in exactly one of the two parts, as often as the document has it; both parts keep the order
proof fn split<V>(p: Seq<Pk>, m: Map<KKey, V>)
    ensures
        part(p, m, true).to_multiset().add(part(p, m, false).to_multiset()) == p.to_multiset(),
        forall|y: bool, i: int| 0 <= i < part(p, m, y).len() ==> p.contains(#[trigger] part(p, m, y)[i]) && m.contains_key(kkey(&part(p, m, y)[i].0)) == y,
        in_order(p) ==> in_order(part(p, m, true)) && in_order(part(p, m, false)),
    decreases p.len(),
{
    p.to_multiset_ensures();
    if p.len() == 0 { assert(part(p, m, true).to_multiset().add(part(p, m, false).to_multiset()) =~= p.to_multiset()); }
    else {
        let q = p.drop_last(); let x = p.last(); let y = m.contains_key(kkey(&x.0));
        split(q, m);
        assert(p =~= q.push(x));
        let a = part(q, m, true); let b = part(q, m, false);
        q.to_multiset_ensures(); a.to_multiset_ensures(); b.to_multiset_ensures();
        assert(part(p, m, true).to_multiset().add(part(p, m, false).to_multiset()) =~= p.to_multiset());
        assert(forall|z: Pk| q.contains(z) ==> p.contains(z)) by { assert forall|z: Pk| q.contains(z) implies p.contains(z) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == z; assert(p[i] == z); } }
        assert(p.contains(x)) by { assert(p[p.len() - 1] == x); }
        if in_order(p) {
            assert(in_order(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies k_less(&(#[trigger] q[i]).0, &(#[trigger] q[j]).0) by { assert(q[i] == p[i] && q[j] == p[j]); } assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0.wf() by { assert(q[i] == p[i]); } }
            assert forall|y: bool, i: int| 0 <= i < part(q, m, y).len() implies k_less(&(#[trigger] part(q, m, y)[i]).0, &x.0) by { let z = part(q, m, y)[i]; assert(q.contains(z)); let k = choose|k: int| 0 <= k < q.len() && q[k] == z; assert(p[k] == z); assert(p[p.len() - 1] == x); }
        }
    }
}
"""
M = STR + [("map", "*", "vx_mapv"), ("collect", "0", "vx_collect"), ("into_iter", "0", "vx_into_iter"), ("clone", "0", "vx_clone"), ("iter", "0", "vx_iter"), ("cloned", "0", "vx_cloned"), ("to_owned", "0", "vx_own"), ("get", "*", "vx_get"), ("binary_search_by", "*", "vx_bsearch"), ("unwrap", "0", "vx_unwrap")]
def SORT(k):
    """the ghost argument of a sort: the order its comparison decides"""
    return (r"(vx_sort_by\((?s:.*?))\);(\s*vx_at!\(call_vx_sort_by\))", r"\1, Ghost(" + k + r"));\2")


FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [
    Fn("Node::feature", B, IN + "Node::feature", "fn feature(&self, $p0: usize) -> (r: &str) requires $p0 < self.features@.len(), ensures r@ == self.features@[$p0 as int]@", impl="impl Node"),
    Fn("get_rnode", B, BM, """fn get_rnode<'n>(nodes: &'n Vec<Node>, vxq0: &Kid) -> (r: &'n Node)
    requires nodes_ok(nodes@), vxq0.wf(), has_node(nodes@, kkey(vxq0)),
    ensures exists|j: int| #[trigger] is_node(nodes@, kkey(vxq0), j) && *r == nodes@[j]""",
       select="let:get_rnode;closure:#0", methods=M,
       closures={0: "|vxp0: &Node| -> (o: Ordering) requires vxp0.id.wf(), ensures o == kid_cmp(&vxp0.id, vxq0)"},
       at={"start": "proof { node_search(nodes@, vxq0); }"}),
    Fn("load_packages", B, BM, """fn load_packages(md_packages: Vec<Package>) -> (r: Vec<Pk>) requires distinct_ids(md_packages@),
    ensures in_order(r@), forall|i: int| 0 <= i < r@.len() ==> keyed(#[trigger] r@[i]), pks(r@).to_multiset() == md_packages@.to_multiset()""",
       select="stmts:let:packages..text:ifletSome(index)=self.crates_io_index", methods=M + [("sort_by", "closure", "vx_sort_by"), ("sort_unstable_by", "closure", "vx_sort_by")], ret="packages",
       subst=[(r"\bmd\s*\.\s*packages", "md_packages"), SORT("cmp_pk()")],
       closures={0: "|vxp0: Package| -> (r: Pk) requires cargo_id(vxp0.id.repr@), ensures keyed(r), r.1 == vxp0",
                 1: "|vxp0: &Pk, vxp1: &Pk| -> (o: Ordering) requires vxp0.0.wf(), vxp1.0.wf(), ensures o == kid_cmp(&vxp0.0, &vxp1.0)"},
       at={"let_packages": "let ghost c0 = packages@; proof { assert(pks(c0) =~= md_packages@); pk_order(); c0.to_multiset_ensures(); }", "call_vx_sort_by": "proof { sorted_strict(c0, packages@); perm_pks(packages@, c0); }"},
       pre="", final=None),
    Fn("insert_nodes", B, BM, """fn insert_nodes<N: FromPkg, E, F: OnFilter>(packages: Vec<Pk>, dep_edge_map: &KMap<'_, PackageNode<'_>>, feature_edge_map: &KMap<'_, KrateFeatures<'_>>, nodes: &Vec<Node>, on_filter: &mut F) -> (r: (Graph<LNode<N>, E>, usize))
    requires ready(packages@, dep_edge_map.m(), feature_edge_map.m(), nodes@),
    ensures r.1 == r.0.raw().len(), inserted(r.0, packages@, dep_edge_map.m(), feature_edge_map.m(), nodes@), final(on_filter).log() == old(on_filter).log() + pks(part(packages@, dep_edge_map.m(), false))""",
       select="stmts:let:graph..let:get", methods=M, ret="(graph, krates_end)", index=[("feature_edge_map", "vx_at")],
       subst=[(r"crate::Node::Krate", "LNode::Krate"), (r"petgraph::Graph::<crate::Node<N>, E>::new", "Graph::<LNode<N>, E>::new"), (r"vec!\[None; (.*?)\]", r"vx_nones(\1)"), (r"get_rnode\(", "get_rnode(nodes, ")],
       closures={0: "|vxp0: &usize| -> (r: String) requires *vxp0 < rnode.features@.len(), ensures r@ == rnode.features@[*vxp0 as int]@"},
       at={"start": "let ghost l0 = on_filter.log(); let ghost dm = dep_edge_map.m(); let ghost fm = feature_edge_map.m();",
           "l0_before": "proof { assert(packages@.take(0) =~= Seq::<Pk>::empty()); assert(l0 + pks(part(packages@.take(0), dm, false)) =~= l0); }",
           "l0_start": "let ghost i = vx_it0.i() - 1; let ghost r0 = graph.raw(); proof { part_step(vx_s0, dm, i); part_len(vx_s0.take(i), dm, true); assert(vx_s0[i] == (id, krate)); assert(l0 + pks(part(vx_s0.take(i), dm, false)).push(krate) =~= (l0 + pks(part(vx_s0.take(i), dm, false))).push(krate)); }",
           "let_krate": "proof { let p0 = vx_s0[i]; let j = choose|j: int| is_node(nodes@, kkey(&p0.0), j) && *rnode == nodes@[j]; assert(is_node(nodes@, kkey(&p0.0), j)); if pn.is_root { assert forall|t: Seq<char>| #[trigger] krate->Krate_features.tx().contains(t) <==> feats(dm[kkey(&p0.0)], fm[kkey(&p0.0)], nodes@[j], t) by { let rs = refs(nodes@[j].features@); if is_text(nodes@[j].features@, t) { let i = choose|i: int| 0 <= i < nodes@[j].features@.len() && (#[trigger] nodes@[j].features@[i])@ == t; assert(rs[i]@ == t); } } } else { assert forall|t: Seq<char>| #[trigger] krate->Krate_features.tx().contains(t) <==> feats(dm[kkey(&p0.0)], fm[kkey(&p0.0)], nodes@[j], t) by { } } }",
           "l0_after": "proof { assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0); part_len(vx_s0, dm, true); }"},
       loops={0: forinv(0, None, """vx_s0 == packages@, edge_count <= vx_it0.i() * 0x8000_0000, graph.edges().len() == 0,
            on_filter.log() == l0 + pks(part(vx_s0.take(vx_it0.i()), dm, false)),
            inserted(graph, vx_s0.take(vx_it0.i()), dm, fm, nodes@)""")}),
]
UNITS = [Unit("build_nodes", ["C03", "C04", "C07", "C19", "C20"], prelude=["str", "iter", "order", "streq", "opt", "graph", "coll", "semver", "cfgexpr", "meta", "kmap"], types=TYPES, mods=dict(_meta.MODS), spec="global size_of usize == 8;\n" + SPEC, lemmas=LEM, fns=FNS)]
