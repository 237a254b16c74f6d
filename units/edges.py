from _common import *
import kid, _meta, build
L, B, BM, IN = "src/lib.rs", "src/builder.rs", build.BM, build.IN
TYPES = build.TYPES + [Ty(L, "Edge")]
SPEC = build.BASE + build.NODE_SPEC + r"""
/// what Kid's == says of something that is not an identifier (nothing is known); for identifiers it is proved in unit kid
pub uninterp spec fn bad_eq(a: &Kid, b: &Kid) -> bool;
impl VxEq<&Kid> for &Kid { open spec fn eqs(&self, o: &&Kid) -> bool { if self.wf() && o.wf() { kkey(*self) == kkey(*o) } else { bad_eq(*self, *o) } } #[verifier::external_body] fn vx_eq_(&self, o: &&Kid) -> bool { unimplemented!() } }
impl<W, E> Graph<W, E> {
    /// (running out of node or edge numbers is like running out of memory: the call does not return)
    #[verifier::external_body] pub fn add_node(&mut self, w: W) -> (r: NodeId) ensures r.ix == old(self).raw().len(), final(self).raw() == old(self).raw().push(GNode { weight: w }), final(self).edges() == old(self).edges(), final(self).raw().len() <= u32::MAX { unimplemented!() }
    #[verifier::external_body] pub fn add_edge(&mut self, a: NodeId, z: NodeId, w: E) -> (r: EdgeId) requires a.ix < old(self).raw().len(), z.ix < old(self).raw().len(), ensures r.ix == old(self).edges().len(), final(self).edges() == old(self).edges().push(GEdge { a, z, w }), final(self).raw() == old(self).raw(), final(self).edges().len() <= u32::MAX { unimplemented!() }
    #[verifier::external_body] pub fn vx_index_mut(&mut self, n: NodeId) -> (r: &mut W) requires n.ix < old(self).raw().len(), ensures *r == old(self).raw()[n.ix as int].weight, final(self).raw() == old(self).raw().update(n.ix as int, GNode { weight: *final(r) }), final(self).edges() == old(self).edges() { unimplemented!() }
}
pub fn vx_set<T>(v: &mut Vec<T>, i: usize, x: T) requires i < old(v)@.len(), ensures final(v)@ == old(v)@.update(i as int, x) { v.set(i, x); }
impl CloneS for Option<String> { open spec fn cl(&self, r: &Self) -> bool { ctext(*self) == ctext(*r) } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// ---- the edges of the graph, as what they were made from
pub open spec fn ctext(c: Option<String>) -> Option<Seq<char>> { match c { Some(s) => Some(s@), None => None } }
pub ghost enum GE { Dep(DepKind, Option<Seq<char>>), DepF(DepKind, Option<Seq<char>>), Feat }
pub open spec fn ge(e: Edge) -> GE { match e { Edge::Dep { kind, cfg } => GE::Dep(kind, ctext(cfg)), Edge::DepFeature { kind, cfg } => GE::DepF(kind, ctext(cfg)), Edge::Feature => GE::Feat } }
/// the caller's edge type
pub trait FromEdge: Sized { spec fn made(&self, x: GE) -> bool; fn from(e: Edge) -> (r: Self) ensures r.made(ge(e)); }
fn vx_edge_into<E: FromEdge>(e: Edge) -> (r: E) ensures r.made(ge(e)) { E::from(e) }
pub type G<N, E> = Graph<LNode<N>, E>;
pub type Ks = Seq<KKey>;
pub type Dm<'n> = Map<KKey, PackageNode<'n>>;
pub open spec fn is_k<N>(w: LNode<N>, k: KKey) -> bool { w is Krate && w->id.wf() && kkey(&w->id) == k }
/// C20, C03: crates first, each once, then the features of these crates; edges join nodes of the graph
pub open spec fn shape<N, E>(g: G<N, E>, ks: Ks) -> bool {
    &&& ks.len() <= g.raw().len() <= u32::MAX && g.edges().len() <= u32::MAX
    &&& forall|i: int| 0 <= i < ks.len() ==> is_k((#[trigger] g.raw()[i]).weight, ks[i])
    &&& forall|i: int| ks.len() <= i < g.raw().len() ==> (#[trigger] g.raw()[i]).weight is Feature && g.raw()[i].weight->krate_index.ix < ks.len()
    &&& forall|k: int| 0 <= k < g.edges().len() ==> (#[trigger] g.edges()[k]).a.ix < g.raw().len() && g.edges()[k].z.ix < g.raw().len()
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
}
pub open spec fn is_fn<N>(w: LNode<N>, t: int, s: Seq<char>) -> bool { w is Feature && w->krate_index.ix == t && w->name@ == s }
/// n is the node of feature s of the crate at t
pub open spec fn fnode<N, E>(g: G<N, E>, n: int, t: int, s: Seq<char>) -> bool { 0 <= n < g.raw().len() && is_fn(g.raw()[n].weight, t, s) }
pub open spec fn is_edge<N, E: FromEdge>(g: G<N, E>, k: int, a: int, z: int, x: GE) -> bool { 0 <= k < g.edges().len() && g.edges()[k].a.ix == a && g.edges()[k].z.ix == z && g.edges()[k].w.made(x) }
pub open spec fn has<N, E: FromEdge>(g: G<N, E>, a: int, z: int, x: GE) -> bool { exists|k: int| #[trigger] is_edge(g, k, a, z, x) }
pub open spec fn has_fe<N, E: FromEdge>(g: G<N, E>, a: int, t: int, s: Seq<char>, x: GE) -> bool { exists|z: int| #[trigger] fnode(g, z, t, s) && has(g, a, z, x) }
pub open spec fn dmap<N>(w: LNode<N>) -> Seq<Option<NodeId>> { w->dep_mapping@ }
pub open spec fn same_node<N>(a: LNode<N>, b: LNode<N>) -> bool { (a is Feature && b == a) || (a is Krate && b is Krate && b->id == a->id && b->krate == a->krate && b->Krate_features == a->Krate_features && dmap(b).len() == dmap(a).len() && forall|j: int| 0 <= j < dmap(a).len() && dmap(a)[j] is Some ==> #[trigger] dmap(b)[j] is Some) }
/// nothing was taken away
pub open spec fn grow<N, E>(g0: G<N, E>, g: G<N, E>) -> bool {
    &&& g0.raw().len() <= g.raw().len() && g0.edges().len() <= g.edges().len()
    &&& forall|i: int| 0 <= i < g0.raw().len() ==> same_node(g0.raw()[i].weight, (#[trigger] g.raw()[i]).weight)
    &&& forall|k: int| 0 <= k < g0.edges().len() ==> #[trigger] g.edges()[k] == g0.edges()[k]
}
// ---- what the walk recorded about a dependency, as edges
pub open spec fn nq(ns: Seq<Node>, q: KKey) -> Node { ns[choose|i: int| is_node(ns, q, i)] }
pub open spec fn fname(n: Node, y: usize) -> Seq<char> { n.features@[y as int]@ }
pub open spec fn eoff(e: DependencyEdge, n: Node, x: GE, s: Option<Seq<char>>) -> bool {
    match x { GE::Dep(k, c) => e.features@.len() == 0 && e.kind == k && ctext(e.cfg) == c && s is None, GE::DepF(k, c) => e.kind == k && ctext(e.cfg) == c && s is Some && exists|i: int| 0 <= i < e.features@.len() && fname(n, #[trigger] e.features@[i]) == s->0, GE::Feat => false }
}
pub open spec fn woff(d: KrateDependency, n: Node, x: GE, s: Option<Seq<char>>) -> bool {
    (exists|j: int| 0 <= j < d.edges@.len() && eoff(#[trigger] d.edges@[j], n, x, s)) || (x == GE::Feat && s is Some && exists|y: usize| #[trigger] d.features@.contains(y) && fname(n, y) == s->0)
}
pub open spec fn eto<N, E>(g: G<N, E>, z: int, t: int, s: Option<Seq<char>>) -> bool { match s { None => z == t, Some(n) => fnode(g, z, t, n) } }
/// the edge is there because the crate at i depends on the crate at t
pub open spec fn whyx<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, k: int, i: int, t: int, x: GE, s: Option<Seq<char>>) -> bool {
    &&& 0 <= i < ks.len() && 0 <= t < ks.len() && dm.contains_key(ks[i]) && dm[ks[i]].deps.m().contains_key(ks[t])
    &&& g.edges()[k].a.ix == i && eto(g, g.edges()[k].z.ix as int, t, s) && g.edges()[k].w.made(x) && woff(dm[ks[i]].deps.m()[ks[t]], nq(ns, ks[t]), x, s)
}
pub open spec fn why<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, k: int) -> bool { exists|i: int, t: int, x: GE, s: Option<Seq<char>>| #[trigger] whyx(g, ks, ns, dm, k, i, t, x, s) }
/// a declaration maps to a crate it was recorded for
pub open spec fn maps_ok<N, E>(g: G<N, E>, ks: Ks, dm: Dm<'_>, i: int, j: int) -> bool {
    dmap(g.raw()[i].weight)[j] is Some ==> ({ let t = dmap(g.raw()[i].weight)[j]->0.ix as int; 0 <= t < ks.len() && dm.contains_key(ks[i]) && dm[ks[i]].deps.m().contains_key(ks[t]) && has_decl(dm[ks[i]].deps.m()[ks[t]], j) })
}
pub open spec fn has_decl(d: KrateDependency, j: int) -> bool { exists|e: int| 0 <= e < d.edges@.len() && (#[trigger] d.edges@[e]).dep_index == j }
/// C04, C10, C20: no edge and no mapping that was not recorded
pub open spec fn sound<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>) -> bool {
    &&& forall|k: int| 0 <= k < g.edges().len() ==> #[trigger] why(g, ks, ns, dm, k)
    &&& forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < dmap(g.raw()[i].weight).len() ==> #[trigger] maps_ok(g, ks, dm, i, j)
}
/// C04, C09, C10: what was recorded for a link is there
pub open spec fn cedge<N, E: FromEdge>(g: G<N, E>, i: int, t: int, n: Node, e: DependencyEdge) -> bool {
    &&& e.features@.len() == 0 ==> has(g, i, t, GE::Dep(e.kind, ctext(e.cfg)))
    &&& forall|f: int| 0 <= f < e.features@.len() ==> has_fe(g, i, t, fname(n, #[trigger] e.features@[f]), GE::DepF(e.kind, ctext(e.cfg)))
    &&& e.dep_index < dmap(g.raw()[i].weight).len() && dmap(g.raw()[i].weight)[e.dep_index as int] is Some
}
pub open spec fn cdep<N, E: FromEdge>(g: G<N, E>, i: int, t: int, n: Node, d: KrateDependency) -> bool {
    &&& forall|j: int| 0 <= j < d.edges@.len() ==> cedge(g, i, t, n, #[trigger] d.edges@[j])
    &&& forall|y: usize| #[trigger] d.features@.contains(y) ==> has_fe(g, i, t, fname(n, y), GE::Feat)
}
pub open spec fn csrc<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int) -> bool { dm.contains_key(ks[i]) ==> forall|t: int| 0 <= t < ks.len() && #[trigger] dm[ks[i]].deps.m().contains_key(ks[t]) ==> cdep(g, i, t, nq(ns, ks[t]), dm[ks[i]].deps.m()[ks[t]]) }
/// what the walk recorded fits the nodes and the declarations
pub open spec fn edge_fits<N, E>(g: G<N, E>, i: int, n: Node, e: DependencyEdge) -> bool { e.dep_index < dmap(g.raw()[i].weight).len() && forall|f: int| 0 <= f < e.features@.len() ==> #[trigger] e.features@[f] < n.features@.len() }
pub open spec fn dep_fits<N, E>(g: G<N, E>, i: int, n: Node, d: KrateDependency) -> bool { (forall|j: int| 0 <= j < d.edges@.len() ==> edge_fits(g, i, n, #[trigger] d.edges@[j])) && forall|y: usize| #[trigger] d.features@.contains(y) ==> y < n.features@.len() }
pub open spec fn src_fits<N, E>(g: G<N, E>, ks: Ks, ns: Seq<Node>, i: int, m: Map<KKey, KrateDependency>) -> bool { forall|q: KKey| #[trigger] m.contains_key(q) ==> has_node(ns, q) && dep_fits(g, i, nq(ns, q), m[q]) }
pub open spec fn gfits<N, E>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>) -> bool { nodes_ok(ns) && forall|i: int| 0 <= i < ks.len() && dm.contains_key(#[trigger] ks[i]) ==> src_fits(g, ks, ns, i, dm[ks[i]].deps.m()) }
pub open spec fn at_k(ks: Ks, k: KKey, t: int) -> bool { 0 <= t < ks.len() && ks[t] == k }
pub open spec fn in_k(ks: Ks, k: KKey) -> bool { exists|t: int| at_k(ks, k, t) }
/// get: the node of the crate, or of the feature of the crate
pub open spec fn got<N, E>(g: G<N, E>, ks: Ks, k: KKey, s: Option<Seq<char>>, r: Option<NodeId>) -> bool {
    match s {
        None => match r { Some(n) => at_k(ks, k, n.ix as int), None => !in_k(ks, k) },
        Some(f) => match r { Some(n) => exists|t: int| #[trigger] at_k(ks, k, t) && fnode(g, n.ix as int, t, f), None => forall|n: int, t: int| #[trigger] fnode(g, n, t, f) ==> !at_k(ks, k, t) },
    }
}
pub open spec fn oname(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
"""
LEM = r"""
proof fn gr_refl<N, E>(g: G<N, E>) ensures grow(g, g) { }
proof fn grow_facts<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>)
    requires grow(g0, g),
    ensures
        forall|n: int, t: int, s: Seq<char>| #[trigger] fnode(g0, n, t, s) ==> fnode(g, n, t, s),
        forall|a: int, z: int, x: GE| #[trigger] has(g0, a, z, x) ==> has(g, a, z, x),
        forall|a: int, t: int, s: Seq<char>, x: GE| #[trigger] has_fe(g0, a, t, s, x) ==> has_fe(g, a, t, s, x),
{
    assert forall|n: int, t: int, s: Seq<char>| #[trigger] fnode(g0, n, t, s) implies fnode(g, n, t, s) by { assert(same_node(g0.raw()[n].weight, g.raw()[n].weight)); }
    assert forall|a: int, z: int, x: GE| #[trigger] has(g0, a, z, x) implies has(g, a, z, x) by { let k = choose|k: int| #[trigger] is_edge(g0, k, a, z, x); assert(g.edges()[k] == g0.edges()[k]); assert(is_edge(g, k, a, z, x)); }
    assert forall|a: int, t: int, s: Seq<char>, x: GE| #[trigger] has_fe(g0, a, t, s, x) implies has_fe(g, a, t, s, x) by { let z = choose|z: int| #[trigger] fnode(g0, z, t, s) && has(g0, a, z, x); assert(fnode(g, z, t, s) && has(g, a, z, x)); }
}
proof fn gr_trans<N, E>(a: G<N, E>, b: G<N, E>, c: G<N, E>) requires grow(a, b), grow(b, c) ensures grow(a, c)
{
    assert forall|i: int| 0 <= i < a.raw().len() implies same_node(a.raw()[i].weight, (#[trigger] c.raw()[i]).weight) by {
        let (x, y, z) = (a.raw()[i].weight, b.raw()[i].weight, c.raw()[i].weight); assert(same_node(x, y)); assert(same_node(y, z));
        if x is Krate { assert forall|j: int| 0 <= j < dmap(x).len() && dmap(x)[j] is Some implies #[trigger] dmap(z)[j] is Some by { assert(dmap(y)[j] is Some); } }
    }
    assert forall|k: int| 0 <= k < a.edges().len() implies #[trigger] c.edges()[k] == a.edges()[k] by { assert(b.edges()[k] == a.edges()[k]); }
}
proof fn why_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, k: int)
    requires grow(g0, g), 0 <= k < g0.edges().len(), why(g0, ks, ns, dm, k), ensures why(g, ks, ns, dm, k),
{
    let (i, t, x, s) = choose|i: int, t: int, x: GE, s: Option<Seq<char>>| #[trigger] whyx(g0, ks, ns, dm, k, i, t, x, s);
    grow_facts(g0, g); assert(g.edges()[k] == g0.edges()[k]); assert(whyx(g, ks, ns, dm, k, i, t, x, s));
}
proof fn c_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, i: int, t: int, n: Node, d: KrateDependency)
    requires grow(g0, g), 0 <= i < g0.raw().len(), g0.raw()[i].weight is Krate,
    ensures forall|e: DependencyEdge| #[trigger] cedge(g0, i, t, n, e) ==> cedge(g, i, t, n, e), cdep(g0, i, t, n, d) ==> cdep(g, i, t, n, d),
{
    grow_facts(g0, g);
    assert forall|e: DependencyEdge| #[trigger] cedge(g0, i, t, n, e) implies cedge(g, i, t, n, e) by {
        assert(same_node(g0.raw()[i].weight, g.raw()[i].weight));
        assert(dmap(g.raw()[i].weight)[e.dep_index as int] is Some);
        assert forall|f: int| 0 <= f < e.features@.len() implies has_fe(g, i, t, fname(n, #[trigger] e.features@[f]), GE::DepF(e.kind, ctext(e.cfg))) by { assert(has_fe(g0, i, t, fname(n, e.features@[f]), GE::DepF(e.kind, ctext(e.cfg)))); }
    }
    if cdep(g0, i, t, n, d) { assert forall|j: int| 0 <= j < d.edges@.len() implies cedge(g, i, t, n, #[trigger] d.edges@[j]) by { assert(cedge(g0, i, t, n, d.edges@[j])); } }
}
"""
BF = {f.name: f for f in build.FNS}
ME = [("raw_nodes", "0", "raw_nodes"), ("enumerate", "0", "vx_enumerate"), ("find_map", "*", "vx_find_map"), ("iter", "0", "vx_iter")]
GS = [(r"crate::Node::", "LNode::"), (r"crate::NodeId", "NodeId")]
EL = "stmts:text:dep_edge_map.remove(pid)..=text:dep_edge_map.remove(pid);loop:#0"
FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [
    Fn("get", B, BM, """fn get<N, E>(krates_end: usize, vxq0: &Graph<LNode<N>, E>, vxq1: &Kid, vxq2: Option<&str>, Ghost(ks): Ghost<Ks>) -> (r: Option<NodeId>)
    requires shape(*vxq0, ks), krates_end == ks.len(), vxq1.wf(),
    ensures got(*vxq0, ks, kkey(vxq1), oname(vxq2), r)""", select="let:get;closure:#0", methods=ME, subst=GS, eqs=True, index=[("graph", "vx_index")],
       final="""proof {
           match vxq2 {
               Some(f) => {
                   let z = enumd(refs(vxq0.raw().subrange(krates_end as int, vxq0.raw().len() as int)));
                   if vx_r is None { assert forall|n: int, t: int| #[trigger] fnode(*vxq0, n, t, f@) implies !at_k(ks, kkey(vxq1), t) by { let j = n - krates_end; let y = z[j]; assert(y.1 == vxq0.raw()[n]); assert(y.1.weight is Feature); assert(y.1.weight->name@ == f@); assert(y.1.weight->krate_index.ix == t); assert(ks[t] != kkey(vxq1)); } }
                   else { let i = choose|i: int| #[trigger] z[i].0 == i && 0 <= i < z.len() && vx_r->0.ix == i + krates_end && z[i].1.weight is Feature && z[i].1.weight->name@ == f@ && ks[z[i].1.weight->krate_index.ix as int] == kkey(vxq1); let t = z[i].1.weight->krate_index.ix as int; assert(at_k(ks, kkey(vxq1), t)); assert(fnode(*vxq0, i + krates_end, t, f@)); }
               }
               None => {
                   let z = enumd(refs(vxq0.raw().subrange(0, krates_end as int)));
                   if vx_r is None { assert forall|t: int| !at_k(ks, kkey(vxq1), t) by { if 0 <= t < ks.len() { assert(z[t].1 == vxq0.raw()[t]); assert(is_k(vxq0.raw()[t].weight, ks[t])); } } }
               }
           }
       }""",
       closures={0: """|vxp0: (usize, &GNode<LNode<N>>)| -> (r: Option<NodeId>) requires shape(*graph, ks), krates_end == ks.len(), vxp0.0 + krates_end < graph.raw().len(), graph.raw()[vxp0.0 + krates_end] == *vxp0.1,
                   ensures r == (if vxp0.1.weight is Feature && vxp0.1.weight->name@ == feat@ && ks[vxp0.1.weight->krate_index.ix as int] == kkey(kid) { Some(NodeId { ix: (vxp0.0 + krates_end) as usize }) } else { None })""",
                 1: """|vxp0: (usize, &GNode<LNode<N>>)| -> (r: Option<NodeId>) requires shape(*graph, ks), krates_end == ks.len(), vxp0.0 < krates_end, graph.raw()[vxp0.0 as int] == *vxp0.1,
                   ensures r == (if ks[vxp0.0 as int] == kkey(kid) { Some(NodeId { ix: vxp0.0 }) } else { None })"""}),
    Fn("attach", B, BM, """fn attach<N, E: FromEdge>(krates_end: usize, srcid: NodeId, target_krate: NodeId, dep_id: &Kid, vxq0: &mut Graph<LNode<N>, E>, vxq1: String, vxq2: Edge, Ghost(ks): Ghost<Ks>)
    requires shape(*old(vxq0), ks), krates_end == ks.len(), dep_id.wf(), at_k(ks, kkey(dep_id), target_krate.ix as int), srcid.ix < ks.len(),
    ensures shape(*final(vxq0), ks), grow(*old(vxq0), *final(vxq0)), attached(*old(vxq0), *final(vxq0), srcid.ix as int, target_krate.ix as int, vxq1@, ge(vxq2)), only_more(*old(vxq0), *final(vxq0), ks)""",
       select="let:attach;closure:#0", methods=[("into", "0", "fn:vx_edge_into")], subst=GS[:1] + [(r"\bget\(", "get(krates_end, "), (r"Some\(&feat\)\)", "Some(feat.as_str()), Ghost(ks))")],
       at={"start": "let ghost g0 = *vxq0;"}),
]
SPEC += r"""
/// one edge more, the last, to the feature's node
pub open spec fn attached<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, i: int, t: int, s: Seq<char>, x: GE) -> bool { g.edges().len() == g0.edges().len() + 1 && g.edges().last().a.ix == i && g.edges().last().w.made(x) && fnode(g, g.edges().last().z.ix as int, t, s) }
/// the crate nodes are untouched
pub open spec fn only_more<N, E>(g0: G<N, E>, g: G<N, E>, ks: Ks) -> bool { forall|i: int| 0 <= i < ks.len() ==> #[trigger] g.raw()[i] == g0.raw()[i] }
"""

SPEC += r"""
/// the link from the crate at i to the crate at t, and what the walk recorded about it
pub open spec fn linkc<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int, t: int, n: Node, d: KrateDependency) -> bool {
    &&& 0 <= i < ks.len() && 0 <= t < ks.len() && dm.contains_key(ks[i]) && dm[ks[i]].deps.m().contains_key(ks[t]) && d == dm[ks[i]].deps.m()[ks[t]] && n == nq(ns, ks[t])
    &&& shape(g, ks) && sound(g, ks, ns, dm) && dep_fits(g, i, n, d)
}
"""
LEM += r"""
/// one more edge that the walk recorded
proof fn link_more<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int, t: int, n: Node, d: KrateDependency, x: GE, s: Option<Seq<char>>)
    requires
        linkc(g0, ks, ns, dm, i, t, n, d), shape(g, ks), grow(g0, g), only_more(g0, g, ks), g.edges().len() == g0.edges().len() + 1,
        g.edges().last().a.ix == i, g.edges().last().w.made(x), eto(g, g.edges().last().z.ix as int, t, s), woff(d, n, x, s),
    ensures linkc(g, ks, ns, dm, i, t, n, d), match s { None => has(g, i, t, x), Some(f) => has_fe(g, i, t, f, x) },
{
    let e = g.edges().len() - 1;
    assert(is_edge(g, e, i, g.edges()[e].z.ix as int, x)); assert(has(g, i, g.edges()[e].z.ix as int, x));
    assert forall|k: int| 0 <= k < g.edges().len() implies #[trigger] why(g, ks, ns, dm, k) by { if k == e { assert(whyx(g, ks, ns, dm, k, i, t, x, s)); } else { assert(why(g0, ks, ns, dm, k)); why_mono(g0, g, ks, ns, dm, k); } }
    assert forall|a: int, j: int| 0 <= a < ks.len() && 0 <= j < dmap(g.raw()[a].weight).len() implies #[trigger] maps_ok(g, ks, dm, a, j) by { assert(g.raw()[a] == g0.raw()[a]); assert(maps_ok(g0, ks, dm, a, j)); }
    fits_mono(g0, g, i, n, d);
}
proof fn fits_mono<N, E>(g0: G<N, E>, g: G<N, E>, i: int, n: Node, d: KrateDependency)
    requires grow(g0, g), 0 <= i < g0.raw().len(), g0.raw()[i].weight is Krate, dep_fits(g0, i, n, d), ensures dep_fits(g, i, n, d),
{ assert(same_node(g0.raw()[i].weight, g.raw()[i].weight)); assert forall|j: int| 0 <= j < d.edges@.len() implies edge_fits(g, i, n, #[trigger] d.edges@[j]) by { assert(edge_fits(g0, i, n, d.edges@[j])); } }
/// a declaration of the crate at i, recorded for the link, is mapped to the crate at t
proof fn link_map<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int, t: int, n: Node, d: KrateDependency, j: int)
    requires
        linkc(g0, ks, ns, dm, i, t, n, d), has_decl(d, j), 0 <= j < dmap(g0.raw()[i].weight).len(), g.edges() == g0.edges(), g.raw() == g0.raw().update(i, g.raw()[i]),
        g.raw()[i].weight is Krate, ({ let (a, b) = (g0.raw()[i].weight, g.raw()[i].weight); b->id == a->id && b->krate == a->krate && b->Krate_features == a->Krate_features && dmap(b) == dmap(a).update(j, Some(NodeId { ix: t as usize })) }), t <= usize::MAX,
    ensures linkc(g, ks, ns, dm, i, t, n, d), grow(g0, g),
{
    assert(is_k(g0.raw()[i].weight, ks[i]));
    assert forall|a: int| 0 <= a < ks.len() implies is_k((#[trigger] g.raw()[a]).weight, ks[a]) by { assert(is_k(g0.raw()[a].weight, ks[a])); }
    assert(grow(g0, g));
    assert forall|k: int| 0 <= k < g.edges().len() implies #[trigger] why(g, ks, ns, dm, k) by { assert(why(g0, ks, ns, dm, k)); why_mono(g0, g, ks, ns, dm, k); }
    assert forall|a: int, b: int| 0 <= a < ks.len() && 0 <= b < dmap(g.raw()[a].weight).len() implies #[trigger] maps_ok(g, ks, dm, a, b) by { assert(maps_ok(g0, ks, dm, a, b)); }
    fits_mono(g0, g, i, n, d);
}
"""
ATT = (r"attach\(\s*&mut graph,((?:[^()]|\([^()]*\))*?),?\s*\)", r"attach(krates_end, srcid, target_krate, dep_id, graph,\1, Ghost(ks))")
LM = [("to_owned", "0", "vx_own"), ("clone", "0", "vx_clone"), ("into", "0", "fn:vx_edge_into")]
LQ = "Ghost(ks): Ghost<Ks>, Ghost(ns): Ghost<Seq<Node>>, Ghost(dm): Ghost<Dm<'_>>"
LC = "krates_end == ks.len(), dep_id.wf(), at_k(ks, kkey(dep_id), target_krate.ix as int), "
FNS += [
    BF["Node::feature"], BF["get_rnode"],
    Fn("link_edge", B, BM, """fn link_edge<N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, krates_end: usize, srcid: NodeId, target_krate: NodeId, dep_id: &Kid, rnode: &Node, edge: DependencyEdge, """ + LQ + """, Ghost(d): Ghost<KrateDependency>, Ghost(je): Ghost<int>)
    requires """ + LC + """linkc(*old(graph), ks, ns, dm, srcid.ix as int, target_krate.ix as int, *rnode, d), 0 <= je < d.edges@.len(), edge == d.edges@[je],
    ensures linkc(*final(graph), ks, ns, dm, srcid.ix as int, target_krate.ix as int, *rnode, d), grow(*old(graph), *final(graph)), cedge(*final(graph), srcid.ix as int, target_krate.ix as int, *rnode, edge)""",
       select=EL + ";loop:#1", methods=LM, subst=[ATT, (r"&mut graph\[(\w+)\]", r"graph.vx_index_mut(\1)"), (r"dep_mapping\[([\w.]+)\] = ([^;]+);", r"vx_set(dep_mapping, \1, \2);"), (r"crate::Node::", "LNode::")],
       at={"start": """hide(sound); hide(shape); hide(dep_fits); let ghost g0 = *graph; let ghost (i, t, n, e0) = (srcid.ix as int, target_krate.ix as int, *rnode, edge); let ghost fs = edge.features@; let ghost mut g1 = *graph; let ghost mut g2 = *graph;
               proof { assert(edge_fits(g0, i, n, e0)) by { reveal(dep_fits); } gr_refl(g0); }""",
           "l0_start": "let ghost gb = *graph; let ghost jj = vx_it0.i() - 1; proof { assert(fs[jj] == vx_s0[jj]); assert(fs[jj] < n.features@.len()); }",
           "l0_end": """proof { let x = GE::DepF(e0.kind, ctext(e0.cfg)); let s = fname(n, fs[jj]); assert(eoff(d.edges@[je], n, x, Some(s))); link_more(gb, *graph, ks, ns, dm, i, t, n, d, x, Some(s)); gr_trans(g0, gb, *graph); grow_facts(gb, *graph);
               assert forall|f: int| 0 <= f < vx_it0.i() implies has_fe(*graph, i, t, fname(n, #[trigger] fs[f]), x) by { } }""",
           "l0_after": """proof { assert(edge_fits(*graph, i, n, e0)) by { reveal(dep_fits); } assert(is_k(graph.raw()[i].weight, ks[i]) && graph.raw().len() >= ks.len()) by { reveal(shape); } g1 = *graph;
               assert forall|f: int| 0 <= f < fs.len() implies has_fe(*graph, i, t, fname(n, #[trigger] fs[f]), GE::DepF(e0.kind, ctext(e0.cfg))) by { } }""",
           "tail": """proof { assert(has_decl(d, e0.dep_index as int)) by { assert(d.edges@[je].dep_index == e0.dep_index); } assert(graph.raw() =~= g1.raw().update(i, graph.raw()[i])); link_map(g1, *graph, ks, ns, dm, i, t, n, d, e0.dep_index as int); gr_trans(g0, g1, *graph); grow_facts(g1, *graph); g2 = *graph; assert(is_k(graph.raw()[i].weight, ks[i])) by { reveal(shape); } }""",
           "call_add_edge": """proof { let x = GE::Dep(e0.kind, ctext(e0.cfg)); assert(eoff(d.edges@[je], n, x, None)); assert(shape(*graph, ks)) by { reveal(shape); } link_more(g2, *graph, ks, ns, dm, i, t, n, d, x, None); gr_trans(g0, g2, *graph); grow_facts(g2, *graph); }"""},
       loops={0: forinv(0, None, """vx_s0 == fs, linkc(*graph, ks, ns, dm, i, t, n, d), grow(g0, *graph), forall|f: int| 0 <= f < vx_it0.i() ==> has_fe(*graph, i, t, fname(n, #[trigger] fs[f]), GE::DepF(e0.kind, ctext(e0.cfg)))""")}),
]

LEM += r"""
proof fn nq_is(ns: Seq<Node>, q: KKey, j: int) requires nodes_ok(ns), is_node(ns, q, j) ensures nq(ns, q) == ns[j], has_node(ns, q)
{ let c = choose|i: int| is_node(ns, q, i); same_cmp(&ns[c].id, &ns[j].id, &ns[j].id); if c < j { assert(k_less(&ns[c].id, &ns[j].id)); } else if j < c { assert(k_less(&ns[j].id, &ns[c].id)); same_cmp(&ns[j].id, &ns[c].id, &ns[c].id); } }
"""
SPEC += r"""
/// the links of the crate at i
pub open spec fn srcc<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int) -> bool {
    &&& 0 <= i < ks.len() && dm.contains_key(ks[i]) && shape(g, ks) && sound(g, ks, ns, dm) && nodes_ok(ns) && src_fits(g, ks, ns, i, dm[ks[i]].deps.m())
}
/// the link to q is done: q is not in the graph, or everything recorded for it is
pub open spec fn cto<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int, q: KKey) -> bool { forall|t: int| #[trigger] at_k(ks, q, t) ==> cdep(g, i, t, nq(ns, q), dm[ks[i]].deps.m()[q]) }
"""
GETG = (r"\bget\(\s*&graph,((?:[^()]|\([^()]*\))*?),?\s*\)", r"get(krates_end, &*graph,\1, Ghost(ks))")
GETN = (r"\bget_rnode\(", "get_rnode(nodes, ")
LEM += r"""
proof fn at_one(ks: Ks, q: KKey, a: int, b: int) requires at_k(ks, q, a), at_k(ks, q, b), forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] ensures a == b { if a < b { assert(ks[a] != ks[b]); } else if b < a { assert(ks[b] != ks[a]); } }
proof fn src_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, i: int, m: Map<KKey, KrateDependency>)
    requires grow(g0, g), 0 <= i < g0.raw().len(), g0.raw()[i].weight is Krate, src_fits(g0, ks, ns, i, m), ensures src_fits(g, ks, ns, i, m),
{ assert forall|q: KKey| #[trigger] m.contains_key(q) implies has_node(ns, q) && dep_fits(g, i, nq(ns, q), m[q]) by { fits_mono(g0, g, i, nq(ns, q), m[q]); } }
"""
FNS += [
    Fn("link_dep", B, BM, """fn link_dep<N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, nodes: &Vec<Node>, krates_end: usize, srcid: NodeId, dep_id: &Kid, dep: KrateDependency, """ + LQ + """)
    requires krates_end == ks.len(), dep_id.wf(), ns == nodes@, srcc(*old(graph), ks, ns, dm, srcid.ix as int), dm[ks[srcid.ix as int]].deps.m().contains_key(kkey(dep_id)), dep == dm[ks[srcid.ix as int]].deps.m()[kkey(dep_id)],
    ensures srcc(*final(graph), ks, ns, dm, srcid.ix as int), grow(*old(graph), *final(graph)), cto(*final(graph), ks, ns, dm, srcid.ix as int, kkey(dep_id))""",
       select=EL + ";loop:#0", methods=LM, drop_lets=["attach"], cuts=[("loop:#0", "link_edge(graph, krates_end, srcid, target_krate, dep_id, rnode, edge, Ghost(ks), Ghost(ns), Ghost(dm), Ghost(d), Ghost(jj))")],
       subst=[ATT, GETG, GETN, (r"\bcontinue;", "vx_at!(skip); return;")],
       at={"start": """hide(sound); hide(shape); hide(dep_fits); hide(cedge); let ghost g0 = *graph; let ghost (i, q, d) = (srcid.ix as int, kkey(dep_id), dep); let ghost n = nq(ns, q); let ghost mut t = 0int; let ghost es = dep.edges@; let ghost mut g1 = *graph; proof { d.features.axiom_listed(); }""",
           "skip": "proof { gr_refl(g0); }",
           "let_rnode": """proof { t = target_krate.ix as int; let j = choose|j: int| #[trigger] is_node(nodes@, q, j) && *rnode == nodes@[j]; nq_is(ns, q, j); assert(linkc(g0, ks, ns, dm, i, t, n, d)); gr_refl(g0); assert(is_k(g0.raw()[i].weight, ks[i]) && g0.raw().len() >= ks.len()) by { reveal(shape); } }""",
           "l0_start": "let ghost jj = vx_it0.i() - 1; let ghost gb = *graph; proof { assert(es[jj] == vx_s0[jj]); assert(is_k(gb.raw()[i].weight, ks[i]) && gb.raw().len() >= ks.len()) by { reveal(shape); } }",
           "l0_end": "proof { gr_trans(g0, gb, *graph); c_mono(gb, *graph, i, t, n, d); assert forall|j: int| 0 <= j < vx_it0.i() implies cedge(*graph, i, t, n, #[trigger] es[j]) by { if j < jj { assert(cedge(gb, i, t, n, es[j])); } } }",
           "l0_after": "proof { g1 = *graph; assert forall|j: int| 0 <= j < es.len() implies cedge(*graph, i, t, n, #[trigger] es[j]) by { } }",
           "l1_start": "let ghost gb = *graph; let ghost jj = vx_it1.i() - 1; let ghost y = vx_s1[jj]; proof { assert(d.features@.contains(y)); assert(y < n.features@.len()) by { reveal(dep_fits); } assert(is_k(gb.raw()[i].weight, ks[i]) && gb.raw().len() >= ks.len()) by { reveal(shape); } }",
           "l1_end": """proof { let s = fname(n, y); assert(woff(d, n, GE::Feat, Some(s))); link_more(gb, *graph, ks, ns, dm, i, t, n, d, GE::Feat, Some(s)); gr_trans(g0, gb, *graph); c_mono(gb, *graph, i, t, n, d); grow_facts(gb, *graph);
               assert forall|j: int| 0 <= j < es.len() implies cedge(*graph, i, t, n, #[trigger] es[j]) by { assert(cedge(gb, i, t, n, es[j])); }
               assert forall|f: int| 0 <= f < vx_it1.i() implies has_fe(*graph, i, t, fname(n, #[trigger] vx_s1[f]), GE::Feat) by { if f < jj { assert(has_fe(gb, i, t, fname(n, vx_s1[f]), GE::Feat)); } } }""",
           "l1_before": "",
           "l1_after": """proof { assert forall|y: usize| #[trigger] d.features@.contains(y) implies has_fe(*graph, i, t, fname(n, y), GE::Feat) by { let j = choose|j: int| 0 <= j < vx_s1.len() && #[trigger] vx_s1[j] == y; }
               assert(cdep(*graph, i, t, n, d)); assert forall|u: int| #[trigger] at_k(ks, q, u) implies cdep(*graph, i, u, n, d) by { assert(u == t) by { reveal(shape); at_one(ks, q, u, t); } }
               src_mono(g0, *graph, ks, ns, i, dm[ks[i]].deps.m()); }"""},
       loops={0: forinv(0, None, "vx_s0 == es, linkc(*graph, ks, ns, dm, i, t, n, d), grow(g0, *graph), forall|j: int| 0 <= j < vx_it0.i() ==> cedge(*graph, i, t, n, #[trigger] es[j])"),
              1: forinv(1, None, "vx_s1 == d.features.listing(), lists(vx_s1, d.features@), linkc(*graph, ks, ns, dm, i, t, n, d), grow(g0, *graph), forall|j: int| 0 <= j < es.len() ==> cedge(*graph, i, t, n, #[trigger] es[j]), forall|f: int| 0 <= f < vx_it1.i() ==> has_fe(*graph, i, t, fname(n, #[trigger] vx_s1[f]), GE::Feat)")}),
]

SPEC += r"""
/// before the edges: the crates, their links as the walk left them, and the nodes these were read from
pub open spec fn allc<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>) -> bool { shape(g, ks) && sound(g, ks, ns, dm) && gfits(g, ks, ns, dm) }
/// of the links, those of the crates from n on are still to be done
pub open spec fn rest(ks: Ks, dm: Dm<'_>, n: int, m: Dm<'_>) -> bool { forall|j: int| n <= j < ks.len() ==> (dm.contains_key(#[trigger] ks[j]) <==> m.contains_key(ks[j])) && (dm.contains_key(ks[j]) ==> dm[ks[j]] == m[ks[j]]) }
"""
LEM += r"""
proof fn all_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>)
    requires grow(g0, g), shape(g0, ks), gfits(g0, ks, ns, dm), ensures gfits(g, ks, ns, dm),
{ assert forall|i: int| 0 <= i < ks.len() && dm.contains_key(#[trigger] ks[i]) implies src_fits(g, ks, ns, i, dm[ks[i]].deps.m()) by { assert(is_k(g0.raw()[i].weight, ks[i])); src_mono(g0, g, ks, ns, i, dm[ks[i]].deps.m()); } }
proof fn cto_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int, q: KKey)
    requires grow(g0, g), 0 <= i < g0.raw().len(), g0.raw()[i].weight is Krate, cto(g0, ks, ns, dm, i, q), ensures cto(g, ks, ns, dm, i, q),
{ assert forall|t: int| #[trigger] at_k(ks, q, t) implies cdep(g, i, t, nq(ns, q), dm[ks[i]].deps.m()[q]) by { c_mono(g0, g, i, t, nq(ns, q), dm[ks[i]].deps.m()[q]); } }
proof fn csrc_mono<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>, i: int)
    requires grow(g0, g), 0 <= i < g0.raw().len(), g0.raw()[i].weight is Krate, csrc(g0, ks, ns, dm, i), ensures csrc(g, ks, ns, dm, i),
{ if dm.contains_key(ks[i]) { assert forall|t: int| 0 <= t < ks.len() && #[trigger] dm[ks[i]].deps.m().contains_key(ks[t]) implies cdep(g, i, t, nq(ns, ks[t]), dm[ks[i]].deps.m()[ks[t]]) by { c_mono(g0, g, i, t, nq(ns, ks[t]), dm[ks[i]].deps.m()[ks[t]]); } } }
"""
FNS += [
    Fn("link_src", B, BM, """fn link_src<'n, N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, nodes: &Vec<Node>, krates_end: usize, srcind: usize, dep_edge_map: &mut KMap<'n, PackageNode<'n>>, """ + LQ + """)
    requires krates_end == ks.len(), ns == nodes@, allc(*old(graph), ks, ns, dm), srcind < ks.len(), rest(ks, dm, srcind as int, old(dep_edge_map).m()),
    ensures allc(*final(graph), ks, ns, dm), grow(*old(graph), *final(graph)), csrc(*final(graph), ks, ns, dm, srcind as int), rest(ks, dm, srcind + 1, final(dep_edge_map).m())""",
       select=EL, index=[("graph", "vx_index")], subst=[(r"\bcontinue;", "vx_at!(skip); return;"), (r"crate::NodeId", "NodeId"), (r"crate::Node::", "LNode::")], cuts=[("loop:#0", "link_dep(graph, nodes, krates_end, srcid, dep_id, dep, Ghost(ks), Ghost(ns), Ghost(dm))")],
       at={"start": """hide(sound); hide(src_fits); hide(cdep); let ghost g0 = *graph; let ghost i = srcind as int; let ghost m = dm[ks[i]].deps.m(); proof { assert(is_k(g0.raw()[i].weight, ks[i])); gr_refl(g0); assert(srcc(g0, ks, ns, dm, i) || !dm.contains_key(ks[i])); }""",
           "skip": """proof { if graph.raw()[i].weight is Krate { assert(!dm.contains_key(ks[i])); }
               assert forall|j: int| srcind + 1 <= j < ks.len() implies (dm.contains_key(#[trigger] ks[j]) <==> dep_edge_map.m().contains_key(ks[j])) && (dm.contains_key(ks[j]) ==> dm[ks[j]] == dep_edge_map.m()[ks[j]]) by { assert(ks[i] != ks[j]); } }""",
           "l0_before": """proof { pn.deps.axiom_listed(); assert(pn.deps.m() == m); assert(rest(ks, dm, srcind + 1, dep_edge_map.m())) by { assert forall|j: int| srcind + 1 <= j < ks.len() implies (dm.contains_key(#[trigger] ks[j]) <==> dep_edge_map.m().contains_key(ks[j])) && (dm.contains_key(ks[j]) ==> dm[ks[j]] == dep_edge_map.m()[ks[j]]) by { assert(ks[i] != ks[j]); } } }""",
           "l0_start": "let ghost gb = *graph; let ghost jj = vx_it0.i() - 1; proof { assert(m.contains_key(kkey(vx_s0[jj].0))); }",
           "l0_end": """proof { gr_trans(g0, gb, *graph); assert(is_k(gb.raw()[i].weight, ks[i]));
               assert forall|j: int| 0 <= j < vx_it0.i() implies cto(*graph, ks, ns, dm, i, kkey((#[trigger] vx_s0[j]).0)) by { if j < jj { assert(cto(gb, ks, ns, dm, i, kkey(vx_s0[j].0))); cto_mono(gb, *graph, ks, ns, dm, i, kkey(vx_s0[j].0)); } } }""",
           "l0_after": """proof { all_mono(g0, *graph, ks, ns, dm);
               assert forall|t: int| 0 <= t < ks.len() && #[trigger] m.contains_key(ks[t]) implies cdep(*graph, i, t, nq(ns, ks[t]), m[ks[t]]) by { let j = choose|j: int| 0 <= j < vx_s0.len() && kkey((#[trigger] vx_s0[j]).0) == ks[t]; assert(cto(*graph, ks, ns, dm, i, kkey(vx_s0[j].0))); assert(at_k(ks, ks[t], t)); } }"""},
       loops={0: forinv(0, None, """vx_s0 == pn.deps.listing(), pn.deps.listed(), pn.deps.m() == m, srcc(*graph, ks, ns, dm, i), grow(g0, *graph), forall|j: int| 0 <= j < vx_it0.i() ==> cto(*graph, ks, ns, dm, i, kkey((#[trigger] vx_s0[j]).0))""")}),
    Fn("link_all", B, BM, """fn link_all<'n, N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, nodes: &Vec<Node>, krates_end: usize, mut dep_edge_map: KMap<'n, PackageNode<'n>>, """ + LQ + """)
    requires krates_end == ks.len(), ns == nodes@, dm == dep_edge_map.m(), allc(*old(graph), ks, ns, dm), old(graph).raw().len() == ks.len(),
    ensures allc(*final(graph), ks, ns, dm), grow(*old(graph), *final(graph)), forall|i: int| 0 <= i < ks.len() ==> #[trigger] csrc(*final(graph), ks, ns, dm, i)""",
       select=EL.rsplit(";", 1)[0], cuts=[("loop:#0", "link_src(graph, nodes, krates_end, srcind, &mut dep_edge_map, Ghost(ks), Ghost(ns), Ghost(dm))")],
       at={"start": "hide(sound); hide(gfits); hide(csrc); let ghost g0 = *graph; proof { gr_refl(g0); }",
           "l0_start": "let ghost gb = *graph; let ghost i = srcind as int;",
           "l0_end": "proof { gr_trans(g0, gb, *graph); assert forall|j: int| 0 <= j < vx_it0.i() implies #[trigger] csrc(*graph, ks, ns, dm, j) by { if j < i { assert(csrc(gb, ks, ns, dm, j)); assert(is_k(gb.raw()[j].weight, ks[j])); csrc_mono(gb, *graph, ks, ns, dm, j); } } }"},
       loops={0: forinv(0, None, "vx_s0.len() == ks.len(), forall|j: int| 0 <= j < ks.len() ==> #[trigger] vx_s0[j] == j, allc(*graph, ks, ns, dm), grow(g0, *graph), rest(ks, dm, vx_it0.i(), dep_edge_map.m()), forall|j: int| 0 <= j < vx_it0.i() ==> #[trigger] csrc(*graph, ks, ns, dm, j)")}),
]

# ---- the features of each crate, and the edges between them
SPEC += r"""
impl SetX<String> {
    pub uninterp spec fn tx(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: It<&String>) ensures r.i() == 0, r.wf(), forall|i: int| 0 <= i < r.s().len() ==> self.tx().contains((#[trigger] r.s()[i])@), forall|t: Seq<char>| #[trigger] self.tx().contains(t) ==> exists|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i])@ == t { unimplemented!() }
    #[verifier::external_body] pub fn vx_has(&self, t: &String) -> (r: bool) ensures r == self.tx().contains(t@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_put(&mut self, t: String) -> (r: bool) ensures final(self).tx() == old(self).tx().insert(t@), r == !old(self).tx().contains(t@) { unimplemented!() }
}
pub trait ClonedX<'a>: VxInto<T = &'a String> { fn vx_cloned(self) -> (r: It<String>) ensures r.i() == 0, r.wf(), r.s().len() == self.vseq().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.vseq()[i]] 0 <= i < r.s().len() ==> r.s()[i]@ == self.vseq()[i]@; }
impl<'a, I: VxInto<T = &'a String>> ClonedX<'a> for I { #[verifier::external_body] fn vx_cloned(self) -> (r: It<String>) { unimplemented!() } }
pub trait PosX<T>: VxInto<T = T> { fn vx_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures self.vseq().len() >= 0, match r { Some(i) => i < self.vseq().len() && f.ensures((self.vseq()[i as int],), true), None => forall|j: int| #![trigger self.vseq()[j]] 0 <= j < self.vseq().len() ==> f.ensures((self.vseq()[j],), false) }; }
impl<T, I: VxInto<T = T>> PosX<T> for I { #[verifier::external_body] fn vx_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>) { unimplemented!() } }
/// `i.map(|i| v.swap_remove(i))`
#[verifier::external_body] pub fn vx_swap_at<T>(v: &mut Vec<T>, i: Option<usize>) -> (r: Option<T>) requires i is Some ==> i->0 < old(v)@.len(),
    ensures i is None ==> r is None && final(v)@ == old(v)@, i is Some ==> r == Some(old(v)@[i->0 as int]) && final(v)@ == old(v)@.update(i->0 as int, old(v)@.last()).drop_last() { i.map(|i| v.swap_remove(i)) }
impl CloneS for String { open spec fn cl(&self, r: &Self) -> bool { self@ == r@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub fn vx_and_then<A, B, F: FnOnce(A) -> Option<B>>(a: Option<A>, f: F) -> (r: Option<B>) requires a is Some ==> f.requires((a->0,)), ensures a is None ==> r is None, a is Some ==> f.ensures((a->0,), r) { match a { Some(x) => f(x), None => None } }
pub fn vx_unwrap_or_else<A, F: FnOnce() -> A>(a: Option<A>, f: F) -> (r: A) requires a is None ==> f.requires(()), ensures a is Some ==> r == a->0, a is None ==> f.ensures((), r) { match a { Some(x) => x, None => f() } }
pub fn vx_some<T>(o: Option<T>) -> (r: T) requires o is Some, ensures r == o->0 { match o { Some(x) => x, None => vstd::pervasive::unreached() } }
pub type Fg<'a> = Seq<(String, Vec<FeatureEdge<'a>>)>;
pub type Xs = spec_fn(Seq<char>) -> bool;
/// the name a sub-feature has
pub open spec fn subopt(e: FeatureEdge<'_>) -> Option<Seq<char>> { match e.name { FeatureEdgeName::Feature(s) => Some(s@), FeatureEdgeName::Rename(s) => Some(s@), FeatureEdgeName::Krate => None } }
pub open spec fn subname(e: FeatureEdge<'_>) -> Seq<char> { match subopt(e) { Some(s) => s, None => decode_utf8(e.kid.part(0)) } }
pub open spec fn okent(e: (String, Vec<FeatureEdge<'_>>), x: Xs) -> bool { forall|l: int| 0 <= l < e.1@.len() ==> (#[trigger] e.1@[l]).kid.wf() && (x(e.0@) ==> x(subname(e.1@[l]))) }
/// x is closed under the names that the features in it list
pub open spec fn fclosed(fg: Fg<'_>, x: Xs) -> bool { forall|j: int| 0 <= j < fg.len() ==> okent(#[trigger] fg[j], x) }
pub open spec fn fset<N, E>(g: G<N, E>, i: int) -> Set<Seq<char>> { g.raw()[i].weight->Krate_features.tx() }
pub open spec fn within<N, E>(g: G<N, E>, i: int, x: Xs) -> bool { forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) ==> x(s) }
pub open spec fn same2<N>(a: LNode<N>, b: LNode<N>) -> bool { (a is Feature && b == a) || (a is Krate && b is Krate && b->id == a->id && b->krate == a->krate && b->dep_mapping == a->dep_mapping && forall|s: Seq<char>| #[trigger] a->Krate_features.tx().contains(s) ==> b->Krate_features.tx().contains(s)) }
/// nothing was taken away, and nothing added but features
pub open spec fn gro2<N, E>(g0: G<N, E>, g: G<N, E>) -> bool {
    &&& g0.raw().len() <= g.raw().len() && g0.edges().len() <= g.edges().len()
    &&& forall|i: int| 0 <= i < g0.raw().len() ==> same2(g0.raw()[i].weight, (#[trigger] g.raw()[i]).weight)
    &&& forall|k: int| 0 <= k < g0.edges().len() ==> #[trigger] g.edges()[k] == g0.edges()[k]
}
/// no crate but the one at i was touched
pub open spec fn only_i<N, E>(g0: G<N, E>, g: G<N, E>, ks: Ks, i: int) -> bool { forall|j: int| 0 <= j < ks.len() && j != i ==> #[trigger] g.raw()[j] == g0.raw()[j] }
/// C20: the edges from m on are feature edges that start at a feature
pub open spec fn extra<N, E: FromEdge>(g: G<N, E>, ks: Ks, m: int) -> bool { forall|k: int| m <= k < g.edges().len() ==> (#[trigger] g.edges()[k]).a.ix >= ks.len() && g.edges()[k].w.made(GE::Feat) }
/// C20: the feature has a node with an edge to its crate
pub open spec fn linked<N, E: FromEdge>(g: G<N, E>, i: int, s: Seq<char>) -> bool { exists|n: int| #[trigger] fnode(g, n, i, s) && has(g, n, i, GE::Feat) }
pub open spec fn ons(st: Seq<String>, s: Seq<char>) -> bool { exists|k: int| 0 <= k < st.len() && (#[trigger] st[k])@ == s }
pub open spec fn listed(fg: Fg<'_>, s: Seq<char>) -> bool { exists|j: int| 0 <= j < fg.len() && (#[trigger] fg[j]).0@ == s }
pub open spec fn from_fg(fg: Fg<'_>, e: (String, Vec<FeatureEdge<'_>>)) -> bool { exists|j: int| 0 <= j < fg.len() && #[trigger] fg[j] == e }
/// features of the crate at i still to be looked at are on the stack; listed ones are still enabled or have their node
pub open spec fn fstate<N, E: FromEdge>(g: G<N, E>, ks: Ks, i: int, en: Fg<'_>, st: Seq<String>, fg: Fg<'_>, x: Xs, cur: Option<Seq<char>>) -> bool {
    &&& 0 <= i < ks.len() && shape(g, ks) && within(g, i, x) && fclosed(fg, x)
    &&& forall|e: int| 0 <= e < en.len() ==> from_fg(fg, #[trigger] en[e])
    &&& forall|s: Seq<char>| #[trigger] listed(fg, s) ==> listed(en, s) || linked(g, i, s)
    &&& forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) ==> cur == Some(s) || ons(st, s) || !listed(fg, s) || linked(g, i, s)
    &&& forall|k: int| 0 <= k < st.len() ==> fset(g, i).contains((#[trigger] st[k])@)
    &&& cur is Some ==> fset(g, i).contains(cur->0)
}
pub open spec fn fdone<N, E: FromEdge>(g: G<N, E>, i: int, fg: Fg<'_>, x: Xs) -> bool { within(g, i, x) && forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) && listed(fg, s) ==> linked(g, i, s) }
"""
LEM += r"""
proof fn gro2_trans<N, E>(a: G<N, E>, b: G<N, E>, c: G<N, E>) requires gro2(a, b), gro2(b, c) ensures gro2(a, c)
{
    assert forall|i: int| 0 <= i < a.raw().len() implies same2(a.raw()[i].weight, (#[trigger] c.raw()[i]).weight) by { assert(same2(a.raw()[i].weight, b.raw()[i].weight)); assert(same2(b.raw()[i].weight, c.raw()[i].weight)); }
    assert forall|k: int| 0 <= k < a.edges().len() implies #[trigger] c.edges()[k] == a.edges()[k] by { assert(b.edges()[k] == a.edges()[k]); }
}
proof fn gro2_facts<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>)
    requires gro2(g0, g),
    ensures
        forall|n: int, t: int, s: Seq<char>| #[trigger] fnode(g0, n, t, s) ==> fnode(g, n, t, s),
        forall|a: int, z: int, x: GE| #[trigger] has(g0, a, z, x) ==> has(g, a, z, x),
        forall|i: int, s: Seq<char>| #[trigger] linked(g0, i, s) ==> linked(g, i, s),
{
    assert forall|n: int, t: int, s: Seq<char>| #[trigger] fnode(g0, n, t, s) implies fnode(g, n, t, s) by { assert(same2(g0.raw()[n].weight, g.raw()[n].weight)); }
    assert forall|a: int, z: int, x: GE| #[trigger] has(g0, a, z, x) implies has(g, a, z, x) by { let k = choose|k: int| #[trigger] is_edge(g0, k, a, z, x); assert(g.edges()[k] == g0.edges()[k]); assert(is_edge(g, k, a, z, x)); }
    assert forall|i: int, s: Seq<char>| #[trigger] linked(g0, i, s) implies linked(g, i, s) by { let n = choose|n: int| #[trigger] fnode(g0, n, i, s) && has(g0, n, i, GE::Feat); assert(fnode(g, n, i, s) && has(g, n, i, GE::Feat)); }
}
"""
FB = "stmts:text:feature_stack.pop()..=text:feature_stack.pop();loop:#0"
GETH = (r"\bget\(\s*(?:&\s*)?graph,((?:[^()]|\([^()]*\))*?),?\s*\)", r"get(krates_end, &*graph,\1, Ghost(ks))")
NODE = [(r"crate::NodeId", "NodeId"), (r"crate::Node::", "LNode::")]
FM = [("raw_nodes", "0", "raw_nodes"), ("enumerate", "0", "vx_enumerate"), ("find_map", "*", "vx_find_map"), ("iter", "0", "vx_iter"), ("to_owned", "0", "vx_own"), ("clone", "0", "vx_clone"), ("unwrap", "0", "fn:vx_some"), ("and_then", "*", "fn:vx_and_then"), ("cloned", "0", "vx_cloned"), ("collect", "0", "vx_collect"), ("as_deref", "0", "vx_as_deref"), ("position", "*", "vx_position"), ("unwrap_or_else", "*", "inline"), ("map", "*", "inline")]
FNS += [
    Fn("get_or_insert", B, BM, """fn get_or_insert<N, E>(krates_end: usize, vxq0: &mut Graph<LNode<N>, E>, vxq1: &Kid, vxq2: &str, Ghost(ks): Ghost<Ks>, Ghost(i): Ghost<int>) -> (r: NodeId)
    requires shape(*old(vxq0), ks), krates_end == ks.len(), vxq1.wf(), at_k(ks, kkey(vxq1), i),
    ensures shape(*final(vxq0), ks), fnode(*final(vxq0), r.ix as int, i, vxq2@), final(vxq0).edges() == old(vxq0).edges(), old(vxq0).raw().len() <= final(vxq0).raw().len(), forall|j: int| 0 <= j < old(vxq0).raw().len() ==> #[trigger] final(vxq0).raw()[j] == old(vxq0).raw()[j]""",
       select=FB + ";let:get_or_insert;closure:#0", methods=FM, subst=[GETH] + NODE, eqs=True, index=[("graph", "vx_index")],
       closures={0: """|vxp0: (usize, &GNode<LNode<N>>)| -> (r: Option<NodeId>) requires shape(*graph, ks), krates_end == ks.len(), vxp0.0 + krates_end < graph.raw().len(), graph.raw()[vxp0.0 + krates_end] == *vxp0.1,
                   ensures r == (if vxp0.1.weight is Feature && vxp0.1.weight->name@ == feature@ && ks[vxp0.1.weight->krate_index.ix as int] == kkey(kid) { Some(NodeId { ix: (vxp0.0 + krates_end) as usize }) } else { None })"""},
       at={"let_node_id": """proof { let z = enumd(refs(graph.raw().subrange(krates_end as int, graph.raw().len() as int)));
               if node_id is Some { let k = choose|k: int| #[trigger] z[k].0 == k && 0 <= k < z.len() && node_id->0.ix == k + krates_end && z[k].1.weight is Feature && z[k].1.weight->name@ == feature@ && ks[z[k].1.weight->krate_index.ix as int] == kkey(kid); let t = z[k].1.weight->krate_index.ix as int; at_one(ks, kkey(kid), t, i); assert(fnode(*graph, k + krates_end, i, feature@)); } }"""}),
]

GOI = (r"\bget_or_insert\(\s*&mut graph,((?:[^()]|\([^()]*\))*?),?\s*\)", r"get_or_insert(krates_end, graph,\1, Ghost(ks), Ghost(i))")
IMUT = (r"&mut graph\[(\w+)\]", r"graph.vx_index_mut(\1)")
SETM = [("contains", "*", "vx_has"), ("insert", "*", "vx_put")]
LEM += r"""
proof fn name_text(s: Seq<char>, b: Seq<u8>) requires encode_utf8(s) == b ensures s == decode_utf8(b) { encode_utf8_decode_utf8(s); }
"""
SPEC += r"""
/// one entry of a feature: the features it adds are on the stack
pub open spec fn sub_post<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, i: int, st0: Seq<String>, st: Seq<String>, x: Xs) -> bool {
    &&& shape(g, ks) && gro2(g0, g) && only_i(g0, g, ks, i) && within(g, i, x)
    &&& forall|k: int| g0.edges().len() <= k < g.edges().len() ==> (#[trigger] g.edges()[k]).a.ix >= ks.len() && g.edges()[k].w.made(GE::Feat)
    &&& forall|s: Seq<char>| #[trigger] ons(st0, s) ==> ons(st, s)
    &&& forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) ==> fset(g0, i).contains(s) || ons(st, s)
    &&& forall|s: Seq<char>| #[trigger] ons(st, s) ==> ons(st0, s) || fset(g, i).contains(s)
}
"""
LEM += r"""
proof fn sub_refl<N, E: FromEdge>(g: G<N, E>, ks: Ks, i: int, st: Seq<String>, x: Xs) requires shape(g, ks), within(g, i, x) ensures sub_post(g, g, ks, i, st, st, x) { }
proof fn sub_trans<N, E: FromEdge>(a: G<N, E>, b: G<N, E>, c: G<N, E>, ks: Ks, i: int, sa: Seq<String>, sb: Seq<String>, sc: Seq<String>, x: Xs)
    requires sub_post(a, b, ks, i, sa, sb, x), sub_post(b, c, ks, i, sb, sc, x), 0 <= i < a.raw().len(), a.raw()[i].weight is Krate, ks.len() <= a.raw().len(), ensures sub_post(a, c, ks, i, sa, sc, x),
{
    gro2_trans(a, b, c); assert(same2(a.raw()[i].weight, b.raw()[i].weight)); assert(same2(b.raw()[i].weight, c.raw()[i].weight));
    assert forall|j: int| 0 <= j < ks.len() && j != i implies #[trigger] c.raw()[j] == a.raw()[j] by { assert(b.raw()[j] == a.raw()[j]); }
    assert forall|k: int| a.edges().len() <= k < c.edges().len() implies (#[trigger] c.edges()[k]).a.ix >= ks.len() && c.edges()[k].w.made(GE::Feat) by { if k < b.edges().len() { assert(c.edges()[k] == b.edges()[k]); } }
}
"""
LEM += r"""
/// the feature s of the crate at i has got a node, and is a feature of the crate from here on
proof fn sub_new<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, i: int, st0: Seq<String>, st: Seq<String>, x: Xs, s: Seq<char>)
    requires
        shape(g0, ks), 0 <= i < ks.len(), within(g0, i, x), x(s), g.edges() == g0.edges(), g.raw().len() <= u32::MAX,
        (g == g0 && st == st0) || sub_ins(g0, g, i, st0, st, s),
    ensures sub_post(g0, g, ks, i, st0, st, x),
{
    sub_refl(g0, ks, i, st0, x); assert(is_k(g0.raw()[i].weight, ks[i]));
    if g == g0 && st == st0 { } else {
        assert forall|j: int| 0 <= j < ks.len() implies is_k((#[trigger] g.raw()[j]).weight, ks[j]) by { assert(is_k(g0.raw()[j].weight, ks[j])); }
        assert forall|u: Seq<char>| #[trigger] ons(st0, u) implies ons(st, u) by { let k = choose|k: int| 0 <= k < st0.len() && (#[trigger] st0[k])@ == u; assert(st[k] == st0[k]); }
        assert forall|u: Seq<char>| #[trigger] fset(g, i).contains(u) implies fset(g0, i).contains(u) || ons(st, u) by { if !fset(g0, i).contains(u) { assert(st[st0.len() as int]@ == u); } }
        assert forall|u: Seq<char>| #[trigger] ons(st, u) implies ons(st0, u) || fset(g, i).contains(u) by { let k = choose|k: int| 0 <= k < st.len() && (#[trigger] st[k])@ == u; if k < st0.len() { assert(st[k] == st0[k]); } }
    }
}
proof fn sub_add<N, E: FromEdge>(g0: G<N, E>, g1: G<N, E>, g: G<N, E>, ks: Ks, i: int, st0: Seq<String>, st: Seq<String>, x: Xs)
    requires
        sub_post(g0, g1, ks, i, st0, st, x), shape(g0, ks), 0 <= i < ks.len(), g.raw() == g1.raw(), g.edges().len() == g1.edges().len() + 1, g.edges().drop_last() == g1.edges(), g.edges().len() <= u32::MAX,
        ks.len() <= g.edges().last().a.ix < g.raw().len(), g.edges().last().z.ix < g.raw().len(), g.edges().last().w.made(GE::Feat),
    ensures sub_post(g0, g, ks, i, st0, st, x),
{
    assert(is_k(g0.raw()[i].weight, ks[i]));
    assert forall|k: int| 0 <= k < g1.edges().len() implies #[trigger] g.edges()[k] == g1.edges()[k] by { assert(g.edges().drop_last()[k] == g.edges()[k]); }
    sub_post_refl2(g1, g, ks, i, st, x);
    sub_trans(g0, g1, g, ks, i, st0, st, st, x);
}
proof fn sub_post_refl2<N, E: FromEdge>(g1: G<N, E>, g: G<N, E>, ks: Ks, i: int, st: Seq<String>, x: Xs)
    requires shape(g1, ks), within(g1, i, x), 0 <= i < ks.len(), g.raw() == g1.raw(), g.edges().len() == g1.edges().len() + 1, g.edges().len() <= u32::MAX, forall|k: int| 0 <= k < g1.edges().len() ==> #[trigger] g.edges()[k] == g1.edges()[k],
        ks.len() <= g.edges().last().a.ix < g.raw().len(), g.edges().last().z.ix < g.raw().len(), g.edges().last().w.made(GE::Feat),
    ensures sub_post(g1, g, ks, i, st, st, x),
{
    let e = g.edges().len() - 1; assert(g.edges()[e] == g.edges().last());
    sub_refl(g1, ks, i, st, x);
    assert(shape(g, ks)) by { assert forall|k: int| 0 <= k < g.edges().len() implies (#[trigger] g.edges()[k]).a.ix < g.raw().len() && g.edges()[k].z.ix < g.raw().len() by { if k < e { assert(g.edges()[k] == g1.edges()[k]); } } }
    assert(gro2(g1, g));
    assert(fset(g, i) == fset(g1, i));
    assert forall|u: Seq<char>| #[trigger] fset(g, i).contains(u) implies x(u) by { assert(fset(g1, i).contains(u)); }
}
"""
SPEC += r"""
pub open spec fn sub_ins<N, E>(g0: G<N, E>, g: G<N, E>, i: int, st0: Seq<String>, st: Seq<String>, s: Seq<char>) -> bool {
    let (w0, w) = (g0.raw()[i].weight, g.raw()[i].weight);
    &&& g.raw().len() == g0.raw().len() + 1 && g.raw().last().weight is Feature && g.raw().last().weight->krate_index.ix == i
    &&& forall|j: int| 0 <= j < g0.raw().len() && j != i ==> #[trigger] g.raw()[j] == g0.raw()[j]
    &&& w is Krate && w->id == w0->id && w->krate == w0->krate && w->dep_mapping == w0->dep_mapping
    &&& (fset(g, i) == fset(g0, i) && st == st0) || (fset(g, i) == fset(g0, i).insert(s) && st.len() == st0.len() + 1 && st.drop_last() == st0 && st.last()@ == s)
}
"""
FNS += [
    Fn("sub_edge", B, BM, """fn sub_edge<N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, krates_end: usize, pid: &Kid, kind: NodeId, src_id: NodeId, sub_feat: FeatureEdge<'_>, feature_stack: &mut Vec<String>, Ghost(ks): Ghost<Ks>, Ghost(x): Ghost<Xs>)
    requires shape(*old(graph), ks), krates_end == ks.len(), pid.wf(), at_k(ks, kkey(pid), kind.ix as int), ks.len() <= src_id.ix < old(graph).raw().len(), sub_feat.kid.wf(), x(subname(sub_feat)), within(*old(graph), kind.ix as int, x),
    ensures sub_post(*old(graph), *final(graph), ks, kind.ix as int, old(feature_stack)@, final(feature_stack)@, x)""",
       select=FB + ";loop:#1", methods=FM + [("is_none", "0", "is_none")] + SETM, eqs=True, subst=[GETH, IMUT, (r"\bcontinue;", "vx_at!(skip); return;"), (r"crate::Node::", "LNode::"), (r"crate::Edge::", "Edge::")],
       at={"start": """let ghost g0 = *graph; let ghost st0 = feature_stack@; let ghost i = kind.ix as int; let ghost mut g1 = *graph; let ghost s = subname(sub_feat); proof { sub_refl(g0, ks, i, st0, x); assert(is_k(g0.raw()[i].weight, ks[i])); let b = sub_feat.kid.part(0); assert forall|u: Seq<char>| #[trigger] encode_utf8(u) == b implies u == decode_utf8(b) by { name_text(u, b); } }""",
           "let_target_id": """proof { g1 = *graph;
               if g1.raw().len() != g0.raw().len() {
                   let (w0, w) = (g0.raw()[i].weight, g1.raw()[i].weight);
                   assert(g1.raw().len() == g0.raw().len() + 1 && g1.raw().last().weight is Feature && g1.raw().last().weight->krate_index.ix == i);
                   assert(forall|j: int| 0 <= j < g0.raw().len() && j != i ==> #[trigger] g1.raw()[j] == g0.raw()[j]);
                   assert(w is Krate && w->id == w0->id && w->krate == w0->krate && w->dep_mapping == w0->dep_mapping);
                   assert(g1.edges() == g0.edges());
                   let st = feature_stack@;
                   if st.len() == st0.len() { assert(fset(g1, i) =~= fset(g0, i)); assert(st == st0); }
                   else { assert(st.drop_last() =~= st0); assert(fset(g1, i) == fset(g0, i).insert(s)); assert(st.last()@ == s); }
               }
               sub_new(g0, g1, ks, i, st0, feature_stack@, x, s); }""",
           }, ret="proof { assert(graph.edges().drop_last() =~= g1.edges()); sub_add(g0, g1, *graph, ks, i, st0, feature_stack@, x); }"),
    Fn("pop_one", B, BM, """fn pop_one<'n, N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, krates_end: usize, pid: &Kid, kind: NodeId, feat: String, enabled: &mut Vec<(String, Vec<FeatureEdge<'n>>)>, feature_stack: &mut Vec<String>, Ghost(ks): Ghost<Ks>, Ghost(fg): Ghost<Fg<'n>>, Ghost(x): Ghost<Xs>)
    requires krates_end == ks.len(), pid.wf(), at_k(ks, kkey(pid), kind.ix as int), fstate(*old(graph), ks, kind.ix as int, old(enabled)@, old(feature_stack)@, fg, x, Some(feat@)),
    ensures fstate(*final(graph), ks, kind.ix as int, final(enabled)@, final(feature_stack)@, fg, x, None), gro2(*old(graph), *final(graph)), only_i(*old(graph), *final(graph), ks, kind.ix as int),
        forall|k: int| old(graph).edges().len() <= k < final(graph).edges().len() ==> (#[trigger] final(graph).edges()[k]).a.ix >= ks.len() && final(graph).edges()[k].w.made(GE::Feat),
        final(enabled)@.len() < old(enabled)@.len() || (final(enabled)@.len() == old(enabled)@.len() && final(feature_stack)@ == old(feature_stack)@)""",
       select=FB + ";wloop:#0;loop:#0", methods=FM, eqs=True, subst=[GOI, (r"\bcontinue;", "vx_at!(skip); return;"), (r"crate::Edge::", "Edge::")],
       cuts=[("loop:#0", "sub_edge(graph, krates_end, pid, kind, src_id, sub_feat, feature_stack, Ghost(ks), Ghost(x))")],
       closures={0: "|vxp0: &(String, Vec<FeatureEdge<'n>>)| -> (r: bool) ensures r == (vxp0.0@ == feat@)"},
       at={"start": """let ghost g0 = *graph; let ghost st0 = feature_stack@; let ghost en0 = enabled@; let ghost i = kind.ix as int; let ghost f = feat@; let ghost mut g1 = *graph; let ghost mut g2 = *graph; let ghost mut ei: int = 0; let ghost m0 = graph.edges().len(); proof { assert(is_k(g0.raw()[i].weight, ks[i])); }""",
           "skip": "proof { assert(!listed(en0, f)) by { if listed(en0, f) { let e = choose|e: int| 0 <= e < en0.len() && (#[trigger] en0[e]).0@ == f; assert(*refs(en0)[e] == en0[e]); } } }",
           "let_src_id": """proof { g1 = *graph; assert(exists|e: int| #[trigger] took(en0, enabled@, e) && en0[e].0@ == f && en0[e].1 == sub_features) by { let r = refs(en0); let e = choose|e: int| 0 <= e < r.len() && (#[trigger] r[e]).0@ == f && en0[e].1 == sub_features && took(en0, enabled@, e); assert(took(en0, enabled@, e)); }
               ei = choose|e: int| #[trigger] took(en0, enabled@, e) && en0[e].0@ == f && en0[e].1 == sub_features; assert(from_fg(fg, en0[ei])); assert(okent(en0[ei], x)); assert(is_fn(g1.raw()[src_id.ix as int].weight, i, f)); }""",
           "l0_before": """proof { g2 = *graph; assert(g2.edges().drop_last() =~= g1.edges()); pop_new(g0, g1, g2, ks, i, x, f, src_id.ix as int); sub_refl(g2, ks, i, st0, x); assert(vx_s0 == en0[ei].1@); }""",
           "l0_start": "let ghost gb = *graph; let ghost sb = feature_stack@; proof { assert(sub_feat == vx_s0[vx_it0.i() - 1]); assert(vx_s0[vx_it0.i() - 1] == en0[ei].1@[vx_it0.i() - 1]); }",
           "l0_end": "proof { sub_trans(g2, gb, *graph, ks, i, st0, sb, feature_stack@, x); }"},
       loops={0: forinv(0, None, "sub_post(g2, *graph, ks, i, st0, feature_stack@, x), g2.raw().len() > src_id.ix >= ks.len()")}, ret="proof { pop_done(g0, g2, *graph, ks, i, en0, enabled@, st0, feature_stack@, fg, x, f, ei); }"),
]
SPEC += r"""
/// one entry has been taken out
pub open spec fn took(en0: Fg<'_>, en: Fg<'_>, e: int) -> bool { 0 <= e < en0.len() && en == en0.update(e, en0.last()).drop_last() }
/// the feature has its node, with an edge to the crate
pub open spec fn pop_mid<N, E: FromEdge>(g0: G<N, E>, g2: G<N, E>, ks: Ks, i: int, x: Xs, f: Seq<char>) -> bool {
    &&& shape(g2, ks) && gro2(g0, g2) && only_i(g0, g2, ks, i) && within(g2, i, x) && fset(g2, i) == fset(g0, i) && linked(g2, i, f)
    &&& forall|k: int| g0.edges().len() <= k < g2.edges().len() ==> (#[trigger] g2.edges()[k]).a.ix >= ks.len() && g2.edges()[k].w.made(GE::Feat)
}
"""
LEM += r"""
proof fn pop_new<N, E: FromEdge>(g0: G<N, E>, g1: G<N, E>, g2: G<N, E>, ks: Ks, i: int, x: Xs, f: Seq<char>, src: int)
    requires
        shape(g1, ks), 0 <= i < ks.len(), ks.len() <= g0.raw().len() <= g1.raw().len(), g1.edges() == g0.edges(), forall|j: int| 0 <= j < g0.raw().len() ==> #[trigger] g1.raw()[j] == g0.raw()[j], within(g0, i, x), shape(g0, ks),
        fnode(g1, src, i, f), g2.raw() == g1.raw(), g2.edges().len() == g1.edges().len() + 1, g2.edges().drop_last() == g1.edges(), g2.edges().last().a.ix == src, g2.edges().last().z.ix == i, g2.edges().last().w.made(GE::Feat), g2.edges().len() <= u32::MAX,
    ensures pop_mid(g0, g2, ks, i, x, f), src >= ks.len(),
{
    if src < ks.len() { assert(is_k(g1.raw()[src].weight, ks[src])); }
    let e = g2.edges().len() - 1; assert(g2.edges()[e] == g2.edges().last());
    assert forall|k: int| 0 <= k < e implies #[trigger] g2.edges()[k] == g1.edges()[k] by { assert(g2.edges().drop_last()[k] == g2.edges()[k]); }
    assert forall|k: int| 0 <= k < g2.edges().len() implies (#[trigger] g2.edges()[k]).a.ix < g2.raw().len() && g2.edges()[k].z.ix < g2.raw().len() by { if k < e { assert(g2.edges()[k] == g1.edges()[k]); } }
    assert(g2.raw()[i] == g1.raw()[i]); assert(g1.raw()[i] == g0.raw()[i]); assert(fset(g2, i) == fset(g0, i));
    assert forall|j: int| 0 <= j < g0.raw().len() implies same2(g0.raw()[j].weight, (#[trigger] g2.raw()[j]).weight) by { assert(g1.raw()[j] == g0.raw()[j]); if j < ks.len() { assert(is_k(g0.raw()[j].weight, ks[j])); } }
    assert forall|s: Seq<char>| #[trigger] fset(g2, i).contains(s) implies x(s) by { assert(fset(g0, i).contains(s)); }
    assert(is_edge(g2, e, src, i, GE::Feat)); assert(has(g2, src, i, GE::Feat)); assert(fnode(g2, src, i, f)); assert(linked(g2, i, f));
}
proof fn pop_done<N, E: FromEdge>(g0: G<N, E>, g2: G<N, E>, g: G<N, E>, ks: Ks, i: int, en0: Fg<'_>, en: Fg<'_>, st0: Seq<String>, st: Seq<String>, fg: Fg<'_>, x: Xs, f: Seq<char>, e: int)
    requires fstate(g0, ks, i, en0, st0, fg, x, Some(f)), took(en0, en, e), en0[e].0@ == f, pop_mid(g0, g2, ks, i, x, f), sub_post(g2, g, ks, i, st0, st, x),
    ensures
        fstate(g, ks, i, en, st, fg, x, None), gro2(g0, g), only_i(g0, g, ks, i), en.len() < en0.len(),
        forall|k: int| g0.edges().len() <= k < g.edges().len() ==> (#[trigger] g.edges()[k]).a.ix >= ks.len() && g.edges()[k].w.made(GE::Feat),
{
    gro2_trans(g0, g2, g); gro2_facts(g0, g); gro2_facts(g2, g);
    assert forall|j: int| 0 <= j < ks.len() && j != i implies #[trigger] g.raw()[j] == g0.raw()[j] by { assert(g2.raw()[j] == g0.raw()[j]); }
    assert forall|k: int| g0.edges().len() <= k < g.edges().len() implies (#[trigger] g.edges()[k]).a.ix >= ks.len() && g.edges()[k].w.made(GE::Feat) by { if k < g2.edges().len() { assert(g.edges()[k] == g2.edges()[k]); } }
    assert forall|j: int| 0 <= j < en.len() implies from_fg(fg, #[trigger] en[j]) by { if j == e { assert(en[j] == en0[en0.len() - 1]); assert(from_fg(fg, en0[en0.len() - 1])); } else { assert(en[j] == en0[j]); assert(from_fg(fg, en0[j])); } }
    assert forall|s: Seq<char>| #[trigger] listed(fg, s) implies listed(en, s) || linked(g, i, s) by {
        if !linked(g, i, s) {
            assert(!linked(g0, i, s)); assert(listed(en0, s)); let j = choose|j: int| 0 <= j < en0.len() && (#[trigger] en0[j]).0@ == s; assert(j != e);
            if j == en0.len() - 1 { assert(en[e] == en0[j]); assert(en[e].0@ == s); } else { assert(en[j] == en0[j]); assert(en[j].0@ == s); }
        }
    }
    assert forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) implies ons(st, s) || !listed(fg, s) || linked(g, i, s) by {
        if !ons(st, s) { assert(fset(g2, i).contains(s)); assert(fset(g0, i).contains(s)); if s == f { assert(linked(g, i, s)); } else { if ons(st0, s) { } assert(!listed(fg, s) || linked(g0, i, s)); } }
    }
    assert forall|k: int| 0 <= k < st.len() implies fset(g, i).contains((#[trigger] st[k])@) by {
        let s = st[k]@; assert(ons(st, s));
        if !fset(g, i).contains(s) { assert(ons(st0, s)); let q = choose|q: int| 0 <= q < st0.len() && (#[trigger] st0[q])@ == s; assert(fset(g0, i).contains(s)); assert(is_k(g0.raw()[i].weight, ks[i])); assert(same2(g0.raw()[i].weight, g.raw()[i].weight)); }
    }
}
"""

GETI = (r"\bget\(\s*&\s*graph,((?:[^()]|\([^()]*\))*?),?\s*\)", r"get(krates_end, &*graph,\1, Ghost(ks))")
SPEC += r"""
/// what happened to the features of the crate with key k
pub open spec fn pid_post<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, k: KKey, fg: Fg<'_>, x: Xs) -> bool {
    &&& shape(g, ks) && gro2(g0, g)
    &&& forall|j: int| 0 <= j < ks.len() && ks[j] != k ==> #[trigger] g.raw()[j] == g0.raw()[j]
    &&& forall|i: int| #[trigger] at_k(ks, k, i) ==> fdone(g, i, fg, x)
    &&& forall|e: int| g0.edges().len() <= e < g.edges().len() ==> (#[trigger] g.edges()[e]).a.ix >= ks.len() && g.edges()[e].w.made(GE::Feat)
}
"""
LEM += r"""
proof fn sub_refl0<N, E>(g: G<N, E>, ks: Ks) requires shape(g, ks) ensures gro2(g, g)
{ assert forall|i: int| 0 <= i < g.raw().len() implies same2(g.raw()[i].weight, (#[trigger] g.raw()[i]).weight) by { if i < ks.len() { assert(is_k(g.raw()[i].weight, ks[i])); } } }
proof fn fs_init<N, E: FromEdge>(g: G<N, E>, ks: Ks, i: int, fg: Fg<'_>, st: Seq<String>, x: Xs)
    requires shape(g, ks), 0 <= i < ks.len(), within(g, i, x), fclosed(fg, x), forall|u: Seq<char>| #[trigger] ons(st, u) <==> fset(g, i).contains(u),
    ensures fstate(g, ks, i, fg, st, fg, x, None), gro2(g, g),
{
    sub_refl0(g, ks);
    assert forall|e: int| 0 <= e < fg.len() implies from_fg(fg, #[trigger] fg[e]) by { }
    assert forall|k: int| 0 <= k < st.len() implies fset(g, i).contains((#[trigger] st[k])@) by { assert(ons(st, st[k]@)); }
}
proof fn fs_pop<N, E: FromEdge>(g: G<N, E>, ks: Ks, i: int, en: Fg<'_>, st0: Seq<String>, st: Seq<String>, fg: Fg<'_>, x: Xs, f: String)
    requires fstate(g, ks, i, en, st0, fg, x, None), st0.len() > 0, st == st0.subrange(0, st0.len() - 1), f == st0.last(),
    ensures fstate(g, ks, i, en, st, fg, x, Some(f@)),
{
    assert forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) implies f@ == s || ons(st, s) || !listed(fg, s) || linked(g, i, s) by {
        if ons(st0, s) { let k = choose|k: int| 0 <= k < st0.len() && (#[trigger] st0[k])@ == s; if k < st.len() { assert(st[k] == st0[k]); } }
    }
    assert forall|k: int| 0 <= k < st.len() implies fset(g, i).contains((#[trigger] st[k])@) by { assert(st[k] == st0[k]); }
}
proof fn pid_fin<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, k: KKey, i: int, en: Fg<'_>, st: Seq<String>, fg: Fg<'_>, x: Xs)
    requires fstate(g, ks, i, en, st, fg, x, None), st.len() == 0, gro2(g0, g), only_i(g0, g, ks, i), at_k(ks, k, i),
        forall|e: int| g0.edges().len() <= e < g.edges().len() ==> (#[trigger] g.edges()[e]).a.ix >= ks.len() && g.edges()[e].w.made(GE::Feat),
    ensures pid_post(g0, g, ks, k, fg, x),
{
    assert forall|a: int| #[trigger] at_k(ks, k, a) implies fdone(g, a, fg, x) by {
        at_one(ks, k, a, i);
        assert forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) && listed(fg, s) implies linked(g, i, s) by { assert(!ons(st, s)); }
    }
}
"""
FNS += [
    Fn("feat_pid", B, BM, """fn feat_pid<'n, N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, krates_end: usize, pid: &Kid, features: KrateFeatures<'n>, Ghost(ks): Ghost<Ks>, Ghost(x): Ghost<Xs>)
    requires shape(*old(graph), ks), krates_end == ks.len(), pid.wf(), forall|i: int| #[trigger] at_k(ks, kkey(pid), i) ==> within(*old(graph), i, x), fclosed(features.graph@, x),
    ensures pid_post(*old(graph), *final(graph), ks, kkey(pid), features.graph@, x)""",
       select=FB, methods=FM, eqs=True, drop_lets=["get_or_insert"], index=[("graph", "vx_index")],
       subst=[GETI, (r"\bcontinue;", "vx_at!(skip); return;"), (r"crate::Node::", "LNode::")],
       cuts=[("wloop:#0;loop:#0", "pop_one(graph, krates_end, pid, kind, feat, &mut enabled, &mut feature_stack, Ghost(ks), Ghost(fg), Ghost(x))")],
       closures={0: """|vxp0: NodeId| -> (r: Option<(NodeId, Vec<String>)>) requires vxp0.ix < graph.raw().len(), graph.raw()[vxp0.ix as int].weight is Krate,
                   ensures r is Some, (r->0).0 == vxp0, forall|u: Seq<char>| #[trigger] ons((r->0).1@, u) <==> graph.raw()[vxp0.ix as int].weight->Krate_features.tx().contains(u)"""},
       loops={0: """invariant 0 <= i < ks.len(), kind.ix == i, at_k(ks, k, i), fstate(*graph, ks, i, enabled@, feature_stack@, fg, x, None), gro2(g0, *graph), only_i(g0, *graph, ks, i), stp == feature_stack@,
                   forall|e: int| g0.edges().len() <= e < graph.edges().len() ==> (#[trigger] graph.edges()[e]).a.ix >= ks.len() && graph.edges()[e].w.made(GE::Feat),
    decreases enabled@.len(), feature_stack@.len()"""},
       at={"start": "let ghost g0 = *graph; let ghost fg = features.graph@; let ghost k = kkey(pid);",
           "skip": "proof { sub_refl0(g0, ks); }",
           "let_enabled": "let ghost i = kind.ix as int; let ghost mut stp = feature_stack@; proof { fs_init(g0, ks, i, fg, feature_stack@, x); }",
           "l0_start": "let ghost gb = *graph; let ghost sb = feature_stack@; let ghost eb = enabled@; proof { fs_pop(gb, ks, i, eb, stp, sb, fg, x, feat); }",
           "l0_end": "proof { gro2_trans(g0, gb, *graph); stp = feature_stack@; assert forall|e: int| g0.edges().len() <= e < graph.edges().len() implies (#[trigger] graph.edges()[e]).a.ix >= ks.len() && graph.edges()[e].w.made(GE::Feat) by { if e < gb.edges().len() { assert(graph.edges()[e] == gb.edges()[e]); } } assert forall|j: int| 0 <= j < ks.len() && j != i implies #[trigger] graph.raw()[j] == g0.raw()[j] by { assert(gb.raw()[j] == g0.raw()[j]); } }"},
       ret="proof { pid_fin(g0, *graph, ks, k, i, enabled@, feature_stack@, fg, x); }"),
]

SPEC += r"""
pub type Fm<'n> = Map<KKey, KrateFeatures<'n>>;
pub type Fs<'n> = Seq<(&'n Kid, KrateFeatures<'n>)>;
pub open spec fn seen(s: Fs<'_>, n: int, k: KKey) -> bool { exists|j: int| 0 <= j < n && kkey((#[trigger] s[j]).0) == k }
/// C20: what the last part of the build does: the features of every crate the walk recorded features for are complete and linked, every other crate is untouched, and all edges added are feature edges that start at a feature
pub open spec fn all_part<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, fm: Fm<'_>, s: Fs<'_>, n: int, xs: spec_fn(KKey) -> Xs) -> bool {
    &&& shape(g, ks) && gro2(g0, g)
    &&& forall|i: int| 0 <= i < ks.len() && seen(s, n, #[trigger] ks[i]) ==> fdone(g, i, fm[ks[i]].graph@, xs(ks[i]))
    &&& forall|i: int| 0 <= i < ks.len() && !seen(s, n, #[trigger] ks[i]) ==> g.raw()[i] == g0.raw()[i]
    &&& forall|e: int| g0.edges().len() <= e < g.edges().len() ==> (#[trigger] g.edges()[e]).a.ix >= ks.len() && g.edges()[e].w.made(GE::Feat)
}
pub open spec fn all_done<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, fm: Fm<'_>, xs: spec_fn(KKey) -> Xs) -> bool {
    &&& shape(g, ks) && gro2(g0, g)
    &&& forall|i: int| 0 <= i < ks.len() && fm.contains_key(#[trigger] ks[i]) ==> fdone(g, i, fm[ks[i]].graph@, xs(ks[i]))
    &&& forall|i: int| 0 <= i < ks.len() && !fm.contains_key(#[trigger] ks[i]) ==> g.raw()[i] == g0.raw()[i]
    &&& forall|e: int| g0.edges().len() <= e < g.edges().len() ==> (#[trigger] g.edges()[e]).a.ix >= ks.len() && g.edges()[e].w.made(GE::Feat)
}
pub open spec fn fm_ok(fm: Fm<'_>, xs: spec_fn(KKey) -> Xs) -> bool { forall|k: KKey| #[trigger] fm.contains_key(k) ==> fclosed(fm[k].graph@, xs(k)) }
"""
LEM += r"""
proof fn part_pid<N, E: FromEdge>(g0: G<N, E>, ga: G<N, E>, g: G<N, E>, ks: Ks, fm: Fm<'_>, s: Fs<'_>, n: int, xs: spec_fn(KKey) -> Xs)
    requires
        all_part(g0, ga, ks, fm, s, n, xs), 0 <= n < s.len(), fm.contains_key(kkey(s[n].0)), s[n].1 == fm[kkey(s[n].0)], pid_post(ga, g, ks, kkey(s[n].0), s[n].1.graph@, xs(kkey(s[n].0))), forall|i: int, j: int| 0 <= i < j < s.len() ==> kkey((#[trigger] s[i]).0) != kkey((#[trigger] s[j]).0),
    ensures all_part(g0, g, ks, fm, s, n + 1, xs),
{
    let k = kkey(s[n].0);
    gro2_trans(g0, ga, g); gro2_facts(ga, g);
    assert forall|i: int| 0 <= i < ks.len() && seen(s, n + 1, #[trigger] ks[i]) implies fdone(g, i, fm[ks[i]].graph@, xs(ks[i])) by {
        if ks[i] == k { assert(at_k(ks, k, i)); } else {
            let j = choose|j: int| 0 <= j < n + 1 && kkey((#[trigger] s[j]).0) == ks[i]; assert(j < n); assert(seen(s, n, ks[i])); assert(g.raw()[i] == ga.raw()[i]); assert(fset(g, i) == fset(ga, i));
            assert(fdone(ga, i, fm[ks[i]].graph@, xs(ks[i])));
            assert forall|u: Seq<char>| #[trigger] fset(g, i).contains(u) implies xs(ks[i])(u) by { assert(fset(ga, i).contains(u)); }
            assert forall|u: Seq<char>| #[trigger] fset(g, i).contains(u) && listed(fm[ks[i]].graph@, u) implies linked(g, i, u) by { assert(fset(ga, i).contains(u)); assert(linked(ga, i, u)); }
        }
    }
    assert forall|i: int| 0 <= i < ks.len() && !seen(s, n + 1, #[trigger] ks[i]) implies g.raw()[i] == g0.raw()[i] by {
        assert(ks[i] != k) by { if ks[i] == k { assert(kkey(s[n].0) == ks[i]); assert(seen(s, n + 1, ks[i])); } }
        assert(!seen(s, n, ks[i])) by { if seen(s, n, ks[i]) { let j = choose|j: int| 0 <= j < n && kkey((#[trigger] s[j]).0) == ks[i]; assert(kkey(s[j].0) == ks[i]); assert(seen(s, n + 1, ks[i])); } }
    }
    assert forall|e: int| g0.edges().len() <= e < g.edges().len() implies (#[trigger] g.edges()[e]).a.ix >= ks.len() && g.edges()[e].w.made(GE::Feat) by { if e < ga.edges().len() { assert(g.edges()[e] == ga.edges()[e]); } }
}
proof fn part_within<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, fm: Fm<'_>, s: Fs<'_>, n: int, xs: spec_fn(KKey) -> Xs, k: KKey)
    requires all_part(g0, g, ks, fm, s, n, xs), forall|i: int| 0 <= i < ks.len() ==> within(g0, i, xs(#[trigger] ks[i])),
    ensures forall|i: int| #[trigger] at_k(ks, k, i) ==> within(g, i, xs(k)),
{
    assert forall|i: int| #[trigger] at_k(ks, k, i) implies within(g, i, xs(k)) by { assert(ks[i] == k); if !seen(s, n, ks[i]) { assert(g.raw()[i] == g0.raw()[i]); assert(within(g0, i, xs(ks[i]))); assert(fset(g, i) == fset(g0, i)); assert forall|u: Seq<char>| #[trigger] fset(g, i).contains(u) implies xs(k)(u) by { assert(fset(g0, i).contains(u)); } } }
}
proof fn part_all<N, E: FromEdge>(g0: G<N, E>, g: G<N, E>, ks: Ks, fm: Fm<'_>, s: Fs<'_>, xs: spec_fn(KKey) -> Xs)
    requires all_part(g0, g, ks, fm, s, s.len() as int, xs), forall|k: KKey| #[trigger] fm.contains_key(k) <==> seen(s, s.len() as int, k),
    ensures all_done(g0, g, ks, fm, xs),
{ assert forall|i: int| 0 <= i < ks.len() implies (fm.contains_key(#[trigger] ks[i]) <==> seen(s, s.len() as int, ks[i])) by { } }
"""
FNS += [
    Fn("feat_all", B, BM, """fn feat_all<'n, N, E: FromEdge>(graph: &mut Graph<LNode<N>, E>, krates_end: usize, feature_edge_map: KMap<'n, KrateFeatures<'n>>, Ghost(ks): Ghost<Ks>, Ghost(xs): Ghost<spec_fn(KKey) -> Xs>)
    requires shape(*old(graph), ks), krates_end == ks.len(), forall|i: int| 0 <= i < ks.len() ==> within(*old(graph), i, xs(#[trigger] ks[i])), fm_ok(feature_edge_map.m(), xs),
    ensures all_done(*old(graph), *final(graph), ks, feature_edge_map.m(), xs)""",
       select="stmts:text:feature_stack.pop()..=text:feature_stack.pop()", cuts=[("loop:#0", "feat_pid(graph, krates_end, pid, features, Ghost(ks), Ghost(xs(kkey(pid))))")],
       at={"start": "let ghost g0 = *graph; let ghost fm = feature_edge_map.m(); proof { feature_edge_map.axiom_listed(); sub_refl0(g0, ks); }",
           "l0_before": "let ghost li = feature_edge_map.listing();",
           "l0_start": "let ghost ga = *graph; let ghost n = vx_it0.i() - 1; proof { assert(li[n] == (pid, features)); assert(fm.contains_key(kkey(li[n].0))); part_within(g0, ga, ks, fm, li, n, xs, kkey(pid)); }",
           "l0_end": "proof { part_pid(g0, ga, *graph, ks, fm, li, n, xs); }",
           "l0_after": "proof { assert forall|k: KKey| #[trigger] fm.contains_key(k) implies seen(li, li.len() as int, k) by { } assert forall|k: KKey| #[trigger] seen(li, li.len() as int, k) implies fm.contains_key(k) by { } part_all(g0, *graph, ks, fm, li, xs); }"},
       loops={0: forinv(0, None, "vx_s0 == li, all_part(g0, *graph, ks, fm, li, vx_it0.i(), xs)")}),
]
UNITS = [Unit("edges", ["C04", "C09", "C10", "C19", "C20"], prelude=["str", "iter", "order", "streq", "opt", "graph", "coll", "semver", "cfgexpr", "meta", "kmap"], types=TYPES, mods=dict(_meta.MODS), spec="global size_of usize == 8;\n" + SPEC, lemmas=LEM + build.LEM[build.LEM.index("proof fn same_cmp"):build.LEM.index("proof fn part_len")], fns=FNS)]
