from _common import *
import kid, _meta, build, edges, visit
L, B, BM, IN = "src/lib.rs", "src/builder.rs", build.BM, build.IN
def union(a, b):
    out = list(a)
    for t in b:
        if not any(o.file == t.file and o.path == t.path for o in out): out.append(t)
    return out
KR = Ty(L, "Krates", subst=[(r"<N = cm::Package, E = Edge>", "<N, E>"), (r"petgraph::Graph<Node<N>, E, petgraph::Directed, u32>", "Graph<LNode<N>, E>"), ("Utf8PathBuf", "PathX")])
TYPES = [t for t in union(visit.TYPES, edges.TYPES) if t.path != "Edge"] + [Ty(L, "Edge", subst=[(r"\bEdge\b", "LEdge")]), KR]
U = {"insert_nodes": build.UNITS[0], "link_all": edges.UNITS[0], "feat_all": edges.UNITS[0], "seed_roots": visit.UNITS[0], "visit_all": visit.UNITS[0]}
def stub(name):
    "the contract proved in another unit, word for word"
    f = [f for f in U[name].fns if f.name == name][0]
    return "/// proved in unit %s\n#[verifier::external_body] %s { unimplemented!() }\n" % (U[name].name, f.header)
def drop(text, *starts):
    "without the declarations that start so (another unit has the same)"
    ls = text.split("\n"); out = []; skip = 0
    for l in ls:
        if any(l.startswith(s) for s in starts): continue
        out.append(l)
    return "\n".join(out)
ESPEC = edges.SPEC[len(build.BASE + build.NODE_SPEC):]
ESPEC = drop(ESPEC, "pub type Dm<", "pub type Fm<", "pub open spec fn subopt", "pub open spec fn subname", "impl CloneS for String", "    pub uninterp spec fn tx", "pub trait ClonedX", "impl<'a, I: VxInto<T = &'a String>> ClonedX")
import re
ESPEC = re.sub(r"\bEdge\b", "LEdge", ESPEC)
BSPEC = drop(build.SPEC[len(build.BASE + build.NODE_SPEC):], "    /// petgraph panics", "    #[verifier::external_body] pub fn add_node", "    #[verifier::external_body] pub fn add_edge")
PF = [l for l in visit.UNITS[0].lemmas.split("\n") if "spec fn pf_(" in l][0] + "\n"
SPEC = visit.SPEC + PF + "\n".join(l for l in build.BASE.split("\n") if "spec fn cargo_id" in l or "spec fn id_key" in l) + BSPEC + ESPEC
SPEC += r"""
// ---- C03, C04, C09, C10, C20: the graph, from the document and the configuration alone
pub open spec fn keys(p: Seq<Pk>) -> Ks { Seq::new(p.len(), |i: int| kkey(&p[i].0)) }
/// the crate is in the graph
pub open spec fn inG(w: W, k: KKey) -> bool { D(w)((k, None)) && !excl(w, k) }
/// the packages that are not, in order
pub open spec fn outs(w: W, p: Seq<Pk>) -> Seq<Package> decreases p.len() { if p.len() == 0 { Seq::empty() } else { let r = outs(w, p.drop_last()); if inG(w, kkey(&p.last().0)) { r } else { r.push(p.last().1) } } }
/// what a kept link puts into the graph
pub open spec fn offers(w: W, k: KKey, d: int, x: Link, g: GE, s: Option<Seq<char>>) -> bool {
    match g {
        GE::Dep(kd, c) => kd == x.kind && c == x.cfg && s is None && forall|y: usize| !#[trigger] lfeat(w, k, d, x, y),
        GE::DepF(kd, c) => kd == x.kind && c == x.cfg && s is Some && exists|y: usize| #[trigger] lfeat(w, k, d, x, y) && fname(nd(w, tgt(w, k, d)), y) == s->0,
        GE::Feat => false,
    }
}
pub open spec fn from_link(w: W, k: KKey, d: int, g: GE, s: Option<Seq<char>>) -> bool { exists|l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && offers(w, k, d, lk(w, k, d, l, b)->0, g, s) }
pub open spec fn from_feat(w: W, k: KKey, d: int, g: GE, s: Option<Seq<char>>) -> bool { g == GE::Feat && s is Some && linkedP(w, D(w), k, d) && exists|y: usize| #[trigger] featM(w, k, d, y) && fname(nd(w, tgt(w, k, d)), y) == s->0 }
pub open spec fn offer_d(w: W, k: KKey, d: int, q: KKey, g: GE, s: Option<Seq<char>>) -> bool { isd(w, k, d) && tgt(w, k, d) == q && (from_link(w, k, d, g, s) || from_feat(w, k, d, g, s)) }
/// the dependency of k on q calls for this edge: to the crate, or to its feature s
pub open spec fn gdep(w: W, k: KKey, q: KKey, g: GE, s: Option<Seq<char>>) -> bool { exists|d: int| #[trigger] offer_d(w, k, d, q, g, s) }
/// the features of the crate the rules switch on; all resolved ones for a root
pub open spec fn fbase(w: W, k: KKey, s: Seq<char>) -> bool { if w.roots.contains(k) { is_text(nd(w, k).features@, s) } else { exists|y: usize| #[trigger] D(w)((k, Some(y))) && is_fidx(nd(w, k), s, y) } }
pub open spec fn refname(e: FeatS) -> Seq<char> { match e { FeatS::Simple(s) => s, FeatS::Dep(c) => c, FeatS::Strong(_, f) => f, FeatS::Weak(_, f) => f } }
pub open spec fn tclosed(w: W, k: KKey, p: Xs) -> bool {
    &&& forall|s: Seq<char>| #[trigger] fbase(w, k, s) ==> p(s)
    &&& forall|f: usize, i: int| #[trigger] isi(w, k, f, i) && p(nd(w, k).features@[f as int]@) ==> p(refname(fe(w, k, f, i)))
}
/// what those refer to, all the way
pub open spec fn tks(w: W, k: KKey, s: Seq<char>) -> bool { forall|p: Xs| #[trigger] tclosed(w, k, p) ==> p(s) }
pub open spec fn tk(w: W, k: KKey) -> Xs { |s: Seq<char>| tks(w, k, s) }
pub open spec fn xsw(w: W) -> spec_fn(KKey) -> Xs { |k: KKey| tk(w, k) }
pub open spec fn declared(w: W, k: KKey, s: Seq<char>) -> bool { is_text(nd(w, k).features@, s) && pk(w, k).features.m().contains_key(s) }
/// a crate of the graph is its package
pub open spec fn node_is<N: FromPkg>(w: W, n: LNode<N>, k: KKey) -> bool { inG(w, k) && is_k(n, k) && n->krate.made(pk(w, k)) && dmap(n).len() == pk(w, k).dependencies@.len() }
pub open spec fn order_ok<N, E>(g: G<N, E>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> k_less(&(#[trigger] g.raw()[i]).weight->id, &(#[trigger] g.raw()[j]).weight->id) }
pub open spec fn is_why<N, E: FromEdge>(w: W, g: G<N, E>, ks: Ks, e: int, t: int, x: GE, s: Option<Seq<char>>) -> bool { 0 <= t < ks.len() && eto(g, g.edges()[e].z.ix as int, t, s) && g.edges()[e].w.made(x) && gdep(w, ks[g.edges()[e].a.ix as int], ks[t], x, s) }
pub open spec fn edge_why<N, E: FromEdge>(w: W, g: G<N, E>, ks: Ks, e: int) -> bool { if g.edges()[e].a.ix < ks.len() { exists|t: int, x: GE, s: Option<Seq<char>>| #[trigger] is_why(w, g, ks, e, t, x, s) } else { g.edges()[e].w.made(GE::Feat) } }
pub open spec fn there<N, E: FromEdge>(g: G<N, E>, i: int, t: int, x: GE, s: Option<Seq<char>>) -> bool { match s { None => has(g, i, t, x), Some(n) => has_fe(g, i, t, n, x) } }
/// the declaration stands for a kept link of k to q
pub open spec fn maps_to(w: W, k: KKey, j: int, q: KKey) -> bool { exists|d: int, l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && isd(w, k, d) && tgt(w, k, d) == q && lk(w, k, d, l, b)->0.decl == j }
pub open spec fn map_ok<N, E>(w: W, g: G<N, E>, ks: Ks, i: int, j: int) -> bool {
    let o = dmap(g.raw()[i].weight)[j];
    (o is Some ==> 0 <= o->0.ix < ks.len() && maps_to(w, ks[i], j, ks[o->0.ix as int])) && (o is None ==> forall|t: int| 0 <= t < ks.len() ==> !maps_to(w, ks[i], j, #[trigger] ks[t]))
}
/// crates first, each crate of the graph once, ordered by identifier, and nothing else but features of these
pub open spec fn g_nodes<N: FromPkg, E>(w: W, g: G<N, E>, ks: Ks) -> bool { shape(g, ks) && order_ok(g, ks.len() as int) && (forall|k: KKey| #[trigger] in_k(ks, k) <==> inG(w, k)) && forall|i: int| 0 <= i < ks.len() ==> node_is(w, #[trigger] g.raw()[i].weight, ks[i]) }
/// the edges from crates are those the kept links and enabled features call for
pub open spec fn g_edges<N, E: FromEdge>(w: W, g: G<N, E>, ks: Ks) -> bool {
    &&& forall|e: int| 0 <= e < g.edges().len() ==> #[trigger] edge_why(w, g, ks, e)
    &&& forall|i: int, t: int, x: GE, s: Option<Seq<char>>| 0 <= i < ks.len() && 0 <= t < ks.len() && #[trigger] gdep(w, ks[i], ks[t], x, s) ==> there(g, i, t, x, s)
}
/// C10: each declaration leads to the crate its links lead to
pub open spec fn g_maps<N, E>(w: W, g: G<N, E>, ks: Ks) -> bool { forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < dmap(g.raw()[i].weight).len() ==> #[trigger] map_ok(w, g, ks, i, j) }
pub open spec fn feats_ok<N, E: FromEdge>(w: W, g: G<N, E>, ks: Ks, i: int) -> bool {
    &&& forall|s: Seq<char>| #[trigger] fbase(w, ks[i], s) ==> fset(g, i).contains(s)
    &&& within(g, i, tk(w, ks[i]))
    &&& forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) && declared(w, ks[i], s) ==> linked(g, i, s)
}
/// C09, C20: the enabled features, each declared one with its node
pub open spec fn g_feats<N, E: FromEdge>(w: W, g: G<N, E>, ks: Ks) -> bool { forall|i: int| 0 <= i < ks.len() ==> #[trigger] feats_ok(w, g, ks, i) }
pub open spec fn graph_is<N: FromPkg, E: FromEdge>(w: W, g: G<N, E>, ks: Ks) -> bool { g_nodes(w, g, ks) && g_edges(w, g, ks) && g_maps(w, g, ks) && g_feats(w, g, ks) }
pub open spec fn built<N: FromPkg, E: FromEdge>(w: W, kr: Krates<N, E>) -> bool { exists|ks: Ks| kr.krates_end == ks.len() && #[trigger] graph_is(w, kr.graph, ks) }
"""
LEM = r"""
pub open spec fn of_p<V>(p: Seq<Pk>, m: Map<KKey, V>, yes: bool, x: Pk) -> bool { m.contains_key(kkey(&x.0)) == yes && exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == x }
proof fn part_is<V>(p: Seq<Pk>, m: Map<KKey, V>, yes: bool)
    ensures
        forall|i: int| 0 <= i < part(p, m, yes).len() ==> of_p(p, m, yes, #[trigger] part(p, m, yes)[i]), in_order(p) ==> in_order(part(p, m, yes)),
        forall|j: int| 0 <= j < p.len() && m.contains_key(kkey(&(#[trigger] p[j]).0)) == yes ==> part(p, m, yes).contains(p[j]),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last(); let r = part(q, m, yes); let z = part(p, m, yes); part_is(q, m, yes);
        assert(p.last() == p[p.len() - 1]);
        assert forall|i: int| 0 <= i < z.len() implies of_p(p, m, yes, #[trigger] z[i]) by { if i < r.len() { assert(of_p(q, m, yes, r[i])); let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == r[i]; assert(p[j] == z[i]); } else { assert(p[p.len() - 1] == z[i]); } }
        if in_order(p) {
            assert(in_order(q)) by { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0.wf() by { assert(p[i].0.wf()); } assert forall|i: int, j: int| 0 <= i < j < q.len() implies k_less(&(#[trigger] q[i]).0, &(#[trigger] q[j]).0) by { assert(k_less(&p[i].0, &p[j].0)); } }
            assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).0.wf() by { assert(of_p(p, m, yes, z[i])); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == z[i]; assert(p[j].0.wf()); }
            assert forall|i: int, j: int| 0 <= i < j < z.len() implies k_less(&(#[trigger] z[i]).0, &(#[trigger] z[j]).0) by {
                if j < r.len() { assert(k_less(&r[i].0, &r[j].0)); } else { assert(of_p(q, m, yes, r[i])); let a = choose|a: int| 0 <= a < q.len() && #[trigger] q[a] == r[i]; assert(p[a] == z[i]); assert(k_less(&p[a].0, &p[p.len() - 1].0)); }
            }
        }
        assert forall|j: int| 0 <= j < p.len() && m.contains_key(kkey(&(#[trigger] p[j]).0)) == yes implies z.contains(p[j]) by {
            if j < q.len() { assert(q[j] == p[j]); assert(r.contains(q[j])); let a = choose|a: int| 0 <= a < r.len() && r[a] == q[j]; assert(z[a] == p[j]); } else { assert(z[r.len() as int] == p[j]); }
        }
    }
}
proof fn part_outs<V>(w: W, p: Seq<Pk>, m: Map<KKey, V>)
    requires forall|k: KKey| #[trigger] m.contains_key(k) <==> inG(w, k),
    ensures pks(part(p, m, false)) == outs(w, p),
    decreases p.len(),
{
    if p.len() > 0 {
        let r = part(p.drop_last(), m, false); part_outs(w, p.drop_last(), m);
        if !m.contains_key(kkey(&p.last().0)) { assert(pks(r.push(p.last())) =~= pks(r).push(p.last().1)); }
    }
    assert(pks(part(p, m, false)) =~= outs(w, p));
}
proof fn w_nodes(w: W) requires wfw(w) ensures nodes_ok(w.nodes), w.pkgs.len() == w.nodes.len() { }
proof fn w_pkg(w: W, i: int) requires wfw(w), 0 <= i < w.pkgs.len() ensures w.pkgs[i].0.wf(), kkey(&w.pkgs[i].0) == kkey(&w.nodes[i].id) { }
/// what the walk leaves for a crate
proof fn w_at(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey)
    requires inv(w, fm, dm, Seq::empty(), None), exact(w, fm, dm), dm.contains_key(k),
    ensures fm.contains_key(k), known(w, k), dm[k].is_root == w.roots.contains(k), forall|y: usize| #[trigger] fm[k].actual@.contains(y) <==> D(w)((k, Some(y))), forall|y: usize| #[trigger] fm[k].actual@.contains(y) ==> y < nd(w, k).features@.len(),
{ hide(cnode); hide(sdeps); hide(spend); hide(exact_dep); assert(fm.contains_key(k)); assert(nodeok(w, okP(w, fm, Seq::empty(), None), k, fm[k], dm[k])); }
proof fn w_keys(w: W, fm: Fm<'_>, dm: Dm<'_>) requires exact(w, fm, dm) ensures forall|k: KKey| #[trigger] fm.contains_key(k) <==> dm.contains_key(k), forall|k: KKey| #[trigger] dm.contains_key(k) <==> inG(w, k)
{ hide(exact_dep); assert forall|k: KKey| #[trigger] dm.contains_key(k) <==> inG(w, k) by { assert(fm.contains_key(k) <==> dm.contains_key(k)); } }
/// the packages come in the order of the nodes
proof fn pkgs_order(w: W)
    requires wfw(w),
    ensures in_order(w.pkgs), forall|i: int| 0 <= i < w.pkgs.len() ==> pkg_at(w, i, kkey(&(#[trigger] w.pkgs[i]).0)),
{
    hide(wfw); w_nodes(w);
    assert forall|i: int| 0 <= i < w.pkgs.len() implies (#[trigger] w.pkgs[i]).0.wf() by { w_pkg(w, i); }
    assert forall|i: int, j: int| 0 <= i < j < w.pkgs.len() implies k_less(&(#[trigger] w.pkgs[i]).0, &(#[trigger] w.pkgs[j]).0) by {
        assert(k_less(&w.nodes[i].id, &w.nodes[j].id)); w_pkg(w, i); w_pkg(w, j); same_cmp(&w.pkgs[i].0, &w.nodes[i].id, &w.nodes[j].id); same_cmp(&w.pkgs[j].0, &w.nodes[j].id, &w.pkgs[i].0);
    }
    assert forall|i: int| 0 <= i < w.pkgs.len() implies pkg_at(w, i, kkey(&(#[trigger] w.pkgs[i]).0)) by { w_pkg(w, i); let k = kkey(&w.pkgs[i].0); assert(is_node(w.nodes, k, i)); one_node(w, k); }
}
pub open spec fn pkg_at(w: W, i: int, k: KKey) -> bool { is_node(w.nodes, k, i) && ix(w, k) == i && known(w, k) && pk(w, k) == w.pkgs[i].1 }
proof fn pre_insert(w: W, fm: Fm<'_>, dm: Dm<'_>)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), exact(w, fm, dm), w.pkgs.len() < u32::MAX,
    ensures ready(w.pkgs, dm, fm, w.nodes),
{
    hide(wfw); hide(inv); hide(exact);
    w_nodes(w); pkgs_order(w); w_keys(w, fm, dm);
    assert forall|k: KKey| #[trigger] dm.contains_key(k) implies fm.contains_key(k) && has_node(w.nodes, k) by { w_at(w, fm, dm, k); }
    assert forall|k: KKey, j: int, i: usize| #[trigger] fm.contains_key(k) && #[trigger] is_node(w.nodes, k, j) && #[trigger] fm[k].actual@.contains(i) implies i < w.nodes[j].features@.len() by { assert(dm.contains_key(k)); w_at(w, fm, dm, k); one_node(w, k); }
}
proof fn nq_is(w: W, q: KKey) requires nodes_ok(w.nodes), known(w, q), ensures nq(w.nodes, q) == nd(w, q) { one_node(w, q); }
/// the nodes are in place, there are no edges yet
proof fn post_insert<N: FromPkg, E: FromEdge>(w: W, g: G<N, E>, fm: Fm<'_>, dm: Dm<'_>)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), exact(w, fm, dm), w.pkgs.len() < u32::MAX, inserted(g, w.pkgs, dm, fm, w.nodes),
    ensures allc(g, gks(w, dm), w.nodes, dm), g.raw().len() == gks(w, dm).len(), g_nodes(w, g, gks(w, dm)), forall|i: int| 0 <= i < gks(w, dm).len() ==> #[trigger] fset_is(w, g, gks(w, dm), i),
{
    hide(wfw); hide(inv); hide(exact); hide(D); hide(node_of); hide(node_is);
    let p = part(w.pkgs, dm, true); let ks = gks(w, dm);
    pkgs_order(w); part_is(w.pkgs, dm, true); part_len(w.pkgs, dm, true); w_keys(w, fm, dm); w_nodes(w);
    assert forall|i: int| 0 <= i < ks.len() implies at_ins(w, #[trigger] g.raw()[i].weight, p[i].0, ks[i]) by { insert_at(w, g, fm, dm, i); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(k_less(&p[i].0, &p[j].0)); same_cmp(&p[i].0, &p[j].0, &p[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies k_less(&(#[trigger] g.raw()[i]).weight->id, &(#[trigger] g.raw()[j]).weight->id) by { assert(k_less(&p[i].0, &p[j].0)); assert(at_ins(w, g.raw()[i].weight, p[i].0, ks[i])); assert(at_ins(w, g.raw()[j].weight, p[j].0, ks[j])); }
    assert(order_ok(g, ks.len() as int));
    assert forall|k: KKey| #[trigger] in_k(ks, k) <==> inG(w, k) by {
        if in_k(ks, k) { let t = choose|t: int| at_k(ks, k, t); assert(of_p(w.pkgs, dm, true, p[t])); assert(dm.contains_key(k)); }
        if inG(w, k) { assert(dm.contains_key(k)); w_at(w, fm, dm, k); pkgs_at(w, k); let i = ix(w, k); assert(dm.contains_key(kkey(&w.pkgs[i].0))); assert(p.contains(w.pkgs[i])); let t = choose|t: int| 0 <= t < p.len() && p[t] == w.pkgs[i]; assert(at_k(ks, k, t)); }
    }
    assert forall|i: int| 0 <= i < ks.len() implies is_k((#[trigger] g.raw()[i]).weight, ks[i]) by { assert(at_ins(w, g.raw()[i].weight, p[i].0, ks[i])); }
    assert(shape(g, ks));
    assert forall|i: int| 0 <= i < ks.len() implies node_is(w, #[trigger] g.raw()[i].weight, ks[i]) by { assert(at_ins(w, g.raw()[i].weight, p[i].0, ks[i])); }
    assert(g_nodes(w, g, ks));
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < dmap(g.raw()[i].weight).len() implies #[trigger] maps_ok(g, ks, dm, i, j) by { assert(at_ins(w, g.raw()[i].weight, p[i].0, ks[i])); }
    assert(sound(g, ks, w.nodes, dm));
    assert forall|i: int| 0 <= i < ks.len() && dm.contains_key(#[trigger] ks[i]) implies src_fits(g, ks, w.nodes, i, dm[ks[i]].deps.m()) by { assert(node_is(w, g.raw()[i].weight, ks[i])); fits_at(w, g, fm, dm, ks, i); }
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] fset_is(w, g, ks, i) by { insert_at(w, g, fm, dm, i); }
}
/// the node just inserted
pub open spec fn at_ins<N: FromPkg>(w: W, n: LNode<N>, id: Kid, k: KKey) -> bool { node_is(w, n, k) && is_k(n, k) && n->id == id && forall|j: int| 0 <= j < dmap(n).len() ==> (#[trigger] dmap(n)[j]) is None }
proof fn dm_known(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey) requires exact(w, fm, dm), dm.contains_key(k) ensures known(w, k), fm.contains_key(k) { assert(fm.contains_key(k)); }
proof fn pkgs_at(w: W, k: KKey) requires wfw(w), known(w, k) ensures 0 <= ix(w, k) < w.pkgs.len(), kkey(&w.pkgs[ix(w, k)].0) == k { hide(wfw); w_nodes(w); one_node(w, k); w_pkg(w, ix(w, k)); }
pub open spec fn gks(w: W, dm: Dm<'_>) -> Ks { keys(part(w.pkgs, dm, true)) }
/// so far, the features of a crate are those the rules switch on
pub open spec fn fset_is<N, E>(w: W, g: G<N, E>, ks: Ks, i: int) -> bool { forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) <==> fbase(w, ks[i], s) }
proof fn insert_at<N: FromPkg, E: FromEdge>(w: W, g: G<N, E>, fm: Fm<'_>, dm: Dm<'_>, i: int)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), exact(w, fm, dm), inserted(g, w.pkgs, dm, fm, w.nodes), 0 <= i < gks(w, dm).len(),
    ensures at_ins(w, g.raw()[i].weight, part(w.pkgs, dm, true)[i].0, gks(w, dm)[i]), fset_is(w, g, gks(w, dm), i),
{
    hide(wfw); hide(inv); hide(exact); hide(D);
    let p = part(w.pkgs, dm, true); let ks = gks(w, dm); let k = ks[i];
    pkgs_order(w); part_is(w.pkgs, dm, true); w_keys(w, fm, dm); w_nodes(w);
    assert(node_of(g.raw()[i].weight, p[i], dm, fm, w.nodes)); assert(of_p(w.pkgs, dm, true, p[i])); let j = choose|j: int| 0 <= j < w.pkgs.len() && #[trigger] w.pkgs[j] == p[i];
    assert(pkg_at(w, j, k)); one_node(w, k); w_at(w, fm, dm, k);
    assert(p[i].0.wf());
    assert(inG(w, k));
    assert forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) <==> fbase(w, k, s) by {
        assert(fset(g, i).contains(s) <==> feats(dm[k], fm[k], nd(w, k), s));
        if !w.roots.contains(k) {
            if fset(g, i).contains(s) { let y = choose|y: usize| #[trigger] fm[k].actual@.contains(y) && nd(w, k).features@[y as int]@ == s; assert(D(w)((k, Some(y)))); assert(is_fidx(nd(w, k), s, y)); }
            if fbase(w, k, s) { let y = choose|y: usize| #[trigger] D(w)((k, Some(y))) && is_fidx(nd(w, k), s, y); assert(fm[k].actual@.contains(y)); }
        }
    }
}
proof fn fits_at<N: FromPkg, E: FromEdge>(w: W, g: G<N, E>, fm: Fm<'_>, dm: Dm<'_>, ks: Ks, i: int)
    requires wfw(w), exact(w, fm, dm), 0 <= i < ks.len(), dm.contains_key(ks[i]), node_is(w, g.raw()[i].weight, ks[i]),
    ensures src_fits(g, ks, w.nodes, i, dm[ks[i]].deps.m()),
{
    hide(D); hide(step);
    let k = ks[i]; let m = dm[k].deps.m();
    dm_known(w, fm, dm, k);
    assert forall|q: KKey| #[trigger] m.contains_key(q) implies has_node(w.nodes, q) && dep_fits(g, i, nq(w.nodes, q), m[q]) by {
        let d = dix(w, k, q); assert(isdq(w, k, q)); assert(isd(w, k, d)); nq_is(w, q); assert(exact_dep(w, k, m, d));
        assert forall|j: int| 0 <= j < m[q].edges@.len() implies edge_fits(g, i, nd(w, q), #[trigger] m[q].edges@[j]) by { edge_fits_at(w, k, d, m[q].edges@[j]); }
        assert forall|y: usize| #[trigger] m[q].features@.contains(y) implies y < nd(w, q).features@.len() by { assert(featM(w, k, d, y)); }
    }
}
proof fn edge_fits_at(w: W, k: KKey, d: int, e: DependencyEdge)
    requires wfw(w), sedge(w, k, d, e),
    ensures e.dep_index < pk(w, k).dependencies@.len(), forall|f: int| 0 <= f < e.features@.len() ==> #[trigger] e.features@[f] < nd(w, tgt(w, k, d)).features@.len(),
{
    hide(D); reveal(sedge); reveal(lkv); reveal(lfeat);
    let (l, b) = choose|l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && em(w, k, d, e, lk(w, k, d, l, b)->0);
    assert(isl(w, k, d, l)); assert(link_ok(w, k, d, l));
    let x = dep(w, k, d).dep_kinds@[l]; let ds = pk(w, k).dependencies@;
    let j = choose|j: int| #[trigger] stands(ds, dep(w, k, d), x, w.opaque, j); let a = decl_first(ds, dep(w, k, d), x, w.opaque, j);
    assert(first_stands(ds, dep(w, k, d), x, w.opaque, decl_of(w, k, d, x)));
    assert forall|f: int| 0 <= f < e.features@.len() implies #[trigger] e.features@[f] < nd(w, tgt(w, k, d)).features@.len() by { assert(e.features@.contains(e.features@[f])); }
}
"""
LEM += r"""
/// a recorded edge is one that the rules call for
proof fn why_dep(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, q: KKey, x: GE, s: Option<Seq<char>>)
    requires wfw(w), exact(w, fm, dm), dm.contains_key(k), dm[k].deps.m().contains_key(q), woff(dm[k].deps.m()[q], nq(w.nodes, q), x, s),
    ensures gdep(w, k, q, x, s),
{
    hide(wfw); hide(D);
    let m = dm[k].deps.m(); let d = dix(w, k, q);
    dm_known(w, fm, dm, k); assert(isdq(w, k, q)); assert(isd(w, k, d)); w_nodes(w); tgt_known(w, k, d); nq_is(w, q); assert(exact_dep(w, k, m, d));
    if exists|j: int| 0 <= j < m[q].edges@.len() && eoff(#[trigger] m[q].edges@[j], nd(w, q), x, s) {
        let j = choose|j: int| 0 <= j < m[q].edges@.len() && eoff(#[trigger] m[q].edges@[j], nd(w, q), x, s); let e = m[q].edges@[j];
        assert(sedge(w, k, d, e)); reveal(sedge);
        let (l, b) = choose|l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && em(w, k, d, e, lk(w, k, d, l, b)->0);
        edge_offers(w, k, d, e, lk(w, k, d, l, b)->0, x, s);
        assert(from_link(w, k, d, x, s));
    } else {
        let y = choose|y: usize| #[trigger] m[q].features@.contains(y) && fname(nd(w, q), y) == s->0;
        assert(featM(w, k, d, y)); assert(from_feat(w, k, d, x, s));
    }
    assert(offer_d(w, k, d, q, x, s));
}
proof fn tgt_known(w: W, k: KKey, d: int) requires wfw(w), isd(w, k, d) ensures known(w, tgt(w, k, d)) { }
proof fn edge_offers(w: W, k: KKey, d: int, e: DependencyEdge, l: Link, x: GE, s: Option<Seq<char>>)
    requires em(w, k, d, e, l), eoff(e, nd(w, tgt(w, k, d)), x, s),
    ensures offers(w, k, d, l, x, s),
{
    match x {
        GE::Dep(..) => { assert forall|y: usize| !#[trigger] lfeat(w, k, d, l, y) by { if lfeat(w, k, d, l, y) { assert(e.features@.contains(y)); } } }
        GE::DepF(..) => { let i = choose|i: int| 0 <= i < e.features@.len() && fname(nd(w, tgt(w, k, d)), #[trigger] e.features@[i]) == s->0; assert(e.features@.contains(e.features@[i])); assert(lfeat(w, k, d, l, e.features@[i])); }
        GE::Feat => { }
    }
}
proof fn rec_edge(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, d: int, l: int, b: bool) -> (j: int)
    requires wfw(w), exact(w, fm, dm), dm.contains_key(k), linkP(w, D(w), k, d, l, b),
    ensures ({ let m = dm[k].deps.m(); let q = tgt(w, k, d); isd(w, k, d) && m.contains_key(q) && 0 <= j < m[q].edges@.len() && em(w, k, d, m[q].edges@[j], lk(w, k, d, l, b)->0) }),
{
    hide(wfw); hide(D);
    let m = dm[k].deps.m(); let q = tgt(w, k, d);
    dm_known(w, fm, dm, k); assert(isl(w, k, d, l)); assert(isd(w, k, d)); assert(exact_dep(w, k, m, d)); assert(linkedP(w, D(w), k, d));
    let x = lk(w, k, d, l, b)->0; assert(edge_for(w, k, d, m[q].edges@, x));
    choose|i: int| 0 <= i < m[q].edges@.len() && em(w, k, d, #[trigger] m[q].edges@[i], x)
}
/// an edge that the rules call for is there
proof fn dep_there<N, E: FromEdge>(w: W, fm: Fm<'_>, dm: Dm<'_>, g: G<N, E>, ks: Ks, i: int, t: int, x: GE, s: Option<Seq<char>>)
    requires wfw(w), exact(w, fm, dm), 0 <= i < ks.len(), 0 <= t < ks.len(), dm.contains_key(ks[i]), csrc(g, ks, w.nodes, dm, i), gdep(w, ks[i], ks[t], x, s),
    ensures there(g, i, t, x, s),
{
    hide(wfw); hide(D);
    let k = ks[i]; let q = ks[t]; let m = dm[k].deps.m();
    let d = choose|d: int| #[trigger] offer_d(w, k, d, q, x, s);
    dm_known(w, fm, dm, k); w_nodes(w); tgt_known(w, k, d); nq_is(w, q); assert(exact_dep(w, k, m, d));
    if from_link(w, k, d, x, s) {
        let (l, b) = choose|l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && offers(w, k, d, lk(w, k, d, l, b)->0, x, s);
        let j = rec_edge(w, fm, dm, k, d, l, b); let e = m[q].edges@[j]; let lx = lk(w, k, d, l, b)->0;
        assert(cdep(g, i, t, nd(w, q), m[q])); assert(cedge(g, i, t, nd(w, q), e));
        offers_edge(w, k, d, e, lx, x, s, g, i, t);
    } else {
        let y = choose|y: usize| #[trigger] featM(w, k, d, y) && fname(nd(w, q), y) == s->0;
        assert(m[q].features@.contains(y)); assert(cdep(g, i, t, nd(w, q), m[q]));
    }
}
proof fn offers_edge<N, E: FromEdge>(w: W, k: KKey, d: int, e: DependencyEdge, l: Link, x: GE, s: Option<Seq<char>>, g: G<N, E>, i: int, t: int)
    requires em(w, k, d, e, l), offers(w, k, d, l, x, s), cedge(g, i, t, nd(w, tgt(w, k, d)), e),
    ensures there(g, i, t, x, s),
{
    assert(e.kind == l.kind && ctext(e.cfg) == l.cfg);
    match x {
        GE::Dep(..) => { if e.features@.len() > 0 { assert(e.features@.contains(e.features@[0])); assert(lfeat(w, k, d, l, e.features@[0])); } }
        GE::DepF(..) => { let y = choose|y: usize| #[trigger] lfeat(w, k, d, l, y) && fname(nd(w, tgt(w, k, d)), y) == s->0; assert(e.features@.contains(y)); let f = choose|f: int| 0 <= f < e.features@.len() && e.features@[f] == y; assert(fname(nd(w, tgt(w, k, d)), e.features@[f]) == s->0); }
        GE::Feat => { }
    }
}
/// C10: the mapping of the declarations
proof fn maps_some(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, q: KKey, j: int)
    requires exact(w, fm, dm), dm.contains_key(k), dm[k].deps.m().contains_key(q), has_decl(dm[k].deps.m()[q], j),
    ensures maps_to(w, k, j, q),
{
    hide(D); hide(exact_dep); hide(linkP);
    let m = dm[k].deps.m(); dm_known(w, fm, dm, k);
    let d = dix(w, k, q); assert(isdq(w, k, q)); assert(isd(w, k, d)); assert(exact_dep(w, k, m, d));
    let a = choose|a: int| 0 <= a < m[q].edges@.len() && (#[trigger] m[q].edges@[a]).dep_index == j; let e = m[q].edges@[a];
    assert(sedge(w, k, d, e)) by { reveal(exact_dep); }
    sedge_maps(w, k, d, e);
}
proof fn sedge_maps(w: W, k: KKey, d: int, e: DependencyEdge)
    requires sedge(w, k, d, e), isd(w, k, d),
    ensures maps_to(w, k, e.dep_index as int, tgt(w, k, d)),
{
    hide(D); hide(lk); hide(linkP);
    reveal(sedge);
    let (l, b) = choose|l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && em(w, k, d, e, lk(w, k, d, l, b)->0);
    assert(linkP(w, D(w), k, d, l, b) && isd(w, k, d) && lk(w, k, d, l, b)->0.decl == e.dep_index);
}
proof fn maps_none<N, E: FromEdge>(w: W, fm: Fm<'_>, dm: Dm<'_>, g: G<N, E>, ks: Ks, i: int, j: int, t: int)
    requires wfw(w), exact(w, fm, dm), 0 <= i < ks.len(), 0 <= j < dmap(g.raw()[i].weight).len(), dm.contains_key(ks[i]), csrc(g, ks, w.nodes, dm, i), 0 <= t < ks.len(), maps_to(w, ks[i], j, ks[t]),
    ensures dmap(g.raw()[i].weight)[j] is Some,
{
    hide(wfw); hide(D); hide(exact); hide(linkP); hide(lk);
    let k = ks[i]; let m = dm[k].deps.m(); let q = ks[t];
    let (d, l, b) = choose|d: int, l: int, b: bool| #[trigger] linkP(w, D(w), k, d, l, b) && isd(w, k, d) && tgt(w, k, d) == q && lk(w, k, d, l, b)->0.decl == j;
    let a = rec_edge(w, fm, dm, k, d, l, b); w_nodes(w); tgt_known(w, k, d); nq_is(w, q);
    assert(m.contains_key(q)); assert(cdep(g, i, t, nq(w.nodes, q), m[q])); assert(cedge(g, i, t, nd(w, q), m[q].edges@[a])); assert(em(w, k, d, m[q].edges@[a], lk(w, k, d, l, b)->0));
}
proof fn maps_are<N, E: FromEdge>(w: W, fm: Fm<'_>, dm: Dm<'_>, g: G<N, E>, ks: Ks, i: int, j: int)
    requires wfw(w), exact(w, fm, dm), 0 <= i < ks.len(), 0 <= j < dmap(g.raw()[i].weight).len(), dm.contains_key(ks[i]), csrc(g, ks, w.nodes, dm, i), maps_ok(g, ks, dm, i, j),
    ensures map_ok(w, g, ks, i, j),
{
    hide(wfw); hide(D); hide(exact); hide(csrc); hide(maps_to);
    let o = dmap(g.raw()[i].weight)[j];
    if o is Some { maps_some(w, fm, dm, ks[i], ks[o->0.ix as int], j); }
    else { assert forall|t: int| 0 <= t < ks.len() implies !maps_to(w, ks[i], j, #[trigger] ks[t]) by { if maps_to(w, ks[i], j, ks[t]) { maps_none(w, fm, dm, g, ks, i, j, t); } } }
}
/// the names that the feature lists refer to stay within the closure
proof fn xs_closed(w: W, fm: Fm<'_>) requires fg_all(w, fm), forall|k: KKey| #[trigger] fm.contains_key(k) ==> known(w, k), ensures fm_ok(fm, xsw(w))
{
    assert forall|k: KKey| #[trigger] fm.contains_key(k) implies fclosed(fm[k].graph@, xsw(w)(k)) by {
        let fg = fm[k].graph@; let n = nd(w, k); let p = pk(w, k); assert(fg_ok(n, p, k, fg));
        assert forall|j: int| 0 <= j < fg.len() implies okent(#[trigger] fg[j], tk(w, k)) by {
            assert(fg_entry(n, p, k, fg[j])); let t = fg[j].0@; let fi = choose|i: int| 0 <= i < n.features@.len() && (#[trigger] n.features@[i])@ == t;
            assert forall|l: int| 0 <= l < fg[j].1@.len() implies (#[trigger] fg[j].1@[l]).kid.wf() && (tk(w, k)(t) ==> tk(w, k)(subname(fg[j].1@[l]))) by {
                let x = fg[j].1@[l]; let li = p.features.m()[t]@; assert(from_entry(n, k, li, x)); let i = choose|i: int| 0 <= i < li.len() && sub_of(n, k, feat_of((#[trigger] li[i]).b()), x);
                names_in(w, k, fi, i, t, subname(x));
            }
        }
    }
}
proof fn names_in(w: W, k: KKey, fi: int, i: int, t: Seq<char>, s: Seq<char>)
    requires known(w, k), 0 <= fi < nd(w, k).features@.len(), nd(w, k).features@[fi]@ == t, pk(w, k).features.m().contains_key(t), 0 <= i < pk(w, k).features.m()[t]@.len(), s == refname(feat_of(pk(w, k).features.m()[t]@[i].b())),
    ensures tk(w, k)(t) ==> tk(w, k)(s),
{
    let f = fi as usize; nlen(nd(w, k)); assert(isi(w, k, f, i)); assert(fe(w, k, f, i) == feat_of(pk(w, k).features.m()[t]@[i].b()));
    if tks(w, k, t) { assert forall|p: Xs| #[trigger] tclosed(w, k, p) implies p(s) by { assert(p(t)); } }
}
proof fn nlen(n: Node) ensures n.features@.len() <= usize::MAX { assert(n.features.len() == n.features@.len()); }
proof fn g1_within<N, E: FromEdge>(w: W, g0: G<N, E>, g1: G<N, E>, ks: Ks)
    requires shape(g0, ks), grow(g0, g1), forall|i: int| 0 <= i < ks.len() ==> #[trigger] fset_is(w, g0, ks, i), ks.len() <= g0.raw().len(),
    ensures forall|i: int| 0 <= i < ks.len() ==> within(g1, i, xsw(w)(#[trigger] ks[i])), forall|i: int| 0 <= i < ks.len() ==> #[trigger] fset_is(w, g1, ks, i),
{
    hide(fbase);
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] fset_is(w, g1, ks, i) by { assert(fset_is(w, g0, ks, i)); assert(is_k(g0.raw()[i].weight, ks[i])); assert(same_node(g0.raw()[i].weight, g1.raw()[i].weight)); assert(fset(g1, i) == fset(g0, i)); assert forall|s: Seq<char>| #[trigger] fset(g1, i).contains(s) <==> fbase(w, ks[i], s) by { assert(fset(g0, i).contains(s) <==> fbase(w, ks[i], s)); } }
    assert forall|i: int| 0 <= i < ks.len() implies within(g1, i, xsw(w)(#[trigger] ks[i])) by { assert(fset_is(w, g1, ks, i)); assert forall|s: Seq<char>| #[trigger] fset(g1, i).contains(s) implies tk(w, ks[i])(s) by { assert(fbase(w, ks[i], s)); assert forall|p: Xs| #[trigger] tclosed(w, ks[i], p) implies p(s) by { } } }
}
proof fn same_graph<N, E: FromEdge>(g: G<N, E>, h: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>)
    requires g.raw() == h.raw(), g.edges() == h.edges(), allc(g, ks, ns, dm), ensures allc(h, ks, ns, dm), grow(g, h), shape(h, ks),
{
    hide(gfits);
    assert(shape(h, ks)); assert(gfits(h, ks, ns, dm)) by { reveal(gfits); }
    assert(sound(h, ks, ns, dm)) by {
        assert forall|k: int| 0 <= k < h.edges().len() implies #[trigger] why(h, ks, ns, dm, k) by { assert(why(g, ks, ns, dm, k)); let (i, t, x, s) = choose|i: int, t: int, x: GE, s: Option<Seq<char>>| #[trigger] whyx(g, ks, ns, dm, k, i, t, x, s); assert(whyx(h, ks, ns, dm, k, i, t, x, s)); }
        assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < dmap(h.raw()[i].weight).len() implies #[trigger] maps_ok(h, ks, dm, i, j) by { assert(maps_ok(g, ks, dm, i, j)); }
    }
}
proof fn grow_trans<N, E>(g0: G<N, E>, gr: G<N, E>, g1: G<N, E>, ks: Ks) requires grow(g0, gr), grow(gr, g1), ensures grow(g0, g1) { gr_trans(g0, gr, g1); }
proof fn g_nodes_shape<N: FromPkg, E>(w: W, g: G<N, E>, ks: Ks) requires g_nodes(w, g, ks) ensures shape(g, ks) { }
proof fn allc_shape<N, E: FromEdge>(g: G<N, E>, ks: Ks, ns: Seq<Node>, dm: Dm<'_>) requires allc(g, ks, ns, dm) ensures shape(g, ks) { }
proof fn fm_known(w: W, fm: Fm<'_>, dm: Dm<'_>) requires exact(w, fm, dm) ensures forall|k: KKey| #[trigger] fm.contains_key(k) ==> known(w, k) { }
proof fn is_built<N: FromPkg, E: FromEdge>(w: W, g: G<N, E>, ks: Ks)
    requires graph_is(w, g, ks),
    ensures forall|kr: Krates<N, E>| kr.krates_end == ks.len() && kr.graph == g ==> #[trigger] built(w, kr),
{
    hide(graph_is);
    assert forall|kr: Krates<N, E>| kr.krates_end == ks.len() && kr.graph == g implies #[trigger] built(w, kr) by { assert(graph_is(w, kr.graph, ks)); }
}
proof fn w_fs(w: W, k: KKey) requires wfw(w), known(w, k) ensures fsorted(nd(w, k)) { }
proof fn fg_names(w: W, k: KKey, g: Seq<(String, Vec<FeatureEdge<'_>>)>) requires fg_ok(nd(w, k), pk(w, k), k, g) ensures forall|j: int| 0 <= j < g.len() ==> has_f(nd(w, k), (#[trigger] g[j]).0@) { nlen(nd(w, k)); assert forall|j: int| 0 <= j < g.len() implies has_f(nd(w, k), (#[trigger] g[j]).0@) by { assert(fg_entry(nd(w, k), pk(w, k), k, g[j])); let i = choose|i: int| 0 <= i < nd(w, k).features@.len() && nd(w, k).features@[i]@ == g[j].0@; assert(is_fidx(nd(w, k), g[j].0@, i as usize)); } }
/// everything together
proof fn whole_graph<N: FromPkg, E: FromEdge>(w: W, fm: Fm<'_>, dm: Dm<'_>, g0: G<N, E>, g1: G<N, E>, g: G<N, E>, ks: Ks)
    requires
        wfw(w), exact(w, fm, dm), fg_all(w, fm), g_nodes(w, g0, ks), g0.raw().len() == ks.len(),
        allc(g1, ks, w.nodes, dm), grow(g0, g1), forall|i: int| 0 <= i < ks.len() ==> #[trigger] csrc(g1, ks, w.nodes, dm, i), forall|i: int| 0 <= i < ks.len() ==> #[trigger] fset_is(w, g1, ks, i),
        all_done(g1, g, ks, fm, xsw(w)),
    ensures graph_is(w, g, ks),
{
    hide(wfw); hide(exact); hide(D); hide(csrc); hide(gdep); hide(gfits); hide(fbase);
    w_keys(w, fm, dm);
    assert forall|i: int| 0 <= i < ks.len() implies dm.contains_key(#[trigger] ks[i]) && fm.contains_key(ks[i]) && at_fin(w, g0, g1, g, ks, i) by {
        assert(at_k(ks, ks[i], i)); assert(in_k(ks, ks[i])); assert(inG(w, ks[i])); assert(dm.contains_key(ks[i])); assert(fm.contains_key(ks[i])); assert(node_is(w, g0.raw()[i].weight, ks[i])); assert(same_node(g0.raw()[i].weight, g1.raw()[i].weight)); assert(same2(g1.raw()[i].weight, g.raw()[i].weight));
    }
    assert(g_nodes(w, g, ks)) by {
        assert forall|i: int| 0 <= i < ks.len() implies node_is(w, #[trigger] g.raw()[i].weight, ks[i]) by { assert(at_fin(w, g0, g1, g, ks, i)); }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies k_less(&(#[trigger] g.raw()[i]).weight->id, &(#[trigger] g.raw()[j]).weight->id) by { assert(at_fin(w, g0, g1, g, ks, i)); assert(at_fin(w, g0, g1, g, ks, j)); assert(k_less(&g0.raw()[i].weight->id, &g0.raw()[j].weight->id)); }
    }
    assert(g_edges(w, g, ks)) by { edges_fin(w, fm, dm, g1, g, ks); }
    assert(g_maps(w, g, ks)) by {
        assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < dmap(g.raw()[i].weight).len() implies #[trigger] map_ok(w, g, ks, i, j) by { assert(at_fin(w, g0, g1, g, ks, i)); assert(dm.contains_key(ks[i])); assert(maps_ok(g1, ks, dm, i, j)); assert(csrc(g1, ks, w.nodes, dm, i)); maps_are(w, fm, dm, g1, ks, i, j); assert(dmap(g.raw()[i].weight) == dmap(g1.raw()[i].weight)); }
    }
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] feats_ok(w, g, ks, i) by {
        let k = ks[i]; assert(at_fin(w, g0, g1, g, ks, i)); assert(fset_is(w, g1, ks, i)); assert(fdone(g, i, fm[k].graph@, tk(w, k))); assert(fg_ok(nd(w, k), pk(w, k), k, fm[k].graph@));
        assert forall|s: Seq<char>| #[trigger] fbase(w, k, s) implies fset(g, i).contains(s) by { assert(fset(g1, i).contains(s)); assert(same2(g1.raw()[i].weight, g.raw()[i].weight)); }
        assert forall|s: Seq<char>| #[trigger] fset(g, i).contains(s) && declared(w, k, s) implies linked(g, i, s) by { assert(fg_has(fm[k].graph@, s)); assert(listed(fm[k].graph@, s)); }
    }
}
pub open spec fn at_fin<N: FromPkg, E>(w: W, g0: G<N, E>, g1: G<N, E>, g: G<N, E>, ks: Ks, i: int) -> bool { node_is(w, g.raw()[i].weight, ks[i]) && same2(g1.raw()[i].weight, g.raw()[i].weight) && g1.raw()[i].weight is Krate && g.raw()[i].weight->id == g0.raw()[i].weight->id }
proof fn edges_fin<N, E: FromEdge>(w: W, fm: Fm<'_>, dm: Dm<'_>, g1: G<N, E>, g: G<N, E>, ks: Ks)
    requires wfw(w), exact(w, fm, dm), forall|i: int| 0 <= i < ks.len() ==> dm.contains_key(#[trigger] ks[i]), sound(g1, ks, w.nodes, dm), forall|i: int| 0 <= i < ks.len() ==> #[trigger] csrc(g1, ks, w.nodes, dm, i), all_done(g1, g, ks, fm, xsw(w)),
    ensures g_edges(w, g, ks),
{
    hide(wfw); hide(exact); hide(D); hide(csrc); hide(gdep); hide(shape); hide(same2);
    assert forall|e: int| 0 <= e < g.edges().len() implies #[trigger] edge_why(w, g, ks, e) by {
        if e < g1.edges().len() {
            assert(g.edges()[e] == g1.edges()[e]); assert(why(g1, ks, w.nodes, dm, e));
            let (i, t, x, s) = choose|i: int, t: int, x: GE, s: Option<Seq<char>>| #[trigger] whyx(g1, ks, w.nodes, dm, e, i, t, x, s);
            why_dep(w, fm, dm, ks[i], ks[t], x, s);
            let z = g.edges()[e].z.ix as int; if s is Some { keep_fnode(g1, g, z, t, s->0); }
            assert(is_why(w, g, ks, e, t, x, s));
        }
    }
    assert forall|i: int, t: int, x: GE, s: Option<Seq<char>>| 0 <= i < ks.len() && 0 <= t < ks.len() && #[trigger] gdep(w, ks[i], ks[t], x, s) implies there(g, i, t, x, s) by {
        assert(csrc(g1, ks, w.nodes, dm, i)); dep_there(w, fm, dm, g1, ks, i, t, x, s);
        match s { None => { keep_has(g1, g, i, t, x); }, Some(n) => { let z = choose|z: int| #[trigger] fnode(g1, z, t, n) && has(g1, i, z, x); keep_fnode(g1, g, z, t, n); keep_has(g1, g, i, z, x); } }
    }
}
proof fn keep_fnode<N, E>(g1: G<N, E>, g: G<N, E>, z: int, t: int, n: Seq<char>) requires gro2(g1, g), fnode(g1, z, t, n) ensures fnode(g, z, t, n) { assert(same2(g1.raw()[z].weight, g.raw()[z].weight)); }
proof fn keep_has<N, E: FromEdge>(g1: G<N, E>, g: G<N, E>, a: int, z: int, x: GE) requires gro2(g1, g), has(g1, a, z, x) ensures has(g, a, z, x) { let k = choose|k: int| #[trigger] is_edge(g1, k, a, z, x); assert(g.edges()[k] == g1.edges()[k]); assert(is_edge(g, k, a, z, x)); }
"""
def pick(text, *names):
    "the named lemmas of another unit"
    out = []
    for n in names:
        i = text.index("proof fn %s(" % n) if "proof fn %s(" % n in text else text.index("proof fn %s<" % n)
        m = re.search(r"^\{|ensures[^{}]*?(?:\{[^{}]*\}[^{}]*?)*?\{ ", text[i:], re.M)
        j = text.index("\nproof fn ", i + 1) if "\nproof fn " in text[i + 1:] else len(text)
        out.append(text[i:j].rstrip())
    return "\n".join(x[:x.rindex("}") + 1] for x in out) + "\n"
PICK = pick(visit.UNITS[0].lemmas, "same_cmp", "one_node", "dix_is", "has_links", "decl_first", "link_true", "f_search") + pick(build.LEM, "part_len", "node_search") + pick(edges.LEM, "gr_trans")
FNS = [visit.FF["DepKind::eq"]]
SPEC += "".join(stub(n) for n in U) + r"""
pub enum Error { NoRootKrates, NoResolveGraph, Other }
"""
SPEC += r"""
/// the sizes of the two reservations: no more than this much per crate
pub open spec fn few(i: int, a: (usize, usize)) -> bool { a.0 <= i * 0x1_0000_0000 && a.1 <= i * 0x1_0000_0000 }
impl<T> It<T> {
    /// (a map that fits in memory has fewer than 2^31 entries)
    #[verifier::external_body] pub fn vx_fold<F: Fn((usize, usize), T) -> (usize, usize)>(self, a: (usize, usize), f: F) -> (r: (usize, usize))
        requires few(0, a), forall|i: int, a: (usize, usize)| 0 <= i < self.s().len() && 0 <= i < 0x8000_0000 && #[trigger] few(i, a) ==> f.requires((a, self.s()[i])), forall|i: int, a: (usize, usize), r: (usize, usize)| 0 <= i < self.s().len() && 0 <= i < 0x8000_0000 && few(i, a) && #[trigger] f.ensures((a, self.s()[i]), r) ==> few(i + 1, r),
    { unimplemented!() }
}
impl It<usize> {
    /// the sum of the lengths of vectors in memory
    #[verifier::external_body] pub fn vx_sum(self) -> (r: usize) ensures r < 0x8000_0000 { unimplemented!() }
}
impl SetX<usize> { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r < 0x4000_0000 { unimplemented!() } }
impl<'p, V> KMap<'p, V> {
    pub uninterp spec fn entries(&self) -> Seq<(&'p Kid, V)>;
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: It<(&&'p Kid, &V)>) ensures r.i() == 0, r.wf(), forall|i: int| 0 <= i < r.s().len() ==> (#[trigger] r.s()[i]).0.wf() && self.m().contains_key(kkey(*r.s()[i].0)) && *r.s()[i].1 == self.m()[kkey(*r.s()[i].0)] { unimplemented!() }
}
"""
CNT = "stmts:text:feature_edge_map.iter().fold..=text:feature_edge_map.iter().fold;closure:#0"
MC = visit.MF + [("binary_search_by", "*", "vx_bsearch"), ("cmp", "*", "vx_cmp"), ("then_some", "*", "vx_then_some"), ("sum", "0", "vx_sum"), ("fold", "*", "vx_fold")]
FNS += [f for f in kid.ACC + kid.UNITS[0].fns if f.name == "Kid::cmp"] + [f for f in visit.FNS if f.name == "Node::feature_index"]
FNS += [
    Fn("count_crate", B, BM, "fn count_crate(nodes: &Vec<Node>, vxq0: (usize, usize), vxq1: (&&Kid, &KrateFeatures<'_>), Ghost(w): Ghost<W>) -> (r: (usize, usize)) requires wfw(w), w.nodes == nodes@, vxq1.0.wf(), known(w, kkey(*vxq1.0)), fg_ok(nd(w, kkey(*vxq1.0)), pk(w, kkey(*vxq1.0)), kkey(*vxq1.0), vxq1.1.graph@), vxq0.0 <= 0x8000_0000_0000_0000, vxq0.1 <= 0x8000_0000_0000_0000, ensures r.0 <= vxq0.0 + 0x1_0000_0000, r.1 <= vxq0.1 + 0x1_0000_0000",
       select=CNT, methods=[m for m in MC if m[0] != "cmp"], subst=[(r"\.vx_sum::<usize>\(", ".vx_sum(")], at={"start": "hide(wfw); hide(fg_ok); proof { w_nodes(w); node_search(nodes@, vxq1.0); w_fs(w, kkey(*vxq1.0)); fg_names(w, kkey(*vxq1.0), vxq1.1.graph@); }", "let_krate_index": "proof { assert(is_node(nodes@, kkey(*vxq1.0), krate_index as int)); one_node(w, kkey(*vxq1.0)); }"}, closures={0: "|vxp0: &Node| -> (o: Ordering) requires vxp0.id.wf(), vxq1.0.wf(), ensures o == kid_cmp(&vxp0.id, *vxq1.0)", 1: "|vxp0: &(String, Vec<FeatureEdge<'_>>)| -> (r: Option<usize>) requires fsorted(*rnode), has_f(*rnode, vxp0.0@),"}),
    Fn("count_feats", B, BM, "fn count_feats(nodes: &Vec<Node>, feature_edge_map: &KMap<'_, KrateFeatures<'_>>, Ghost(w): Ghost<W>) -> (r: (usize, usize)) requires wfw(w), w.nodes == nodes@, fg_all(w, feature_edge_map.m()), forall|k: KKey| #[trigger] feature_edge_map.m().contains_key(k) ==> known(w, k),",
       select="stmts:text:feature_edge_map.iter().fold..=text:feature_edge_map.iter().fold", methods=MC, ret="(node_count, edge_count)", at={"start": "hide(wfw); hide(fg_ok);"}, 
       cuts=[("closure:#0", "|x: (usize, usize), y: (&&Kid, &KrateFeatures<'_>)| count_crate(nodes, x, y, Ghost(w))")],
       closures={0: "|vxp0: (usize, usize), vxp1: (&&Kid, &KrateFeatures<'_>)| -> (r: (usize, usize)) requires wfw(w), w.nodes == nodes@, vxp1.0.wf(), known(w, kkey(*vxp1.0)), fg_ok(nd(w, kkey(*vxp1.0)), pk(w, kkey(*vxp1.0)), kkey(*vxp1.0), vxp1.1.graph@), vxp0.0 <= 0x8000_0000_0000_0000, vxp0.1 <= 0x8000_0000_0000_0000, ensures r.0 <= vxp0.0 + 0x1_0000_0000, r.1 <= vxp0.1 + 0x1_0000_0000"}),
    Fn("assemble", B, BM, """fn assemble<N: FromPkg, E: FromEdge, F: OnFilter>(nodes: &Vec<Node>, packages: Vec<Pk>, workspace_members: Vec<Kid>, exclude: &Vec<PkgSpec>, roots: &KSet<'_>, renames: &Renames<'_>, ignore_kinds: u32, is_opaque: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, on_filter: &mut F, md_root: PathX, Ghost(w): Ghost<W>) -> (r: Result<Krates<N, E>, Error>)
    requires """ + visit.CFGR + """, packages@.len() < u32::MAX,
    ensures
        r is Ok ==> built(w, r->Ok_0), r is Ok ==> r->Ok_0.workspace_root == md_root, r is Ok ==> exists|k: KKey| inG(w, k),
 r is Ok ==> r->Ok_0.workspace_members@ == workspace_members@,
 r is Ok ==> final(on_filter).log() == old(on_filter).log() + outs(w, packages@),
        r is Err ==> r->Err_0 is NoRootKrates && (forall|k: KKey| !#[trigger] inG(w, k)) && final(on_filter).log() == old(on_filter).log()""",
       select="stmts:let:dep_edge_map..end",
       drop_lets=["check", "get_rnode", "get", "get_or_insert"],
       cuts=[("stmts:let:visit_stack..=text:visit_stack.push(root)", "seed_roots(roots, nodes, Ghost(w))"),
             ("stmts:text:visit_stack.pop()..=text:visit_stack.pop()", "visit_all(nodes, &packages, &workspace_members, exclude, roots, renames, ignore_kinds, is_opaque, include_all_targets, targets, &mut feature_edge_map, &mut dep_edge_map, &mut visit_stack, Ghost(w))"),
             ("stmts:let:graph..let:get", "insert_nodes(packages, &dep_edge_map, &feature_edge_map, nodes, on_filter)"),
             ("stmts:text:feature_edge_map.iter().fold..=text:feature_edge_map.iter().fold", "count_feats(nodes, &feature_edge_map, Ghost(w))"),
             ("stmts:text:dep_edge_map.remove(pid)..=text:dep_edge_map.remove(pid)", "link_all(&mut graph, nodes, krates_end, dep_edge_map, Ghost(ks), Ghost(w.nodes), Ghost(dm))"),
             ("stmts:text:feature_stack.pop()..=text:feature_stack.pop()", "feat_all(&mut graph, krates_end, feature_edge_map, Ghost(ks), Ghost(xs))"),
             ],
       subst=[(r"\bmd\.workspace_root", "md_root"), (r"\bseed_roots\(", "let mut visit_stack = seed_roots("), (r"\binsert_nodes\(([^;]*);", r"vx_at!(m0); let (mut graph, krates_end) = insert_nodes(\1; vx_at!(m1);"), (r"\bcount_feats\(", "let (node_count, edge_count) = count_feats("), (r"\bBTreeMap::new", "KMap::new"), (r"\blink_all\(", "vx_at!(m1b); link_all("), (r"\bfeat_all\(", "vx_at!(m2); feat_all("), (r"\bOk\(Krates", "vx_at!(m3); Ok(Krates"), (r"return Err\(", "vx_at!(e0); return Err(")],
       ret="",
       at={"start": "hide(wfw); hide(inv); hide(exact); hide(allc); hide(inserted); hide(ready); hide(g_nodes); hide(all_done); hide(gro2); hide(grow); hide(shape); hide(fset_is); hide(within); hide(csrc); hide(graph_is); hide(inG); let ghost l0 = on_filter.log();",
           "m0": "let ghost fm = feature_edge_map.m(); let ghost dm = dep_edge_map.m(); proof { assert(visit_stack.v@ =~= Seq::empty()); let k0 = choose|k: KKey| dm.contains_key(k); assert(dm.contains_key(k0)) by { if forall|k: KKey| !dm.contains_key(k) { assert(dm =~= Map::empty()); } } w_keys(w, fm, dm); assert(inG(w, k0)); assert(visit_stack.v@ =~= Seq::empty()); pre_insert(w, fm, dm); }",
           "m1": "let ghost ks = gks(w, dm); let ghost xs = xsw(w); let ghost g0 = graph; proof { post_insert(w, graph, fm, dm); w_keys(w, fm, dm); part_outs(w, w.pkgs, dm); fm_known(w, fm, dm); g_nodes_shape(w, g0, ks); }",
           "m2": "let ghost g1 = graph; proof { grow_trans(g0, gr, g1, ks); g1_within(w, g0, g1, ks); fm_known(w, fm, dm); xs_closed(w, fm); allc_shape(g1, ks, w.nodes, dm); }",
           "m3": "proof { whole_graph(w, fm, dm, g0, g1, graph, ks); assert(graph_is(w, graph, ks)); assert(on_filter.log() == l0 + outs(w, w.pkgs)); assert(krates_end == ks.len()); is_built(w, graph, ks); }",
           "m1b": "let ghost gr = graph; proof { same_graph(g0, gr, ks, w.nodes, dm); }",
           "e0": "proof { assert(visit_stack.v@ =~= Seq::empty()); w_keys(w, feature_edge_map.m(), dep_edge_map.m()); assert forall|k: KKey| !#[trigger] inG(w, k) by { assert(!dep_edge_map.m().contains_key(k)); } }",
           }),
]
UNITS = [Unit("whole", ["C03", "C04", "C07", "C09", "C10", "C19", "C20"], prelude=["str", "iter", "order", "streq", "chars", "opt", "graph", "coll", "semver", "cfgexpr", "meta", "map", "kmap"], types=TYPES, mods=dict(_meta.MODS), spec=SPEC, lemmas=PICK + LEM, fns=FNS)]
