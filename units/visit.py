from _common import *
import kid, _meta, build, filter as filt, features, pkgspec
L, B = "src/lib.rs", "src/builder.rs"
BM = "Builder::build_with_metadata"
IN = BM + "/"
KM = build.KM
FT = "src/builder/features.rs"
TYPES = filt.types(False) + [t for t in build.INNER if t.path.split("/")[-1] in ("DependencyEdge", "PackageNode", "KrateDependency", "FeatureEdgeName", "FeatureEdge", "KrateFeatures")] + [
    Ty(B, IN + "VisitStack"), Ty(B, IN + "Renames"), Ty(FT, "Feature"), Ty(FT, "FeatureKind"), Ty(FT, "ParsedFeature")]
EX = pkgspec.SPEC[pkgspec.SPEC.index("// ---- C07"):]
SPEC = "global size_of usize == 8;\n" + filt.SPEC + filt.TSPEC[False] + EX + features.SPEC.split("\n", 1)[1] + build.NODE_SPEC + r"""
impl<V> BTreeMap<&str, V> { pub uninterp spec fn sm(&self) -> Map<Seq<char>, V>; }
// ---- the metadata and the configuration the walk goes by
pub type Item = (KKey, Option<usize>);
pub type Prd = spec_fn(Item) -> bool;
pub ghost struct W { pub nodes: Seq<Node>, pub pkgs: Seq<Pk>, pub ws: Seq<Kid>, pub roots: Set<KKey>, pub exc: Seq<PkgSpec>, pub ignore: u32, pub all: bool, pub ts: Seq<TargetFilter>, pub opaque: bool, pub rn: spec_fn(Seq<char>, Version, Seq<char>) -> bool }
/// a feature entry, as the metadata writes it
pub enum FeatS { Simple(Seq<char>), Dep(Seq<char>), Strong(Seq<char>, Seq<char>), Weak(Seq<char>, Seq<char>) }
pub open spec fn fview(r: Feature<'_>) -> FeatS { match r { Feature::Simple(s) => FeatS::Simple(s@), Feature::Krate(s) => FeatS::Dep(s@), Feature::Strong { krate, feature } => FeatS::Strong(krate@, feature@), Feature::Weak { krate, feature } => FeatS::Weak(krate@, feature@) } }
#[verifier::opaque] pub open spec fn feat_of(b: Seq<u8>) -> FeatS { fview(choose|r: Feature<'_>| classified(r, b)) }
pub open spec fn ix(w: W, k: KKey) -> int { choose|i: int| is_node(w.nodes, k, i) }
pub open spec fn known(w: W, k: KKey) -> bool { has_node(w.nodes, k) }
pub open spec fn nd(w: W, k: KKey) -> Node { w.nodes[ix(w, k)] }
pub open spec fn pk(w: W, k: KKey) -> Package { w.pkgs[ix(w, k)].1 }
pub open spec fn dep(w: W, k: KKey, d: int) -> NodeDep { nd(w, k).deps@[d] }
/// d is a resolved dependency of k, and l one of its kinds and targets
pub open spec fn isd(w: W, k: KKey, d: int) -> bool { known(w, k) && 0 <= d < nd(w, k).deps@.len() }
pub open spec fn isl(w: W, k: KKey, d: int, l: int) -> bool { isd(w, k, d) && 0 <= l < dep(w, k, d).dep_kinds@.len() }
pub open spec fn tgt(w: W, k: KKey, d: int) -> KKey { kkey(&dep(w, k, d).pkg) }
pub open spec fn is_fidx(n: Node, t: Seq<char>, y: usize) -> bool { y < n.features@.len() && n.features@[y as int]@ == t }
pub open spec fn has_f(n: Node, t: Seq<char>) -> bool { exists|y: usize| is_fidx(n, t, y) }
pub open spec fn has_kid(s: Seq<Kid>, k: KKey) -> bool { exists|i: int| 0 <= i < s.len() && kkey(&#[trigger] s[i]) == k }
pub open spec fn in_ws(w: W, k: KKey) -> bool { has_kid(w.ws, k) }
#[verifier::opaque] pub open spec fn excl(w: W, k: KKey) -> bool { exists|i: int| 0 <= i < w.exc.len() && excluded(#[trigger] w.exc[i], pk(w, k)) }
/// what the feature list of the f-th enabled feature of k has
pub open spec fn ent(w: W, k: KKey, f: usize) -> Seq<String> { let t = nd(w, k).features@[f as int]@; if pk(w, k).features.m().contains_key(t) { pk(w, k).features.m()[t]@ } else { Seq::empty() } }
pub open spec fn isi(w: W, k: KKey, f: usize, i: int) -> bool { known(w, k) && f < nd(w, k).features@.len() && 0 <= i < ent(w, k, f).len() }
pub open spec fn fe(w: W, k: KKey, f: usize, i: int) -> FeatS { feat_of(ent(w, k, f)[i].b()) }
/// the dependency an entry means by this name
pub open spec fn resolves(w: W, r: NodeDep, n: Seq<char>) -> bool { res(w.rn, r, n) }
pub open spec fn simple_e(w: W, k: KKey, e: FeatS, y: usize) -> bool { e is Simple && is_fidx(nd(w, k), e->Simple_0, y) }
/// the entry switches the dependency on
pub open spec fn names_e(w: W, k: KKey, d: int, e: FeatS) -> bool { match e { FeatS::Dep(n) => resolves(w, dep(w, k, d), n), FeatS::Strong(n, t) => resolves(w, dep(w, k, d), n), _ => false } }
pub open spec fn strong_e(w: W, k: KKey, d: int, e: FeatS, y: usize) -> bool { e is Strong && resolves(w, dep(w, k, d), e->Strong_0) && is_fidx(nd(w, tgt(w, k, d)), e->Strong_1, y) }
pub open spec fn weak_e(w: W, k: KKey, d: int, e: FeatS, y: usize) -> bool { e is Weak && resolves(w, dep(w, k, d), e->Weak_0) && is_fidx(nd(w, tgt(w, k, d)), e->Weak_1, y) }
/// a kept link
pub ghost struct Link { pub kind: DepKind, pub cfg: Option<Seq<char>>, pub decl: int, pub dflt: bool }
pub open spec fn decl_of(w: W, k: KKey, d: int, x: DepKindInfo) -> int { choose|j: int| first_stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, j) }
/// the link for one kind and target: none if its kind is ignored, its target not selected, or it is optional and nothing switched it on (C04, C05, C06, C10)
#[verifier::opaque]
pub open spec fn lkv(w: W, k: KKey, d: int, x: DepKindInfo, s: bool) -> Option<Link> {
    let j = decl_of(w, k, d, x); let c = pk(w, k).dependencies@[j];
    if ignored(w.ignore, x.kind, in_ws(w, k)) || (c.optional && !s) || !target_ok(x, w.all, w.ts) { None }
    else { Some(Link { kind: x.kind, cfg: match x.cfg { None => None, Some(m) => Some(m.inner@) }, decl: j, dflt: c.uses_default_features && nd(w, tgt(w, k, d)).has_default_feature }) }
}
pub open spec fn lk(w: W, k: KKey, d: int, l: int, s: bool) -> Option<Link> { lkv(w, k, d, dep(w, k, d).dep_kinds@[l], s) }
pub open spec fn canlink(w: W, k: KKey, d: int) -> bool { exists|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, true) is Some }
/// the link asks its dependency for the feature
pub open spec fn asks(w: W, k: KKey, x: Link, t: Seq<char>) -> bool { is_text(pk(w, k).dependencies@[x.decl].features@, t) || (x.dflt && t == "default"@) }
#[verifier::opaque] pub open spec fn lfeat(w: W, k: KKey, d: int, x: Link, y: usize) -> bool { exists|t: Seq<char>| #[trigger] asks(w, k, x, t) && is_fidx(nd(w, tgt(w, k, d)), t, y) }
pub open spec fn fsorted(n: Node) -> bool { forall|i: int, j: int| 0 <= i < j < n.features@.len() ==> lex((#[trigger] n.features@[i]).b(), (#[trigger] n.features@[j]).b()) == Ordering::Less }
pub open spec fn srcs_ok(b: Seq<u8>) -> bool { starts(b, "path+file://"@.b_()) ==> b.len() > 12 && bdy(b, 13) }
/// the metadata is what cargo writes: the resolve graph is closed and agrees with the packages
pub open spec fn wfw(w: W) -> bool {
    &&& nodes_ok(w.nodes) && w.pkgs.len() == w.nodes.len() && forall|i: int| 0 <= i < w.pkgs.len() ==> (#[trigger] w.pkgs[i]).0.wf() && kkey(&w.pkgs[i].0) == kkey(&w.nodes[i].id)
    &&& forall|k: KKey| #[trigger] w.roots.contains(k) ==> known(w, k)
    &&& forall|k: KKey| #[trigger] known(w, k) ==> fsorted(nd(w, k)) && nd(w, k).has_default_feature == has_f(nd(w, k), "default"@) && (pk(w, k).source is Some ==> cargo_source(pk(w, k).source->0.repr.b()))
    &&& forall|k: KKey, d: int| #[trigger] isd(w, k, d) ==> dep(w, k, d).pkg.wf() && known(w, tgt(w, k, d)) && srcs_ok(dep(w, k, d).pkg.part(2))
    &&& forall|k: KKey, d: int, c: int| #[trigger] isd(w, k, d) && #[trigger] isd(w, k, c) && tgt(w, k, d) == tgt(w, k, c) ==> d == c
    &&& forall|k: KKey, d: int, l: int| #[trigger] isl(w, k, d, l) ==> link_ok(w, k, d, l)
    &&& forall|k: KKey, f: usize, i: int| #[trigger] isi(w, k, f, i) ==> entry_ok(w, k, fe(w, k, f, i))
}
/// the link is declared, and the features it asks for are enabled if it is active
pub open spec fn link_ok(w: W, k: KKey, d: int, l: int) -> bool {
    let x = dep(w, k, d).dep_kinds@[l];
    &&& exists|j: int| #[trigger] stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, j)
    &&& x.cfg is Some ==> x.cfg->0.reads(x.cfg->0.inner@)
    &&& lk(w, k, d, l, true) is Some ==> forall|t: Seq<char>| #[trigger] asks(w, k, lk(w, k, d, l, true)->0, t) ==> has_f(nd(w, tgt(w, k, d)), t)
}
/// what an entry of an enabled feature asks for is enabled
pub open spec fn entry_ok(w: W, k: KKey, e: FeatS) -> bool {
    &&& e is Simple ==> has_f(nd(w, k), e->Simple_0)
    &&& e is Strong ==> forall|d: int| #[trigger] isd(w, k, d) && resolves(w, dep(w, k, d), e->Strong_0) ==> has_f(nd(w, tgt(w, k, d)), e->Strong_1)
    &&& e is Weak ==> forall|d: int| #[trigger] isd(w, k, d) && resolves(w, dep(w, k, d), e->Weak_0) ==> has_f(nd(w, tgt(w, k, d)), e->Weak_1)
}

// ---- C04, C07, C09: what is in the graph, as the least set closed under cargo's rules
/// feature f of the crate k is enabled
pub open spec fn fP(w: W, p: Prd, k: KKey, f: usize) -> bool { p((k, Some(f))) && !excl(w, k) && known(w, k) && f < nd(w, k).features@.len() }
pub open spec fn namedP(w: W, p: Prd, k: KKey, d: int) -> bool { exists|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && names_e(w, k, d, fe(w, k, f, i)) }
/// the link is kept
pub open spec fn linkP(w: W, p: Prd, k: KKey, d: int, l: int, s: bool) -> bool { isl(w, k, d, l) && lk(w, k, d, l, s) is Some && !excl(w, k) && (if s { namedP(w, p, k, d) } else { p((k, None)) }) }
pub open spec fn linkedP(w: W, p: Prd, k: KKey, d: int) -> bool { exists|l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) }
pub open spec fn strongN(w: W, p: Prd, k: KKey, d: int, y: usize) -> bool { isd(w, k, d) && exists|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && strong_e(w, k, d, fe(w, k, f, i), y) }
pub open spec fn strongP(w: W, p: Prd, k: KKey, d: int, y: usize) -> bool { strongN(w, p, k, d, y) && canlink(w, k, d) }
pub open spec fn weakP(w: W, p: Prd, k: KKey, d: int, y: usize) -> bool { isd(w, k, d) && exists|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && weak_e(w, k, d, fe(w, k, f, i), y) }
/// a selected root, with all its features
pub open spec fn seed(w: W, it: Item) -> bool { w.roots.contains(it.0) && (it.1 is Some ==> it.1->0 < nd(w, it.0).features@.len()) }
/// an enabled feature means its crate is there
pub open spec fn r1(w: W, p: Prd, it: Item) -> bool { it.1 is None && exists|f: usize| #[trigger] fP(w, p, it.0, f) }
/// a plain entry of an enabled feature
pub open spec fn r2(w: W, p: Prd, it: Item) -> bool { it.1 is Some && exists|f: usize, i: int| #[trigger] isi(w, it.0, f, i) && fP(w, p, it.0, f) && simple_e(w, it.0, fe(w, it.0, f, i), it.1->0) }
/// the target of a kept link, with the features the link asks for
pub open spec fn r3(w: W, p: Prd, it: Item) -> bool { exists|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)) }
/// `name/feature`
pub open spec fn r4(w: W, p: Prd, it: Item) -> bool { it.1 is Some && exists|k: KKey, d: int| #[trigger] strongP(w, p, k, d, it.1->0) && tgt(w, k, d) == it.0 }
/// `name?/feature`, for a dependency kept otherwise
pub open spec fn r5(w: W, p: Prd, it: Item) -> bool { it.1 is Some && exists|k: KKey, d: int| #[trigger] weakP(w, p, k, d, it.1->0) && linkedP(w, p, k, d) && tgt(w, k, d) == it.0 }
pub open spec fn step(w: W, p: Prd, it: Item) -> bool { seed(w, it) || r1(w, p, it) || r2(w, p, it) || r3(w, p, it) || r4(w, p, it) || r5(w, p, it) }
pub open spec fn at_(w: W, n: nat) -> Prd decreases n { if n == 0 { |it: Item| false } else { let p = at_(w, (n - 1) as nat); |it: Item| p(it) || step(w, p, it) } }
pub open spec fn drv(w: W, n: nat, it: Item) -> bool { at_(w, n)(it) }
/// derivable: the crate (None) or its feature has to be there
pub open spec fn D(w: W) -> Prd { |it: Item| exists|n: nat| #[trigger] drv(w, n, it) }

// ---- the walk's state
pub open spec fn dix(w: W, k: KKey, q: KKey) -> int { choose|d: int| #[trigger] isd(w, k, d) && tgt(w, k, d) == q }
pub open spec fn isdq(w: W, k: KKey, q: KKey) -> bool { isd(w, k, dix(w, k, q)) && tgt(w, k, dix(w, k, q)) == q }
pub type Deps = Map<KKey, KrateDependency>;
pub type Pend = Map<KKey, SetX<usize>>;
pub type Todo<'n> = Map<KKey, (&'n NodeDep, Option<SetX<usize>>)>;
pub type St<'s> = Seq<(&'s Kid, Option<usize>)>;
pub open spec fn itm(x: (&Kid, Option<usize>)) -> Item { (kkey(x.0), x.1) }
pub open spec fn onst(st: St<'_>, it: Item) -> bool { exists|j: int| 0 <= j < st.len() && itm(#[trigger] st[j]) == it }
pub open spec fn itok(w: W, x: (&Kid, Option<usize>)) -> bool { x.0.wf() && known(w, kkey(x.0)) && D(w)(itm(x)) && (x.1 is Some ==> x.1->0 < nd(w, kkey(x.0)).features@.len()) }
pub open spec fn sto(w: W, st: St<'_>) -> bool { forall|j: int| 0 <= j < st.len() ==> itok(w, #[trigger] st[j]) }
/// the stack grew by items that have to be there
pub open spec fn stx(w: W, a: St<'_>, b: St<'_>) -> bool { a.len() <= b.len() && (forall|j: int| #![trigger a[j]] #![trigger b[j]] 0 <= j < a.len() ==> b[j] == a[j]) && forall|j: int| a.len() <= j < b.len() ==> itok(w, #[trigger] b[j]) }
pub open spec fn same_kc(e: DependencyEdge, x: Link) -> bool { e.kind == x.kind && match e.cfg { None => x.cfg is None, Some(c) => x.cfg == Some(c@) } }
/// the recorded edge is this link
pub open spec fn em(w: W, k: KKey, d: int, e: DependencyEdge, x: Link) -> bool { same_kc(e, x) && e.dep_index == x.decl && forall|y: usize| #[trigger] e.features@.contains(y) <==> lfeat(w, k, d, x, y) }
pub open spec fn has_edge(es: Seq<DependencyEdge>, x: Link) -> bool { exists|i: int| 0 <= i < es.len() && same_kc(#[trigger] es[i], x) }
#[verifier::opaque] pub open spec fn sedge(w: W, k: KKey, d: int, e: DependencyEdge) -> bool { exists|l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s) && em(w, k, d, e, lk(w, k, d, l, s)->0) }
pub open spec fn featM(w: W, k: KKey, d: int, y: usize) -> bool { strongN(w, D(w), k, d, y) || weakP(w, D(w), k, d, y) }
pub open spec fn same_edge(a: DependencyEdge, b: DependencyEdge) -> bool { a.kind == b.kind && match (a.cfg, b.cfg) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false } }
pub open spec fn distinct(es: Seq<DependencyEdge>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> !same_edge(#[trigger] es[i], #[trigger] es[j]) }
pub open spec fn edges_ok(w: W, k: KKey, d: int, es: Seq<DependencyEdge>) -> bool { (forall|i: int| 0 <= i < es.len() ==> sedge(w, k, d, #[trigger] es[i])) && distinct(es) }
pub open spec fn dep_ok(w: W, k: KKey, d: int, x: KrateDependency) -> bool { x.edges@.len() > 0 && edges_ok(w, k, d, x.edges@) && forall|y: usize| #[trigger] x.features@.contains(y) ==> featM(w, k, d, y) }
pub open spec fn sdeps(w: W, k: KKey, m: Deps) -> bool { forall|q: KKey| #[trigger] m.contains_key(q) ==> isdq(w, k, q) && dep_ok(w, k, dix(w, k, q), m[q]) }
pub open spec fn inp(p: Pend, q: KKey, y: usize) -> bool { p.contains_key(q) && p[q]@.contains(y) }
pub open spec fn hasf(m: Deps, q: KKey, y: usize) -> bool { m.contains_key(q) && m[q].features@.contains(y) }
pub open spec fn inM(t: Todo<'_>, q: KKey, y: usize) -> bool { t.contains_key(q) && t[q].1 is Some && t[q].1->0@.contains(y) }
pub open spec fn spend(w: W, k: KKey, p: Pend, m: Deps) -> bool { forall|q: KKey| #[trigger] p.contains_key(q) ==> !m.contains_key(q) && isdq(w, k, q) && forall|y: usize| #[trigger] p[q]@.contains(y) ==> weakP(w, D(w), k, dix(w, k, q), y) }
/// the dependencies to look at: all of them (s false), or those an enabled feature switches on, with the features it asks for
pub open spec fn sM(w: W, k: KKey, t: Todo<'_>, s: bool) -> bool { forall|q: KKey| #[trigger] t.contains_key(q) ==> isdq(w, k, q) && *t[q].0 == dep(w, k, dix(w, k, q)) && (t[q].1 is Some) == s && (s ==> namedP(w, D(w), k, dix(w, k, q)) && forall|y: usize| #[trigger] t[q].1->0@.contains(y) ==> featM(w, k, dix(w, k, q), y)) }
// entries of one enabled feature
pub open spec fn ae_d(w: W, k: KKey, d: int, e: FeatS, p: Pend, m: Deps, t: Todo<'_>) -> bool {
    &&& names_e(w, k, d, e) ==> t.contains_key(tgt(w, k, d))
    &&& forall|y: usize| #[trigger] strong_e(w, k, d, e, y) ==> inM(t, tgt(w, k, d), y)
    &&& forall|y: usize| #[trigger] weak_e(w, k, d, e, y) ==> hasf(m, tgt(w, k, d), y) || inp(p, tgt(w, k, d), y) || inM(t, tgt(w, k, d), y)
}
pub open spec fn ae(w: W, k: KKey, e: FeatS, p: Pend, m: Deps, t: Todo<'_>, st: St<'_>) -> bool { (forall|y: usize| #[trigger] simple_e(w, k, e, y) ==> onst(st, (k, Some(y)))) && forall|d: int| #[trigger] isd(w, k, d) ==> ae_d(w, k, d, e, p, m, t) }
pub open spec fn agrow(p: Pend, m: Deps, t: Todo<'_>, p2: Pend, m2: Deps, t2: Todo<'_>) -> bool {
    &&& forall|q: KKey| #[trigger] t.contains_key(q) ==> t2.contains_key(q)
    &&& forall|q: KKey, y: usize| #[trigger] hasf(m, q, y) ==> hasf(m2, q, y)
    &&& forall|q: KKey, y: usize| #[trigger] inp(p, q, y) ==> inp(p2, q, y) || inM(t2, q, y)
    &&& forall|q: KKey, y: usize| #[trigger] inM(t, q, y) ==> inM(t2, q, y)
}
/// only features were added, and they are on the stack
pub open spec fn mkeep(m: Deps, m2: Deps, st: St<'_>) -> bool {
    &&& forall|q: KKey| #[trigger] m2.contains_key(q) <==> m.contains_key(q)
    &&& forall|q: KKey| #[trigger] m2.contains_key(q) ==> m2[q].edges == m[q].edges && forall|y: usize| #[trigger] m2[q].features@.contains(y) ==> m[q].features@.contains(y) || onst(st, (q, Some(y)))
}
pub open spec fn sA(w: W, k: KKey, p: Pend, m: Deps, t: Todo<'_>) -> bool { sdeps(w, k, m) && spend(w, k, p, m) && sM(w, k, t, true) }
"""
LEM = r"""
// ---- the least fixpoint
proof fn mono_f(w: W, p: Prd, q: Prd)
    requires forall|it: Item| #[trigger] p(it) ==> q(it),
    ensures
        forall|k: KKey, f: usize| #[trigger] fP(w, p, k, f) ==> fP(w, q, k, f),
        forall|k: KKey, d: int| #[trigger] namedP(w, p, k, d) ==> namedP(w, q, k, d),
        forall|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) ==> linkP(w, q, k, d, l, s),
        forall|k: KKey, d: int| #[trigger] linkedP(w, p, k, d) ==> linkedP(w, q, k, d),
        forall|k: KKey, d: int, y: usize| #[trigger] strongN(w, p, k, d, y) ==> strongN(w, q, k, d, y),
        forall|k: KKey, d: int, y: usize| #[trigger] strongP(w, p, k, d, y) ==> strongP(w, q, k, d, y),
        forall|k: KKey, d: int, y: usize| #[trigger] weakP(w, p, k, d, y) ==> weakP(w, q, k, d, y),
{
    assert forall|k: KKey, d: int| #[trigger] namedP(w, p, k, d) implies namedP(w, q, k, d) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && names_e(w, k, d, fe(w, k, f, i)); assert(fP(w, q, k, f)); assert(isi(w, k, f, i)); }
    assert forall|k: KKey, d: int| #[trigger] linkedP(w, p, k, d) implies linkedP(w, q, k, d) by { let (l, s) = choose|l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s); assert(linkP(w, q, k, d, l, s)); }
    assert forall|k: KKey, d: int, y: usize| #[trigger] strongN(w, p, k, d, y) implies strongN(w, q, k, d, y) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && strong_e(w, k, d, fe(w, k, f, i), y); assert(fP(w, q, k, f)); assert(isi(w, k, f, i)); }
    assert forall|k: KKey, d: int, y: usize| #[trigger] weakP(w, p, k, d, y) implies weakP(w, q, k, d, y) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && weak_e(w, k, d, fe(w, k, f, i), y); assert(fP(w, q, k, f)); assert(isi(w, k, f, i)); }
}
proof fn step_mono(w: W, p: Prd, q: Prd, it: Item)
    requires forall|it: Item| #[trigger] p(it) ==> q(it), step(w, p, it),
    ensures step(w, q, it),
{
    mono_f(w, p, q);
    if r1(w, p, it) { let f = choose|f: usize| #[trigger] fP(w, p, it.0, f); assert(fP(w, q, it.0, f)); }
    if r2(w, p, it) { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, it.0, f, i) && fP(w, p, it.0, f) && simple_e(w, it.0, fe(w, it.0, f, i), it.1->0); assert(fP(w, q, it.0, f)); assert(isi(w, it.0, f, i)); }
    if r3(w, p, it) { let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)); assert(linkP(w, q, k, d, l, s)); }
    if r4(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(w, p, k, d, it.1->0) && tgt(w, k, d) == it.0; assert(strongP(w, q, k, d, it.1->0)); }
    if r5(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(w, p, k, d, it.1->0) && linkedP(w, p, k, d) && tgt(w, k, d) == it.0; assert(weakP(w, q, k, d, it.1->0)); assert(linkedP(w, q, k, d)); }
}
proof fn drv_mono(w: W, n: nat, m: nat, it: Item) requires n <= m, drv(w, n, it), ensures drv(w, m, it), decreases m { if n < m { drv_mono(w, n, (m - 1) as nat, it); } }
/// everything closed under the rules contains what is derivable
proof fn induct(w: W, x: Prd)
    requires forall|it: Item| #[trigger] step(w, x, it) ==> x(it),
    ensures forall|it: Item| #[trigger] D(w)(it) ==> x(it),
{
    assert forall|it: Item| #[trigger] D(w)(it) implies x(it) by { let n = choose|n: nat| #[trigger] drv(w, n, it); induct_n(w, x, n, it); }
}
proof fn induct_n(w: W, x: Prd, n: nat, it: Item)
    requires forall|it: Item| #[trigger] step(w, x, it) ==> x(it), drv(w, n, it),
    ensures x(it),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        if drv(w, m, it) { induct_n(w, x, m, it); } else {
            assert(step(w, at_(w, m), it));
            assert forall|j: Item| #[trigger] at_(w, m)(j) implies x(j) by { assert(drv(w, m, j)); induct_n(w, x, m, j); }
            step_mono(w, at_(w, m), x, it);
        }
    }
}
proof fn up(w: W, n: nat, m: nat) requires n <= m ensures forall|j: Item| #[trigger] at_(w, n)(j) ==> at_(w, m)(j) { assert forall|j: Item| #[trigger] at_(w, n)(j) implies at_(w, m)(j) by { drv_mono(w, n, m, j); } }
proof fn f_at(w: W, k: KKey, f: usize) -> (n: nat) requires fP(w, D(w), k, f) ensures fP(w, at_(w, n), k, f) { choose|n: nat| #[trigger] drv(w, n, (k, Some(f))) }
proof fn named_at(w: W, k: KKey, d: int) -> (n: nat) requires namedP(w, D(w), k, d) ensures namedP(w, at_(w, n), k, d)
{ let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, D(w), k, f) && names_e(w, k, d, fe(w, k, f, i)); let n = f_at(w, k, f); assert(isi(w, k, f, i)); n }
proof fn link_at(w: W, k: KKey, d: int, l: int, s: bool) -> (n: nat) requires linkP(w, D(w), k, d, l, s) ensures linkP(w, at_(w, n), k, d, l, s)
{ if s { named_at(w, k, d) } else { let n = choose|n: nat| #[trigger] drv(w, n, (k, None::<usize>)); n } }
/// what is derivable is closed under the rules
proof fn closed(w: W, it: Item)
    requires step(w, D(w), it),
    ensures D(w)(it),
{
    let n: nat = if seed(w, it) { 0 }
    else if r1(w, D(w), it) { let f = choose|f: usize| #[trigger] fP(w, D(w), it.0, f); let n = f_at(w, it.0, f); n }
    else if r2(w, D(w), it) { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, it.0, f, i) && fP(w, D(w), it.0, f) && simple_e(w, it.0, fe(w, it.0, f, i), it.1->0); let n = f_at(w, it.0, f); assert(isi(w, it.0, f, i) && fP(w, at_(w, n), it.0, f)); n }
    else if r3(w, D(w), it) { let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)); let n = link_at(w, k, d, l, s); assert(linkP(w, at_(w, n), k, d, l, s)); n }
    else if r4(w, D(w), it) {
        let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(w, D(w), k, d, it.1->0) && tgt(w, k, d) == it.0; let y = it.1->0;
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, D(w), k, f) && strong_e(w, k, d, fe(w, k, f, i), y);
        let n = f_at(w, k, f); assert(isi(w, k, f, i) && fP(w, at_(w, n), k, f)); assert(strongP(w, at_(w, n), k, d, y)); n }
    else {
        let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(w, D(w), k, d, it.1->0) && linkedP(w, D(w), k, d) && tgt(w, k, d) == it.0; let y = it.1->0;
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, D(w), k, f) && weak_e(w, k, d, fe(w, k, f, i), y);
        let (l, s) = choose|l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s);
        let n1 = f_at(w, k, f); let n2 = link_at(w, k, d, l, s);
        let n = if n1 < n2 { n2 } else { n1 };
        up(w, n1, n); up(w, n2, n); mono_f(w, at_(w, n1), at_(w, n)); mono_f(w, at_(w, n2), at_(w, n));
        assert(isi(w, k, f, i) && fP(w, at_(w, n1), k, f)); assert(fP(w, at_(w, n), k, f)); assert(linkP(w, at_(w, n2), k, d, l, s)); assert(linkP(w, at_(w, n), k, d, l, s)); assert(linkedP(w, at_(w, n), k, d)); assert(weakP(w, at_(w, n), k, d, y)); n
    };
    assert(step(w, at_(w, n), it));
    assert(drv(w, n + 1, it));
}
"""

SPEC += r"""
// ---- semver's order
pub uninterp spec fn vcmp(a: Version, b: Version) -> Ordering;
#[verifier::external_body] pub proof fn ver_order(a: Version, b: Version, c: Version) ensures vcmp(a, b) == Ordering::Equal <==> a == b, vcmp(a, b) == rev(vcmp(b, a)), vcmp(a, b) == Ordering::Less && vcmp(b, c) == Ordering::Less ==> vcmp(a, c) == Ordering::Less { }
pub trait VCmp { fn vx_vcmp(&self, o: &&Version) -> (r: Ordering) ensures r == vcmp(self.vv(), **o); spec fn vv(&self) -> Version; }
impl VCmp for Version { open spec fn vv(&self) -> Version { *self } #[verifier::external_body] fn vx_vcmp(&self, o: &&Version) -> (r: Ordering) { unimplemented!() } }
impl<V> BTreeMap<&str, V> {
    #[verifier::external_body] pub fn vx_get(&self, k: &str) -> (r: Option<&V>) ensures r is Some <==> self.sm().contains_key(k@), r is Some ==> *r->0 == self.sm()[k@] { unimplemented!() }
}
pub type Vers<'p> = Seq<(&'p Version, &'p str)>;
pub open spec fn vsorted(v: Vers<'_>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> vcmp(*(#[trigger] v[i]).0, *(#[trigger] v[j]).0) == Ordering::Less }
pub open spec fn ren(v: Vers<'_>, ver: Version, r: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]).0 == ver && v[i].1@ == r }
impl<'p> Renames<'p> {
    pub open spec fn wf(&self) -> bool { forall|n: Seq<char>| #[trigger] self.inner.sm().contains_key(n) ==> vsorted(self.inner.sm()[n]@) }
    pub open spec fn fun(&self) -> spec_fn(Seq<char>, Version, Seq<char>) -> bool { |n: Seq<char>, v: Version, r: Seq<char>| self.inner.sm().contains_key(n) && ren(self.inner.sm()[n]@, v, r) }
}
pub open spec fn res(rn: spec_fn(Seq<char>, Version, Seq<char>) -> bool, r: NodeDep, n: Seq<char>) -> bool { same_name(r.name@, n) || (n == r.pname() && rn(n, r.version, r.name@)) }
pub open spec fn marked<T>(s: Seq<T>, o: Seq<bool>, x: T) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] && s[i] == x }
pub open spec fn is_dep_of(n: Node, rn: spec_fn(Seq<char>, Version, Seq<char>) -> bool, t: Seq<char>, x: NodeDep) -> bool { exists|i: int| 0 <= i < n.deps@.len() && #[trigger] n.deps@[i] == x && res(rn, x, t) }
pub open spec fn has_ref<T>(s: Seq<&T>, x: T) -> bool { exists|j: int| 0 <= j < s.len() && *#[trigger] s[j] == x }
pub trait AsMutX<T> { spec fn am(&self) -> Option<T>; fn vx_as_mut(&mut self) -> (r: Option<&mut T>) ensures r is Some <==> old(self).am() is Some, r is None ==> final(self).am() is None, r is Some ==> *r->0 == old(self).am()->0 && final(self).am() == Some(*final(r->0)); }
impl<T> AsMutX<T> for Option<T> { open spec fn am(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_as_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() } }
"""
LEM += r"""
// ---- features
proof fn fidx_unique(n: Node, t: Seq<char>, x: usize, y: usize) requires fsorted(n), is_fidx(n, t, x), is_fidx(n, t, y), ensures x == y
{ enc_inj(); if x < y { lex_eq(n.features@[x as int].b(), n.features@[y as int].b()); } if y < x { lex_eq(n.features@[y as int].b(), n.features@[x as int].b()); } }
proof fn f_search(n: Node, t: &str) requires fsorted(n), has_f(n, t@),
    ensures
        forall|i: int, j: int| 0 <= i < j < n.features@.len() ==> ord_le(lex((#[trigger] n.features@[i]).b(), t.b()), lex((#[trigger] n.features@[j]).b(), t.b())),
        exists|i: int| 0 <= i < n.features@.len() && lex((#[trigger] n.features@[i]).b(), t.b()) == Ordering::Equal,
        forall|i: int| 0 <= i < n.features@.len() && lex((#[trigger] n.features@[i]).b(), t.b()) == Ordering::Equal ==> n.features@[i]@ == t@,
{
    enc_inj();
    let b = t.b();
    assert forall|i: int, j: int| 0 <= i < j < n.features@.len() implies ord_le(lex((#[trigger] n.features@[i]).b(), b), lex((#[trigger] n.features@[j]).b(), b)) by {
        let (x, y) = (n.features@[i].b(), n.features@[j].b());
        assert(lex(x, y) == Ordering::Less);
        lex_eq(x, b); lex_eq(y, b); lex_rev(x, b); lex_rev(y, b);
        if lex(x, b) == Ordering::Greater { lex_trans(b, x, y); }
        if lex(y, b) == Ordering::Less { lex_trans(x, y, b); }
    }
    assert forall|i: int| 0 <= i < n.features@.len() && lex((#[trigger] n.features@[i]).b(), b) == Ordering::Equal implies n.features@[i]@ == t@ by { lex_eq(n.features@[i].b(), b); }
    let y = choose|y: usize| is_fidx(n, t@, y);
    lex_eq(n.features@[y as int].b(), b);
}
proof fn feat_is(r: Feature<'_>, b: Seq<u8>) requires classified(r, b) ensures fview(r) == feat_of(b)
{ reveal(feat_of); enc_inj(); let q = choose|q: Feature<'_>| classified(q, b); unique(r, q, b); }
proof fn v_search(v: Vers<'_>, ver: Version)
    requires vsorted(v),
    ensures forall|i: int, j: int| 0 <= i < j < v.len() ==> ord_le(vcmp(*(#[trigger] v[i]).0, ver), vcmp(*(#[trigger] v[j]).0, ver)),
        forall|i: int| 0 <= i < v.len() ==> (vcmp(*(#[trigger] v[i]).0, ver) == Ordering::Equal <==> *v[i].0 == ver),
        forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && *(#[trigger] v[i]).0 == ver && *(#[trigger] v[j]).0 == ver ==> i == j,
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies ord_le(vcmp(*(#[trigger] v[i]).0, ver), vcmp(*(#[trigger] v[j]).0, ver)) by { let (x, y) = (*v[i].0, *v[j].0); ver_order(x, y, ver); ver_order(y, ver, x); ver_order(ver, x, y); ver_order(x, ver, y); }
    assert forall|i: int| 0 <= i < v.len() implies (vcmp(*(#[trigger] v[i]).0, ver) == Ordering::Equal <==> *v[i].0 == ver) by { ver_order(*v[i].0, ver, ver); }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && *(#[trigger] v[i]).0 == ver && *(#[trigger] v[j]).0 == ver implies i == j by { ver_order(ver, ver, ver); if i < j { assert(vcmp(*v[i].0, *v[j].0) == Ordering::Less); } if j < i { assert(vcmp(*v[j].0, *v[i].0) == Ordering::Less); } }
}
proof fn all_search() ensures forall|v: Vers<'_>, ver: Version, i: int, j: int| #![trigger vsorted(v), vcmp(*v[i].0, ver), vcmp(*v[j].0, ver)] vsorted(v) && 0 <= i < j < v.len() ==> ord_le(vcmp(*v[i].0, ver), vcmp(*v[j].0, ver)),
    forall|v: Vers<'_>, ver: Version, i: int| #![trigger vsorted(v), vcmp(*v[i].0, ver)] vsorted(v) && 0 <= i < v.len() ==> (vcmp(*v[i].0, ver) == Ordering::Equal <==> *v[i].0 == ver),
    forall|a: Version, b: Version| #[trigger] vcmp(a, b) == Ordering::Equal <==> a == b,
    forall|v: Vers<'_>, ver: Version, i: int, j: int| #![trigger vsorted(v), vcmp(*v[i].0, ver), v[j].0] vsorted(v) && 0 <= i < v.len() && 0 <= j < v.len() && *v[i].0 == ver && *v[j].0 == ver ==> i == j
{
    assert forall|v: Vers<'_>, ver: Version, i: int, j: int| #![trigger vsorted(v), vcmp(*v[i].0, ver), vcmp(*v[j].0, ver)] vsorted(v) && 0 <= i < j < v.len() implies ord_le(vcmp(*v[i].0, ver), vcmp(*v[j].0, ver)) by { v_search(v, ver); }
    assert forall|v: Vers<'_>, ver: Version, i: int| #![trigger vsorted(v), vcmp(*v[i].0, ver)] vsorted(v) && 0 <= i < v.len() implies (vcmp(*v[i].0, ver) == Ordering::Equal <==> *v[i].0 == ver) by { v_search(v, ver); }
    assert forall|a: Version, b: Version| #[trigger] vcmp(a, b) == Ordering::Equal <==> a == b by { ver_order(a, b, b); }
    assert forall|v: Vers<'_>, ver: Version, i: int, j: int| #![trigger vsorted(v), vcmp(*v[i].0, ver), v[j].0] vsorted(v) && 0 <= i < v.len() && 0 <= j < v.len() && *v[i].0 == ver && *v[j].0 == ver implies i == j by { v_search(v, ver); }
}
proof fn kept_elem<T>(s: Seq<T>, o: Seq<bool>)
    requires o.len() <= s.len(),
    ensures
        forall|j: int| 0 <= j < kept(s, o).len() ==> marked(s, o, #[trigger] kept(s, o)[j]),
        forall|i: int| 0 <= i < o.len() && #[trigger] o[i] ==> kept(s, o).contains(s[i]),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last(); let n = o.len() - 1;
        kept_elem(s, p);
        assert forall|j: int| 0 <= j < kept(s, o).len() implies marked(s, o, #[trigger] kept(s, o)[j]) by {
            if j < kept(s, p).len() { assert(kept(s, o)[j] == kept(s, p)[j]); assert(marked(s, p, kept(s, p)[j])); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] && s[i] == kept(s, p)[j]; assert(o[i]); } else { assert(o[n]); } }
        assert forall|i: int| 0 <= i < o.len() && #[trigger] o[i] implies kept(s, o).contains(s[i]) by {
            if i < n { assert(p[i]); assert(kept(s, p).contains(s[i])); let j = choose|j: int| 0 <= j < kept(s, p).len() && #[trigger] kept(s, p)[j] == s[i]; assert(kept(s, o)[j] == s[i]); } else { assert(kept(s, o)[kept(s, o).len() - 1] == s[n]); } }
    }
}
"""
LEM += r"""
// ---- one reference of a feature to a dependency
proof fn dix_is(w: W, k: KKey, d: int) requires wfw(w), isd(w, k, d), ensures dix(w, k, tgt(w, k, d)) == d, isdq(w, k, tgt(w, k, d))
{ let q = tgt(w, k, d); assert(isd(w, k, d) && tgt(w, k, d) == q); let c = dix(w, k, q); assert(isd(w, k, c) && tgt(w, k, c) == q); }
proof fn has_links(w: W, k: KKey, d: int, es: Seq<DependencyEdge>) requires es.len() > 0, edges_ok(w, k, d, es), ensures linkedP(w, D(w), k, d), canlink(w, k, d), isd(w, k, d)
{
    reveal(sedge); assert(sedge(w, k, d, es[0]));
    let (l, s) = choose|l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s) && em(w, k, d, es[0], lk(w, k, d, l, s)->0);
    assert(linkP(w, D(w), k, d, l, s));
    link_true(w, k, d, l, s); assert(isl(w, k, d, l));
}
proof fn link_true(w: W, k: KKey, d: int, l: int, s: bool) ensures lk(w, k, d, l, s) is Some ==> lk(w, k, d, l, true) == lk(w, k, d, l, s) { reveal(lkv); }
/// a feature asked for of a kept dependency has to be there
proof fn feat_D(w: W, k: KKey, d: int, y: usize)
    requires wfw(w), featM(w, k, d, y), linkedP(w, D(w), k, d), canlink(w, k, d),
    ensures D(w)((tgt(w, k, d), Some(y))), known(w, tgt(w, k, d)), y < nd(w, tgt(w, k, d)).features@.len(),
{
    let it: Item = (tgt(w, k, d), Some(y));
    if strongN(w, D(w), k, d, y) {
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, D(w), k, f) && strong_e(w, k, d, fe(w, k, f, i), y);
        assert(is_fidx(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Strong_1, y));
        assert(strongP(w, D(w), k, d, y)); assert(r4(w, D(w), it));
    } else {
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, D(w), k, f) && weak_e(w, k, d, fe(w, k, f, i), y);
        assert(is_fidx(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Weak_1, y));
        assert(it.1 is Some && it.1->0 == y && tgt(w, k, d) == it.0); assert(linkedP(w, D(w), k, d)); assert(isd(w, k, d)); assert(weakP(w, D(w), k, d, it.1->0)); assert(r5(w, D(w), it));
    }
    assert(step(w, D(w), it));
    closed(w, it);
}
proof fn weak_in(w: W, k: KKey, d: int, y: usize, p: Pend, m: Deps, t: Todo<'_>, x: KrateDependency)
    requires wfw(w), sA(w, k, p, m, t), isd(w, k, d), weakP(w, D(w), k, d, y), m.contains_key(tgt(w, k, d)), x.edges == m[tgt(w, k, d)].edges, x.features@ == m[tgt(w, k, d)].features@.insert(y),
    ensures sA(w, k, p, m.insert(tgt(w, k, d), x), t), agrow(p, m, t, p, m.insert(tgt(w, k, d), x), t), hasf(m.insert(tgt(w, k, d), x), tgt(w, k, d), y), D(w)((tgt(w, k, d), Some(y))), known(w, tgt(w, k, d)), y < nd(w, tgt(w, k, d)).features@.len(),
{
    let q = tgt(w, k, d); let m2 = m.insert(q, x);
    dix_is(w, k, d);
    assert(dep_ok(w, k, d, m[q]));
    has_links(w, k, d, m[q].edges@);
    assert(featM(w, k, d, y));
    feat_D(w, k, d, y);
    assert(dep_ok(w, k, d, x)) by { assert forall|z: usize| #[trigger] x.features@.contains(z) implies featM(w, k, d, z) by { if z != y { assert(m[q].features@.contains(z)); } } }
    assert forall|q2: KKey| #[trigger] m2.contains_key(q2) implies isdq(w, k, q2) && dep_ok(w, k, dix(w, k, q2), m2[q2]) by { assert(m.contains_key(q2)); }
    assert forall|q2: KKey| #[trigger] p.contains_key(q2) implies !m2.contains_key(q2) by { }
}
proof fn weak_pend(w: W, k: KKey, d: int, y: usize, p: Pend, m: Deps, t: Todo<'_>, x: SetX<usize>)
    requires wfw(w), sA(w, k, p, m, t), isd(w, k, d), weakP(w, D(w), k, d, y), !m.contains_key(tgt(w, k, d)), x@ == (if p.contains_key(tgt(w, k, d)) { p[tgt(w, k, d)]@ } else { Set::<usize>::empty() }).insert(y),
    ensures sA(w, k, p.insert(tgt(w, k, d), x), m, t), agrow(p, m, t, p.insert(tgt(w, k, d), x), m, t), inp(p.insert(tgt(w, k, d), x), tgt(w, k, d), y),
{
    let q = tgt(w, k, d); let p2 = p.insert(q, x);
    dix_is(w, k, d);
    assert forall|q2: KKey| #[trigger] p2.contains_key(q2) implies !m.contains_key(q2) && isdq(w, k, q2) && forall|z: usize| #[trigger] p2[q2]@.contains(z) ==> weakP(w, D(w), k, dix(w, k, q2), z) by {
        if q2 != q { assert(p.contains_key(q2)); } else { assert forall|z: usize| #[trigger] x@.contains(z) implies weakP(w, D(w), k, d, z) by { if z != y { assert(p.contains_key(q)); assert(p[q]@.contains(z)); } } } }
}
/// the features of an entry of the to-do list
pub open spec fn tf(t: Todo<'_>, q: KKey) -> Set<usize> { if t.contains_key(q) { t[q].1->0@ } else { Set::empty() } }
pub open spec fn pf_(p: Pend, q: KKey) -> Set<usize> { if p.contains_key(q) { p[q]@ } else { Set::empty() } }
proof fn strong_in(w: W, k: KKey, d: int, y: Option<usize>, p: Pend, m: Deps, t: Todo<'_>, v: (&NodeDep, Option<SetX<usize>>))
    requires wfw(w), sA(w, k, p, m, t), isd(w, k, d), namedP(w, D(w), k, d), y is Some ==> strongN(w, D(w), k, d, y->0), *v.0 == dep(w, k, d), v.1 is Some,
        forall|z: usize| #[trigger] v.1->0@.contains(z) <==> tf(t, tgt(w, k, d)).contains(z) || pf_(p, tgt(w, k, d)).contains(z) || y == Some(z),
    ensures sA(w, k, p.remove(tgt(w, k, d)), m, t.insert(tgt(w, k, d), v)), agrow(p, m, t, p.remove(tgt(w, k, d)), m, t.insert(tgt(w, k, d), v)), y is Some ==> inM(t.insert(tgt(w, k, d), v), tgt(w, k, d), y->0),
{
    let q = tgt(w, k, d); let p2 = p.remove(q); let t2 = t.insert(q, v);
    dix_is(w, k, d);
    assert forall|q2: KKey| #[trigger] p2.contains_key(q2) implies !m.contains_key(q2) && isdq(w, k, q2) && forall|z: usize| #[trigger] p2[q2]@.contains(z) ==> weakP(w, D(w), k, dix(w, k, q2), z) by { assert(p.contains_key(q2)); }
    assert forall|q2: KKey| #[trigger] t2.contains_key(q2) implies isdq(w, k, q2) && *t2[q2].0 == dep(w, k, dix(w, k, q2)) && t2[q2].1 is Some && namedP(w, D(w), k, dix(w, k, q2)) && forall|z: usize| #[trigger] t2[q2].1->0@.contains(z) ==> featM(w, k, dix(w, k, q2), z) by {
        if q2 != q { assert(t.contains_key(q2)); } else { assert forall|z: usize| #[trigger] v.1->0@.contains(z) implies featM(w, k, d, z) by {
            if tf(t, q).contains(z) { assert(t.contains_key(q)); assert(t[q].1->0@.contains(z)); } else if pf_(p, q).contains(z) { assert(p.contains_key(q)); assert(p[q]@.contains(z)); } else { } } } }
    assert forall|q2: KKey, z: usize| #[trigger] inp(p, q2, z) implies inp(p2, q2, z) || inM(t2, q2, z) by { if q2 == q { assert(pf_(p, q).contains(z)); } }
    assert forall|q2: KKey, z: usize| #[trigger] inM(t, q2, z) implies inM(t2, q2, z) by { if q2 == q { assert(tf(t, q).contains(z)); } }
}
proof fn todo_at(w: W, k: KKey, d: int, p: Pend, m: Deps, t: Todo<'_>) requires wfw(w), sA(w, k, p, m, t), isd(w, k, d), ensures t.contains_key(tgt(w, k, d)) ==> t[tgt(w, k, d)].1 is Some && *t[tgt(w, k, d)].0 == dep(w, k, d) { dix_is(w, k, d); }
/// what resolving and searching for a reference needs
proof fn ref_facts(w: W, k: KKey, f: usize, i: int, d: int)
    requires wfw(w), isi(w, k, f, i), isd(w, k, d), fP(w, D(w), k, f),
    ensures
        dep(w, k, d).pkg.wf(), nodes_ok(w.nodes), has_node(w.nodes, tgt(w, k, d)), fsorted(nd(w, tgt(w, k, d))), forall|j: int| is_node(w.nodes, tgt(w, k, d), j) ==> j == ix(w, tgt(w, k, d)),
        fe(w, k, f, i) is Strong && resolves(w, dep(w, k, d), fe(w, k, f, i)->Strong_0) ==> has_f(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Strong_1) && namedP(w, D(w), k, d) && forall|y: usize| #[trigger] is_fidx(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Strong_1, y) ==> strongN(w, D(w), k, d, y),
        fe(w, k, f, i) is Dep && resolves(w, dep(w, k, d), fe(w, k, f, i)->Dep_0) ==> namedP(w, D(w), k, d),
        fe(w, k, f, i) is Weak && resolves(w, dep(w, k, d), fe(w, k, f, i)->Weak_0) ==> has_f(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Weak_1) && forall|y: usize| #[trigger] is_fidx(nd(w, tgt(w, k, d)), fe(w, k, f, i)->Weak_1, y) ==> weakP(w, D(w), k, d, y),
        forall|y: usize, z: usize, t: Seq<char>| #[trigger] is_fidx(nd(w, tgt(w, k, d)), t, y) && #[trigger] is_fidx(nd(w, tgt(w, k, d)), t, z) ==> y == z,
{
    let q = tgt(w, k, d); let e = fe(w, k, f, i);
    assert(entry_ok(w, k, e));
    one_node(w, q);
    if e is Strong && resolves(w, dep(w, k, d), e->Strong_0) { assert(names_e(w, k, d, e)); assert forall|y: usize| #[trigger] is_fidx(nd(w, q), e->Strong_1, y) implies strongN(w, D(w), k, d, y) by { assert(strong_e(w, k, d, e, y)); } }
    if e is Dep && resolves(w, dep(w, k, d), e->Dep_0) { assert(names_e(w, k, d, e)); }
    if e is Weak && resolves(w, dep(w, k, d), e->Weak_0) { assert forall|y: usize| #[trigger] is_fidx(nd(w, q), e->Weak_1, y) implies weakP(w, D(w), k, d, y) by { assert(weak_e(w, k, d, e, y)); } }
    assert forall|y: usize, z: usize, t: Seq<char>| #[trigger] is_fidx(nd(w, q), t, y) && #[trigger] is_fidx(nd(w, q), t, z) implies y == z by { fidx_unique(nd(w, q), t, y, z); }
}
proof fn one_node(w: W, q: KKey) requires nodes_ok(w.nodes), known(w, q), ensures forall|j: int| is_node(w.nodes, q, j) ==> j == ix(w, q), is_node(w.nodes, q, ix(w, q))
{
    let a = ix(w, q);
    assert forall|j: int| is_node(w.nodes, q, j) implies j == a by { if j < a { assert(k_less(&w.nodes[j].id, &w.nodes[a].id)); same_cmp(&w.nodes[j].id, &w.nodes[a].id, &w.nodes[a].id); } if a < j { assert(k_less(&w.nodes[a].id, &w.nodes[j].id)); same_cmp(&w.nodes[a].id, &w.nodes[j].id, &w.nodes[j].id); } }
}
"""
LEM += r"""
// ---- the entries of a feature
proof fn deps_wf(w: W, k: KKey) requires wfw(w), known(w, k) ensures forall|i: int| 0 <= i < nd(w, k).deps@.len() ==> (#[trigger] nd(w, k).deps@[i]).pkg.wf(), fsorted(nd(w, k)) { assert forall|i: int| 0 <= i < nd(w, k).deps@.len() implies (#[trigger] nd(w, k).deps@[i]).pkg.wf() by { assert(isd(w, k, i)); } }
proof fn same_dep(w: W, k: KKey, c: int, d: int) requires wfw(w), isd(w, k, c), isd(w, k, d), dep(w, k, c) == dep(w, k, d) ensures c == d { assert(tgt(w, k, c) == tgt(w, k, d)); }
proof fn stx_trans(w: W, a: St<'_>, b: St<'_>, c: St<'_>) requires stx(w, a, b), stx(w, b, c), ensures stx(w, a, c), forall|it: Item| #[trigger] onst(b, it) ==> onst(c, it)
{
    assert forall|j: int| a.len() <= j < c.len() implies itok(w, #[trigger] c[j]) by { if j < b.len() { assert(b[j] == c[j]); assert(itok(w, b[j])); } }
    assert forall|j: int| #![trigger a[j]] #![trigger c[j]] 0 <= j < a.len() implies c[j] == a[j] by { assert(b[j] == a[j]); }
    assert forall|it: Item| #[trigger] onst(b, it) implies onst(c, it) by { let j = choose|j: int| 0 <= j < b.len() && itm(#[trigger] b[j]) == it; assert(itm(c[j]) == it); }
}
proof fn grow_refl(w: W, p: Pend, m: Deps, t: Todo<'_>, st: St<'_>) ensures stx(w, st, st), mkeep(m, m, st), agrow(p, m, t, p, m, t) { }
proof fn grow_trans(w: W, p0: Pend, m0: Deps, t0: Todo<'_>, st0: St<'_>, p1: Pend, m1: Deps, t1: Todo<'_>, st1: St<'_>, p2: Pend, m2: Deps, t2: Todo<'_>, st2: St<'_>)
    requires stx(w, st0, st1), stx(w, st1, st2), mkeep(m0, m1, st1), mkeep(m1, m2, st2), agrow(p0, m0, t0, p1, m1, t1), agrow(p1, m1, t1, p2, m2, t2),
    ensures stx(w, st0, st2), mkeep(m0, m2, st2), agrow(p0, m0, t0, p2, m2, t2), forall|it: Item| #[trigger] onst(st1, it) ==> onst(st2, it),
{
    stx_trans(w, st0, st1, st2);
    assert forall|q: KKey| #[trigger] m2.contains_key(q) implies m2[q].edges == m0[q].edges && forall|y: usize| #[trigger] m2[q].features@.contains(y) ==> m0[q].features@.contains(y) || onst(st2, (q, Some(y))) by {
        assert(m1.contains_key(q));
        assert forall|y: usize| #[trigger] m2[q].features@.contains(y) implies m0[q].features@.contains(y) || onst(st2, (q, Some(y))) by { if m1[q].features@.contains(y) { if !m0[q].features@.contains(y) { assert(onst(st1, (q, Some(y)))); } } }
    }
    assert forall|q: KKey| #[trigger] m2.contains_key(q) <==> m0.contains_key(q) by { assert(m1.contains_key(q) <==> m0.contains_key(q)); }
    assert forall|q: KKey| #[trigger] t0.contains_key(q) implies t2.contains_key(q) by { assert(t1.contains_key(q)); }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m0, q, y) implies hasf(m2, q, y) by { assert(hasf(m1, q, y)); }
    assert forall|q: KKey, y: usize| #[trigger] inp(p0, q, y) implies inp(p2, q, y) || inM(t2, q, y) by { assert(inp(p1, q, y) || inM(t1, q, y)); }
    assert forall|q: KKey, y: usize| #[trigger] inM(t0, q, y) implies inM(t2, q, y) by { assert(inM(t1, q, y)); }
}
proof fn aed_mono(w: W, k: KKey, d: int, e: FeatS, p: Pend, m: Deps, t: Todo<'_>, p2: Pend, m2: Deps, t2: Todo<'_>)
    requires agrow(p, m, t, p2, m2, t2), ae_d(w, k, d, e, p, m, t),
    ensures ae_d(w, k, d, e, p2, m2, t2),
{
    assert forall|y: usize| #[trigger] strong_e(w, k, d, e, y) implies inM(t2, tgt(w, k, d), y) by { assert(inM(t, tgt(w, k, d), y)); }
    assert forall|y: usize| #[trigger] weak_e(w, k, d, e, y) implies hasf(m2, tgt(w, k, d), y) || inp(p2, tgt(w, k, d), y) || inM(t2, tgt(w, k, d), y) by { assert(hasf(m, tgt(w, k, d), y) || inp(p, tgt(w, k, d), y) || inM(t, tgt(w, k, d), y)); }
}
proof fn ae_mono(w: W, k: KKey, e: FeatS, p: Pend, m: Deps, t: Todo<'_>, st: St<'_>, p2: Pend, m2: Deps, t2: Todo<'_>, st2: St<'_>)
    requires agrow(p, m, t, p2, m2, t2), stx(w, st, st2), ae(w, k, e, p, m, t, st),
    ensures ae(w, k, e, p2, m2, t2, st2),
{
    stx_trans(w, st, st, st2);
    assert forall|d: int| #[trigger] isd(w, k, d) implies ae_d(w, k, d, e, p2, m2, t2) by { aed_mono(w, k, d, e, p, m, t, p2, m2, t2); }
    assert forall|y: usize| #[trigger] simple_e(w, k, e, y) implies onst(st2, (k, Some(y))) by { assert(onst(st, (k, Some(y)))); }
}
/// an entry that names no dependency asks nothing of it
proof fn ae_none(w: W, k: KKey, d: int, e: FeatS, p: Pend, m: Deps, t: Todo<'_>)
    requires match e { FeatS::Simple(_) => true, FeatS::Dep(n) => !resolves(w, dep(w, k, d), n), FeatS::Strong(n, _) => !resolves(w, dep(w, k, d), n), FeatS::Weak(n, _) => !resolves(w, dep(w, k, d), n) },
    ensures ae_d(w, k, d, e, p, m, t),
{ }
proof fn simple_facts(w: W, k: KKey, f: usize, i: int, t: Seq<char>)
    requires wfw(w), isi(w, k, f, i), fP(w, D(w), k, f), fe(w, k, f, i) == FeatS::Simple(t),
    ensures has_f(nd(w, k), t), fsorted(nd(w, k)), forall|y: usize| #[trigger] is_fidx(nd(w, k), t, y) ==> D(w)((k, Some(y))) && known(w, k) && y < nd(w, k).features@.len(), forall|y: usize, z: usize| #[trigger] is_fidx(nd(w, k), t, y) && #[trigger] is_fidx(nd(w, k), t, z) ==> y == z,
{
    assert(entry_ok(w, k, fe(w, k, f, i)));
    assert forall|y: usize| #[trigger] is_fidx(nd(w, k), t, y) implies D(w)((k, Some(y))) by { let it: Item = (k, Some(y)); assert(simple_e(w, k, fe(w, k, f, i), y)); assert(isi(w, it.0, f, i) && fP(w, D(w), it.0, f) && simple_e(w, it.0, fe(w, it.0, f, i), it.1->0)); assert(r2(w, D(w), it)); assert(step(w, D(w), it)); closed(w, it); }
    assert forall|y: usize, z: usize| #[trigger] is_fidx(nd(w, k), t, y) && #[trigger] is_fidx(nd(w, k), t, z) implies y == z by { fidx_unique(nd(w, k), t, y, z); }
}
"""
SPEC += r"""
// ---- the links
#[verifier::external_body]
""" + filt.EDGE.rstrip().rstrip(",") + r"""
{ unimplemented!() }
impl VxEq<DepKind> for DepKind { open spec fn eqs(&self, o: &DepKind) -> bool { *self == *o } fn vx_eq_(&self, o: &DepKind) -> bool { match (self, o) { (DepKind::Normal, DepKind::Normal) | (DepKind::Dev, DepKind::Dev) | (DepKind::Build, DepKind::Build) => true, _ => false } } }
impl VxEq<Option<&str>> for Option<&str> { open spec fn eqs(&self, o: &Option<&str>) -> bool { match (*self, *o) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false } } #[verifier::external_body] fn vx_eq_(&self, o: &Option<&str>) -> bool { unimplemented!() } }
pub trait OptMapX<T>: Sized { spec fn ov(self) -> Option<T>; fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) requires self.ov() is Some ==> f.requires((self.ov()->0,)), ensures self.ov() is None ==> r is None, self.ov() is Some ==> r is Some && f.ensures((self.ov()->0,), r->0); }
impl<T> OptMapX<T> for Option<T> { open spec fn ov(self) -> Option<T> { self } fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } } }
pub open spec fn oseq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
pub trait ChainX<T>: VxInto<T = T> { fn vx_chain(self, o: Option<T>) -> (r: It<T>) ensures r.i() == 0, r.wf(), r.s() == self.vseq() + oseq(o); }
impl<T, I: VxInto<T = T>> ChainX<T> for I { #[verifier::external_body] fn vx_chain(self, o: Option<T>) -> (r: It<T>) { unimplemented!() } }
pub fn vx_take<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) is None { o.take() }
/// where adding the links of one dependency is: the features to add (if it was switched on), and whether the dependency is still to be put on the stack
pub ghost struct LS<'s> { pub p: Pend, pub st: St<'s>, pub es: Seq<DependencyEdge>, pub ft: Set<usize>, pub fs: Option<Set<usize>>, pub vd: bool }
pub open spec fn os(x: Option<SetX<usize>>) -> Option<Set<usize>> { match x { Some(x) => Some(x@), None => None } }
pub open spec fn ls<'n>(kf: KrateFeatures<'n>, vs: VisitStack<'n>, dep: KrateDependency, fs: Option<SetX<usize>>, vd: Option<&'n Kid>) -> LS<'n> { LS { p: kf.pending_weak.m(), st: vs.v@, es: dep.edges@, ft: dep.features@, fs: os(fs), vd: vd is Some } }
pub open spec fn pre_(a: Seq<DependencyEdge>, b: Seq<DependencyEdge>) -> bool { a.len() <= b.len() && forall|j: int| #![trigger a[j]] #![trigger b[j]] 0 <= j < a.len() ==> b[j] == a[j] }
pub open spec fn allf(w: W, k: KKey, d: int, f: Set<usize>) -> bool { forall|y: usize| #[trigger] f.contains(y) ==> featM(w, k, d, y) }
pub open spec fn Jf(w: W, k: KKey, d: int, a: LS<'_>, b: LS<'_>) -> bool { allf(w, k, d, b.ft) && a.ft.subset_of(b.ft) && forall|y: usize| #[trigger] b.ft.contains(y) ==> a.ft.contains(y) || onst(b.st, (tgt(w, k, d), Some(y))) }
pub open spec fn Je(w: W, k: KKey, d: int, a: LS<'_>, b: LS<'_>) -> bool { edges_ok(w, k, d, b.es) && pre_(a.es, b.es) && forall|j: int, y: usize| a.es.len() <= j < b.es.len() && #[trigger] b.es[j].features@.contains(y) ==> onst(b.st, (tgt(w, k, d), Some(y))) }
pub open spec fn J(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>) -> bool {
    &&& (a.fs is Some) == s && a.vd && (s ==> allf(w, k, d, a.fs->0)) && allf(w, k, d, pf_(a.p, tgt(w, k, d)))
    &&& stx(w, a.st, b.st) && Jf(w, k, d, a, b) && Je(w, k, d, a, b)
    &&& b.fs is Some ==> b.fs == a.fs
    &&& a.fs is Some && b.fs is None ==> a.fs->0.subset_of(b.ft)
    &&& b.vd ==> b.p == a.p && b.es == a.es
    &&& !b.vd ==> onst(b.st, (tgt(w, k, d), None)) && b.p == a.p.remove(tgt(w, k, d)) && pf_(a.p, tgt(w, k, d)).subset_of(b.ft)
}
/// the link as the code has it
pub open spec fn ematch(w: W, k: KKey, e: Edge<'_>, x: Link) -> bool {
    e.kind == x.kind && e.dep_index == x.decl && *e.features == pk(w, k).dependencies@[x.decl].features && e.uses_default_features == x.dflt && match e.cfg { None => x.cfg is None, Some(c) => x.cfg == Some(c@) }
}
pub open spec fn ekc(e: DependencyEdge, g: Edge<'_>) -> bool { e.kind == g.kind && match (e.cfg, g.cfg) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false } }
pub open spec fn listedt(s: Seq<&str>, t: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == t }
pub open spec fn asked(g: Edge<'_>, t: Seq<char>) -> bool { is_text(g.features@, t) || (g.uses_default_features && t == "default"@) }
"""
LEM += r"""
// ---- the links
/// the target of a kept link and the features the link asks for have to be there
proof fn link_D(w: W, k: KKey, d: int, l: int, s: bool)
    requires wfw(w), linkP(w, D(w), k, d, l, s),
    ensures D(w)((tgt(w, k, d), None)), known(w, tgt(w, k, d)), linkedP(w, D(w), k, d), canlink(w, k, d), isd(w, k, d), fsorted(nd(w, tgt(w, k, d))),
        forall|y: usize| #[trigger] lfeat(w, k, d, lk(w, k, d, l, s)->0, y) ==> D(w)((tgt(w, k, d), Some(y))) && y < nd(w, tgt(w, k, d)).features@.len(),
        forall|t: Seq<char>| #[trigger] asks(w, k, lk(w, k, d, l, s)->0, t) ==> has_f(nd(w, tgt(w, k, d)), t),
{
    let q = tgt(w, k, d); let x = lk(w, k, d, l, s)->0;
    link_true(w, k, d, l, s); assert(isl(w, k, d, l)); assert(link_ok(w, k, d, l));
    let it: Item = (q, None);
    assert(tgt(w, k, d) == it.0); assert(r3(w, D(w), it)); assert(step(w, D(w), it)); closed(w, it);
    assert forall|y: usize| #[trigger] lfeat(w, k, d, x, y) implies D(w)((q, Some(y))) && y < nd(w, q).features@.len() by {
        let it: Item = (q, Some(y));
        assert(linkP(w, D(w), k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)));
        assert(r3(w, D(w), it)); assert(step(w, D(w), it)); closed(w, it);
        reveal(lfeat); let t = choose|t: Seq<char>| #[trigger] asks(w, k, x, t) && is_fidx(nd(w, q), t, y); assert(is_fidx(nd(w, q), t, y));
    }
}
proof fn feats_D(w: W, k: KKey, d: int, f: Set<usize>) requires wfw(w), allf(w, k, d, f), linkedP(w, D(w), k, d), canlink(w, k, d)
    ensures forall|y: usize| #[trigger] f.contains(y) ==> D(w)((tgt(w, k, d), Some(y))) && y < nd(w, tgt(w, k, d)).features@.len()
{ assert forall|y: usize| #[trigger] f.contains(y) implies D(w)((tgt(w, k, d), Some(y))) && y < nd(w, tgt(w, k, d)).features@.len() by { feat_D(w, k, d, y); } }
proof fn stx_push(w: W, a: St<'_>, b: St<'_>, x: (&Kid, Option<usize>)) requires stx(w, a, b), itok(w, x), ensures stx(w, a, b.push(x)), stx(w, b, b.push(x)), onst(b.push(x), itm(x)), forall|it: Item| #[trigger] onst(b, it) ==> onst(b.push(x), it)
{ let c = b.push(x); assert(itm(c[b.len() as int]) == itm(x)); assert(stx(w, b, c)); stx_trans(w, a, b, c); }
proof fn stx_refl(w: W, a: St<'_>) ensures stx(w, a, a) { }
proof fn lemma_ft(a: Set<usize>) ensures a.union(Set::<usize>::empty()) == a { assert(a.union(Set::<usize>::empty()) =~= a); }
proof fn J_vd(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>) requires J(w, k, d, s, a, b), !b.vd ensures onst(b.st, (tgt(w, k, d), None)), !b.p.contains_key(tgt(w, k, d)) { }
pub open spec fn asked_for(g: Edge<'_>, n: Node, y: usize) -> bool { exists|t: Seq<char>| #[trigger] asked(g, t) && is_fidx(n, t, y) }
proof fn asked_is(w: W, k: KKey, d: int, l: int, s: bool, g: Edge<'_>)
    requires ematch(w, k, g, lk(w, k, d, l, s)->0),
    ensures forall|t: Seq<char>| #[trigger] asked(g, t) <==> asks(w, k, lk(w, k, d, l, s)->0, t), forall|t: Seq<char>, y: usize| #[trigger] asked(g, t) && #[trigger] is_fidx(nd(w, tgt(w, k, d)), t, y) ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, y), forall|y: usize| #[trigger] lfeat(w, k, d, lk(w, k, d, l, s)->0, y) ==> asked_for(g, nd(w, tgt(w, k, d)), y),
{
    reveal(lfeat); let x = lk(w, k, d, l, s)->0;
    assert forall|t: Seq<char>| #[trigger] asked(g, t) <==> asks(w, k, x, t) by { }
    assert forall|t: Seq<char>, y: usize| #[trigger] asked(g, t) && #[trigger] is_fidx(nd(w, tgt(w, k, d)), t, y) implies lfeat(w, k, d, x, y) by { assert(asks(w, k, x, t)); }
    assert forall|y: usize| #[trigger] lfeat(w, k, d, x, y) implies asked_for(g, nd(w, tgt(w, k, d)), y) by { let t = choose|t: Seq<char>| #[trigger] asks(w, k, x, t) && is_fidx(nd(w, tgt(w, k, d)), t, y); assert(asked(g, t)); }
}
/// the dependency goes on the stack, with the features that waited for it
proof fn J_take(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>, c: LS<'_>)
    requires J(w, k, d, s, a, b), b.vd, !c.vd, c.es == b.es, c.fs == b.fs, stx(w, b.st, c.st), onst(c.st, (tgt(w, k, d), None)), c.p == b.p.remove(tgt(w, k, d)), c.ft == b.ft.union(pf_(b.p, tgt(w, k, d))), forall|y: usize| #[trigger] pf_(b.p, tgt(w, k, d)).contains(y) ==> onst(c.st, (tgt(w, k, d), Some(y))),
    ensures J(w, k, d, s, a, c),
{ stx_trans(w, a.st, b.st, c.st); }
/// the features of the switched-on dependency
proof fn J_feats(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>, c: LS<'_>)
    requires J(w, k, d, s, a, b), b.fs is Some, !b.vd, !c.vd, c.fs is None, c.es == b.es, c.p == b.p, stx(w, b.st, c.st), c.ft == b.ft.union(b.fs->0), forall|y: usize| #[trigger] b.fs->0.contains(y) ==> onst(c.st, (tgt(w, k, d), Some(y))),
    ensures J(w, k, d, s, a, c),
{ stx_trans(w, a.st, b.st, c.st); }
proof fn J_edge(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>, c: LS<'_>, l: int, e: DependencyEdge)
    requires J(w, k, d, s, a, b), !b.vd, !c.vd, c.fs == b.fs, c.p == b.p, c.ft == b.ft, stx(w, b.st, c.st), c.es == b.es.push(e), linkP(w, D(w), k, d, l, s), em(w, k, d, e, lk(w, k, d, l, s)->0),
        forall|i: int| 0 <= i < b.es.len() ==> !same_kc(#[trigger] b.es[i], lk(w, k, d, l, s)->0), forall|y: usize| #[trigger] e.features@.contains(y) ==> onst(c.st, (tgt(w, k, d), Some(y))),
    ensures J(w, k, d, s, a, c), has_edge(c.es, lk(w, k, d, l, s)->0),
{
    stx_trans(w, a.st, b.st, c.st);
    let x = lk(w, k, d, l, s)->0;
    reveal(sedge);
    assert(sedge(w, k, d, e));
    assert forall|i: int| 0 <= i < c.es.len() implies sedge(w, k, d, #[trigger] c.es[i]) by { if i < b.es.len() { assert(sedge(w, k, d, b.es[i])); } }
    assert forall|i: int, j: int| 0 <= i < j < c.es.len() implies !same_edge(#[trigger] c.es[i], #[trigger] c.es[j]) by { if j < b.es.len() { assert(!same_edge(b.es[i], b.es[j])); } else { assert(!same_kc(b.es[i], x)); } }
    assert(same_kc(c.es[b.es.len() as int], x));
}
"""
FF = {f.name: f for f in filt.fns(False)}
BF = {f.name: f for f in build.FNS}
WL = "stmts:text:visit_stack.pop()..=text:visit_stack.pop();loop:#0"
ENT = [(r"\.\s*entry\(((?:[^()]|\([^()]*\))*)\)\s*\.\s*or_insert_with\(", r".vx_entry_or(\1, "), (r"\.\s*entry\(((?:[^()]|\([^()]*\))*)\)\s*\.\s*or_default\(\)", r".vx_entry_default(\1)"), (r"\bBTreeSet::new", "SetX::new")]
CONT = (r"\bcontinue;", "return;")
GETN = (r"get_rnode\(", "get_rnode(nodes, ")
MV = [("get_mut", "*", "vx_get_mut"), ("as_mut", "0", "vx_as_mut"), ("iter", "0", "vx_iter"), ("get", "*", "vx_get"), ("as_deref", "0", "vx_as_deref"), ("is_some_and", "*", "fn:vx_is_some_and"), ("any", "*", "vx_any")]
STATE = """krate_features: &mut KrateFeatures<'n>, pn: &mut PackageNode<'n>, deps: &mut KMap<'n, (&'n NodeDep, Option<SetX<usize>>)>, visit_stack: &mut VisitStack<'n>"""
KEEPF = "final(krate_features).actual == old(krate_features).actual, final(krate_features).graph == old(krate_features).graph, final(krate_features).filled_non_optional == old(krate_features).filled_non_optional, final(pn).is_root == old(pn).is_root"
SA0 = "sA(w, k, old(krate_features).pending_weak.m(), old(pn).deps.m(), old(deps).m())"
SA1 = "sA(w, k, final(krate_features).pending_weak.m(), final(pn).deps.m(), final(deps).m())"
GROW = "stx(w, old(visit_stack).v@, final(visit_stack).v@), mkeep(old(pn).deps.m(), final(pn).deps.m(), final(visit_stack).v@), agrow(old(krate_features).pending_weak.m(), old(pn).deps.m(), old(deps).m(), final(krate_features).pending_weak.m(), final(pn).deps.m(), final(deps).m())"
REFD = """proof {
        let p = krate_features.pending_weak.m(); let m = pn.deps.m(); let t = deps.m();
        match e {
            FeatS::Weak(n, y_) => { let y = choose|y: usize| is_fidx(nd(w, q), y_, y);
                if m0.contains_key(q) { weak_in(w, k, d, y, p0, m0, t0, m[q]); assert(m =~= m0.insert(q, m[q])); let st = visit_stack.v@; assert(itm(st[st.len() - 1]) == (q, Some(y))); assert(onst(st, (q, Some(y)))); } else { weak_pend(w, k, d, y, p0, m0, t0, p[q]); assert(p =~= p0.insert(q, p[q])); } }
            _ => { let y: Option<usize> = if e is Strong { Some(choose|y: usize| is_fidx(nd(w, q), e->Strong_1, y)) } else { None }; strong_in(w, k, d, y, p0, m0, t0, t[q]); assert(p =~= p0.remove(q)); assert(t =~= t0.insert(q, t[q])); }
        }
    }"""
AT_K = "wfw(w), w.nodes == nodes@, renames.wf(), renames.fun() == w.rn, pid.wf(), kkey(pid) == k, known(w, k), *rnode == nd(w, k)"
FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [FF[n] for n in ("DepKind::eq", "DepKind::from", "pkg_name_equals")] + features.UNITS[0].fns + [BF["Node::feature"], BF["get_rnode"],
    Fn("Node::feature_index", B, IN + "Node::feature_index", "fn feature_index(&self, $p0: &str) -> (r: usize) requires fsorted(*self), has_f(*self, $p0@), ensures is_fidx(*self, $p0@, r)", impl="impl Node",
       methods=[("binary_search_by", "*", "vx_bsearch"), ("cmp", "*", "vx_cmp")], closures={0: "|vxp0: &String| -> (o: Ordering) ensures o == lex(vxp0.b(), $p0.b())"}, at={"start": "proof { f_search(*self, $p0); }"}),
    Fn("VisitStack::push", B, IN + "VisitStack::push", "fn push(&mut self, $p0: &'s Kid) ensures final(self).v@ == old(self).v@.push(($p0, None))", impl="impl<'s> VisitStack<'s>"),
    Fn("VisitStack::push_with_feature", B, IN + "VisitStack::push_with_feature", "fn push_with_feature(&mut self, $p0: &'s Kid, $p1: usize) ensures final(self).v@ == old(self).v@.push(($p0, Some($p1)))", impl="impl<'s> VisitStack<'s>"),
    Fn("VisitStack::pop", B, IN + "VisitStack::pop", "fn pop(&mut self) -> (r: Option<(&'s Kid, Option<usize>)>) ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@, old(self).v@.len() > 0 ==> r == Some(old(self).v@.last()) && final(self).v@ == old(self).v@.drop_last()", impl="impl<'s> VisitStack<'s>"),
    Fn("Renames::resolve_feature", B, IN + "Renames::resolve_feature", """fn resolve_feature<'n>(&self, $p0: &str, $p1: &'n Node) -> (r: It<&'n NodeDep>)
    requires self.wf(), forall|i: int| 0 <= i < $p1.deps@.len() ==> (#[trigger] $p1.deps@[i]).pkg.wf(),
    ensures r.i() == 0, r.wf(), forall|j: int| 0 <= j < r.s().len() ==> is_dep_of(*$p1, self.fun(), $p0@, *#[trigger] r.s()[j]),
        forall|i: int| 0 <= i < $p1.deps@.len() && res(self.fun(), #[trigger] $p1.deps@[i], $p0@) ==> has_ref(r.s(), $p1.deps@[i])""", impl="impl<'p> Renames<'p>", eqs=True,
       methods=MV + [("filter", "*", "vx_filter"), ("binary_search_by", "*", "vx_bsearch"), ("cmp", "*", "vx_vcmp")], bind=["iter", "filter"],
       closures={0: "|vxp0: &&NodeDep| -> (r: bool) requires vxp0.pkg.wf(), ensures r == res(self.fun(), **vxp0, $p0@)", 1: "|vxp0: &Vec<(&'p Version, &'p str)>| -> (r: bool) requires vsorted(vxp0@), ensures r == ren(vxp0@, rdep.version, rdep.name@)", 2: "|vxp0: &(&'p Version, &'p str)| -> (o: Ordering) ensures o == vcmp(*vxp0.0, rdep.version)"},
       at={"start": "proof { enc_inj(); all_text(); all_search(); }", "b0": "proof { assert(vx_b0.vseq() == refs($p1.deps@)); }",
           "b1": """proof { let z = refs($p1.deps@); let o = choose|o: Seq<bool>| o.len() == z.len() && vx_b1.s() == #[trigger] kept(z, o) && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == res(self.fun(), *z[i], $p0@); kept_elem(z, o);
               assert forall|j: int| 0 <= j < vx_b1.s().len() implies is_dep_of(*$p1, self.fun(), $p0@, *#[trigger] vx_b1.s()[j]) by { let x = vx_b1.s()[j]; assert(marked(z, o, x)); let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] && z[i] == x; assert($p1.deps@[i] == *x); }
               assert forall|i: int| 0 <= i < $p1.deps@.len() && res(self.fun(), #[trigger] $p1.deps@[i], $p0@) implies has_ref(vx_b1.s(), $p1.deps@[i]) by { assert(*z[i] == $p1.deps@[i]); assert(o[i]); assert(vx_b1.s().contains(z[i])); let j = choose|j: int| 0 <= j < vx_b1.s().len() && #[trigger] vx_b1.s()[j] == z[i]; assert(*vx_b1.s()[j] == $p1.deps@[i]); } }""",
           }),
    Fn("visit_ref", B, BM, """fn visit_ref<'n>(nodes: &'n Vec<Node>, ndep: &'n NodeDep, pf: &ParsedFeature<'_>, feature: Option<&str>, """ + STATE + """, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(f): Ghost<usize>, Ghost(i): Ghost<int>, Ghost(d): Ghost<int>)
    requires wfw(w), w.nodes == nodes@, fP(w, D(w), k, f), isi(w, k, f, i), isd(w, k, d), *ndep == dep(w, k, d), kind_ok(pf.kind, pf.inner.b()), feat_of(pf.inner.b()) == fe(w, k, f, i),
        match fe(w, k, f, i) { FeatS::Simple(_) => false, FeatS::Dep(n) => resolves(w, *ndep, n) && feature is None, FeatS::Strong(n, t) => resolves(w, *ndep, n) && feature is Some && feature->0@ == t, FeatS::Weak(n, t) => resolves(w, *ndep, n) && feature is Some && feature->0@ == t },
        """ + SA0 + """,
    ensures """ + SA1 + ", " + GROW + ", ae_d(w, k, d, fe(w, k, f, i), final(krate_features).pending_weak.m(), final(pn).deps.m(), final(deps).m()), " + KEEPF, select=WL + ";loop:#1", methods=MV, subst=ENT + [GETN, (r"\bcontinue;", "vx_at!(done); return;")], ret=REFD,
       closures={0: "|| -> (r: (&'n NodeDep, Option<SetX<usize>>)) ensures r.0 == ndep, r.1 is Some && r.1->0@ == Set::<usize>::empty()", 1: "|| -> (r: (&'n NodeDep, Option<SetX<usize>>)) ensures r.0 == ndep, r.1 is Some && r.1->0@ == Set::<usize>::empty()"},
       at={"start": """hide(wfw); hide(namedP); hide(strongN); hide(weakP); hide(isi); hide(sA); hide(res);
           let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost t0 = deps.m(); let ghost st0 = visit_stack.v@; let ghost q = tgt(w, k, d); let ghost e = fe(w, k, f, i);
           proof { ref_facts(w, k, f, i, d); todo_at(w, k, d, p0, m0, t0); assert forall|r: Feature<'_>| #[trigger] classified(r, pf.inner.b()) implies fview(r) == e by { feat_is(r, pf.inner.b()); } }""", "done": REFD}),
    Fn("visit_entry", B, BM, """fn visit_entry<'n, 'p>(nodes: &'n Vec<Node>, renames: &Renames<'p>, pid: &'n Kid, rnode: &'n Node, sf: &String, """ + STATE + """, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(f): Ghost<usize>, Ghost(i): Ghost<int>)
    requires """ + AT_K + """, fP(w, D(w), k, f), isi(w, k, f, i), sf.b() == ent(w, k, f)[i].b(), """ + SA0 + """,
    ensures """ + SA1 + ", " + GROW + ", ae(w, k, fe(w, k, f, i), final(krate_features).pending_weak.m(), final(pn).deps.m(), final(deps).m(), final(visit_stack).v@), " + KEEPF,
       select=WL + ";loop:#0", subst=[(r"\bcontinue;", "vx_at!(done); return;")], cuts=[("loop:#0", "visit_ref(nodes, ndep, &pf, feature, krate_features, pn, deps, visit_stack, Ghost(w), Ghost(k), Ghost(f), Ghost(i), Ghost(d))")],
       at={"start": """hide(wfw); hide(sA); hide(res); hide(names_e); hide(strong_e); hide(weak_e); hide(agrow); hide(mkeep); hide(stx); hide(fP); hide(ae_d);
           let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost t0 = deps.m(); let ghost st0 = visit_stack.v@; let ghost e = fe(w, k, f, i); let ghost kf0 = *krate_features; let ghost pn0 = *pn;
           proof { deps_wf(w, k); assert forall|r: Feature<'_>| #[trigger] classified(r, sf.b()) implies fview(r) == e by { feat_is(r, sf.b()); } if e is Simple { simple_facts(w, k, f, i, e->Simple_0); } grow_refl(w, p0, m0, t0, st0); }""",
           "done": """proof { let st = visit_stack.v@; assert(e is Simple); reveal(stx); reveal(mkeep); assert forall|d: int| #[trigger] isd(w, k, d) implies ae_d(w, k, d, e, p0, m0, t0) by { ae_none(w, k, d, e, p0, m0, t0); }
               assert(itm(st[st.len() - 1]).0 == k); assert forall|y: usize| #[trigger] simple_e(w, k, e, y) implies onst(st, (k, Some(y))) by { assert(is_fidx(nd(w, k), e->Simple_0, y)); assert(itm(st[st.len() - 1]) == (k, Some(y))); } }""",
           "l0_before": "let ghost rs = vx_s0; proof { assert(match e { FeatS::Simple(_) => false, FeatS::Dep(n) => krate_name@ == n && feature is None, FeatS::Strong(n, t) => krate_name@ == n && feature is Some && feature->0@ == t, FeatS::Weak(n, t) => krate_name@ == n && feature is Some && feature->0@ == t }); }",
           "l0_after": """ proof { assert forall|d: int| #[trigger] isd(w, k, d) implies ae_d(w, k, d, e, krate_features.pending_weak.m(), pn.deps.m(), deps.m()) by {
            if res(w.rn, dep(w, k, d), krate_name@) { let j = choose|j: int| 0 <= j < rs.len() && *#[trigger] rs[j] == dep(w, k, d); assert(*rs[j] == dep(w, k, d)); } else { ae_none(w, k, d, e, krate_features.pending_weak.m(), pn.deps.m(), deps.m()); } } }""",
           "l0_start": """let ghost p1 = krate_features.pending_weak.m(); let ghost m1 = pn.deps.m(); let ghost t1 = deps.m(); let ghost st1 = visit_stack.v@; let ghost jj = vx_it0.i() - 1;
               proof { assert(is_dep_of(*rnode, w.rn, krate_name@, *rs[jj])); }
               let ghost d = choose|d: int| 0 <= d < rnode.deps@.len() && #[trigger] rnode.deps@[d] == *rs[jj] && res(w.rn, *rs[jj], krate_name@);
               proof { assert(isd(w, k, d)); assert(*ndep == dep(w, k, d)); }""",
           "l0_end": """proof { let p = krate_features.pending_weak.m(); let m = pn.deps.m(); let t = deps.m(); let st = visit_stack.v@;
               grow_trans(w, p0, m0, t0, st0, p1, m1, t1, st1, p, m, t, st);
               assert forall|j: int, c: int| #![trigger rs[j], isd(w, k, c)] 0 <= j < vx_it0.i() && isd(w, k, c) && *rs[j] == dep(w, k, c) implies ae_d(w, k, c, e, p, m, t) by {
                   if j < jj { aed_mono(w, k, c, e, p1, m1, t1, p, m, t); } else { same_dep(w, k, c, d); } } }"""},
       loops={0: forinv(0, "rs", """match e { FeatS::Simple(_) => false, FeatS::Dep(n) => krate_name@ == n && feature is None, FeatS::Strong(n, t) => krate_name@ == n && feature is Some && feature->0@ == t, FeatS::Weak(n, t) => krate_name@ == n && feature is Some && feature->0@ == t }, sA(w, k, krate_features.pending_weak.m(), pn.deps.m(), deps.m()), stx(w, st0, visit_stack.v@), mkeep(m0, pn.deps.m(), visit_stack.v@), agrow(p0, m0, t0, krate_features.pending_weak.m(), pn.deps.m(), deps.m()),
           krate_features.actual == kf0.actual, krate_features.graph == kf0.graph, krate_features.filled_non_optional == kf0.filled_non_optional, pn.is_root == pn0.is_root,
           forall|j: int| 0 <= j < rs.len() ==> is_dep_of(*rnode, w.rn, krate_name@, *#[trigger] rs[j]),
           forall|j: int, c: int| #![trigger rs[j], isd(w, k, c)] 0 <= j < vx_it0.i() && isd(w, k, c) && *rs[j] == dep(w, k, c) ==> ae_d(w, k, c, e, krate_features.pending_weak.m(), pn.deps.m(), deps.m())""")}),
    Fn("visit_entries", B, BM, """fn visit_entries<'n, 'p>(nodes: &'n Vec<Node>, renames: &Renames<'p>, pid: &'n Kid, rnode: &'n Node, fs: &Vec<String>, """ + STATE + """, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(f): Ghost<usize>)
    requires """ + AT_K + """, fP(w, D(w), k, f), fs@ == ent(w, k, f), """ + SA0 + """,
    ensures """ + SA1 + ", " + GROW + ", forall|i: int| #[trigger] isi(w, k, f, i) ==> ae(w, k, fe(w, k, f, i), final(krate_features).pending_weak.m(), final(pn).deps.m(), final(deps).m(), final(visit_stack).v@), " + KEEPF,
       select=WL + ";wloop:#0", methods=MV, cuts=[("loop:#0", "visit_entry(nodes, renames, pid, rnode, sf, krate_features, pn, deps, visit_stack, Ghost(w), Ghost(k), Ghost(f), Ghost(vx_it0.i() - 1))")],
       at={"start": """hide(wfw); hide(sA); hide(agrow); hide(mkeep); hide(stx); hide(fP); hide(ae);
           let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost t0 = deps.m(); let ghost st0 = visit_stack.v@; let ghost kf0 = *krate_features; let ghost pn0 = *pn;
           proof { grow_refl(w, p0, m0, t0, st0); }""",
           "l0_start": "let ghost p1 = krate_features.pending_weak.m(); let ghost m1 = pn.deps.m(); let ghost t1 = deps.m(); let ghost st1 = visit_stack.v@; let ghost jj = vx_it0.i() - 1; proof { assert(*sf == fs@[jj]); assert(isi(w, k, f, jj)) by { reveal(fP); } }",
           "l0_end": """proof { let p = krate_features.pending_weak.m(); let m = pn.deps.m(); let t = deps.m(); let st = visit_stack.v@;
               grow_trans(w, p0, m0, t0, st0, p1, m1, t1, st1, p, m, t, st);
               assert forall|i: int| #[trigger] isi(w, k, f, i) && i < vx_it0.i() implies ae(w, k, fe(w, k, f, i), p, m, t, st) by { if i < jj { ae_mono(w, k, fe(w, k, f, i), p1, m1, t1, st1, p, m, t, st); } } }"""},
       loops={0: forinv(0, "refs(fs@)", """sA(w, k, krate_features.pending_weak.m(), pn.deps.m(), deps.m()), stx(w, st0, visit_stack.v@), mkeep(m0, pn.deps.m(), visit_stack.v@), agrow(p0, m0, t0, krate_features.pending_weak.m(), pn.deps.m(), deps.m()),
           krate_features.actual == kf0.actual, krate_features.graph == kf0.graph, krate_features.filled_non_optional == kf0.filled_non_optional, pn.is_root == pn0.is_root,
           forall|i: int| #[trigger] isi(w, k, f, i) && i < vx_it0.i() ==> ae(w, k, fe(w, k, f, i), krate_features.pending_weak.m(), pn.deps.m(), deps.m(), visit_stack.v@)""")}),
] + [
    Fn(f"flush{n}", B, BM, f"""fn flush{n}<'n>({vd}: &'n Kid, {src}: SetX<usize>, dep: &mut KrateDependency, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(q): Ghost<KKey>)
    requires {vd}.wf(), kkey({vd}) == q, known(w, q), forall|y: usize| #[trigger] {src}@.contains(y) ==> D(w)((q, Some(y))) && y < nd(w, q).features@.len(),
    ensures final(dep).edges == old(dep).edges, final(dep).features@ == old(dep).features@.union({src}@), stx(w, old(visit_stack).v@, final(visit_stack).v@), forall|y: usize| #[trigger] {src}@.contains(y) ==> onst(final(visit_stack).v@, (q, Some(y))), forall|it: Item| #[trigger] onst(old(visit_stack).v@, it) ==> onst(final(visit_stack).v@, it)""",
       select=WL + f";loop:#3;wloop:#{n}", at={"start": f"let ghost st0 = visit_stack.v@; let ghost ft0 = dep.features@; let ghost e0 = dep.edges; proof {{ {src}.axiom_listed(); }}", "l0_start": "let ghost st1 = visit_stack.v@;",
           "l0_end": "proof { stx_push(w, st0, st1, (%s, Some(feat))); assert(visit_stack.v@ == st1.push((%s, Some(feat)))); }" % (vd, vd), "l0_after": f"proof {{ assert(dep.features@ =~= ft0.union({src}@)); }}"},
       loops={0: forinv(0, None, f"vx_s0 == {src}.listing(), dep.edges == e0, stx(w, st0, visit_stack.v@), forall|i: int| 0 <= i < vx_it0.i() ==> dep.features@.contains(#[trigger] vx_s0[i]), forall|y: usize| #[trigger] dep.features@.contains(y) ==> ft0.contains(y) || {src}@.contains(y), forall|y: usize| #[trigger] ft0.contains(y) ==> dep.features@.contains(y), forall|i: int| 0 <= i < vx_it0.i() ==> onst(visit_stack.v@, (q, Some(#[trigger] vx_s0[i]))), forall|it: Item| #[trigger] onst(st0, it) ==> onst(visit_stack.v@, it)")})
    for n, vd, src in ((0, "vd", "kf"), (1, "pkg", "features"), (2, "vd", "kf"))] + [
    Fn("link_feats", B, BM, """fn link_feats<'n>(edge: &Edge<'_>, rdep_node: &'n Node, pkg: &'n Kid, features: &mut Vec<usize>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(q): Ghost<KKey>)
    requires pkg.wf(), kkey(pkg) == q, known(w, q), *rdep_node == nd(w, q), fsorted(*rdep_node), old(features)@.len() == 0, forall|t: Seq<char>| #[trigger] asked(*edge, t) ==> has_f(*rdep_node, t), forall|t: Seq<char>, y: usize| #[trigger] asked(*edge, t) && #[trigger] is_fidx(*rdep_node, t, y) ==> D(w)((q, Some(y))),
    ensures stx(w, old(visit_stack).v@, final(visit_stack).v@), forall|y: usize| #[trigger] final(features)@.contains(y) ==> onst(final(visit_stack).v@, (q, Some(y))), forall|it: Item| #[trigger] onst(old(visit_stack).v@, it) ==> onst(final(visit_stack).v@, it),
        forall|y: usize| #[trigger] final(features)@.contains(y) ==> exists|t: Seq<char>| #[trigger] asked(*edge, t) && is_fidx(*rdep_node, t, y), forall|t: Seq<char>, y: usize| #[trigger] asked(*edge, t) && #[trigger] is_fidx(*rdep_node, t, y) ==> final(features)@.contains(y)""",
       select=WL + ";loop:#3;wloop:#3", methods=MV + [("map", "*", "vx_map"), ("chain", "*", "vx_chain"), ("then_some", "*", "vx_then_some")], closures={0: "|vxp0: &String| -> (r: &str) ensures r@ == vxp0@"},
       at={"start": "let ghost st0 = visit_stack.v@; let ghost es = edge.features@;",
           "l0_before": """proof { let n = es.len(); assert forall|i: int| 0 <= i < n implies (#[trigger] vx_s0[i])@ == es[i]@ by { assert(refs(es)[i]@ == es[i]@); }
               assert forall|j: int| 0 <= j < vx_s0.len() implies asked(*edge, (#[trigger] vx_s0[j])@) by { if j < n { assert(es[j]@ == vx_s0[j]@); } }
               assert forall|t: Seq<char>| #[trigger] asked(*edge, t) implies listedt(vx_s0, t) by { if is_text(es, t) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i])@ == t; assert(vx_s0[i]@ == t); } else { assert(vx_s0[n as int]@ == t); } } }""",
           "l0_start": "let ghost st1 = visit_stack.v@; let ghost f1 = features@; proof { assert(asked(*edge, feat@)); }",
           "l0_end": """proof { stx_push(w, st0, st1, (pkg, Some(feat_index))); assert(visit_stack.v@ == st1.push((pkg, Some(feat_index)))); assert(features@ == f1.push(feat_index)); assert(features@[f1.len() as int] == feat_index);
               assert forall|y: usize| #[trigger] features@.contains(y) implies f1.contains(y) || y == feat_index by { let j = choose|j: int| 0 <= j < features@.len() && features@[j] == y; if j < f1.len() { assert(f1[j] == y); } }
               assert forall|y: usize| #[trigger] f1.contains(y) implies features@.contains(y) by { let j = choose|j: int| 0 <= j < f1.len() && f1[j] == y; assert(features@[j] == y); }
               assert forall|j: int, y: usize| 0 <= j < vx_it0.i() && #[trigger] is_fidx(*rdep_node, vx_s0[j]@, y) implies features@.contains(y) by { if j == vx_it0.i() - 1 { fidx_unique(*rdep_node, feat@, y, feat_index); } } }""",
           "l0_after": "proof { assert forall|t: Seq<char>, y: usize| #[trigger] asked(*edge, t) && #[trigger] is_fidx(*rdep_node, t, y) implies features@.contains(y) by { assert(listedt(vx_s0, t)); let j = choose|j: int| 0 <= j < vx_s0.len() && (#[trigger] vx_s0[j])@ == t; assert(is_fidx(*rdep_node, vx_s0[j]@, y)); } }"},
       loops={0: forinv(0, None, """es == edge.features@, forall|j: int| 0 <= j < vx_s0.len() ==> asked(*edge, (#[trigger] vx_s0[j])@), forall|t: Seq<char>| #[trigger] asked(*edge, t) ==> listedt(vx_s0, t), stx(w, st0, visit_stack.v@), forall|it: Item| #[trigger] onst(st0, it) ==> onst(visit_stack.v@, it),
           forall|y: usize| #[trigger] features@.contains(y) ==> onst(visit_stack.v@, (q, Some(y))) && exists|t: Seq<char>| #[trigger] asked(*edge, t) && is_fidx(*rdep_node, t, y),
           forall|j: int, y: usize| 0 <= j < vx_it0.i() && #[trigger] is_fidx(*rdep_node, vx_s0[j]@, y) ==> features@.contains(y)""")}),
]
TAKE = """let ghost b1 = LS { p: krate_features.pending_weak.m(), st: visit_stack.v@, es: dep.edges@, ft: dep.features@, fs: FS, vd: false };
           proof { if FROM.vd { let s1 = FROM.st.push(((*old(visit_dep))->0, None)); stx_refl(w, s1); stx_trans(w, FROM.st, s1, b1.st); assert(b1.ft =~= FROM.ft.union(pf_(FROM.p, q))); assert(b1.p =~= FROM.p.remove(q)); J_take(w, k, d, s, a, FROM, b1); } else { assert(b1 == FROM); } }"""
FNS += [
    Fn("add_edge", B, BM, """fn add_edge<'n>(edge: Edge<'_>, rdep_node: &'n Node, pkg: &'n Kid, features: &mut Option<SetX<usize>>, visit_dep: &mut Option<&'n Kid>, dep: &mut KrateDependency, krate_features: &mut KrateFeatures<'n>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(d): Ghost<int>, Ghost(l): Ghost<int>, Ghost(s): Ghost<bool>, Ghost(a): Ghost<LS<'n>>)
    requires wfw(w), pkg.wf(), kkey(pkg) == tgt(w, k, d), linkP(w, D(w), k, d, l, s), *rdep_node == nd(w, tgt(w, k, d)), ematch(w, k, edge, lk(w, k, d, l, s)->0), (*old(visit_dep)) is Some ==> (*old(visit_dep))->0.wf() && kkey((*old(visit_dep))->0) == tgt(w, k, d),
        J(w, k, d, s, a, ls(*old(krate_features), *old(visit_stack), *old(dep), *old(features), *old(visit_dep))),
    ensures J(w, k, d, s, a, ls(*final(krate_features), *final(visit_stack), *final(dep), *final(features), *final(visit_dep))), *final(features) is None, has_edge(final(dep).edges@, lk(w, k, d, l, s)->0), pre_(old(dep).edges@, final(dep).edges@), (*final(visit_dep)) is Some ==> *final(visit_dep) == *old(visit_dep),
        final(krate_features).actual == old(krate_features).actual, final(krate_features).graph == old(krate_features).graph, final(krate_features).filled_non_optional == old(krate_features).filled_non_optional""",
       select=WL + ";loop:#3", eqs=True, methods=MV + [("map", "*", "vx_map"), ("take", "0", "fn:vx_take"), ("into", "0", "vx_own")], bind=["iter", "any"],
       cuts=[("wloop:#0", "flush0(vd, kf, dep, visit_stack, Ghost(w), Ghost(q))"), ("wloop:#0", "flush1(pkg, features, dep, visit_stack, Ghost(w), Ghost(q))"), ("wloop:#0", "flush2(vd, kf, dep, visit_stack, Ghost(w), Ghost(q))"), ("wloop:#0", "link_feats(&edge, rdep_node, pkg, &mut features, visit_stack, Ghost(w), Ghost(q))")],
       subst=[(r"flush1\(((?:[^()]|\([^()]*\))*)\)", r"vx_at!(m1); flush1(\1); vx_at!(m1b);"), (r"\bif (vx_any|dep|\{)", r"vx_at!(m2); if \1"), (r"\bcontinue;", "vx_at!(dup); return;"), (r"let mut features\b", "vx_at!(m3); let mut features")],
       closures={0: "|vxp0: &DependencyEdge| -> (r: bool) ensures r == ekc(*vxp0, edge)", 1: "|vxp0: &str| -> (r: String) ensures r@ == vxp0@"},
       at={"start": """hide(wfw); hide(allf); hide(Jf); hide(Je); hide(stx); hide(linkP); hide(J);
           let ghost q = tgt(w, k, d); let ghost x = lk(w, k, d, l, s)->0; let ghost g0 = edge; let ghost b0 = ls(*krate_features, *visit_stack, *dep, *features, *visit_dep);
           proof { link_D(w, k, d, l, s); reveal(J); if b0.vd { feats_D(w, k, d, pf_(b0.p, q)); } if b0.fs is Some { feats_D(w, k, d, b0.fs->0); } stx_refl(w, b0.st); if b0.vd { stx_push(w, b0.st, b0.st, ((*visit_dep)->0, None)); } else { J_vd(w, k, d, s, a, b0); } lemma_ft(b0.ft); asked_is(w, k, d, l, s, edge); }""",
           "m1": TAKE.replace("FROM", "b0").replace("FS", "Some(features@)"),
           "m1b": "proof { let c = LS { p: b1.p, st: visit_stack.v@, es: dep.edges@, ft: dep.features@, fs: None, vd: false }; J_feats(w, k, d, s, a, b1, c); }",
           "m2": "let ghost b2 = LS { p: krate_features.pending_weak.m(), st: visit_stack.v@, es: dep.edges@, ft: dep.features@, fs: None, vd: (*visit_dep) is Some }; proof { assert(J(w, k, d, s, a, b2)); stx_refl(w, b2.st); if b2.vd { assert(b2 == b0); } }",
           "b0": "proof { assert(vx_b0.vseq() == refs(dep.edges@)); }",
           "b1": """proof { let z = refs(dep.edges@); if vx_b1 { let i = choose|i: int| 0 <= i < z.len() && ekc(*#[trigger] z[i], edge); assert(ekc(dep.edges@[i], edge)); }
               else { assert forall|i: int| 0 <= i < dep.edges@.len() implies !same_kc(#[trigger] dep.edges@[i], x) by { assert(!ekc(*z[i], edge)); } } }""",
           "dup": "proof { let i = choose|i: int| 0 <= i < dep.edges@.len() && ekc(#[trigger] dep.edges@[i], edge); assert(same_kc(dep.edges@[i], x)); }",
           "m3": TAKE.replace("FROM", "b2").replace("FS", "None")}, ret="""proof { let e = dep.edges@.last(); let c = LS { p: krate_features.pending_weak.m(), st: visit_stack.v@, es: dep.edges@, ft: dep.features@, fs: None, vd: false };
               assert(c.es == b1.es.push(e)); assert forall|y: usize| #[trigger] e.features@.contains(y) <==> lfeat(w, k, d, x, y) by { if lfeat(w, k, d, x, y) { assert(asked_for(g0, nd(w, q), y)); } }
               J_edge(w, k, d, s, a, b1, c, l, e); }"""),
]
SPEC += r"""
pub open spec fn vdx(w: W, k: KKey, d: int, s: bool, a: LS<'_>, p: Pend, st: St<'_>, es: Seq<DependencyEdge>, ft: Set<usize>) -> bool { choose|vd: bool| #[trigger] J(w, k, d, s, a, LS { p, st, es, ft, fs: None, vd }) }
pub open spec fn has_ekc(es: Seq<DependencyEdge>, g: Edge<'_>) -> bool { exists|i: int| 0 <= i < es.len() && ekc(#[trigger] es[i], g) }
pub open spec fn all_in(gs: Seq<Edge<'_>>, es: Seq<DependencyEdge>) -> bool { forall|j: int| 0 <= j < gs.len() ==> has_ekc(es, #[trigger] gs[j]) }
pub open spec fn rec_links(w: W, k: KKey, d: int, s: bool, es: Seq<DependencyEdge>) -> bool { forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some ==> has_edge(es, lk(w, k, d, l, s)->0) }
pub open spec fn kept_link(w: W, k: KKey, d: int, s: bool, g: Edge<'_>) -> bool { exists|l: int| #[trigger] linkP(w, D(w), k, d, l, s) && ematch(w, k, g, lk(w, k, d, l, s)->0) }
pub trait PeekX<T>: VxInto<T = T> { fn vx_peekable(self) -> (r: It<T>) ensures r.i() == 0, r.wf(), r.s() == self.vseq(); }
impl<T, I: VxInto<T = T>> PeekX<T> for I { #[verifier::external_body] fn vx_peekable(self) -> (r: It<T>) { unimplemented!() } }
impl<T> It<T> { #[verifier::external_body] pub fn vx_peek(&mut self) -> (r: Option<&T>) requires old(self).wf(), ensures final(self).s() == old(self).s(), final(self).i() == old(self).i(), r is None <==> old(self).i() == old(self).s().len() { unimplemented!() } }
pub open spec fn is_dk(w: W, k: KKey, d: int, x: DepKindInfo) -> bool { exists|l: int| #[trigger] isl(w, k, d, l) && dep(w, k, d).dep_kinds@[l] == x }
pub open spec fn kept_as(w: W, k: KKey, d: int, x: DepKindInfo, s: bool, r: Option<Edge<'_>>) -> bool { (r is Some <==> lkv(w, k, d, x, s) is Some) && (r is Some ==> ematch(w, k, r->0, lkv(w, k, d, x, s)->0)) }
pub open spec fn hasef(m: Deps, q: KKey, y: usize) -> bool { m.contains_key(q) && exists|j: int| 0 <= j < m[q].edges@.len() && #[trigger] m[q].edges@[j].features@.contains(y) }
/// what adding links leaves in place, and what of it is new is on the stack
pub open spec fn kgrow(m0: Deps, m: Deps) -> bool { forall|q: KKey| #[trigger] m0.contains_key(q) ==> m.contains_key(q) && pre_(m0[q].edges@, m[q].edges@) && m0[q].features@.subset_of(m[q].features@) }
pub open spec fn pgrow(p0: Pend, p: Pend, m: Deps) -> bool { forall|q: KKey, y: usize| #[trigger] inp(p0, q, y) ==> inp(p, q, y) || hasf(m, q, y) }
pub open spec fn newst(m0: Deps, m: Deps, st: St<'_>) -> bool {
    &&& forall|q: KKey| #[trigger] m.contains_key(q) ==> m0.contains_key(q) || onst(st, (q, None))
    &&& forall|q: KKey, y: usize| #[trigger] hasf(m, q, y) ==> hasf(m0, q, y) || onst(st, (q, Some(y)))
    &&& forall|q: KKey, y: usize| #[trigger] hasef(m, q, y) ==> hasef(m0, q, y) || onst(st, (q, Some(y)))
}
pub open spec fn lgrow(w: W, p0: Pend, m0: Deps, st0: St<'_>, p: Pend, m: Deps, st: St<'_>) -> bool { stx(w, st0, st) && kgrow(m0, m) && pgrow(p0, p, m) && newst(m0, m, st) }
/// every link of the dependency that is kept is recorded, with the features it was switched on with
pub open spec fn hasE(m: Deps, q: KKey, x: Link) -> bool { m.contains_key(q) && has_edge(m[q].edges@, x) }
pub open spec fn recorded(w: W, k: KKey, d: int, s: bool, fs: Option<Set<usize>>, m: Deps) -> bool {
    &&& forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some ==> hasE(m, tgt(w, k, d), lk(w, k, d, l, s)->0)
    &&& fs is Some && canlink(w, k, d) ==> forall|y: usize| #[trigger] fs->0.contains(y) ==> hasf(m, tgt(w, k, d), y)
}
/// what the walk goes by, as the code has it
pub open spec fn cfgd(w: W, k: KKey, in_ws_: bool, ig: u32, op: bool, all: bool, ts: Seq<TargetFilter>) -> bool { in_ws_ == in_ws(w, k) && ig == w.ignore && op == w.opaque && all == w.all && ts == w.ts }
"""
LEM += r"""
// ---- the links of one dependency
proof fn ekc_is(w: W, k: KKey, es: Seq<DependencyEdge>, g: Edge<'_>, x: Link) requires ematch(w, k, g, x) ensures has_ekc(es, g) <==> has_edge(es, x)
{
    if has_ekc(es, g) { let i = choose|i: int| 0 <= i < es.len() && ekc(#[trigger] es[i], g); assert(same_kc(es[i], x)); }
    if has_edge(es, x) { let i = choose|i: int| 0 <= i < es.len() && same_kc(#[trigger] es[i], x); assert(ekc(es[i], g)); }
}
proof fn ekc_mono(a: Seq<DependencyEdge>, b: Seq<DependencyEdge>, g: Edge<'_>) requires has_ekc(a, g), pre_(a, b) ensures has_ekc(b, g) { let i = choose|i: int| 0 <= i < a.len() && ekc(#[trigger] a[i], g); assert(ekc(b[i], g)); }
proof fn decl_first(ds: Seq<cm::Dependency>, r: NodeDep, x: DepKindInfo, o: bool, j: int) -> (i: int) requires stands(ds, r, x, o, j) ensures first_stands(ds, r, x, o, i) decreases j
{ if exists|i: int| 0 <= i < j && #[trigger] stands(ds, r, x, o, i) { let i = choose|i: int| 0 <= i < j && #[trigger] stands(ds, r, x, o, i); decl_first(ds, r, x, o, i) } else { j } }
proof fn keep_facts(w: W, k: KKey, d: int)
    requires wfw(w), isd(w, k, d),
    ensures dep(w, k, d).pkg.wf(), srcs_ok(dep(w, k, d).pkg.part(2)), known(w, tgt(w, k, d)), nodes_ok(w.nodes), has_node(w.nodes, tgt(w, k, d)), forall|j: int| is_node(w.nodes, tgt(w, k, d), j) ==> j == ix(w, tgt(w, k, d)),
        forall|x: DepKindInfo| #[trigger] is_dk(w, k, d, x) ==> first_stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, decl_of(w, k, d, x)),
        forall|l: int| #[trigger] isl(w, k, d, l) ==> is_dk(w, k, d, dep(w, k, d).dep_kinds@[l]),
{
    one_node(w, tgt(w, k, d));
    assert forall|x: DepKindInfo| #[trigger] is_dk(w, k, d, x) implies first_stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, decl_of(w, k, d, x)) by {
        let l = choose|l: int| #[trigger] isl(w, k, d, l) && dep(w, k, d).dep_kinds@[l] == x; assert(link_ok(w, k, d, l));
        let j = choose|j: int| #[trigger] stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, j);
        let i = decl_first(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, j);
        assert(first_stands(pk(w, k).dependencies@, dep(w, k, d), x, w.opaque, i));
    }
}
proof fn kept_ok(w: W, k: KKey, d: int, s: bool, o: Seq<Option<Edge<'_>>>)
    requires isd(w, k, d), o.len() == dep(w, k, d).dep_kinds@.len(), forall|i: int| 0 <= i < o.len() ==> kept_as(w, k, d, dep(w, k, d).dep_kinds@[i], s, #[trigger] o[i]), !excl(w, k), if s { namedP(w, D(w), k, d) } else { D(w)((k, None)) },
    ensures forall|j: int| 0 <= j < flat(o).len() ==> kept_link(w, k, d, s, #[trigger] flat(o)[j]), flat(o).len() == 0 <==> forall|l: int| #[trigger] isl(w, k, d, l) ==> lk(w, k, d, l, s) is None,
        forall|es: Seq<DependencyEdge>| #[trigger] all_in(flat(o), es) ==> rec_links(w, k, d, s, es),
{
    flat_elem(o);
    assert forall|j: int| 0 <= j < flat(o).len() implies kept_link(w, k, d, s, #[trigger] flat(o)[j]) by { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]); assert(isl(w, k, d, i)); assert(linkP(w, D(w), k, d, i, s)); }
    if flat(o).len() > 0 { let e = flat(o)[0]; let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(e); assert(isl(w, k, d, i)); }
    assert forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some implies flat(o).len() > 0 by { assert(o[l] is Some); }
    assert forall|es: Seq<DependencyEdge>| #[trigger] all_in(flat(o), es) implies rec_links(w, k, d, s, es) by {
        assert forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some implies has_edge(es, lk(w, k, d, l, s)->0) by { assert(o[l] is Some); let j = choose|j: int| 0 <= j < flat(o).len() && #[trigger] flat(o)[j] == o[l]->0; assert(has_ekc(es, flat(o)[j])); ekc_is(w, k, es, o[l]->0, lk(w, k, d, l, s)->0); }
    }
}
proof fn lgrow_refl(w: W, p: Pend, m: Deps, st: St<'_>) ensures lgrow(w, p, m, st, p, m, st) { }
proof fn none_rec(w: W, k: KKey, d: int, s: bool, fs: Option<Set<usize>>, m: Deps)
    requires forall|l: int| #[trigger] isl(w, k, d, l) ==> lk(w, k, d, l, s) is None, fs is Some ==> s,
    ensures recorded(w, k, d, s, fs, m),
{ }
proof fn J_start(w: W, k: KKey, d: int, s: bool, p0: Pend, m0: Deps, a: LS<'_>)
    requires wfw(w), isd(w, k, d), sdeps(w, k, m0), spend(w, k, p0, m0), a.p == p0, a.vd, (a.fs is Some) == s, s ==> allf(w, k, d, a.fs->0),
        a.es =~= es0(m0, tgt(w, k, d)), a.ft =~= ft0(m0, tgt(w, k, d)),
    ensures J(w, k, d, s, a, a),
{
    let q = tgt(w, k, d); dix_is(w, k, d); stx_refl(w, a.st);
    if m0.contains_key(q) { assert(dep_ok(w, k, d, m0[q])); }
    assert(allf(w, k, d, pf_(p0, q))) by { assert forall|y: usize| #[trigger] pf_(p0, q).contains(y) implies featM(w, k, d, y) by { assert(p0.contains_key(q)); assert(p0[q]@.contains(y)); assert(weakP(w, D(w), k, d, y)); } }
    assert(allf(w, k, d, a.ft)) by { assert forall|y: usize| #[trigger] a.ft.contains(y) implies featM(w, k, d, y) by { assert(m0.contains_key(q)); assert(m0[q].features@.contains(y)); } }
    assert(edges_ok(w, k, d, a.es));
}
pub open spec fn es0(m0: Deps, q: KKey) -> Seq<DependencyEdge> { if m0.contains_key(q) { m0[q].edges@ } else { Seq::empty() } }
pub open spec fn ft0(m0: Deps, q: KKey) -> Set<usize> { if m0.contains_key(q) { m0[q].features@ } else { Set::empty() } }
proof fn rec_done(w: W, k: KKey, d: int, s: bool, fs: Option<Set<usize>>, m: Deps)
    requires isd(w, k, d), m.contains_key(tgt(w, k, d)), rec_links(w, k, d, s, m[tgt(w, k, d)].edges@), fs is Some ==> forall|y: usize| #[trigger] fs->0.contains(y) ==> hasf(m, tgt(w, k, d), y),
    ensures recorded(w, k, d, s, fs, m),
{ assert forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some implies hasE(m, tgt(w, k, d), lk(w, k, d, l, s)->0) by { } }
/// from the links' state to the crate's
proof fn J_done(w: W, k: KKey, d: int, s: bool, a: LS<'_>, b: LS<'_>, p0: Pend, m0: Deps, m: Deps)
    requires wfw(w), isd(w, k, d), J(w, k, d, s, a, b), b.fs is None, b.es.len() > 0, a.p == p0, sdeps(w, k, m0), spend(w, k, p0, m0),
        a.es =~= es0(m0, tgt(w, k, d)), a.ft =~= ft0(m0, tgt(w, k, d)),
        m.contains_key(tgt(w, k, d)), m == m0.insert(tgt(w, k, d), m[tgt(w, k, d)]), m[tgt(w, k, d)].edges@ == b.es, m[tgt(w, k, d)].features@ == b.ft,
    ensures sdeps(w, k, m), spend(w, k, b.p, m), lgrow(w, p0, m0, a.st, b.p, m, b.st), a.fs is Some ==> forall|y: usize| #[trigger] a.fs->0.contains(y) ==> hasf(m, tgt(w, k, d), y),
{
    let q = tgt(w, k, d);
    dix_is(w, k, d);
    if b.vd { assert(a.es.len() > 0); assert(m0.contains_key(q)); }
    if m0.contains_key(q) { assert(!p0.contains_key(q)); }
    assert(!b.p.contains_key(q));
    assert forall|q2: KKey| #[trigger] m.contains_key(q2) implies isdq(w, k, q2) && dep_ok(w, k, dix(w, k, q2), m[q2]) by { if q2 != q { assert(m0.contains_key(q2)); assert(m[q2] == m0[q2]); } else { assert forall|y: usize| #[trigger] m[q].features@.contains(y) implies featM(w, k, d, y) by { assert(b.ft.contains(y)); } } }
    assert forall|q2: KKey| #[trigger] b.p.contains_key(q2) implies !m.contains_key(q2) && isdq(w, k, q2) && forall|y: usize| #[trigger] b.p[q2]@.contains(y) ==> weakP(w, D(w), k, dix(w, k, q2), y) by { assert(p0.contains_key(q2)); assert(q2 != q); }
    assert forall|q2: KKey, y: usize| #[trigger] inp(p0, q2, y) implies inp(b.p, q2, y) || hasf(m, q2, y) by { if q2 == q { assert(pf_(a.p, q).contains(y)); } }
    assert forall|q2: KKey, y: usize| #[trigger] hasf(m, q2, y) implies hasf(m0, q2, y) || onst(b.st, (q2, Some(y))) by { if q2 == q { assert(b.ft.contains(y)); } }
    assert forall|q2: KKey, y: usize| #[trigger] hasef(m, q2, y) implies hasef(m0, q2, y) || onst(b.st, (q2, Some(y))) by {
        if q2 != q { assert(m0.contains_key(q2)); assert(m[q2] == m0[q2]); let j = choose|j: int| 0 <= j < m[q2].edges@.len() && #[trigger] m[q2].edges@[j].features@.contains(y); assert(m0[q2].edges@[j].features@.contains(y)); }
        else { let j = choose|j: int| 0 <= j < m[q2].edges@.len() && #[trigger] m[q2].edges@[j].features@.contains(y); assert(b.es[j].features@.contains(y)); if j < a.es.len() { assert(a.es[j] == b.es[j]); assert(m0[q].edges@[j].features@.contains(y)); } } }
    assert forall|q2: KKey| #[trigger] m0.contains_key(q2) implies m.contains_key(q2) && pre_(m0[q2].edges@, m[q2].edges@) && m0[q2].features@.subset_of(m[q2].features@) by { if q2 != q { assert(m[q2] == m0[q2]); } }
    assert forall|q2: KKey| #[trigger] m.contains_key(q2) implies m0.contains_key(q2) || onst(b.st, (q2, None)) by { if q2 == q { if b.vd { } } else { assert(m0.contains_key(q2)); } }
    if a.fs is Some { assert forall|y: usize| #[trigger] a.fs->0.contains(y) implies hasf(m, q, y) by { assert(b.ft.contains(y)); } }
}
"""
FNS += [
    Fn("add_edges", B, BM, """fn add_edges<'n, 'e>(edges: It<Edge<'e>>, rdep_node: &'n Node, pkg: &'n Kid, mut features: Option<SetX<usize>>, mut visit_dep: Option<&'n Kid>, dep: &mut KrateDependency, krate_features: &mut KrateFeatures<'n>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(d): Ghost<int>, Ghost(s): Ghost<bool>)
    requires wfw(w), pkg.wf(), kkey(pkg) == tgt(w, k, d), *rdep_node == nd(w, tgt(w, k, d)), edges.i() == 0, edges.wf(), edges.s().len() > 0, forall|j: int| 0 <= j < edges.s().len() ==> kept_link(w, k, d, s, #[trigger] edges.s()[j]), visit_dep is Some ==> visit_dep->0.wf() && kkey(visit_dep->0) == tgt(w, k, d),
        J(w, k, d, s, ls(*old(krate_features), *old(visit_stack), *old(dep), features, visit_dep), ls(*old(krate_features), *old(visit_stack), *old(dep), features, visit_dep)),
    ensures exists|vd: bool| #[trigger] J(w, k, d, s, ls(*old(krate_features), *old(visit_stack), *old(dep), features, visit_dep), LS { p: final(krate_features).pending_weak.m(), st: final(visit_stack).v@, es: final(dep).edges@, ft: final(dep).features@, fs: None, vd }), final(dep).edges@.len() > 0, all_in(edges.s(), final(dep).edges@),
        final(krate_features).actual == old(krate_features).actual, final(krate_features).graph == old(krate_features).graph, final(krate_features).filled_non_optional == old(krate_features).filled_non_optional""",
       select=WL + ";wloop:#3", cuts=[("loop:#0", "add_edge(edge, rdep_node, pkg, &mut features, &mut visit_dep, dep, krate_features, visit_stack, Ghost(w), Ghost(k), Ghost(d), Ghost(l), Ghost(s), Ghost(a))")],
       at={"start": "hide(wfw); hide(J); hide(ematch); hide(linkP); let ghost a = ls(*krate_features, *visit_stack, *dep, features, visit_dep); let ghost kf0 = *krate_features; let ghost vd0 = visit_dep;",
           "l0_start": "let ghost jj = vx_it0.i() - 1; let ghost es1 = dep.edges@; proof { assert(kept_link(w, k, d, s, vx_s0[jj])); } let ghost l = choose|l: int| #[trigger] linkP(w, D(w), k, d, l, s) && ematch(w, k, edge, lk(w, k, d, l, s)->0); let ghost g = edge;",
           "l0_end": "proof { ekc_is(w, k, dep.edges@, g, lk(w, k, d, l, s)->0); assert forall|j: int| 0 <= j < vx_it0.i() implies has_ekc(dep.edges@, #[trigger] vx_s0[j]) by { if j < jj { ekc_mono(es1, dep.edges@, vx_s0[j]); } } }",
           "l0_after": "proof { assert(has_ekc(dep.edges@, vx_s0[0])); }"},
       loops={0: forinv(0, None, """J(w, k, d, s, a, ls(*krate_features, *visit_stack, *dep, features, visit_dep)), vx_it0.i() > 0 ==> features is None, visit_dep is Some ==> visit_dep == vd0, forall|j: int| 0 <= j < vx_it0.i() ==> has_ekc(dep.edges@, #[trigger] vx_s0[j]),
           krate_features.actual == kf0.actual, krate_features.graph == kf0.graph, krate_features.filled_non_optional == kf0.filled_non_optional""")}),
    Fn("visit_link", B, BM, """fn visit_link<'n: 'k, 'k>(nodes: &'n Vec<Node>, pkg: &'n Kid, rdep: &'n NodeDep, mut features: Option<SetX<usize>>, is_in_workspace: bool, ignore_kinds: u32, krate: &'k Package, is_opaque: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, krate_features: &mut KrateFeatures<'n>, pn: &mut PackageNode<'n>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(d): Ghost<int>)
    requires wfw(w), w.nodes == nodes@, isd(w, k, d), *rdep == dep(w, k, d), pkg.wf(), kkey(pkg) == tgt(w, k, d), *krate == pk(w, k), !excl(w, k), cfgd(w, k, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets@),
        sdeps(w, k, old(pn).deps.m()), spend(w, k, old(krate_features).pending_weak.m(), old(pn).deps.m()), features is Some ==> namedP(w, D(w), k, d) && allf(w, k, d, features->0@), features is None ==> D(w)((k, None)),
    ensures sdeps(w, k, final(pn).deps.m()), spend(w, k, final(krate_features).pending_weak.m(), final(pn).deps.m()), lgrow(w, old(krate_features).pending_weak.m(), old(pn).deps.m(), old(visit_stack).v@, final(krate_features).pending_weak.m(), final(pn).deps.m(), final(visit_stack).v@),
        recorded(w, k, d, features is Some, os(features), final(pn).deps.m()), """ + KEEPF,
       select=WL + ";loop:#2", methods=MV + [("filter_map", "*", "vx_filter_map"), ("peekable", "0", "vx_peekable"), ("peek", "0", "vx_peek")], bind=["iter", "filter_map"], subst=[ENT[0], ENT[2], GETN, (r"\bcontinue;", "vx_at!(none); return;"), (r"let mut visit_dep = Some\(pkg\);", "let visit_dep = Some(pkg); vx_at!(ins);"), (r"(Ghost\(s\),?\s*\))", r"\1;")],
       cuts=[("let:edges;closure:#0", "|dk: &DepKindInfo| keep_edge(dk, is_in_workspace, ignore_kinds, krate, rdep, maybe_real_name, has_prelease, rdep_version, is_opaque, strong, include_all_targets, targets, rdep_node)"),
             ("wloop:#0", "add_edges(edges, rdep_node, pkg, features, visit_dep, dep, krate_features, visit_stack, Ghost(w), Ghost(k), Ghost(d), Ghost(s))")],
       closures={0: "|vxp0: &'k DepKindInfo| -> (r: Option<Edge<'k>>) requires is_dk(w, k, d, *vxp0), *rdep == dep(w, k, d), rdep.pkg.wf(), maybe_real_name@ == rdep.pname(), has_prelease == !rdep.version.pre.empty(), *rdep_version == rdep.version, srcs_ok(rdep.pkg.part(2)), *rdep_node == nd(w, tgt(w, k, d)), *krate == pk(w, k), cfgd(w, k, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets@), first_stands(pk(w, k).dependencies@, dep(w, k, d), *vxp0, w.opaque, decl_of(w, k, d, *vxp0)), ensures kept_as(w, k, d, *vxp0, strong, r)", 1: "|| -> (r: KrateDependency) ensures r.edges@.len() == 0, r.features@ == Set::<usize>::empty()"},
       at={"start": """hide(wfw); hide(J); hide(linkP); hide(sdeps); hide(spend); hide(lgrow); reveal(lkv);
           let ghost q = tgt(w, k, d); let ghost s = features is Some; let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost st0 = visit_stack.v@; let ghost fs0 = os(features);
           proof { keep_facts(w, k, d); }""",
           "b0": """proof { assert(vx_b0.vseq() == refs(rdep.dep_kinds@)); assert forall|i: int| 0 <= i < vx_b0.vseq().len() implies is_dk(w, k, d, *#[trigger] vx_b0.vseq()[i]) by { assert(isl(w, k, d, i)); assert(*vx_b0.vseq()[i] == dep(w, k, d).dep_kinds@[i]); }
               assert forall|i: int| 0 <= i < vx_b0.vseq().len() implies first_stands(pk(w, k).dependencies@, dep(w, k, d), *#[trigger] vx_b0.vseq()[i], w.opaque, decl_of(w, k, d, *vx_b0.vseq()[i])) by { assert(is_dk(w, k, d, *vx_b0.vseq()[i])); }
               assert(rdep.pkg.wf()); text_of(maybe_real_name@); assert(maybe_real_name@ == rdep.pname()); assert(has_prelease == !rdep.version.pre.empty()); assert(srcs_ok(rdep.pkg.part(2))); assert(*rdep_node == nd(w, tgt(w, k, d))); assert(cfgd(w, k, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets@)); }""",
           "b1": """let ghost o = choose|o: Seq<Option<Edge<'k>>>| vx_b1.s() == flat(o) && o.len() == rdep.dep_kinds@.len() && forall|i: int| 0 <= i < o.len() ==> kept_as(w, k, d, rdep.dep_kinds@[i], s, #[trigger] o[i]);
               proof { kept_ok(w, k, d, s, o); }""",
           "none": "proof { lgrow_refl(w, p0, m0, st0); none_rec(w, k, d, s, fs0, m0); }",
           "ins": "let ghost a = ls(*krate_features, *visit_stack, *dep, features, visit_dep); let ghost gs = edges.s(); proof { J_start(w, k, d, s, p0, m0, a); }",
           },
       ret="""proof { let m = pn.deps.m(); let b = LS { p: krate_features.pending_weak.m(), st: visit_stack.v@, es: m[q].edges@, ft: m[q].features@, fs: None, vd: vdx(w, k, d, s, a, krate_features.pending_weak.m(), visit_stack.v@, m[q].edges@, m[q].features@) };
           assert(J(w, k, d, s, a, b)); J_done(w, k, d, s, a, b, p0, m0, m); rec_done(w, k, d, s, fs0, m); }"""),
]

SPEC += r"""
/// what recording a dependency's links never loses
pub open spec fn vgrow(w: W, k: KKey, p0: Pend, m0: Deps, p: Pend, m: Deps) -> bool {
    &&& forall|q: KKey, x: Link| #[trigger] hasE(m0, q, x) ==> hasE(m, q, x)
    &&& forall|q: KKey, y: usize| #[trigger] hasf(m0, q, y) ==> hasf(m, q, y)
    &&& forall|d: int, y: usize| #![trigger inp(p0, tgt(w, k, d), y)] isd(w, k, d) && inp(p0, tgt(w, k, d), y) ==> inp(p, tgt(w, k, d), y) || hasf(m, tgt(w, k, d), y) || !canlink(w, k, d)
}
/// what an entry of an enabled feature asks of the dependency is recorded
pub open spec fn cEd(w: W, k: KKey, d: int, e: FeatS, p: Pend, m: Deps) -> bool {
    &&& names_e(w, k, d, e) ==> rec_all(w, k, d, true, m)
    &&& forall|y: usize| #[trigger] strong_e(w, k, d, e, y) ==> hasf(m, tgt(w, k, d), y) || !canlink(w, k, d)
    &&& forall|y: usize| #[trigger] weak_e(w, k, d, e, y) ==> hasf(m, tgt(w, k, d), y) || inp(p, tgt(w, k, d), y) || !canlink(w, k, d)
}
pub open spec fn rec_all(w: W, k: KKey, d: int, s: bool, m: Deps) -> bool { forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, s) is Some ==> hasE(m, tgt(w, k, d), lk(w, k, d, l, s)->0) }
pub open spec fn cD(w: W, k: KKey, e: FeatS, p: Pend, m: Deps) -> bool { forall|d: int| #[trigger] isd(w, k, d) ==> cEd(w, k, d, e, p, m) }
/// the dependencies of the to-do list are recorded
pub open spec fn todo_done(w: W, k: KKey, t: Todo<'_>, s: bool, m: Deps) -> bool { forall|q: KKey| #[trigger] t.contains_key(q) ==> recorded(w, k, dix(w, k, q), s, os(t[q].1), m) }
pub open spec fn recd(w: W, k: KKey, x: (&Kid, (&NodeDep, Option<SetX<usize>>)), s: bool, m: Deps) -> bool { recorded(w, k, dix(w, k, kkey(x.0)), s, os(x.1.1), m) }
"""
LEM += r"""
proof fn lgrow_trans(w: W, p0: Pend, m0: Deps, st0: St<'_>, p1: Pend, m1: Deps, st1: St<'_>, p2: Pend, m2: Deps, st2: St<'_>)
    requires lgrow(w, p0, m0, st0, p1, m1, st1), lgrow(w, p1, m1, st1, p2, m2, st2),
    ensures lgrow(w, p0, m0, st0, p2, m2, st2),
{
    stx_trans(w, st0, st1, st2);
    assert forall|q: KKey| #[trigger] m0.contains_key(q) implies m2.contains_key(q) && pre_(m0[q].edges@, m2[q].edges@) && m0[q].features@.subset_of(m2[q].features@) by { assert(m1.contains_key(q)); pre_trans(m0[q].edges@, m1[q].edges@, m2[q].edges@); }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m1, q, y) implies hasf(m2, q, y) by { assert(m1.contains_key(q)); }
    assert forall|q: KKey, y: usize| #[trigger] inp(p0, q, y) implies inp(p2, q, y) || hasf(m2, q, y) by { assert(inp(p1, q, y) || hasf(m1, q, y)); }
    assert forall|q: KKey| #[trigger] m2.contains_key(q) implies m0.contains_key(q) || onst(st2, (q, None)) by { if m1.contains_key(q) { if !m0.contains_key(q) { assert(onst(st1, (q, None))); } } }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m2, q, y) implies hasf(m0, q, y) || onst(st2, (q, Some(y))) by { if hasf(m1, q, y) { if !hasf(m0, q, y) { assert(onst(st1, (q, Some(y)))); } } }
    assert forall|q: KKey, y: usize| #[trigger] hasef(m2, q, y) implies hasef(m0, q, y) || onst(st2, (q, Some(y))) by { if hasef(m1, q, y) { if !hasef(m0, q, y) { assert(onst(st1, (q, Some(y)))); } } }
}
proof fn pre_trans(a: Seq<DependencyEdge>, b: Seq<DependencyEdge>, c: Seq<DependencyEdge>) requires pre_(a, b), pre_(b, c) ensures pre_(a, c)
{ assert forall|j: int| #![trigger a[j]] #![trigger c[j]] 0 <= j < a.len() implies c[j] == a[j] by { assert(b[j] == a[j]); assert(c[j] == b[j]); } }
proof fn edge_mono(a: Seq<DependencyEdge>, b: Seq<DependencyEdge>, x: Link) requires has_edge(a, x), pre_(a, b) ensures has_edge(b, x) { let i = choose|i: int| 0 <= i < a.len() && same_kc(#[trigger] a[i], x); assert(a[i] == b[i]); assert(same_kc(b[i], x)); }
proof fn kgrow_facts(m0: Deps, m: Deps) requires kgrow(m0, m) ensures forall|q: KKey, x: Link| #[trigger] hasE(m0, q, x) ==> hasE(m, q, x), forall|q: KKey, y: usize| #[trigger] hasf(m0, q, y) ==> hasf(m, q, y)
{
    assert forall|q: KKey, x: Link| #[trigger] hasE(m0, q, x) implies hasE(m, q, x) by { edge_mono(m0[q].edges@, m[q].edges@, x); }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m0, q, y) implies hasf(m, q, y) by { assert(m0.contains_key(q)); }
}
proof fn rec_mono(w: W, k: KKey, d: int, s: bool, fs: Option<Set<usize>>, m0: Deps, m: Deps) requires recorded(w, k, d, s, fs, m0), kgrow(m0, m) ensures recorded(w, k, d, s, fs, m) { kgrow_facts(m0, m); }
"""
FNS += [
    Fn("visit_links", B, BM, """fn visit_links<'n>(nodes: &'n Vec<Node>, deps: KMap<'n, (&'n NodeDep, Option<SetX<usize>>)>, is_in_workspace: bool, ignore_kinds: u32, krate: &Package, is_opaque: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, krate_features: &mut KrateFeatures<'n>, pn: &mut PackageNode<'n>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>, Ghost(s): Ghost<bool>)
    requires wfw(w), w.nodes == nodes@, *krate == pk(w, k), !excl(w, k), cfgd(w, k, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets@),
        sdeps(w, k, old(pn).deps.m()), spend(w, k, old(krate_features).pending_weak.m(), old(pn).deps.m()), sM(w, k, deps.m(), s), !s ==> D(w)((k, None)),
    ensures sdeps(w, k, final(pn).deps.m()), spend(w, k, final(krate_features).pending_weak.m(), final(pn).deps.m()), lgrow(w, old(krate_features).pending_weak.m(), old(pn).deps.m(), old(visit_stack).v@, final(krate_features).pending_weak.m(), final(pn).deps.m(), final(visit_stack).v@),
        todo_done(w, k, deps.m(), s, final(pn).deps.m()), """ + KEEPF,
       select=WL + ";wloop:#2", cuts=[("loop:#0", "visit_link(nodes, pkg, rdep, features, is_in_workspace, ignore_kinds, krate, is_opaque, include_all_targets, targets, krate_features, pn, visit_stack, Ghost(w), Ghost(k), Ghost(d))")],
       at={"start": """hide(wfw); hide(sdeps); hide(spend); hide(lgrow); hide(recorded);
           let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost st0 = visit_stack.v@; let ghost t = deps.m(); let ghost kf0 = *krate_features; let ghost pn0 = *pn;
           proof { deps.axiom_listed(); lgrow_refl(w, p0, m0, st0); }""",
           "l0_start": """let ghost jj = vx_it0.i() - 1; let ghost q = kkey(vx_s0[jj].0); let ghost d = dix(w, k, q); let ghost p1 = krate_features.pending_weak.m(); let ghost m1 = pn.deps.m(); let ghost st1 = visit_stack.v@;
               proof { assert(t.contains_key(q)); assert(isdq(w, k, q)); assert(vx_s0[jj].1 == t[q]); assert(allf(w, k, d, os(t[q].1)->0) || !s); }""",
           "l0_end": """proof { lgrow_trans(w, p0, m0, st0, p1, m1, st1, krate_features.pending_weak.m(), pn.deps.m(), visit_stack.v@);
               assert(kgrow(m1, pn.deps.m())) by { reveal(lgrow); }
               assert forall|j: int| 0 <= j < vx_it0.i() implies recd(w, k, #[trigger] vx_s0[j], s, pn.deps.m()) by { if j < jj { assert(recd(w, k, vx_s0[j], s, m1)); rec_mono(w, k, dix(w, k, kkey(vx_s0[j].0)), s, os(vx_s0[j].1.1), m1, pn.deps.m()); } } }""",
           "l0_after": """proof { assert forall|q: KKey| #[trigger] t.contains_key(q) implies recorded(w, k, dix(w, k, q), s, os(t[q].1), pn.deps.m()) by { let j = choose|j: int| 0 <= j < vx_s0.len() && kkey((#[trigger] vx_s0[j]).0) == q; assert(recd(w, k, vx_s0[j], s, pn.deps.m())); } }"""},
       loops={0: forinv(0, None, """vx_s0 == deps.listing(), deps.listed(), t == deps.m(), sdeps(w, k, pn.deps.m()), spend(w, k, krate_features.pending_weak.m(), pn.deps.m()), lgrow(w, p0, m0, st0, krate_features.pending_weak.m(), pn.deps.m(), visit_stack.v@), forall|j: int| 0 <= j < vx_it0.i() ==> recd(w, k, #[trigger] vx_s0[j], s, pn.deps.m()),
           krate_features.actual == kf0.actual, krate_features.graph == kf0.graph, krate_features.filled_non_optional == kf0.filled_non_optional, pn.is_root == pn0.is_root""")}),
]

SPEC += r"""
/// what is known of a crate in the graph
pub open spec fn snode(w: W, k: KKey, kf: KrateFeatures<'_>, n: PackageNode<'_>) -> bool {
    &&& known(w, k) && !excl(w, k) && D(w)((k, None))
    &&& sdeps(w, k, n.deps.m()) && spend(w, k, kf.pending_weak.m(), n.deps.m())
    &&& forall|y: usize| #[trigger] kf.actual@.contains(y) ==> D(w)((k, Some(y))) && y < nd(w, k).features@.len()
}
/// what visiting the crate (feat None) or one of its features has done
pub open spec fn visited_(w: W, k: KKey, feat: Option<usize>, a: KrateFeatures<'_>, m0: Deps, st0: St<'_>, b: KrateFeatures<'_>, m: Deps, st: St<'_>) -> bool {
    &&& stx(w, st0, st) && newst(m0, m, st) && vgrow(w, k, a.pending_weak.m(), m0, b.pending_weak.m(), m)
    &&& forall|y: usize| #[trigger] b.actual@.contains(y) <==> a.actual@.contains(y) || feat == Some(y)
    &&& b.filled_non_optional == (a.filled_non_optional || feat is None)
    &&& feat is Some ==> (a.filled_non_optional || onst(st, (k, None))) && forall|i: int| #[trigger] isi(w, k, feat->0, i) ==> cF(w, k, fe(w, k, feat->0, i), b.pending_weak.m(), m, st)
    &&& feat is None ==> cN(w, k, m)
}
pub open spec fn cF(w: W, k: KKey, e: FeatS, p: Pend, m: Deps, st: St<'_>) -> bool { cD(w, k, e, p, m) && forall|y: usize| #[trigger] simple_e(w, k, e, y) ==> onst(st, (k, Some(y))) }
pub open spec fn cN(w: W, k: KKey, m: Deps) -> bool { forall|d: int| #[trigger] isd(w, k, d) ==> rec_all(w, k, d, false, m) }
"""
LEM += r"""
proof fn vgrow_refl(w: W, k: KKey, p: Pend, m: Deps, st: St<'_>) ensures vgrow(w, k, p, m, p, m), newst(m, m, st) { }
proof fn no_todo(w: W, k: KKey, s: bool) ensures sM(w, k, Map::empty(), s) { }
/// all entries of the feature looked at, and then all dependencies they name
proof fn ent_links(w: W, k: KKey, p0: Pend, m0: Deps, t0: Todo<'_>, st0: St<'_>, p1: Pend, m1: Deps, t1: Todo<'_>, st1: St<'_>, p2: Pend, m2: Deps, st2: St<'_>)
    requires wfw(w), stx(w, st0, st1), mkeep(m0, m1, st1), agrow(p0, m0, t0, p1, m1, t1), lgrow(w, p1, m1, st1, p2, m2, st2), todo_done(w, k, t1, true, m2), sM(w, k, t1, true),
    ensures stx(w, st0, st2), newst(m0, m2, st2), vgrow(w, k, p0, m0, p2, m2), forall|e: FeatS| #[trigger] ae(w, k, e, p1, m1, t1, st1) ==> cF(w, k, e, p2, m2, st2),
{
    stx_trans(w, st0, st1, st2);
    kgrow_facts(m1, m2);
    assert forall|q: KKey, x: Link| #[trigger] hasE(m0, q, x) implies hasE(m2, q, x) by { assert(m1.contains_key(q)); assert(hasE(m1, q, x)); }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m0, q, y) implies hasf(m2, q, y) by { assert(hasf(m1, q, y)); }
    assert forall|d: int, y: usize| #![trigger isd(w, k, d), inM(t1, tgt(w, k, d), y)] isd(w, k, d) && inM(t1, tgt(w, k, d), y) implies hasf(m2, tgt(w, k, d), y) || !canlink(w, k, d) by { let q = tgt(w, k, d); dix_is(w, k, d); assert(t1.contains_key(q)); assert(recorded(w, k, d, true, os(t1[q].1), m2)); assert(os(t1[q].1)->0.contains(y)); }
    assert forall|d: int, y: usize| #![trigger inp(p0, tgt(w, k, d), y)] isd(w, k, d) && inp(p0, tgt(w, k, d), y) implies inp(p2, tgt(w, k, d), y) || hasf(m2, tgt(w, k, d), y) || !canlink(w, k, d) by { let q = tgt(w, k, d); assert(inp(p1, q, y) || inM(t1, q, y)); }
    assert forall|q: KKey| #[trigger] m2.contains_key(q) implies m0.contains_key(q) || onst(st2, (q, None)) by { if m1.contains_key(q) { } }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m2, q, y) implies hasf(m0, q, y) || onst(st2, (q, Some(y))) by { if hasf(m1, q, y) { if !hasf(m0, q, y) { assert(m1.contains_key(q)); assert(m1[q].features@.contains(y)); assert(onst(st1, (q, Some(y)))); } } }
    assert forall|q: KKey, y: usize| #[trigger] hasef(m2, q, y) implies hasef(m0, q, y) || onst(st2, (q, Some(y))) by { if hasef(m1, q, y) { assert(m1.contains_key(q)); assert(m1[q].edges == m0[q].edges); let j = choose|j: int| 0 <= j < m1[q].edges@.len() && #[trigger] m1[q].edges@[j].features@.contains(y); assert(m0[q].edges@[j].features@.contains(y)); } }
    assert forall|e: FeatS| #[trigger] ae(w, k, e, p1, m1, t1, st1) implies cF(w, k, e, p2, m2, st2) by {
        assert forall|y: usize| #[trigger] simple_e(w, k, e, y) implies onst(st2, (k, Some(y))) by { assert(onst(st1, (k, Some(y)))); }
        assert forall|d: int| #[trigger] isd(w, k, d) implies cEd(w, k, d, e, p2, m2) by {
            assert(ae_d(w, k, d, e, p1, m1, t1)); dix_is(w, k, d); let q = tgt(w, k, d);
            if names_e(w, k, d, e) { assert(t1.contains_key(q)); assert(recorded(w, k, d, true, os(t1[q].1), m2)); }
            assert forall|y: usize| #[trigger] strong_e(w, k, d, e, y) implies hasf(m2, q, y) || !canlink(w, k, d) by { assert(inM(t1, q, y)); }
            assert forall|y: usize| #[trigger] weak_e(w, k, d, e, y) implies hasf(m2, q, y) || inp(p2, q, y) || !canlink(w, k, d) by { assert(hasf(m1, q, y) || inp(p1, q, y) || inM(t1, q, y)); }
        }
    }
}
proof fn all_links(w: W, k: KKey, p0: Pend, m0: Deps, st0: St<'_>, p: Pend, m: Deps, st: St<'_>, t: Todo<'_>)
    requires wfw(w), lgrow(w, p0, m0, st0, p, m, st), todo_done(w, k, t, false, m), forall|d: int| #[trigger] isd(w, k, d) ==> t.contains_key(tgt(w, k, d)),
    ensures stx(w, st0, st), newst(m0, m, st), vgrow(w, k, p0, m0, p, m), cN(w, k, m),
{
    kgrow_facts(m0, m);
    assert forall|d: int| #[trigger] isd(w, k, d) implies rec_all(w, k, d, false, m) by { dix_is(w, k, d); let q = tgt(w, k, d); assert(t.contains_key(q)); assert(recorded(w, k, d, false, os(t[q].1), m)); }
}
proof fn all_todo(w: W, k: KKey, t: Todo<'_>)
    requires wfw(w), known(w, k), forall|q: KKey| #[trigger] t.contains_key(q) ==> exists|i: int| 0 <= i < nd(w, k).deps@.len() && kkey(&(#[trigger] nd(w, k).deps@[i]).pkg) == q && *t[q].0 == nd(w, k).deps@[i] && t[q].1 is None,
    ensures sM(w, k, t, false),
{
    assert forall|q: KKey| #[trigger] t.contains_key(q) implies isdq(w, k, q) && *t[q].0 == dep(w, k, dix(w, k, q)) && t[q].1 is None by {
        let i = choose|i: int| 0 <= i < nd(w, k).deps@.len() && kkey(&(#[trigger] nd(w, k).deps@[i]).pkg) == q && *t[q].0 == nd(w, k).deps@[i] && t[q].1 is None; assert(isd(w, k, i)); assert(tgt(w, k, i) == q); dix_is(w, k, i); }
}
"""
FNS += [
    Fn("visit_node", B, BM, """fn visit_node<'n, 'p>(nodes: &'n Vec<Node>, renames: &Renames<'p>, pid: &'n Kid, feature: Option<usize>, rnode: &'n Node, krate: &Package, is_in_workspace: bool, ignore_kinds: u32, is_opaque: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, krate_features: &mut KrateFeatures<'n>, pn: &mut PackageNode<'n>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>, Ghost(k): Ghost<KKey>)
    requires """ + AT_K + """, *krate == pk(w, k), D(w)((k, feature)), feature is Some ==> feature->0 < nd(w, k).features@.len() && !old(krate_features).actual@.contains(feature->0), cfgd(w, k, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets@),
        snode(w, k, *old(krate_features), *old(pn)),
    ensures snode(w, k, *final(krate_features), *final(pn)), visited_(w, k, feature, *old(krate_features), old(pn).deps.m(), old(visit_stack).v@, *final(krate_features), final(pn).deps.m(), final(visit_stack).v@), final(krate_features).graph == old(krate_features).graph, final(pn).is_root == old(pn).is_root""",
       select=WL + ";stmts:let:deps..end", methods=MV + [("extend", "*", "vx_extend"), ("map", "*", "vx_map")], bind=["iter", "map"],
       subst=[(r"BTreeMap::<\s*&Kid\s*,\s*\(\s*&NodeDep\s*,\s*Option<BTreeSet<usize>>\s*\)\s*,?\s*>", "KMap"), (r"\bcontinue;", "vx_at!(nofs); return;"), (r"(visit_entries\()", r"vx_at!(m1); \1"), (r"(\bvisit_links\((?:[^()]|\([^()]*\))*\))", r"vx_at!(m2); \1;")],
       cuts=[("wloop:#0", "visit_entries(nodes, renames, pid, rnode, fs, krate_features, pn, &mut deps, visit_stack, Ghost(w), Ghost(k), Ghost(f))"),
             ("wloop:#0", "visit_links(nodes, deps, is_in_workspace, ignore_kinds, krate, is_opaque, include_all_targets, targets, krate_features, pn, visit_stack, Ghost(w), Ghost(k), Ghost(s))")],
       closures={0: "|vxp0: &'n NodeDep| -> (r: (&'n Kid, (&'n NodeDep, Option<SetX<usize>>))) ensures r.0 == &vxp0.pkg, r.1.0 == vxp0, r.1.1 is None"},
       at={"start": """hide(wfw); hide(sdeps); hide(spend); hide(lgrow); hide(stx); hide(newst); hide(vgrow); hide(cD); hide(mkeep); hide(agrow); hide(ae); hide(todo_done); hide(sM);
           let ghost f0 = feature; let ghost f = feature->0; let ghost s = feature is Some; let ghost kf0 = *krate_features; let ghost p0 = krate_features.pending_weak.m(); let ghost m0 = pn.deps.m(); let ghost st0 = visit_stack.v@; let ghost it: (&'n Kid, Option<usize>) = (pid, None);
           let ghost mut zz: Seq<(&'n Kid, (&'n NodeDep, Option<SetX<usize>>))> = Seq::empty(); let ghost ste = if kf0.filled_non_optional { st0 } else { st0.push(it) };
           proof { assert(itok(w, it)); stx_refl(w, st0); stx_push(w, st0, st0, it); if feature is Some { assert(fP(w, D(w), k, f)); } deps_wf(w, k); }""",
           "nofs": "proof { vgrow_refl(w, k, p0, m0, visit_stack.v@); assert(ent(w, k, f).len() == 0); }",
           "m1": "proof { no_todo(w, k, true); assert(visit_stack.v@ == ste); assert(fs@ == ent(w, k, f)); }",
           "b0": "proof { assert(vx_b0.vseq() == refs(rnode.deps@)); }",
           "b1": "let ghost z = vx_b1.s(); proof { zz = z; assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).0 == &nd(w, k).deps@[i].pkg && z[i].1.0 == &nd(w, k).deps@[i] && z[i].1.1 is None by { assert(*vx_b0.vseq()[i] == nd(w, k).deps@[i]); } }",
           "m2": "let ghost p1 = krate_features.pending_weak.m(); let ghost m1 = pn.deps.m(); let ghost t1 = deps.m(); let ghost st1 = visit_stack.v@; proof { if !s { let t = deps.m();                assert forall|q: KKey| #[trigger] t.contains_key(q) implies exists|i: int| 0 <= i < nd(w, k).deps@.len() && kkey(&(#[trigger] nd(w, k).deps@[i]).pkg) == q && *t[q].0 == nd(w, k).deps@[i] && t[q].1 is None by { }                assert forall|d: int| #[trigger] isd(w, k, d) implies t.contains_key(tgt(w, k, d)) by { assert(kkey(zz[d].0) == tgt(w, k, d)); }                all_todo(w, k, t); } }",
           }, ret="""proof { let p2 = krate_features.pending_weak.m(); let m2 = pn.deps.m(); let st2 = visit_stack.v@;
               if s { ent_links(w, k, p0, m0, Map::empty(), ste, p1, m1, t1, st1, p2, m2, st2); stx_trans(w, st0, ste, st2);
                   assert forall|i: int| #[trigger] isi(w, k, f, i) implies cF(w, k, fe(w, k, f, i), p2, m2, st2) by { assert(ae(w, k, fe(w, k, f, i), p1, m1, t1, st1)); } }
               else { all_links(w, k, p0, m0, st0, p2, m2, st2, t1); } }""")]

PM = next(f for u in pkgspec.UNITS for f in u.fns if f.name == "PkgSpec::matches")
SPEC += "impl PkgSpec { #[verifier::external_body] " + PM.header.replace("$p0", "krate") + " { unimplemented!() } }\n" + r"""
// ---- the whole walk
pub type Fm<'n> = Map<KKey, KrateFeatures<'n>>;
pub type Dm<'n> = Map<KKey, PackageNode<'n>>;
pub open spec fn donef(fm: Fm<'_>, x: Item) -> bool { fm.contains_key(x.0) && match x.1 { None => fm[x.0].filled_non_optional, Some(y) => fm[x.0].actual@.contains(y) } }
/// visited, to be visited, or of an excluded crate
pub open spec fn okP(w: W, fm: Fm<'_>, st: St<'_>, hole: Option<Item>) -> Prd { |x: Item| donef(fm, x) || onst(st, x) || excl(w, x.0) || hole == Some(x) }
pub open spec fn cFo(w: W, P: Prd, k: KKey, e: FeatS, p: Pend, m: Deps) -> bool { cD(w, k, e, p, m) && forall|y: usize| #[trigger] simple_e(w, k, e, y) ==> P((k, Some(y))) }
/// the rules are followed for what has been visited of the crate
pub open spec fn cnode(w: W, P: Prd, k: KKey, kf: KrateFeatures<'_>, m: Deps) -> bool {
    &&& forall|f: usize| #[trigger] kf.actual@.contains(f) ==> P((k, None))
    &&& forall|f: usize, i: int| #[trigger] isi(w, k, f, i) && kf.actual@.contains(f) ==> cFo(w, P, k, fe(w, k, f, i), kf.pending_weak.m(), m)
    &&& kf.filled_non_optional ==> cN(w, k, m)
    &&& forall|q: KKey| #[trigger] m.contains_key(q) ==> P((q, None))
    &&& forall|q: KKey, y: usize| #[trigger] hasf(m, q, y) ==> P((q, Some(y)))
    &&& forall|q: KKey, y: usize| #[trigger] hasef(m, q, y) ==> P((q, Some(y)))
}
pub open spec fn nodeok(w: W, P: Prd, k: KKey, kf: KrateFeatures<'_>, n: PackageNode<'_>) -> bool { snode(w, k, kf, n) && n.is_root == w.roots.contains(k) && cnode(w, P, k, kf, n.deps.m()) && (kf.filled_non_optional || exists|f: usize| #[trigger] kf.actual@.contains(f)) }
pub open spec fn inv(w: W, fm: Fm<'_>, dm: Dm<'_>, st: St<'_>, hole: Option<Item>) -> bool {
    &&& sto(w, st) && forall|x: Item| #[trigger] seed(w, x) ==> okP(w, fm, st, hole)(x)
    &&& forall|k: KKey| #[trigger] fm.contains_key(k) <==> dm.contains_key(k)
    &&& forall|k: KKey| #[trigger] fm.contains_key(k) ==> nodeok(w, okP(w, fm, st, hole), k, fm[k], dm[k])
}
/// the parts of the builder the walk reads
pub open spec fn cfgw(w: W, ws: Seq<Kid>, pkgs: Seq<Pk>, exc: Seq<PkgSpec>, ig: u32, op: bool, all: bool, ts: Seq<TargetFilter>, roots: Set<KKey>) -> bool { ws == w.ws && pkgs == w.pkgs && exc == w.exc && ig == w.ignore && op == w.opaque && all == w.all && ts == w.ts && roots == w.roots && ws_ok(w.ws) }
pub open spec fn ws_ok(ws: Seq<Kid>) -> bool { (forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).wf()) && forall|i: int, j: int| 0 <= i < j < ws.len() ==> kid_cmp(&(#[trigger] ws[i]), &(#[trigger] ws[j])) != Ordering::Greater }
pub trait KBsX { fn vx_kbsearch(&self, k: &Kid) -> (r: Result<usize, usize>) requires ws_ok(self.ks()), k.wf(), ensures r is Ok <==> has_kid(self.ks(), kkey(k)); spec fn ks(&self) -> Seq<Kid>; }
impl KBsX for Vec<Kid> { open spec fn ks(&self) -> Seq<Kid> { self@ } #[verifier::external_body] fn vx_kbsearch(&self, k: &Kid) -> (r: Result<usize, usize>) { unimplemented!() } }
/// the features declared by the crate and enabled, with what they refer to
"""
LEM += r"""
proof fn cnode_mono(w: W, P: Prd, Q: Prd, k: KKey, kf: KrateFeatures<'_>, m: Deps) requires cnode(w, P, k, kf, m), forall|x: Item| #[trigger] P(x) ==> Q(x), ensures cnode(w, Q, k, kf, m)
{
    assert forall|f: usize, i: int| #[trigger] isi(w, k, f, i) && kf.actual@.contains(f) implies cFo(w, Q, k, fe(w, k, f, i), kf.pending_weak.m(), m) by { assert(cFo(w, P, k, fe(w, k, f, i), kf.pending_weak.m(), m)); }
}
proof fn cd_mono(w: W, k: KKey, e: FeatS, p0: Pend, m0: Deps, p: Pend, m: Deps) requires cD(w, k, e, p0, m0), vgrow(w, k, p0, m0, p, m), ensures cD(w, k, e, p, m)
{
    assert forall|d: int| #[trigger] isd(w, k, d) implies cEd(w, k, d, e, p, m) by {
        assert(cEd(w, k, d, e, p0, m0));
        if names_e(w, k, d, e) { assert(rec_all(w, k, d, true, m0)); assert forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, true) is Some implies hasE(m, tgt(w, k, d), lk(w, k, d, l, true)->0) by { assert(hasE(m0, tgt(w, k, d), lk(w, k, d, l, true)->0)); } }
        assert forall|y: usize| #[trigger] weak_e(w, k, d, e, y) implies hasf(m, tgt(w, k, d), y) || inp(p, tgt(w, k, d), y) || !canlink(w, k, d) by { if inp(p0, tgt(w, k, d), y) { } else if hasf(m0, tgt(w, k, d), y) { } }
    }
}
proof fn cn_mono(w: W, k: KKey, p0: Pend, m0: Deps, p: Pend, m: Deps) requires cN(w, k, m0), vgrow(w, k, p0, m0, p, m), ensures cN(w, k, m)
{ assert forall|d: int| #[trigger] isd(w, k, d) implies rec_all(w, k, d, false, m) by { assert(rec_all(w, k, d, false, m0)); assert forall|l: int| #[trigger] isl(w, k, d, l) && lk(w, k, d, l, false) is Some implies hasE(m, tgt(w, k, d), lk(w, k, d, l, false)->0) by { assert(hasE(m0, tgt(w, k, d), lk(w, k, d, l, false)->0)); } } }
proof fn cnode_visit(w: W, P: Prd, Q: Prd, k: KKey, feat: Option<usize>, a: KrateFeatures<'_>, m0: Deps, st0: St<'_>, b: KrateFeatures<'_>, m: Deps, st: St<'_>)
    requires cnode(w, P, k, a, m0), visited_(w, k, feat, a, m0, st0, b, m, st), forall|x: Item| #[trigger] P(x) ==> Q(x), forall|x: Item| #[trigger] onst(st, x) ==> Q(x), b.filled_non_optional ==> Q((k, None)),
    ensures cnode(w, Q, k, b, m),
{
    let p0 = a.pending_weak.m(); let p = b.pending_weak.m();
    assert forall|f: usize| #[trigger] b.actual@.contains(f) implies Q((k, None)) by { if a.actual@.contains(f) { assert(P((k, None))); } else { if a.filled_non_optional { } else { assert(onst(st, (k, None))); } } }
    assert forall|f: usize, i: int| #[trigger] isi(w, k, f, i) && b.actual@.contains(f) implies cFo(w, Q, k, fe(w, k, f, i), p, m) by {
        if a.actual@.contains(f) { assert(cFo(w, P, k, fe(w, k, f, i), p0, m0)); cd_mono(w, k, fe(w, k, f, i), p0, m0, p, m); }
        else { assert(cF(w, k, fe(w, k, f, i), p, m, st)); assert forall|y: usize| #[trigger] simple_e(w, k, fe(w, k, f, i), y) implies Q((k, Some(y))) by { assert(onst(st, (k, Some(y)))); } }
    }
    if b.filled_non_optional { if a.filled_non_optional { cn_mono(w, k, p0, m0, p, m); } }
    assert forall|q: KKey| #[trigger] m.contains_key(q) implies Q((q, None)) by { if m0.contains_key(q) { assert(P((q, None))); } else { assert(onst(st, (q, None))); } }
    assert forall|q: KKey, y: usize| #[trigger] hasf(m, q, y) implies Q((q, Some(y))) by { if hasf(m0, q, y) { assert(P((q, Some(y)))); } else { assert(onst(st, (q, Some(y)))); } }
    assert forall|q: KKey, y: usize| #[trigger] hasef(m, q, y) implies Q((q, Some(y))) by { if hasef(m0, q, y) { assert(P((q, Some(y)))); } else { assert(onst(st, (q, Some(y)))); } }
}
proof fn inv_skip(w: W, fm: Fm<'_>, dm: Dm<'_>, st: St<'_>, it: Item) requires inv(w, fm, dm, st, Some(it)), donef(fm, it) || excl(w, it.0), ensures inv(w, fm, dm, st, None)
{
    let P = okP(w, fm, st, Some(it)); let Q = okP(w, fm, st, None);
    assert forall|x: Item| #[trigger] P(x) implies Q(x) by { }
    assert forall|k: KKey| #[trigger] fm.contains_key(k) implies nodeok(w, Q, k, fm[k], dm[k]) by { assert(nodeok(w, P, k, fm[k], dm[k])); cnode_mono(w, P, Q, k, fm[k], dm[k].deps.m()); }
    assert forall|x: Item| #[trigger] seed(w, x) implies Q(x) by { assert(P(x)); }
}
proof fn fresh_node(w: W, P: Prd, k: KKey, kf: KrateFeatures<'_>, n: PackageNode<'_>, feat: Option<usize>)
    requires wfw(w), known(w, k), !excl(w, k), D(w)((k, feat)), feat is Some ==> feat->0 < nd(w, k).features@.len(), kf.actual@ == Set::<usize>::empty(), kf.pending_weak.m() == Map::<KKey, SetX<usize>>::empty(), !kf.filled_non_optional, n.deps.m() == Map::<KKey, KrateDependency>::empty(),
    ensures snode(w, k, kf, n), cnode(w, P, k, kf, n.deps.m()),
{
    if feat is Some { let it: Item = (k, None); assert(fP(w, D(w), it.0, feat->0)); assert(r1(w, D(w), it)); assert(step(w, D(w), it)); closed(w, it); }
}
proof fn item_facts(w: W, pid: &Kid)
    requires wfw(w), pid.wf(), known(w, kkey(pid)),
    ensures nodes_ok(w.nodes), forall|j: int| is_node(w.nodes, kkey(pid), j) ==> j == ix(w, kkey(pid)), w.pkgs.len() == w.nodes.len(), pk(w, kkey(pid)).source is Some ==> cargo_source(pk(w, kkey(pid)).source->0.repr.b()),
        forall|i: int, j: int| 0 <= i < j < w.nodes.len() ==> ord_le(kid_cmp(&(#[trigger] w.nodes[i]).id, pid), kid_cmp(&(#[trigger] w.nodes[j]).id, pid)),
        forall|i: int| 0 <= i < w.nodes.len() && kid_cmp(&(#[trigger] w.nodes[i]).id, pid) == Ordering::Equal ==> is_node(w.nodes, kkey(pid), i),
        exists|i: int| 0 <= i < w.nodes.len() && kid_cmp(&(#[trigger] w.nodes[i]).id, pid) == Ordering::Equal,
{ node_search(w.nodes, pid); one_node(w, kkey(pid)); }
proof fn pre_node(w: W, fm: Fm<'_>, dm: Dm<'_>, st: St<'_>, hole: Option<Item>, k: KKey) requires inv(w, fm, dm, st, hole), ensures fm.contains_key(k) <==> dm.contains_key(k), fm.contains_key(k) ==> snode(w, k, fm[k], dm[k]) && dm[k].is_root == w.roots.contains(k) && cnode(w, okP(w, fm, st, hole), k, fm[k], dm[k].deps.m())
{ if fm.contains_key(k) { assert(nodeok(w, okP(w, fm, st, hole), k, fm[k], dm[k])); } }
proof fn inv_step(w: W, fm0: Fm<'_>, dm0: Dm<'_>, st0: St<'_>, it: Item, a: KrateFeatures<'_>, m0: Deps, fm: Fm<'_>, dm: Dm<'_>, st: St<'_>)
    requires
        inv(w, fm0, dm0, st0, Some(it)), !excl(w, it.0), fm.contains_key(it.0), dm.contains_key(it.0), fm == fm0.insert(it.0, fm[it.0]), dm == dm0.insert(it.0, dm[it.0]),
        visited_(w, it.0, it.1, a, m0, st0, fm[it.0], dm[it.0].deps.m(), st), snode(w, it.0, fm[it.0], dm[it.0]), dm[it.0].is_root == w.roots.contains(it.0),
        fm0.contains_key(it.0) ==> a == fm0[it.0], !fm0.contains_key(it.0) ==> a.actual@ == Set::<usize>::empty() && !a.filled_non_optional,
        cnode(w, okP(w, fm0, st0, Some(it)), it.0, a, m0),
    ensures inv(w, fm, dm, st, None), donef(fm, it), forall|x: Item| #[trigger] donef(fm0, x) ==> donef(fm, x),
{
    let P = okP(w, fm0, st0, Some(it)); let Q = okP(w, fm, st, None); let k = it.0;
    assert forall|x: Item| #[trigger] donef(fm0, x) implies donef(fm, x) by { if x.0 == k { } else { assert(fm[x.0] == fm0[x.0]); } }
    stx_trans(w, st0, st0, st);
    assert forall|x: Item| #[trigger] P(x) implies Q(x) by {
        if donef(fm0, x) { if x.0 == k { assert(donef(fm, x)); } else { assert(fm[x.0] == fm0[x.0]); } }
        else if onst(st0, x) { assert(onst(st, x)); }
        else if x == it { assert(donef(fm, it)); }
    }
    assert forall|k2: KKey| #[trigger] fm.contains_key(k2) implies nodeok(w, Q, k2, fm[k2], dm[k2]) by {
        if k2 != k { assert(fm0.contains_key(k2)); assert(nodeok(w, P, k2, fm0[k2], dm0[k2])); cnode_mono(w, P, Q, k2, fm0[k2], dm0[k2].deps.m()); }
        else { assert forall|x: Item| #[trigger] onst(st, x) implies Q(x) by { } if fm[k].filled_non_optional { assert(donef(fm, (k, None))); } cnode_visit(w, P, Q, k, it.1, a, m0, st0, fm[k], dm[k].deps.m(), st); if it.1 is Some { assert(fm[k].actual@.contains(it.1->0)); } } }
    assert forall|k2: KKey| #[trigger] fm.contains_key(k2) <==> dm.contains_key(k2) by { assert(fm0.contains_key(k2) <==> dm0.contains_key(k2)); }
    assert forall|x: Item| #[trigger] seed(w, x) implies Q(x) by { assert(P(x)); }
    assert forall|j: int| 0 <= j < st.len() implies itok(w, #[trigger] st[j]) by { if j < st0.len() { assert(st[j] == st0[j]); assert(itok(w, st0[j])); } }
}
"""
CFGP = """nodes: &'n Vec<Node>, packages: &Vec<Pk>, workspace_members: &Vec<Kid>, exclude: &Vec<PkgSpec>, roots: &KSet<'_>, renames: &Renames<'p>, ignore_kinds: u32, is_opaque: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, feature_edge_map: &mut KMap<'n, KrateFeatures<'n>>, dep_edge_map: &mut KMap<'n, PackageNode<'n>>, visit_stack: &mut VisitStack<'n>, Ghost(w): Ghost<W>"""
CFGA = """nodes, packages, workspace_members, exclude, roots, renames, ignore_kinds, is_opaque, include_all_targets, targets, feature_edge_map, dep_edge_map, visit_stack, Ghost(w)"""
CFGR = "wfw(w), w.nodes == nodes@, renames.wf(), renames.fun() == w.rn, cfgw(w, workspace_members@, packages@, exclude@, ignore_kinds, is_opaque, include_all_targets, targets@, roots.m())"
FNS += [
    Fn("check", B, BM, """fn check(vxq0: &KMap<'_, KrateFeatures<'_>>, vxq1: &Kid, vxq2: Option<usize>) -> (r: bool) requires vxq1.wf(), ensures r == donef(vxq0.m(), (kkey(vxq1), vxq2))""",
       select="let:check;closure:#0", methods=MV, closures={0: "|vxp0: &KrateFeatures<'_>| -> (r: bool) ensures r == (match vxq2 { None => vxp0.filled_non_optional, Some(y) => vxp0.actual@.contains(y) })"}),
    Fn("is_root_crate", B, BM, """fn is_root_crate(roots: &KSet<'_>, vxq0: &Kid) -> (r: bool) requires vxq0.wf(), ensures r == roots.m().contains(kkey(vxq0))""",
       select="let:is_root_crate;closure:#0", methods=[("contains", "*", "vx_kcontains")]),
    Fn("new_features", B, BM, """fn new_features<'n>(pid: &'n Kid, rnode: &'n Node, krate: &Package, Ghost(k): Ghost<KKey>) -> (r: KrateFeatures<'n>) requires pid.wf(), k == kkey(pid), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(), ensures fg_ok(*rnode, *krate, k, r.graph@), r.actual@ == Set::<usize>::empty(), r.pending_weak.m() == Map::<KKey, SetX<usize>>::empty(), !r.filled_non_optional""",
       select=WL + ";let:krate_features;closure:#0", cuts=[("let:graph", "features_graph(pid, rnode, krate, Ghost(k))")], subst=[(r"\bBTreeSet::new", "SetX::new"), (r"\bBTreeMap::new", "KMap::new")]),
    Fn("visit_item", B, BM, """fn visit_item<'n, 'p>(pid: &'n Kid, feature: Option<usize>, """ + CFGP + """)
    requires """ + CFGR + """, itok(w, (pid, feature)), inv(w, old(feature_edge_map).m(), old(dep_edge_map).m(), old(visit_stack).v@, Some((kkey(pid), feature))),
    ensures inv(w, final(feature_edge_map).m(), final(dep_edge_map).m(), final(visit_stack).v@, None), prog(old(feature_edge_map).m(), old(visit_stack).v@, final(feature_edge_map).m(), final(visit_stack).v@, (kkey(pid), feature)), fg_all(w, old(feature_edge_map).m()) ==> fg_all(w, final(feature_edge_map).m())""",
       select=WL, methods=MV + [("binary_search", "*", "vx_kbsearch"), ("binary_search_by", "*", "vx_bsearch"), ("unwrap", "0", "vx_unwrap"), ("is_ok", "0", "is_ok"), ("cmp", "*", "cmp")],
       bind=["binary_search_by", "any", "iter"],
       cuts=[("let:krate_features;closure:#0", "|| new_features(pid, rnode, krate, Ghost(k))"), ("stmts:let:deps..end", "visit_node(nodes, renames, pid, feature, rnode, krate, is_in_workspace, ignore_kinds, is_opaque, include_all_targets, targets, krate_features, pn, visit_stack, Ghost(w), Ghost(k))")],
       drop_lets=["get_dep_id"],
       subst=[ENT[0], (r"&feature_edge_map\b", "feature_edge_map"), (r"\bis_root_crate\(", "is_root_crate(roots, "), (r"\bBTreeMap::new", "KMap::new"), (r"\bcontinue;", "vx_at!(skip); return;"), (r"(\bvisit_node\((?:[^()]|\([^()]*\))*\))", r"vx_at!(m1); \1;")],
       closures={0: "|vxp0: &Node| -> (o: Ordering) requires vxp0.id.wf(), pid.wf(), ensures o == kid_cmp(&vxp0.id, pid)", 1: "|vxp0: &PkgSpec| -> (r: bool) requires krate.source is Some ==> cargo_source(krate.source->0.repr.b()), ensures r == excluded(*vxp0, *krate)",
                 2: "|| -> (r: KrateFeatures<'n>) requires pid.wf(), k == kkey(pid), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(), ensures fg_ok(*rnode, *krate, k, r.graph@), r.actual@ == Set::<usize>::empty(), r.pending_weak.m() == Map::<KKey, SetX<usize>>::empty(), !r.filled_non_optional", 3: "|| -> (r: PackageNode<'n>) requires pid.wf(), ensures r.is_root == roots.m().contains(kkey(pid)), r.deps.m() == Map::<KKey, KrateDependency>::empty()"},
       at={"start": """hide(wfw); hide(inv); hide(cnode); hide(snode); hide(visited_); let ghost k = kkey(pid); let ghost it: Item = (k, feature); let ghost fm0 = feature_edge_map.m(); let ghost dm0 = dep_edge_map.m(); let ghost st0 = visit_stack.v@; proof { item_facts(w, pid); }""",
           "let_krate_index": "proof { assert(krate_index == ix(w, k)); }",
           "b1": "proof { assert(vx_b1.vseq() == refs(exclude@)); assert(*krate == pk(w, k)); assert(*rnode == nd(w, k)); }",
           "b2": "proof { deps_wf(w, k); reveal(excl); let z = refs(exclude@); if vx_b2 { let i = choose|i: int| 0 <= i < z.len() && excluded(*#[trigger] z[i], *krate); assert(excluded(w.exc[i], pk(w, k))); } else { assert forall|i: int| 0 <= i < w.exc.len() implies !excluded(#[trigger] w.exc[i], pk(w, k)) by { assert(!excluded(*z[i], *krate)); } } }",
           "skip": "proof { inv_skip(w, fm0, dm0, st0, it); }",
           "m1": "let ghost a = *krate_features; let ghost n0 = *pn; proof { pre_node(w, fm0, dm0, st0, Some(it), k); if !fm0.contains_key(k) { fresh_node(w, okP(w, fm0, st0, Some(it)), k, a, n0, feature); } assert(is_in_workspace == in_ws(w, k)); }",
           }, ret="proof { inv_step(w, fm0, dm0, st0, it, a, n0.deps.m(), feature_edge_map.m(), dep_edge_map.m(), visit_stack.v@); }")]

SPEC += r"""
// ---- the walk stops: every item is visited at most once, and there are finitely many
pub open spec fn fitems(k: KKey, n: nat) -> Set<Item> decreases n { if n == 0 { Set::empty().insert((k, None)) } else { fitems(k, (n - 1) as nat).insert((k, Some((n - 1) as usize))) } }
pub open spec fn univ(w: W, n: nat) -> Set<Item> decreases n { if n == 0 { Set::empty() } else { univ(w, (n - 1) as nat).union(fitems(kkey(&w.nodes[n - 1].id), w.nodes[n - 1].features@.len())) } }
pub open spec fn left(w: W, fm: Fm<'_>) -> Set<Item> { univ(w, w.nodes.len()).filter(|x: Item| !donef(fm, x)) }
pub open spec fn prog(fm0: Fm<'_>, st0: St<'_>, fm: Fm<'_>, st: St<'_>, it: Item) -> bool { (fm == fm0 && st == st0) || (donef(fm, it) && !donef(fm0, it) && forall|x: Item| #[trigger] donef(fm0, x) ==> donef(fm, x)) }
/// the roots pushed so far, each with all its features
pub open spec fn seeded(w: W, ks: Seq<&Kid>, st: St<'_>, n: int) -> bool { sto(w, st) && forall|i: int, o: Option<usize>| 0 <= i < n && (o is Some ==> o->0 < nd(w, kkey(ks[i])).features@.len()) ==> #[trigger] onst(st, (kkey(#[trigger] ks[i]), o)) }
pub open spec fn sfeats(w: W, k: Kid, s0: St<'_>, st: St<'_>, n: int) -> bool { stx(w, s0, st) && onst(st, (kkey(&k), None)) && forall|y: usize| y < n ==> #[trigger] onst(st, (kkey(&k), Some(y))) }
// ---- what the walk leaves is exactly what the rules say
/// the crate's recorded dependencies are its kept links, each once, with the features asked for
pub open spec fn exact_dep(w: W, k: KKey, m: Deps, d: int) -> bool {
    let q = tgt(w, k, d);
    &&& m.contains_key(q) <==> linkedP(w, D(w), k, d)
    &&& m.contains_key(q) ==> edges_ok(w, k, d, m[q].edges@) && (forall|y: usize| #[trigger] m[q].features@.contains(y) <==> featM(w, k, d, y))
    &&& forall|l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s) ==> edge_for(w, k, d, m[q].edges@, lk(w, k, d, l, s)->0)
}
pub open spec fn edge_for(w: W, k: KKey, d: int, es: Seq<DependencyEdge>, x: Link) -> bool { exists|i: int| 0 <= i < es.len() && em(w, k, d, #[trigger] es[i], x) }
/// C04, C07, C09: the crates of the graph, their enabled features, and their links
pub open spec fn exact(w: W, fm: Fm<'_>, dm: Dm<'_>) -> bool {
    &&& forall|k: KKey| #[trigger] fm.contains_key(k) <==> dm.contains_key(k)
    &&& forall|k: KKey| #[trigger] fm.contains_key(k) <==> D(w)((k, None)) && !excl(w, k)
    &&& forall|k: KKey| #[trigger] fm.contains_key(k) ==> known(w, k) && dm[k].is_root == w.roots.contains(k) && (forall|y: usize| #[trigger] fm[k].actual@.contains(y) <==> D(w)((k, Some(y)))) && (forall|d: int| #[trigger] isd(w, k, d) ==> exact_dep(w, k, dm[k].deps.m(), d)) && forall|q: KKey| #[trigger] dm[k].deps.m().contains_key(q) ==> isdq(w, k, q)
}
"""
LEM += r"""
proof fn fitems_has(k: KKey, n: nat) requires n <= usize::MAX ensures forall|x: Item| #[trigger] fitems(k, n).contains(x) <==> x.0 == k && (x.1 is Some ==> x.1->0 < n) decreases n
{
    if n > 0 {
        fitems_has(k, (n - 1) as nat); let y = (n - 1) as usize; let e: Item = (k, Some(y)); assert(y == n - 1);
        assert forall|x: Item| #[trigger] fitems(k, n).contains(x) <==> x.0 == k && (x.1 is Some ==> x.1->0 < n) by { assert(fitems(k, n).contains(x) <==> x == e || fitems(k, (n - 1) as nat).contains(x)); if x.0 == k && x.1 is Some && x.1->0 == y { assert(x == e); } }
    } else { let e: Item = (k, None); assert forall|x: Item| #[trigger] fitems(k, n).contains(x) <==> x.0 == k && (x.1 is Some ==> x.1->0 < n) by { if x.0 == k && x.1 is None { assert(x == e); } } }
}
proof fn univ_has(w: W, n: nat, i: int, x: Item) requires 0 <= i < n <= w.nodes.len(), x.0 == kkey(&w.nodes[i].id), x.1 is Some ==> x.1->0 < w.nodes[i].features@.len() ensures univ(w, n).contains(x) decreases n
{ axiom_vlen(w.nodes[n - 1].features); fitems_has(kkey(&w.nodes[n - 1].id), w.nodes[n - 1].features@.len()); if i < n - 1 { univ_has(w, (n - 1) as nat, i, x); } }
/// (a Vec has at most usize::MAX elements)
#[verifier::external_body] proof fn axiom_vlen<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { }
proof fn less_left(w: W, fm0: Fm<'_>, st0: St<'_>, fm: Fm<'_>, st: St<'_>, x: (&Kid, Option<usize>))
    requires wfw(w), itok(w, x), prog(fm0, st0, fm, st, itm(x)),
    ensures left(w, fm).len() <= left(w, fm0).len(), left(w, fm).len() == left(w, fm0).len() ==> st == st0,
{
    let it = itm(x); let n = w.nodes.len();
    if fm != fm0 || st != st0 {
        one_node(w, it.0); univ_has(w, n, ix(w, it.0), it);
        assert(left(w, fm0).contains(it));
        assert(left(w, fm).subset_of(left(w, fm0).remove(it)));
        vstd::set_lib::lemma_len_subset(left(w, fm), left(w, fm0).remove(it));
    }
}
proof fn inv_pop(w: W, fm: Fm<'_>, dm: Dm<'_>, st: St<'_>) requires inv(w, fm, dm, st, None), st.len() > 0, ensures inv(w, fm, dm, st.drop_last(), Some(itm(st.last()))), itok(w, st.last())
{
    let s1 = st.drop_last(); let it = itm(st.last()); let P = okP(w, fm, st, None); let Q = okP(w, fm, s1, Some(it));
    assert forall|x: Item| #[trigger] P(x) implies Q(x) by { if onst(st, x) { let j = choose|j: int| 0 <= j < st.len() && itm(#[trigger] st[j]) == x; if j < s1.len() { assert(itm(s1[j]) == x); } } }
    assert forall|k: KKey| #[trigger] fm.contains_key(k) implies nodeok(w, Q, k, fm[k], dm[k]) by { assert(nodeok(w, P, k, fm[k], dm[k])); cnode_mono(w, P, Q, k, fm[k], dm[k].deps.m()); }
    assert forall|x: Item| #[trigger] seed(w, x) implies Q(x) by { assert(P(x)); }
    assert forall|j: int| 0 <= j < s1.len() implies itok(w, #[trigger] s1[j]) by { assert(itok(w, st[j])); }
}
proof fn inv_start(w: W, st: St<'_>) requires sto(w, st), forall|x: Item| #[trigger] seed(w, x) ==> onst(st, x), ensures inv(w, Map::empty(), Map::empty(), st, None) { }
proof fn seeded_more(w: W, ks: Seq<&Kid>, n: int, s0: St<'_>, st: St<'_>, y: int) requires 0 < n <= ks.len(), seeded(w, ks, s0, n - 1), sfeats(w, *ks[n - 1], s0, st, y), y == nd(w, kkey(ks[n - 1])).features@.len() ensures seeded(w, ks, st, n)
{
    stx_trans(w, s0, s0, st);
    assert forall|j: int| 0 <= j < st.len() implies itok(w, #[trigger] st[j]) by { if j < s0.len() { assert(st[j] == s0[j]); assert(itok(w, s0[j])); } }
    assert forall|i: int, o: Option<usize>| 0 <= i < n && (o is Some ==> o->0 < nd(w, kkey(ks[i])).features@.len()) implies #[trigger] onst(st, (kkey(#[trigger] ks[i]), o)) by { if i < n - 1 { assert(onst(s0, (kkey(ks[i]), o))); } }
}
proof fn seeded_all(w: W, roots: &KSet<'_>, st: St<'_>) requires roots.listed(), w.roots == roots.m(), seeded(w, roots.keys(), st, roots.keys().len() as int), ensures inv(w, Map::empty(), Map::empty(), st, None)
{
    assert forall|x: Item| #[trigger] seed(w, x) implies onst(st, x) by { let i = choose|i: int| 0 <= i < roots.keys().len() && kkey(#[trigger] roots.keys()[i]) == x.0; assert(onst(st, (kkey(roots.keys()[i]), x.1))); }
    inv_start(w, st);
}
proof fn seed_ok(w: W, k: &Kid) requires wfw(w), k.wf(), w.roots.contains(kkey(k)), ensures known(w, kkey(k)), itok(w, (k, None)), forall|y: usize| y < nd(w, kkey(k)).features@.len() ==> #[trigger] itok(w, (k, Some(y)))
{
    let q = kkey(k);
    assert forall|o: Option<usize>| (o is Some ==> o->0 < nd(w, q).features@.len()) implies D(w)(#[trigger] itm((k, o))) by { let it: Item = (q, o); assert(seed(w, it)); assert(step(w, D(w), it)); closed(w, it); }
    assert(D(w)(itm((k, None))));
    assert forall|y: usize| y < nd(w, q).features@.len() implies #[trigger] itok(w, (k, Some(y))) by { assert(D(w)(itm((k, Some(y))))); }
}
/// a link is determined by its kind and its target
proof fn picks_same(ds: Seq<cm::Dependency>, r: NodeDep, x: DepKindInfo, y: DepKindInfo, o: bool)
    requires x.kind == y.kind, forall|t: Option<String>| targets_same(x.cfg, t) == targets_same(y.cfg, t),
    ensures forall|j: int| #[trigger] stands(ds, r, x, o, j) == stands(ds, r, y, o, j),
{
    assert forall|d: cm::Dependency| #[trigger] fits(r, x, d) == fits(r, y, d) by { assert(targets_same(x.cfg, d.target) == targets_same(y.cfg, d.target)); }
    assert forall|d: cm::Dependency| #[trigger] renames(r, x, d) == renames(r, y, d) by { assert(targets_same(x.cfg, d.target) == targets_same(y.cfg, d.target)); }
    assert(several(ds, r, x) == several(ds, r, y)) by {
        if several(ds, r, x) { let (i, j) = choose|i: int, j: int| 0 <= i < j < ds.len() && fits(r, x, #[trigger] ds[i]) && fits(r, x, #[trigger] ds[j]); assert(fits(r, y, ds[i]) && fits(r, y, ds[j])); }
        if several(ds, r, y) { let (i, j) = choose|i: int, j: int| 0 <= i < j < ds.len() && fits(r, y, #[trigger] ds[i]) && fits(r, y, #[trigger] ds[j]); assert(fits(r, x, ds[i]) && fits(r, x, ds[j])); }
    }
    assert(renamed(ds, r, x) == renamed(ds, r, y)) by {
        if renamed(ds, r, x) { let i = choose|i: int| 0 <= i < ds.len() && renames(r, x, #[trigger] ds[i]); assert(renames(r, y, ds[i])); }
        if renamed(ds, r, y) { let i = choose|i: int| 0 <= i < ds.len() && renames(r, y, #[trigger] ds[i]); assert(renames(r, x, ds[i])); }
    }
}
proof fn link_same(w: W, k: KKey, d: int, l: int, s: bool, l2: int, s2: bool)
    requires wfw(w), isl(w, k, d, l), isl(w, k, d, l2), lk(w, k, d, l, s) is Some, lk(w, k, d, l2, s2) is Some, lk(w, k, d, l, s)->0.kind == lk(w, k, d, l2, s2)->0.kind, lk(w, k, d, l, s)->0.cfg == lk(w, k, d, l2, s2)->0.cfg,
    ensures lk(w, k, d, l, s) == lk(w, k, d, l2, s2),
{
    reveal(lkv); keep_facts(w, k, d);
    let x = dep(w, k, d).dep_kinds@[l]; let y = dep(w, k, d).dep_kinds@[l2]; let ds = pk(w, k).dependencies@; let r = dep(w, k, d);
    assert(is_dk(w, k, d, x) && is_dk(w, k, d, y));
    picks_same(ds, r, x, y, w.opaque);
    let i = decl_of(w, k, d, x); let j = decl_of(w, k, d, y);
    assert(first_stands(ds, r, x, w.opaque, i) && first_stands(ds, r, y, w.opaque, j));
    assert(stands(ds, r, y, w.opaque, i) && stands(ds, r, x, w.opaque, j));
    assert(i == j);
}
/// a recorded edge is the edge of every link of its kind and target
proof fn edge_is(w: W, k: KKey, d: int, es: Seq<DependencyEdge>, l: int, s: bool)
    requires wfw(w), isl(w, k, d, l), lk(w, k, d, l, s) is Some, edges_ok(w, k, d, es), has_edge(es, lk(w, k, d, l, s)->0),
    ensures edge_for(w, k, d, es, lk(w, k, d, l, s)->0),
{
    reveal(sedge);
    let x = lk(w, k, d, l, s)->0; let i = choose|i: int| 0 <= i < es.len() && same_kc(#[trigger] es[i], x);
    assert(sedge(w, k, d, es[i]));
    let (l2, s2) = choose|l2: int, s2: bool| #[trigger] linkP(w, D(w), k, d, l2, s2) && em(w, k, d, es[i], lk(w, k, d, l2, s2)->0);
    link_same(w, k, d, l, s, l2, s2);
    assert(em(w, k, d, es[i], x));
}
/// a kept link, as far as the walk has gone, is recorded
proof fn link_rec(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, d: int, l: int, s: bool)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), linkP(w, okP(w, fm, Seq::empty(), None), k, d, l, s),
    ensures fm.contains_key(k), hasE(dm[k].deps.m(), tgt(w, k, d), lk(w, k, d, l, s)->0), edge_for(w, k, d, dm[k].deps.m()[tgt(w, k, d)].edges@, lk(w, k, d, l, s)->0), edges_ok(w, k, d, dm[k].deps.m()[tgt(w, k, d)].edges@),
{
    let P = okP(w, fm, Seq::empty(), None); let m = dm[k].deps.m(); let q = tgt(w, k, d);
    if s { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, P, k, f) && names_e(w, k, d, fe(w, k, f, i)); assert(donef(fm, (k, Some(f)))); assert(nodeok(w, P, k, fm[k], dm[k])); assert(isi(w, k, f, i)); assert(cFo(w, P, k, fe(w, k, f, i), fm[k].pending_weak.m(), m)); assert(isd(w, k, d)); assert(cEd(w, k, d, fe(w, k, f, i), fm[k].pending_weak.m(), m)); }
    else { assert(donef(fm, (k, None))); assert(nodeok(w, P, k, fm[k], dm[k])); assert(isd(w, k, d)); assert(rec_all(w, k, d, false, m)); }
    dix_is(w, k, d); assert(isl(w, k, d, l)); assert(hasE(m, q, lk(w, k, d, l, s)->0)); assert(m.contains_key(q)); assert(dep_ok(w, k, dix(w, k, q), m[q]));
    edge_is(w, k, d, m[q].edges@, l, s);
}
/// what is not on the stack and derivable has been visited, or its crate is excluded
proof fn walk_step(w: W, fm: Fm<'_>, dm: Dm<'_>, it: Item)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), step(w, okP(w, fm, Seq::empty(), None), it),
    ensures okP(w, fm, Seq::empty(), None)(it),
{
    let P = okP(w, fm, Seq::empty(), None);
    if seed(w, it) { }
    else if r1(w, P, it) { let f = choose|f: usize| #[trigger] fP(w, P, it.0, f); assert(donef(fm, (it.0, Some(f)))); assert(nodeok(w, P, it.0, fm[it.0], dm[it.0])); }
    else if r2(w, P, it) {
        let k = it.0; let y = it.1->0; let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, P, k, f) && simple_e(w, k, fe(w, k, f, i), y);
        assert(donef(fm, (k, Some(f)))); assert(nodeok(w, P, k, fm[k], dm[k])); assert(isi(w, k, f, i)); assert(cFo(w, P, k, fe(w, k, f, i), fm[k].pending_weak.m(), dm[k].deps.m())); assert(P((k, Some(y))));
    } else if r3(w, P, it) {
        let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, P, k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0));
        link_rec(w, fm, dm, k, d, l, s); let m = dm[k].deps.m(); let q = it.0; let es = m[q].edges@; assert(nodeok(w, P, k, fm[k], dm[k]));
        if it.1 is Some { let i = choose|i: int| 0 <= i < es.len() && em(w, k, d, #[trigger] es[i], lk(w, k, d, l, s)->0); assert(es[i].features@.contains(it.1->0)); assert(hasef(m, q, it.1->0)); assert(it == (q, Some(it.1->0))); } else { assert(it == (q, None::<usize>)); assert(m.contains_key(q)); }
    } else if r4(w, P, it) {
        let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(w, P, k, d, it.1->0) && tgt(w, k, d) == it.0; let y = it.1->0; strong_rec(w, fm, dm, k, d, y);
        assert(nodeok(w, P, k, fm[k], dm[k])); assert(it == (tgt(w, k, d), Some(y))); assert(hasf(dm[k].deps.m(), tgt(w, k, d), y));
    } else {
        let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(w, P, k, d, it.1->0) && linkedP(w, P, k, d) && tgt(w, k, d) == it.0; let y = it.1->0; weak_rec(w, fm, dm, k, d, y);
        assert(nodeok(w, P, k, fm[k], dm[k])); assert(it == (tgt(w, k, d), Some(y))); assert(hasf(dm[k].deps.m(), tgt(w, k, d), y));
    }
}
proof fn strong_rec(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, d: int, y: usize)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), strongP(w, okP(w, fm, Seq::empty(), None), k, d, y),
    ensures fm.contains_key(k), hasf(dm[k].deps.m(), tgt(w, k, d), y),
{
    let P = okP(w, fm, Seq::empty(), None); let m = dm[k].deps.m();
    let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, P, k, f) && strong_e(w, k, d, fe(w, k, f, i), y);
    assert(donef(fm, (k, Some(f)))); assert(nodeok(w, P, k, fm[k], dm[k])); assert(isi(w, k, f, i)); assert(cFo(w, P, k, fe(w, k, f, i), fm[k].pending_weak.m(), m)); assert(cEd(w, k, d, fe(w, k, f, i), fm[k].pending_weak.m(), m)); assert(strong_e(w, k, d, fe(w, k, f, i), y));
}
proof fn weak_rec(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, d: int, y: usize)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), weakP(w, okP(w, fm, Seq::empty(), None), k, d, y), linkedP(w, okP(w, fm, Seq::empty(), None), k, d),
    ensures fm.contains_key(k), hasf(dm[k].deps.m(), tgt(w, k, d), y),
{
    let P = okP(w, fm, Seq::empty(), None); let m = dm[k].deps.m(); let q = tgt(w, k, d);
    let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, P, k, f) && weak_e(w, k, d, fe(w, k, f, i), y);
    let (l, s) = choose|l: int, s: bool| #[trigger] linkP(w, P, k, d, l, s); link_rec(w, fm, dm, k, d, l, s);
    assert(donef(fm, (k, Some(f)))); assert(nodeok(w, P, k, fm[k], dm[k])); assert(isi(w, k, f, i)); assert(cFo(w, P, k, fe(w, k, f, i), fm[k].pending_weak.m(), m)); assert(cEd(w, k, d, fe(w, k, f, i), fm[k].pending_weak.m(), m)); assert(weak_e(w, k, d, fe(w, k, f, i), y));
    reveal(lkv); assert(isl(w, k, d, l) && lk(w, k, d, l, true) is Some); assert(canlink(w, k, d));
    assert(m.contains_key(q)); assert(!fm[k].pending_weak.m().contains_key(q));
}
/// C04, C07, C09: when the stack is empty, what was recorded is exactly what the rules say
proof fn walk_done(w: W, fm: Fm<'_>, dm: Dm<'_>)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None),
    ensures exact(w, fm, dm),
{
    let P = okP(w, fm, Seq::empty(), None);
    assert forall|it: Item| #[trigger] step(w, P, it) implies P(it) by { walk_step(w, fm, dm, it); }
    induct(w, P);
    assert forall|k: KKey| #[trigger] fm.contains_key(k) <==> D(w)((k, None)) && !excl(w, k) by {
        if D(w)((k, None)) && !excl(w, k) { assert(P((k, None))); }
        if fm.contains_key(k) { assert(nodeok(w, P, k, fm[k], dm[k])); }
    }
    assert forall|k: KKey| #[trigger] fm.contains_key(k) implies known(w, k) && dm[k].is_root == w.roots.contains(k) && (forall|y: usize| #[trigger] fm[k].actual@.contains(y) <==> D(w)((k, Some(y)))) && (forall|d: int| #[trigger] isd(w, k, d) ==> exact_dep(w, k, dm[k].deps.m(), d)) && forall|q: KKey| #[trigger] dm[k].deps.m().contains_key(q) ==> isdq(w, k, q) by {
        let m = dm[k].deps.m(); assert(nodeok(w, P, k, fm[k], dm[k]));
        assert forall|y: usize| #[trigger] fm[k].actual@.contains(y) <==> D(w)((k, Some(y))) by { if D(w)((k, Some(y))) { assert(P((k, Some(y)))); } }
        assert forall|d: int| #[trigger] isd(w, k, d) implies exact_dep(w, k, m, d) by { walk_dep(w, fm, dm, k, d); }
    }
}
proof fn walk_dep(w: W, fm: Fm<'_>, dm: Dm<'_>, k: KKey, d: int)
    requires wfw(w), inv(w, fm, dm, Seq::empty(), None), isd(w, k, d), fm.contains_key(k), forall|it: Item| #[trigger] D(w)(it) ==> okP(w, fm, Seq::empty(), None)(it),
    ensures exact_dep(w, k, dm[k].deps.m(), d),
{
    let P = okP(w, fm, Seq::empty(), None); let m = dm[k].deps.m(); let q = tgt(w, k, d); assert(nodeok(w, P, k, fm[k], dm[k])); dix_is(w, k, d);
    mono_f(w, D(w), P);
    assert forall|l: int, s: bool| #[trigger] linkP(w, D(w), k, d, l, s) implies m.contains_key(q) && edge_for(w, k, d, m[q].edges@, lk(w, k, d, l, s)->0) by { assert(linkP(w, P, k, d, l, s)); link_rec(w, fm, dm, k, d, l, s); }
    if m.contains_key(q) {
        assert(dep_ok(w, k, dix(w, k, q), m[q])); has_links(w, k, d, m[q].edges@);
        assert(linkedP(w, P, k, d));
        assert forall|y: usize| featM(w, k, d, y) implies #[trigger] m[q].features@.contains(y) by {
            if strongN(w, D(w), k, d, y) { assert(strongP(w, P, k, d, y)); strong_rec(w, fm, dm, k, d, y); } else { assert(weakP(w, P, k, d, y)); weak_rec(w, fm, dm, k, d, y); }
            assert(hasf(m, q, y));
        }
    }
}
"""
FNS += [
    Fn("seed_roots", B, BM, """fn seed_roots<'n>(roots: &'n KSet<'n>, nodes: &'n Vec<Node>, Ghost(w): Ghost<W>) -> (r: VisitStack<'n>)
    requires wfw(w), w.nodes == nodes@, w.roots == roots.m(),
    ensures inv(w, Map::empty(), Map::empty(), r.v@, None)""",
       select="stmts:let:visit_stack..=text:visit_stack.push(root)", methods=[("binary_search_by", "*", "vx_bsearch"), ("unwrap", "0", "vx_unwrap")], subst=[(r"&roots\b", "roots")],
       closures={0: "|vxp0: &Node| -> (o: Ordering) requires vxp0.id.wf(), root.wf(), ensures o == kid_cmp(&vxp0.id, *root)"},
       loops={0: forinv(0, "refs(roots.keys())", "seeded(w, roots.keys(), visit_stack.v@, vx_it0.i())"), 1: forinv(1, None, "sfeats(w, **root, s0, visit_stack.v@, vx_it1.i())")},
       at={"start": "hide(wfw); hide(itok); proof { roots.axiom_listed(); }", "l0_start": "let ghost s0 = visit_stack.v@; proof { assert(vx_s0[vx_it0.i() - 1] == root); seed_ok(w, *root); item_facts(w, *root); }",
           "l1_before": "proof { assert(krate_index == ix(w, kkey(*root))); stx_refl(w, s0); stx_push(w, s0, s0, (*root, None)); }",
           "l1_start": "let ghost t0 = visit_stack.v@;", "l1_end": "proof { assert(feat == vx_it1.i() - 1); assert(feat < nd(w, kkey(*root)).features@.len()); assert(itok(w, (*root, Some(feat)))); stx_push(w, s0, t0, (*root, Some(feat))); assert(visit_stack.v@ == t0.push((*root, Some(feat)))); assert forall|y: usize| y < vx_it1.i() implies #[trigger] onst(visit_stack.v@, (kkey(*root), Some(y))) by { if y < feat { assert(onst(t0, (kkey(*root), Some(y)))); } else { assert(itm((*root, Some(feat))) == (kkey(*root), Some(feat))); } } }",
           "l1_after": "proof { seeded_more(w, roots.keys(), vx_it0.i(), s0, visit_stack.v@, vx_it1.i()); }"}, ret="proof { seeded_all(w, roots, visit_stack.v@); } visit_stack"),
    Fn("visit_all", B, BM, """fn visit_all<'n, 'p>(""" + CFGP + """)
    requires """ + CFGR + """, inv(w, old(feature_edge_map).m(), old(dep_edge_map).m(), old(visit_stack).v@, None),
    ensures inv(w, final(feature_edge_map).m(), final(dep_edge_map).m(), final(visit_stack).v@, None), final(visit_stack).v@.len() == 0, exact(w, final(feature_edge_map).m(), final(dep_edge_map).m()), fg_all(w, old(feature_edge_map).m()) ==> fg_all(w, final(feature_edge_map).m())""",
       select="stmts:text:visit_stack.pop()..=text:visit_stack.pop()", cuts=[("loop:#0", "visit_item(pid, feature, " + CFGA + ")")],
       loops={0: """invariant """ + CFGR + """, inv(w, feature_edge_map.m(), dep_edge_map.m(), visit_stack.v@, None), stp == visit_stack.v@, fg_all(w, fm00) ==> fg_all(w, feature_edge_map.m()),

    decreases left(w, feature_edge_map.m()).len(), visit_stack.v@.len()"""},
       at={"start": "hide(wfw); hide(inv); let ghost fm00 = feature_edge_map.m(); let ghost mut stp = visit_stack.v@;",
           "l0_start": "let ghost fm0 = feature_edge_map.m(); let ghost st0 = visit_stack.v@; proof { inv_pop(w, fm0, dep_edge_map.m(), stp); }",
           "l0_end": "proof { less_left(w, fm0, st0, feature_edge_map.m(), visit_stack.v@, (pid, feature)); stp = visit_stack.v@; }"}, ret="proof { assert(visit_stack.v@ =~= Seq::<(&Kid, Option<usize>)>::empty()); walk_done(w, feature_edge_map.m(), dep_edge_map.m()); }"),
]

SPEC += r"""
// ---- C09, C20: what the feature lists of a crate refer to
/// the name a sub-feature has
pub open spec fn subopt(e: FeatureEdge<'_>) -> Option<Seq<char>> { match e.name { FeatureEdgeName::Feature(s) => Some(s@), FeatureEdgeName::Rename(s) => Some(s@), FeatureEdgeName::Krate => None } }
pub open spec fn subname(e: FeatureEdge<'_>) -> Seq<char> { match subopt(e) { Some(s) => s, None => decode_utf8(e.kid.part(0)) } }
pub open spec fn named_dep(n: Node, c: Seq<char>, q: KKey) -> bool { exists|d: int| 0 <= d < n.deps@.len() && (#[trigger] n.deps@[d]).named(c) && kkey(&n.deps@[d].pkg) == q }
/// the sub-feature is what an entry of a feature list refers to
pub open spec fn sub_of(n: Node, k: KKey, e: FeatS, x: FeatureEdge<'_>) -> bool {
    x.kid.wf() && match e {
        FeatS::Simple(s) => kkey(x.kid) == k && x.name is Feature && subname(x) == s,
        FeatS::Dep(c) => named_dep(n, c, kkey(x.kid)) && !(x.name is Feature) && subname(x) == c,
        FeatS::Strong(c, f) => named_dep(n, c, kkey(x.kid)) && x.name is Feature && subname(x) == f,
        FeatS::Weak(c, f) => named_dep(n, c, kkey(x.kid)) && x.name is Feature && subname(x) == f && is_text(n.features@, c),
    }
}
pub open spec fn from_entry(n: Node, k: KKey, l: Seq<String>, x: FeatureEdge<'_>) -> bool { exists|i: int| 0 <= i < l.len() && sub_of(n, k, feat_of((#[trigger] l[i]).b()), x) }
pub open spec fn fg_entry(n: Node, p: Package, k: KKey, e: (String, Vec<FeatureEdge<'_>>)) -> bool {
    is_text(n.features@, e.0@) && p.features.m().contains_key(e.0@) && forall|l: int| 0 <= l < e.1@.len() ==> from_entry(n, k, p.features.m()[e.0@]@, #[trigger] e.1@[l])
}
pub open spec fn fg_has(g: Seq<(String, Vec<FeatureEdge<'_>>)>, t: Seq<char>) -> bool { exists|j: int| 0 <= j < g.len() && (#[trigger] g[j]).0@ == t }
/// the enabled features that the crate declares, each with what its list refers to
pub open spec fn fg_ok(n: Node, p: Package, k: KKey, g: Seq<(String, Vec<FeatureEdge<'_>>)>) -> bool {
    &&& forall|j: int| 0 <= j < g.len() ==> fg_entry(n, p, k, #[trigger] g[j])
    &&& forall|t: Seq<char>| #[trigger] is_text(n.features@, t) && p.features.m().contains_key(t) ==> fg_has(g, t)
}
pub open spec fn fg_all(w: W, fm: Fm<'_>) -> bool { forall|k: KKey| #[trigger] fm.contains_key(k) ==> fg_ok(nd(w, k), pk(w, k), k, fm[k].graph@) }
"""
SPEC += r"""
pub open spec fn at_flat<U>(o: Seq<Option<U>>, j: int) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]) }
"""
LEM += r"""
proof fn flat_el2<U>(o: Seq<Option<U>>)
    ensures forall|j: int| 0 <= j < flat(o).len() ==> #[trigger] at_flat(o, j), forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> flat(o).contains(o[i]->0),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last(); let r = flat(p); flat_el2(p);
        assert forall|j: int| 0 <= j < flat(o).len() implies #[trigger] at_flat(o, j) by { if j < r.len() { assert(at_flat(p, j)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == Some(flat(p)[j]); assert(o[i] == Some(flat(o)[j])); } else { assert(o[o.len() - 1] == Some(flat(o)[j])); } }
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies flat(o).contains(o[i]->0) by { if i < p.len() { assert(p[i] == o[i]); let j = choose|j: int| 0 <= j < r.len() && r[j] == p[i]->0; assert(flat(o)[j] == o[i]->0); } else { assert(flat(o)[r.len() as int] == o[i]->0); } }
    }
}
"""
MF = MV + [("to_owned", "0", "vx_own"), ("clone", "0", "vx_clone"), ("filter_map", "*", "vx_filter_map"), ("find_map", "*", "vx_find_map"), ("collect", "0", "vx_collect")]
NF = [FF["dep_names_match"],
    Fn("get_dep_id", B, BM, """fn get_dep_id<'n>(rnode: &'n Node, vxq0: &str) -> (r: Option<&'n Kid>) requires forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(),
    ensures r is Some ==> r->0.wf() && named_dep(*rnode, vxq0@, kkey(r->0)), r is None ==> forall|d: int| 0 <= d < rnode.deps@.len() ==> !(#[trigger] rnode.deps@[d]).named(vxq0@)""",
       select=WL + ";let:get_dep_id;closure:#0", methods=MF,
       final="proof { let z = refs(rnode.deps@); assert forall|d: int| 0 <= d < rnode.deps@.len() implies *#[trigger] z[d] == rnode.deps@[d] by { } if vx_r is None { assert forall|d: int| 0 <= d < rnode.deps@.len() implies !(#[trigger] rnode.deps@[d]).named(vxq0@) by { assert(!z[d].named(vxq0@)); } } else { let d = choose|d: int| 0 <= d < z.len() && (#[trigger] z[d]).named(vxq0@) && &z[d].pkg == vx_r->0; assert(rnode.deps@[d].named(vxq0@)); } }",
       closures={0: "|vxp0: &'n NodeDep| -> (r: Option<&'n Kid>) requires vxp0.pkg.wf(), ensures r == (if vxp0.named(vxq0@) { Some(&vxp0.pkg) } else { None })"}),
    Fn("sub_entry", B, BM, """fn sub_entry<'n>(pid: &'n Kid, rnode: &'n Node, vxq0: &String, Ghost(k): Ghost<KKey>) -> (r: Option<FeatureEdge<'n>>) requires pid.wf(), k == kkey(pid), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(),
    ensures r is Some ==> sub_of(*rnode, k, feat_of(vxq0.b()), r->0)""",
       select=WL + ";let:krate_features;closure:#0;closure:#0;closure:#0", methods=MF, eqs=True, subst=[(r"\bget_dep_id\(", "get_dep_id(rnode, ")],
       closures={0: "|vxp0: &String| -> (r: bool) ensures r == (vxp0@ == krate_name@)"},
       at={"start": "proof { all_text(); assert forall|u: Seq<char>| decode_utf8(#[trigger] encode_utf8(u)) == u by { text_of(u); } assert forall|r: Feature<'_>| #[trigger] classified(r, vxq0.b()) implies fview(r) == feat_of(vxq0.b()) by { feat_is(r, vxq0.b()); } let z = refs(rnode.features@); assert forall|i: int| 0 <= i < rnode.features@.len() implies *#[trigger] z[i] == rnode.features@[i] by { } }"}),
    Fn("features_graph", B, BM, """fn features_graph<'n>(pid: &'n Kid, rnode: &'n Node, krate: &Package, Ghost(k): Ghost<KKey>) -> (r: Vec<(String, Vec<FeatureEdge<'n>>)>) requires pid.wf(), k == kkey(pid), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(),
    ensures fg_ok(*rnode, *krate, k, r@)""",
       select=WL + ";let:krate_features;closure:#0;stmts:let:graph..=let:graph", methods=MF, cuts=[("closure:#0;closure:#0", "|sub_feat| sub_entry(pid, rnode, sub_feat, Ghost(k))")], ret="graph",
       at={"let_sub_feats": "proof { let l = krate.features.m()[feat@]@; let z = refs(l); let o = choose|o: Seq<Option<FeatureEdge<'n>>>| o.len() == z.len() && sub_feats@ == #[trigger] flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> (o[i] is Some ==> sub_of(*rnode, k, feat_of(z[i].b()), o[i]->0)); flat_el2(o); assert forall|j: int| 0 <= j < sub_feats@.len() implies from_entry(*rnode, k, l, #[trigger] sub_feats@[j]) by { assert(at_flat(o, j)); let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]); assert(sub_of(*rnode, k, feat_of(l[i].b()), sub_feats@[j])); } }",
           "let_graph": """proof { let fs = rnode.features@; let z = refs(fs); let o = choose|o: Seq<Option<(String, Vec<FeatureEdge<'n>>)>>| o.len() == z.len() && graph@ == #[trigger] flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> (o[i] is None <==> !krate.features.m().contains_key(z[i]@)) && (o[i] is Some ==> (o[i]->0).0@ == z[i]@ && (is_text(fs, z[i]@) ==> fg_entry(*rnode, *krate, k, o[i]->0))); flat_el2(o);
               assert forall|j: int| 0 <= j < graph@.len() implies fg_entry(*rnode, *krate, k, #[trigger] graph@[j]) by { assert(at_flat(o, j)); let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]); assert(fs[i]@ == z[i]@); assert(is_text(fs, z[i]@)); }
               assert forall|t: Seq<char>| #[trigger] is_text(fs, t) && krate.features.m().contains_key(t) implies fg_has(graph@, t) by { let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i])@ == t; assert(z[i]@ == t); assert(o[i] is Some); assert(flat(o).contains(o[i]->0)); let j = choose|j: int| 0 <= j < flat(o).len() && flat(o)[j] == o[i]->0; assert(graph@[j].0@ == t); } }"""},
       closures={0: "|vxp0: &'n String| -> (r: Option<(String, Vec<FeatureEdge<'n>>)>) requires pid.wf(), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(), ensures r is None <==> !krate.features.m().contains_key(vxp0@), r is Some ==> (r->0).0@ == vxp0@ && (is_text(rnode.features@, vxp0@) ==> fg_entry(*rnode, *krate, k, r->0))",
                 1: "|vxp0: &String| -> (r: Option<FeatureEdge<'n>>) requires pid.wf(), forall|d: int| 0 <= d < rnode.deps@.len() ==> (#[trigger] rnode.deps@[d]).pkg.wf(), ensures r is Some ==> sub_of(*rnode, k, feat_of(vxp0.b()), r->0)"}),
]
FNS = NF + FNS
UNITS = [Unit("visit", ["C04", "C07", "C09", "C10", "C19"], prelude=["str", "iter", "order", "streq", "chars", "opt", "coll", "semver", "cfgexpr", "meta", "map", "kmap"], types=TYPES, mods=dict(_meta.MODS), spec=SPEC, lemmas=lit("dep:", "?/") + LEM + features.LEMMAS + build.LEM[build.LEM.index("proof fn same_cmp"):build.LEM.index("proof fn part_len")] + filt.LEM[:filt.LEM.index("/// without any setting")] , fns=FNS)]
