from _common import *
import _meta, build, visit, whole, top, prep, index
# C03: the order of the document's arrays plays no part in which crates are included
SPEC = top.SPEC[:-len("".join(top.stub(n) for n in top.U))] + r"""
// ---- two readings that say the same
pub open spec fn texts_same(a: Seq<String>, b: Seq<String>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@ }
pub open spec fn kind_same(x: DepKindInfo, y: DepKindInfo) -> bool { x.kind == y.kind && (x.cfg is Some <==> y.cfg is Some) && (x.cfg is Some ==> x.cfg->0.inner@ == y.cfg->0.inner@ && x.cfg->0.cfg == y.cfg->0.cfg) }
pub open spec fn has_kind(s: Seq<DepKindInfo>, x: DepKindInfo) -> bool { exists|m: int| 0 <= m < s.len() && kind_same(x, #[trigger] s[m]) }
pub open spec fn kinds_in(s: Seq<DepKindInfo>, t: Seq<DepKindInfo>) -> bool { forall|l: int| 0 <= l < s.len() ==> has_kind(t, #[trigger] s[l]) }
pub open spec fn dep_same(x: NodeDep, y: NodeDep) -> bool { x.name@ == y.name@ && kkey(&x.pkg) == kkey(&y.pkg) && x.version == y.version && kinds_in(x.dep_kinds@, y.dep_kinds@) && kinds_in(y.dep_kinds@, x.dep_kinds@) }
pub open spec fn has_dep(s: Seq<NodeDep>, x: NodeDep) -> bool { exists|c: int| 0 <= c < s.len() && dep_same(x, #[trigger] s[c]) }
pub open spec fn deps_in(s: Seq<NodeDep>, t: Seq<NodeDep>) -> bool { forall|d: int| 0 <= d < s.len() ==> has_dep(t, #[trigger] s[d]) }
pub open spec fn node_same(n: Node, m: Node) -> bool { kkey(&n.id) == kkey(&m.id) && texts_same(n.features@, m.features@) && n.has_default_feature == m.has_default_feature && deps_in(n.deps@, m.deps@) && deps_in(m.deps@, n.deps@) }
pub open spec fn texts_in(a: Seq<String>, b: Seq<String>) -> bool { forall|i: int| 0 <= i < a.len() ==> is_text(b, (#[trigger] a[i])@) }
pub open spec fn texts_like(a: Seq<String>, b: Seq<String>) -> bool { texts_in(a, b) && texts_in(b, a) }
pub open spec fn lists_like(a: Map<Seq<char>, Vec<String>>, b: Map<Seq<char>, Vec<String>>) -> bool { forall|k: Seq<char>| (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> texts_like(a[k]@, b[k]@)) }
/// the same declaration, its features in any order
pub open spec fn decl_like(d: cm::Dependency, e: cm::Dependency) -> bool { e == (cm::Dependency { features: e.features, ..d }) && texts_like(d.features@, e.features@) }
pub open spec fn sends(a: Seq<cm::Dependency>, b: Seq<cm::Dependency>, f: spec_fn(int) -> int) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] f(i) < b.len() && decl_like(a[i], b[f(i)])
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] f(i) != #[trigger] f(j)
}
/// the same declarations, each as often
pub open spec fn decls_in(a: Seq<cm::Dependency>, b: Seq<cm::Dependency>) -> bool { exists|f: spec_fn(int) -> int| #[trigger] sends(a, b, f) }
pub open spec fn has_lib(b: Seq<cm::Target>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < b.len() && is_lib(#[trigger] b[i]) && b[i].name@ == n }
/// the same libraries: one at most
pub open spec fn libs_in(a: Seq<cm::Target>, b: Seq<cm::Target>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() && is_lib(#[trigger] a[i]) ==> has_lib(b, a[i].name@)
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && is_lib(#[trigger] a[i]) && is_lib(#[trigger] a[j]) ==> i == j
}
/// the same package, the arrays in it in any order
pub open spec fn pkg_same(p: Package, q: Package) -> bool {
    &&& p.name@ == q.name@ && p.version == q.version && p.source == q.source && p.manifest_path == q.manifest_path
    &&& lists_like(p.features.m(), q.features.m()) && decls_in(p.dependencies@, q.dependencies@) && decls_in(q.dependencies@, p.dependencies@) && libs_in(p.targets@, q.targets@) && libs_in(q.targets@, p.targets@)
}
pub open spec fn pk_same(p: Pk, q: Pk) -> bool { kkey(&p.0) == kkey(&q.0) && pkg_same(p.1, q.1) }
pub open spec fn nodes_same(a: Seq<Node>, b: Seq<Node>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> node_same(#[trigger] a[i], b[i]) }
pub open spec fn pks_same(a: Seq<Pk>, b: Seq<Pk>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> pk_same(#[trigger] a[i], b[i]) }
pub open spec fn same_w(v: W, w: W) -> bool {
    &&& nodes_same(v.nodes, w.nodes) && pks_same(v.pkgs, w.pkgs)
    &&& forall|k: KKey| #[trigger] has_kid(v.ws, k) <==> has_kid(w.ws, k)
    &&& forall|k: KKey| #[trigger] v.roots.contains(k) <==> w.roots.contains(k)
    &&& forall|n: Seq<char>, x: Version, r: Seq<char>| #[trigger] (v.rn)(n, x, r) <==> (w.rn)(n, x, r)
    &&& v.exc == w.exc && v.ignore == w.ignore && v.all == w.all && v.ts == w.ts && v.opaque == w.opaque
}
/// w says what v says, the other way round
pub open spec fn both(v: W, w: W) -> bool { wfw(v) && wfw(w) && sole(v) && sole(w) && same_w(v, w) }
/// a link stands for one declaration
pub open spec fn sole(w: W) -> bool { forall|k: KKey, d: int, l: int, i: int, j: int| #[trigger] isl(w, k, d, l) && #[trigger] stands(pk(w, k).dependencies@, dep(w, k, d), dep(w, k, d).dep_kinds@[l], w.opaque, i) && #[trigger] stands(pk(w, k).dependencies@, dep(w, k, d), dep(w, k, d).dep_kinds@[l], w.opaque, j) ==> i == j }
"""
SPEC += r"""
// ---- two documents with the same things in their arrays, in any order
pub open spec fn ckind_same(x: cm::DepKindInfo, y: cm::DepKindInfo) -> bool { x.kind == y.kind && (x.target is Some <==> y.target is Some) && (x.target is Some ==> x.target->0@ == y.target->0@) }
pub open spec fn has_ckind(s: Seq<cm::DepKindInfo>, x: cm::DepKindInfo) -> bool { exists|m: int| 0 <= m < s.len() && ckind_same(x, #[trigger] s[m]) }
pub open spec fn ckinds_in(s: Seq<cm::DepKindInfo>, t: Seq<cm::DepKindInfo>) -> bool { forall|l: int| 0 <= l < s.len() ==> has_ckind(t, #[trigger] s[l]) }
pub open spec fn cdep_same(x: cm::NodeDep, y: cm::NodeDep) -> bool { x.name@ == y.name@ && x.pkg.repr@ == y.pkg.repr@ && ckinds_in(x.dep_kinds@, y.dep_kinds@) && ckinds_in(y.dep_kinds@, x.dep_kinds@) }
pub open spec fn has_cdep(s: Seq<cm::NodeDep>, x: cm::NodeDep) -> bool { exists|c: int| 0 <= c < s.len() && cdep_same(x, #[trigger] s[c]) }
pub open spec fn cdeps_in(s: Seq<cm::NodeDep>, t: Seq<cm::NodeDep>) -> bool { forall|d: int| 0 <= d < s.len() ==> has_cdep(t, #[trigger] s[d]) }
pub open spec fn cnode_same(n: cm::Node, m: cm::Node) -> bool { n.id.repr@ == m.id.repr@ && texts_in(n.features@, m.features@) && texts_in(m.features@, n.features@) && cdeps_in(n.deps@, m.deps@) && cdeps_in(m.deps@, n.deps@) }
pub open spec fn has_cnode(s: Seq<cm::Node>, x: cm::Node) -> bool { exists|c: int| 0 <= c < s.len() && cnode_same(x, #[trigger] s[c]) }
pub open spec fn cnodes_in(s: Seq<cm::Node>, t: Seq<cm::Node>) -> bool { forall|d: int| 0 <= d < s.len() ==> has_cnode(t, #[trigger] s[d]) }
pub open spec fn has_id(s: Seq<PackageId>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).repr@ == t }
pub open spec fn ids_in(s: Seq<PackageId>, t: Seq<PackageId>) -> bool { forall|i: int| 0 <= i < s.len() ==> has_id(t, (#[trigger] s[i]).repr@) }
pub open spec fn cpkg_same(p: Package, q: Package) -> bool { p.id.repr@ == q.id.repr@ && pkg_same(p, q) }
pub open spec fn has_cpkg(t: Seq<Package>, p: Package) -> bool { exists|j: int| 0 <= j < t.len() && cpkg_same(p, #[trigger] t[j]) }
pub open spec fn pkgs_in(s: Seq<Package>, t: Seq<Package>) -> bool { forall|i: int| 0 <= i < s.len() ==> has_cpkg(t, #[trigger] s[i]) }
/// the arrays packages, workspace_members and nodes, deps, features and dep_kinds of each node, dependencies, targets and feature lists of each package (the ids are all of one form, the old or the new)
pub open spec fn docs_same(a: cm::Metadata, c: cm::Metadata) -> bool {
    &&& a.resolve is Some && c.resolve is Some && pkgs_in(a.packages@, c.packages@) && pkgs_in(c.packages@, a.packages@)
    &&& cnodes_in(a.resolve->0.nodes@, c.resolve->0.nodes@) && cnodes_in(c.resolve->0.nodes@, a.resolve->0.nodes@) && old_ids(a.resolve->0.nodes@) == old_ids(c.resolve->0.nodes@)
    &&& ids_in(a.workspace_members@, c.workspace_members@) && ids_in(c.workspace_members@, a.workspace_members@)
    &&& (a.resolve->0.root is Some <==> c.resolve->0.root is Some) && (a.resolve->0.root is Some ==> a.resolve->0.root->0.repr@ == c.resolve->0.root->0.repr@)
    &&& a.workspace_root.b() == c.workspace_root.b()
}
/// the index answers the same question the same way
pub open spec fn steady(o: Option<IndexX>) -> bool { o is Some ==> forall|q: spec_fn(Seq<char>) -> bool, c: Cache, d: Cache| #[trigger] o->0.gives(q, c) && #[trigger] o->0.gives(q, d) ==> c.m() == d.m() }
"""
LEM = build.LEM[build.LEM.index("proof fn same_cmp"):build.LEM.index("proof fn part_len")] + prep.pick(visit.LEM, "one_node") + top.LEM[:top.LEM.index("proof fn only_roots")] + r"""
proof fn kinds_back(x: DepKindInfo, y: DepKindInfo) requires kind_same(x, y) ensures kind_same(y, x) { }
proof fn dep_back(x: NodeDep, y: NodeDep) requires dep_same(x, y) ensures dep_same(y, x) { }
proof fn node_back(x: Node, y: Node) requires node_same(x, y) ensures node_same(y, x) { assert(texts_same(y.features@, x.features@)) by { assert forall|i: int| 0 <= i < y.features@.len() implies (#[trigger] y.features@[i])@ == x.features@[i]@ by { assert(x.features@[i]@ == y.features@[i]@); } } }
proof fn pk_back(x: Pk, y: Pk) requires pk_same(x, y) ensures pk_same(y, x) {
    hide(decls_in); hide(libs_in); let a = x.1.features.m(); let b = y.1.features.m();
    assert forall|k: Seq<char>| (#[trigger] b.contains_key(k) <==> a.contains_key(k)) && (b.contains_key(k) ==> texts_like(b[k]@, a[k]@)) by { assert(a.contains_key(k) <==> b.contains_key(k)); }
}
proof fn both_back(v: W, w: W)
    requires both(v, w),
    ensures both(w, v),
{
    hide(wfw); hide(node_same); hide(pk_same); hide(sole);
    assert forall|i: int| 0 <= i < w.nodes.len() implies node_same(#[trigger] w.nodes[i], v.nodes[i]) by { node_back(v.nodes[i], w.nodes[i]); }
    assert forall|i: int| 0 <= i < w.pkgs.len() implies pk_same(#[trigger] w.pkgs[i], v.pkgs[i]) by { pk_back(v.pkgs[i], w.pkgs[i]); }
    assert forall|k: KKey| #[trigger] has_kid(w.ws, k) <==> has_kid(v.ws, k) by { assert(has_kid(v.ws, k) <==> has_kid(w.ws, k)); }
    assert forall|k: KKey| #[trigger] w.roots.contains(k) <==> v.roots.contains(k) by { assert(v.roots.contains(k) <==> w.roots.contains(k)); }
    assert forall|n: Seq<char>, x: Version, r: Seq<char>| #[trigger] (w.rn)(n, x, r) <==> (v.rn)(n, x, r) by { assert((v.rn)(n, x, r) <==> (w.rn)(n, x, r)); }
}
proof fn w_ok(w: W) requires wfw(w) ensures nodes_ok(w.nodes), w.pkgs.len() == w.nodes.len() { }
proof fn w_d(w: W, k: KKey, d: int) requires wfw(w), isd(w, k, d) ensures known(w, tgt(w, k, d)) { }
proof fn w_l(w: W, k: KKey, d: int, l: int) requires wfw(w), isl(w, k, d, l) ensures link_ok(w, k, d, l) { }
/// the same node, the same package
proof fn c_known(v: W, w: W, k: KKey)
    requires both(v, w), known(v, k),
    ensures known(w, k), ix(v, k) == ix(w, k), node_same(nd(v, k), nd(w, k)), pkg_same(pk(v, k), pk(w, k)),
{
    hide(wfw); hide(node_same); hide(pkg_same);
    w_ok(v); w_ok(w); one_node(v, k); let i = ix(v, k); assert(node_same(v.nodes[i], w.nodes[i])); reveal(node_same); assert(is_node(w.nodes, k, i)); one_node(w, k); assert(pk_same(v.pkgs[i], w.pkgs[i]));
}
proof fn c_excl(v: W, w: W, k: KKey)
    requires both(v, w), known(v, k),
    ensures excl(v, k) == excl(w, k),
{
    hide(wfw); reveal(excl); c_known(v, w, k);
    assert forall|s: PkgSpec| excluded(s, pk(v, k)) == excluded(s, pk(w, k)) by { }
    if excl(v, k) { let i = choose|i: int| 0 <= i < v.exc.len() && excluded(#[trigger] v.exc[i], pk(v, k)); assert(excluded(w.exc[i], pk(w, k))); }
    if excl(w, k) { let i = choose|i: int| 0 <= i < w.exc.len() && excluded(#[trigger] w.exc[i], pk(w, k)); assert(excluded(v.exc[i], pk(v, k))); }
}
proof fn b_same(a: String, b: String) requires a@ == b@ ensures a.b() == b.b() { }
/// the same entries
proof fn c_ent(v: W, w: W, k: KKey, f: usize, i: int)
    requires both(v, w), isi(v, k, f, i),
    ensures exists|j: int| #[trigger] isi(w, k, f, j) && fe(v, k, f, i) == fe(w, k, f, j),
{
    hide(wfw); hide(sole); hide(decls_in); hide(libs_in); c_known(v, w, k);
    let t = nd(v, k).features@[f as int]@; assert(nd(w, k).features@[f as int]@ == t);
    let a = pk(v, k).features.m(); let b = pk(w, k).features.m(); assert(a.contains_key(t) <==> b.contains_key(t)); assert(texts_like(a[t]@, b[t]@)); assert(is_text(b[t]@, a[t]@[i]@)); let j = choose|j: int| 0 <= j < b[t]@.len() && (#[trigger] b[t]@[j])@ == a[t]@[i]@; b_same(a[t]@[i], b[t]@[j]); assert(isi(w, k, f, j));
}
proof fn c_fidx(n: Node, m: Node, t: Seq<char>, y: usize) requires node_same(n, m) ensures is_fidx(n, t, y) == is_fidx(m, t, y) { if y < n.features@.len() { assert(n.features@[y as int]@ == m.features@[y as int]@); } }
proof fn c_part(x: Kid, y: Kid) requires kkey(&x) == kkey(&y) ensures x.part(0) == y.part(0), x.part(1) == y.part(1), x.part(2) == y.part(2) { }
proof fn c_res(v: W, w: W, x: NodeDep, y: NodeDep, n: Seq<char>) requires same_w(v, w), dep_same(x, y) ensures resolves(v, x, n) == resolves(w, y, n) { c_part(x.pkg, y.pkg); assert((v.rn)(n, x.version, x.name@) <==> (w.rn)(n, x.version, x.name@)); }
proof fn c_fits(x: NodeDep, y: NodeDep, l: DepKindInfo, m: DepKindInfo, d: cm::Dependency, e: cm::Dependency, o: bool)
    requires dep_same(x, y), kind_same(l, m), decl_like(d, e),
    ensures fits(x, l, d) == fits(y, m, e), renames(x, l, d) == renames(y, m, e), source_same(d, x.pkg.part(2), o) == source_same(e, y.pkg.part(2), o),
{ hide(texts_like); c_part(x.pkg, y.pkg); }
proof fn c_several(a: Seq<cm::Dependency>, b: Seq<cm::Dependency>, x: NodeDep, y: NodeDep, l: DepKindInfo, m: DepKindInfo)
    requires dep_same(x, y), kind_same(l, m), decls_in(a, b),
    ensures several(a, x, l) ==> several(b, y, m), renamed(a, x, l) ==> renamed(b, y, m),
{
    hide(fits); hide(renames); hide(decl_like); hide(dep_same); hide(kind_same);
    let f = choose|f: spec_fn(int) -> int| #[trigger] sends(a, b, f);
    if several(a, x, l) { let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && fits(x, l, #[trigger] a[i]) && fits(x, l, #[trigger] a[j]); c_fits(x, y, l, m, a[i], b[f(i)], true); c_fits(x, y, l, m, a[j], b[f(j)], true); assert(f(i) != f(j)); let (g, h) = (f(i), f(j)); assert(fits(y, m, b[g]) && fits(y, m, b[h])); }
    if renamed(a, x, l) { let i = choose|i: int| 0 <= i < a.len() && renames(x, l, #[trigger] a[i]); let g = f(i); c_fits(x, y, l, m, a[i], b[g], true); assert(renames(y, m, b[g])); }
}
pub open spec fn goes(a: Seq<cm::Dependency>, b: Seq<cm::Dependency>, y: NodeDep, m: DepKindInfo, o: bool, j: int, i: int) -> bool { stands(b, y, m, o, i) && decl_like(a[j], b[i]) }
proof fn c_stands(a: Seq<cm::Dependency>, b: Seq<cm::Dependency>, x: NodeDep, y: NodeDep, l: DepKindInfo, m: DepKindInfo, o: bool, j: int)
    requires dep_same(x, y), kind_same(l, m), decls_in(a, b), decls_in(b, a), stands(a, x, l, o, j),
    ensures exists|i: int| #[trigger] goes(a, b, y, m, o, j, i),
{
    hide(fits); hide(renames); hide(source_same); hide(decl_like); hide(several); hide(renamed); hide(dep_same); hide(kind_same);
    let f = choose|f: spec_fn(int) -> int| #[trigger] sends(a, b, f);
    dep_back(x, y); kinds_back(l, m);
    c_several(a, b, x, y, l, m); c_several(b, a, y, x, m, l); let i = f(j); c_fits(x, y, l, m, a[j], b[i], o); assert(goes(a, b, y, m, o, j, i));
}
/// among what stands, there is a first
proof fn c_first(ds: Seq<cm::Dependency>, x: NodeDep, l: DepKindInfo, o: bool, j: int)
    requires stands(ds, x, l, o, j),
    ensures exists|i: int| first_stands(ds, x, l, o, i),
    decreases j,
{ hide(picks); if exists|i: int| 0 <= i < j && #[trigger] stands(ds, x, l, o, i) { let i = choose|i: int| 0 <= i < j && #[trigger] stands(ds, x, l, o, i); c_first(ds, x, l, o, i); } else { assert(first_stands(ds, x, l, o, j)); } }
/// the declaration a link stands for
proof fn c_decl(v: W, w: W, k: KKey, d: int, l: int, c: int, m: int)
    requires both(v, w), meets(v, w, k, d, l, c, m),
    ensures decl_like(pk(v, k).dependencies@[decl_of(v, k, d, dep(v, k, d).dep_kinds@[l])], pk(w, k).dependencies@[decl_of(w, k, c, dep(w, k, c).dep_kinds@[m])]),
{
    hide(wfw); hide(dep_same); hide(kind_same); hide(picks); hide(node_same); hide(lists_like); hide(libs_in); hide(decls_in); hide(decl_like);
    let a = pk(v, k).dependencies@; let b = pk(w, k).dependencies@; let x = dep(v, k, d); let y = dep(w, k, c); let g = x.dep_kinds@[l]; let h = y.dep_kinds@[m];
    c_known(v, w, k); w_l(v, k, d, l); w_l(w, k, c, m);
    let z = choose|j: int| #[trigger] stands(a, x, g, v.opaque, j); c_first(a, x, g, v.opaque, z); let q = choose|j: int| #[trigger] stands(b, y, h, w.opaque, j); c_first(b, y, h, w.opaque, q);
    let i = decl_of(v, k, d, g); let j = decl_of(w, k, c, h); assert(first_stands(a, x, g, v.opaque, i)); assert(first_stands(b, y, h, w.opaque, j));
    c_stands(a, b, x, y, g, h, v.opaque, i); let e = choose|e: int| #[trigger] goes(a, b, y, h, v.opaque, i, e); assert(isl(w, k, c, m)); assert(stands(b, y, h, w.opaque, e)); assert(e == j);
}
proof fn c_target(l: DepKindInfo, m: DepKindInfo, all: bool, ts: Seq<TargetFilter>) requires kind_same(l, m) ensures target_ok(l, all, ts) == target_ok(m, all, ts) { if l.cfg is Some { b_same(l.cfg->0.inner, m.cfg->0.inner); } }
/// dependency d of the one is dependency c of the other, and its link l is link m
pub open spec fn meets(v: W, w: W, k: KKey, d: int, l: int, c: int, m: int) -> bool { isl(v, k, d, l) && isl(w, k, c, m) && dep_same(dep(v, k, d), dep(w, k, c)) && kind_same(dep(v, k, d).dep_kinds@[l], dep(w, k, c).dep_kinds@[m]) }
pub open spec fn meets_d(v: W, w: W, k: KKey, d: int, c: int) -> bool { isd(v, k, d) && isd(w, k, c) && dep_same(dep(v, k, d), dep(w, k, c)) && tgt(v, k, d) == tgt(w, k, c) }
proof fn c_dep(v: W, w: W, k: KKey, d: int)
    requires both(v, w), isd(v, k, d),
    ensures exists|c: int| #[trigger] meets_d(v, w, k, d, c),
{ hide(wfw); hide(dep_same); c_known(v, w, k); assert(has_dep(nd(w, k).deps@, nd(v, k).deps@[d])); let c = choose|c: int| 0 <= c < nd(w, k).deps@.len() && dep_same(nd(v, k).deps@[d], #[trigger] nd(w, k).deps@[c]); reveal(dep_same); assert(meets_d(v, w, k, d, c)); }
proof fn c_kind(v: W, w: W, k: KKey, d: int, c: int, l: int)
    requires meets_d(v, w, k, d, c), isl(v, k, d, l),
    ensures exists|m: int| #[trigger] meets(v, w, k, d, l, c, m),
{ hide(kind_same); assert(has_kind(dep(w, k, c).dep_kinds@, dep(v, k, d).dep_kinds@[l])); let m = choose|m: int| 0 <= m < dep(w, k, c).dep_kinds@.len() && kind_same(dep(v, k, d).dep_kinds@[l], #[trigger] dep(w, k, c).dep_kinds@[m]); assert(meets(v, w, k, d, l, c, m)); }
proof fn c_link(v: W, w: W, k: KKey, d: int, l: int, c: int, m: int, s: bool)
    requires both(v, w), meets(v, w, k, d, l, c, m), tgt(v, k, d) == tgt(w, k, c),
    ensures lk(v, k, d, l, s) is Some <==> lk(w, k, c, m, s) is Some, forall|y: usize| lk(v, k, d, l, s) is Some ==> #[trigger] lfeat(v, k, d, lk(v, k, d, l, s)->0, y) == lfeat(w, k, c, lk(w, k, c, m, s)->0, y),
{
    hide(wfw); hide(sole); hide(dep_same); hide(node_same); hide(picks); hide(target_ok); hide(lists_like); hide(libs_in); hide(decls_in); hide(stands); hide(decl_of); hide(texts_like);
    let a = dep(v, k, d).dep_kinds@[l]; let b = dep(w, k, c).dep_kinds@[m];
    c_known(v, w, k); w_d(v, k, d); w_d(w, k, c); c_known(v, w, tgt(v, k, d)); w_l(v, k, d, l);
    c_decl(v, w, k, d, l, c, m);
    c_target(a, b, v.all, v.ts);
    assert(in_ws(v, k) == in_ws(w, k)) by { assert(has_kid(v.ws, k) <==> has_kid(w.ws, k)); }
    assert(nd(v, tgt(v, k, d)).has_default_feature == nd(w, tgt(w, k, c)).has_default_feature) by { reveal(node_same); }
    reveal(lkv);
    if lk(v, k, d, l, s) is Some {
        let x = lk(v, k, d, l, s)->0; let z = lk(w, k, c, m, s)->0;
        assert forall|y: usize| #[trigger] lfeat(v, k, d, x, y) == lfeat(w, k, c, z, y) by {
            reveal(lfeat);
            assert forall|t: Seq<char>| #[trigger] asks(v, k, x, t) == asks(w, k, z, t) by { c_text(pk(v, k).dependencies@[x.decl].features@, pk(w, k).dependencies@[z.decl].features@, t); }
            assert forall|t: Seq<char>| #[trigger] is_fidx(nd(v, tgt(v, k, d)), t, y) == is_fidx(nd(w, tgt(w, k, c)), t, y) by { c_fidx(nd(v, tgt(v, k, d)), nd(w, tgt(w, k, c)), t, y); }
            if lfeat(v, k, d, x, y) { let t = choose|t: Seq<char>| #[trigger] asks(v, k, x, t) && is_fidx(nd(v, tgt(v, k, d)), t, y); assert(asks(v, k, x, t) == asks(w, k, z, t)); assert(is_fidx(nd(v, tgt(v, k, d)), t, y)); }
            if lfeat(w, k, c, z, y) { let t = choose|t: Seq<char>| #[trigger] asks(w, k, z, t) && is_fidx(nd(w, tgt(w, k, c)), t, y); assert(asks(v, k, x, t) == asks(w, k, z, t)); assert(is_fidx(nd(v, tgt(v, k, d)), t, y)); }
        }
    }
}
proof fn c_text(a: Seq<String>, b: Seq<String>, t: Seq<char>) requires texts_like(a, b) ensures is_text(a, t) == is_text(b, t) { if is_text(a, t) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == t; assert(is_text(b, a[i]@)); } if is_text(b, t) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == t; assert(is_text(a, b[i]@)); } }
"""
LEM += r"""
proof fn c_f(v: W, w: W, p: Prd, k: KKey, f: usize)
    requires both(v, w), fP(v, p, k, f),
    ensures fP(w, p, k, f),
{ hide(wfw); hide(node_same); c_known(v, w, k); c_excl(v, w, k); assert(nd(v, k).features@.len() == nd(w, k).features@.len()) by { reveal(node_same); } }
proof fn c_names(v: W, w: W, k: KKey, d: int, c: int, e: FeatS, y: usize)
    requires both(v, w), meets_d(v, w, k, d, c),
    ensures names_e(v, k, d, e) == names_e(w, k, c, e), strong_e(v, k, d, e, y) == strong_e(w, k, c, e, y), weak_e(v, k, d, e, y) == weak_e(w, k, c, e, y),
{
    hide(wfw); hide(dep_same); hide(node_same); hide(resolves);
    w_d(v, k, d); c_known(v, w, tgt(v, k, d));
    let a = dep(v, k, d); let b = dep(w, k, c);
    assert forall|n: Seq<char>| #[trigger] resolves(v, a, n) == resolves(w, b, n) by { reveal(resolves); c_res(v, w, a, b, n); }
    match e { FeatS::Strong(n, t) => { assert(resolves(v, a, n) == resolves(w, b, n)); c_fidx(nd(v, tgt(v, k, d)), nd(w, tgt(w, k, c)), t, y); } FeatS::Weak(n, t) => { assert(resolves(v, a, n) == resolves(w, b, n)); c_fidx(nd(v, tgt(v, k, d)), nd(w, tgt(w, k, c)), t, y); } FeatS::Dep(n) => { assert(resolves(v, a, n) == resolves(w, b, n)); } _ => { } }
}
proof fn c_named(v: W, w: W, p: Prd, k: KKey, d: int, c: int)
    requires both(v, w), meets_d(v, w, k, d, c), namedP(v, p, k, d),
    ensures namedP(w, p, k, c),
{
    hide(wfw); hide(dep_same); hide(fP); hide(names_e); hide(meets_d);
    let (f, i) = choose|f: usize, i: int| #[trigger] isi(v, k, f, i) && fP(v, p, k, f) && names_e(v, k, d, fe(v, k, f, i));
    c_f(v, w, p, k, f); c_ent(v, w, k, f, i); let j = choose|j: int| #[trigger] isi(w, k, f, j) && fe(v, k, f, i) == fe(w, k, f, j); c_names(v, w, k, d, c, fe(v, k, f, i), 0); assert(isi(w, k, f, j) && fP(w, p, k, f) && names_e(w, k, c, fe(w, k, f, j)));
}
proof fn c_strong(v: W, w: W, p: Prd, k: KKey, d: int, c: int, y: usize)
    requires both(v, w), meets_d(v, w, k, d, c),
    ensures strongN(v, p, k, d, y) ==> strongN(w, p, k, c, y), weakP(v, p, k, d, y) ==> weakP(w, p, k, c, y),
{
    hide(wfw); hide(dep_same); hide(fP); hide(strong_e); hide(weak_e);
    if strongN(v, p, k, d, y) {
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(v, k, f, i) && fP(v, p, k, f) && strong_e(v, k, d, fe(v, k, f, i), y);
        c_f(v, w, p, k, f); c_ent(v, w, k, f, i); let j = choose|j: int| #[trigger] isi(w, k, f, j) && fe(v, k, f, i) == fe(w, k, f, j); c_names(v, w, k, d, c, fe(v, k, f, i), y); assert(isi(w, k, f, j) && fP(w, p, k, f) && strong_e(w, k, c, fe(w, k, f, j), y));
    }
    if weakP(v, p, k, d, y) {
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(v, k, f, i) && fP(v, p, k, f) && weak_e(v, k, d, fe(v, k, f, i), y);
        c_f(v, w, p, k, f); c_ent(v, w, k, f, i); let j = choose|j: int| #[trigger] isi(w, k, f, j) && fe(v, k, f, i) == fe(w, k, f, j); c_names(v, w, k, d, c, fe(v, k, f, i), y); assert(isi(w, k, f, j) && fP(w, p, k, f) && weak_e(w, k, c, fe(w, k, f, j), y));
    }
}
proof fn c_kept(v: W, w: W, p: Prd, k: KKey, d: int, l: int, c: int, m: int, s: bool)
    requires both(v, w), meets_d(v, w, k, d, c), meets(v, w, k, d, l, c, m), linkP(v, p, k, d, l, s),
    ensures linkP(w, p, k, c, m, s),
{ hide(wfw); hide(dep_same); hide(kind_same); hide(namedP); hide(lk); c_excl(v, w, k); c_link(v, w, k, d, l, c, m, s); if s { c_named(v, w, p, k, d, c); } }
proof fn c_linked(v: W, w: W, p: Prd, k: KKey, d: int, c: int)
    requires both(v, w), meets_d(v, w, k, d, c), linkedP(v, p, k, d),
    ensures linkedP(w, p, k, c),
{ hide(wfw); hide(meets_d); hide(meets); hide(linkP); let (l, s) = choose|l: int, s: bool| #[trigger] linkP(v, p, k, d, l, s); assert(isl(v, k, d, l)) by { reveal(linkP); } c_kind(v, w, k, d, c, l); let m = choose|m: int| #[trigger] meets(v, w, k, d, l, c, m); c_kept(v, w, p, k, d, l, c, m, s); assert(linkP(w, p, k, c, m, s)); }
proof fn c_can(v: W, w: W, k: KKey, d: int, c: int)
    requires both(v, w), meets_d(v, w, k, d, c), canlink(v, k, d),
    ensures canlink(w, k, c),
{ hide(wfw); hide(meets); hide(dep_same); hide(lk); let l = choose|l: int| #[trigger] isl(v, k, d, l) && lk(v, k, d, l, true) is Some; c_kind(v, w, k, d, c, l); let m = choose|m: int| #[trigger] meets(v, w, k, d, l, c, m); assert(tgt(v, k, d) == tgt(w, k, c)); c_link(v, w, k, d, l, c, m, true); assert(isl(w, k, c, m)) by { reveal(meets); } }
proof fn c_step(v: W, w: W, p: Prd, it: Item)
    requires both(v, w), step(v, p, it),
    ensures step(w, p, it),
{
    hide(wfw); hide(fP); hide(linkP); hide(strongN); hide(weakP); hide(linkedP); hide(meets); hide(meets_d); hide(canlink); hide(node_same); hide(isi);
    if seed(v, it) { assert(v.roots.contains(it.0) <==> w.roots.contains(it.0)); w_root(v, it.0); c_known(v, w, it.0); assert(nd(v, it.0).features@.len() == nd(w, it.0).features@.len()) by { reveal(node_same); } assert(seed(w, it)); }
    else if r1(v, p, it) { let f = choose|f: usize| #[trigger] fP(v, p, it.0, f); c_f(v, w, p, it.0, f); assert(r1(w, p, it)); }
    else if r2(v, p, it) {
        let (f, i) = choose|f: usize, i: int| #[trigger] isi(v, it.0, f, i) && fP(v, p, it.0, f) && simple_e(v, it.0, fe(v, it.0, f, i), it.1->0);
        c_f(v, w, p, it.0, f); c_ent(v, w, it.0, f, i); let j = choose|j: int| #[trigger] isi(w, it.0, f, j) && fe(v, it.0, f, i) == fe(w, it.0, f, j); assert(known(v, it.0)) by { reveal(fP); } c_known(v, w, it.0); if fe(v, it.0, f, i) is Simple { c_fidx(nd(v, it.0), nd(w, it.0), fe(v, it.0, f, i)->Simple_0, it.1->0); } assert(isi(w, it.0, f, j) && fP(w, p, it.0, f) && simple_e(w, it.0, fe(w, it.0, f, j), it.1->0)); assert(r2(w, p, it));
    } else if r3(v, p, it) {
        let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(v, p, k, d, l, s) && tgt(v, k, d) == it.0 && (it.1 is Some ==> lfeat(v, k, d, lk(v, k, d, l, s)->0, it.1->0));
        assert(isl(v, k, d, l) && isd(v, k, d) && lk(v, k, d, l, s) is Some) by { reveal(linkP); }
        c_dep(v, w, k, d); let c = choose|c: int| #[trigger] meets_d(v, w, k, d, c); c_kind(v, w, k, d, c, l); let m = choose|m: int| #[trigger] meets(v, w, k, d, l, c, m);
        assert(tgt(v, k, d) == tgt(w, k, c)) by { reveal(meets_d); }
        c_link(v, w, k, d, l, c, m, s); c_kept(v, w, p, k, d, l, c, m, s); if it.1 is Some { assert(lfeat(v, k, d, lk(v, k, d, l, s)->0, it.1->0)); } assert(linkP(w, p, k, c, m, s)); assert(r3(w, p, it));
    } else if r4(v, p, it) {
        let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(v, p, k, d, it.1->0) && tgt(v, k, d) == it.0; assert(isd(v, k, d)) by { reveal(strongN); }
        c_dep(v, w, k, d); let c = choose|c: int| #[trigger] meets_d(v, w, k, d, c); assert(tgt(v, k, d) == tgt(w, k, c)) by { reveal(meets_d); }
        c_strong(v, w, p, k, d, c, it.1->0); c_can(v, w, k, d, c); assert(strongP(w, p, k, c, it.1->0)); assert(r4(w, p, it));
    } else {
        let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(v, p, k, d, it.1->0) && linkedP(v, p, k, d) && tgt(v, k, d) == it.0; assert(isd(v, k, d)) by { reveal(weakP); }
        c_dep(v, w, k, d); let c = choose|c: int| #[trigger] meets_d(v, w, k, d, c); assert(tgt(v, k, d) == tgt(w, k, c)) by { reveal(meets_d); }
        c_strong(v, w, p, k, d, c, it.1->0); c_linked(v, w, p, k, d, c); assert(weakP(w, p, k, c, it.1->0)); assert(r5(w, p, it));
    }
}
proof fn w_root(w: W, k: KKey) requires wfw(w), w.roots.contains(k) ensures known(w, k) { }
proof fn c_mono(w: W, p: Prd, q: Prd)
    requires forall|x: Item| #[trigger] p(x) ==> q(x),
    ensures forall|k: KKey, f: usize| #[trigger] fP(w, p, k, f) ==> fP(w, q, k, f), forall|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) ==> linkP(w, q, k, d, l, s),
        forall|k: KKey, d: int, y: usize| #[trigger] strongN(w, p, k, d, y) ==> strongN(w, q, k, d, y), forall|k: KKey, d: int, y: usize| #[trigger] weakP(w, p, k, d, y) ==> weakP(w, q, k, d, y), forall|k: KKey, d: int| #[trigger] linkedP(w, p, k, d) ==> linkedP(w, q, k, d),
{
    hide(lk); hide(names_e); hide(strong_e); hide(weak_e); hide(isi); hide(isl); hide(isd);
    assert forall|k: KKey, f: usize| #[trigger] fP(w, p, k, f) implies fP(w, q, k, f) by { }
    assert forall|k: KKey, d: int| #[trigger] namedP(w, p, k, d) implies namedP(w, q, k, d) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && names_e(w, k, d, fe(w, k, f, i)); assert(isi(w, k, f, i) && fP(w, q, k, f)); }
    assert forall|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) implies linkP(w, q, k, d, l, s) by { if s { assert(namedP(w, p, k, d)); } }
    assert forall|k: KKey, d: int, y: usize| #[trigger] strongN(w, p, k, d, y) implies strongN(w, q, k, d, y) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && strong_e(w, k, d, fe(w, k, f, i), y); assert(isi(w, k, f, i) && fP(w, q, k, f)); }
    assert forall|k: KKey, d: int, y: usize| #[trigger] weakP(w, p, k, d, y) implies weakP(w, q, k, d, y) by { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, k, f, i) && fP(w, p, k, f) && weak_e(w, k, d, fe(w, k, f, i), y); assert(isi(w, k, f, i) && fP(w, q, k, f)); }
    assert forall|k: KKey, d: int| #[trigger] linkedP(w, p, k, d) implies linkedP(w, q, k, d) by { let (l, s) = choose|l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s); assert(linkP(w, q, k, d, l, s)); }
}
/// the rules only ever add
proof fn c_more(w: W, p: Prd, q: Prd, it: Item)
    requires step(w, p, it), forall|x: Item| #[trigger] p(x) ==> q(x),
    ensures step(w, q, it),
{
    hide(fP); hide(linkP); hide(strongN); hide(weakP); hide(linkedP); hide(lk); hide(simple_e); hide(isi); hide(canlink);
    c_mono(w, p, q);
    if r1(w, p, it) { let f = choose|f: usize| #[trigger] fP(w, p, it.0, f); assert(fP(w, q, it.0, f)); }
    else if r2(w, p, it) { let (f, i) = choose|f: usize, i: int| #[trigger] isi(w, it.0, f, i) && fP(w, p, it.0, f) && simple_e(w, it.0, fe(w, it.0, f, i), it.1->0); assert(isi(w, it.0, f, i) && fP(w, q, it.0, f)); }
    else if r3(w, p, it) { let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)); assert(linkP(w, q, k, d, l, s)); }
    else if r4(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(w, p, k, d, it.1->0) && tgt(w, k, d) == it.0; assert(strongP(w, q, k, d, it.1->0)); }
    else if r5(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(w, p, k, d, it.1->0) && linkedP(w, p, k, d) && tgt(w, k, d) == it.0; assert(weakP(w, q, k, d, it.1->0)); }
}
proof fn c_at(v: W, w: W, n: nat, it: Item)
    requires both(v, w), at_(v, n)(it),
    ensures at_(w, n)(it),
    decreases n,
{
    hide(both); hide(step);
    if n > 0 {
        let p = at_(v, (n - 1) as nat); let q = at_(w, (n - 1) as nat);
        assert forall|x: Item| #[trigger] p(x) implies q(x) by { c_at(v, w, (n - 1) as nat, x); }
        if !p(it) { c_step(v, w, p, it); c_more(w, p, q, it); }
    }
}
proof fn c_in(v: W, w: W, k: KKey)
    requires both(v, w), inG(v, k),
    ensures inG(w, k),
{
    hide(wfw); let n = choose|n: nat| #[trigger] drv(v, n, (k, None)); c_at(v, w, n, (k, None)); assert(drv(w, n, (k, None))); in_known(v, n, (k, None)); c_excl(v, w, k);
}
proof fn in_known(w: W, n: nat, it: Item)
    requires wfw(w), at_(w, n)(it),
    ensures known(w, it.0),
    decreases n,
{
    hide(wfw); hide(lk);
    if n > 0 {
        let p = at_(w, (n - 1) as nat);
        if p(it) { in_known(w, (n - 1) as nat, it); }
        else if seed(w, it) { w_root(w, it.0); }
        else if r3(w, p, it) { let (k, d, l, s) = choose|k: KKey, d: int, l: int, s: bool| #[trigger] linkP(w, p, k, d, l, s) && tgt(w, k, d) == it.0 && (it.1 is Some ==> lfeat(w, k, d, lk(w, k, d, l, s)->0, it.1->0)); w_d(w, k, d); }
        else if r4(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] strongP(w, p, k, d, it.1->0) && tgt(w, k, d) == it.0; w_d(w, k, d); }
        else if r5(w, p, it) { let (k, d) = choose|k: KKey, d: int| #[trigger] weakP(w, p, k, d, it.1->0) && linkedP(w, p, k, d) && tgt(w, k, d) == it.0; w_d(w, k, d); }
    }
}
/// the same crates are included
proof fn same_crates(v: W, w: W)
    requires both(v, w),
    ensures forall|k: KKey| #[trigger] inG(v, k) <==> inG(w, k),
{
    hide(both); hide(inG); both_back(v, w);
    assert forall|k: KKey| #[trigger] inG(v, k) <==> inG(w, k) by { if inG(v, k) { c_in(v, w, k); } if inG(w, k) { c_in(w, v, k); } }
}
"""
LEM += r"""
proof fn same_texts(a: Seq<String>, b: Seq<String>, i: int)
    requires 0 <= i < a.len(), forall|i: int, j: int| 0 <= i < j < a.len() ==> lex((#[trigger] a[i]).b(), (#[trigger] a[j]).b()) == Ordering::Less, forall|i: int, j: int| 0 <= i < j < b.len() ==> lex((#[trigger] b[i]).b(), (#[trigger] b[j]).b()) == Ordering::Less, texts_in(a, b), texts_in(b, a),
    ensures i < b.len(), a[i]@ == b[i]@,
    decreases i,
{
    assert forall|j: int| 0 <= j < i implies j < b.len() && (#[trigger] a[j])@ == b[j]@ by { same_texts(a, b, j); }
    assert(is_text(b, a[i]@)); let p = choose|p: int| 0 <= p < b.len() && (#[trigger] b[p])@ == a[i]@; b_same(b[p], a[i]);
    if p < i { b_same(a[p], b[p]); lex_eq(a[p].b(), a[i].b()); }
    if p > i {
        assert(is_text(a, b[i]@)); let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q])@ == b[i]@; b_same(a[q], b[i]);
        assert(lex(b[i].b(), b[p].b()) == Ordering::Less); lex_eq(b[i].b(), b[p].b());
        if q < i { b_same(a[q], b[q]); assert(lex(b[q].b(), b[i].b()) == Ordering::Less); lex_eq(b[q].b(), b[i].b()); }
        if q > i { assert(lex(a[i].b(), a[q].b()) == Ordering::Less); lex_rev(a[i].b(), a[q].b()); }
    }
}
proof fn feats_same(n: cm::Node, m: cm::Node, x: Node, y: Node)
    requires cnode_same(n, m), reads_node(n, x), reads_node(m, y),
    ensures texts_same(x.features@, y.features@), x.has_default_feature == y.has_default_feature,
{
    hide(dep_is); hide(cdeps_in); hide(deps_perm);
    let a = x.features@; let b = y.features@; perm_facts(n.features@, a); perm_facts(m.features@, b);
    assert(texts_in(a, b)) by { assert forall|i: int| 0 <= i < a.len() implies is_text(b, (#[trigger] a[i])@) by { assert(n.features@.contains(a[i])); let u = choose|u: int| 0 <= u < n.features@.len() && n.features@[u] == a[i]; assert(is_text(m.features@, n.features@[u]@)); let z = choose|z: int| 0 <= z < m.features@.len() && (#[trigger] m.features@[z])@ == a[i]@; assert(m.features@.contains(m.features@[z])); assert(b.contains(m.features@[z])); } }
    assert(texts_in(b, a)) by { assert forall|i: int| 0 <= i < b.len() implies is_text(a, (#[trigger] b[i])@) by { assert(m.features@.contains(b[i])); let u = choose|u: int| 0 <= u < m.features@.len() && m.features@[u] == b[i]; assert(is_text(n.features@, m.features@[u]@)); let z = choose|z: int| 0 <= z < n.features@.len() && (#[trigger] n.features@[z])@ == b[i]@; assert(n.features@.contains(n.features@[z])); assert(a.contains(n.features@[z])); } }
    assert forall|i: int| 0 <= i < a.len() implies i < b.len() && (#[trigger] a[i])@ == b[i]@ by { same_texts(a, b, i); }
    assert(a.len() == b.len()) by { if a.len() > b.len() { same_texts(a, b, b.len() as int); } if b.len() > a.len() { same_texts(b, a, a.len() as int); } }
    let t = "default"@;
    if has_f(x, t) { let u = choose|u: usize| is_fidx(x, t, u); assert(a[u as int]@ == b[u as int]@); assert(is_fidx(y, t, u)); }
    if has_f(y, t) { let u = choose|u: usize| is_fidx(y, t, u); assert(a[u as int]@ == b[u as int]@); assert(is_fidx(x, t, u)); }
}
proof fn dk_same(n: cm::NodeDep, m: cm::NodeDep, x: NodeDep, y: NodeDep)
    requires ckinds_in(n.dep_kinds@, m.dep_kinds@), dep_is(n, x), dep_is(m, y),
    ensures kinds_in(x.dep_kinds@, y.dep_kinds@),
{
    assert forall|l: int| 0 <= l < x.dep_kinds@.len() implies has_kind(y.dep_kinds@, #[trigger] x.dep_kinds@[l]) by {
        let a = n.dep_kinds@[l]; assert(kind_is(a, x.dep_kinds@[l])); assert(has_ckind(m.dep_kinds@, a)); let z = choose|z: int| 0 <= z < m.dep_kinds@.len() && ckind_same(a, #[trigger] m.dep_kinds@[z]);
        assert(kind_is(m.dep_kinds@[z], y.dep_kinds@[z])); assert(kind_same(x.dep_kinds@[l], y.dep_kinds@[z]));
    }
}
proof fn d_same(n: cm::NodeDep, m: cm::NodeDep, x: NodeDep, y: NodeDep)
    requires cdep_same(n, m), dep_is(n, x), dep_is(m, y),
    ensures dep_same(x, y),
{ dk_same(n, m, x, y); dk_same(m, n, y, x); c_part(x.pkg, y.pkg); }
proof fn ds_same(s: Seq<cm::NodeDep>, t: Seq<cm::NodeDep>, x: Seq<NodeDep>, y: Seq<NodeDep>)
    requires cdeps_in(s, t), deps_perm(s, x), deps_perm(t, y),
    ensures deps_in(x, y),
{
    hide(dep_is); hide(cdep_same); hide(dep_same);
    let c = choose|c: Seq<NodeDep>| #[trigger] deps_are(s, c) && perm(c, x); perm_facts(c, x); let e = choose|e: Seq<NodeDep>| #[trigger] deps_are(t, e) && perm(e, y); perm_facts(e, y);
    assert forall|d: int| 0 <= d < x.len() implies has_dep(y, #[trigger] x[d]) by {
        assert(c.contains(x[d])); let i = choose|i: int| 0 <= i < c.len() && c[i] == x[d]; assert(dep_is(s[i], c[i])); assert(has_cdep(t, s[i])); let j = choose|j: int| 0 <= j < t.len() && cdep_same(s[i], #[trigger] t[j]); assert(dep_is(t[j], e[j]));
        d_same(s[i], t[j], c[i], e[j]); assert(e.contains(e[j])); assert(y.contains(e[j])); let z = choose|z: int| 0 <= z < y.len() && y[z] == e[j]; assert(dep_same(x[d], y[z]));
    }
}
proof fn n_same(n: cm::Node, m: cm::Node, x: Node, y: Node)
    requires cnode_same(n, m), reads_node(n, x), reads_node(m, y),
    ensures node_same(x, y),
{ hide(deps_perm); hide(cdeps_in); hide(deps_in); hide(texts_same); hide(texts_in); feats_same(n, m, x, y); ds_same(n.deps@, m.deps@, x.deps@, y.deps@); ds_same(m.deps@, n.deps@, y.deps@, x.deps@); }
/// the nodes come the same
proof fn ns_same(s: Seq<cm::Node>, t: Seq<cm::Node>, x: Seq<Node>, y: Seq<Node>)
    requires cnodes_in(s, t), cnodes_in(t, s), nodes_perm(s, x), nodes_perm(t, y), nodes_ok(x), nodes_ok(y),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> nid(#[trigger] t[i]) != nid(#[trigger] t[j]),
    ensures nodes_same(x, y),
{
    hide(cnodes_in); hide(from_n); hide(node_same); hide(nodes_perm);
    node_from(s, x); node_from(t, y); let a = nkids(x); let b = nkids(y);
    assert forall|k: KKey| #[trigger] has_kid(a, k) <==> has_kid(b, k) by { if has_kid(a, k) { keys_in(s, t, x, y, k); } if has_kid(b, k) { keys_in(t, s, y, x, k); } }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies k_less(&#[trigger] a[i], &#[trigger] a[j]) by { assert(k_less(&x[i].id, &x[j].id)); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies k_less(&#[trigger] b[i], &#[trigger] b[j]) by { assert(k_less(&y[i].id, &y[j].id)); }
    assert(a.len() == b.len()) by { if a.len() > b.len() { same_keys(a, b, b.len() as int); } if b.len() > a.len() { same_keys(b, a, a.len() as int); } }
    assert forall|i: int| 0 <= i < x.len() implies node_same(#[trigger] x[i], y[i]) by {
        same_keys(a, b, i); assert(a[i] == x[i].id && b[i] == y[i].id);
        assert(from_n(s, x[i])); assert(from_n(t, y[i])); n_one(s, t, x[i], y[i]);
    }
}
proof fn n_one(s: Seq<cm::Node>, t: Seq<cm::Node>, x: Node, y: Node)
    requires cnodes_in(s, t), from_n(s, x), from_n(t, y), kkey(&x.id) == kkey(&y.id), forall|i: int, j: int| 0 <= i < j < t.len() ==> nid(#[trigger] t[i]) != nid(#[trigger] t[j]),
    ensures node_same(x, y),
{
    hide(reads_node); hide(cnode_same); hide(node_same);
    let u = choose|u: int| 0 <= u < s.len() && reads_node(#[trigger] s[u], x); assert(has_cnode(t, s[u])); let c = choose|c: int| 0 <= c < t.len() && cnode_same(s[u], #[trigger] t[c]);
    let e = choose|e: int| 0 <= e < t.len() && reads_node(#[trigger] t[e], y);
    assert(nid(t[c]) == nid(t[e])) by { reveal(reads_node); reveal(cnode_same); }
    assert(c == e) by { if c < e { assert(nid(t[c]) != nid(t[e])); } if e < c { assert(nid(t[e]) != nid(t[c])); } }
    n_same(s[u], t[c], x, y);
}
proof fn keys_in(s: Seq<cm::Node>, t: Seq<cm::Node>, x: Seq<Node>, y: Seq<Node>, k: KKey)
    requires cnodes_in(s, t), nodes_perm(s, x), nodes_perm(t, y), has_kid(nkids(x), k),
    ensures has_kid(nkids(y), k),
{
    hide(nodes_perm); hide(deps_perm); hide(cdeps_in); hide(texts_in);
    node_from(s, x); node_from(t, y); let a = nkids(x); let b = nkids(y);
    let i = choose|i: int| 0 <= i < a.len() && kkey(&#[trigger] a[i]) == k; assert(a[i] == x[i].id); assert(from_n(s, x[i])); let u = choose|u: int| 0 <= u < s.len() && reads_node(#[trigger] s[u], x[i]); assert(has_cnode(t, s[u])); let c = choose|c: int| 0 <= c < t.len() && cnode_same(s[u], #[trigger] t[c]);
    assert(has_node(y, nid(t[c]))); let j = choose|j: int| is_node(y, nid(t[c]), j); assert(kkey(&b[j]) == k);
}
proof fn ids_same(s: Seq<PackageId>, t: Seq<PackageId>, x: Seq<Kid>, y: Seq<Kid>, k: KKey)
    requires ids_in(s, t), reads_ids(s, x), reads_ids(t, y), has_kid(x, k),
    ensures has_kid(y, k),
{
    let c = choose|c: Seq<Kid>| #[trigger] ids_are(s, c) && perm(c, x); perm_facts(c, x); let e = choose|e: Seq<Kid>| #[trigger] ids_are(t, e) && perm(e, y); perm_facts(e, y);
    let i = choose|i: int| 0 <= i < x.len() && kkey(&#[trigger] x[i]) == k; assert(c.contains(x[i])); let u = choose|u: int| 0 <= u < c.len() && c[u] == x[i]; assert(kkey(&c[u]) == id_key(s[u].repr@)); assert(has_id(t, s[u].repr@)); let z = choose|z: int| 0 <= z < t.len() && (#[trigger] t[z]).repr@ == s[u].repr@;
    assert(e[z].wf() && kkey(&e[z]) == id_key(t[z].repr@)); assert(e.contains(e[z])); assert(y.contains(e[z])); let j = choose|j: int| 0 <= j < y.len() && y[j] == e[z]; assert(kkey(&y[j]) == k);
}
pub open spec fn gave(ps: Seq<Package>, o: Option<IndexX>, c: CachingIndex) -> bool { o is Some ==> o->0.gives(doc_names(ps), c.cache) }
pub open spec fn doc_names(ps: Seq<Package>) -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_doc_name(ps, n) }
pub open spec fn is_doc_name(ps: Seq<Package>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name@ == n }
pub open spec fn comes(o: Option<IndexX>, c: CachingIndex, q: Package, x: Pk) -> bool { pid(q) == kkey(&x.0) && if o is Some { fix_of(c, q, x.1) } else { x.1 == q } }
pub open spec fn comes_in(ps: Seq<Package>, o: Option<IndexX>, c: CachingIndex, x: Pk) -> bool { exists|j: int| 0 <= j < ps.len() && comes(o, c, #[trigger] ps[j], x) }
pub open spec fn all_come(ps: Seq<Package>, o: Option<IndexX>, p: Seq<Pk>, c: CachingIndex) -> bool { gave(ps, o, c) && forall|i: int| 0 <= i < p.len() ==> comes_in(ps, o, c, #[trigger] p[i]) }
/// where each package comes from
proof fn pkgs_come(ps: Seq<Package>, o: Option<IndexX>, p: Seq<Pk>)
    requires reads_pkgs(ps, o, p),
    ensures exists|c: CachingIndex| #[trigger] all_come(ps, o, p, c),
{
    hide(fix_of);
    let p0 = choose|p0: Seq<Pk>| loaded(ps, p0) && #[trigger] indexed(o, p0, p); perm_facts(ps, pks(p0));
    let c = choose|c: CachingIndex| o is Some ==> (#[trigger] fixes(c, p0, p) && o->0.gives(ix_names_of(p0), c.cache));
    if o is Some {
        let c1 = choose|c: CachingIndex| #[trigger] fixes(c, p0, p) && o->0.gives(ix_names_of(p0), c.cache); assert(fixes(c1, p0, p));
        assert forall|n: Seq<char>| #[trigger] ix_is_name(p0, n) == is_doc_name(ps, n) by {
            if ix_is_name(p0, n) { let i = choose|i: int| 0 <= i < p0.len() && (#[trigger] p0[i]).1.name@ == n; assert(pks(p0)[i] == p0[i].1); assert(ps.contains(pks(p0)[i])); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == pks(p0)[i]; assert(ps[j].name@ == n); }
            if is_doc_name(ps, n) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).name@ == n; assert(ps.contains(ps[j])); assert(pks(p0).contains(ps[j])); let i = choose|i: int| 0 <= i < pks(p0).len() && pks(p0)[i] == ps[j]; assert(p0[i].1.name@ == n); }
        }
        assert(ix_names_of(p0) =~= doc_names(ps));
    }
    assert(p.len() == p0.len());
    assert forall|i: int| 0 <= i < p.len() implies comes_in(ps, o, c, #[trigger] p[i]) by {
        assert(pks(p0)[i] == p0[i].1); assert(ps.contains(pks(p0)[i])); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == pks(p0)[i]; assert(keyed(p0[i])); assert(comes(o, c, ps[j], p[i]));
    }
    assert(all_come(ps, o, p, c));
}
/// the same cache, the same correction
proof fn fix_same(c: CachingIndex, d: CachingIndex, a: Package, b: Package, x: Package, y: Package)
    requires fix_of(c, a, x), fix_of(d, b, y), c.cache.m() == d.cache.m(), pkg_same(a, b),
    ensures pkg_same(x, y),
{
    hide(ix_missing); hide(texts_like); hide(decls_in); hide(libs_in); hide(ix_fixed);
    assert(ix_lists(c, a.name@, a.version) == ix_lists(d, b.name@, b.version)); assert(crates_io(a) == crates_io(b));
    match ix_lists(c, a.name@, a.version) { Some(ix) if crates_io(a) => { fixed_like(a.features.m(), b.features.m(), ix.m(), x.features.m(), y.features.m()); } _ => { } }
}
proof fn fixed_like(z: ix_FM, u: ix_FM, q: ix_FM, f: ix_FM, g: ix_FM)
    requires lists_like(z, u), ix_fixed(z, q, f), ix_fixed(u, q, g),
    ensures lists_like(f, g),
{
    hide(ix_missing); hide(texts_like);
    assert forall|k: Seq<char>| (#[trigger] f.contains_key(k) <==> g.contains_key(k)) && (f.contains_key(k) ==> texts_like(f[k]@, g[k]@)) by {
        assert(z.contains_key(k) <==> u.contains_key(k)); miss_back(z, u); if ix_missing(z, q, k) { miss_like(z, u, q, k); } if ix_missing(u, q, k) { miss_like(u, z, q, k); }
        assert(f.contains_key(k) <==> ix_named(z, q, k) || ix_missing(z, q, k)); assert(g.contains_key(k) <==> ix_named(u, q, k) || ix_missing(u, q, k));
        if f.contains_key(k) { assert(g.contains_key(k)); if !z.contains_key(k) { assert(texts(f[k]@) == texts(g[k]@)); same_t(f[k]@, g[k]@); } }
    }
}
proof fn miss_back(z: ix_FM, u: ix_FM) requires lists_like(z, u) ensures lists_like(u, z) { hide(texts_in); assert forall|k: Seq<char>| (#[trigger] u.contains_key(k) <==> z.contains_key(k)) && (u.contains_key(k) ==> texts_like(u[k]@, z[k]@)) by { assert(z.contains_key(k) <==> u.contains_key(k)); } }
proof fn miss_like(z: ix_FM, u: ix_FM, q: ix_FM, x: Seq<char>)
    requires lists_like(z, u), ix_missing(z, q, x),
    ensures ix_missing(u, q, x),
{
    hide(ix_plain);
    assert(z.contains_key(x) <==> u.contains_key(x));
    let (k, i) = choose|k: Seq<char>, i: int| ix_named(z, q, k) && 0 <= i < ix_after(z, q, k).len() && #[trigger] ix_after(z, q, k)[i] == x;
    assert(z.contains_key(k) <==> u.contains_key(k)); assert(ix_named(u, q, k));
    if z.contains_key(k) { let a = z[k]@; let b = u[k]@; assert(texts_like(a, b)); assert(texts(a)[i] == a[i]@); assert(is_text(b, a[i]@)); let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j])@ == a[i]@; assert(texts(b)[j] == b[j]@); assert(ix_after(u, q, k)[j] == x); }
    else { assert(ix_after(u, q, k)[i] == x); }
}
proof fn same_t(a: Seq<String>, b: Seq<String>) requires texts(a) == texts(b) ensures texts_like(a, b) { assert(texts(a).len() == a.len() && texts(b).len() == b.len()); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i])@ == b[i]@ by { assert(texts(a)[i] == a[i]@); assert(texts(b)[i] == b[i]@); } assert forall|i: int| 0 <= i < a.len() implies is_text(b, (#[trigger] a[i])@) by { assert(b[i]@ == a[i]@); } assert forall|i: int| 0 <= i < b.len() implies is_text(a, (#[trigger] b[i])@) by { assert(a[i]@ == b[i]@); } }
proof fn dn_in(s: Seq<Package>, t: Seq<Package>, n: Seq<char>) requires pkgs_in(s, t), is_doc_name(s, n) ensures is_doc_name(t, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n; assert(has_cpkg(t, s[i])); let j = choose|j: int| 0 <= j < t.len() && cpkg_same(s[i], #[trigger] t[j]); assert(t[j].name@ == n); }
proof fn ps_same(s: Seq<Package>, t: Seq<Package>, o: Option<IndexX>, p: Seq<Pk>, q: Seq<Pk>, x: Seq<Node>, y: Seq<Node>)
    requires pkgs_in(s, t), pkgs_in(t, s), steady(o), reads_pkgs(s, o, p), reads_pkgs(t, o, q), nodes_same(x, y), p.len() == x.len(), q.len() == y.len(),
        forall|i: int| 0 <= i < p.len() ==> kkey(&(#[trigger] p[i]).0) == kkey(&x[i].id), forall|i: int| 0 <= i < q.len() ==> kkey(&(#[trigger] q[i]).0) == kkey(&y[i].id),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> pid(#[trigger] t[i]) != pid(#[trigger] t[j]),
    ensures pks_same(p, q),
{
    hide(reads_pkgs); hide(comes_in); hide(pkg_same); hide(node_same); hide(has_cpkg);
    pkgs_come(s, o, p); pkgs_come(t, o, q); let c = choose|c: CachingIndex| #[trigger] all_come(s, o, p, c); let d = choose|d: CachingIndex| #[trigger] all_come(t, o, q, d);
    assert forall|n: Seq<char>| #[trigger] is_doc_name(s, n) == is_doc_name(t, n) by { if is_doc_name(s, n) { dn_in(s, t, n); } if is_doc_name(t, n) { dn_in(t, s, n); } }
    assert(doc_names(s) =~= doc_names(t));
    if o is Some { assert(o->0.gives(doc_names(s), c.cache) && o->0.gives(doc_names(s), d.cache)); assert(c.cache.m() == d.cache.m()); }
    assert forall|i: int| 0 <= i < p.len() implies pk_same(#[trigger] p[i], q[i]) by {
        assert(node_same(x[i], y[i])); assert(kkey(&x[i].id) == kkey(&y[i].id)) by { reveal(node_same); } assert(kkey(&q[i].0) == kkey(&y[i].id)); pk_one(s, t, o, c, d, p[i], q[i]);
    }
}
proof fn pk_one(s: Seq<Package>, t: Seq<Package>, o: Option<IndexX>, c: CachingIndex, d: CachingIndex, x: Pk, y: Pk)
    requires pkgs_in(s, t), comes_in(s, o, c, x), comes_in(t, o, d, y), o is Some ==> c.cache.m() == d.cache.m(), kkey(&x.0) == kkey(&y.0), forall|i: int, j: int| 0 <= i < j < t.len() ==> pid(#[trigger] t[i]) != pid(#[trigger] t[j]),
    ensures pk_same(x, y),
{
    hide(fix_of); hide(pkg_same);
    let u = choose|u: int| 0 <= u < s.len() && comes(o, c, #[trigger] s[u], x); let z = choose|z: int| 0 <= z < t.len() && comes(o, d, #[trigger] t[z], y);
    assert(has_cpkg(t, s[u])); let e = choose|e: int| 0 <= e < t.len() && cpkg_same(s[u], #[trigger] t[e]); assert(pid(t[e]) == pid(t[z]));
    assert(e == z) by { if e < z { assert(pid(t[e]) != pid(t[z])); } if z < e { assert(pid(t[z]) != pid(t[e])); } }
    if o is Some { fix_same(c, d, s[u], t[z], x.1, y.1); }
}
/// one reading's roots are the other's
proof fn roots_same(a: cm::Metadata, c: cm::Metadata, b: Builder, v: W, w: W, k: KKey)
    requires docs_same(a, c), reads_roots(a, b, v), reads_roots(c, b, w), pks_same(v.pkgs, w.pkgs), forall|k: KKey| #[trigger] has_kid(v.ws, k) <==> has_kid(w.ws, k), v.roots.contains(k),
    ensures w.roots.contains(k),
{
    hide(whole_ws); hide(selected); hide(cnodes_in); hide(pkgs_in); hide(ids_in); hide(lists_like); hide(decls_in); hide(libs_in);
    let f = b.workspace_filters@;
    let p = choose|root: Option<Kid>| #[trigger] reads_id(a.resolve->0.root, root) && forall|k: KKey| #[trigger] v.roots.contains(k) <==> is_root(b.workspace_filters@, b.workspace, a.workspace_root.b(), root, v.ws, v.pkgs, k);
    let q = choose|root: Option<Kid>| #[trigger] reads_id(c.resolve->0.root, root) && forall|k: KKey| #[trigger] w.roots.contains(k) <==> is_root(b.workspace_filters@, b.workspace, c.workspace_root.b(), root, w.ws, w.pkgs, k);
    assert(is_root(f, b.workspace, a.workspace_root.b(), p, v.ws, v.pkgs, k));
    assert(members(v.ws, k) == has_kid(v.ws, k)); assert(members(w.ws, k) == has_kid(w.ws, k)); assert(has_kid(v.ws, k) <==> has_kid(w.ws, k));
    if f.len() != 0 && !whole_ws(f, a.workspace_root.b()) { let i = choose|i: int| #[trigger] sel_pkg(v.pkgs, f, k, i); assert(pk_same(v.pkgs[i], w.pkgs[i])); assert(sel_pkg(w.pkgs, f, k, i)); }
    assert(is_root(f, b.workspace, c.workspace_root.b(), q, w.ws, w.pkgs, k));
}
proof fn rn_same(p: Seq<Pk>, q: Seq<Pk>, n: Seq<char>, x: Version, r: Seq<char>)
    requires pks_same(p, q),
    ensures rn_of(p, n, x, r) == rn_of(q, n, x, r),
{
    hide(lib_named); hide(pkg_same); hide(is_renamed);
    assert forall|i: int| 0 <= i < p.len() implies is_renamed((#[trigger] p[i]).1, n, x) == is_renamed(q[i].1, n, x) && lib_named(p[i].1, r) == lib_named(q[i].1, r) by { assert(pk_same(p[i], q[i])); lib_same(p[i].1, q[i].1); }
    hide_rn(p, q, n, x, r);
}
proof fn lib_one(a: Package, b: Package, r: Seq<char>) requires pkg_same(a, b), lib_named(a, r) ensures lib_named(b, r) {
    hide(lists_like); hide(decls_in); hide(is_lib); hide(same_name);
    let x = a.targets@; let y = b.targets@; let i = choose|i: int| #[trigger] first_lib(x, i) && x[i].name@ == r && !same_name(r, a.name@); assert(has_lib(y, x[i].name@)); let j = choose|j: int| 0 <= j < y.len() && is_lib(#[trigger] y[j]) && y[j].name@ == x[i].name@; assert(first_lib(y, j));
}
proof fn lib_same(a: Package, b: Package) requires pkg_same(a, b) ensures forall|r: Seq<char>| #[trigger] lib_named(a, r) == lib_named(b, r), forall|n: Seq<char>, x: Version| #[trigger] is_renamed(a, n, x) == is_renamed(b, n, x) {
    hide(lists_like); hide(decls_in); hide(libs_in); hide(lib_named);
    assert(pkg_same(b, a)) by { miss_back(a.features.m(), b.features.m()); }
    assert forall|r: Seq<char>| #[trigger] lib_named(a, r) == lib_named(b, r) by { if lib_named(a, r) { lib_one(a, b, r); } if lib_named(b, r) { lib_one(b, a, r); } }
    assert forall|n: Seq<char>, x: Version| #[trigger] is_renamed(a, n, x) == is_renamed(b, n, x) by { if is_renamed(a, n, x) { let r = choose|r: Seq<char>| #[trigger] lib_named(a, r); assert(lib_named(b, r)); } if is_renamed(b, n, x) { let r = choose|r: Seq<char>| #[trigger] lib_named(b, r); assert(lib_named(a, r)); } }
}
proof fn hide_rn(p: Seq<Pk>, q: Seq<Pk>, n: Seq<char>, x: Version, r: Seq<char>)
    requires p.len() == q.len(), forall|i: int| 0 <= i < p.len() ==> is_renamed((#[trigger] p[i]).1, n, x) == is_renamed(q[i].1, n, x) && lib_named(p[i].1, r) == lib_named(q[i].1, r),
    ensures rn_of(p, n, x, r) == rn_of(q, n, x, r),
{
    hide(lib_named); hide(is_renamed);
    if rn_of(p, n, x, r) { let i = choose|i: int| #[trigger] is_rn(p, n, x, r, i); assert forall|j: int| 0 <= j < i implies !is_renamed((#[trigger] q[j]).1, n, x) by { assert(!is_renamed(p[j].1, n, x)); } assert(is_rn(q, n, x, r, i)); }
    if rn_of(q, n, x, r) { let i = choose|i: int| #[trigger] is_rn(q, n, x, r, i); assert(is_renamed(p[i].1, n, x)); assert forall|j: int| 0 <= j < i implies !is_renamed((#[trigger] p[j]).1, n, x) by { assert(!is_renamed(q[j].1, n, x)); } assert(is_rn(p, n, x, r, i)); }
}
proof fn docs_back(a: cm::Metadata, c: cm::Metadata) requires docs_same(a, c) ensures docs_same(c, a) { }
proof fn pks_back(p: Seq<Pk>, q: Seq<Pk>) requires pks_same(p, q) ensures pks_same(q, p) { hide(pk_same); assert forall|i: int| 0 <= i < q.len() implies pk_same(#[trigger] q[i], p[i]) by { pk_back(p[i], q[i]); } }
/// C03: the order of the document's arrays plays no part in which crates are included
proof fn order_free(a: cm::Metadata, c: cm::Metadata, b: Builder, v: W, w: W)
    requires doc_ok(a), doc_ok(c), docs_same(a, c), steady(b.crates_io_index), reads(a, b, v), agrees(v), reads(c, b, w), agrees(w), sole(v), sole(w),
    ensures forall|k: KKey| #[trigger] inG(v, k) <==> inG(w, k),
{
    hide(wfw); hide(sole); hide(agrees); hide(inG); hide(reads_pkgs); hide(reads_roots); hide(reads_renames); hide(nodes_perm); hide(reads_ids); hide(nodes_ok); hide(ws_ok); hide(cnodes_in); hide(pkgs_in); hide(ids_in); hide(nodes_same); hide(pks_same); hide(rn_of); hide(deps_ok);
    doc_w(a, b, v); doc_w(c, b, w); doc_aligned(a, b, v); doc_aligned(c, b, w); docs_back(a, c);
    ns_same(a.resolve->0.nodes@, c.resolve->0.nodes@, v.nodes, w.nodes);
    ps_same(a.packages@, c.packages@, b.crates_io_index, v.pkgs, w.pkgs, v.nodes, w.nodes); pks_back(v.pkgs, w.pkgs);
    assert forall|k: KKey| #[trigger] has_kid(v.ws, k) <==> has_kid(w.ws, k) by { if has_kid(v.ws, k) { ids_same(a.workspace_members@, c.workspace_members@, v.ws, w.ws, k); } if has_kid(w.ws, k) { ids_same(c.workspace_members@, a.workspace_members@, w.ws, v.ws, k); } }
    assert forall|k: KKey| #[trigger] v.roots.contains(k) <==> w.roots.contains(k) by { if v.roots.contains(k) { roots_same(a, c, b, v, w, k); } if w.roots.contains(k) { roots_same(c, a, b, w, v, k); } }
    assert forall|n: Seq<char>, x: Version, r: Seq<char>| #[trigger] (v.rn)(n, x, r) <==> (w.rn)(n, x, r) by { rn_same(v.pkgs, w.pkgs, n, x, r); rn_is(v, n, x, r); rn_is(w, n, x, r); }
    assert(same_w(v, w));
    same_crates(v, w);
}
proof fn rn_is(w: W, n: Seq<char>, x: Version, r: Seq<char>) requires reads_renames(w.pkgs, w.rn) ensures (w.rn)(n, x, r) <==> rn_of(w.pkgs, n, x, r) { }
"""
UNITS = [Unit("order", ["C03"], prelude=whole.UNITS[0].prelude, types=top.UNITS[0].types, mods=dict(_meta.MODS), spec=SPEC, lemmas=LEM, fns=[visit.FF["DepKind::eq"]])]
