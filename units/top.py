from _common import *
from prep import drop
import kid, _meta, build, edges, visit, whole, prep, index, roots, krates
B, BM = "src/builder.rs", build.BM
import re
def cut_spec(text, a, b): i = text.index(a); return text[i:text.index(b, i)]
ISPEC = drop(cut_spec(index.SPEC, "pub type FeaturesMap", "pub open spec fn is_listed"), "pub mod index", "pub mod features", "pub struct BuildIndexCache") + index.SPEC[index.SPEC.index("pub open spec fn dep_of"):].split("\n")[0] + "\n"
ISPEC = re.sub(r"\bBuildIndexCache\b", "IndexX", re.sub(r"    #\[verifier::external_body\] pub fn call.*\n", "", ISPEC))
ISPEC = re.sub(r"\b(plain|named|after|missing|fixed|entry|lists|FM|names_of|is_name)\b", r"ix_\1", ISPEC)
RSPEC = drop(cut_spec(roots.SPEC, "// ---- paths", "pub struct IoErr"), "pub open spec fn ends_in") + cut_spec(roots.SPEC, "// ---- C08", "pub open spec fn so_far")
RSPEC = drop(RSPEC, "/// the manifest a selected", "pub open spec fn stands_for", "pub open spec fn toml")
U = {"load_packages": build.UNITS[0], "load_index": index.UNITS[0], "load_renames": prep.UNITS[0], "read_members": prep.UNITS[0], "read_root": prep.UNITS[0], "find_roots": roots.UNITS[0], "ids_are_old": prep.UNITS[0], "prep_nodes": prep.UNITS[0], "assemble": whole.UNITS[0]}
def stub(name):
    "the contract proved in another unit, word for word but for the lifetimes of references (they play no part in it)"
    f = [f for f in U[name].fns if f.name == name][0]
    return "/// proved in unit %s\n#[verifier::external_body] %s { unimplemented!() }\n" % (U[name].name, re.sub(r"\bBuildIndexCache\b", "IndexX", f.header.replace("&'p ", "&")))
# the invariant unit krates asks for, word for word (Node is called LNode here)
SHAPE = re.sub(r"\bNode<N>", "LNode<N>", cut_spec(krates.SPEC, "impl<N> Node<N> {", "    /// kid is the identifier of crate node i")) + "}\n"
SPEC = whole.SPEC + SHAPE + prep.DOC + ISPEC + RSPEC + r"""
impl<V> BTreeMap<&str, Vec<V>> {
    #[verifier::external_body] pub fn vx_new() -> (r: Self) ensures r.sm() == Map::<Seq<char>, Vec<V>>::empty() { unimplemented!() }
}
// ---- the document, and what is made of it
pub open spec fn pid(p: Package) -> KKey { id_key(p.id.repr@) }
pub open spec fn nid(n: cm::Node) -> KKey { id_key(n.id.repr@) }
pub open spec fn has_docp(p: Seq<Package>, k: KKey) -> bool { exists|i: int| 0 <= i < p.len() && pid(#[trigger] p[i]) == k }
pub open spec fn has_docn(p: Seq<cm::Node>, k: KKey) -> bool { exists|i: int| 0 <= i < p.len() && nid(#[trigger] p[i]) == k }
/// one package per node and one node per package, once each; what a node depends on has a node, and comes once
pub open spec fn doc_ok(md: cm::Metadata) -> bool {
    let ps = md.packages@; let ns = md.resolve->0.nodes@; let ms = md.workspace_members@; let r = md.resolve->0.root;
    &&& distinct_ids(ps) && nodes_doc(ns) && ps.len() < u32::MAX
    &&& forall|i: int| 0 <= i < ns.len() ==> has_docp(ps, nid(#[trigger] ns[i]))
    &&& forall|i: int| 0 <= i < ps.len() ==> has_docn(ns, pid(#[trigger] ps[i])) && (ps[i].source is Some ==> cargo_source(ps[i].source->0.repr.b()))
    &&& forall|i: int| 0 <= i < ns.len() ==> deps_ok(ns, (#[trigger] ns[i]).deps@)
    &&& forall|i: int| 0 <= i < ms.len() ==> cargo_id((#[trigger] ms[i]).repr@) && has_docn(ns, id_key(ms[i].repr@))
    &&& r is Some ==> cargo_id(r->0.repr@) && has_docn(ns, id_key(r->0.repr@))
}
pub open spec fn deps_ok(ns: Seq<cm::Node>, ds: Seq<cm::NodeDep>) -> bool {
    &&& forall|j: int| 0 <= j < ds.len() ==> has_docn(ns, id_key((#[trigger] ds[j]).pkg.repr@)) && srcs_ok(id_key(ds[j].pkg.repr@).2)
    &&& forall|j: int, l: int| 0 <= j < l < ds.len() ==> id_key((#[trigger] ds[j]).pkg.repr@) != id_key((#[trigger] ds[l]).pkg.repr@)
}
pub open spec fn loaded(ps: Seq<Package>, p: Seq<Pk>) -> bool { in_order(p) && (forall|i: int| 0 <= i < p.len() ==> keyed(#[trigger] p[i])) && pks(p).to_multiset() == ps.to_multiset() }
pub open spec fn reads_pkgs(ps: Seq<Package>, o: Option<IndexX>, p: Seq<Pk>) -> bool { exists|p0: Seq<Pk>| loaded(ps, p0) && #[trigger] indexed(o, p0, p) }
pub open spec fn reads_roots(md: cm::Metadata, b: Builder, w: W) -> bool { exists|root: Option<Kid>| #[trigger] reads_id(md.resolve->0.root, root) && forall|k: KKey| #[trigger] w.roots.contains(k) <==> is_root(b.workspace_filters@, b.workspace, md.workspace_root.b(), root, w.ws, w.pkgs, k) }
/// w is what the document and the configuration say
pub open spec fn reads(md: cm::Metadata, b: Builder, w: W) -> bool {
    &&& md.resolve is Some && reads_pkgs(md.packages@, b.crates_io_index, w.pkgs)
    &&& nodes_ok(w.nodes) && nodes_perm(md.resolve->0.nodes@, w.nodes)
    &&& ws_ok(w.ws) && reads_ids(md.workspace_members@, w.ws)
    &&& reads_roots(md, b, w) && reads_renames(w.pkgs, w.rn)
    &&& w.exc == b.exclude@ && w.ignore == b.ignore_kinds && w.all == (b.target_filters@.len() == 0) && w.ts == b.target_filters@ && w.opaque == old_ids(md.resolve->0.nodes@)
}
/// the resolver's answer agrees with what the packages declare: each link is declared, and what is asked for is enabled
pub open spec fn agrees(w: W) -> bool {
    &&& forall|k: KKey, d: int, l: int| #[trigger] isl(w, k, d, l) ==> link_ok(w, k, d, l)
    &&& forall|k: KKey, f: usize, i: int| #[trigger] isi(w, k, f, i) ==> entry_ok(w, k, fe(w, k, f, i))
}
/// no crate is called for
pub open spec fn nothing(w: W) -> bool { forall|k: KKey| !#[trigger] inG(w, k) }
/// C19: a root is left
pub open spec fn some_root(w: W) -> bool { exists|k: KKey| #[trigger] w.roots.contains(k) && !excl(w, k) }
/// the graph is the one called for
pub open spec fn built_from<N: FromPkg, E: FromEdge>(md: cm::Metadata, b: Builder, w: W, kr: Krates<N, E>) -> bool { reads(md, b, w) && wfw(w) && some_root(w) && built(w, kr) && kr.workspace_members@ == w.ws && kr.workspace_root == md.workspace_root }
""" + "".join(stub(n) for n in U)
LEM = prep.pick(prep.LEM, "perm_facts") + r"""
/// two strictly increasing lists of the same keys
proof fn same_keys(a: Seq<Kid>, b: Seq<Kid>, i: int)
    requires 0 <= i < a.len(), forall|i: int, j: int| 0 <= i < j < a.len() ==> k_less(&#[trigger] a[i], &#[trigger] a[j]), forall|i: int, j: int| 0 <= i < j < b.len() ==> k_less(&#[trigger] b[i], &#[trigger] b[j]),
        forall|k: KKey| #[trigger] has_kid(a, k) <==> has_kid(b, k),
    ensures i < b.len(), kkey(&a[i]) == kkey(&b[i]),
    decreases i,
{
    assert forall|j: int| 0 <= j < i implies j < b.len() && kkey(&#[trigger] a[j]) == kkey(&b[j]) by { same_keys(a, b, j); }
    let x = kkey(&a[i]);
    assert(has_kid(a, x)); assert(has_kid(b, x)); let p = choose|p: int| 0 <= p < b.len() && kkey(&#[trigger] b[p]) == x;
    if p < i { assert(k_less(&a[p], &a[i])); kid_laws(&a[p], &a[i], &a[i]); }
    if p > i {
        let y = kkey(&b[i]); assert(has_kid(b, y)); assert(has_kid(a, y)); let q = choose|q: int| 0 <= q < a.len() && kkey(&#[trigger] a[q]) == y;
        assert(k_less(&b[i], &b[p]));
        if q < i { assert(kkey(&a[q]) == kkey(&b[q])); assert(k_less(&b[q], &b[i])); kid_laws(&b[q], &b[i], &b[i]); }
        else if q == i { kid_laws(&b[i], &b[p], &b[p]); }
        else { assert(k_less(&a[i], &a[q])); reveal(kid_cmp); kid_laws(&a[i], &a[q], &b[i]); kid_laws(&b[i], &b[p], &a[i]); kid_laws(&b[i], &b[p], &b[i]); }
    }
}

pub open spec fn from_n(ns: Seq<cm::Node>, n: Node) -> bool { exists|x: int| 0 <= x < ns.len() && reads_node(#[trigger] ns[x], n) }
pub open spec fn from_d(ds: Seq<cm::NodeDep>, n: NodeDep) -> bool { exists|x: int| 0 <= x < ds.len() && dep_is(#[trigger] ds[x], n) }
pub open spec fn is_from_p(q: Package, x: Pk) -> bool { pid(q) == kkey(&x.0) && q.source == x.1.source }
pub open spec fn from_p(ps: Seq<Package>, x: Pk) -> bool { exists|j: int| 0 <= j < ps.len() && is_from_p(#[trigger] ps[j], x) }
proof fn node_from(ns: Seq<cm::Node>, f: Seq<Node>)
    requires nodes_perm(ns, f),
    ensures f.len() == ns.len(), forall|i: int| 0 <= i < f.len() ==> from_n(ns, #[trigger] f[i]), forall|x: int| 0 <= x < ns.len() ==> has_node(f, nid(#[trigger] ns[x])),
{
    hide(reads_node);
    let c = choose|c: Seq<Node>| #[trigger] nodes_are(ns, c) && perm(c, f); perm_facts(c, f);
    assert forall|i: int| 0 <= i < f.len() implies from_n(ns, #[trigger] f[i]) by { assert(c.contains(f[i])); let x = choose|x: int| 0 <= x < c.len() && c[x] == f[i]; assert(reads_node(ns[x], c[x])); }
    assert forall|x: int| 0 <= x < ns.len() implies has_node(f, nid(#[trigger] ns[x])) by { assert(c.contains(c[x])); assert(reads_node(ns[x], c[x])); let i = choose|i: int| 0 <= i < f.len() && f[i] == c[x]; assert(kkey(&f[i].id) == nid(ns[x])) by { reveal(reads_node); } assert(is_node(f, nid(ns[x]), i)); }
}
proof fn pkg_from(ps: Seq<Package>, o: Option<IndexX>, p: Seq<Pk>)
    requires reads_pkgs(ps, o, p),
    ensures in_order(p), p.len() == ps.len(), forall|i: int| 0 <= i < p.len() ==> from_p(ps, #[trigger] p[i]), forall|j: int| 0 <= j < ps.len() ==> has_pkg(p, pid(#[trigger] ps[j])),
{
    let p0 = choose|p0: Seq<Pk>| loaded(ps, p0) && #[trigger] indexed(o, p0, p);
    perm_facts(ps, pks(p0));
    assert(p.len() == p0.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == p0[i].0 && p[i].1.source == p0[i].1.source) by {
        if o is Some { let c = choose|c: CachingIndex| #[trigger] fixes(c, p0, p) && o->0.gives(ix_names_of(p0), c.cache); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 == p0[i].0 && p[i].1.source == p0[i].1.source by { assert(fix_of(c, p0[i].1, p[i].1)); } }
    }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0.wf() by { assert(p0[i].0.wf()); }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies k_less(&(#[trigger] p[i]).0, &(#[trigger] p[j]).0) by { assert(k_less(&p0[i].0, &p0[j].0)); }
    assert forall|i: int| 0 <= i < p.len() implies from_p(ps, #[trigger] p[i]) by { assert(pks(p0)[i] == p0[i].1); assert(ps.contains(pks(p0)[i])); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == pks(p0)[i]; assert(keyed(p0[i])); assert(is_from_p(ps[j], p[i])); }
    assert forall|j: int| 0 <= j < ps.len() implies has_pkg(p, pid(#[trigger] ps[j])) by { assert(ps.contains(ps[j])); assert(pks(p0).contains(ps[j])); let i = choose|i: int| 0 <= i < pks(p0).len() && pks(p0)[i] == ps[j]; assert(p0[i].1 == ps[j]); assert(keyed(p0[i])); assert(kkey(&p[i].0) == pid(ps[j])); }
}
proof fn dep_from(rn: cm::Node, n: Node)
    requires reads_node(rn, n),
    ensures forall|d: int| 0 <= d < n.deps@.len() ==> from_d(rn.deps@, #[trigger] n.deps@[d]),
        (forall|j: int, l: int| 0 <= j < l < rn.deps@.len() ==> id_key((#[trigger] rn.deps@[j]).pkg.repr@) != id_key((#[trigger] rn.deps@[l]).pkg.repr@)) ==> forall|c: int, d: int| 0 <= c < n.deps@.len() && 0 <= d < n.deps@.len() && kkey(&(#[trigger] n.deps@[c]).pkg) == kkey(&(#[trigger] n.deps@[d]).pkg) ==> c == d,
{
    hide(dep_is);
    let ds = rn.deps@; let x = n.deps@; let c = choose|c: Seq<NodeDep>| #[trigger] deps_are(ds, c) && perm(c, x); perm_facts(c, x);
    assert forall|d: int| 0 <= d < x.len() implies from_d(ds, #[trigger] x[d]) by { assert(c.contains(x[d])); let i = choose|i: int| 0 <= i < c.len() && c[i] == x[d]; assert(dep_is(ds[i], c[i])); }
    assert forall|i: int| 0 <= i < c.len() implies kkey(&(#[trigger] c[i]).pkg) == id_key(ds[i].pkg.repr@) by { assert(dep_is(ds[i], c[i])); reveal(dep_is); }
    if forall|j: int, l: int| 0 <= j < l < ds.len() ==> id_key((#[trigger] ds[j]).pkg.repr@) != id_key((#[trigger] ds[l]).pkg.repr@) {
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies kkey(&(#[trigger] c[i]).pkg) != kkey(&(#[trigger] c[j]).pkg) by { if i < j { assert(id_key(ds[i].pkg.repr@) != id_key(ds[j].pkg.repr@)); } else { assert(id_key(ds[j].pkg.repr@) != id_key(ds[i].pkg.repr@)); } }
        assert(c.no_duplicates());
        assert forall|a: int, b: int| 0 <= a < x.len() && 0 <= b < x.len() && kkey(&(#[trigger] x[a]).pkg) == kkey(&(#[trigger] x[b]).pkg) implies a == b by {
            assert(c.contains(x[a]) && c.contains(x[b])); let i = choose|i: int| 0 <= i < c.len() && c[i] == x[a]; let j = choose|j: int| 0 <= j < c.len() && c[j] == x[b]; assert(i == j); assert(x[a] == x[b]);
        }
    }
}
pub open spec fn pkids(p: Seq<Pk>) -> Seq<Kid> { Seq::new(p.len(), |i: int| p[i].0) }
pub open spec fn nkids(p: Seq<Node>) -> Seq<Kid> { Seq::new(p.len(), |i: int| p[i].id) }
pub open spec fn aligned(w: W) -> bool { w.pkgs.len() == w.nodes.len() && forall|i: int| 0 <= i < w.pkgs.len() ==> kkey(&(#[trigger] w.pkgs[i]).0) == kkey(&w.nodes[i].id) }
/// the packages come in the order of the nodes
proof fn doc_aligned(md: cm::Metadata, b: Builder, w: W)
    requires doc_ok(md), md.resolve is Some, reads_pkgs(md.packages@, b.crates_io_index, w.pkgs), nodes_ok(w.nodes), nodes_perm(md.resolve->0.nodes@, w.nodes),
    ensures aligned(w), in_order(w.pkgs), forall|k: KKey| #[trigger] has_docn(md.resolve->0.nodes@, k) ==> known(w, k), forall|k: KKey| #[trigger] known(w, k) ==> is_node(w.nodes, k, ix(w, k)),
        forall|i: int| 0 <= i < w.nodes.len() ==> from_n(md.resolve->0.nodes@, #[trigger] w.nodes[i]), forall|i: int| 0 <= i < w.pkgs.len() ==> from_p(md.packages@, #[trigger] w.pkgs[i]),
{
    let ps = md.packages@; let ns = md.resolve->0.nodes@; let a = pkids(w.pkgs); let c = nkids(w.nodes);
    pkg_from(ps, b.crates_io_index, w.pkgs); node_from(ns, w.nodes);
    assert forall|k: KKey| #[trigger] has_docn(ns, k) implies known(w, k) by { let x = choose|x: int| 0 <= x < ns.len() && nid(#[trigger] ns[x]) == k; assert(has_node(w.nodes, nid(ns[x]))); }
    assert forall|k: KKey| #[trigger] known(w, k) implies is_node(w.nodes, k, ix(w, k)) by { }
    assert forall|k: KKey| #[trigger] has_kid(a, k) <==> has_kid(c, k) by {
        if has_kid(a, k) { let i = choose|i: int| 0 <= i < a.len() && kkey(&#[trigger] a[i]) == k; assert(from_p(ps, w.pkgs[i])); let j = choose|j: int| 0 <= j < ps.len() && is_from_p(#[trigger] ps[j], w.pkgs[i]); assert(has_docn(ns, pid(ps[j]))); assert(known(w, k)); let y = ix(w, k); assert(kkey(&c[y]) == k); }
        if has_kid(c, k) { let i = choose|i: int| 0 <= i < c.len() && kkey(&#[trigger] c[i]) == k; assert(from_n(ns, w.nodes[i])); let x = choose|x: int| 0 <= x < ns.len() && reads_node(#[trigger] ns[x], w.nodes[i]); assert(nid(ns[x]) == k); assert(has_docp(ps, nid(ns[x]))); let j = choose|j: int| 0 <= j < ps.len() && pid(#[trigger] ps[j]) == nid(ns[x]); assert(has_pkg(w.pkgs, pid(ps[j]))); let y = choose|y: int| 0 <= y < w.pkgs.len() && kkey(&(#[trigger] w.pkgs[y]).0) == k; assert(kkey(&a[y]) == k); }
    }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies k_less(&#[trigger] a[i], &#[trigger] a[j]) by { assert(k_less(&w.pkgs[i].0, &w.pkgs[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies k_less(&#[trigger] c[i], &#[trigger] c[j]) by { assert(k_less(&w.nodes[i].id, &w.nodes[j].id)); }
    assert(a.len() == c.len()) by { if a.len() > c.len() { same_keys(a, c, c.len() as int); } if c.len() > a.len() { same_keys(c, a, a.len() as int); } }
    assert forall|i: int| 0 <= i < w.pkgs.len() implies kkey(&(#[trigger] w.pkgs[i]).0) == kkey(&w.nodes[i].id) by { same_keys(a, c, i); assert(a[i] == w.pkgs[i].0); assert(c[i] == w.nodes[i].id); }
}
proof fn roots_known(md: cm::Metadata, b: Builder, w: W)
    requires doc_ok(md), reads(md, b, w),
    ensures forall|k: KKey| #[trigger] w.roots.contains(k) ==> known(w, k),
{
    let ns = md.resolve->0.nodes@; let ms = md.workspace_members@;
    doc_aligned(md, b, w);
    assert forall|k: KKey| members(w.ws, k) implies known(w, k) by {
        let i = choose|i: int| 0 <= i < w.ws.len() && kkey(&#[trigger] w.ws[i]) == k; let c = choose|c: Seq<Kid>| #[trigger] ids_are(ms, c) && perm(c, w.ws); perm_facts(c, w.ws); assert(c.contains(w.ws[i])); let x = choose|x: int| 0 <= x < c.len() && c[x] == w.ws[i]; assert(kkey(&c[x]) == id_key(ms[x].repr@)); assert(has_docn(ns, id_key(ms[x].repr@)));
    }
    let root = choose|root: Option<Kid>| #[trigger] reads_id(md.resolve->0.root, root) && forall|k: KKey| #[trigger] w.roots.contains(k) <==> is_root(b.workspace_filters@, b.workspace, md.workspace_root.b(), root, w.ws, w.pkgs, k);
    if root is Some { assert(has_docn(ns, kkey(&root->0))); }
}
/// the structure of what is read follows from the document's
proof fn doc_w(md: cm::Metadata, b: Builder, w: W)
    requires doc_ok(md), reads(md, b, w), agrees(w),
    ensures wfw(w),
{
    hide(link_ok); hide(entry_ok); hide(reads_pkgs); hide(reads_roots); hide(reads_renames); hide(nodes_perm); hide(reads_ids); hide(cargo_source); hide(srcs_ok);
    let ps = md.packages@; let ns = md.resolve->0.nodes@;
    doc_aligned(md, b, w); roots_known(md, b, w);
    assert forall|k: KKey| #[trigger] known(w, k) implies fsorted(nd(w, k)) && nd(w, k).has_default_feature == has_f(nd(w, k), "default"@) && (pk(w, k).source is Some ==> cargo_source(pk(w, k).source->0.repr.b())) by {
        let i = ix(w, k); assert(is_node(w.nodes, k, i)); assert(from_n(ns, w.nodes[i])); assert(from_p(ps, w.pkgs[i])); let j = choose|j: int| 0 <= j < ps.len() && is_from_p(#[trigger] ps[j], w.pkgs[i]); assert(has_docn(ns, pid(ps[j])));
    }
    assert forall|k: KKey, d: int| #[trigger] isd(w, k, d) implies dep(w, k, d).pkg.wf() && known(w, tgt(w, k, d)) && srcs_ok(dep(w, k, d).pkg.part(2)) by {
        let i = ix(w, k); assert(is_node(w.nodes, k, i)); assert(from_n(ns, w.nodes[i])); let x = choose|x: int| 0 <= x < ns.len() && reads_node(#[trigger] ns[x], w.nodes[i]); dep_from(ns[x], w.nodes[i]);
        assert(from_d(ns[x].deps@, w.nodes[i].deps@[d])); let y = choose|y: int| 0 <= y < ns[x].deps@.len() && dep_is(#[trigger] ns[x].deps@[y], w.nodes[i].deps@[d]); assert(deps_ok(ns, ns[x].deps@)); assert(has_docn(ns, id_key(ns[x].deps@[y].pkg.repr@)));
    }
    assert forall|k: KKey, d: int, c: int| #[trigger] isd(w, k, d) && #[trigger] isd(w, k, c) && tgt(w, k, d) == tgt(w, k, c) implies d == c by {
        let i = ix(w, k); assert(is_node(w.nodes, k, i)); assert(from_n(ns, w.nodes[i])); let x = choose|x: int| 0 <= x < ns.len() && reads_node(#[trigger] ns[x], w.nodes[i]); dep_from(ns[x], w.nodes[i]); assert(deps_ok(ns, ns[x].deps@));
        assert(kkey(&w.nodes[i].deps@[c].pkg) == kkey(&w.nodes[i].deps@[d].pkg));
    }
    reveal(cargo_source); assert(nodes_ok(w.nodes)); 
}
proof fn only_roots(w: W, n: nat, it: Item)
    requires at_(w, n)(it), !some_root(w),
    ensures w.roots.contains(it.0),
    decreases n,
{

    if n > 0 {
        let p = at_(w, (n - 1) as nat);
        if !p(it) {
            assert forall|k: KKey, f: usize| !#[trigger] fP(w, p, k, f) by { if fP(w, p, k, f) { only_roots(w, (n - 1) as nat, (k, Some(f))); } }
            assert forall|k: KKey, d: int, l: int, s: bool| !#[trigger] linkP(w, p, k, d, l, s) by { if linkP(w, p, k, d, l, s) && !s { only_roots(w, (n - 1) as nat, (k, None)); } }
            assert forall|k: KKey, d: int, y: usize| !#[trigger] strongP(w, p, k, d, y) by { }
            assert(seed(w, it));
        } else { only_roots(w, (n - 1) as nat, it); }
    }
}
/// C19: the graph has a crate exactly when some root is not excluded
proof fn roots_decide(w: W)
    requires wfw(w),
    ensures nothing(w) <==> !some_root(w),
{
    hide(wfw);
    if !some_root(w) { assert forall|k: KKey| !#[trigger] inG(w, k) by { if inG(w, k) { let n = choose|n: nat| #[trigger] drv(w, n, (k, None)); only_roots(w, n, (k, None)); } } }
    else { let k = choose|k: KKey| #[trigger] w.roots.contains(k) && !excl(w, k); assert(seed(w, (k, None))); assert(step(w, at_(w, 0), (k, None))); assert(at_(w, 1)((k, None))); assert(drv(w, 1, (k, None))); assert(inG(w, k)); }
}
/// C11, C12, C13: what a build returns has the shape the queries ask for
proof fn built_shape<N: FromPkg, E: FromEdge>(w: W, kr: Krates<N, E>)
    requires built(w, kr), ws_ok(w.ws), kr.workspace_members@ == w.ws,
    ensures kr.wf(),
{
    hide(node_is); hide(edge_why); hide(gdep); hide(feats_ok); hide(inG); hide(there); hide(maps_to);
    let ks = choose|ks: Ks| kr.krates_end == ks.len() && #[trigger] graph_is(w, kr.graph, ks); let g = kr.graph;
    assert(shape(g, ks) && order_ok(g, ks.len() as int));
    assert forall|i: int| #![trigger g.raw()[i]] 0 <= i < kr.krates_end implies kr.nd(i) is Krate && kr.nd(i).kid().wf() by { assert(is_k(g.raw()[i].weight, ks[i])); }
    assert forall|i: int, j: int| #![trigger g.raw()[i], g.raw()[j]] 0 <= i < j < kr.krates_end implies kid_cmp(&kr.nd(i).kid(), &kr.nd(j).kid()) == Ordering::Less by { assert(k_less(&g.raw()[i].weight->id, &g.raw()[j].weight->id)); }
    assert forall|i: int, j: int| #![trigger kr.nd(i)->dep_mapping@[j]] 0 <= i < kr.krates_end && 0 <= j < kr.nd(i)->dep_mapping@.len() && kr.nd(i)->dep_mapping@[j] is Some implies kr.nd(i)->dep_mapping@[j]->0.ix < kr.krates_end by { assert(map_ok(w, g, ks, i, j)); }
}
"""
FNS = [visit.FF["DepKind::eq"]] + [
    Fn("build_with_metadata", B, BM, """fn build_with_metadata<N: FromPkg, E: FromEdge, F: OnFilter>(self, md: cm::Metadata, on_filter: &mut F) -> (r: Result<Krates<N, E>, Error>)
    requires md.resolve is Some ==> doc_ok(md), forall|w: W| #[trigger] reads(md, self, w) ==> agrees(w),
    ensures
        md.resolve is None ==> r is Err && r->Err_0 is NoResolveGraph && final(on_filter).log() == old(on_filter).log(),
        md.resolve is Some && r is Ok ==> r->Ok_0.wf() && exists|w: W| #[trigger] built_from(md, self, w, r->Ok_0) && final(on_filter).log() == old(on_filter).log() + outs(w, w.pkgs),
        md.resolve is Some && r is Err ==> r->Err_0 is NoRootKrates && final(on_filter).log() == old(on_filter).log() && exists|w: W| reads(md, self, w) && wfw(w) && !some_root(w) && #[trigger] nothing(w)""",
       impl="impl Builder", select="stmts:start..end", drop_lets=["is_root_crate"],
       cuts=[("stmts:let:packages..text:ifletSome(index)=self.crates_io_index", "load_packages(md.packages)"),
             ("stmts:text:self.crates_io_index..=text:self.crates_io_index", "load_index(self.crates_io_index, &mut packages)"),
             ("stmts:text:renames.maybe_insert..=text:renames.maybe_insert", "load_renames(&mut renames, &packages)"),
             ("stmts:let:workspace_members..let:root", "read_members(md.workspace_members)"),
             ("let:root", "read_root(&mut resolved.root)"),
             ("let:roots", "find_roots(&self.workspace_filters, self.workspace, &md.workspace_root, &root, &workspace_members, &packages)"),
             ("let:is_opaque", "ids_are_old(&resolved.nodes)"),
             ("stmts:let:nodes..let:dep_edge_map", "prep_nodes(&packages, resolved.nodes)"),
             ("stmts:let:dep_edge_map..end", "assemble(&nodes, packages, workspace_members, &exclude, &roots, &renames, ignore_kinds, is_opaque, include_all_targets, &targets, on_filter, md.workspace_root, Ghost(w))"),
             ],        ret="; proof { if vx_r is Ok { assert(built_from(md0, s0, w, vx_r->Ok_0)); built_shape(w, vx_r->Ok_0); } else { assert(nothing(w)); } } vx_r", subst=[(r"= ([^;=]*?)\s*\.\s*ok_or\(([^;]*)\)\?;", r"= match \1 { Some(x) => x, None => { return Err(\2); } };"), (r"Default::default\(\)", "BTreeMap::vx_new()"),
              (r"\bload_packages\(", "let mut packages = load_packages("), (r"\bload_index\(", "vx_at!(p0); load_index("), (r"\bload_renames\(", "vx_at!(p00); load_renames("), (r"\bread_members\(", "let workspace_members = read_members("), (r"\bprep_nodes\(", "let nodes = prep_nodes("), (r"\bassemble\(", "vx_at!(p1); let vx_r = assemble(")],
       at={"start": "hide(agrees); hide(nodes_perm); hide(reads_pkgs); hide(reads_renames); hide(reads_ids); hide(wfw); hide(built); hide(is_root); hide(inG); hide(indexed); hide(deps_ok); let ghost md0 = md; let ghost s0 = self;",
           "p0": "let ghost p0 = packages@; proof { assert(loaded(md0.packages@, p0)); }",
           "p00": """proof { assert(indexed(s0.crates_io_index, p0, packages@)); assert(reads_pkgs(md0.packages@, s0.crates_io_index, packages@)) by { reveal(reads_pkgs); } pkg_from(md0.packages@, s0.crates_io_index, packages@);
               assert forall|i: int| 0 <= i < md0.resolve->0.nodes@.len() implies has_pkg(packages@, id_key((#[trigger] md0.resolve->0.nodes@[i]).id.repr@)) by { let n = md0.resolve->0.nodes@[i]; assert(has_docp(md0.packages@, nid(n))); let j = choose|j: int| 0 <= j < md0.packages@.len() && pid(#[trigger] md0.packages@[j]) == nid(n); assert(has_pkg(packages@, pid(md0.packages@[j]))); } }""",
           "p1": """let ghost w = W { nodes: nodes@, pkgs: packages@, ws: workspace_members@, roots: roots.m(), exc: exclude@, ignore: ignore_kinds, all: include_all_targets, ts: targets@, opaque: is_opaque, rn: renames.fun() };
           proof { assert(reads_roots(md0, s0, w)) by { assert(reads_id(md0.resolve->0.root, root)); } assert(reads(md0, s0, w)); assert(agrees(w)); doc_w(md0, s0, w); roots_decide(w); }"""},
       ),
]
UNITS = [Unit("top", ["C03", "C04", "C07", "C08", "C09", "C10", "C19", "C20"], prelude=whole.UNITS[0].prelude, types=[Ty(index.I, n) for n in ("IndexKrateVersion", "IndexKrate", "CachingIndex")] + [t for t in whole.TYPES if t.path != "Krates"] + [whole.KR], mods=dict(_meta.MODS), spec=SPEC, lemmas=LEM, fns=FNS)]
