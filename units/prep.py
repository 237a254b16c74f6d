from _common import *
import kid, _meta, build, visit, filter as filt
L, B, BM, IN = "src/lib.rs", "src/builder.rs", build.BM, build.IN
def drop(text, *starts):
    "without the declarations that start so (another unit has the same)"
    return "\n".join(l for l in text.split("\n") if not any(l.startswith(s) for s in starts))
BSPEC = drop(build.SPEC[len(build.BASE + build.NODE_SPEC):], "    /// petgraph panics", "    #[verifier::external_body] pub fn add_node", "    #[verifier::external_body] pub fn add_edge")
PF = [l for l in visit.UNITS[0].lemmas.split("\n") if "spec fn pf_(" in l][0] + "\n"
IDS = "\n".join(l for l in build.BASE.split("\n") if "spec fn cargo_id" in l or "spec fn id_key" in l)
import re
def pick(text, *names):
    "the named lemmas of another unit"
    out = []
    for n in names:
        i = text.index("proof fn %s(" % n) if "proof fn %s(" % n in text else text.index("proof fn %s<" % n)
        j = text.index("\nproof fn ", i + 1) if "\nproof fn " in text[i + 1:] else len(text)
        out.append(text[i:j].rstrip())
    return "\n".join(x[:x.rindex("}") + 1] for x in out) + "\n"
KFROM = "\n".join(l for l in build.BASE.split("\n") if l.startswith("impl Kid { #[verifier::external_body] pub fn from"))
BASE_W = visit.SPEC + PF + IDS + BSPEC
DOC = r"""
// ---- the resolved nodes of the document, and what they are read as
/// semver's reading
pub uninterp spec fn ver_of(b: Seq<u8>) -> Option<Version>;
pub open spec fn kind_is(dk: cm::DepKindInfo, x: DepKindInfo) -> bool { x.kind == kind_of(dk.kind) && (x.cfg is Some <==> dk.target is Some) && (x.cfg is Some ==> x.cfg->0.reads(dk.target->0@)) }
pub open spec fn dep_is(dn: cm::NodeDep, x: NodeDep) -> bool {
    &&& x.name == dn.name && x.pkg.wf() && kkey(&x.pkg) == id_key(dn.pkg.repr@) && ver_of(x.pkg.part(1)) == Some(x.version)
    &&& x.dep_kinds@.len() == dn.dep_kinds@.len() && forall|i: int| 0 <= i < x.dep_kinds@.len() ==> kind_is(dn.dep_kinds@[i], #[trigger] x.dep_kinds@[i])
}
pub open spec fn deps_are(ds: Seq<cm::NodeDep>, c: Seq<NodeDep>) -> bool { c.len() == ds.len() && forall|i: int| 0 <= i < c.len() ==> dep_is(ds[i], #[trigger] c[i]) }
/// the same things the same number of times
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn deps_perm(ds: Seq<cm::NodeDep>, x: Seq<NodeDep>) -> bool { exists|c: Seq<NodeDep>| #[trigger] deps_are(ds, c) && perm(c, x) }
pub open spec fn reads_node(rn: cm::Node, x: Node) -> bool {
    &&& x.id.wf() && kkey(&x.id) == id_key(rn.id.repr@)
    &&& perm(rn.features@, x.features@) && fsorted(x) && x.has_default_feature == has_f(x, "default"@)
    &&& deps_perm(rn.deps@, x.deps@)
}
pub open spec fn nodes_are(ns: Seq<cm::Node>, c: Seq<Node>) -> bool { c.len() == ns.len() && forall|i: int| 0 <= i < c.len() ==> reads_node(ns[i], #[trigger] c[i]) }
pub open spec fn nodes_perm(ns: Seq<cm::Node>, x: Seq<Node>) -> bool { exists|c: Seq<Node>| #[trigger] nodes_are(ns, c) && perm(c, x) }
pub open spec fn dep_doc(dn: cm::NodeDep) -> bool { cargo_id(dn.pkg.repr@) && ver_of(id_key(dn.pkg.repr@).1) is Some }
pub open spec fn texts_differ(s: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
/// a node as cargo writes it: each feature once
pub open spec fn node_doc(rn: cm::Node) -> bool { cargo_id(rn.id.repr@) && texts_differ(rn.features@) && forall|i: int| 0 <= i < rn.deps@.len() ==> dep_doc(#[trigger] rn.deps@[i]) }
pub open spec fn nodes_doc(ns: Seq<cm::Node>) -> bool { (forall|i: int| 0 <= i < ns.len() ==> node_doc(#[trigger] ns[i])) && forall|i: int, j: int| 0 <= i < j < ns.len() ==> id_key((#[trigger] ns[i]).id.repr@) != id_key((#[trigger] ns[j]).id.repr@) }
pub open spec fn has_pkg(p: Seq<Pk>, k: KKey) -> bool { exists|i: int| 0 <= i < p.len() && kkey(&(#[trigger] p[i]).0) == k }
pub open spec fn count_c(b: Seq<u8>, x: u8) -> nat decreases b.len() { if b.len() == 0 { 0 } else { count_c(b.drop_last(), x) + (if b.last() == x { 1nat } else { 0nat }) } }
/// ids of the old form are written with two spaces
pub open spec fn old_ids(ns: Seq<cm::Node>) -> bool { ns.len() > 0 && count_c(ns[0].id.repr.b(), 32) >= 2 }
/// the members, in order
pub open spec fn reads_ids(ids: Seq<PackageId>, ws: Seq<Kid>) -> bool { exists|c: Seq<Kid>| #[trigger] ids_are(ids, c) && perm(c, ws) }
pub open spec fn ids_are(ids: Seq<PackageId>, c: Seq<Kid>) -> bool { c.len() == ids.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).wf() && kkey(&c[i]) == id_key(ids[i].repr@) }
pub open spec fn reads_id(o: Option<PackageId>, r: Option<Kid>) -> bool { (r is Some <==> o is Some) && (r is Some ==> r->0.wf() && kkey(&r->0) == id_key(o->0.repr@)) }
"""
DOC += r"""
// ---- crates whose library is not named like the crate
pub open spec fn is_lib(t: cm::Target) -> bool { t.kind@.contains(cm::TargetKind::Lib) }
pub open spec fn first_lib(ts: Seq<cm::Target>, i: int) -> bool { 0 <= i < ts.len() && is_lib(ts[i]) && forall|j: int| 0 <= j < i ==> !is_lib(#[trigger] ts[j]) }
/// the library's name
pub open spec fn lib_named(p: Package, r: Seq<char>) -> bool { exists|i: int| #[trigger] first_lib(p.targets@, i) && p.targets@[i].name@ == r && !same_name(r, p.name@) }
pub open spec fn is_renamed(p: Package, n: Seq<char>, v: Version) -> bool { p.name@ == n && p.version == v && exists|r: Seq<char>| #[trigger] lib_named(p, r) }
/// (of two packages of the same name and version, the first counts)
pub open spec fn is_rn(p: Seq<Pk>, n: Seq<char>, v: Version, r: Seq<char>, i: int) -> bool { 0 <= i < p.len() && is_renamed(p[i].1, n, v) && lib_named(p[i].1, r) && forall|j: int| 0 <= j < i ==> !is_renamed((#[trigger] p[j]).1, n, v) }
pub open spec fn rn_of(p: Seq<Pk>, n: Seq<char>, v: Version, r: Seq<char>) -> bool { exists|i: int| #[trigger] is_rn(p, n, v, r, i) }
pub open spec fn reads_renames(p: Seq<Pk>, f: spec_fn(Seq<char>, Version, Seq<char>) -> bool) -> bool { forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] f(n, v, r) <==> rn_of(p, n, v, r) }
"""
SPEC = BASE_W + DOC + KFROM + r"""
/// proved in unit filter
#[verifier::external_body] pub fn pkg_name_equals(a: &str, b: &str) -> (r: bool) ensures r == same_name(a@, b@) { unimplemented!() }
impl<V> BTreeMap<&str, Vec<V>> {
    #[verifier::external_body] pub fn vx_new() -> (r: Self) ensures r.sm() == Map::<Seq<char>, Vec<V>>::empty() { unimplemented!() }
}
impl<'p, V> BTreeMap<&'p str, Vec<V>> {
    /// `entry(k).or_default()`
    #[verifier::external_body] pub fn vx_entry_default(&mut self, k: &'p str) -> (r: &mut Vec<V>)
        ensures old(self).sm().contains_key(k@) ==> *r == old(self).sm()[k@], !old(self).sm().contains_key(k@) ==> r@ == Seq::<V>::empty(), final(self).sm() == old(self).sm().insert(k@, *final(r)) { unimplemented!() }
}
pub trait HasX<T> { spec fn hs(&self) -> Seq<T>; fn vx_has(&self, t: &T) -> (r: bool) ensures r == self.hs().contains(*t); }
impl<T> HasX<T> for Vec<T> { open spec fn hs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_has(&self, t: &T) -> (r: bool) { unimplemented!() } }
// ---- library stand-ins
pub trait OrdX: Sized { spec fn oq(a: Self, b: Self) -> Ordering; }
impl OrdX for String { open spec fn oq(a: Self, b: Self) -> Ordering { lex(a.b(), b.b()) } }
impl OrdX for Kid { open spec fn oq(a: Self, b: Self) -> Ordering { kid_cmp(&a, &b) } }
pub trait SortOwn<T: OrdX> { spec fn ev(&self) -> Seq<T>; fn vx_sort(&mut self) ensures perm(old(self).ev(), final(self).ev()), forall|i: int, j: int| 0 <= i < j < final(self).ev().len() ==> T::oq(#[trigger] final(self).ev()[i], #[trigger] final(self).ev()[j]) != Ordering::Greater; }
impl<T: OrdX> SortOwn<T> for Vec<T> { open spec fn ev(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() } }
pub struct SemErr { pub x: u64 }
impl FromStrX for Version { type Err = SemErr; open spec fn reads_(t: Seq<u8>) -> Option<Self> { ver_of(t) } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() } }
pub fn vx_opt_map<A, C, F: FnOnce(A) -> C>(a: Option<A>, f: F) -> (r: Option<C>) requires a is Some ==> f.requires((a->0,)), ensures r is Some <==> a is Some, a is Some ==> f.ensures((a->0,), r->0) { match a { Some(x) => Some(f(x)), None => None } }
pub trait SplitN { fn vx_splitn(&self, n: usize, c: char) -> (r: It<&str>) requires n > 0, (c as u32) < 128, ensures r.i() == 0, r.wf(), r.s().len() == (if count_c(self.sb(), c as u8) + 1 <= n { count_c(self.sb(), c as u8) + 1 } else { n as nat }); spec fn sb(&self) -> Seq<u8>; }
impl SplitN for String { open spec fn sb(&self) -> Seq<u8> { self.b() } #[verifier::external_body] fn vx_splitn(&self, n: usize, c: char) -> (r: It<&str>) { unimplemented!() } }
pub trait FirstX<T> { spec fn fs(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures r is Some <==> self.fs().len() > 0, r is Some ==> *r->0 == self.fs()[0]; }
impl<T> FirstX<T> for Vec<T> { open spec fn fs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() } }
pub open spec fn cmp_dep() -> spec_fn(NodeDep, NodeDep) -> Ordering { |a: NodeDep, b: NodeDep| kid_cmp(&a.pkg, &b.pkg) }
pub open spec fn cmp_node() -> spec_fn(Node, Node) -> Ordering { |a: Node, b: Node| kid_cmp(&a.id, &b.id) }
"""
LEM = lit("default") + pick(visit.UNITS[0].lemmas, "v_search", "all_search") + r"""
proof fn same_cmp(a: &Kid, b: &Kid, c: &Kid) ensures kkey(a) == kkey(b) ==> kid_cmp(a, c) == kid_cmp(b, c) && kid_cmp(c, a) == kid_cmp(c, b), kid_cmp(a, b) == Ordering::Equal <==> kkey(a) == kkey(b)
{ reveal(kid_cmp); kid_laws(a, b, c); }
proof fn le_trans(a: &Kid, b: &Kid, c: &Kid) requires kid_cmp(a, b) != Ordering::Greater, kid_cmp(b, c) != Ordering::Greater ensures kid_cmp(a, c) != Ordering::Greater
{ kid_laws(a, b, c); kid_laws(b, c, a); kid_laws(a, c, b); same_cmp(a, b, c); }
proof fn dep_order() ensures is_order(cmp_dep())
{
    assert forall|a: NodeDep, b: NodeDep| #[trigger] cmp_dep()(a, b) == rev(cmp_dep()(b, a)) by { kid_laws(&a.pkg, &b.pkg, &a.pkg); }
    assert forall|a: NodeDep, b: NodeDep, c: NodeDep| #[trigger] cmp_dep()(a, b) != Ordering::Greater && #[trigger] cmp_dep()(b, c) != Ordering::Greater implies cmp_dep()(a, c) != Ordering::Greater by { le_trans(&a.pkg, &b.pkg, &c.pkg); }
}
proof fn node_order() ensures is_order(cmp_node())
{
    assert forall|a: Node, b: Node| #[trigger] cmp_node()(a, b) == rev(cmp_node()(b, a)) by { kid_laws(&a.id, &b.id, &a.id); }
    assert forall|a: Node, b: Node, c: Node| #[trigger] cmp_node()(a, b) != Ordering::Greater && #[trigger] cmp_node()(b, c) != Ordering::Greater implies cmp_node()(a, c) != Ordering::Greater by { le_trans(&a.id, &b.id, &c.id); }
}
pub proof fn perm_facts<T>(a: Seq<T>, b: Seq<T>)
    requires perm(a, b),
    ensures a.len() == b.len(), forall|x: T| #[trigger] a.contains(x) <==> b.contains(x), a.no_duplicates() ==> b.no_duplicates(),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] a.contains(b[i]),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: T| #[trigger] a.contains(x) <==> b.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] a.contains(b[i]) by { assert(b.contains(b[i])); }
    if a.no_duplicates() {
        a.lemma_multiset_has_no_duplicates();
        assert forall|x: T| b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by { assert(a.to_multiset().contains(x)); }
        b.lemma_multiset_has_no_duplicates_conv();
    }
}
/// distinct names, put in order
proof fn sort_names(a: Seq<String>, b: Seq<String>)
    requires perm(a, b), texts_differ(a), forall|i: int, j: int| 0 <= i < j < b.len() ==> lex((#[trigger] b[i]).b(), (#[trigger] b[j]).b()) != Ordering::Greater,
    ensures forall|i: int, j: int| 0 <= i < j < b.len() ==> lex((#[trigger] b[i]).b(), (#[trigger] b[j]).b()) == Ordering::Less,
{
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i]@ != a[j]@); } else { assert(a[j]@ != a[i]@); } } }
    perm_facts(a, b); enc_inj();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lex((#[trigger] b[i]).b(), (#[trigger] b[j]).b()) == Ordering::Less by {
        assert(lex(b[i].b(), b[j].b()) != Ordering::Greater);
        lex_eq(b[i].b(), b[j].b());
        if b[i]@ == b[j]@ {
            assert(a.contains(b[i]) && a.contains(b[j]));
            let x = choose|x: int| 0 <= x < a.len() && a[x] == b[i]; let y = choose|y: int| 0 <= y < a.len() && a[y] == b[j];
            assert(x == y) by { if x < y { assert(a[x]@ != a[y]@); } if y < x { assert(a[y]@ != a[x]@); } }
            assert(b[i] == b[j]); assert(false);
        }
    }
}
proof fn names_search(fs: Seq<String>, t: &str)
    requires forall|i: int, j: int| 0 <= i < j < fs.len() ==> lex((#[trigger] fs[i]).b(), (#[trigger] fs[j]).b()) == Ordering::Less,
    ensures
        forall|i: int, j: int| 0 <= i < j < fs.len() ==> ord_le(lex((#[trigger] fs[i]).b(), t.b()), lex((#[trigger] fs[j]).b(), t.b())),
        forall|i: int| 0 <= i < fs.len() ==> (lex((#[trigger] fs[i]).b(), t.b()) == Ordering::Equal <==> fs[i]@ == t@),
{
    enc_inj();
    let b = t.b();
    assert forall|i: int, j: int| 0 <= i < j < fs.len() implies ord_le(lex((#[trigger] fs[i]).b(), b), lex((#[trigger] fs[j]).b(), b)) by {
        let (x, y) = (fs[i].b(), fs[j].b()); assert(lex(x, y) == Ordering::Less);
        lex_eq(x, b); lex_eq(y, b); lex_rev(y, b); lex_rev(x, b); lex_rev(x, y);
        if lex(x, b) == Ordering::Greater { lex_trans(b, x, y); }
    }
    assert forall|i: int| 0 <= i < fs.len() implies (lex((#[trigger] fs[i]).b(), b) == Ordering::Equal <==> fs[i]@ == t@) by { lex_eq(fs[i].b(), b); }
}
proof fn pk_found(p: Seq<Pk>, k: &Kid)
    requires in_order(p), k.wf(), has_pkg(p, kkey(k)),
    ensures
        forall|i: int, j: int| 0 <= i < j < p.len() ==> ord_le(kid_cmp(&(#[trigger] p[i]).0, k), kid_cmp(&(#[trigger] p[j]).0, k)),
        exists|i: int| 0 <= i < p.len() && kid_cmp(&(#[trigger] p[i]).0, k) == Ordering::Equal,
{
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies ord_le(kid_cmp(&(#[trigger] p[i]).0, k), kid_cmp(&(#[trigger] p[j]).0, k)) by {
        assert(k_less(&p[i].0, &p[j].0)); kid_laws(&p[i].0, &p[j].0, k); kid_laws(&p[j].0, k, &p[i].0); kid_laws(k, &p[i].0, &p[j].0);
    }
    let i = choose|i: int| 0 <= i < p.len() && kkey(&(#[trigger] p[i]).0) == kkey(k);
    kid_laws(&p[i].0, k, k);
}
proof fn named_there(n: Node, t: Seq<char>) ensures has_f(n, t) <==> exists|i: int| 0 <= i < n.features@.len() && (#[trigger] n.features@[i])@ == t
{
    if has_f(n, t) { let y = choose|y: usize| is_fidx(n, t, y); assert(n.features@[y as int]@ == t); }
    if exists|i: int| 0 <= i < n.features@.len() && (#[trigger] n.features@[i])@ == t { let i = choose|i: int| 0 <= i < n.features@.len() && (#[trigger] n.features@[i])@ == t; assert(n.features.len() == n.features@.len()); assert(is_fidx(n, t, i as usize)); }
}
/// the nodes read from the document, put in order
proof fn sort_nodes(ns: Seq<cm::Node>, c: Seq<Node>, f: Seq<Node>)
    requires nodes_doc(ns), nodes_are(ns, c), perm(c, f), forall|i: int, j: int| 0 <= i < j < f.len() ==> kid_cmp(&(#[trigger] f[i]).id, &(#[trigger] f[j]).id) != Ordering::Greater,
    ensures nodes_ok(f), nodes_perm(ns, f),
{
    assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { assert(reads_node(ns[i], c[i]) && reads_node(ns[j], c[j])); if i < j { assert(id_key(ns[i].id.repr@) != id_key(ns[j].id.repr@)); } else { assert(id_key(ns[j].id.repr@) != id_key(ns[i].id.repr@)); } } }
    perm_facts(c, f);
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).id.wf() by { assert(c.contains(f[i])); let x = choose|x: int| 0 <= x < c.len() && c[x] == f[i]; assert(reads_node(ns[x], c[x])); }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies k_less(&(#[trigger] f[i]).id, &(#[trigger] f[j]).id) by {
        assert(c.contains(f[i]) && c.contains(f[j])); let x = choose|x: int| 0 <= x < c.len() && c[x] == f[i]; let y = choose|y: int| 0 <= y < c.len() && c[y] == f[j];
        assert(reads_node(ns[x], c[x]) && reads_node(ns[y], c[y])); assert(x != y);
        if x < y { assert(id_key(ns[x].id.repr@) != id_key(ns[y].id.repr@)); } else { assert(id_key(ns[y].id.repr@) != id_key(ns[x].id.repr@)); }
        same_cmp(&f[i].id, &f[j].id, &f[i].id);
    }
}
"""
LEM += r"""
proof fn lib_first(ts: Seq<cm::Target>, i: int, j: int) requires first_lib(ts, i), first_lib(ts, j) ensures i == j { if i < j { assert(!is_lib(ts[i])); } if j < i { assert(!is_lib(ts[j])); } }
proof fn has_lib(ts: Seq<cm::Target>, i: int) requires 0 <= i < ts.len(), is_lib(ts[i]) ensures exists|j: int| first_lib(ts, j) decreases i
{ if exists|j: int| 0 <= j < i && is_lib(#[trigger] ts[j]) { let j = choose|j: int| 0 <= j < i && is_lib(#[trigger] ts[j]); has_lib(ts, j); } else { assert(first_lib(ts, i)); } }
proof fn no_lib(p: Package) requires forall|j: int| 0 <= j < p.targets@.len() ==> !is_lib(#[trigger] p.targets@[j]) ensures forall|r: Seq<char>| !#[trigger] lib_named(p, r)
{ assert forall|r: Seq<char>| !#[trigger] lib_named(p, r) by { if lib_named(p, r) { let i = choose|i: int| #[trigger] first_lib(p.targets@, i) && p.targets@[i].name@ == r && !same_name(r, p.name@); assert(is_lib(p.targets@[i])); } } }
proof fn the_lib(p: Package, i: int) requires first_lib(p.targets@, i) ensures forall|r: Seq<char>| #[trigger] lib_named(p, r) <==> r == p.targets@[i].name@ && !same_name(r, p.name@)
{ assert forall|r: Seq<char>| #[trigger] lib_named(p, r) <==> r == p.targets@[i].name@ && !same_name(r, p.name@) by { if lib_named(p, r) { let j = choose|j: int| #[trigger] first_lib(p.targets@, j) && p.targets@[j].name@ == r && !same_name(r, p.name@); lib_first(p.targets@, i, j); } } }
/// one more version, in its place
proof fn v_insert<'p>(v: Vers<'p>, i: int, x: (&'p Version, &'p str))
    requires vsorted(v), 0 <= i <= v.len(), forall|j: int| 0 <= j < i ==> vcmp(*(#[trigger] v[j]).0, *x.0) == Ordering::Less, forall|j: int| i <= j < v.len() ==> vcmp(*(#[trigger] v[j]).0, *x.0) == Ordering::Greater,
    ensures vsorted(v.insert(i, x)), forall|ver: Version, r: Seq<char>| #[trigger] ren(v.insert(i, x), ver, r) <==> ren(v, ver, r) || (ver == *x.0 && r == x.1@), forall|r: Seq<char>| !#[trigger] ren(v, *x.0, r),
{
    let z = v.insert(i, x);
    assert forall|a: int, b: int| 0 <= a < b < z.len() implies vcmp(*(#[trigger] z[a]).0, *(#[trigger] z[b]).0) == Ordering::Less by {
        let p = if a < i { a } else { a - 1 }; let q = if b < i { b } else { b - 1 };
        if a != i && b != i { assert(vcmp(*v[p].0, *v[q].0) == Ordering::Less); } else if a == i { assert(vcmp(*v[q].0, *x.0) == Ordering::Greater); ver_order(*v[q].0, *x.0, *x.0); } else { assert(vcmp(*v[p].0, *x.0) == Ordering::Less); }
    }
    assert forall|ver: Version, r: Seq<char>| #[trigger] ren(z, ver, r) <==> ren(v, ver, r) || (ver == *x.0 && r == x.1@) by {
        if ren(v, ver, r) { let a = choose|a: int| 0 <= a < v.len() && *(#[trigger] v[a]).0 == ver && v[a].1@ == r; if a < i { assert(z[a] == v[a]); } else { assert(z[a + 1] == v[a]); } }
        if ver == *x.0 && r == x.1@ { assert(z[i] == x); }
        if ren(z, ver, r) { let a = choose|a: int| 0 <= a < z.len() && *(#[trigger] z[a]).0 == ver && z[a].1@ == r; if a < i { assert(z[a] == v[a]); } else if a > i { assert(z[a] == v[a - 1]); } }
    }
    assert forall|r: Seq<char>| !#[trigger] ren(v, *x.0, r) by { if ren(v, *x.0, r) { let a = choose|a: int| 0 <= a < v.len() && *(#[trigger] v[a]).0 == *x.0 && v[a].1@ == r; ver_order(*v[a].0, *x.0, *x.0); } }
}
proof fn empty_rn(p: Seq<Pk>, f: spec_fn(Seq<char>, Version, Seq<char>) -> bool) requires forall|n: Seq<char>, v: Version, r: Seq<char>| !#[trigger] f(n, v, r) ensures reads_renames(p.take(0), f)
{ assert forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] f(n, v, r) <==> rn_of(p.take(0), n, v, r) by { if rn_of(p.take(0), n, v, r) { let i = choose|i: int| #[trigger] is_rn(p.take(0), n, v, r, i); } } }
proof fn rn_step(p: Seq<Pk>, k: int, f: spec_fn(Seq<char>, Version, Seq<char>) -> bool, g: spec_fn(Seq<char>, Version, Seq<char>) -> bool)
    requires 0 <= k < p.len(), reads_renames(p.take(k), f), forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] g(n, v, r) <==> f(n, v, r) || (p[k].1.name@ == n && p[k].1.version == v && lib_named(p[k].1, r) && forall|q: Seq<char>| !#[trigger] f(n, v, q)),
    ensures reads_renames(p.take(k + 1), g),
{
    let a = p.take(k); let b = p.take(k + 1);
    assert forall|i: int| 0 <= i < k implies #[trigger] a[i] == b[i] by { }
    assert forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] g(n, v, r) <==> rn_of(b, n, v, r) by {
        assert(f(n, v, r) <==> rn_of(a, n, v, r));
        if rn_of(a, n, v, r) { let i = choose|i: int| #[trigger] is_rn(a, n, v, r, i); assert(a[i] == b[i]); assert forall|j: int| 0 <= j < i implies !is_renamed((#[trigger] b[j]).1, n, v) by { assert(!is_renamed(a[j].1, n, v)); } assert(is_rn(b, n, v, r, i)); }
        if rn_of(b, n, v, r) && !rn_of(a, n, v, r) {
            let i = choose|i: int| #[trigger] is_rn(b, n, v, r, i);
            if i < k { assert(a[i] == b[i]); assert forall|j: int| 0 <= j < i implies !is_renamed((#[trigger] a[j]).1, n, v) by { assert(!is_renamed(b[j].1, n, v)); } assert(is_rn(a, n, v, r, i)); }
            assert forall|q: Seq<char>| !#[trigger] f(n, v, q) by { if f(n, v, q) { assert(rn_of(a, n, v, q)); let j = choose|j: int| #[trigger] is_rn(a, n, v, q, j); assert(is_renamed(b[j].1, n, v)) by { assert(a[j] == b[j]); } } }
        }
        if p[k].1.name@ == n && p[k].1.version == v && lib_named(p[k].1, r) && forall|q: Seq<char>| !#[trigger] f(n, v, q) {
            assert forall|j: int| 0 <= j < k implies !is_renamed((#[trigger] b[j]).1, n, v) by { if is_renamed(b[j].1, n, v) { first_rn(a, n, v, j); let q = choose|q: Seq<char>| #[trigger] rn_of(a, n, v, q); assert(f(n, v, q)); } }
            assert(b[k] == p[k]); assert(is_rn(b, n, v, r, k));
        }
    }
}
proof fn first_rn(p: Seq<Pk>, n: Seq<char>, v: Version, i: int) requires 0 <= i < p.len(), is_renamed(p[i].1, n, v) ensures exists|q: Seq<char>| #[trigger] rn_of(p, n, v, q) decreases i
{
    if exists|j: int| 0 <= j < i && is_renamed((#[trigger] p[j]).1, n, v) { let j = choose|j: int| 0 <= j < i && is_renamed((#[trigger] p[j]).1, n, v); first_rn(p, n, v, j); }
    else { let q = choose|r: Seq<char>| #[trigger] lib_named(p[i].1, r); assert(is_rn(p, n, v, q, i)); assert(rn_of(p, n, v, q)); }
}
"""
M = [("sort", "0", "vx_sort"), ("sort_unstable", "0", "vx_sort"), ("splitn", "*", "vx_splitn"), ("count", "0", "vx_count"), ("parse", "0", "vx_parse"), ("first", "0", "vx_first"), ("is_some_and", "closure", "fn:vx_is_some_and"), ("sort_by", "closure", "vx_sort_by"), ("sort_unstable_by", "closure", "vx_sort_by"),
     ("map", "closure", "vx_mapv"), ("collect", "0", "vx_collect"), ("into_iter", "0", "vx_into_iter"), ("binary_search_by", "*", "vx_bsearch")]
MK = M + [("cmp", "str", "vx_cmp")]
SEL = "let:nodes;closure:#0"
FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [visit.FF[n] for n in ("DepKind::eq", "DepKind::from", "MdTarget::from")] + [
    Fn("read_kind", B, BM, "fn read_kind(vxq0: cm::DepKindInfo) -> (r: DepKindInfo) ensures kind_is(vxq0, r)", select=SEL + ";let:deps;closure:#0;let:dep_kinds;closure:#0", methods=[("map", "path", "fn:vx_opt_map"), ("map", "closure", "fn:vx_opt_map")],
       subst=[(r"dk\.kind\.into\(\)", "DepKind::from(dk.kind)")]),
    Fn("read_dep", B, BM, "fn read_dep(vxq0: cm::NodeDep) -> (r: NodeDep) requires dep_doc(vxq0), ensures dep_is(vxq0, r)", select=SEL + ";let:deps;closure:#0", methods=M,
       cuts=[("let:dep_kinds;closure:#0", "|x: cm::DepKindInfo| read_kind(x)")], closures={0: "|vxp0: cm::DepKindInfo| -> (r: DepKindInfo) ensures kind_is(vxp0, r)"}),
]
FNS += [
    Fn("read_node", B, BM, "fn read_node(packages: &Vec<Pk>, vxq0: cm::Node) -> (r: Node) requires in_order(packages@), node_doc(vxq0), has_pkg(packages@, id_key(vxq0.id.repr@)), ensures reads_node(vxq0, r)", select=SEL, methods=MK,
       cuts=[("let:deps;closure:#0", "|x: cm::NodeDep| read_dep(x)")],
       subst=[build.SORT("cmp_dep()")],
       closures={0: "|vxp0: &Pk| -> (o: Ordering) requires vxp0.0.wf(), ensures o == kid_cmp(&vxp0.0, &id)",
                 1: "|vxp0: cm::NodeDep| -> (r: NodeDep) requires dep_doc(vxp0), ensures dep_is(vxp0, r)",
                 2: "|vxp0: &NodeDep, vxp1: &NodeDep| -> (o: Ordering) requires vxp0.pkg.wf(), vxp1.pkg.wf(), ensures o == kid_cmp(&vxp0.pkg, &vxp1.pkg)",
                 3: "|vxp0: &String| -> (o: Ordering) ensures o == lex(vxp0.b(), \"default\".b())"},
       at={"let_id": "proof { pk_found(packages@, &id); }", "let_deps": "let ghost c0 = deps@; proof { dep_order(); assert(deps_are(vxq0.deps@, c0)); }", "call_vx_sort_by": "proof { perm_facts(c0, deps@); assert(deps_perm(vxq0.deps@, deps@)); }",
           "call_vx_sort": "proof { sort_names(vxq0.features@, features@); names_search(features@, \"default\"); }",
           "let_has_default_feature": "let ghost n0 = Node { id, deps, features, has_default_feature }; proof { named_there(n0, \"default\"@); assert(has_default_feature == has_f(n0, \"default\"@)); }"}),
    Fn("prep_nodes", B, BM, "fn prep_nodes(packages: &Vec<Pk>, resolved_nodes: Vec<cm::Node>) -> (r: Vec<Node>) requires in_order(packages@), nodes_doc(resolved_nodes@), forall|i: int| 0 <= i < resolved_nodes@.len() ==> has_pkg(packages@, id_key((#[trigger] resolved_nodes@[i]).id.repr@)), ensures nodes_ok(r@), nodes_perm(resolved_nodes@, r@)",
       select="stmts:let:nodes..let:dep_edge_map", methods=MK, ret="nodes", cuts=[(SEL, "|x: cm::Node| read_node(packages, x)")],
       subst=[(r"resolved\s*\.\s*nodes", "resolved_nodes"), build.SORT("cmp_node()")],
       closures={0: "|vxp0: cm::Node| -> (r: Node) requires in_order(packages@), node_doc(vxp0), has_pkg(packages@, id_key(vxp0.id.repr@)), ensures reads_node(vxp0, r)",
                 1: "|vxp0: &Node, vxp1: &Node| -> (o: Ordering) requires vxp0.id.wf(), vxp1.id.wf(), ensures o == kid_cmp(&vxp0.id, &vxp1.id)"},
       at={"let_nodes": "let ghost c0 = nodes@; proof { node_order(); assert(nodes_are(resolved_nodes@, c0)); }", "call_vx_sort_by": "proof { sort_nodes(resolved_nodes@, c0, nodes@); }"}),
    Fn("ids_are_old", B, BM, "fn ids_are_old(resolved_nodes: &Vec<cm::Node>) -> (r: bool) ensures r == old_ids(resolved_nodes@)", select="let:is_opaque", methods=M, subst=[(r"resolved\s*\.\s*nodes", "resolved_nodes")],
       closures={0: "|vxp0: &cm::Node| -> (r: bool) ensures r == (count_c(vxp0.id.repr.b(), 32) >= 2)"}),
    Fn("read_members", B, BM, "fn read_members(md_workspace_members: Vec<PackageId>) -> (r: Vec<Kid>) requires forall|i: int| 0 <= i < md_workspace_members@.len() ==> cargo_id((#[trigger] md_workspace_members@[i]).repr@), ensures ws_ok(r@), reads_ids(md_workspace_members@, r@)",
       select="stmts:let:workspace_members..let:root", methods=M + [("map", "path", "vx_mapv")], ret="workspace_members", subst=[(r"md\s*\.\s*workspace_members", "md_workspace_members")],
       at={"let_workspace_members": "let ghost c0 = workspace_members@; proof { assert(ids_are(md_workspace_members@, c0)); }", "call_vx_sort": "proof { perm_facts(c0, workspace_members@); assert forall|i: int| 0 <= i < workspace_members@.len() implies (#[trigger] workspace_members@[i]).wf() by { assert(c0.contains(workspace_members@[i])); let x = choose|x: int| 0 <= x < c0.len() && c0[x] == workspace_members@[i]; assert(c0[x].wf()); } assert(reads_ids(md_workspace_members@, workspace_members@)); }"}),
    Fn("Renames::maybe_insert", B, IN + "Renames::maybe_insert", """fn maybe_insert(&mut self, $p0: &'p Package)
    requires old(self).wf(),
    ensures final(self).wf(), forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] (final(self).fun())(n, v, r) <==> (old(self).fun())(n, v, r) || ($p0.name@ == n && $p0.version == v && lib_named(*$p0, r) && forall|q: Seq<char>| !#[trigger] (old(self).fun())(n, v, q))""", impl="impl<'p> Renames<'p>",
       methods=[("iter", "0", "vx_iter"), ("find", "closure", "vx_find"), ("insert","*","insert"), ("contains", "*", "vx_has"), ("binary_search_by", "*", "vx_bsearch"), ("cmp", "*", "vx_vcmp")],
       subst=[(r"self\.inner\.entry\(&(\w+)\.name\)\s*\.or_default\(\)", r"self.inner.vx_entry_default(\1.name.as_str())"), (r"&(\w+)\.name\)\)", r"\1.name.as_str()))")],
       closures={0: "|vxp0: &&'p cm::Target| -> (r: bool) ensures r == is_lib(**vxp0)", 1: "|vxp0: &(&'p Version, &'p str)| -> (o: Ordering) ensures o == vcmp(*vxp0.0, $p0.version)"},
       bind=["iter", "find", "binary_search_by"],
       at={"start": "proof { all_search(); }", "b0": "proof { assert(vx_b0.vseq() == refs($p0.targets@)); }",
           "b1": """proof {
            let ts = $p0.targets@; let z = refs(ts);
            if vx_b1 is None { assert forall|j: int| 0 <= j < ts.len() implies !is_lib(#[trigger] ts[j]) by { assert(*z[j] == ts[j]); } no_lib(*$p0); }
            else { let i = choose|i: int| 0 <= i < z.len() && #[trigger] z[i] == vx_b1->0 && is_lib(*z[i]) && forall|j: int| #![trigger z[j]] 0 <= j < i ==> !is_lib(*z[j]);
                assert forall|j: int| 0 <= j < i implies !is_lib(#[trigger] ts[j]) by { assert(*z[j] == ts[j]); } assert(ts[i] == *z[i]); assert(first_lib(ts, i)); the_lib(*$p0, i); }
        }""",
           "before_let_v": "let ghost m0 = self.inner.sm(); proof { assert(m0.contains_key($p0.name@) ==> vsorted(m0[$p0.name@]@)); }",
           "let_v": "let ghost mut v1 = v@; let ghost v0 = v@; proof { assert(vsorted(v0)); }",
           "b2": "proof { if vx_b2 is Ok { let y = vx_b2->Ok_0 as int; assert(*v0[y].0 == $p0.version); assert(ren(v0, $p0.version, v0[y].1@)); } }",
           "call_insert": "proof { v1 = v@; let x = v1[i as int]; assert(v1 =~= v0.insert(i as int, x)); assert(*x.0 == $p0.version && x.1@ == targ.name@); v_insert(v0, i as int, x); }"},
       ret="""proof {
            assert(self.inner.sm()[$p0.name@]@ == v1); assert(vsorted(v1));
            assert forall|n: Seq<char>| #[trigger] self.inner.sm().contains_key(n) implies vsorted(self.inner.sm()[n]@) by { if n != $p0.name@ { assert(m0.contains_key(n)); } }
            let o = old(self).fun(); let g = self.fun();
            assert forall|v: Version, r: Seq<char>| #[trigger] o($p0.name@, v, r) == ren(v0, v, r) by { if !m0.contains_key($p0.name@) { assert(v0.len() == 0); } }
            assert forall|v: Version, r: Seq<char>| #[trigger] g($p0.name@, v, r) == ren(v1, v, r) by { }
            assert forall|n: Seq<char>, v: Version, r: Seq<char>| #[trigger] g(n, v, r) <==> o(n, v, r) || ($p0.name@ == n && $p0.version == v && lib_named(*$p0, r) && forall|q: Seq<char>| !#[trigger] o(n, v, q)) by {
                if n == $p0.name@ { assert(o(n, v, r) == ren(v0, v, r)); assert(g(n, v, r) == ren(v1, v, r)); if forall|q: Seq<char>| !#[trigger] o(n, v, q) { assert forall|q: Seq<char>| !#[trigger] ren(v0, v, q) by { assert(!o(n, v, q)); } } else { let q = choose|q: Seq<char>| #[trigger] o(n, v, q); assert(ren(v0, v, q)); } }
                else { assert(self.inner.sm().contains_key(n) <==> m0.contains_key(n)); }
            }
        }"""),
    Fn("load_renames", B, BM, "fn load_renames<'p>(renames: &mut Renames<'p>, packages: &'p Vec<Pk>) requires old(renames).inner.sm() == Map::<Seq<char>, Vec<(&Version, &str)>>::empty(), ensures final(renames).wf(), reads_renames(packages@, final(renames).fun())",
       select="stmts:text:renames.maybe_insert..=text:renames.maybe_insert", subst=[(r"vx_into\(&packages\)", "vx_into(packages)")],
       loops={0: forinv(0, "refs(packages@)", "renames.wf(), reads_renames(packages@.take(vx_it0.i()), renames.fun())")},
       at={"start": "proof { empty_rn(packages@, renames.fun()); }", "before_call_maybe_insert": "let ghost f0 = renames.fun(); proof { assert(*pkg == packages@[vx_it0.i() - 1].1); }",
           "call_maybe_insert": "proof { rn_step(packages@, vx_it0.i() - 1, f0, renames.fun()); }", "l0_after": "proof { assert(packages@.take(packages@.len() as int) =~= packages@); }"}),
    Fn("read_root", B, BM, "fn read_root(resolved_root: &mut Option<PackageId>) -> (r: Option<Kid>) requires *old(resolved_root) is Some ==> cargo_id((*old(resolved_root))->0.repr@), ensures reads_id(*old(resolved_root), r)",
       select="let:root", methods=[("map", "path", "fn:vx_opt_map")], subst=[(r"resolved\s*\.\s*root", "resolved_root")]),
]
UNITS = [Unit("prep", ["C03", "C04", "C08", "C09", "C10", "C19", "C20"], prelude=["str", "iter", "order", "streq", "chars", "opt", "graph", "coll", "semver", "cfgexpr", "meta", "map", "kmap"], types=visit.TYPES + [build.LNODE], mods=dict(_meta.MODS), spec=SPEC, lemmas=LEM, fns=FNS)]
