from _common import *
import kid, _meta, build
L, B, BM, IN = "src/lib.rs", "src/builder.rs", build.BM, build.IN
TYPES = _meta.TYPES + [Ty(L, "Kid"), Ty(B, "Builder", subst=[("PathBuf", "PathX"), (r"index::BuildIndexCache", "IndexX"), ("crate::PkgSpec", "PkgSpec")])]
M = [("iter", "0", "vx_iter"), ("extend", "*", "vx_kextend"), ("canonicalize", "0", "vx_canonicalize"), ("as_deref", "0", "vx_as_deref"), ("unwrap_or", "*", "vx_unwrap_or"), ("parent", "0", "vx_parent"),
     ("binary_search_by", "closure", "vx_bsearch"), ("any", "closure", "vx_any"), ("as_std_path", "0", "vx_std_path"), ("cmp", "*", "fn:Kid::cmp"), ("contains", "*", "vx_kcontains")]
MI = [("extend", "*", "vx_extend"), ("canonicalize", "0", "vx_canonicalize"), ("unwrap_or_else", "closure", "vx_unwrap_or_else"), ("as_ref", "0", "vx_as_path"), ("to_owned", "0", "vx_to_owned"), ("to_path_buf", "0", "vx_to_owned"), ("map", "closure", "vx_mapv"), ("join", "*", "vx_join"), ("ends_with", "*", "vx_path_ends")]
SPEC = build.BASE + r"""
#[verifier::external_body] pub struct IndexX { x: u64 }
#[verifier::external_body] pub struct PkgSpec { x: u64 }
#[verifier::external_body] pub struct TargetFilter { x: u64 }
/// all but the selection
pub open spec fn other_settings(a: Builder, b: Builder) -> bool { a.target_filters == b.target_filters && a.exclude == b.exclude && a.ignore_kinds == b.ignore_kinds && a.crates_io_index == b.crates_io_index }
pub type Pk = (Kid, Package);
pub open spec fn k_less(a: &Kid, b: &Kid) -> bool { kid_cmp(a, b) == Ordering::Less }
/// packages by strictly increasing identifier
pub open spec fn in_order(p: Seq<Pk>) -> bool { (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0.wf()) && forall|i: int, j: int| 0 <= i < j < p.len() ==> k_less(&(#[trigger] p[i]).0, &(#[trigger] p[j]).0) }
// ---- paths, by the text they are spelled with; two are equal when their components are
/// what the file system makes of a path: where it really is, if it exists
pub uninterp spec fn canon(b: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn follow(b: Seq<u8>) -> Seq<u8> { match canon(b) { Some(c) => c, None => b } }
pub open spec fn same_path(a: Seq<u8>, b: Seq<u8>) -> bool { components(a) == components(b) }
/// the directory a path is in (none for the root and the empty path)
pub open spec fn dir_of(c: Seq<Seq<u8>>) -> Option<Seq<Seq<u8>>> { if c.len() == 0 || c.last() == seq![47u8] { None } else { Some(c.drop_last()) } }
pub open spec fn ends_in(b: Seq<u8>, f: Seq<u8>) -> bool { components(b).len() > 0 && components(b).last() == f }
pub struct IoErr { pub x: u64 }
/// a file name: one component, not the root
pub open spec fn plain(f: Seq<u8>) -> bool { f.len() > 0 && f != seq![46u8] && f != seq![46u8, 46u8] && forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] != 47u8 }
impl PathX {
    #[verifier::external_body] pub fn vx_std_path(&self) -> (r: &PathX) ensures r.b() == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn vx_canonicalize(&self) -> (r: Result<PathX, IoErr>) ensures r is Ok <==> canon(self.b()) is Some, r is Ok ==> r->Ok_0.b() == canon(self.b())->0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_parent(&self) -> (r: Option<&PathX>) ensures r is Some <==> dir_of(components(self.b())) is Some, r is Some ==> components(r->0.b()) == dir_of(components(self.b()))->0 { unimplemented!() }
    /// `Path::ends_with` goes by components
    #[verifier::external_body] pub fn vx_path_ends(&self, f: &str) -> (r: bool) ensures plain(f.b()) ==> r == ends_in(self.b(), f.b()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_join(&self, f: &str) -> (r: PathX) ensures plain(f.b()) ==> components(r.b()) == components(self.b()).push(f.b()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_owned(&self) -> (r: PathX) ensures r.b() == self.b() { unimplemented!() }
}
pub trait DerefX { spec fn dp(&self) -> Option<Seq<u8>>; fn vx_as_deref(&self) -> (r: Result<&PathX, &IoErr>) ensures r is Ok <==> self.dp() is Some, r is Ok ==> r->Ok_0.b() == self.dp()->0; }
impl DerefX for Result<PathX, IoErr> { open spec fn dp(&self) -> Option<Seq<u8>> { match self { Ok(p) => Some(p.b()), Err(_) => None } } fn vx_as_deref(&self) -> (r: Result<&PathX, &IoErr>) { match self { Ok(p) => Ok(p), Err(e) => Err(e) } } }
pub trait UnwrapOrX<T, E>: Sized { spec fn rs(self) -> Result<T, E>; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.rs() { Ok(x) => x, Err(_) => d });
    fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) requires self.rs() is Err ==> f.requires((self.rs()->Err_0,)), ensures self.rs() is Ok ==> r == self.rs()->Ok_0, self.rs() is Err ==> f.ensures((self.rs()->Err_0,), r); }
impl<T, E> UnwrapOrX<T, E> for Result<T, E> { open spec fn rs(self) -> Result<T, E> { self } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } }
    fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { match self { Ok(x) => x, Err(e) => f(e) } } }
impl VxEq<PathX> for PathX { open spec fn eqs(&self, o: &PathX) -> bool { same_path(self.b(), o.b()) } #[verifier::external_body] fn vx_eq_(&self, o: &PathX) -> (r: bool) { unimplemented!() } }
impl VxEq<&PathX> for &PathX { open spec fn eqs(&self, o: &&PathX) -> bool { same_path(self.b(), o.b()) } #[verifier::external_body] fn vx_eq_(&self, o: &&PathX) -> (r: bool) { unimplemented!() } }
impl VxEq<Option<&PathX>> for Option<&PathX> { open spec fn eqs(&self, o: &Option<&PathX>) -> bool { match (self, o) { (Some(a), Some(b)) => same_path(a.b(), b.b()), (None, None) => true, _ => false } } #[verifier::external_body] fn vx_eq_(&self, o: &Option<&PathX>) -> (r: bool) { unimplemented!() } }
/// what `extend` and `map` take: items that are paths
pub trait AsPath { spec fn pt(&self) -> Seq<u8>; fn vx_as_path(&self) -> (r: &PathX) ensures r.b() == self.pt(); }
pub trait MapV<T>: VxInto<T = T> { fn vx_mapv<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures r.i() == 0, r.wf(), r.s().len() == self.vseq().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.vseq()[i]] 0 <= i < r.s().len() ==> f.ensures((self.vseq()[i],), r.s()[i]); }
impl<T, I: VxInto<T = T>> MapV<T> for I { #[verifier::external_body] fn vx_mapv<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>) { unimplemented!() } }
pub trait ExtendX<T> { spec fn xs(&self) -> Seq<T>; fn vx_extend(&mut self, s: It<T>) requires s.i() == 0, ensures final(self).xs() == old(self).xs() + s.s(); }
impl<T> ExtendX<T> for Vec<T> { open spec fn xs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend(&mut self, s: It<T>) { unimplemented!() } }
// ---- C08: the roots, from the workspace and the selection alone
pub open spec fn members(m: Seq<Kid>, k: KKey) -> bool { exists|i: int| 0 <= i < m.len() && kkey(&#[trigger] m[i]) == k }
pub open spec fn toml() -> Seq<u8> { encode_utf8("Cargo.toml"@) }
/// the manifest a selected path stands for: the file itself, or the Cargo.toml in the directory; links followed
pub open spec fn stands_for(p: Seq<u8>, c: Seq<Seq<u8>>) -> bool { let q = follow(p); c == if ends_in(q, toml()) { components(q) } else { components(q).push(toml()) } }
/// only the workspace root itself is selected
pub open spec fn whole_ws(f: Seq<PathX>, ws: Seq<u8>) -> bool { f.len() == 1 && dir_of(components(f[0].b())) == Some(components(follow(ws))) }
pub open spec fn selected(f: Seq<PathX>, manifest: Seq<u8>) -> bool { exists|j: int| 0 <= j < f.len() && same_path((#[trigger] f[j]).b(), follow(manifest)) }
pub open spec fn sel_pkg(p: Seq<Pk>, f: Seq<PathX>, k: KKey, i: int) -> bool { 0 <= i < p.len() && kkey(&p[i].0) == k && selected(f, p[i].1.manifest_path.b()) }
pub open spec fn is_root(f: Seq<PathX>, workspace: bool, ws: Seq<u8>, root: Option<Kid>, m: Seq<Kid>, p: Seq<Pk>, k: KKey) -> bool {
    if f.len() == 0 { if !workspace && root is Some { k == kkey(&root->0) } else { members(m, k) } }
    else { members(m, k) && (whole_ws(f, ws) || exists|i: int| #[trigger] sel_pkg(p, f, k, i)) }
}
"""
LEM = lit("Cargo.toml") + r"""
proof fn members_step(m: Seq<Kid>, n: int) requires 0 <= n < m.len() ensures forall|k: KKey| #[trigger] members(m.take(n + 1), k) <==> members(m.take(n), k) || k == kkey(&m[n])
{
    let a = m.take(n); let b = m.take(n + 1);
    assert forall|k: KKey| #[trigger] members(b, k) <==> members(a, k) || k == kkey(&m[n]) by {
        if members(b, k) { let i = choose|i: int| 0 <= i < b.len() && kkey(&#[trigger] b[i]) == k; if i < n { assert(a[i] == b[i]); } }
        if members(a, k) { let i = choose|i: int| 0 <= i < a.len() && kkey(&#[trigger] a[i]) == k; assert(a[i] == b[i]); }
        if k == kkey(&m[n]) { assert(b[n] == m[n]); }
    }
}
proof fn refs_sel(f: Seq<PathX>) ensures forall|m: Seq<u8>| #[trigger] selected(f, m) <==> exists|j: int| 0 <= j < f.len() && same_path((#[trigger] refs(f)[j]).b(), follow(m))
{
    assert forall|m: Seq<u8>| #[trigger] selected(f, m) <==> exists|j: int| 0 <= j < f.len() && same_path((#[trigger] refs(f)[j]).b(), follow(m)) by {
        if selected(f, m) { let j = choose|j: int| 0 <= j < f.len() && same_path((#[trigger] f[j]).b(), follow(m)); assert(same_path(refs(f)[j].b(), follow(m))); }
    }
}
proof fn refs_members(m: Seq<Kid>) ensures forall|k: KKey| #[trigger] members(m, k) <==> exists|i: int| 0 <= i < m.len() && kkey(#[trigger] refs(m)[i]) == k
{
    assert forall|k: KKey| #[trigger] members(m, k) <==> exists|i: int| 0 <= i < m.len() && kkey(#[trigger] refs(m)[i]) == k by {
        if members(m, k) { let i = choose|i: int| 0 <= i < m.len() && kkey(&#[trigger] m[i]) == k; assert(kkey(refs(m)[i]) == k); }
    }
}
proof fn toml_plain() ensures plain(toml()) { lits(); }
proof fn pk_search(p: Seq<Pk>, k: &Kid)
    requires in_order(p), k.wf(),
    ensures
        forall|i: int, j: int| 0 <= i < j < p.len() ==> ord_le(kid_cmp(&(#[trigger] p[i]).0, k), kid_cmp(&(#[trigger] p[j]).0, k)),
        forall|i: int| 0 <= i < p.len() ==> (kid_cmp(&(#[trigger] p[i]).0, k) == Ordering::Equal <==> kkey(&p[i].0) == kkey(k)),
        forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && kkey(&(#[trigger] p[i]).0) == kkey(&(#[trigger] p[j]).0) ==> i == j,
{
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies ord_le(kid_cmp(&(#[trigger] p[i]).0, k), kid_cmp(&(#[trigger] p[j]).0, k)) by {
        assert(k_less(&p[i].0, &p[j].0)); kid_laws(&p[i].0, &p[j].0, k); kid_laws(&p[j].0, k, &p[i].0); kid_laws(k, &p[i].0, &p[j].0);
    }
    assert forall|i: int| 0 <= i < p.len() implies (kid_cmp(&(#[trigger] p[i]).0, k) == Ordering::Equal <==> kkey(&p[i].0) == kkey(k)) by { kid_laws(&p[i].0, k, k); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && kkey(&(#[trigger] p[i]).0) == kkey(&(#[trigger] p[j]).0) implies i == j by {
        kid_laws(&p[i].0, &p[j].0, k); kid_laws(&p[j].0, &p[i].0, k);
        if i < j { assert(k_less(&p[i].0, &p[j].0)); } else if j < i { assert(k_less(&p[j].0, &p[i].0)); }
    }
}
"""
FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [
    Fn("find_roots", B, BM, """fn find_roots<'p>(workspace_filters: &Vec<PathX>, workspace: bool, md_workspace_root: &PathX, root: &'p Option<Kid>, workspace_members: &'p Vec<Kid>, packages: &Vec<Pk>) -> (r: KSet<'p>)
    requires in_order(packages@), forall|i: int| 0 <= i < workspace_members@.len() ==> (#[trigger] workspace_members@[i]).wf(), root is Some ==> root->0.wf(),
    ensures forall|k: KKey| #[trigger] r.m().contains(k) <==> is_root(workspace_filters@, workspace, md_workspace_root.b(), *root, workspace_members@, packages@, k)""",
       select="let:roots", methods=M, eqs=True,
       subst=[(r"\bself\s*\.\s*workspace", "workspace"), (r"md\s*\.\s*workspace_root", "md_workspace_root"), (r"BTreeSet::new\(\)", "KSet::new()"), (r"= &root\b", "= root"), (r"vx_into\(&workspace_members\)", "vx_into(workspace_members)")],
       closures={0: "|vxp0: &Pk| -> (o: Ordering) requires vxp0.0.wf(), ensures o == kid_cmp(&vxp0.0, wm)",
                 1: "|vxp0: &PathX| -> (o: bool) ensures o == same_path(vxp0.b(), mp.b())"},
       at={"start": "proof { refs_members(workspace_members@); assert(forall|m: Seq<u8>| #[trigger] selected(workspace_filters@, m) <==> exists|j: int| 0 <= j < workspace_filters@.len() && same_path((#[trigger] refs(workspace_filters@)[j]).b(), follow(m))) by { refs_sel(workspace_filters@); } lits(); }",
           "l0_before": "proof { assert(workspace_members@.take(0) =~= Seq::<Kid>::empty()); }",
           "l0_start": "let ghost n = vx_it0.i() - 1; proof { assert(*wm == workspace_members@[n]); assert(wm.wf()); pk_search(packages@, wm); members_step(workspace_members@, n); }",
           "let_manifest_path": "proof { assert(kkey(&packages@[i as int].0) == kkey(wm)); assert(forall|j: int| #[trigger] sel_pkg(packages@, workspace_filters@, kkey(wm), j) ==> j == i); assert(sel_pkg(packages@, workspace_filters@, kkey(wm), i as int) <==> selected(workspace_filters@, packages@[i as int].1.manifest_path.b())); }",
           "l0_end": "proof { assert(roots.m().contains(kkey(wm)) <==> so_far(workspace_members@, packages@, workspace_filters@, n + 1, kkey(wm))); }",
           "l0_after": "proof { assert(workspace_members@.take(workspace_members@.len() as int) =~= workspace_members@); }"},
       loops={0: forinv(0, None, "vx_s0 == refs(workspace_members@), forall|k: KKey| #[trigger] roots.m().contains(k) <==> so_far(workspace_members@, packages@, workspace_filters@, vx_it0.i(), k)")}),
    Fn("include_workspace_crates", B, "Builder::include_workspace_crates", """fn include_workspace_crates<P: AsPath, I: VxInto<T = P>>(&mut self, $p0: I) -> (r: &mut Self)
    ensures *final(r) == *final(self), other_settings(*old(self), *r), r.workspace == old(self).workspace,
        r.workspace_filters@.len() == old(self).workspace_filters@.len() + $p0.vseq().len(), forall|i: int| 0 <= i < old(self).workspace_filters@.len() ==> #[trigger] r.workspace_filters@[i] == old(self).workspace_filters@[i],
        forall|i: int| 0 <= i < $p0.vseq().len() ==> stands_for(#[trigger] $p0.vseq()[i].pt(), components(r.workspace_filters@[old(self).workspace_filters@.len() + i].b()))""", impl="impl Builder",
       methods=MI, subst=[(r"\.into_iter\(\)", "")],
       closures={0: "|vxp0: P| -> (r: PathX) requires plain(\"Cargo.toml\".b()), \"Cargo.toml\".b() == toml(), ensures stands_for(vxp0.pt(), components(r.b()))", 1: "|_e: IoErr| -> (r: PathX) ensures r.b() == p.b()"},
       at={"start": "proof { lits(); toml_plain(); }"}),
    Fn("workspace", B, "Builder::workspace", """fn workspace(&mut self, $p0: bool) -> (r: &mut Self)
    ensures *final(r) == *final(self), other_settings(*old(self), *r), r.workspace == $p0, r.workspace_filters == old(self).workspace_filters""", impl="impl Builder"),
]
SPEC += r"""
pub open spec fn so_far(m: Seq<Kid>, p: Seq<Pk>, f: Seq<PathX>, n: int, k: KKey) -> bool { members(m.take(n), k) && exists|i: int| #[trigger] sel_pkg(p, f, k, i) }
"""
UNITS = [Unit("roots", ["C08", "C19"], prelude=["str", "iter", "order", "streq", "opt", "coll", "semver", "cfgexpr", "meta", "kmap"], types=TYPES, mods=dict(_meta.MODS), spec=SPEC, lemmas=LEM, fns=FNS)]
