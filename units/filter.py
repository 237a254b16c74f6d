from _common import *
import kid, _meta
L, B, CM = "src/lib.rs", "src/builder.rs", "src/cm.rs"
IN = "Builder::build_with_metadata/"


def types(tc):
    return _meta.TYPES + [Ty(L, "Kid"), Ty(L, "DepKind", attrs="#[derive(Clone, Copy)]"), Ty(B, "Scope", attrs="#[derive(Clone, Copy)]"), Ty("src/pkgspec.rs", "PkgSpec"),
            Ty(B, "Target", targets_cfg=tc), Ty(B, "TargetFilter"), Ty(L, "MdTarget"), Ty(B, "Builder", subst=[("PathBuf", "PathX"), (r"index::BuildIndexCache", "IndexX"), ("crate::PkgSpec", "PkgSpec")]),
            Ty(B, IN + "DepKindInfo"), Ty(B, IN + "NodeDep"), Ty(B, IN + "Node"), Ty(B, IN + "Edge", subst=[(r"&'d \[String\]", "&'d Vec<String>")])]


SPEC = kid.KID_SPEC + kid.KID_LAWS + r"""
pub type DK = cm::DependencyKind;
pub use cm::DependencyKind;
#[verifier::external_body] pub struct IndexX { x: u64 }
/// the dependency kind the metadata names
pub open spec fn kind_of(k: DependencyKind) -> DepKind { match k { DependencyKind::Normal => DepKind::Normal, DependencyKind::Development => DepKind::Dev, DependencyKind::Build => DepKind::Build } }
impl VxEq<DependencyKind> for DepKind { open spec fn eqs(&self, o: &DependencyKind) -> bool { *self == kind_of(*o) } fn vx_eq_(&self, o: &DependencyKind) -> (r: bool) { self.eq_dk(o) } }

// ---- C05: (kind, scope) settings
pub open spec fn kbit(k: DepKind) -> u32 { match k { DepKind::Normal => 0x1u32, DepKind::Dev => 0x8u32, DepKind::Build => 0x40u32 } }
pub open spec fn bits(k: DepKind, ws: bool) -> u32 { let m = match k { DepKind::Normal => 0x1u32, DepKind::Dev => 0x8u32, DepKind::Build => 0x40u32 }; m | (m << (if ws { 1u32 } else { 2u32 })) }
/// links of kind k are ignored for dependents inside (ws) or outside the workspace
pub open spec fn ignored(m: u32, k: DepKind, ws: bool) -> bool { bits(k, ws) & m == bits(k, ws) }
pub open spec fn in_scope(s: Scope, ws: bool) -> bool { match s { Scope::Workspace => ws, Scope::NonWorkspace => !ws, Scope::All => true } }

// ---- C06: targets
impl TargetFilter {
    pub open spec fn evals(&self, p: cfg_expr::Predicate<'_>) -> bool {
        match p {
            cfg_expr::Predicate::Target(tp) => self.inner.satisfies(tp),
            cfg_expr::Predicate::TargetFeature(f) => exists|i: int| 0 <= i < self.features@.len() && (#[trigger] self.features@[i])@ == f@,
            _ => false,
        }
    }
    pub open spec fn h(&self) -> spec_fn(cfg_expr::Predicate<'_>) -> bool { |p: cfg_expr::Predicate<'_>| self.evals(p) }
}
"""
TSPEC = {False: r"""
impl Target {
    pub open spec fn satisfies(&self, p: cfg_expr::expr::TargetPredicate) -> bool { match self { Target::Builtin(bi) => p.builtin_ok(**bi), Target::Unknown(_) => false } }
    pub open spec fn is_triple(&self, t: Seq<u8>) -> bool { match self { Target::Builtin(bi) => bi.triple.b() == t, Target::Unknown(u) => u.b() == t } }
    /// the target selected by the text t
    pub open spec fn selects(&self, t: Seq<u8>) -> bool {
        match self { Target::Builtin(bi) => cfg_expr::targets::builtin(t) == Some(**bi) && bi.triple.b() == t, Target::Unknown(u) => cfg_expr::targets::builtin(t) is None && u.b() == t }
    }
}
""", True: r"""
impl Target {
    pub open spec fn satisfies(&self, p: cfg_expr::expr::TargetPredicate) -> bool { match self { Target::Builtin(bi) => p.builtin_ok(**bi), Target::Triple(t) => p.triple_ok(*t), Target::Unknown(_) => false } }
    pub open spec fn is_triple(&self, t: Seq<u8>) -> bool { match self { Target::Builtin(bi) => bi.triple.b() == t, Target::Triple(x) => cfg_expr::target_lexicon::shown(*x) == t || cfg_expr::target_lexicon::parsed(t) == Some(*x), Target::Unknown(u) => u.b() == t } }
    pub open spec fn selects(&self, t: Seq<u8>) -> bool {
        match self {
            Target::Builtin(bi) => cfg_expr::targets::builtin(t) == Some(**bi) && bi.triple.b() == t,
            Target::Triple(x) => cfg_expr::targets::builtin(t) is None && cfg_expr::target_lexicon::parsed(t) == Some(*x),
            Target::Unknown(u) => cfg_expr::targets::builtin(t) is None && cfg_expr::target_lexicon::parsed(t) is None && u.b() == t,
        }
    }
}
"""}

SPEC += r"""
// ---- names: cargo writes `_` for `-` in resolved names
pub open spec fn alike(x: char, y: char) -> bool { x == y || (x == '_' && y == '-') }
pub open spec fn same_name(a: Seq<char>, h: Seq<char>) -> bool { a.len() == h.len() && forall|i: int| 0 <= i < a.len() ==> alike(#[trigger] a[i], h[i]) }
impl NodeDep {
    pub open spec fn pname(&self) -> Seq<char> { text(self.pkg.part(0)) }
    /// the resolved dependency is the one declared under this name
    pub open spec fn named(&self, n: Seq<char>) -> bool { same_name(self.name@, n) || same_name(self.pname(), n) }
}
pub open spec fn targets_same(t: Option<MdTarget>, o: Option<String>) -> bool { match (t, o) { (None, None) => true, (Some(a), Some(b)) => a.inner@ == b@, _ => false } }
impl MdTarget {
    /// built from the text of a declaration
    pub open spec fn reads(&self, t: Seq<char>) -> bool { self.inner@ == t && self.cfg == (if starts(encode_utf8(t), "cfg("@.b_()) { cfg_expr::expression(encode_utf8(t)) } else { None }) }
}
// ---- a declaration and the link it gave rise to
/// the declared path names the package's path source
pub open spec fn path_same(p: Seq<u8>, src: Seq<u8>) -> bool {
    starts(src, "path+file://"@.b_()) && ({ let r = src.subrange(12, src.len() as int); if rooted(p) { components(r) == components(p) } else { components(r.subrange(1, r.len() as int)) == split(p, 92) } })
}
pub open spec fn after(b: Seq<u8>, n: int) -> Seq<u8> { b.subrange(n, b.len() as int) }
/// without the revision an opaque git source ends with
pub open spec fn no_rev(b: Seq<u8>) -> Seq<u8> { if hasb(b, 35) { b.subrange(0, choose|i: int| last_at(b, 35, i)) } else { b } }
pub open spec fn source_same(d: cm::Dependency, src: Seq<u8>, opaque: bool) -> bool {
    match d.source {
        Some(s) => if starts(s.b(), "git+"@.b_()) && starts(src, "git+"@.b_()) { (if opaque { no_rev(after(s.b(), 4)) } else { after(s.b(), 4) }) == after(src, 4) } else { s.b() == src },
        None => match d.path { Some(p) => path_same(p.b(), src), None => false },
    }
}
pub open spec fn dname(d: cm::Dependency) -> Seq<char> { match d.rename { Some(r) => r@, None => d.name@ } }
/// same kind and target, and the name and the requirement fit what was resolved
pub open spec fn fits(r: NodeDep, l: DepKindInfo, d: cm::Dependency) -> bool {
    &&& l.kind == kind_of(d.kind)
    &&& r.pname() == dname(d) || r.named(dname(d))
    &&& (!r.version.pre.empty() && d.req.comparators@.len() == 0) || d.req.accepts(r.version)
    &&& targets_same(l.cfg, d.target)
}
/// the declaration renames the package to the resolved name
pub open spec fn renames(r: NodeDep, l: DepKindInfo, d: cm::Dependency) -> bool {
    l.kind == kind_of(d.kind) && r.pname() == d.name@ && (d.rename is Some && same_name(r.name@, d.rename->0@)) && targets_same(l.cfg, d.target)
}
pub open spec fn several(ds: Seq<cm::Dependency>, r: NodeDep, l: DepKindInfo) -> bool { exists|i: int, j: int| 0 <= i < j < ds.len() && fits(r, l, #[trigger] ds[i]) && fits(r, l, #[trigger] ds[j]) }
pub open spec fn renamed(ds: Seq<cm::Dependency>, r: NodeDep, l: DepKindInfo) -> bool { exists|i: int| 0 <= i < ds.len() && renames(r, l, #[trigger] ds[i]) }
/// declaration j is one that stands for the link: among several that fit, the one with the rename, or the one from the same source
pub open spec fn picks(ds: Seq<cm::Dependency>, r: NodeDep, l: DepKindInfo, opaque: bool, d: cm::Dependency) -> bool {
    fits(r, l, d) && (several(ds, r, l) ==> if renamed(ds, r, l) { renames(r, l, d) } else { source_same(d, r.pkg.part(2), opaque) })
}
pub open spec fn stands(ds: Seq<cm::Dependency>, r: NodeDep, l: DepKindInfo, opaque: bool, j: int) -> bool { 0 <= j < ds.len() && picks(ds, r, l, opaque, ds[j]) }
pub open spec fn first_stands(ds: Seq<cm::Dependency>, r: NodeDep, l: DepKindInfo, opaque: bool, j: int) -> bool { stands(ds, r, l, opaque, j) && forall|i: int| 0 <= i < j ==> !#[trigger] stands(ds, r, l, opaque, i) }
/// C06: the link survives the selected targets
pub open spec fn always(p: cfg_expr::Predicate<'_>) -> bool { true }
pub open spec fn always_h<'a>() -> spec_fn(cfg_expr::Predicate<'a>) -> bool { |p: cfg_expr::Predicate<'a>| always(p) }
pub open spec fn target_ok(l: DepKindInfo, all: bool, ts: Seq<TargetFilter>) -> bool {
    match l.cfg {
        None => true,
        Some(c) => match c.cfg {
            Some(x) => if all { !(x.npreds() == 0 && !x.sem(always_h())) } else { exists|i: int| 0 <= i < ts.len() && x.sem((#[trigger] ts[i]).h()) },
            None => all || exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).inner.is_triple(c.inner.b()),
        },
    }
}
pub open spec fn scoped(m: u32, a: u32, b: u32) -> bool { (m & b != 0) ==> (m & a != 0) }
/// a scope bit never comes without its kind bit
pub open spec fn wfm(m: u32) -> bool { scoped(m, 0x1, 0x2) && scoped(m, 0x1, 0x4) && scoped(m, 0x8, 0x10) && scoped(m, 0x8, 0x20) && scoped(m, 0x40, 0x80) && scoped(m, 0x40, 0x100) }
"""
LEM = r"""
proof fn one(x: char, y: char) requires alike(x, y) ensures encode_utf8(seq![x]).len() == encode_utf8(seq![y]).len(), encode_utf8(seq![x]).len() > 0
{ is_ascii_chars_encode_utf8(seq!['_']); is_ascii_chars_encode_utf8(seq!['-']); reveal_with_fuel(encode_utf8, 2); assert(encode_utf8(seq![x]).len() > 0); }
/// texts alike as far as both go have as many bytes as each other exactly if they have as many characters
proof fn name_same(a: Seq<char>, h: Seq<char>)
    ensures (encode_utf8(a).len() == encode_utf8(h).len() && forall|i: int| 0 <= i < zipped(a, h).len() ==> alike((#[trigger] zipped(a, h)[i]).0, zipped(a, h)[i].1)) == same_name(a, h),
{
    let z = zipped(a, h);
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == (a[i], h[i]) by { }
    if forall|i: int| 0 <= i < z.len() ==> alike((#[trigger] z[i]).0, z[i].1) {
        assert forall|i: int| 0 <= i < a.len() && i < h.len() implies alike(#[trigger] a[i], h[i]) by { assert(z[i] == (a[i], h[i])); }
        zip_same(a, h);
    } else {
        let i = choose|i: int| 0 <= i < z.len() && !alike((#[trigger] z[i]).0, z[i].1);
        assert(!alike(a[i], h[i]));
    }
}
proof fn zip_same(a: Seq<char>, h: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() && i < h.len() ==> alike(#[trigger] a[i], h[i]),
    ensures encode_utf8(a).len() == encode_utf8(h).len() <==> a.len() == h.len(),
    decreases a.len(),
{
    if a.len() > 0 && h.len() > 0 {
        let (a1, h1) = (a.skip(1), h.skip(1));
        assert(a =~= seq![a[0]] + a1);
        assert(h =~= seq![h[0]] + h1);
        assert(alike(a[0], h[0]));
        one(a[0], h[0]);
        encode_utf8_concat(seq![a[0]], a1);
        encode_utf8_concat(seq![h[0]], h1);
        assert forall|i: int| 0 <= i < a1.len() && i < h1.len() implies alike(#[trigger] a1[i], h1[i]) by { assert(alike(a[i + 1], h[i + 1])); }
        zip_same(a1, h1);
    } else if a.len() > 0 {
        assert(a =~= seq![a[0]] + a.skip(1)); encode_utf8_concat(seq![a[0]], a.skip(1)); one(a[0], a[0]); assert(h =~= Seq::empty());
    } else if h.len() > 0 {
        assert(h =~= seq![h[0]] + h.skip(1)); encode_utf8_concat(seq![h[0]], h.skip(1)); one(h[0], h[0]); assert(a =~= Seq::empty());
    } else { assert(a =~= h); }
}

/// without any setting nothing is ignored
proof fn c05_none(k: DepKind, ws: bool) ensures wfm(0), !ignored(0, k, ws)
{
    assert(0u32 & 0x2u32 == 0 && 0u32 & 0x4u32 == 0 && 0u32 & 0x10u32 == 0 && 0u32 & 0x20u32 == 0 && 0u32 & 0x80u32 == 0 && 0u32 & 0x100u32 == 0) by (bit_vector);
    assert((0x1u32 | (0x1u32 << 1u32)) & 0u32 != (0x1u32 | (0x1u32 << 1u32))) by (bit_vector);
    assert((0x8u32 | (0x8u32 << 1u32)) & 0u32 != (0x8u32 | (0x8u32 << 1u32))) by (bit_vector);
    assert((0x40u32 | (0x40u32 << 1u32)) & 0u32 != (0x40u32 | (0x40u32 << 1u32))) by (bit_vector);
    assert((0x1u32 | (0x1u32 << 2u32)) & 0u32 != (0x1u32 | (0x1u32 << 2u32))) by (bit_vector);
    assert((0x8u32 | (0x8u32 << 2u32)) & 0u32 != (0x8u32 | (0x8u32 << 2u32))) by (bit_vector);
    assert((0x40u32 | (0x40u32 << 2u32)) & 0u32 != (0x40u32 | (0x40u32 << 2u32))) by (bit_vector);
}
"""

KB={'Normal':1,'Dev':8,'Build':0x40}
def ignore_bits():
    o=["""proof fn ignore_bits(m0: u32, k: DepKind, s: Scope, m1: u32)
    requires wfm(m0), m1 == (m0 | kbit(k)) | (match s { Scope::Workspace => kbit(k) << 1, Scope::NonWorkspace => kbit(k) << 2, Scope::All => (kbit(k) << 1) | (kbit(k) << 2) }),
    ensures wfm(m1), forall|k2: DepKind, ws: bool| #[trigger] ignored(m1, k2, ws) == (ignored(m0, k2, ws) || (k2 == k && in_scope(s, ws)))
{"""]
    for k,b in KB.items():
        for sh in (1,2):
            o.append(f"    assert({b:#x}u32 << {sh}u32 == {b<<sh:#x}u32) by (bit_vector);")
            o.append(f"    assert({b:#x}u32 | {b<<sh:#x}u32 == {b|b<<sh:#x}u32) by (bit_vector);")
    for k,b in KB.items():
        for s,sb in (('Workspace',b<<1),('NonWorkspace',b<<2),('All',b<<1|b<<2)):
            c=b|sb
            o.append(f"    if k == DepKind::{k} && s is {s} {{")
            if s=='All': o.append(f"        assert({b<<1:#x}u32 | {b<<2:#x}u32 == {sb:#x}u32) by (bit_vector);")
            o.append(f"        assert(m1 == m0 | {c:#x}u32) by (bit_vector) requires m1 == (m0 | {b:#x}u32) | {sb:#x}u32;")
            for k2,b2 in KB.items():
                for sh in (1,2):
                    s2=b2<<sh; n=b2|s2
                    # wfm
                    o.append(f"        assert((m1 & {s2:#x}u32 != 0) ==> (m1 & {b2:#x}u32 != 0)) by (bit_vector) requires m1 == m0 | {c:#x}u32, (m0 & {s2:#x}u32 != 0) ==> (m0 & {b2:#x}u32 != 0);")
                    hit = k2==k and (c & s2)
                    rhs = "true" if hit else f"({n:#x}u32 & m0 == {n:#x}u32)"
                    o.append(f"        assert(({n:#x}u32 & m1 == {n:#x}u32) == {rhs}) by (bit_vector) requires m1 == m0 | {c:#x}u32, (m0 & {s2:#x}u32 != 0) ==> (m0 & {b2:#x}u32 != 0);")
            o.append("    }")
    o.append("}")
    return "\n".join(o)


M = STR + STRLEN + [("chars", "0", "vx_chars"), ("zip", "*", "vx_zip"), ("all", "*", "vx_all"), ("iter", "0", "vx_iter"), ("any", "*", "vx_any"), ("then", "*", "vx_then"), ("flatten", "0", "fn:vx_flatten"), ("ok", "0", "fn:vx_ok"), ("is_ok_and", "*", "fn:vx_is_ok_and"), ("eq", "*", "vx_eq_"), ("parse", "0", "vx_parse")]

FM = [("filter", "*", "vx_filter"), ("count", "0", "vx_count"), ("find", "closure", "vx_find"), ("enumerate", "0", "vx_enumerate"), ("as_deref", "0", "vx_as_deref"), ("strip_prefix", "str", "vx_strip_prefix"), ("map_or", "*", "fn:vx_map_or"), ("is_some_and", "*", "fn:vx_is_some_and"), ("zip", "*", "fn:vx_opt_zip")] + STR + [x for x in M if x[0] in ("iter", "any")]
EDGE = """fn keep_edge<'d>(vxq0: &'d DepKindInfo, is_in_workspace: bool, ignore_kinds: u32, krate: &'d cm::Package, rdep: &'d NodeDep, maybe_real_name: &str, has_prelease: bool, rdep_version: &Version, is_opaque: bool, strong: bool, include_all_targets: bool, targets: &Vec<TargetFilter>, rdep_node: &Node) -> (r: Option<Edge<'d>>)
    requires
        rdep.pkg.wf(), maybe_real_name@ == rdep.pname(), has_prelease == !rdep.version.pre.empty(), *rdep_version == rdep.version,
        starts(rdep.pkg.part(2), "path+file://"@.b_()) ==> rdep.pkg.part(2).len() > 12 && bdy(rdep.pkg.part(2), 13),
        // cargo resolves only declared dependencies
        exists|j: int| #[trigger] stands(krate.dependencies@, *rdep, *vxq0, is_opaque, j),
    ensures
        forall|j: int| #[trigger] first_stands(krate.dependencies@, *rdep, *vxq0, is_opaque, j) ==> {
            let d = krate.dependencies@[j];
            &&& r is None <==> ignored(ignore_kinds, vxq0.kind, is_in_workspace) || (d.optional && !strong) || !target_ok(*vxq0, include_all_targets, targets@)
            &&& r is Some ==> r->0.kind == vxq0.kind && r->0.dep_index == j && *r->0.features == d.features && r->0.uses_default_features == (d.uses_default_features && rdep_node.has_default_feature)
            &&& r is Some ==> match vxq0.cfg { None => r->0.cfg is None, Some(c) => r->0.cfg is Some && r->0.cfg->0@ == c.inner@ }
        },
"""
EC = {
    0: "|vxp0: &&cm::Dependency| -> (r: bool) ensures r == fits(*rdep, *dk, **vxp0)",
    1: "|vxp0: &cm::Dependency| -> (r: bool) ensures r == renames(*rdep, *dk, *vxp0)",
    2: "|vxp0: &str| -> (r: bool) ensures r == same_name(rdep.name@, vxp0@)",
    3: "|vxp0: &(usize, &cm::Dependency)| -> (r: bool) ensures r == picks(krate.dependencies@, *rdep, *dk, is_opaque, *vxp0.1)",
    4: "|vxp0: usize| -> (r: &str) requires vxp0 <= dgit.b().len(), bdy(dgit.b(), vxp0 as int), ensures r.b() == dgit.b().subrange(0, vxp0 as int)",
    5: "|vxp0: &TargetFilter| -> (r: bool) ensures r == expr.sem(vxp0.h())",
    6: "|vxp0: &cfg_expr::Predicate<'_>| -> (r: bool) ensures r == target.evals(*vxp0)",
    7: "|vxp0: &TargetFilter| -> (r: bool) ensures r == vxp0.inner.is_triple(cfg.inner.b())",
    8: "|vxp0: &cfg_expr::Predicate<'_>| -> (r: bool) ensures r == always(*vxp0)",
}


def fns(tc):
    return kid.ACC + [
        Fn("pkg_name_equals", B, IN + "pkg_name_equals", "fn pkg_name_equals($p0: &str, $p1: &str) -> (r: bool) ensures r == same_name($p0@, $p1@)", methods=M,
           closures={0: "|vxp0: (char, char)| -> (r: bool) ensures r == alike(vxp0.0, vxp0.1)"},
           final="proof { name_same($p0@, $p1@); }"),
        Fn("dep_names_match", B, IN + "dep_names_match", "fn dep_names_match($p0: &str, $p1: &NodeDep) -> (r: bool) requires $p1.pkg.wf(), ensures r == $p1.named($p0@)", methods=M,
           loops={0: forinv(0, None, "vx_s0.len() == 2, vx_s0[0]@ == $p1.name@, vx_s0[1]@ == $p1.pname(), vx_it0.i() > 0 ==> !same_name($p1.name@, $p0@), vx_it0.i() > 1 ==> !same_name($p1.pname(), $p0@)")},
           at={"l0_before": "proof { text_of(vx_s0[1]@); assert(vx_s0[1].b() == $p1.pkg.part(0)); }"}),
        Fn("targets_eq", L, "targets_eq", "fn targets_eq($p0: &Option<MdTarget>, $p1: &Option<String>) -> (r: bool) ensures r == targets_same(*$p0, *$p1)", methods=M),
        Fn("MdTarget::from", L, "From<String> for MdTarget::from", "fn from($p0: String) -> (r: Self) ensures r.reads($p0@)", impl="impl MdTarget", methods=M,
           closures={0: "|| -> (r: Option<cfg_expr::Expression>) ensures r == cfg_expr::expression($p0.b())"}),
        Fn("TargetFilter::eval", B, "TargetFilter::eval", "fn eval(&self, $p0: &cfg_expr::Predicate<'_>) -> (r: bool) ensures r == self.evals(*$p0)", impl="impl TargetFilter", methods=M, targets_cfg=tc, eqs=True,
           closures={0: "|vxp0: &String| -> (r: bool) ensures r == (vxp0@ == (*feat)@)"}, bind=["iter", "any"], at={"b0": "let ghost z = vx_b0.vseq(); proof { assert(z == refs(self.features@)); }", "b1": """proof { let q = vx_b1; let z = refs(self.features@);
            if q { let i = choose|i: int| 0 <= i < z.len() && (*#[trigger] z[i])@ == feat@; assert(self.features@[i]@ == feat@); }
            else { assert forall|i: int| 0 <= i < self.features@.len() implies (#[trigger] self.features@[i])@ != feat@ by { assert(z[i]@ != feat@); } } }"""}),
        Fn("TargetFilter::matches_triple", B, "TargetFilter::matches_triple", "fn matches_triple(&self, $p0: &str) -> (r: bool) ensures r == self.inner.is_triple($p0.b())", impl="impl TargetFilter", methods=M, targets_cfg=tc, eqs=True,
           closures={0: "|vxp0: cfg_expr::target_lexicon::Triple| -> (r: bool) ensures r == (vxp0 == *trip)"} if tc else {}, at={"start": "proof { enc_inj(); }"}, formats=[("{}", "vx_show_triple")]),
        Fn("Target::from", B, "From<T> for Target::from", "fn from($p0: &str) -> (r: Self) ensures r.selects($p0.b())", impl="impl Target", methods=M + [("as_ref", "0", "vx_self")], targets_cfg=tc),
        Fn("compare_paths", B, "compare_paths", "fn compare_paths($p0: &PathX, $p1: &str) -> (r: bool) requires starts($p1.b(), \"path+file://\"@.b_()) ==> $p1.b().len() > 12 && bdy($p1.b(), 13), ensures r == path_same($p0.b(), $p1.b())",
           methods=[("strip_prefix", "str", "vx_strip_prefix"), ("starts_with", "str", "vx_under"), ("components", "0", "vx_components"), ("split", "char", "vx_split_char")], calls=[("camino::Utf8Path::new", "vx_path_new")], eqs=True,
           attrs="#[verifier::loop_isolation(true)]",
           loops={0: """invariant_except_break rcomp.i() == dcomp.i(), forall|j: int| 0 <= j < rcomp.i() ==> rs[j] == ds[j],
            invariant rcomp.wf(), dcomp.wf(), rs == cbytes(rcomp.s()), ds == sbytes(dcomp.s()), path_same($p0.b(), $p1.b()) <==> rs == ds,
            ensures rs != ds,
            decreases rs.len() - rcomp.i()"""}, at={"start": "proof { lits(); }", "let_rcomp": "proof { lits(); }", "let_dcomp": "let ghost rs = cbytes(rcomp.s()); let ghost ds = sbytes(dcomp.s()); proof { let r = $p1.b().subrange(12, $p1.b().len() as int); assert(r.subrange(1, r.len() as int) =~= $p1.b().subrange(13, $p1.b().len() as int)); }", "l0_start": "let ghost k = rcomp.i(); proof { enc_inj(); if k < rs.len() && k < ds.len() { assert(rs[k] == rcomp.s()[k].b() && ds[k] == dcomp.s()[k].b()); } if k == rs.len() && k == ds.len() { assert(rs =~= ds); } }"}),
        Fn("keep_edge", B, "Builder::build_with_metadata", EDGE, select="let:edges;closure:#0", methods=FM, eqs=True, calls=[("crate::targets_eq", "targets_eq")], closures=EC, bind=["iter", "filter", "any", "enumerate", "find"], at={
            "start": "let ghost ds = krate.dependencies@; proof { lits(); enc_inj(); }",
            "b0": "proof { assert(vx_b0.vseq() == refs(ds)); }",
            "b1": """proof { let z0 = refs(ds);
                let o = choose|o: Seq<bool>| o.len() == z0.len() && vx_b1.s() == #[trigger] kept(z0, o) && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == fits(*rdep, *vxq0, *z0[i]);
                kept_len(z0, o);
                if several(ds, *rdep, *vxq0) { let (i, j) = choose|i: int, j: int| 0 <= i < j < ds.len() && fits(*rdep, *vxq0, #[trigger] ds[i]) && fits(*rdep, *vxq0, #[trigger] ds[j]); assert(*z0[i] == ds[i] && *z0[j] == ds[j]); assert(o[i] && o[j]); }
                if vx_b1.s().len() > 1 { let (i, j) = choose|i: int, j: int| 0 <= i < j < o.len() && #[trigger] o[i] && #[trigger] o[j]; assert(*z0[i] == ds[i] && *z0[j] == ds[j]); }
                assert(several(ds, *rdep, *vxq0) <==> vx_b1.s().len() > 1);
            }""",
            "b2": "proof { assert(vx_b2.vseq() == refs(ds)); }",
            "b3": """proof { let q = vx_b3; let z2 = refs(ds);
                if q { let i = choose|i: int| 0 <= i < z2.len() && renames(*rdep, *vxq0, *#[trigger] z2[i]); assert(renames(*rdep, *vxq0, ds[i])); }
                else { assert forall|i: int| 0 <= i < ds.len() implies !renames(*rdep, *vxq0, #[trigger] ds[i]) by { assert(*z2[i] == ds[i]); } } }""",
            "b4": "proof { assert(vx_b4.vseq() == refs(ds)); }",
            "b5": "proof { assert(vx_b5.vseq() == enumd(refs(ds))); }",
            "b6": """proof { let s = enumd(refs(ds)); assert(krate.dependencies.len() == ds.len());
                assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == i && *s[i].1 == ds[i] by { }
                match vx_b6 {
                    None => { let j = choose|j: int| #[trigger] stands(ds, *rdep, *vxq0, is_opaque, j); assert(s[j].0 == j && *s[j].1 == ds[j]); assert(!picks(ds, *rdep, *vxq0, is_opaque, *s[j].1)); }
                    Some(p) => { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == p && picks(ds, *rdep, *vxq0, is_opaque, *p.1) && forall|j: int| 0 <= j < i ==> !picks(ds, *rdep, *vxq0, is_opaque, *(#[trigger] s[j]).1);
                        assert forall|j: int| 0 <= j < i implies !#[trigger] stands(ds, *rdep, *vxq0, is_opaque, j) by { assert(s[j].0 == j); }
                        assert(first_stands(ds, *rdep, *vxq0, is_opaque, p.0 as int)); }
                } }""",
            "let_cfg": "proof { assert(first_stands(ds, *rdep, *vxq0, is_opaque, dep_index as int)); }",
            "b7": "proof { assert(vx_b7.vseq() == refs(targets@)); }",
            "b8": """proof { let ts = refs(targets@); let q = vx_b8;
                if q { let i = choose|i: int| 0 <= i < ts.len() && expr.sem((*#[trigger] ts[i]).h()); assert(expr.sem(targets@[i].h())); }
                else { assert forall|i: int| 0 <= i < targets@.len() implies !expr.sem((#[trigger] targets@[i]).h()) by { assert(*ts[i] == targets@[i]); } } }""",
            "b9": "proof { assert(vx_b9.vseq() == refs(targets@)); }",
            "b10": """proof { let ts = refs(targets@); let q = vx_b10;
                if q { let i = choose|i: int| 0 <= i < ts.len() && (*#[trigger] ts[i]).inner.is_triple(cfg.inner.b()); assert(targets@[i].inner.is_triple(cfg.inner.b())); }
                else { assert forall|i: int| 0 <= i < targets@.len() implies !(#[trigger] targets@[i]).inner.is_triple(cfg.inner.b()) by { assert(*ts[i] == targets@[i]); } } }""",
            }),
        Fn("DepKind::from", L, "From<DK> for DepKind::from", "fn from($p0: DependencyKind) -> (r: Self) ensures r == kind_of($p0)", impl="impl DepKind"),
        Fn("DepKind::eq", L, "PartialEq<DK> for DepKind::eq", "fn eq_dk(&self, $p0: &DependencyKind) -> (r: bool) ensures r == (*self == kind_of(*$p0))", impl="impl DepKind"),
        Fn("Builder::ignore_kind", B, "Builder::ignore_kind", """fn ignore_kind(&mut self, $p0: DepKind, $p1: Scope) -> (r: &mut Self)
            requires wfm(old(self).ignore_kinds),
            ensures *final(r) == *final(self), wfm(r.ignore_kinds), forall|k: DepKind, ws: bool| #[trigger] ignored(r.ignore_kinds, k, ws) == (ignored(old(self).ignore_kinds, k, ws) || (k == $p0 && in_scope($p1, ws)))""", impl="impl Builder", at={"tail": "proof { ignore_bits(old(self).ignore_kinds, $p0, $p1, self.ignore_kinds); }"}),
    ]


def unit(n, tc):
    return Unit(n, ["C06"] if tc else ["C04", "C05", "C06", "C10"], prelude=["str", "iter", "order", "streq", "chars", "opt", "coll", "semver", "cfgexpr", "meta"], types=types(tc), mods=_meta.MODS, spec=SPEC + TSPEC[tc], lemmas=lit("git+", "path+file://", "/", "cfg(") + LEM + ignore_bits(), fns=fns(tc))


UNITS = [unit("filter", False), unit("filter_targets", True)]
