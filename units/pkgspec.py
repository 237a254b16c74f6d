from _common import *
import _meta
P = "src/pkgspec.rs"
SPEC = r"""
pub enum Error { InvalidPkgSpec(&'static str) }

// ---- C14: the grammar, from the property text
pub open spec fn name_char(c: char) -> bool { c == '-' || c == '_' || alnum(c) }
pub open spec fn valid_name(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < text(b).len() ==> name_char(#[trigger] text(b)[i]) }
pub open spec fn scheme() -> Seq<u8> { "://"@.b_() }
/// a url with a scheme and a path, not ending in `/`; its last path component
pub open spec fn is_slash(u: Seq<u8>, i: int) -> bool { last_at(u, 47, i) && i + 1 < u.len() && !occ(u, scheme(), i - 2) && exists|j: int| #[trigger] occ(u, scheme(), j) }
pub open spec fn last_slash(u: Seq<u8>) -> int { choose|i: int| is_slash(u, i) }
pub open spec fn url_ok(u: Seq<u8>) -> bool { exists|i: int| is_slash(u, i) }
pub open spec fn url_name(u: Seq<u8>) -> Seq<u8> { u.subrange(last_slash(u) + 1, u.len() as int) }
pub open spec fn colon(b: Seq<u8>) -> int { choose|i: int| first_of(b, 58, 64, i) }
pub type NV = Option<(Seq<u8>, Option<Version>)>;
/// `name:version` or `name@version`
pub open spec fn pair(b: Seq<u8>) -> NV {
    let i = colon(b);
    if i + 1 < b.len() && valid_name(b.subrange(0, i)) && vparse(b.subrange(i + 1, b.len() as int)) is Some { Some((b.subrange(0, i), vparse(b.subrange(i + 1, b.len() as int)))) } else { None }
}
pub open spec fn has_colon(b: Seq<u8>) -> bool { hasb(b, 58) || hasb(b, 64) }
pub open spec fn just(n: Seq<u8>, v: Option<Version>) -> NV { if valid_name(n) { Some((n, v)) } else { None } }
/// a spec without url
pub open spec fn plain(b: Seq<u8>) -> NV { if has_colon(b) { pair(b) } else { just(b, None) } }
/// what follows the `#`: a name starts with a letter, anything else is a version
pub open spec fn frag(b: Seq<u8>, u: Seq<u8>) -> NV {
    if has_colon(b) { pair(b) } else if alphabetic(text(b)[0]) { just(b, None) } else if vparse(b) is Some { just(url_name(u), vparse(b)) } else { None }
}
pub open spec fn of_url(u: Seq<u8>) -> NV { just(url_name(u), None) }
pub open spec fn nv_of(nv: Option<Seq<u8>>, u: Option<Seq<u8>>) -> NV {
    match (nv, u) {
        (Some(b), None) => plain(b),
        (Some(b), Some(u)) => if url_ok(u) { frag(b, u) } else { None },
        (None, Some(u)) => if url_ok(u) { of_url(u) } else { None },
        (None, None) => None,
    }
}
pub open spec fn ob(s: Option<&str>) -> Option<Seq<u8>> { match s { Some(s) => Some(s.b()), None => None } }
pub open spec fn said(r: Result<(String, Option<Version>), Error>, nv: NV) -> bool { (r is Ok <==> nv is Some) && (r is Ok ==> r->Ok_0.0.b() == (nv->0).0 && r->Ok_0.1 == (nv->0).1) }
pub open spec fn whole(s: Seq<u8>) -> Seq<u8> { if exists|j: int| #[trigger] occ(s, scheme(), j) { s } else { "cargo://"@.b_() + s } }
pub open spec fn hash_at(u: Seq<u8>) -> int { choose|i: int| first_at(u, 35, i) }
/// the spec a text stands for: name, version, url
pub open spec fn spec_of(s: Seq<u8>) -> Option<(Seq<u8>, Option<Version>, Option<Seq<u8>>)> {
    if hasb(s, 47) {
        let u = whole(s);
        if hasb(u, 35) {
            let i = hash_at(u);
            let v = u.subrange(0, i);
            if i + 1 == u.len() { None } else { match nv_of(Some(u.subrange(i + 1, u.len() as int)), Some(v)) { Some((n, x)) => Some((n, x, Some(v))), None => None } }
        } else { match nv_of(None, Some(u)) { Some((n, x)) => Some((n, x, Some(u))), None => None } }
    } else { match nv_of(Some(s), None) { Some((n, x)) => Some((n, x, None)), None => None } }
}
#[verifier::external_body] fn vx_cargo_url(s: &str) -> (r: String) ensures r.b() == "cargo://"@.b_() + s.b() { unimplemented!() }

// ---- C07
/// a source as cargo writes it: a kind prefix up to the first `+`, before any query or fragment, and no `?` in the fragment
pub open spec fn cargo_source(b: Seq<u8>) -> bool {
    &&& exists|i: int| first_at(b, 43, i) && forall|j: int| 0 <= j < i ==> b[j] != 63 && b[j] != 35
    &&& forall|i: int, j: int| 0 <= i < j < b.len() && b[i] == 35 ==> b[j] != 63
}
pub open spec fn is_core(b: Seq<u8>, u: Seq<u8>, p: int, e: int) -> bool {
    &&& first_at(b, 43, p) && p < e <= b.len() && u == b.subrange(p + 1, e)
    &&& forall|j: int| p < j < e ==> b[j] != 63 && b[j] != 35
    &&& e == b.len() || b[e] == 63 || b[e] == 35
}
/// u is the source without its kind prefix, query and fragment
pub open spec fn core_of(b: Seq<u8>, u: Seq<u8>) -> bool { exists|p: int, e: int| is_core(b, u, p, e) }
pub open spec fn excluded(s: PkgSpec, k: Package) -> bool {
    &&& s.name@ == k.name@
    &&& s.version is Some ==> s.version->0 == k.version
    &&& s.url is Some && k.source is Some ==> core_of(k.source->0.repr.b(), s.url->0.b())
}
"""
LEM = r"""
/// there is one such url
proof fn core_unique(b: Seq<u8>, u: Seq<u8>, v: Seq<u8>, p: int, e: int) requires is_core(b, u, p, e), core_of(b, v), ensures u == v
{
    let (p2, e2) = choose|p: int, e: int| is_core(b, v, p, e);
    assert(p == p2);
    if e < e2 { assert(p < e && e < e2 && e < b.len() && (b[e] == 63 || b[e] == 35)); }
    if e2 < e { assert(p < e2 && e2 < e && e2 < b.len() && (b[e2] == 63 || b[e2] == 35)); }
}
proof fn last_unique() ensures
    forall|b: Seq<u8>, c: u8, i: int, j: int| #![trigger last_at(b, c, i), last_at(b, c, j)] last_at(b, c, i) && last_at(b, c, j) ==> i == j,
    forall|b: Seq<u8>, c: u8, i: int, j: int| #![trigger first_at(b, c, i), first_at(b, c, j)] first_at(b, c, i) && first_at(b, c, j) ==> i == j,
    forall|b: Seq<u8>, c: u8, d: u8, i: int, j: int| #![trigger first_of(b, c, d, i), first_of(b, c, d, j)] first_of(b, c, d, i) && first_of(b, c, d, j) ==> i == j,
{}
proof fn colons() ensures forall|b: Seq<u8>, i: int| #[trigger] first_of(b, 58, 64, i) ==> has_colon(b) && colon(b) == i { last_unique(); }
proof fn hashes() ensures forall|b: Seq<u8>, i: int| #[trigger] first_at(b, 35, i) ==> hasb(b, 35) && hash_at(b) == i { last_unique(); }
/// the last slash is part of a scheme only if it ends the last scheme
proof fn slash(u: Seq<u8>, i: int, p: int)
    requires occ(u, scheme(), i), forall|j: int| i < j ==> !occ(u, scheme(), j), last_at(u, 47, p),
    ensures occ(u, scheme(), p - 2) <==> p == i + 2, p != i + 2 && p + 1 < u.len() ==> is_slash(u, p) && last_slash(u) == p, p == i + 2 ==> !url_ok(u),
{
    lits(); last_unique();
    assert(u.subrange(i, i + 3)[2] == 47u8); assert(u[i + 2] == 47u8);
    if occ(u, scheme(), p - 2) { assert(p - 2 <= i); }
    if p != i + 2 && p + 1 < u.len() { assert(is_slash(u, p)); assert(is_slash(u, last_slash(u))); }
    if url_ok(u) { let q = choose|i: int| is_slash(u, i); assert(is_slash(u, q)); assert(last_at(u, 47, q)); }
}
"""
M = STR + STRLEN + [("map_or", "*", "fn:vx_map_or"), ("or_else", "*", "fn:vx_or_else"), ("zip", "*", "fn:vx_opt_zip"), ("chars", "0", "vx_chars"), ("is_alphabetic", "0", "vx_alphabetic"), ("is_ascii_alphanumeric", "0", "vx_alnum"), ("find", "closure", "vx_find_by"), ("find", "arr", "vx_find_arr"), ("to_owned", "0", "vx_own"), ("map_err", "*", "fn:vx_map_err")]
UNITS = [
    Unit("exclude", ["C07"], prelude=["str", "iter", "order", "streq", "chars", "opt", "semver", "cfgexpr", "meta"], types=_meta.TYPES + [Ty(P, "PkgSpec")], mods=_meta.MODS, spec=SPEC[SPEC.index("// ---- C07"):], lemmas=LEM.split("proof fn last_unique")[0], fns=[
        Fn("PkgSpec::matches", P, "PkgSpec::matches", "fn matches(&self, $p0: &Package) -> (r: bool) requires $p0.source is Some ==> cargo_source($p0.source->0.repr.b()), ensures r == excluded(*self, *$p0)", impl="impl PkgSpec", methods=M, eqs=True,
           closures={0: "|vxp0: &cm::Source| -> (r: &str) ensures r.b() == vxp0.repr.b()", 1: "|vxp0: usize| -> (r: usize) requires vxp0 < usize::MAX, ensures r == vxp0 + 1", 2: "|| -> (r: Option<usize>) ensures r is Some ==> first_at(src.b(), 35, r->0 as int) && bdy(src.b(), r->0 as int), r is None ==> !hasb(src.b(), 35)"},
           at={"start": "proof { enc_inj(); }", "before_let_begin": "proof { axiom_len(src); }", "tail": "proof { let b = src.b(); let v = b.subrange(begin as int, end as int); assert(is_core(b, v, begin - 1, end as int)); if core_of(b, url.b()) { core_unique(b, v, url.b(), begin - 1, end as int); } }"}),
    ]),
    Unit("pkgspec", ["C14"], prelude=["str", "iter", "order", "streq", "chars", "opt", "semver", "cfgexpr", "meta", "pkg"], types=_meta.TYPES + [Ty(P, "PkgSpec")], mods=_meta.MODS, spec=SPEC[:SPEC.index("// ---- C07")], lemmas=lit("://", "cargo://") + "proof fn last_unique" + LEM.split("proof fn last_unique")[1], fns=[
        Fn("PkgSpec::from_str", P, "FromStr for PkgSpec::from_str", "fn from_str($p0: &str) -> (r: Result<Self, Error>) ensures r is Ok <==> spec_of($p0.b()) is Some, r is Ok ==> r->Ok_0.name.b() == (spec_of($p0.b())->0).0 && r->Ok_0.version == (spec_of($p0.b())->0).1 && (r->Ok_0.url is Some <==> (spec_of($p0.b())->0).2 is Some) && (r->Ok_0.url is Some ==> r->Ok_0.url->0.b() == (spec_of($p0.b())->0).2->0)", impl="impl PkgSpec", methods=M,
           calls=[("Version::parse", "vx_parse_version"), ("std::borrow::Cow::Borrowed", "Cow::Borrowed"), ("std::borrow::Cow::Owned", "Cow::Owned")], formats=[("cargo://{}", "vx_cargo_url")],
           closures={0: "|vxp0: Option<&str>, vxp1: Option<&str>| -> (r: Result<(String, Option<Version>), Error>) requires vxp0 is Some || vxp1 is Some, vxp0 is Some && vxp1 is Some ==> vxp0->0.b().len() > 0, ensures said(r, nv_of(ob(vxp0), ob(vxp1)))",
                     1: "|vxp0: &str| -> (r: Result<String, Error>) ensures r is Ok <==> valid_name(vxp0.b()), r is Ok ==> r->Ok_0.b() == vxp0.b()",
                     2: "|vxp0: char| -> (r: bool) ensures r == !name_char(vxp0)",
                     3: "|vxp0: VErr| -> (r: Error) ensures true", 4: "|vxp0: VErr| -> (r: Error) ensures true"},
           at={"start": "proof { lits(); all_text(); colons(); hashes(); }", "let_path": "proof { slash(url.b(), ind as int, pind as int); }"}),
    ]),
]
