"""C21, C22: cargo metadata as it is read and written (the text under contract is the crate after rustc's macro expansion)"""
import re
from _common import *
import _meta
DE, SER, CM = "expanded#cm/de", "expanded#cm/ser", "expanded#cm"
# the documents cargo writes: struct -> (field, key, type, how it is read)
#   req        required
#   some       optional, None when absent
#   otherwise  the default when absent, as a fact about `v`
N, E_ = "v is None", "v@.len() == 0"
ED, TRUE = "v == Edition::E2015", "v == true"
FIELDS = {
    "Metadata": [("packages", "packages", "Vec<Package>", "req"), ("workspace_members", "workspace_members", "Vec<PackageId>", "req"),
                 ("workspace_default_members", "workspace_default_members", "Vec<PackageId>", "some"), ("resolve", "resolve", "Option<Resolve>", N),
                 ("workspace_root", "workspace_root", "PathX", "req"), ("target_directory", "target_directory", "PathX", "req"),
                 ("workspace_metadata", "metadata", "serde_json::Value", "v.doc() is Null"), ("version", "version", "usize", "v == 0")],
    "Resolve": [("nodes", "nodes", "Vec<Node>", "req"), ("root", "root", "Option<PackageId>", "req")],
    "Node": [("id", "id", "PackageId", "req"), ("deps", "deps", "Vec<NodeDep>", E_), ("dependencies", "dependencies", "Vec<PackageId>", "req"), ("features", "features", "Vec<String>", E_)],
    "NodeDep": [("name", "name", "String", "req"), ("pkg", "pkg", "PackageId", "req"), ("dep_kinds", "dep_kinds", "Vec<DepKindInfo>", E_)],
    "DepKindInfo": [("kind", "kind", "DependencyKind", "v == DependencyKind::Normal"), ("target", "target", "Option<String>", N)],
    "Dependency": [("name", "name", "String", "req"), ("source", "source", "Option<String>", N), ("req", "req", "VersionReq", "req"), ("kind", "kind", "DependencyKind", "v == DependencyKind::Normal"),
                   ("optional", "optional", "bool", "req"), ("uses_default_features", "uses_default_features", "bool", "req"), ("features", "features", "Vec<String>", "req"),
                   ("target", "target", "Option<String>", N), ("rename", "rename", "Option<String>", N), ("registry", "registry", "Option<String>", N), ("path", "path", "Option<PathX>", N)],
    "Package": [("name", "name", "String", "req"), ("version", "version", "Version", "req"), ("authors", "authors", "Vec<String>", E_), ("id", "id", "PackageId", "req"),
                ("source", "source", "Option<Source>", N), ("description", "description", "Option<String>", N), ("dependencies", "dependencies", "Vec<Dependency>", "req"),
                ("license", "license", "Option<String>", N), ("license_file", "license_file", "Option<PathX>", N), ("targets", "targets", "Vec<Target>", "req"),
                ("features", "features", "BTreeMap<String, Vec<String>>", "req"), ("manifest_path", "manifest_path", "PathX", "req"), ("categories", "categories", "Vec<String>", E_),
                ("keywords", "keywords", "Vec<String>", E_), ("readme", "readme", "Option<PathX>", N), ("repository", "repository", "Option<String>", N), ("homepage", "homepage", "Option<String>", N),
                ("documentation", "documentation", "Option<String>", N), ("edition", "edition", "Edition", ED), ("metadata", "metadata", "serde_json::Value", "v.doc() is Null"),
                ("links", "links", "Option<String>", N), ("publish", "publish", "Option<Vec<String>>", N), ("default_run", "default_run", "Option<String>", N), ("rust_version", "rust_version", "RV", N)],
    "Target": [("name", "name", "String", "req"), ("kind", "kind", "Vec<TargetKind>", "req"), ("crate_types", "crate_types", "Vec<CrateType>", E_), ("required_features", "required-features", "Vec<String>", E_),
               ("src_path", "src_path", "PathX", "req"), ("edition", "edition", "Edition", ED), ("doctest", "doctest", "bool", TRUE), ("test", "test", "bool", TRUE), ("doc", "doc", "bool", TRUE)],
}
# the names of the enums' values
ENUMS = {
    "TargetKind": [("Example", "example"), ("Test", "test"), ("Bench", "bench"), ("CustomBuild", "custom-build"), ("Bin", "bin"), ("Lib", "lib"), ("RLib", "rlib"), ("DyLib", "dylib"),
                   ("CDyLib", "cdylib"), ("StaticLib", "staticlib"), ("ProcMacro", "proc-macro")],
    "CrateType": [("Bin", "bin"), ("Lib", "lib"), ("RLib", "rlib"), ("DyLib", "dylib"), ("CDyLib", "cdylib"), ("StaticLib", "staticlib"), ("ProcMacro", "proc-macro")],
    "Edition": [("E2015", "2015"), ("E2018", "2018"), ("E2021", "2021"), ("E2024", "2024")],
    "DependencyKind": [("Normal", "normal"), ("Development", "dev"), ("Build", "build")],
}


def value(s, f, v="v"):
    """the field as its reader gives it"""
    return f"{v}.{f}.0" if f == "workspace_default_members" else f"{v}.{f}"


def dflt(d, x):
    return re.sub(r"^v\b", lambda m: x, d)


def clauses(s):
    ok, rd = [], []
    for f, k, t, d in FIELDS[s]:
        x = value(s, f)
        ok.append(f'{"has" if d == "req" else "may"}::<{t}>(j, "{k}"@)')
        if d == "req":
            rd.append(f'must_rd::<{t}>(j, "{k}"@, {x})')
        elif d == "some":
            rd.append(f'match get(j, "{k}"@) {{ Some(x) => {x} is Some && <{t} as De>::rd(x, {x}->0), None => {x} is None }}')
        elif t == "RV":
            rd.append(f'count(es(j), es(j).len() as int, "{k}"@) <= 1 ==> match get(j, "{k}"@) {{ Some(x) => rv_rd(x, {x}), None => {x} is None }}')
        else:
            rd.append(f'may_rd::<{t}>(j, "{k}"@, {x}, {dflt(d, x)})')
    return ok, rd


def de_struct(s):
    ok, rd = clauses(s)
    return (f"impl De for {s} {{\n    /// the documents that have every required field, and only values their fields accept\n    open spec fn ok(j: J) -> bool {{ j is Obj && " + " && ".join(ok) + " }\n"
            f"    /// every field is the document's, or its default\n    open spec fn rd(j: J, v: {s}) -> bool {{\n        &&& j is Obj\n" + "".join(f"        &&& {x}\n" for x in rd) + "    }\n}\n"
            f"pub struct V{s};\n")


def enum_name(s):
    return f"pub open spec fn name_{s}(v: {s}) -> Seq<char> {{ match v {{ " + ", ".join(f'{s}::{a} => "{b}"@' for a, b in ENUMS[s]) + " } }\n"


def de_enum(s):
    null = "j is Null || " if s == "DependencyKind" else ""
    rd = "if j is Null { v == DependencyKind::Normal } else { j == J::Str(name_DependencyKind(v)) }" if null else f"j == J::Str(name_{s}(v))"
    return (f"impl De for {s} {{\n    open spec fn ok(j: J) -> bool {{ {null}exists|v: {s}| j == J::Str(#[trigger] name_{s}(v)) }}\n    open spec fn rd(j: J, v: {s}) -> bool {{ {rd} }}\n}}\n")


def distinct(name, keys):
    """no two of these literals are equal: each has a number of its own"""
    o = f"pub open spec fn tag_{name}(k: Seq<char>) -> int {{ " + " else ".join(f'if k == "{k}"@ {{ {i} }}' for i, k in enumerate(keys)) + " else { -1 } }\n"
    o += f"proof fn tags_{name}() ensures " + ", ".join(f'tag_{name}("{k}"@) == {i}' for i, k in enumerate(keys)) + "\n{\n    " + " ".join(f'reveal_strlit("{k}");' for k in keys) + "\n"
    for i, a in enumerate(keys):
        for b in keys[:i]:
            if len(a) == len(b):
                x = next(x for x in range(len(a)) if a[x] != b[x])
                o += f'    assert("{a}"@[{x}] != "{b}"@[{x}]);'
            else:
                o += f'    assert("{a}"@.len() != "{b}"@.len());'
    return o + "\n}\n"


RV = r"""
pub open spec fn dots(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dots(s.drop_last()) + if s.last() == '.' { 1int } else { 0int } } }
/// a minimum Rust version: bare, and with patch 0 when it has two components
pub open spec fn rustver(s: Seq<char>) -> Option<Version> {
    if exists|i: int| 0 <= i < s.len() && (s[i] == '-' || s[i] == '+') { None } else if dots(s) == 1 { vparse(encode_utf8(s + ".0"@)) } else { vparse(encode_utf8(s)) }
}
/// how the field is read: null is no version
#[verifier::external_body] pub struct RV { x: u64 }
impl De for RV { open spec fn ok(j: J) -> bool { j is Null || (j is Str && rustver(j->Str_0) is Some) } open spec fn rd(j: J, v: RV) -> bool { true } }
pub open spec fn rv_rd(j: J, v: Option<Version>) -> bool { if j is Null { v is None } else { j is Str && rustver(j->Str_0) == v && v is Some } }
/// the elements (entries) of a document part that is skipped
#[verifier::external_body] pub struct SeqI { x: u64 }
#[verifier::external_body] pub struct MapI { x: u64 }
impl SeqI {
    pub uninterp spec fn n(&self) -> int; pub uninterp spec fn len(&self) -> int; pub uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] pub fn next_element(&mut self) -> (r: Result<Option<Ignore>, Er>) requires 0 <= old(self).n() <= old(self).len(),
        ensures final(self).len() == old(self).len(), final(self).whole() == old(self).whole(), r is Err ==> !old(self).whole(), r is Ok && r->Ok_0 is None ==> old(self).whole() && final(self).n() == old(self).n(), r is Ok && r->Ok_0 is Some ==> old(self).n() < old(self).len() && final(self).n() == old(self).n() + 1 { unimplemented!() }
}
impl MapI {
    pub uninterp spec fn n(&self) -> int; pub uninterp spec fn len(&self) -> int; pub uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] pub fn next_entry(&mut self) -> (r: Result<Option<(Ignore, Ignore)>, Er>) requires 0 <= old(self).n() <= old(self).len(),
        ensures final(self).len() == old(self).len(), final(self).whole() == old(self).whole(), r is Err ==> !old(self).whole(), r is Ok && r->Ok_0 is None ==> old(self).whole() && final(self).n() == old(self).n(), r is Ok && r->Ok_0 is Some ==> old(self).n() < old(self).len() && final(self).n() == old(self).n() + 1 { unimplemented!() }
}
#[verifier::external_body] pub fn vx_missing(s: &str) -> (r: Er) { unimplemented!() }
#[verifier::external_body] pub fn vx_variant(s: &str, a: &[&str]) -> (r: Er) { unimplemented!() }
#[verifier::external_body] pub fn vx_custom(s: String) -> (r: Er) { unimplemented!() }
#[verifier::external_body] pub fn vx_custom_str(s: &str) -> (r: Er) { unimplemented!() }
pub trait PushX: CharsX { fn vx_push_str(&mut self, s: &str) ensures final(self).cs() == old(self).cs() + s@; }
impl PushX for String { #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { unimplemented!() } }
pub trait DotsX: CharsX { fn vx_matches(&self, c: char) -> (r: Dots) requires c == '.', ensures r.n() == dots(self.cs()); }
impl DotsX for String { #[verifier::external_body] fn vx_matches(&self, c: char) -> (r: Dots) { unimplemented!() } }
#[verifier::external_body] pub struct Dots { x: u64 }
impl Dots { pub uninterp spec fn n(&self) -> int; #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.n() { unimplemented!() } }
pub fn vx_parse_rust_version(s: &str) -> (r: Result<Version, Er>) ensures r is Ok <==> vparse(s.b()) is Some, r is Ok ==> r->Ok_0 == vparse(s.b())->0 { match vx_parse_version(s) { Ok(v) => Ok(v), Err(_) => Err(vx_err()) } }
"""
TEXT = r"""
pub use cm::{WorkspaceDefaultMembers, Resolve, Node, NodeDep, DepKindInfo, DependencyKind, Dependency, Source, Target, TargetKind, CrateType, Edition};
impl De for PackageId { open spec fn ok(j: J) -> bool { j is Str } open spec fn rd(j: J, v: PackageId) -> bool { j == J::Str(v.repr@) } }
impl De for Source { open spec fn ok(j: J) -> bool { j is Str } open spec fn rd(j: J, v: Source) -> bool { j == J::Str(v.repr@) } }
"""
SPEC = TEXT + RV + "".join(map(enum_name, ENUMS)) + "".join(map(de_enum, ENUMS)) + "".join(map(de_struct, FIELDS))
STEP = r"""
/// one more entry
proof fn step(e: Es, n: int) requires 0 <= n < e.len(), ensures forall|k: Seq<char>| #[trigger] look(e, n + 1, k) == if e[n].0 == k { Some(e[n].1) } else { look(e, n, k) },
    forall|k: Seq<char>| #[trigger] count(e, n + 1, k) == if e[n].0 == k { count(e, n, k) + 1 } else { count(e, n, k) }, forall|k: Seq<char>| #[trigger] count(e, n, k) >= 0 && (count(e, n, k) == 0 <==> look(e, n, k) is None)
{ assert forall|k: Seq<char>| #[trigger] count(e, n, k) >= 0 && (count(e, n, k) == 0 <==> look(e, n, k) is None) by { counts(e, n, k); } }
proof fn counts(e: Es, n: int, k: Seq<char>) ensures count(e, n, k) >= 0 && (count(e, n, k) == 0 <==> look(e, n, k) is None) decreases n { if n > 0 { counts(e, n - 1, k); } }
proof fn step_val<T: De>(e: Es, n: int, k: Seq<char>) requires 0 <= n < e.len(), ensures vals::<T>(e, n + 1, k) == (vals::<T>(e, n, k) && (e[n].0 == k ==> T::ok(e[n].1))), !vals::<T>(e, n + 1, k) ==> !vals::<T>(e, e.len() as int, k) { if vals::<T>(e, e.len() as int, k) { vals_down::<T>(e, n + 1, e.len() as int, k); } }
"""


def inv(s, n):
    o = []
    for f, k, t, d in FIELDS[s]:
        v = f
        if d in ("req", "some"):
            o.append(f'so_req::<{t}>(vx_e, {n}, "{k}"@, {v})')
        elif t == "RV":
            o.append(f'vals::<RV>(vx_e, {n}, "{k}"@), count(vx_e, {n}, "{k}"@) <= 1 ==> match look(vx_e, {n}, "{k}"@) {{ Some(j) => rv_rd(j, {v}), None => {v} is None }}')
        else:
            o.append(f'so_opt::<{t}>(vx_e, {n}, "{k}"@, {v}, {dflt(d, v)})')
    return o


def visitor(s):
    steps = "".join(f'step_val::<{t}>(vx_e, vx_n, "{k}"@);' for f, k, t, d in FIELDS[s])
    return Fn(f"{s}.visit_map", DE, f"Deserialize for {s}::deserialize/Visitor for V::visit_map", f"fn visit_map(self, mut $p0: MapA) -> (r: Result<{s}, Er>)", impl=f"impl Vis for V{s}", wrap=f"type Value = {s};\n#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n$HEADER\n$BODY\n",
              calls=[("Error::missing_field", "vx_missing"), ("Edition::default", "Edition::default")],
              subst=[(r"::<Key<'de>>", "")] + ([(r"serde_json::Value::Null", "vx_null()")] if s in ("Metadata", "Package") else []),
              loops={0: "invariant !map.open(), 0 <= map.n() <= vx_e.len(), map.e() == vx_e, map.whole() == vx_w, " + ", ".join(inv(s, "map.n()")) + ",\nensures vx_w, map.n() == vx_e.len(),\ndecreases vx_e.len() - map.n()"},
              at={"start": f"let ghost vx_e = map.e(); let ghost vx_w = map.whole(); proof {{ tags_{s}(); }}", "l0_start": f"let ghost vx_n = map.n() - 1; proof {{ step(vx_e, vx_n); {steps} }}"})


def de_of(s):
    """`deserialize` of a struct: the document's entries go to its visitor"""
    return Fn(f"{s}.deserialize", DE, f"Deserialize for {s}::deserialize", "fn deserialize($p0: Deser) -> (r: Result<Self, Er>)", impl=f"impl DeX for {s}", subst=[(r"deserialize_map\(V\)", f"deserialize_map(V{s})")])


def parse_of(s):
    return Fn(f"{s}.deserialize", DE, f"Deserialize for {s}::deserialize", "fn deserialize($p0: Deser) -> (r: Result<Self, Er>)", impl=f"impl DeX for {s}", methods=[("map_err", "*", "fn:vx_map_err")],
              calls=[("Error::custom", "vx_custom")], subst=[(r"std::borrow::Cow::<'de, str>::deserialize", "CowX::deserialize"), (r"\bs\.parse\(\)", f"{s}::from_str(s.as_ref())")],
              closures={0: "|vxp0: String| -> (r: Er) ensures true"})


def from_str(s):
    return Fn(f"{s}.from_str", CM, f"FromStr for {s}::from_str", f"fn from_str($p0: &str) -> (r: Result<Self, String>) ensures r is Ok <==> (exists|v: {s}| $p0@ == #[trigger] name_{s}(v)), r is Ok ==> $p0@ == name_{s}(r->Ok_0)", impl=f"impl {s}",
              subst=[(r"(?s)::alloc::__export::must_use\(\{.*?\}\)", "vx_text()")], at={"start": f"proof {{ tags_enum_{s}(); }}"}, final=f"proof {{ if vx_r is Ok {{ assert($p0@ == name_{s}(vx_r->Ok_0)); }} }}")


def newtype(s):
    return Fn(f"{s}.deserialize", DE, f"Deserialize for {s}::deserialize", "fn deserialize($p0: Deser) -> (r: Result<Self, Er>)", impl=f"impl DeX for {s}")


# ---- writing
def se_struct(s):
    o = []
    for f, k, t, d in FIELDS[s]:
        x = value(s, f, "self")
        if d == "some":
            o.append(f'match {x} {{ Some(w) => wrote::<{t}>(j, "{k}"@, w), None => silent(j, "{k}"@) }}')
        elif s == "Package" and f == "metadata":
            o.append(f'if {x}.doc() is Null {{ silent(j, "{k}"@) || wrote::<{t}>(j, "{k}"@, {x}) }} else {{ wrote::<{t}>(j, "{k}"@, {x}) }}')
        else:
            o.append(f'wrote::<{"Option<Version>" if t == "RV" else t}>(j, "{k}"@, {x})')
    return f"/// each field once, under cargo's key for it\nimpl Se for {s} {{ open spec fn wr(&self, j: J) -> bool {{\n    &&& j is Obj\n" + "".join(f"    &&& {x}\n" for x in o) + "} }\n"


def io_struct(s):
    good, same, back = [], [], []
    for f, k, t, d in FIELDS[s]:
        x, y = value(s, f, "self"), value(s, f, "o")
        v = value(s, f)
        if t == "RV":
            good.append(f"({x} is Some ==> {x}->0.pre.empty() && {x}->0.build.empty())")
            same.append(f"{x} == {y}")
            back.append(f'let x = g(es(j), "{k}"@)->0; if {v} is Some {{ axiom_semver({v}->0, arbitrary()); }} vals_one::<RV>(es(j), es(j).len() as int, "{k}"@);')
        elif d == "some":
            good.append(f"({x} is Some ==> {x}->0.good())")
            same.append(f"(match ({x}, {y}) {{ (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false }})")
            back.append(f'if {v} is Some {{ <{t} as Io>::back(&{v}->0, g(es(j), "{k}"@)->0); }} vals_one::<{t}>(es(j), es(j).len() as int, "{k}"@);')
        else:
            good.append(f"{x}.good()")
            same.append(f"{x}.same(&{y})")
            back.append(f'if g(es(j), "{k}"@) is Some {{ <{t} as Io>::back(&{v}, g(es(j), "{k}"@)->0); }} vals_one::<{t}>(es(j), es(j).len() as int, "{k}"@);')
    return (f"impl Io for {s} {{\n    open spec fn good(&self) -> bool {{ " + " && ".join(good) + " }\n    open spec fn same(&self, o: &Self) -> bool { " + " && ".join(same) + " }\n    open spec fn nn() -> bool { true }\n"
            f"    proof fn back(v: &Self, j: J) {{\n        " + "\n        ".join(back) + "\n    }\n}\n")


def se_enum(s):
    return (f"impl Se for {s} {{ open spec fn wr(&self, j: J) -> bool {{ j == J::Str(name_{s}(*self)) }} }}\n"
            f"impl Io for {s} {{ open spec fn good(&self) -> bool {{ true }} open spec fn same(&self, o: &Self) -> bool {{ *self == *o }} open spec fn nn() -> bool {{ true }} proof fn back(v: &Self, j: J) {{ tags_enum_{s}(); }} }}\n")


SSPEC = "".join(map(se_struct, FIELDS)) + "".join(map(io_struct, FIELDS)) + "".join(map(se_enum, ENUMS)) + "".join(
    f"impl Se for {s} {{ open spec fn wr(&self, j: J) -> bool {{ j == J::Str(self.repr@) }} }}\nimpl Io for {s} {{ open spec fn good(&self) -> bool {{ true }} open spec fn same(&self, o: &Self) -> bool {{ self.repr@ == o.repr@ }} open spec fn nn() -> bool {{ true }} proof fn back(v: &Self, j: J) {{ }} }}\n" for s in ("PackageId", "Source"))
ROUND = r"""
/// C22: reading what was written gives an equal value
proof fn round_trip(m: Metadata, j: J) requires m.good(), m.wr(j), ensures <Metadata as De>::ok(j), forall|w: Metadata| #[trigger] <Metadata as De>::rd(j, w) ==> m.same(&w) { <Metadata as Io>::back(&m, j); }
"""


def writer(s, **k):
    return Fn(f"{s}.serialize", SER, f"Serialize for {s}::serialize", "fn serialize(&self, $p0: Serz) -> (r: Result<Out, Er>)", impl=f"impl SeX for {s}", **k)


UNITS = [
    Unit("de", ["C21", "C22"], prelude=["str", "iter", "order", "coll", "streq", "chars", "opt", "semver", "cfgexpr", "meta", "pkg", "serde"], types=_meta.TYPES, mods=_meta.MODS, spec=SPEC,
         lemmas=STEP + "".join(distinct(s, [k for f, k, t, d in FIELDS[s]]) for s in FIELDS) + "".join(distinct("enum_" + s, [b for a, b in ENUMS[s]]) for s in ENUMS), fns=[
        *[visitor(s) for s in FIELDS], *[de_of(s) for s in FIELDS], *[newtype(s) for s in ("PackageId", "Source")],
        *[parse_of(s) for s in ("TargetKind", "CrateType", "Edition")], *[from_str(s) for s in ("TargetKind", "CrateType", "Edition")],
        Fn("DependencyKind.deserialize", DE, "Deserialize for DependencyKind::deserialize", "fn deserialize($p0: Deser) -> (r: Result<Self, Er>)", impl="impl DeX for DependencyKind",
           calls=[("Error::unknown_variant", "vx_variant")], subst=[(r"Option::<std::borrow::Cow<'de, str>>::deserialize", "Option::<CowX>::deserialize")],
           at={"start": "proof { tags_enum_DependencyKind(); assert(forall|v: DependencyKind| name_DependencyKind(v) == #[trigger] name_DependencyKind(v)); let a = name_DependencyKind(DependencyKind::Normal); let b = name_DependencyKind(DependencyKind::Development); let c = name_DependencyKind(DependencyKind::Build); }"}),
        Fn("Ignore.deserialize", DE, "Deserialize for Ignore::deserialize", "fn deserialize($p0: Deser) -> (r: Result<Self, Er>)", impl="impl DeX for Ignore"),
        *[Fn(f"Ignore.visit_{n}", DE, f"Visitor for Ignore::visit_{n}", f"fn visit_{n}(self{', $p0: ' + t if t else ''}) -> (r: Result<Self, Er>) ensures r is Ok", impl="impl Ignore")
          for n, t in [("bool", "bool"), ("i64", "i64"), ("i128", "i128"), ("u64", "u64"), ("u128", "u128"), ("f64", "f64"), ("str", "&str"), ("none", ""), ("unit", ""), ("bytes", "&[u8]")]],
        *[Fn(f"Ignore.visit_{n}", DE, f"Visitor for Ignore::visit_{n}", f"fn visit_{n}(self, $p0: Deser) -> (r: Result<Self, Er>) ensures r is Ok <==> $p0.whole()", impl="impl Ignore",
             subst=[("Self::deserialize", "<Self as DeX>::deserialize")]) for n in ("some", "newtype_struct")],
        *[Fn(f"Ignore.visit_{n}", DE, f"Visitor for Ignore::visit_{n}", f"fn visit_{n}(self, mut $p0: {t}) -> (r: Result<Self, Er>) requires 0 <= $p0.n() <= $p0.len(), ensures r is Ok <==> $p0.whole()", impl="impl Ignore",
             attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
             loops={0: f"invariant 0 <= {x}.n() <= {x}.len(), {x}.whole() == vx_w, {x}.len() == vx_l,\nensures vx_w,\ndecreases vx_l - {x}.n()"}, at={"start": "let ghost vx_w = $p0.whole(); let ghost vx_l = $p0.len();"})
          for n, t, x in [("seq", "SeqI", "seq"), ("map", "MapI", "map")]],
        Fn("Edition.default", CM, "Default for Edition::default", "fn default() -> (r: Edition) ensures r == Edition::E2015", impl="impl Edition"),
        Fn("deserialize_rust_version", DE, "deserialize_rust_version", "fn deserialize_rust_version(mut $p0: String) -> (r: Result<Version, Er>) ensures r is Ok <==> rustver($p0@) is Some, r is Ok ==> Some(r->Ok_0) == rustver($p0@)",
           methods=[("chars", "0", "vx_chars"), ("matches", "char", "vx_matches"), ("push_str", "*", "vx_push_str")], calls=[("E::custom", "vx_custom_str")],
           subst=[(r"Version::parse\(&(\w+)\)\s*\.map_err\(E::custom\)", r"vx_parse_rust_version(\1.as_str())")],
           loops={0: forinv(0, "t0", "forall|i: int| 0 <= i < vx_it0.i() ==> t0[i] != '-' && t0[i] != '+'")}, at={"start": "let ghost t0 = $p0@;"}),
        ]),
    Unit("ser", ["C22"], prelude=["str", "iter", "order", "coll", "streq", "chars", "opt", "semver", "cfgexpr", "meta", "pkg", "serde", "ser"], types=_meta.TYPES, mods=_meta.MODS, spec=SPEC + SSPEC,
         lemmas="".join(distinct(s, [k for f, k, t, d in FIELDS[s]]) for s in FIELDS) + "".join(distinct("enum_" + s, [b for a, b in ENUMS[s]]) for s in ENUMS) + ROUND, fns=[
        *[writer(s, at={"start": f"proof {{ tags_{s}(); }}"}) for s in FIELDS], *[writer(s) for s in ENUMS], *[writer(s) for s in ("PackageId", "Source")]]),
]
