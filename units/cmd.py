from _common import *
B, C = "src/builder.rs", "src/cm/cmd.rs"
SPEC = r"""
pub mod cm { pub use super::MetadataCommand; }
pub open spec fn tb(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// b follows a somewhere
pub open spec fn adj(s: Seq<Seq<u8>>, a: Seq<u8>, b: Seq<u8>) -> bool { exists|k: int| 0 <= k && k + 1 < s.len() && s[k] == a && #[trigger] s[k + 1] == b }
pub type MS = vstd::multiset::Multiset<Seq<u8>>;
pub open spec fn opt(m: MS, on: bool, f: Seq<u8>) -> MS { if on { m.insert(f) } else { m } }
/// strictly increasing: a sorted set
pub open spec fn sset(s: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex(#[trigger] s[i], #[trigger] s[j]) == Ordering::Less }
/// f is the sorted set of what was requested
pub open spec fn set_of(f: Seq<Seq<u8>>, req: Seq<Seq<u8>>) -> bool { sset(f) && same_elems(f, req) }
/// what `Cmd` adds before the extra options: exactly the requested flags, each once
#[verifier::opaque]
pub open spec fn flags(c: Cmd, f: Seq<Seq<u8>>, s: Seq<Seq<u8>>) -> bool {
    let m0 = opt(opt(opt(opt(opt(MS::empty(), c.no_default_features, tb("--no-default-features"@)), c.all_features, tb("--all-features"@)), c.frozen, tb("--frozen"@)), c.locked, tb("--locked"@)), c.offline, tb("--offline"@));
    &&& s.to_multiset() =~= if f.len() > 0 { m0.insert(tb("--features"@)).insert(join(f, tb(" "@))) } else { m0 }
    &&& f.len() > 0 ==> adj(s, tb("--features"@), join(f, tb(" "@)))
}
pub open spec fn dir_or_dot(d: Seq<u8>) -> Seq<u8> { if d.len() == 0 { tb("."@) } else { d } }
/// the metadata command a Cmd turns into
pub open spec fn turned(c: Cmd, f: Seq<Seq<u8>>, s: Seq<Seq<u8>>, m: MetadataCommand) -> bool {
    &&& set_of(f, sb(c.features@)) && flags(c, f, s) && sb(m.other_options@) == s + sb(c.other_options@)
    &&& op(m.cargo_path) == op(c.cargo_path)
    &&& op(m.manifest_path) == (if c.manifest_path is Some { Some(tb("Cargo.toml"@)) } else { None })
    &&& op(m.current_dir) == (match c.manifest_path { Some(p) => Some(dir_or_dot(pparent(p.b())->0)), None => match c.current_dir { Some(d) => Some(dir_or_dot(d.b())), None => None } })
    &&& !m.no_deps && !m.all_features && !m.no_default_features && m.features@.len() == 0 && m.env.m() == Map::<Seq<u8>, Seq<u8>>::empty()
}
/// what the command line of a metadata command holds between the fixed start and the extra options
#[verifier::opaque]
pub open spec fn own(m: MetadataCommand, s: Seq<Seq<u8>>) -> bool {
    let m0 = opt(opt(opt(base().to_multiset(), m.no_deps, tb("--no-deps"@)), m.all_features, tb("--all-features"@)), m.no_default_features, tb("--no-default-features"@));
    let m1 = if m.features@.len() > 0 { m0.insert(tb("--features"@)).insert(join(sb(m.features@), tb(","@))) } else { m0 };
    let w = base() + s;
    &&& w.to_multiset() =~= if m.manifest_path is Some { m1.insert(tb("--manifest-path"@)).insert(m.manifest_path->0.b()) } else { m1 }
    &&& m.features@.len() > 0 ==> adj(w, tb("--features"@), join(sb(m.features@), tb(","@)))
    &&& m.manifest_path is Some ==> adj(w, tb("--manifest-path"@), m.manifest_path->0.b())
}
pub open spec fn base() -> Seq<Seq<u8>> { seq![tb("metadata"@), tb("--format-version"@), tb("1"@)] }
pub open spec fn runs(m: MetadataCommand, s: Seq<Seq<u8>>, l: &Command) -> bool {
    &&& l.argv() == base() + s + sb(m.other_options@) && own(m, s)
    &&& l.dir() == op(m.current_dir)
    &&& l.env() == m.env.m()
    &&& l.prog() == (match m.cargo_path { Some(p) => p.b(), None => match env_of(tb("CARGO"@)) { Some(v) => v, None => tb("cargo"@) } })
}
#[verifier::external_body] pub fn vx_default() -> (m: MetadataCommand) ensures m.cargo_path is None, m.manifest_path is None, m.current_dir is None, !m.no_deps, m.features@.len() == 0, !m.all_features, !m.no_default_features, m.other_options@.len() == 0, m.env.m() == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
"""
LEM = r"""
pub broadcast proof fn adj_push(s: Seq<Seq<u8>>, x: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger adj(s.push(x), a, b)] adj(s, a, b) ==> adj(s.push(x), a, b), s.len() > 0 && s.last() == a && x == b ==> adj(s.push(x), a, b)
{
    let t = s.push(x);
    if adj(s, a, b) { let k = choose|k: int| 0 <= k && k + 1 < s.len() && s[k] == a && #[trigger] s[k + 1] == b; assert(t[k] == a && t[k + 1] == b); }
    if s.len() > 0 && s.last() == a && x == b { let k = s.len() - 1; assert(t[k] == a && t[k + 1] == b); }
}
pub broadcast proof fn cut(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int) requires n == a.len(), ensures #[trigger] (a + b).subrange(0, n) == a { assert((a + b).subrange(0, n) =~= a); }
pub broadcast proof fn ms_push(s: Seq<Seq<u8>>, x: Seq<u8>) ensures #[trigger] s.push(x).to_multiset() == s.to_multiset().insert(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(s.push(x).to_multiset() =~= s.to_multiset().insert(x)); }
proof fn ms_empty() ensures Seq::<Seq<u8>>::empty().to_multiset() == MS::empty() { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(Seq::<Seq<u8>>::empty().to_multiset() =~= MS::empty()); }
/// sorting and removing repetitions gives the sorted set
pub broadcast proof fn dedup_set(s: Seq<Seq<u8>>) requires sorted(s), ensures #![trigger dedup(s)] sset(dedup(s)), same_elems(dedup(s), s), s.len() > 0 ==> dedup(s).len() > 0 && dedup(s).last() == s.last(), dedup(s).len() <= s.len(), decreases s.len()
{
    if s.len() > 1 {
        let p = s.drop_last(); let r = dedup(p); let n = s.len() - 1;
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies lex(#[trigger] p[i], #[trigger] p[j]) != Ordering::Greater by { assert(p[i] == s[i] && p[j] == s[j]); }
        dedup_set(p);
        assert(s =~= p.push(s.last())); assert(p.last() == s[n - 1]);
        assert forall|x: Seq<u8>| s.contains(x) <==> p.contains(x) || x == s.last() by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < n { assert(p[i] == x); } }
            if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
            assert(s[n] == s.last());
        }
        if s.last() == s[n - 1] { assert(p[n - 1] == s.last()); assert(p.contains(s.last())); }
        else {
            let d = r.push(s.last());
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies lex(#[trigger] d[i], #[trigger] d[j]) == Ordering::Less by {
                if j < r.len() { assert(d[i] == r[i] && d[j] == r[j]); }
                else {
                    assert(lex(s[n - 1], s[n]) != Ordering::Greater); lex_eq(s[n - 1], s[n]);
                    assert(r.last() == p.last());
                    if i < r.len() - 1 { assert(lex(r[i], r[r.len() - 1]) == Ordering::Less); lex_trans(r[i], r.last(), s.last()); }
                }
            }
            assert forall|x: Seq<u8>| d.contains(x) <==> s.contains(x) by {
                if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; if i < r.len() { assert(r[i] == x); assert(r.contains(x)); } }
                if s.contains(x) && x != s.last() { assert(r.contains(x)); let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(d[i] == x); }
                assert(d[r.len() as int] == s.last());
            }
        }
    }
}
proof fn elems_trans(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>) requires same_elems(a, b), same_elems(b, c), ensures same_elems(a, c), a.len() > 0 <==> c.len() > 0 {
    if a.len() > 0 { assert(a.contains(a[0])); assert(b.contains(a[0])); assert(c.contains(a[0])); }
    if c.len() > 0 { assert(c.contains(c[0])); assert(b.contains(c[0])); assert(a.contains(c[0])); }
}
/// the whole: the line a Cmd ends up as
proof fn c17(c: Cmd, f: Seq<Seq<u8>>, s: Seq<Seq<u8>>, m: MetadataCommand, t: Seq<Seq<u8>>, l: &Command)
    requires turned(c, f, s, m), runs(m, t, l), c.manifest_path is Some ==> pparent(c.manifest_path->0.b()) is Some,
    ensures
        l.argv() == base() + t + s + sb(c.other_options@), flags(c, f, s), set_of(f, sb(c.features@)),
        c.manifest_path is Some ==> t =~= seq![tb("--manifest-path"@), tb("Cargo.toml"@)] && l.dir() == Some(dir_or_dot(pparent(c.manifest_path->0.b())->0)),
        c.manifest_path is None ==> t =~= Seq::empty() && (l.dir() is Some <==> c.current_dir is Some),
        c.cargo_path is Some ==> l.prog() == c.cargo_path->0.b(),
{
    reveal(own); lits();
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(base() + t + (s + sb(c.other_options@)) =~= base() + t + s + sb(c.other_options@));
    let w = base() + t; let b0 = base().to_multiset();
    vstd::seq_lib::lemma_multiset_commutative(base(), t);
    assert(t.to_multiset() =~= w.to_multiset().sub(b0));
    assert(t.to_multiset().len() == t.len());
    if c.manifest_path is None { assert(t.to_multiset() =~= MS::empty()); }
    else {
        assert(t.to_multiset() =~= MS::empty().insert(tb("--manifest-path"@)).insert(tb("Cargo.toml"@)));
        assert(t.len() == 2);
        let k = choose|k: int| 0 <= k && k + 1 < w.len() && w[k] == tb("--manifest-path"@) && #[trigger] w[k + 1] == tb("Cargo.toml"@);
        assert(w[0] == tb("metadata"@) && w[1] == tb("--format-version"@) && w[2] == tb("1"@) && w[3] == t[0] && w[4] == t[1]);
        assert(tb("--manifest-path"@).len() == 15 && tb("metadata"@).len() == 8 && tb("--format-version"@).len() == 16 && tb("1"@).len() == 1);
        assert(k == 3);
    }
}
"""
M = STRLEN + [("into", "0", "vx_into_"), ("to_owned", "0", "vx_own"), ("sort", "0", "vx_sort"), ("dedup", "0", "vx_dedup"), ("extend", "*", "vx_extend"), ("append", "*", "vx_append"), ("push", "*", "vx_push"), ("join", "*", "vx_join"), ("clone", "0", "vx_clone"), ("or_else", "*", "fn:vx_or_else"), ("unwrap_or_else", "*", "fn:vx_unwrap_or_else"), ("map", "path", "fn:vx_res_map"), ("ok", "0", "fn:vx_ok")]
CF = ["cargo_path", "manifest_path", "current_dir", "features", "other_options", "all_features", "no_default_features", "frozen", "locked", "offline"]
MF = ["cargo_path", "manifest_path", "current_dir", "no_deps", "features", "all_features", "no_default_features", "other_options", "env", "verbose"]


def setter(ty, file, name, params, does, fields, changed, generics="", req=""):
    same = ", ".join(f"r.{f} == old(self).{f}" for f in fields if f not in changed)
    return Fn(f"{ty}::{name}", file, f"{ty}::{name}", f"fn {name}{generics}(&mut self{params}) -> (r: &mut Self) {req} ensures *final(r) == *final(self), {does}, {same}", impl=f"impl {ty}", methods=M, at={"start": "proof { lits(); }"} if False else {})


UNITS = [Unit("cmd", ["C17"], prelude=["str", "iter", "order", "streq", "chars", "opt", "semver", "cfgexpr", "cmdpath", "cmdx"], types=[Ty(B, "Cmd"), Ty(B, "LockOptions", attrs="#[derive(Clone, Copy)]"), Ty(C, "Features"), Ty(C, "MetadataCommand", subst=[(r"std::collections::BTreeMap<OsString, OsString>", "EnvX")])],
    spec=SPEC, lemmas=lit("--no-default-features", "--all-features", "--features", "--frozen", "--locked", "--offline", "--no-deps", "--manifest-path", "Cargo.toml", ".", " ", ",", "metadata", "--format-version", "1", "CARGO", "cargo") + LEM, fns=[
    Fn("Cmd::from", B, "From<Cmd> for MetadataCommand::from", """fn from(mut $p0: Cmd) -> (r: MetadataCommand)
        requires $p0.manifest_path is Some ==> pparent($p0.manifest_path->0.b()) is Some,
        ensures exists|f: Seq<Seq<u8>>, s: Seq<Seq<u8>>| #[trigger] turned($p0, f, s, r)""", impl="impl MetadataCommand", methods=M, calls=[("usize::from", "vx_usize_from"), ("cm::MetadataCommand::new", "MetadataCommand::new_")],
       at={"start": "broadcast use {adj_push, ms_push, dedup_set, cut}; let ghost c0 = $p0; proof { reveal(flags); ms_empty(); }", "let_opts": "proof { assert(opts.ss() =~= Seq::empty()); }", "before_let_opts": "let ghost f = cmd.features.ss(); proof { assert(set_of(f, sb(c0.features@))); }", "tail": "proof { let all = sb(mdc.other_options@); let s = all.subrange(0, all.len() - c0.other_options@.len()); assert(all =~= s + sb(c0.other_options@)); assert(flags(c0, f, s)); assert(turned(c0, f, s, mdc)); }"}),
    setter("Cmd", B, "cargo_path", ", $p0: P", "op(r.cargo_path) == Some($p0.pb())", CF, ["cargo_path"], "<P: IntoPath>"),
    setter("Cmd", B, "manifest_path", ", $p0: P", "op(r.manifest_path) == Some($p0.pb())", CF, ["manifest_path"], "<P: IntoPath>"),
    setter("Cmd", B, "current_dir", ", $p0: P", "op(r.current_dir) == Some($p0.pb())", CF, ["current_dir"], "<P: IntoPath>"),
    setter("Cmd", B, "no_default_features", "", "r.no_default_features", CF, ["no_default_features"]),
    setter("Cmd", B, "all_features", "", "r.all_features", CF, ["all_features"]),
    setter("Cmd", B, "features", ", $p0: Vec<String>", "sb(r.features@) == sb(old(self).features@) + sb($p0@)", CF, ["features"]),
    setter("Cmd", B, "lock_opts", ", $p0: LockOptions", "r.frozen == $p0.frozen, r.locked == $p0.locked, r.offline == $p0.offline", CF, ["frozen", "locked", "offline"]),
    setter("Cmd", B, "other_options", ", $p0: Vec<String>", "sb(r.other_options@) == sb(old(self).other_options@) + sb($p0@)", CF, ["other_options"]),
    Fn("MetadataCommand::new", C, "MetadataCommand::new", "fn new_() -> (m: MetadataCommand) ensures m.cargo_path is None, m.manifest_path is None, m.current_dir is None, !m.no_deps, m.features@.len() == 0, !m.all_features, !m.no_default_features, m.other_options@.len() == 0, m.env.m() == Map::<Seq<u8>, Seq<u8>>::empty()", impl="impl MetadataCommand", calls=[("Self::default", "vx_default")]),
    setter("MetadataCommand", C, "cargo_path", ", $p0: P", "op(r.cargo_path) == Some($p0.pb())", MF, ["cargo_path"], "<P: IntoPath>"),
    setter("MetadataCommand", C, "manifest_path", ", $p0: P", "op(r.manifest_path) == Some($p0.pb())", MF, ["manifest_path"], "<P: IntoPath>"),
    setter("MetadataCommand", C, "current_dir", ", $p0: P", "op(r.current_dir) == Some($p0.pb())", MF, ["current_dir"], "<P: IntoPath>"),
    setter("MetadataCommand", C, "no_deps", "", "r.no_deps", MF, ["no_deps"]),
    setter("MetadataCommand", C, "env", ", $p0: K, $p1: V", "r.env.m() == old(self).env.m().insert($p0.ob(), $p1.ob())", MF, ["env"], "<K: IntoOs, V: IntoOs>"),
    setter("MetadataCommand", C, "verbose", ", $p0: bool", "r.verbose == $p0", MF, ["verbose"]),
    setter("MetadataCommand", C, "other_options", ", $p0: Vec<String>", "sb(r.other_options@) == sb($p0@)", MF, ["other_options"]),
    Fn("MetadataCommand::cargo_command", C, "MetadataCommand::cargo_command", "fn cargo_command(&self) -> (r: Command) ensures exists|s: Seq<Seq<u8>>| #[trigger] runs(*self, s, &r)", impl="impl MetadataCommand", methods=M, calls=[("std::env::var", "vx_env_var")],
       at={"start": "broadcast use {adj_push, ms_push, cut}; proof { reveal(own); }", "call_args": "proof { let a = cmd.argv(); assert(a.subrange(0, 3) =~= base()); if a.len() == 3 { assert(a =~= a.subrange(0, 3)); } }", "call_envs": "proof { assert(cmd.env() =~= self.env.m()); }", "tail": "proof { let all = cmd.argv(); let w = all.subrange(0, all.len() - self.other_options@.len()); let s = w.subrange(3, w.len() as int); assert(all =~= w + sb(self.other_options@)); assert(w =~= base() + s); assert(own(*self, s)); assert(runs(*self, s, &cmd)); }"},
       closures={0: "|| -> (r: Option<PathX>) ensures op(r) == env_of(tb(\"CARGO\"@))", 1: "|| -> (r: PathX) ensures r.b() == tb(\"cargo\"@)"}),
])]
