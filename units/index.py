from _common import *
import _meta, features, kid
BD, BM = "src/builder.rs", "Builder::build_with_metadata"
I, C = "src/builder/index.rs", "src/cm.rs"
SPEC = "pub type Pk = (Kid, Package);\n" + features.SPEC.replace(lit("dep:", "?/"), "") + r"""
pub type FeaturesMap = BTreeMap<String, Vec<String>>;
pub mod index { pub use super::*; }
pub mod features { pub use super::*; }
pub open spec fn registry() -> Seq<char> { "registry+https://github.com/rust-lang/crates.io-index"@ }
pub open spec fn crates_io(p: Package) -> bool { p.source is Some && p.source->0.repr@ == registry() }
/// the i-th version of the index entry is the one
pub open spec fn first_v(vs: Seq<IndexKrateVersion>, v: Version, i: int) -> bool { 0 <= i < vs.len() && vs[i].version == v && forall|j: int| 0 <= j < i ==> (#[trigger] vs[j]).version != v }
pub open spec fn entry(c: CachingIndex, n: Seq<char>) -> Option<IndexKrate> { if c.cache.m().contains_key(n) { c.cache.m()[n] } else { None } }
/// what the index lists for this exact version
pub open spec fn lists(c: CachingIndex, n: Seq<char>, v: Version) -> Option<FeaturesMap> {
    match entry(c, n) { None => None, Some(k) => if exists|i: int| first_v(k.versions@, v, i) { Some(k.versions@[choose|i: int| first_v(k.versions@, v, i)].features) } else { None } }
}
pub type FM = Map<Seq<char>, Vec<String>>;
pub open spec fn plain(b: Seq<u8>) -> bool { !is_dep(b) && !has_weak(b) && !hasb(b, 0x2f) }
/// declared, or listed by the index
pub open spec fn named(f0: FM, ix: FM, k: Seq<char>) -> bool { f0.contains_key(k) || ix.contains_key(k) }
/// the entries of k after the index's features were added
pub open spec fn after(f0: FM, ix: FM, k: Seq<char>) -> Seq<Seq<char>> { if f0.contains_key(k) { texts(f0[k]@) } else { texts(ix[k]@) } }
/// x is referenced as a plain feature name, but not declared
pub open spec fn missing(f0: FM, ix: FM, x: Seq<char>) -> bool {
    !named(f0, ix, x) && plain(encode_utf8(x)) && exists|k: Seq<char>, i: int| named(f0, ix, k) && 0 <= i < after(f0, ix, k).len() && #[trigger] after(f0, ix, k)[i] == x
}
pub open spec fn fixed(f0: FM, ix: FM, f: FM) -> bool {
    &&& forall|k: Seq<char>| f0.contains_key(k) ==> #[trigger] f.contains_key(k) && f[k] == f0[k]
    &&& forall|k: Seq<char>| !f0.contains_key(k) && ix.contains_key(k) ==> #[trigger] f.contains_key(k) && texts(f[k]@) == texts(ix[k]@)
    &&& forall|k: Seq<char>| #[trigger] f.contains_key(k) <==> named(f0, ix, k) || missing(f0, ix, k)
    &&& forall|k: Seq<char>| !named(f0, ix, k) && #[trigger] f.contains_key(k) ==> texts(f[k]@) == seq![dep_of(k)]
}
/// what is done to a package
pub open spec fn fix_of(c: CachingIndex, a: Package, b: Package) -> bool {
    &&& b == (Package { features: b.features, ..a })
    &&& match lists(c, a.name@, a.version) {
        Some(ix) if crates_io(a) => fixed(a.features.m(), ix.m(), b.features.m()),
        _ => b.features == a.features,
    }
}
/// the names of the packages
pub open spec fn names_of(p: Seq<Pk>) -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_name(p, n) }
pub open spec fn is_name(p: Seq<Pk>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1.name@ == n }
/// the user's callback, asked once with these names
pub struct BuildIndexCache { pub x: u64 }
pub type Cache = BTreeMap<String, Option<IndexKrate>>;
impl BuildIndexCache {
    pub uninterp spec fn gives(&self, asked: spec_fn(Seq<char>) -> bool, c: Cache) -> bool;
    #[verifier::external_body] pub fn call(self, krates: SetX<String>) -> (r: Cache) ensures self.gives(krates.holds(), r) { unimplemented!() }
}
/// C16: with an index, exactly the packages' names are asked for and every package is corrected; without, nothing changes
pub open spec fn indexed(o: Option<BuildIndexCache>, a: Seq<Pk>, b: Seq<Pk>) -> bool {
    match o { None => b == a, Some(x) => exists|c: CachingIndex| #[trigger] fixes(c, a, b) && x.gives(names_of(a), c.cache) }
}
pub open spec fn fixes(c: CachingIndex, a: Seq<Pk>, b: Seq<Pk>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 == a[i].0 && fix_of(c, a[i].1, b[i].1) }
pub open spec fn is_listed(r: Seq<String>, x: Seq<char>) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j])@ == x }
/// r lists exactly the plain names that are referenced but not declared in fm
pub open spec fn listed_missing(fm: FM, r: Seq<String>) -> bool {
    &&& forall|k: Seq<char>, i: int| #![trigger fm[k]@[i]] fm.contains_key(k) && 0 <= i < fm[k]@.len() && plain(encode_utf8(fm[k]@[i]@)) && !fm.contains_key(fm[k]@[i]@) ==> is_listed(r, fm[k]@[i]@)
    &&& forall|j: int| 0 <= j < r.len() ==> !fm.contains_key((#[trigger] r[j])@) && plain(encode_utf8(r[j]@)) && in_lists(fm, r[j]@)
}
pub open spec fn in_lists(fm: FM, x: Seq<char>) -> bool { exists|k: Seq<char>, i: int| fm.contains_key(k) && 0 <= i < fm[k]@.len() && #[trigger] texts(fm[k]@)[i] == x }
/// f is f1 with the first n names of s, each naming its dependency
pub open spec fn added(f1: FM, s: Seq<String>, n: int, f: FM) -> bool {
    &&& forall|k: Seq<char>| f1.contains_key(k) ==> #[trigger] f.contains_key(k) && f[k] == f1[k]
    &&& forall|k: Seq<char>| #[trigger] f.contains_key(k) && !f1.contains_key(k) ==> texts(f[k]@) == seq![dep_of(k)] && exists|j: int| 0 <= j < n && (#[trigger] s[j])@ == k
    &&& forall|j: int| 0 <= j < n ==> f.contains_key((#[trigger] s[j])@)
}
pub open spec fn dep_of(k: Seq<char>) -> Seq<char> { "dep:"@ + k }
#[verifier::external_body] fn vx_dep(s: &String) -> (r: String) ensures r@ == dep_of(s@) { unimplemented!() }
pub fn vx_is_none_or<A, F: FnOnce(A) -> bool>(a: Option<A>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->0,)), ensures a is None ==> r, a is Some ==> f.ensures((a->0,), r) { match a { Some(x) => f(x), None => true } }
pub fn vx_and_then<A, B, F: FnOnce(A) -> Option<B>>(a: Option<A>, f: F) -> (r: Option<B>) requires a is Some ==> f.requires((a->0,)), ensures a is None ==> r is None, a is Some ==> f.ensures((a->0,), r) { match a { Some(x) => f(x), None => None } }
pub trait OwnX { spec fn oc(&self) -> Seq<char>; fn vx_own(&self) -> (r: String) ensures r@ == self.oc(); }
pub fn vx_opt_map<A, C, F: FnOnce(A) -> C>(a: Option<A>, f: F) -> (r: Option<C>) requires a is Some ==> f.requires((a->0,)), ensures r is Some <==> a is Some, a is Some ==> f.ensures((a->0,), r->0) { match a { Some(x) => Some(f(x)), None => None } }
impl SetX<String> { pub uninterp spec fn hs(&self, n: Seq<char>) -> bool; pub open spec fn holds(&self) -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| self.hs(n) } }
impl FromIt<String> for SetX<String> { open spec fn from_it(s: Seq<String>, r: Self) -> bool { forall|n: Seq<char>| #[trigger] r.hs(n) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n } }
/// `&mut v[i].1`, one after the other: what a `for` over `&mut` of the list yields
#[verifier::external_body] pub fn vx_pk_mut(v: &mut Vec<Pk>, i: usize) -> (r: &mut Package) requires i < old(v).len() ensures *r == old(v)@[i as int].1, final(v)@ == old(v)@.update(i as int, (old(v)@[i as int].0, *final(r))) { unimplemented!() }
impl OwnX for str { open spec fn oc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
"""
LEM = r"""
proof fn lists_missing(f: FeaturesMap, vs: Seq<&Vec<String>>, js: Seq<It<&String>>, o: Seq<Option<String>>)
    requires f.listed(), vs.len() == f.entries().len(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] == f.entries()[i].1,
        js.len() == vs.len(), forall|i: int| #![trigger js[i]] 0 <= i < js.len() ==> js[i].vseq() == refs(vs[i]@), o.len() == concat(seqs(js)).len(),
        forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> (o[i] is Some <==> plain(concat(seqs(js))[i].b()) && !f.m().contains_key(concat(seqs(js))[i]@)) && (o[i] is Some ==> o[i]->0@ == concat(seqs(js))[i]@),
    ensures listed_missing(f.m(), flat(o)),
{
    let fm = f.m(); let es = f.entries(); let z = concat(seqs(js)); let r = flat(o);
    concat_elem(seqs(js)); flat_elem(o);
    assert forall|k: Seq<char>, i: int| #![trigger fm[k]@[i]] fm.contains_key(k) && 0 <= i < fm[k]@.len() && plain(encode_utf8(fm[k]@[i]@)) && !fm.contains_key(fm[k]@[i]@) implies is_listed(r, fm[k]@[i]@) by {
        let e = choose|e: int| 0 <= e < es.len() && (#[trigger] es[e]).0@ == k; assert(vs[e] == es[e].1); assert(*vs[e] == fm[k]); assert(js[e].vseq() == refs(vs[e]@));
        assert(seqs(js)[e] == refs(vs[e]@)); assert(*seqs(js)[e][i] == fm[k]@[i]); assert(z.contains(seqs(js)[e][i])); let q = choose|q: int| 0 <= q < z.len() && #[trigger] z[q] == seqs(js)[e][i]; assert(o[q] is Some);
    }
    assert forall|j: int| 0 <= j < r.len() implies !fm.contains_key((#[trigger] r[j])@) && plain(encode_utf8(r[j]@)) && in_lists(fm, r[j]@) by {
        let q = choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == Some(r[j]); assert(has2(seqs(js), z[q])); let (e, i) = choose|e: int, i: int| 0 <= e < seqs(js).len() && 0 <= i < seqs(js)[e].len() && #[trigger] seqs(js)[e][i] == z[q];
        assert(js[e].vseq() == refs(vs[e]@)); assert(seqs(js)[e] == refs(vs[e]@)); assert(vs[e] == es[e].1); let k = es[e].0@; assert(fm.contains_key(k)); assert(fm[k]@[i] == *z[q]); assert(texts(fm[k]@)[i] == r[j]@);
    }
}
/// what the second loop leaves behind
proof fn all_fixed(f0: FM, ix: FM, f1: FM, s: Seq<String>, f: FM)
    requires
        forall|k: Seq<char>| f0.contains_key(k) ==> #[trigger] f1.contains_key(k) && f1[k] == f0[k],
        forall|k: Seq<char>| #[trigger] f1.contains_key(k) && !f0.contains_key(k) ==> ix.contains_key(k) && texts(f1[k]@) == texts(ix[k]@),
        forall|k: Seq<char>| #[trigger] f1.contains_key(k) <==> named(f0, ix, k),
        listed_missing(f1, s), added(f1, s, s.len() as int, f),
    ensures fixed(f0, ix, f),
{
    assert forall|k: Seq<char>| named(f0, ix, k) implies #[trigger] after(f0, ix, k) == texts(f1[k]@) && f1.contains_key(k) by { assert(f1.contains_key(k)); }
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) <==> named(f0, ix, k) || missing(f0, ix, k) by {
        if f.contains_key(k) && !f1.contains_key(k) {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == k; assert(in_lists(f1, k));
            let (q, i) = choose|q: Seq<char>, i: int| f1.contains_key(q) && 0 <= i < f1[q]@.len() && #[trigger] texts(f1[q]@)[i] == k; assert(named(f0, ix, q)); assert(after(f0, ix, q) == texts(f1[q]@)); assert(after(f0, ix, q)[i] == k);
        }
        if missing(f0, ix, k) {
            let (q, i) = choose|q: Seq<char>, i: int| named(f0, ix, q) && 0 <= i < after(f0, ix, q).len() && #[trigger] after(f0, ix, q)[i] == k; assert(after(f0, ix, q) == texts(f1[q]@)); assert(texts(f1[q]@)[i] == k); assert(f1.contains_key(q)); assert(!f1.contains_key(k));
            assert(f1[q]@[i]@ == k); assert(is_listed(s, k)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == k; assert(f.contains_key(s[j]@));
        }
        if named(f0, ix, k) { assert(f1.contains_key(k)); }
    }
}
proof fn feat_plain(r: Feature<'_>, b: Seq<u8>) requires classified(r, b), ensures plain(b) <==> r is Simple, r is Simple ==> encode_utf8(r->Simple_0@) == b
{
    match r {
        Feature::Weak { krate, feature } => { let i = choose|i: int| weak_at(b, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 2, b.len() as int); assert(occ(b, seq![0x3fu8, 0x2f], i)); assert(has_weak(b)); }
        Feature::Strong { krate, feature } => { let i = choose|i: int| first_at(b, 0x2f, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 1, b.len() as int); assert(b[i] == 0x2f); assert(hasb(b, 0x2f)); }
        _ => {}
    }
}

proof fn first_unique(vs: Seq<IndexKrateVersion>, v: Version, i: int) requires first_v(vs, v, i), ensures (choose|i: int| first_v(vs, v, i)) == i {
    let j = choose|i: int| first_v(vs, v, i); assert(first_v(vs, v, j)); if i < j { assert(vs[i].version != v); } if j < i { assert(vs[j].version != v); }
}
/// a version that occurs has a first occurrence
proof fn has_first(vs: Seq<IndexKrateVersion>, v: Version, i: int) requires 0 <= i < vs.len(), vs[i].version == v, ensures exists|j: int| first_v(vs, v, j) decreases i
{ if exists|j: int| 0 <= j < i && (#[trigger] vs[j]).version == v { let j = choose|j: int| 0 <= j < i && (#[trigger] vs[j]).version == v; has_first(vs, v, j); } else { assert(first_v(vs, v, i)); } }
"""
M = STR + [("get", "*", "vx_get"), ("and_then", "*", "fn:vx_and_then"), ("iter", "0", "vx_iter"), ("find_map", "*", "vx_find_map"), ("then_some", "*", "vx_then_some"), ("is_none_or", "*", "fn:vx_is_none_or"), ("contains_key", "*", "vx_contains_key"), ("clone", "0", "vx_clone"), ("values", "0", "vx_values"), ("flat_map", "*", "vx_flat_map"), ("filter_map", "*", "vx_filter_map"), ("collect", "0", "vx_collect"), ("to_owned", "0", "vx_own"), ("into_iter", "0", "vx_into_iter")]
UNITS = [Unit("index", ["C16", "C19"], prelude=["str", "iter", "order", "streq", "chars", "opt", "coll", "semver", "cfgexpr", "meta", "map"], types=_meta.TYPES + [Ty("src/lib.rs", "Kid"), Ty(features.F, "Feature"), Ty(features.F, "FeatureKind"), Ty(features.F, "ParsedFeature"), Ty(I, "IndexKrateVersion"), Ty(I, "IndexKrate"), Ty(I, "CachingIndex")],
    mods=dict(_meta.MODS), spec=SPEC, lemmas=lit("dep:", "?/", "registry+https://github.com/rust-lang/crates.io-index") + LEM, fns=features.UNITS[0].fns + [
    Fn("Source::is_crates_io", C, "Source::is_crates_io", "fn is_crates_io(&self) -> (r: bool) ensures r == (self.repr@ == registry())", impl="impl cm::Source", eqs=True),
    Fn("CachingIndex::index_krate_features", I, "CachingIndex::index_krate_features", "fn index_krate_features(&self, $p0: &str, $p1: &Version) -> (r: Option<&FeaturesMap>) ensures r is Some <==> lists(*self, $p0@, *$p1) is Some, r is Some ==> *r->0 == lists(*self, $p0@, *$p1)->0", impl="impl CachingIndex", methods=M, eqs=True, bind=["iter", "find_map"],
       closures={0: "|vxp0: &Option<IndexKrate>| -> (r: Option<&FeaturesMap>) requires entry(*self, $p0@) == *vxp0, ensures r is Some <==> lists(*self, $p0@, *$p1) is Some, r is Some ==> *r->0 == lists(*self, $p0@, *$p1)->0",
                 1: "|vxp0: &IndexKrate| -> (r: Option<&FeaturesMap>) requires entry(*self, $p0@) == Some(*vxp0), ensures r is Some <==> lists(*self, $p0@, *$p1) is Some, r is Some ==> *r->0 == lists(*self, $p0@, *$p1)->0",
                 2: "|vxp0: &IndexKrateVersion| -> (r: Option<&FeaturesMap>) ensures r is Some <==> vxp0.version == *$p1, r is Some ==> *r->0 == vxp0.features"},
       at={"b0": "let ghost z = vx_b0.vseq(); proof { assert(z == refs(ik.versions@)); }",
           "b1": """proof { let vs = ik.versions@; let z = refs(vs); let q = vx_b1;
               if q is Some { let i = choose|i: int| 0 <= i < z.len() && (*#[trigger] z[i]).version == *$p1 && z[i].features == *q->0 && forall|j: int| 0 <= j < i ==> (*#[trigger] z[j]).version != *$p1; assert forall|j: int| 0 <= j < i implies (#[trigger] vs[j]).version != *$p1 by { assert(z[j].version != *$p1); } assert(first_v(vs, *$p1, i)); first_unique(vs, *$p1, i); }
               else { if exists|i: int| first_v(vs, *$p1, i) { let i = choose|i: int| first_v(vs, *$p1, i); assert(z[i].version == *$p1); } } }"""}),
    Fn("fix_features", I, "fix_features", """fn fix_features($p0: &CachingIndex, $p1: &mut Package)
        ensures fix_of(*$p0, *old($p1), *final($p1))""", methods=M, formats=[("dep:{}", "vx_dep")], macros=[("vec", "vec!")], bind=["values", "flat_map", "filter_map", "feat"],
       closures={0: "|vxp0: &cm::Source| -> (r: bool) ensures r == (vxp0.repr@ != registry())", 1: "|vxp0: &Vec<String>| -> (r: It<&String>) ensures r.vseq() == refs(vxp0@)",
                 2: "|vxp0: &String| -> (r: Option<String>) ensures r is Some <==> plain(vxp0.b()) && !$p1.features.m().contains_key(vxp0@), r is Some ==> r->0@ == vxp0@"},
       loops={0: forinv(0, None, """*$p1 == (Package { features: $p1.features, ..*old($p1) }), vx_s0 == features.entries(),
               forall|k: Seq<char>| f0.contains_key(k) ==> #[trigger] $p1.features.m().contains_key(k) && $p1.features.m()[k] == f0[k],
               forall|k: Seq<char>| #[trigger] $p1.features.m().contains_key(k) && !f0.contains_key(k) ==> ix.contains_key(k) && texts($p1.features.m()[k]@) == texts(ix[k]@),
               forall|j: int| 0 <= j < vx_it0.i() ==> $p1.features.m().contains_key((#[trigger] vx_s0[j]).0@)"""),
              1: forinv(1, None, """*$p1 == (Package { features: $p1.features, ..*old($p1) }),
               listed_missing(f1, vx_s1),
               added(f1, vx_s1, vx_it1.i() as int, $p1.features.m())""")},
       at={"start": "let ghost f0 = $p1.features.m();", "l0_before": "let ghost ix = features.m(); proof { features.axiom_listed(); }",
           "b2": "proof { feat_plain(vx_b2, vxp0.b()); enc_inj(); }",
           "b3": """proof {
               let fm = $p1.features.m(); let es = $p1.features.entries(); let vs = vx_b0.s(); let z = vx_b1.s();
               let js = choose|js: Seq<It<&String>>| js.len() == vs.len() && z == #[trigger] concat(seqs(js)) && forall|i: int| #![trigger js[i]] 0 <= i < js.len() ==> js[i].vseq() == refs(vs[i]@);
               let o = choose|o: Seq<Option<String>>| o.len() == z.len() && vx_b3.s() == flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> (o[i] is Some <==> plain(z[i].b()) && !fm.contains_key(z[i]@)) && (o[i] is Some ==> o[i]->0@ == z[i]@);
               lists_missing($p1.features, vs, js, o);
           }""",
           "l0_after": "proof { assert(forall|k: Seq<char>| #[trigger] $p1.features.m().contains_key(k) <==> named(f0, ix, k)); }",
           "l1_before": "let ghost f1 = $p1.features.m(); let ghost ix = lists(*$p0, old($p1).name@, old($p1).version)->0.m();",
           "l1_end": "proof { let n = vx_it1.i() - 1; let m = vx_s1[n]; assert(texts($p1.features.m()[m@]@) =~= seq![dep_of(m@)]); }",
           "l1_after": "proof { assert(added(f1, vx_s1, vx_s1.len() as int, $p1.features.m())); all_fixed(f0, ix, f1, vx_s1, $p1.features.m()); }"}),
    Fn("CachingIndex::new", I, "CachingIndex::new", "fn new_(build: BuildIndexCache, krates: SetX<String>) -> (r: CachingIndex) ensures build.gives(krates.holds(), r.cache)", impl="impl CachingIndex", subst=[(r"\bbuild\(", "build.call("), (r"\bSelf\b", "CachingIndex")]),
    Fn("load_index", BD, BM, "fn load_index(crates_io_index: Option<BuildIndexCache>, packages: &mut Vec<Pk>) ensures indexed(crates_io_index, old(packages)@, final(packages)@)",
       select="stmts:text:self.crates_io_index..=text:self.crates_io_index", methods=M + [("map", "*", "vx_map")], bind=["iter", "map", "collect"], calls=[("index::CachingIndex::new", "CachingIndex::new_")],
       subst=[(r"let vx_b2 =", "let vx_b2: SetX<String> ="), (r"self\s*\.\s*crates_io_index\s*\.\s*vx_map\(", "vx_opt_map(crates_io_index, "), (r"let mut vx_it0 = vx_into\(&mut packages\);\s*vx_at!\(l0_before\);", "let mut vx_n: usize = 0;"),
              (r"while let Some\(\((\w+), (\w+)\)\) = vx_it0\.next\(\) \{\s*vx_loop_0!\(\);\s*vx_at!\(l0_start\);", r"while vx_n < packages.len() { vx_loop_0!(); vx_at!(l0_start); let \2 = vx_pk_mut(packages, vx_n); vx_n += 1;")],
       closures={0: "|vxp0: BuildIndexCache| -> (r: CachingIndex) ensures vxp0.gives(names_of(packages@), r.cache)", 1: "|vxp0: &Pk| -> (r: String) ensures r@ == vxp0.1.name@"},
       loops={0: """invariant vx_n <= packages.len(), packages@.len() == p0.len(), forall|i: int| 0 <= i < vx_n ==> (#[trigger] packages@[i]).0 == p0[i].0 && fix_of(index, p0[i].1, packages@[i].1), forall|i: int| vx_n <= i < p0.len() ==> #[trigger] packages@[i] == p0[i], decreases packages.len() - vx_n"""},
       at={"start": "let ghost p0 = packages@;", "b0": "proof { assert(vx_b0.vseq() == refs(packages@)); }",
           "b2": "proof { let f = vx_b2.holds(); let g = names_of(packages@); assert forall|n: Seq<char>| #[trigger] f(n) == g(n) by { assert(vx_b2.hs(n) == f(n)); if is_name(packages@, n) { let i = choose|i: int| 0 <= i < packages@.len() && (#[trigger] packages@[i]).1.name@ == n; assert(vx_b1.s()[i]@ == n); } } assert(f =~= g); }",
           "l0_after": "proof { assert(fixes(index, p0, packages@)); }"}),
])]