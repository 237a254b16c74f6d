from _common import *
import kid
L = "src/lib.rs"
PUNCT = " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
def hexs(c):
    u = "%02X" % ord(c)
    return [u] if u.lower() == u else [u, u.lower()]
def codes():
    return [(c, h) for c in PUNCT for h in hexs(c)]
SPEC = kid.KID_SPEC + r"""
pub struct PackageId { pub repr: String }
/// a package id as cargo writes it
pub enum PkgId {
    /// `name version (source#commit)`
    Old { n: Seq<u8>, v: Seq<u8>, s: Seq<u8>, commit: Option<Seq<u8>> },
    /// `url?reference#name@version`; the reference is written percent-encoded
    New { url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>, n: Option<Seq<u8>>, v: Seq<u8> },
}
pub open spec fn ln(s: Seq<u8>) -> int { s.len() as int }
pub open spec fn hexv(c: u8) -> int { if 0x30 <= c <= 0x39 { c - 0x30 } else if 0x41 <= c <= 0x46 { c - 0x41 + 10 } else if 0x61 <= c <= 0x66 { c - 0x61 + 10 } else { -1 } }
/// two hex digits that stand for a printable ASCII character other than a letter or digit
pub open spec fn esc(h: u8, l: u8) -> bool {
    let c = hexv(h) * 16 + hexv(l);
    hexv(h) >= 0 && hexv(l) >= 0 && 0x20 <= c <= 0x7e && !(0x30 <= c <= 0x39) && !(0x41 <= c <= 0x5a) && !(0x61 <= c <= 0x7a)
}
pub open spec fn escv(h: u8, l: u8) -> u8 { (hexv(h) * 16 + hexv(l)) as u8 }
pub open spec fn plain(c: u8) -> bool { 0x20 < c < 0x7f && c != 0x25 && c != 0x2f && c != 0x3f && c != 0x23 }
/// e is raw, percent-encoded
pub open spec fn encodes(raw: Seq<u8>, e: Seq<u8>) -> bool decreases raw.len() {
    if raw.len() == 0 { e.len() == 0 } else {
        let r = raw.subrange(1, raw.len() as int);
        ||| e.len() >= 1 && e[0] == raw[0] && plain(e[0]) && encodes(r, e.subrange(1, e.len() as int))
        ||| e.len() >= 3 && e[0] == 0x25 && esc(e[1], e[2]) && escv(e[1], e[2]) == raw[0] && encodes(r, e.subrange(3, e.len() as int))
    }
}
pub open spec fn opt(o: Option<Seq<u8>>, f: spec_fn(Seq<u8>) -> Seq<u8>) -> Seq<u8> { match o { Some(x) => f(x), None => Seq::empty() } }
pub open spec fn tail(n: Option<Seq<u8>>, v: Seq<u8>) -> Seq<u8> { match n { Some(x) => x + seq![0x40u8] + v, None => v } }
pub open spec fn refer(q: Option<(Seq<u8>, Seq<u8>)>) -> Seq<u8> { match q { Some(x) => seq![0x3fu8] + x.1, None => Seq::empty() } }
pub open spec fn commit(c: Option<Seq<u8>>) -> Seq<u8> { match c { Some(x) => seq![0x23u8] + x, None => Seq::empty() } }
pub open spec fn written(w: PkgId) -> Seq<u8> {
    match w {
        PkgId::Old { n, v, s, commit: c } => n + seq![0x20u8] + v + seq![0x20u8, 0x28] + s + commit(c) + seq![0x29u8],
        PkgId::New { url, q, n, v } => url + refer(q) + seq![0x23u8] + tail(n, v),
    }
}
pub open spec fn is_git(url: Seq<u8>) -> bool { starts(url, "git+"@.b_()) }
pub open spec fn last_slash(url: Seq<u8>) -> int { choose|i: int| last_at(url, 0x2f, i) }
pub open spec fn last_comp(url: Seq<u8>) -> Seq<u8> { url.subrange(last_slash(url) + 1, url.len() as int) }
pub open spec fn word(x: Seq<u8>) -> bool { !hasb(x, 0x20) && !hasb(x, 0x23) && !hasb(x, 0x2f) && !hasb(x, 0x3f) && !hasb(x, 0x25) && !hasb(x, 0x40) }
/// the ids cargo writes
pub open spec fn cargo_id(w: PkgId) -> bool {
    match w {
        PkgId::Old { n, v, s, commit: c } => !hasb(n, 0x20) && !hasb(v, 0x20) && !hasb(n, 0x23) && !hasb(v, 0x23) && match c { Some(h) => !hasb(h, 0x23), None => !hasb(s, 0x23) },
        PkgId::New { url, q, n, v } => {
            &&& word(v) && match n { Some(x) => word(x), None => true }
            &&& !hasb(url, 0x20) && hasb(url, 0x2f) && !hasb(last_comp(url), 0x3f)
            &&& match q { Some(x) => is_git(url) && encodes(x.0, x.1), None => true }
            &&& url.len() >= 4
        }
    }
}
pub open spec fn new_of(w: PkgId) -> (Seq<u8>, Option<(Seq<u8>, Seq<u8>)>, Option<Seq<u8>>, Seq<u8>) { match w { PkgId::New { url, q, n, v } => (url, q, n, v), _ => arbitrary() } }
pub open spec fn name_of(w: PkgId) -> Seq<u8> { match w { PkgId::Old { n, .. } => n, PkgId::New { url, n, .. } => match n { Some(x) => x, None => last_comp(url) } } }
pub open spec fn version_of(w: PkgId) -> Seq<u8> { match w { PkgId::Old { v, .. } => v, PkgId::New { v, .. } => v } }
pub open spec fn source_of(w: PkgId) -> Seq<u8> { match w { PkgId::Old { s, .. } => s, PkgId::New { url, q, .. } => match q { Some(x) => url + seq![0x3fu8] + x.0, None => url } } }
pub open spec fn good(b: Seq<u8>, p: (usize, usize)) -> bool { p.0 <= p.1 <= b.len() && bdy(b, p.0 as int) && bdy(b, p.1 as int) }
pub open spec fn at_(b: Seq<u8>, p: (usize, usize)) -> Seq<u8> { b.subrange(p.0 as int, p.1 as int) }
pub open spec fn splits(repr: Seq<u8>, c: Seq<(usize, usize)>, w: PkgId) -> bool {
    &&& forall|i: int| 0 <= i < 3 ==> (#[trigger] c[i]).0 <= c[i].1 <= repr.len() && bdy(repr, c[i].0 as int) && bdy(repr, c[i].1 as int)
    &&& repr.subrange(c[0].0 as int, c[0].1 as int) == name_of(w)
    &&& repr.subrange(c[1].0 as int, c[1].1 as int) == version_of(w)
    &&& repr.subrange(c[2].0 as int, c[2].1 as int) == source_of(w)
}
pub open spec fn rawlen(q: Option<(Seq<u8>, Seq<u8>)>) -> int { match q { Some(x) => 1 + ln(x.0), None => 0 } }
pub open spec fn raw(q: Option<(Seq<u8>, Seq<u8>)>) -> Seq<u8> { match q { Some(x) => seq![0x3fu8] + x.0, None => Seq::empty() } }
/// where the part after the source starts in the decoded id
pub open spec fn ref_at(url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>) -> int { ln(url) + rawlen(q) }
pub open spec fn decoded_id(url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>, n: Option<Seq<u8>>, v: Seq<u8>) -> Seq<u8> { url + raw(q) + seq![0x23u8] + tail(n, v) }
pub open spec fn sub(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i, ln(b)) }
/// the text with its escapes decoded
pub open spec fn dec(b: Seq<u8>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { b } else if b[0] == 0x25 && b.len() >= 3 { seq![escv(b[1], b[2])] + dec(b.subrange(3, b.len() as int)) } else { seq![b[0]] + dec(b.subrange(1, b.len() as int)) }
}
/// every escape is one cargo writes
pub open spec fn escs(b: Seq<u8>) -> bool decreases b.len() {
    if b.len() == 0 { true } else if b[0] == 0x25 { b.len() >= 3 && esc(b[1], b[2]) && escs(b.subrange(3, b.len() as int)) } else { escs(b.subrange(1, b.len() as int)) }
}
#[verifier::external_body] fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a.b() == b.b()) { unimplemented!() }
#[verifier::opaque] pub open spec fn key(b: Seq<u8>) -> int { if b.len() == 2 { b[0] * 256 + b[1] } else { -1 } }
fn vx_str_is(a: &str, b: &str) -> (r: bool) ensures r == (a.b() == b.b()), key(a.b()) >= 0 && key(b.b()) >= 0 ==> r == (key(a.b()) == key(b.b()))
{ proof { reveal(key); if key(a.b()) >= 0 && key(a.b()) == key(b.b()) { assert(a.b() =~= b.b()); } } vx_same(a, b) }
pub trait PushX: Bytes {
    fn vx_push(&mut self, c: char) requires (c as u32) < 128, ensures final(self).b() == old(self).b().push(c as u8);
    fn vx_push_str(&mut self, s: &str) ensures final(self).b() == old(self).b() + s.b();
    fn vx_truncate(&mut self, n: usize) requires n <= old(self).b().len(), bdy(old(self).b(), n as int), ensures final(self).b() == old(self).b().subrange(0, n as int);
}
impl PushX for String {
    #[verifier::external_body] fn vx_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_truncate(&mut self, n: usize) { unimplemented!() }
}
pub trait GetX: Bytes { fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&str>) ensures o is Some <==> r.start <= r.end <= self.b().len() && bdy(self.b(), r.start as int) && bdy(self.b(), r.end as int), o is Some ==> o->0.b() == self.b().subrange(r.start as int, r.end as int); }
impl GetX for str { #[verifier::external_body] fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&str>) { unimplemented!() } }
#[verifier::external_body] pub fn vx_string_new() -> (r: String) ensures r.b() == Seq::<u8>::empty() { unimplemented!() }
"""
LEM = lit("git+") + r"""
/// what the bytes of an encoded reference can be
proof fn enc_bytes(raw: Seq<u8>, e: Seq<u8>)
    requires encodes(raw, e),
    ensures forall|i: int| 0 <= i < e.len() ==> 0x20 < #[trigger] e[i] < 0x7f && e[i] != 0x2f && e[i] != 0x3f && e[i] != 0x23, raw.len() <= e.len(),
    decreases raw.len(),
{
    if raw.len() > 0 {
        let r = raw.subrange(1, raw.len() as int);
        let k: int = if e.len() >= 1 && e[0] == raw[0] && plain(e[0]) && encodes(r, e.subrange(1, e.len() as int)) { 1 } else { 3 };
        let t = e.subrange(k, e.len() as int);
        enc_bytes(r, t);
        assert forall|i: int| 0 <= i < e.len() implies 0x20 < #[trigger] e[i] < 0x7f && e[i] != 0x2f && e[i] != 0x3f && e[i] != 0x23 by { if i >= k { assert(e[i] == t[i - k]); } }
    }
}
proof fn dec_cat(raw: Seq<u8>, e: Seq<u8>, y: Seq<u8>)
    requires encodes(raw, e),
    ensures dec(e + y) == raw + dec(y), escs(e + y) == escs(y),
    decreases raw.len(),
{
    if raw.len() == 0 { assert(e + y =~= y); assert(raw + dec(y) =~= dec(y)); } else {
        let r = raw.subrange(1, raw.len() as int); let b = e + y;
        let k: int = if e.len() >= 1 && e[0] == raw[0] && plain(e[0]) && encodes(r, e.subrange(1, e.len() as int)) { 1 } else { 3 };
        let t = e.subrange(k, e.len() as int);
        dec_cat(r, t, y);
        assert(b.subrange(k, b.len() as int) =~= t + y);
        if k == 1 { assert(b[0] == e[0]); } else { assert(b[0] == e[0] && b[1] == e[1] && b[2] == e[2]); }
        assert(dec(b) == seq![raw[0]] + (r + dec(y)));
        assert(dec(b) =~= raw + dec(y));
    }
}
proof fn dec_skip(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), forall|j: int| 0 <= j < i ==> #[trigger] b[j] != 0x25,
    ensures dec(b) == b.subrange(0, i) + dec(b.subrange(i, b.len() as int)), escs(b) == escs(b.subrange(i, b.len() as int)),
    decreases i,
{
    if i == 0 { assert(b.subrange(0, b.len() as int) =~= b); assert(b.subrange(0, 0) + dec(b) =~= dec(b)); } else {
        let t = b.subrange(1, b.len() as int);
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] != 0x25 by { assert(t[j] == b[j + 1]); }
        dec_skip(t, i - 1);
        assert(t.subrange(i - 1, t.len() as int) =~= b.subrange(i, b.len() as int));
        assert(b[0] != 0x25);
        assert(dec(b) == seq![b[0]] + dec(t));
        assert(dec(b) =~= b.subrange(0, i) + dec(b.subrange(i, b.len() as int)));
    }
}
proof fn dec_none(b: Seq<u8>) requires !hasb(b, 0x25), ensures dec(b) == b, escs(b)
{ dec_skip(b, b.len() as int); assert(b.subrange(0, b.len() as int) =~= b); assert(b.subrange(b.len() as int, b.len() as int) =~= Seq::<u8>::empty()); assert(b + dec(Seq::<u8>::empty()) =~= b); }
proof fn dec_len(b: Seq<u8>) ensures dec(b).len() <= b.len() decreases b.len()
{ if b.len() == 0 { } else if b[0] == 0x25 && b.len() >= 3 { dec_len(b.subrange(3, b.len() as int)); } else { dec_len(b.subrange(1, b.len() as int)); } }
/// one escape
proof fn dec_step(b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b[i] == 0x25, forall|j: int| 0 <= j < i ==> #[trigger] b[j] != 0x25, escs(b),
    ensures i + 3 <= b.len(), esc(b[i + 1], b[i + 2]), escs(b.subrange(i + 3, b.len() as int)), b[i + 1] < 128, b[i + 2] < 128,
        dec(b) == b.subrange(0, i).push(escv(b[i + 1], b[i + 2])) + dec(b.subrange(i + 3, b.len() as int)),
{
    dec_skip(b, i); let t = b.subrange(i, b.len() as int);
    assert(t[0] == 0x25); assert(t.len() >= 3); assert(t[1] == b[i + 1] && t[2] == b[i + 2]);
    assert(t.subrange(3, t.len() as int) =~= b.subrange(i + 3, b.len() as int));
    assert(dec(b) =~= b.subrange(0, i).push(escv(b[i + 1], b[i + 2])) + dec(b.subrange(i + 3, b.len() as int)));
}
proof fn slash(url: Seq<u8>, n: int)
    requires hasb(url, 0x2f), n == url.len(),
    ensures last_at(url, 0x2f, last_slash(url)),
    decreases n,
{ let w = choose|i: int| 0 <= i < url.len() && url[i] == 0x2f; last_exists(url, 0x2f, w); }
proof fn last_exists(b: Seq<u8>, c: u8, i: int) requires 0 <= i < b.len(), b[i] == c, ensures exists|j: int| last_at(b, c, j) decreases b.len() - i
{ if exists|j: int| i < j < b.len() && b[j] == c { let j = choose|j: int| i < j < b.len() && b[j] == c; last_exists(b, c, j); } else { assert(last_at(b, c, i)); } }
/// where everything is in an old id
proof fn old_facts(b: Seq<u8>, n: Seq<u8>, v: Seq<u8>, s: Seq<u8>, c: Option<Seq<u8>>)
    requires cargo_id(PkgId::Old { n, v, s, commit: c }), b == written(PkgId::Old { n, v, s, commit: c }),
    ensures
        hasb(b, 0x20), first_at(b, 0x20, ln(n)), first_at(b.subrange(ln(n) + 1, ln(b)), 0x20, ln(v)),
        ln(b) == ln(n) + ln(v) + 4 + ln(s) + ln(commit(c)), hasb(b, 0x23) <==> c is Some, c is Some ==> last_at(b, 0x23, ln(n) + ln(v) + 3 + ln(s)),
        b[ln(n) + ln(v) + 3 + ln(s)] < 128, b[ln(n) + ln(v) + 2] == 0x28,
        b.subrange(0, ln(n)) == n, b.subrange(ln(n) + 1, ln(n) + 1 + ln(v)) == v, b.subrange(ln(n) + ln(v) + 3, ln(n) + ln(v) + 3 + ln(s)) == s,
{
    let (nl, vl, sl) = (ln(n), ln(v), ln(s)); let k = commit(c);
    assert forall|i: int| 0 <= i < nl implies #[trigger] b[i] == n[i] by {}
    assert forall|i: int| 0 <= i < vl implies b[nl + 1 + i] == #[trigger] v[i] by {}
    assert forall|i: int| 0 <= i < sl implies b[nl + vl + 3 + i] == #[trigger] s[i] by {}
    assert forall|i: int| 0 <= i < ln(k) implies b[nl + vl + 3 + sl + i] == #[trigger] k[i] by {}
    assert(b[nl] == 0x20 && b[nl + 1 + vl] == 0x20 && b[nl + vl + 2] == 0x28 && b[ln(b) - 1] == 0x29);
    let t = b.subrange(nl + 1, ln(b));
    assert forall|j: int| 0 <= j < vl implies #[trigger] t[j] != 0x20 by { assert(t[j] == v[j]); }
    assert(t[vl] == 0x20);
    assert(b.subrange(0, nl) =~= n); assert(b.subrange(nl + 1, nl + 1 + vl) =~= v); assert(b.subrange(nl + vl + 3, nl + vl + 3 + sl) =~= s);
    match c {
        Some(h) => {
            let p = nl + vl + 3 + sl;
            assert(k[0] == 0x23 && b[p] == 0x23);
            assert forall|j: int| p < j < ln(b) implies #[trigger] b[j] != 0x23 by { if j < ln(b) - 1 { assert(b[j] == k[j - p]); assert(k[j - p] == h[j - p - 1]); } }
        }
        None => { assert forall|j: int| 0 <= j < ln(b) implies #[trigger] b[j] != 0x23 by { if j < nl { assert(b[j] == n[j]); } else if nl < j <= nl + vl { assert(b[j] == v[j - nl - 1]); } else if nl + vl + 3 <= j < nl + vl + 3 + sl { assert(b[j] == s[j - nl - vl - 3]); } } }
    }
}
/// where everything is in a new id
proof fn new_facts(b: Seq<u8>, url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>, n: Option<Seq<u8>>, v: Seq<u8>)
    requires cargo_id(PkgId::New { url, q, n, v }), b == written(PkgId::New { url, q, n, v }),
    ensures
        !hasb(b, 0x20), last_at(url, 0x2f, last_slash(url)), last_at(b, 0x2f, last_slash(url)), starts(b, "git+"@.b_()) == is_git(url),
        ln(b) == ln(url) + ln(refer(q)) + 1 + ln(tail(n, v)), last_at(b, 0x23, ln(url) + ln(refer(q))),
        b.subrange(0, ln(url)) == url,
        b.subrange(ln(url) + ln(refer(q)) + 1, ln(b)) == tail(n, v),
        b.subrange(ln(url), ln(b)) == refer(q) + seq![0x23u8] + tail(n, v),
        ({ let f = b.subrange(ln(url) + ln(refer(q)), ln(b)); match n { Some(x) => first_at(f, 0x40, 1 + ln(x)) && f.subrange(1, 1 + ln(x)) == x && f.subrange(2 + ln(x), ln(f)) == v, None => !hasb(f, 0x40) } }),
        ({ let l = b.subrange(last_slash(url) + 1, ln(b)); match q { Some(x) => last_at(l, 0x3f, ln(url) - last_slash(url) - 1), None => !hasb(l, 0x3f) } }),
        !hasb(tail(n, v), 0x25), q is Some ==> b[ln(url)] == 0x3f && ln((q->0).0) <= ln((q->0).1), b[ln(url) + ln(refer(q))] == 0x23,
{
    lits(); slash(url, ln(url));
    let (ul, e, t) = (ln(url), refer(q), tail(n, v)); let el = ln(e); let sl = last_slash(url);
    assert forall|i: int| 0 <= i < ul implies #[trigger] b[i] == url[i] by {}
    assert forall|i: int| 0 <= i < el implies b[ul + i] == #[trigger] e[i] by {}
    assert forall|i: int| 0 <= i < ln(t) implies b[ul + el + 1 + i] == #[trigger] t[i] by {}
    assert(b[ul + el] == 0x23);
    if let Some(x) = q { enc_bytes(x.0, x.1); assert(e[0] == 0x3f); assert forall|i: int| 1 <= i < el implies #[trigger] e[i] == x.1[i - 1] by {} }
    assert forall|i: int| 0 <= i < ln(t) implies #[trigger] t[i] != 0x20 && t[i] != 0x23 && t[i] != 0x2f && t[i] != 0x3f && t[i] != 0x25 by {
        match n { Some(x) => { if i < ln(x) { assert(t[i] == x[i]); } else if i > ln(x) { assert(t[i] == v[i - ln(x) - 1]); } else { assert(t[i] == 0x40); } } None => { assert(t[i] == v[i]); } }
    }
    assert forall|i: int| 0 <= i < ln(b) implies #[trigger] b[i] != 0x20 by { if i < ul { assert(b[i] == url[i]); } else if i < ul + el { assert(b[i] == e[i - ul]); } else if i > ul + el { assert(b[i] == t[i - ul - el - 1]); } }
    assert forall|i: int| ul + el < i < ln(b) implies #[trigger] b[i] != 0x23 by { assert(b[i] == t[i - ul - el - 1]); }
    assert forall|i: int| sl < i < ln(b) implies #[trigger] b[i] != 0x2f by { if i < ul { assert(b[i] == url[i]); } else if i < ul + el { assert(b[i] == e[i - ul]); } else if i > ul + el { assert(b[i] == t[i - ul - el - 1]); } }
    assert(b[sl] == url[sl]);
    assert(b.subrange(0, ul) =~= url); assert(b.subrange(ul + el + 1, ln(b)) =~= t); assert(b.subrange(ul, ln(b)) =~= e + seq![0x23u8] + t);
    assert(b.subrange(0, 4) =~= url.subrange(0, 4));
    let f = b.subrange(ul + el, ln(b));
    assert(f[0] == 0x23); assert forall|i: int| 1 <= i < ln(f) implies #[trigger] f[i] == t[i - 1] by {}
    match n {
        Some(x) => {
            assert(f[1 + ln(x)] == 0x40); assert(f.subrange(1, 1 + ln(x)) =~= x); assert(f.subrange(2 + ln(x), ln(f)) =~= v);
            assert forall|j: int| 0 <= j < 1 + ln(x) implies #[trigger] f[j] != 0x40 by { if j > 0 { assert(f[j] == x[j - 1]); } }
        }
        None => { assert forall|j: int| 0 <= j < ln(f) implies #[trigger] f[j] != 0x40 by { if j > 0 { assert(f[j] == v[j - 1]); } } }
    }
    let l = b.subrange(sl + 1, ln(b)); let lc = last_comp(url);
    assert forall|j: int| 0 <= j < ln(l) && j != ul - sl - 1 implies #[trigger] l[j] != 0x3f by {
        if j < ul - sl - 1 { assert(l[j] == lc[j]); } else if j < ul - sl - 1 + el { assert(l[j] == e[j - (ul - sl - 1)]); } else if j > ul - sl - 1 + el { assert(l[j] == t[j - (ul - sl - 1) - el - 1]); }
    }
    if q is Some { assert(l[ul - sl - 1] == 0x3f); } else { assert(l[ul - sl - 1] == 0x23); }
}

proof fn around(s: Seq<char>, i: int) requires 0 <= i < encode_utf8(s).len(), encode_utf8(s)[i] < 128, ensures bdy(encode_utf8(s), i), bdy(encode_utf8(s), i + 1) { axiom_ascii_boundary(s, i); }
proof fn first_exists(b: Seq<u8>, c: u8, i: int) requires 0 <= i < b.len(), b[i] == c, ensures exists|j: int| first_at(b, c, j) decreases i
{ if exists|j: int| 0 <= j < i && b[j] == c { let j = choose|j: int| 0 <= j < i && b[j] == c; first_exists(b, c, j); } else { assert(first_at(b, c, i)); } }
proof fn settle(b: Seq<u8>, url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>, n: Option<Seq<u8>>, v: Seq<u8>)
    requires cargo_id(PkgId::New { url, q, n, v }), b == written(PkgId::New { url, q, n, v }),
    ensures
        escs(sub(b, ln(url))), b.subrange(0, ln(url)) + dec(sub(b, ln(url))) == decoded_id(url, q, n, v),
        !hasb(sub(b, ln(url)), 0x25) ==> b == decoded_id(url, q, n, v),
        hasb(sub(b, ln(url)), 0x25) ==> q is Some,
        ln(dec(sub(b, ln(url)))) == rawlen(q) + 1 + ln(tail(n, v)),
{
    new_facts(b, url, q, n, v);
    let s = sub(b, ln(url)); let y = seq![0x23u8] + tail(n, v);
    assert forall|i: int| 0 <= i < ln(y) implies #[trigger] y[i] != 0x25 by { if i > 0 { assert(y[i] == tail(n, v)[i - 1]); } }
    dec_none(y);
    match q {
        Some(x) => {
            assert(s =~= seq![0x3fu8] + (x.1 + y));
            dec_skip(s, 1); assert(s.subrange(1, ln(s)) =~= x.1 + y); dec_cat(x.0, x.1, y);
            assert(s.subrange(0, 1) =~= seq![0x3fu8]);
            assert(dec(s) =~= raw(q) + y);
        }
        None => { assert(s =~= y); assert(dec(s) =~= raw(q) + y); }
    }
    assert(url + dec(s) =~= decoded_id(url, q, n, v));
    if !hasb(s, 0x25) { dec_none(s); assert(b =~= url + s); }
}
/// the parts of the decoded id
proof fn parts_new(r: Seq<u8>, url: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>, n: Option<Seq<u8>>, v: Seq<u8>)
    requires cargo_id(PkgId::New { url, q, n, v }), r == decoded_id(url, q, n, v),
    ensures
        last_at(url, 0x2f, last_slash(url)),
        ln(r) == ref_at(url, q) + 1 + ln(tail(n, v)), r[ref_at(url, q)] == 0x23, r[last_slash(url)] == 0x2f,
        r[ln(url)] == 0x23 || r[ln(url)] == 0x3f,
        r.subrange(0, ref_at(url, q)) == source_of(PkgId::New { url, q, n, v }),
        match n {
            Some(x) => r[ref_at(url, q) + 1 + ln(x)] == 0x40 && ln(r) == ref_at(url, q) + 2 + ln(x) + ln(v)
                && r.subrange(ref_at(url, q) + 1, ref_at(url, q) + 1 + ln(x)) == x && r.subrange(ref_at(url, q) + 2 + ln(x), ln(r)) == v,
            None => r.subrange(last_slash(url) + 1, ln(url)) == last_comp(url) && r.subrange(ref_at(url, q) + 1, ln(r)) == v,
        },
{
    slash(url, ln(url));
    let p = ref_at(url, q); let w = raw(q); let t = tail(n, v);
    assert forall|i: int| 0 <= i < ln(url) implies #[trigger] r[i] == url[i] by {}
    assert forall|i: int| 0 <= i < ln(w) implies r[ln(url) + i] == #[trigger] w[i] by {}
    assert forall|i: int| 0 <= i < ln(t) implies r[p + 1 + i] == #[trigger] t[i] by {}
    assert(r[p] == 0x23);
    if q is Some { assert(w[0] == 0x3f); assert(r[ln(url)] == w[0]); }
    match q { Some(x) => { assert(r.subrange(0, p) =~= url + seq![0x3fu8] + x.0); } None => { assert(r.subrange(0, p) =~= url); } }
    match n {
        Some(x) => {
            assert(t[ln(x)] == 0x40); assert(r[p + 1 + ln(x)] == t[ln(x)]);
            assert forall|i: int| 0 <= i < ln(x) implies #[trigger] t[i] == x[i] by {}
            assert forall|i: int| 0 <= i < ln(v) implies t[ln(x) + 1 + i] == #[trigger] v[i] by {}
            assert(r.subrange(p + 1, p + 1 + ln(x)) =~= x); assert(r.subrange(p + 2 + ln(x), ln(r)) =~= v);
        }
        None => { assert(r.subrange(last_slash(url) + 1, ln(url)) =~= last_comp(url)); assert(r.subrange(p + 1, ln(r)) =~= v); }
    }
}
"""
M = STR + STRLEN + [("map_or", "*", "fn:vx_map_or"), ("push_str", "*", "vx_push_str"), ("push", "*", "vx_push"), ("truncate", "*", "vx_truncate"), ("get", "*", "vx_get")]
ALL = [h for c, h in codes()]
def key(h): return ord(h[0]) * 256 + ord(h[1])
def val(h): return int(h, 16)
ESC = "proof fn esc_cases(b: Seq<u8>) requires b.len() == 2, esc(b[0], b[1]), ensures key(b) >= 0, escv(b[0], b[1]) == escn(key(b)), " + " || ".join(f"key(b) == {key(h)}" for h in ALL) + " { reveal(key); }\n"
ESC += "pub open spec fn escn(k: int) -> u8 { " + " else ".join(f"if k == {key(h)} {{ {val(h)}u8 }}" for h in ALL) + " else { 0 } }\n"
E60 = "proof fn esc_lits() ensures " + ", ".join(f'key(encode_utf8("{h}"@)) == {key(h)}' for h in ALL) + " { reveal(key); " + " ".join(f'reveal_strlit("{h}"); is_ascii_chars_encode_utf8("{h}"@);' for h in ALL) + " }\n"
UNITS = [Unit("kid_from", ["C01"], prelude=["str", "iter", "order", "chars", "opt"], types=[Ty(L, "Kid")], spec=SPEC, lemmas=LEM + ESC + E60, fns=[
    Fn("unescape", L, "From<PackageId> for Kid::from", "fn unescape(encoding: &str) -> (r: char) requires encoding.b().len() == 2, esc(encoding.b()[0], encoding.b()[1]), ensures (r as u32) < 128, r as u8 == escv(encoding.b()[0], encoding.b()[1])",
       select="closure:#0;let:c", at={"start": "proof { esc_lits(); esc_cases(encoding.b()); }"}),
    Fn("decode", L, "From<PackageId> for Kid::from", "fn decode(encoded: &str, decoded: &mut String) requires escs(encoded.b()), ensures final(decoded).b() == old(decoded).b() + dec(encoded.b())",
       select="closure:#0;wloop:#0", cuts=[("let:c", "unescape(encoding)")], methods=M, eqs=False,
       attrs="#[verifier::loop_isolation(true)]",
       loops={0: """invariant_except_break escs(encoded.b()), decoded.b() + dec(encoded.b()) == want,
           ensures decoded.b() == want,
           decreases encoded.b().len()"""},
       at={"start": "let mut encoded = encoded; let ghost want = decoded.b() + dec(encoded.b());", "l0_start": """let ghost e0 = encoded.b(); let ghost d0 = decoded.b();
proof {
    axiom_len(encoded);
    if hasb(e0, 0x25) {
        let w = choose|i: int| 0 <= i < ln(e0) && e0[i] == 0x25; first_exists(e0, 0x25, w); let p = choose|j: int| first_at(e0, 0x25, j); dec_step(e0, p);
        axiom_ascii_boundary(encoded@, p); axiom_ascii_boundary(encoded@, p + 1); axiom_ascii_boundary(encoded@, p + 2);
    } else { dec_none(e0); }
}""",
           "l0_end": "proof { assert(decoded.b() =~= d0 + e0.subrange(0, pi as int).push(c as u8)); assert(decoded.b() + dec(encoded.b()) =~= d0 + dec(e0)); }"}),
    Fn("end_of", L, "From<PackageId> for Kid::from", """fn end_of(repr: &mut String, vxm: &mut usize, begin: usize, Ghost(url): Ghost<Seq<u8>>, Ghost(q): Ghost<Option<(Seq<u8>, Seq<u8>)>>, Ghost(n): Ghost<Option<Seq<u8>>>, Ghost(v): Ghost<Seq<u8>>) -> (r: usize)
    requires cargo_id(PkgId::New { url, q, n, v }), old(repr).b() == written(PkgId::New { url, q, n, v }), *old(vxm) == ln(url) + ln(refer(q)), begin == last_slash(url) + 1, begin <= isize::MAX,
    ensures final(repr).b() == decoded_id(url, q, n, v), *final(vxm) == ref_at(url, q), r == ln(url)""",
       select="closure:#0;let:end", cuts=[("wloop:#0", "decode(encoded, &mut decoded)")], methods=M, calls=[("String::new", "vx_string_new")], eqs=False,
       closures={0: "|vxp0: usize| -> (r: usize) requires vxp0 + begin <= usize::MAX, ensures r == vxp0 + begin"},
       pre="let mut vmn = *vxm;", final="*vxm = vmn;",
       at={"start": """proof {
    lits(); axiom_len(repr); new_facts(repr.b(), url, q, n, v); settle(repr.b(), url, q, n, v);
    axiom_ascii_boundary(repr@, last_slash(url)); axiom_ascii_boundary(repr@, ln(url));
}""", "let_end": "proof { assert(end == ln(url)); }", "tail": ""}),
    Fn("parts_of", L, "From<PackageId> for Kid::from", """fn parts_of(repr: &mut String, vxm: &mut usize, at: Option<usize>, is_git: bool, Ghost(url): Ghost<Seq<u8>>, Ghost(q): Ghost<Option<(Seq<u8>, Seq<u8>)>>, Ghost(n): Ghost<Option<Seq<u8>>>, Ghost(v): Ghost<Seq<u8>>) -> (r: Option<((usize, usize), (usize, usize))>)
    requires cargo_id(PkgId::New { url, q, n, v }), old(repr).b() == written(PkgId::New { url, q, n, v }), *old(vxm) == ln(url) + ln(refer(q)), is_git == crate::is_git(url),
        match n { Some(x) => at == Some((1 + ln(x)) as usize), None => at is None },
    ensures final(repr).b() == decoded_id(url, q, n, v), *final(vxm) == ref_at(url, q), r is Some, good(final(repr).b(), (r->0).0), good(final(repr).b(), (r->0).1),
        at_(final(repr).b(), (r->0).0) == name_of(PkgId::New { url, q, n, v }), at_(final(repr).b(), (r->0).1) == v""",
       select="closure:#0;let:name#1", cuts=[("let:end", "end_of(repr, &mut vmn, begin, Ghost(url), Ghost(q), Ghost(n), Ghost(v))")], methods=M, eqs=False, wrap="$HEADER {\nlet mut vmn = *vxm;\nlet vx_r = Some($BODY);\n*vxm = vmn; proof { axiom_len(repr); parts_new(repr.b(), url, q, n, v); around(repr@, ref_at(url, q)); around(repr@, last_slash(url)); around(repr@, ln(url)); if n is Some { around(repr@, ref_at(url, q) + 1 + ln(n->0)); } }\nvx_r }",
       at={"start": """proof {
    lits(); axiom_len(repr); new_facts(repr.b(), url, q, n, v); settle(repr.b(), url, q, n, v); if q is None { parts_new(repr.b(), url, q, n, v); }
}""", "let_end": "proof { axiom_len(repr); parts_new(repr.b(), url, q, n, v); }"}),
    Fn("parse", L, "From<PackageId> for Kid::from", "fn parse(repr: &mut String, Ghost(w): Ghost<PkgId>) -> (r: Option<[(usize, usize); 3]>) requires cargo_id(w), old(repr).b() == written(w), ensures r is Some, splits(final(repr).b(), r->0@, w)",
       select="closure:#0", cuts=[("let:name#1", "parts_of(repr, &mut vmn, at, is_git, Ghost(new_of(w).0), Ghost(new_of(w).1), Ghost(new_of(w).2), Ghost(new_of(w).3))?")], methods=M, eqs=False,
       at={"start": """hide(written); hide(cargo_id); hide(tail); hide(refer);
let ghost b0 = repr.b();
proof {
    lits(); axiom_len(repr);
    match w { PkgId::Old { n, v, s, commit: c } => { old_facts(b0, n, v, s, c); axiom_ascii_boundary(repr@, ln(n) + ln(v) + 2); } PkgId::New { url, q, n, v } => { new_facts(b0, url, q, n, v); } }
}""",
         "let_source": "proof { assert(good(b0, name) && good(b0, version) && good(b0, source)); assert(at_(b0, name) == name_of(w) && at_(b0, version) == version_of(w) && at_(b0, source) == source_of(w)); }",
         "let_components": "proof { match w { PkgId::New { url, q, n, v } => { parts_new(repr.b(), url, q, n, v); around(repr@, ref_at(url, q)); } _ => {} } }"}),
    Fn("from", L, "From<PackageId> for Kid::from", """fn from(pid: PackageId, Ghost(w): Ghost<PkgId>) -> (r: Kid)
    requires cargo_id(w), pid.repr.b() == written(w),
    ensures r.wf(), r.part(0) == name_of(w), r.part(1) == version_of(w), r.part(2) == source_of(w)""",
       eqs=False, drop_lets=["parse"], subst=[(r"parse\s*\(\)", "parse(&mut repr, Ghost(w))"), (r"\bSelf\b", "Kid")]),
], rlimit=60)]
