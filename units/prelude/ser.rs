// ---- prelude: serde's writing side
/// how a type is written
pub trait Se {
    /// j is a document of this value
    spec fn wr(&self, j: J) -> bool;
}
/// what a Serializer gives for a value
#[verifier::external_body] pub struct Out { x: u64 }
impl Out { pub uninterp spec fn j(&self) -> J; }
pub trait SeX: Se { fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) ensures r is Ok ==> self.wr(r->Ok_0.j()); }
#[verifier::external_body] pub struct Serz { x: u64 }
impl Serz {
    #[verifier::external_body] pub fn serialize_str(self, s: &str) -> (r: Result<Out, Er>) ensures r is Ok ==> r->Ok_0.j() == J::Str(s@) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_map(self, n: Option<usize>) -> (r: Result<MapS, Er>) ensures r is Ok ==> r->Ok_0.e() == Es::empty() { unimplemented!() }
}
/// serde's SerializeMap: the entries so far
#[verifier::external_body] pub struct MapS { x: u64 }
pub open spec fn g(e: Es, k: Seq<char>) -> Option<J> { look(e, e.len() as int, k) }
pub open spec fn c(e: Es, k: Seq<char>) -> int { count(e, e.len() as int, k) }
pub proof fn prefix(e: Es, x: (Seq<char>, J), n: int, k: Seq<char>) requires 0 <= n <= e.len(), ensures look(e.push(x), n, k) == look(e, n, k), count(e.push(x), n, k) == count(e, n, k) decreases n { if n > 0 { prefix(e, x, n - 1, k); assert(e.push(x)[n - 1] == e[n - 1]); } }
pub proof fn pushed(e: Es, x: (Seq<char>, J))
    ensures
        forall|k: Seq<char>| #[trigger] g(e.push(x), k) == if x.0 == k { Some(x.1) } else { g(e, k) },
        forall|k: Seq<char>| #[trigger] c(e.push(x), k) == c(e, k) + if x.0 == k { 1int } else { 0int },
{
    let f = e.push(x);
    assert(f[e.len() as int] == x && f.len() == e.len() + 1);
    assert forall|k: Seq<char>| #[trigger] g(f, k) == if x.0 == k { Some(x.1) } else { g(e, k) } by { prefix(e, x, e.len() as int, k); }
    assert forall|k: Seq<char>| #[trigger] c(f, k) == c(e, k) + if x.0 == k { 1int } else { 0int } by { prefix(e, x, e.len() as int, k); }
}
impl MapS {
    pub uninterp spec fn e(&self) -> Es;
    #[verifier::external_body]
    fn vx_push<T: SeX + ?Sized>(&mut self, k: &str, v: &T) -> (r: Result<Ghost<J>, Er>) ensures r is Ok ==> v.wr(r->Ok_0@) && final(self).e() == old(self).e().push((k@, r->Ok_0@)) { unimplemented!() }
    /// one more entry
    pub fn serialize_entry<T: SeX + ?Sized>(&mut self, k: &str, v: &T) -> (r: Result<(), Er>)
        ensures r is Ok ==> one_more(old(self).e(), final(self).e(), k@) && g(final(self).e(), k@) is Some && v.wr(g(final(self).e(), k@)->0),
    {
        let ghost e = self.e();
        match self.vx_push(k, v) { Ok(j) => { proof { pushed(e, (k@, j@)); } Ok(()) }, Err(x) => Err(x) }
    }
    #[verifier::external_body] pub fn end(self) -> (r: Result<Out, Er>) ensures r is Ok ==> r->Ok_0.j() == J::Obj(self.e()) { unimplemented!() }
}
pub open spec fn one_more(e: Es, f: Es, k: Seq<char>) -> bool {
    &&& forall|k2: Seq<char>| #![trigger g(f, k2)] k2 != k ==> g(f, k2) == g(e, k2)
    &&& forall|k2: Seq<char>| #![trigger c(f, k2)] c(f, k2) == c(e, k2) + if k2 == k { 1int } else { 0int }
}
/// a field: written once, under its key
pub open spec fn wrote<T: Se>(j: J, k: Seq<char>, v: T) -> bool { c(es(j), k) == 1 && g(es(j), k) is Some && v.wr(g(es(j), k)->0) }
pub open spec fn silent(j: J, k: Seq<char>) -> bool { c(es(j), k) == 0 && g(es(j), k) is None }
// ---- serde's own writers
impl Se for String { open spec fn wr(&self, j: J) -> bool { j == J::Str(self@) } }
impl SeX for String { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for bool { open spec fn wr(&self, j: J) -> bool { j == J::Bool(*self) } }
impl SeX for bool { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for usize { open spec fn wr(&self, j: J) -> bool { j == J::Num(*self as int) } }
impl SeX for usize { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl<T: Se> Se for Option<T> { open spec fn wr(&self, j: J) -> bool { match self { Some(x) => x.wr(j), None => j is Null } } }
impl<T: SeX> SeX for Option<T> { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl<T: Se> Se for Vec<T> { open spec fn wr(&self, j: J) -> bool { j is Arr && self@.len() == j->Arr_0.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).wr(j->Arr_0[i]) } }
impl<T: SeX> SeX for Vec<T> { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl<T: Se> Se for [T] { open spec fn wr(&self, j: J) -> bool { j is Arr && self@.len() == j->Arr_0.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).wr(j->Arr_0[i]) } }
impl<T: SeX> SeX for [T] { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for str { open spec fn wr(&self, j: J) -> bool { j == J::Str(self@) } }
impl SeX for str { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
/// semver's text of a version
pub uninterp spec fn vshow(v: Version) -> Seq<char>;
pub uninterp spec fn rshow(v: VersionReq) -> Seq<char>;
impl Se for Version { open spec fn wr(&self, j: J) -> bool { j == J::Str(vshow(*self)) } }
impl SeX for Version { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for VersionReq { open spec fn wr(&self, j: J) -> bool { j == J::Str(rshow(*self)) } }
impl SeX for VersionReq { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for PathX { open spec fn wr(&self, j: J) -> bool { j is Str && self.b() == encode_utf8(j->Str_0) } }
impl SeX for PathX { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl Se for serde_json::Value { open spec fn wr(&self, j: J) -> bool { j == self.doc() } }
impl SeX for serde_json::Value { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }
impl<V: Se> Se for BTreeMap<String, V> {
    /// an entry for each key
    open spec fn wr(&self, j: J) -> bool { j is Obj && forall|k: Seq<char>| #![trigger (self.at())(k)] #![trigger get(j, k)] match (self.at())(k) { Some(v) => count(es(j), es(j).len() as int, k) == 1 && get(j, k) is Some && v.wr(get(j, k)->0), None => get(j, k) is None && count(es(j), es(j).len() as int, k) == 0 } }
}
impl<V: SeX> SeX for BTreeMap<String, V> { #[verifier::external_body] fn serialize(&self, s: Serz) -> (r: Result<Out, Er>) { unimplemented!() } }

// ---- written and read back
impl BuildMetadata { pub uninterp spec fn empty(&self) -> bool; }
pub trait Io: De + Se {
    /// the values this is about
    spec fn good(&self) -> bool;
    /// equal, field by field
    spec fn same(&self, o: &Self) -> bool;
    /// never written as null
    spec fn nn() -> bool;
    proof fn back(v: &Self, j: J) requires v.good(), v.wr(j), ensures Self::ok(j), forall|w: Self| #[trigger] Self::rd(j, w) ==> v.same(&w), Self::nn() ==> !(j is Null);
}
/// assumed of semver: its parser reads what it displays; a version without pre-release and build parts is displayed as three numbers with two dots
#[verifier::external_body] pub proof fn axiom_semver(v: Version, r: VersionReq)
    ensures
        vparse(encode_utf8(vshow(v))) == Some(v), rparse(rshow(r)) == Some(r),
        v.pre.empty() && v.build.empty() ==> dots(vshow(v)) == 2 && forall|i: int| 0 <= i < vshow(v).len() ==> vshow(v)[i] != '-' && vshow(v)[i] != '+'
{ }
impl Io for String { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { self@ == o@ } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { } }
impl Io for bool { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { *self == *o } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { } }
impl Io for usize { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { *self == *o } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { } }
impl Io for PathX { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { self.b() == o.b() } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { } }
impl Io for serde_json::Value { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { self.doc() == o.doc() } open spec fn nn() -> bool { false } proof fn back(v: &Self, j: J) { } }
impl Io for Version { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { *self == *o } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { axiom_semver(*v, arbitrary()); } }
impl Io for VersionReq { open spec fn good(&self) -> bool { true } open spec fn same(&self, o: &Self) -> bool { *self == *o } open spec fn nn() -> bool { true } proof fn back(v: &Self, j: J) { axiom_semver(arbitrary(), *v); } }
impl<T: Io> Io for Option<T> {
    open spec fn good(&self) -> bool { T::nn() && (self is Some ==> self->0.good()) }
    open spec fn same(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } }
    open spec fn nn() -> bool { false }
    proof fn back(v: &Self, j: J) { if v is Some { T::back(&v->0, j); } }
}
impl<T: Io> Io for Vec<T> {
    open spec fn good(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).good() }
    open spec fn same(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&o@[i]) }
    open spec fn nn() -> bool { true }
    proof fn back(v: &Self, j: J) {
        let a = j->Arr_0;
        assert forall|i: int| 0 <= i < a.len() implies T::ok(#[trigger] a[i]) by { assert(v@[i].wr(a[i])); T::back(&v@[i], a[i]); }
        assert forall|w: Self| #[trigger] Self::rd(j, w) implies v.same(&w) by {
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).same(&w@[i]) by { assert(v@[i].wr(a[i])); T::back(&v@[i], a[i]); assert(T::rd(a[i], w@[i])); }
        }
    }
}
impl<V: Io> Io for BTreeMap<String, V> {
    open spec fn good(&self) -> bool { forall|k: Seq<char>| #[trigger] (self.at())(k) is Some ==> (self.at())(k)->0.good() }
    open spec fn same(&self, o: &Self) -> bool { forall|k: Seq<char>| #![trigger (self.at())(k)] #![trigger (o.at())(k)] match ((self.at())(k), (o.at())(k)) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } }
    open spec fn nn() -> bool { true }
    proof fn back(v: &Self, j: J) {
        let e = es(j);
        assert forall|i: int| 0 <= i < e.len() implies V::ok((#[trigger] e[i]).1) by {
            let k = e[i].0;
            counted(e, e.len() as int, k, i);
            assert(get(j, k) is Some);
            V::back(&(v.at())(k)->0, get(j, k)->0);
        }
        assert forall|w: Self| #[trigger] Self::rd(j, w) implies v.same(&w) by {
            assert forall|k: Seq<char>| match (#[trigger] (v.at())(k), (w.at())(k)) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } by {
                let x = get(j, k);
                if (v.at())(k) is Some { V::back(&(v.at())(k)->0, x->0); assert(V::rd(x->0, (w.at())(k)->0)); } else { assert(x is None); }
            }
            assert forall|k: Seq<char>| match ((v.at())(k), #[trigger] (w.at())(k)) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } by { let x = (v.at())(k); }
        }
    }
}
/// an entry under a key that is there once is the one found
pub proof fn counted(e: Es, n: int, k: Seq<char>, i: int) requires 0 <= i < n <= e.len(), e[i].0 == k, ensures count(e, n, k) >= 1, count(e, n, k) == 1 ==> look(e, n, k) == Some(e[i].1) decreases n
{ count_pos(e, n - 1, k); if i < n - 1 { counted(e, n - 1, k, i); } }
pub proof fn count_pos(e: Es, n: int, k: Seq<char>) ensures count(e, n, k) >= 0 decreases n { if n > 0 { count_pos(e, n - 1, k); } }
/// all values under the key are accepted when there is at most one, and it is
pub proof fn vals_one<T: De>(e: Es, n: int, k: Seq<char>) requires count(e, n, k) <= 1, look(e, n, k) is Some ==> T::ok(look(e, n, k)->0), ensures vals::<T>(e, n, k) decreases n
{ if n > 0 { count_pos(e, n - 1, k); if e[n - 1].0 == k { vals_none::<T>(e, n - 1, k); } else { vals_one::<T>(e, n - 1, k); } } }
pub proof fn vals_none<T: De>(e: Es, n: int, k: Seq<char>) requires count(e, n, k) <= 0, ensures vals::<T>(e, n, k) decreases n { if n > 0 { count_pos(e, n - 1, k); vals_none::<T>(e, n - 1, k); } }
