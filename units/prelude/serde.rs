// ---- prelude: serde's data model: documents, and what reading and writing them means
/// a JSON document; its objects keep their entries in the order they are written in
pub enum J { Null, Bool(bool), Num(int), Other(int), Str(Seq<char>), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
pub type Es = Seq<(Seq<char>, J)>;
pub open spec fn es(j: J) -> Es { j->Obj_0 }
/// what the last of the first n entries under a key says
pub open spec fn look(e: Es, n: int, k: Seq<char>) -> Option<J> decreases n { if n <= 0 { None } else if e[n - 1].0 == k { Some(e[n - 1].1) } else { look(e, n - 1, k) } }
pub open spec fn get(j: J, k: Seq<char>) -> Option<J> { look(es(j), es(j).len() as int, k) }
/// how many of the first n entries have a key
pub open spec fn count(e: Es, n: int, k: Seq<char>) -> int decreases n { if n <= 0 { 0 } else if e[n - 1].0 == k { count(e, n - 1, k) + 1 } else { count(e, n - 1, k) } }
/// the reader's error
#[verifier::external_body] pub struct Er { x: u64 }
/// how a type is read
pub trait De: Sized {
    /// the type accepts this document
    spec fn ok(j: J) -> bool;
    /// v is what the document says
    spec fn rd(j: J, v: Self) -> bool;
}
/// serde's Deserializer over a document; a text that stops being a document is not `whole`
#[verifier::external_body] pub struct Deser { x: u64 }
impl Deser {
    pub uninterp spec fn j(&self) -> J;
    pub uninterp spec fn whole(&self) -> bool;
}
pub trait DeX: De {
    fn deserialize(d: Deser) -> (r: Result<Self, Er>) ensures r is Ok <==> d.whole() && Self::ok(d.j()), r is Ok ==> Self::rd(d.j(), r->Ok_0);
}
/// serde's MapAccess
#[verifier::external_body] pub struct MapA { x: u64 }
impl MapA {
    pub uninterp spec fn e(&self) -> Es;
    pub uninterp spec fn whole(&self) -> bool;
    /// keys read so far
    pub uninterp spec fn n(&self) -> int;
    /// the value of the last key is still to be read
    pub uninterp spec fn open(&self) -> bool;
    #[verifier::external_body]
    pub fn next_key(&mut self) -> (r: Result<Option<CowX>, Er>)
        requires !old(self).open(), 0 <= old(self).n() <= old(self).e().len(),
        ensures
            final(self).e() == old(self).e(), final(self).whole() == old(self).whole(),
            r is Err ==> !old(self).whole(),
            r is Ok && r->Ok_0 is None ==> old(self).whole() && old(self).n() == old(self).e().len(),
            r is Ok && r->Ok_0 is Some ==> old(self).n() < old(self).e().len() && final(self).n() == old(self).n() + 1 && final(self).open() && (r->Ok_0)->0.t() == old(self).e()[old(self).n()].0,
    { unimplemented!() }
    /// the value's own `deserialize` on its part of the document
    #[verifier::external_body]
    pub fn next_value<T: DeX>(&mut self) -> (r: Result<T, Er>)
        requires old(self).open(), 0 < old(self).n() <= old(self).e().len(),
        ensures
            final(self).e() == old(self).e(), final(self).whole() == old(self).whole(), final(self).n() == old(self).n(), !final(self).open(),
            r is Err ==> !old(self).whole() || !T::ok(old(self).e()[old(self).n() - 1].1),
            r is Ok ==> T::ok(old(self).e()[old(self).n() - 1].1) && T::rd(old(self).e()[old(self).n() - 1].1, r->Ok_0),
    { unimplemented!() }
}
/// serde's Visitor, for maps
pub trait Vis: Sized {
    type Value: De;
    fn visit_map(self, map: MapA) -> (r: Result<Self::Value, Er>)
        requires map.n() == 0, !map.open(),
        ensures r is Ok <==> map.whole() && Self::Value::ok(J::Obj(map.e())), r is Ok ==> Self::Value::rd(J::Obj(map.e()), r->Ok_0);
}
impl Deser {
    /// the value is skipped
    #[verifier::external_body] pub fn deserialize_ignored_any(self, v: Ignore) -> (r: Result<Ignore, Er>) ensures r is Ok <==> self.whole() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entries(self) -> (r: Result<MapA, Er>) ensures r is Ok <==> self.j() is Obj, r is Ok ==> J::Obj(r->Ok_0.e()) == self.j() && r->Ok_0.whole() == self.whole() && r->Ok_0.n() == 0 && !r->Ok_0.open() { unimplemented!() }
    /// an object's entries go to the visitor, anything else is an error
    pub fn deserialize_map<V: Vis>(self, v: V) -> (r: Result<V::Value, Er>)
        ensures
            self.j() is Obj ==> (r is Ok <==> self.whole() && V::Value::ok(self.j())), !(self.j() is Obj) ==> r is Err,
            r is Ok ==> V::Value::rd(self.j(), r->Ok_0),
    { match self.vx_entries() { Ok(m) => v.visit_map(m), Err(e) => Err(e) } }
}
#[verifier::external_body] pub fn vx_err() -> (r: Er) { unimplemented!() }
#[verifier::external_body] pub fn vx_text() -> (r: String) { unimplemented!() }
pub fn vx_str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { vx_eq(a, b) }

// ---- serde's own readers
pub struct Ignore;
impl De for Ignore { open spec fn ok(j: J) -> bool { true } open spec fn rd(j: J, v: Ignore) -> bool { true } }
/// std's Cow of a str
#[verifier::external_body] pub struct CowX { x: u64 }
impl CowX {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
}
impl De for CowX { open spec fn ok(j: J) -> bool { j is Str } open spec fn rd(j: J, v: CowX) -> bool { j == J::Str(v.t()) } }
impl DeX for CowX { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl De for String { open spec fn ok(j: J) -> bool { j is Str } open spec fn rd(j: J, v: String) -> bool { j == J::Str(v@) } }
impl DeX for String { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl De for bool { open spec fn ok(j: J) -> bool { j is Bool } open spec fn rd(j: J, v: bool) -> bool { j == J::Bool(v) } }
impl DeX for bool { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl De for usize { open spec fn ok(j: J) -> bool { j is Num && 0 <= j->Num_0 <= usize::MAX } open spec fn rd(j: J, v: usize) -> bool { j == J::Num(v as int) } }
impl DeX for usize { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl<T: De> De for Option<T> { open spec fn ok(j: J) -> bool { j is Null || T::ok(j) } open spec fn rd(j: J, v: Option<T>) -> bool { if j is Null { v is None } else { v is Some && T::rd(j, v->0) } } }
impl<T: DeX> DeX for Option<T> { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl<T: De> De for Vec<T> {
    open spec fn ok(j: J) -> bool { j is Arr && forall|i: int| 0 <= i < j->Arr_0.len() ==> T::ok(#[trigger] j->Arr_0[i]) }
    open spec fn rd(j: J, v: Vec<T>) -> bool { j is Arr && v@.len() == j->Arr_0.len() && forall|i: int| 0 <= i < v@.len() ==> T::rd(j->Arr_0[i], #[trigger] v@[i]) }
}
impl<T: DeX> DeX for Vec<T> { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
/// semver's, as the text its own parser takes
impl De for Version { open spec fn ok(j: J) -> bool { j is Str && vparse(encode_utf8(j->Str_0)) is Some } open spec fn rd(j: J, v: Version) -> bool { j is Str && vparse(encode_utf8(j->Str_0)) == Some(v) } }
impl DeX for Version { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
pub uninterp spec fn rparse(t: Seq<char>) -> Option<VersionReq>;
impl De for VersionReq { open spec fn ok(j: J) -> bool { j is Str && rparse(j->Str_0) is Some } open spec fn rd(j: J, v: VersionReq) -> bool { j is Str && rparse(j->Str_0) == Some(v) } }
impl DeX for VersionReq { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
impl De for PathX { open spec fn ok(j: J) -> bool { j is Str } open spec fn rd(j: J, v: PathX) -> bool { j is Str && v.b() == encode_utf8(j->Str_0) } }
impl DeX for PathX { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
/// serde_json's Value is the document itself
impl serde_json::Value {
    pub uninterp spec fn doc(&self) -> J;
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.doc() is Null) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_null() -> (r: serde_json::Value) ensures r.doc() is Null { unimplemented!() }
impl De for serde_json::Value { open spec fn ok(j: J) -> bool { true } open spec fn rd(j: J, v: serde_json::Value) -> bool { j == v.doc() } }
impl DeX for serde_json::Value { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }
/// std's map: what it holds under each key
impl<V> BTreeMap<String, V> { pub uninterp spec fn at(&self) -> spec_fn(Seq<char>) -> Option<V>; }
impl<V: De> De for BTreeMap<String, V> {
    open spec fn ok(j: J) -> bool { j is Obj && forall|i: int| 0 <= i < es(j).len() ==> V::ok((#[trigger] es(j)[i]).1) }
    open spec fn rd(j: J, v: BTreeMap<String, V>) -> bool { j is Obj && forall|k: Seq<char>| #![trigger get(j, k)] #![trigger (v.at())(k)] match get(j, k) { Some(x) => (v.at())(k) is Some && V::rd(x, (v.at())(k)->0), None => (v.at())(k) is None } }
}
impl<V: DeX> DeX for BTreeMap<String, V> { #[verifier::external_body] fn deserialize(d: Deser) -> (r: Result<Self, Er>) { unimplemented!() } }

// ---- a struct's fields
/// every value under the key is one the type accepts
pub open spec fn vals<T: De>(e: Es, n: int, k: Seq<char>) -> bool decreases n { n <= 0 || (vals::<T>(e, n - 1, k) && (e[n - 1].0 == k ==> T::ok(e[n - 1].1))) }
/// a field without default so far
pub open spec fn so_req<T: De>(e: Es, n: int, k: Seq<char>, v: Option<T>) -> bool { vals::<T>(e, n, k) && match look(e, n, k) { Some(j) => v is Some && T::rd(j, v->0), None => v is None } }
/// a field with a default (d: the value is the default) so far
pub open spec fn so_opt<T: De>(e: Es, n: int, k: Seq<char>, v: T, d: bool) -> bool { vals::<T>(e, n, k) && match look(e, n, k) { Some(j) => T::rd(j, v), None => d } }
/// once a value is not accepted, the whole is not
pub proof fn vals_down<T: De>(e: Es, n: int, m: int, k: Seq<char>) requires 0 <= n <= m, vals::<T>(e, m, k), ensures vals::<T>(e, n, k) decreases m { if n < m { vals_down::<T>(e, n, m - 1, k); } }
/// what a required field of the document is
pub open spec fn has<T: De>(j: J, k: Seq<char>) -> bool { vals::<T>(es(j), es(j).len() as int, k) && get(j, k) is Some }
pub open spec fn may<T: De>(j: J, k: Seq<char>) -> bool { vals::<T>(es(j), es(j).len() as int, k) }
pub open spec fn must_rd<T: De>(j: J, k: Seq<char>, v: T) -> bool { match get(j, k) { Some(x) => T::rd(x, v), None => false } }
pub open spec fn may_rd<T: De>(j: J, k: Seq<char>, v: T, d: bool) -> bool { match get(j, k) { Some(x) => T::rd(x, v), None => d } }
