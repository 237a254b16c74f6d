// ---- prelude: std's BTreeMap with String keys
/// the characters of each string of a list
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl<V> BTreeMap<String, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn vx_get<K: CharsX + ?Sized>(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.m().contains_key(k.cs()), r is Some ==> *r->0 == self.m()[k.cs()] { unimplemented!() }
    #[verifier::external_body] pub fn vx_contains_key<K: CharsX + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.cs()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
    /// what iterating yields: each entry once, by key
    pub uninterp spec fn entries<'a>(&self) -> Seq<(&'a String, &'a V)>;
    pub open spec fn listed(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.entries().len() ==> self.m().contains_key((#[trigger] self.entries()[i]).0@) && *self.entries()[i].1 == self.m()[self.entries()[i].0@]
        &&& forall|k: Seq<char>| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < self.entries().len() && (#[trigger] self.entries()[i]).0@ == k
    }
    #[verifier::external_body] pub proof fn axiom_listed(&self) ensures self.listed() { }
    #[verifier::external_body] pub fn vx_values(&self) -> (r: It<&V>) ensures r.i() == 0, r.wf(), r.s().len() == self.entries().len(), forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == self.entries()[i].1, self.listed() { unimplemented!() }
}
impl<'a, V> VxInto for &'a BTreeMap<String, V> { type T = (&'a String, &'a V); open spec fn vseq(self) -> Seq<(&'a String, &'a V)> { self.entries() } }
pub trait CloneS: Sized { fn vx_clone(&self) -> (r: Self) ensures self.cl(&r); spec fn cl(&self, r: &Self) -> bool; }
impl CloneS for String { open spec fn cl(&self, r: &Self) -> bool { self@ == r@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneS for Vec<String> { open spec fn cl(&self, r: &Self) -> bool { texts(self@) == texts(r@) } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
/// a list of lists, flattened
pub open spec fn concat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() } }
pub open spec fn seqs<J: VxInto>(s: Seq<J>) -> Seq<Seq<J::T>> { Seq::new(s.len(), |i: int| s[i].vseq()) }
pub trait FlatX<T>: VxInto<T = T> {
    fn vx_flat_map<J: VxInto, F: Fn(T) -> J>(self, f: F) -> (r: It<J::T>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures r.i() == 0, r.wf(), exists|js: Seq<J>| js.len() == self.vseq().len() && r.s() == #[trigger] concat(seqs(js)) && forall|i: int| #![trigger js[i]] 0 <= i < js.len() ==> f.ensures((self.vseq()[i],), js[i]);
}
impl<T, I: VxInto<T = T>> FlatX<T> for I { #[verifier::external_body] fn vx_flat_map<J: VxInto, F: Fn(T) -> J>(self, f: F) -> (r: It<J::T>) { unimplemented!() } }
/// x is in one of the lists
pub open spec fn has2<T>(s: Seq<Seq<T>>, x: T) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() && #[trigger] s[i][j] == x }
pub proof fn concat_elem<T>(s: Seq<Seq<T>>)
    ensures
        forall|k: int| #![trigger concat(s)[k]] 0 <= k < concat(s).len() ==> has2(s, concat(s)[k]),
        forall|i: int, j: int| #![trigger s[i][j]] 0 <= i < s.len() && 0 <= j < s[i].len() ==> concat(s).contains(s[i][j]),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last(); let n = s.len() - 1; let c = concat(p);
        concat_elem(p);
        assert forall|k: int| #![trigger concat(s)[k]] 0 <= k < concat(s).len() implies has2(s, concat(s)[k]) by {
            if k < c.len() { assert(has2(p, c[k])); let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].len() && #[trigger] p[i][j] == c[k]; assert(s[i][j] == concat(s)[k]); }
            else { assert(s[n][k - c.len()] == concat(s)[k]); }
        }
        assert forall|i: int, j: int| #![trigger s[i][j]] 0 <= i < s.len() && 0 <= j < s[i].len() implies concat(s).contains(s[i][j]) by {
            if i < n { assert(p[i][j] == s[i][j]); assert(c.contains(p[i][j])); let k = choose|k: int| 0 <= k < c.len() && #[trigger] c[k] == p[i][j]; assert(concat(s)[k] == s[i][j]); }
            else { assert(concat(s)[c.len() + j] == s[i][j]); }
        }
    }
}
