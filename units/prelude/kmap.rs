// ---- prelude: std's BTreeMap with keys `&Kid`, by the identifier's three parts; BTreeSet<usize>
pub type KKey = (Seq<u8>, Seq<u8>, Seq<u8>);
pub open spec fn kkey(k: &Kid) -> KKey { (k.part(0), k.part(1), k.part(2)) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct KMap<'p, V> { x: Vec<(&'p Kid, V)> }
impl<'p, V> KMap<'p, V> {
    pub uninterp spec fn m(&self) -> Map<KKey, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<KKey, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_get(&self, k: &Kid) -> (r: Option<&V>) requires k.wf(), ensures r is Some <==> self.m().contains_key(kkey(k)), r is Some ==> *r->0 == self.m()[kkey(k)] { unimplemented!() }
    #[verifier::external_body] pub fn vx_get_mut(&mut self, k: &Kid) -> (r: Option<&mut V>) requires k.wf(),
        ensures r is Some <==> old(self).m().contains_key(kkey(k)), r is None ==> final(self).m() == old(self).m(), r is Some ==> *r->0 == old(self).m()[kkey(k)] && final(self).m() == old(self).m().insert(kkey(k), *final(r->0)) { unimplemented!() }
    /// `entry(k).or_insert_with(f)`
    #[verifier::external_body] pub fn vx_entry_or<F: FnOnce() -> V>(&mut self, k: &'p Kid, f: F) -> (r: &mut V) requires k.wf(), !old(self).m().contains_key(kkey(k)) ==> f.requires(()),
        ensures old(self).m().contains_key(kkey(k)) ==> *r == old(self).m()[kkey(k)], !old(self).m().contains_key(kkey(k)) ==> f.ensures((), *r), final(self).m() == old(self).m().insert(kkey(k), *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Kid) -> (r: Option<V>) requires k.wf(),
        ensures r is Some <==> old(self).m().contains_key(kkey(k)), r is Some ==> r->0 == old(self).m()[kkey(k)], final(self).m() == old(self).m().remove(kkey(k)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_extend(&mut self, s: It<(&'p Kid, V)>) requires s.i() == 0, forall|i: int| 0 <= i < s.s().len() ==> (#[trigger] s.s()[i]).0.wf(),
        ensures
            forall|k: KKey| #[trigger] final(self).m().contains_key(k) <==> old(self).m().contains_key(k) || exists|i: int| 0 <= i < s.s().len() && kkey((#[trigger] s.s()[i]).0) == k,
            forall|k: KKey| #[trigger] final(self).m().contains_key(k) ==> (exists|i: int| 0 <= i < s.s().len() && kkey((#[trigger] s.s()[i]).0) == k && final(self).m()[k] == s.s()[i].1) || (old(self).m().contains_key(k) && final(self).m()[k] == old(self).m()[k] && forall|i: int| 0 <= i < s.s().len() ==> kkey((#[trigger] s.s()[i]).0) != k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, k: &Kid) -> (r: &V) requires k.wf(), self.m().contains_key(kkey(k)), ensures *r == self.m()[kkey(k)] { unimplemented!() }
    /// (a map that fits in memory has fewer than 2^31 entries)
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r < 0x8000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() =~= Map::<KKey, V>::empty()) { unimplemented!() }
    /// what consuming the map yields: each entry once
    pub uninterp spec fn listing(self) -> Seq<(&'p Kid, V)>;
    pub open spec fn listed(self) -> bool {
        &&& forall|i: int| 0 <= i < self.listing().len() ==> (#[trigger] self.listing()[i]).0.wf() && self.m().contains_key(kkey(self.listing()[i].0)) && self.listing()[i].1 == self.m()[kkey(self.listing()[i].0)]
        &&& forall|k: KKey| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < self.listing().len() && kkey((#[trigger] self.listing()[i]).0) == k
        &&& forall|i: int, j: int| 0 <= i < j < self.listing().len() ==> kkey((#[trigger] self.listing()[i]).0) != kkey((#[trigger] self.listing()[j]).0)
    }
    #[verifier::external_body] pub proof fn axiom_listed(self) ensures self.listed() { }
}
impl<'p, V> VxInto for KMap<'p, V> { type T = (&'p Kid, V); open spec fn vseq(self) -> Seq<(&'p Kid, V)> { self.listing() } }
impl<'p> KMap<'p, SetX<usize>> {
    /// `entry(k).or_default()`
    #[verifier::external_body] pub fn vx_entry_default(&mut self, k: &'p Kid) -> (r: &mut SetX<usize>) requires k.wf(),
        ensures old(self).m().contains_key(kkey(k)) ==> *r == old(self).m()[kkey(k)], !old(self).m().contains_key(kkey(k)) ==> r@ == Set::<usize>::empty(), final(self).m() == old(self).m().insert(kkey(k), *final(r)) { unimplemented!() }
}
pub open spec fn lists(s: Seq<usize>, t: Set<usize>) -> bool { (forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i])) && forall|x: usize| #[trigger] t.contains(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
impl SetX<usize> {
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: It<&usize>) ensures r.i() == 0, r.wf(), forall|i: int| 0 <= i < r.s().len() ==> self@.contains(*#[trigger] r.s()[i]), forall|x: usize| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < r.s().len() && *#[trigger] r.s()[i] == x { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, o: &mut SetX<usize>) ensures final(self)@ == old(self)@.union(old(o)@), final(o)@ == Set::<usize>::empty() { unimplemented!() }
    pub uninterp spec fn listing(self) -> Seq<usize>;
    #[verifier::external_body] pub proof fn axiom_listed(self) ensures lists(self.listing(), self@) { }
}
impl VxInto for SetX<usize> { type T = usize; open spec fn vseq(self) -> Seq<usize> { self.listing() } }
/// std's BTreeSet<&Kid>
#[verifier::external_body]
pub struct KSet<'p> { x: Vec<&'p Kid> }
impl<'p> KSet<'p> {
    pub uninterp spec fn m(&self) -> Set<KKey>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Set::<KKey>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &'p Kid) -> (r: bool) requires k.wf(), ensures final(self).m() == old(self).m().insert(kkey(k)), r == !old(self).m().contains(kkey(k)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_kcontains(&self, k: &&Kid) -> (r: bool) requires k.wf(), ensures r == self.m().contains(kkey(*k)) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() =~= Set::<KKey>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r < 0x8000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn vx_kextend(&mut self, s: It<&'p Kid>) requires s.i() == 0, forall|i: int| 0 <= i < s.s().len() ==> (#[trigger] s.s()[i]).wf(),
        ensures forall|k: KKey| #[trigger] final(self).m().contains(k) <==> old(self).m().contains(k) || exists|i: int| 0 <= i < s.s().len() && kkey(#[trigger] s.s()[i]) == k { unimplemented!() }
    /// iterating: each member
    pub uninterp spec fn keys(&self) -> Seq<&'p Kid>;
    pub open spec fn listed(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.keys().len() ==> (#[trigger] self.keys()[i]).wf() && self.m().contains(kkey(self.keys()[i]))
        &&& forall|k: KKey| #[trigger] self.m().contains(k) ==> exists|i: int| 0 <= i < self.keys().len() && kkey(#[trigger] self.keys()[i]) == k
    }
    #[verifier::external_body] pub proof fn axiom_listed(&self) ensures self.listed() { }
}
impl<'a, 'p> VxInto for &'a KSet<'p> { type T = &'a &'p Kid; open spec fn vseq(self) -> Seq<&'a &'p Kid> { refs(self.keys()) } }
