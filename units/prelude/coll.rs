// ---- prelude: BTreeSet / BTreeMap stand-ins, slices
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SetX<T> { x: Vec<T> }
impl<T> View for SetX<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> SetX<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
}
pub trait SliceX<T> {
    spec fn sl(&self) -> Seq<T>;
    fn vx_range_to(&self, j: usize) -> (r: &[T]) requires j <= self.sl().len(), ensures r@ == self.sl().subrange(0, j as int);
    fn vx_range_from(&self, i: usize) -> (r: &[T]) requires i <= self.sl().len(), ensures r@ == self.sl().subrange(i as int, self.sl().len() as int);
    fn vx_range(&self, i: usize, j: usize) -> (r: &[T]) requires i <= j <= self.sl().len(), ensures r@ == self.sl().subrange(i as int, j as int);
    fn vx_iter(&self) -> (r: It<&T>) ensures r.i() == 0, r.wf(), r.s() == refs(self.sl());
    fn vx_bsearch<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires
            forall|i: int| 0 <= i < self.sl().len() ==> #[trigger] f.requires((&self.sl()[i],)),
            // sortedness of the searched sequence is an obligation of the caller
            forall|i: int, j: int, x: Ordering, y: Ordering| 0 <= i < j < self.sl().len() && #[trigger] f.ensures((&self.sl()[i],), x) && #[trigger] f.ensures((&self.sl()[j],), y) ==> ord_le(x, y),
        ensures
            match r {
                Ok(i) => i < self.sl().len() && f.ensures((&self.sl()[i as int],), Ordering::Equal),
                Err(i) => i <= self.sl().len() && (forall|j: int| #![trigger self.sl()[j]] 0 <= j < i ==> f.ensures((&self.sl()[j],), Ordering::Less)) && (forall|j: int| #![trigger self.sl()[j]] i <= j < self.sl().len() ==> f.ensures((&self.sl()[j],), Ordering::Greater)),
            };
}
pub open spec fn ord_le(x: Ordering, y: Ordering) -> bool { x == Ordering::Less || y == Ordering::Greater || (x == Ordering::Equal && y == Ordering::Equal) }
impl<T> SliceX<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_range_to(&self, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_from(&self, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, i: usize, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_bsearch<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
impl<T> SliceX<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_range_to(&self, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_from(&self, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, i: usize, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_bsearch<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
// ---- lazy adapters
pub open spec fn flat<U>(o: Seq<Option<U>>) -> Seq<U>
    decreases o.len(),
{ if o.len() == 0 { Seq::empty() } else { let r = flat(o.drop_last()); match o.last() { Some(x) => r.push(x), None => r } } }
pub open spec fn enumd<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub trait FromIt<T>: Sized { spec fn from_it(s: Seq<T>, r: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it(s: Seq<T>, r: Self) -> bool { r@ == s } }
pub trait AdX<T>: VxInto<T = T> {
    fn vx_enumerate(self) -> (r: It<(usize, T)>) ensures r.i() == 0, r.wf(), r.s() == enumd(self.vseq());
    fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures r.i() == 0, r.wf(), exists|o: Seq<Option<U>>| o.len() == self.vseq().len() && r.s() == flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> f.ensures((self.vseq()[i],), o[i]);
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures r.i() == 0, r.wf(), r.s().len() == self.vseq().len(), forall|i: int| 0 <= i < r.s().len() ==> f.ensures((self.vseq()[i],), #[trigger] r.s()[i]);
    fn vx_find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures
            self.vseq().len() >= 0,
            match r {
                Some(u) => exists|i: int| 0 <= i < self.vseq().len() && #[trigger] f.ensures((self.vseq()[i],), Some(u)) && forall|j: int| #![trigger self.vseq()[j]] 0 <= j < i ==> f.ensures((self.vseq()[j],), None),
                None => forall|j: int| #![trigger self.vseq()[j]] 0 <= j < self.vseq().len() ==> f.ensures((self.vseq()[j],), None),
            };
    fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures
            self.vseq().len() >= 0,
            r ==> exists|i: int| 0 <= i < self.vseq().len() && #[trigger] f.ensures((self.vseq()[i],), true),
            !r ==> forall|i: int| #![trigger self.vseq()[i]] 0 <= i < self.vseq().len() ==> f.ensures((self.vseq()[i],), false);
    fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((self.vseq()[i],)),
        ensures
            self.vseq().len() >= 0,
            !r ==> exists|i: int| 0 <= i < self.vseq().len() && #[trigger] f.ensures((self.vseq()[i],), false),
            r ==> forall|i: int| #![trigger self.vseq()[i]] 0 <= i < self.vseq().len() ==> f.ensures((self.vseq()[i],), true);
    fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((&self.vseq()[i],)),
        ensures r.i() == 0, r.wf(),
            exists|o: Seq<bool>| o.len() == self.vseq().len() && r.s() == #[trigger] kept(self.vseq(), o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> f.ensures((&self.vseq()[i],), o[i]);
    fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.vseq().len() ==> #[trigger] f.requires((&self.vseq()[i],)),
        ensures
            match r {
                Some(u) => exists|i: int| 0 <= i < self.vseq().len() && #[trigger] self.vseq()[i] == u && f.ensures((&self.vseq()[i],), true) && forall|j: int| #![trigger self.vseq()[j]] 0 <= j < i ==> f.ensures((&self.vseq()[j],), false),
                None => forall|j: int| #![trigger self.vseq()[j]] 0 <= j < self.vseq().len() ==> f.ensures((&self.vseq()[j],), false),
            };
    fn vx_count(self) -> (r: usize) ensures r == self.vseq().len();
    fn vx_collect<C: FromIt<T>>(self) -> (r: C) ensures C::from_it(self.vseq(), r);
}
/// the elements whose mark is true
pub open spec fn kept<T>(s: Seq<T>, o: Seq<bool>) -> Seq<T>
    decreases o.len(),
{ if o.len() == 0 { Seq::empty() } else { let r = kept(s, o.drop_last()); if o.last() { r.push(s[o.len() - 1]) } else { r } } }
impl<T, I: VxInto<T = T>> AdX<T> for I {
    #[verifier::external_body] fn vx_enumerate(self) -> (r: It<(usize, T)>) { unimplemented!() }
    #[verifier::external_body] fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_collect<C: FromIt<T>>(self) -> (r: C) { unimplemented!() }
}
pub proof fn kept_len<T>(s: Seq<T>, o: Seq<bool>)
    requires o.len() <= s.len(),
    ensures
        kept(s, o).len() > 0 <==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i],
        kept(s, o).len() > 1 <==> exists|i: int, j: int| 0 <= i < j < o.len() && #[trigger] o[i] && #[trigger] o[j],
        kept(s, o).len() <= o.len(),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        kept_len(s, p);
        let n = o.len() - 1;
        assert(forall|i: int| 0 <= i < n ==> p[i] == o[i]);
        if kept(s, p).len() > 0 { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i]; assert(o[i]); if o[n] { assert(o[i] && o[n]); } }
        if kept(s, p).len() > 1 { let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && #[trigger] p[i] && #[trigger] p[j]; assert(o[i] && o[j]); }
        if exists|i: int| 0 <= i < o.len() && #[trigger] o[i] { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i]; if i < n { assert(p[i]); } }
        if exists|i: int, j: int| 0 <= i < j < o.len() && #[trigger] o[i] && #[trigger] o[j] { let (i, j) = choose|i: int, j: int| 0 <= i < j < o.len() && #[trigger] o[i] && #[trigger] o[j]; assert(p[i]); if j < n { assert(p[j]); } }
    }
}
/// if every output is given by h, the yielded sequence is the filtered map by h
pub open spec fn fmap<T, U>(s: Seq<T>, h: spec_fn(T) -> Option<U>) -> Seq<U> { flat(Seq::new(s.len(), |i: int| h(s[i]))) }
pub proof fn flat_is<T, U>(s: Seq<T>, o: Seq<Option<U>>, h: spec_fn(T) -> Option<U>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == h(s[i]),
    ensures flat(o) == fmap(s, h),
{ assert(o =~= Seq::new(s.len(), |i: int| h(s[i]))); }

pub broadcast proof fn flat_all<U>(o: Seq<Option<U>>)
    requires forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) is Some,
    ensures #![trigger flat(o)] flat(o).len() == o.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] flat(o)[i] == o[i]->0,
    decreases o.len(),
{ if o.len() > 0 { flat_all(o.drop_last()); } }
// ---- stacks
pub broadcast proof fn pop_contains<T>(s: Seq<T>, n: int, a: T)
    requires n == s.len() - 1, n >= 0,
    ensures #![trigger s.subrange(0, n), s.contains(a)] #![trigger s.subrange(0, n).contains(a)] s.contains(a) <==> a == s[n] || s.subrange(0, n).contains(a),
{ assert(s.contains(s[n])); if s.subrange(0, n).contains(a) { let q = choose|q: int| 0 <= q < n && s.subrange(0, n)[q] == a; assert(s[q] == a); } if s.contains(a) { let q = choose|q: int| 0 <= q < s.len() && s[q] == a; if q < n { assert(s.subrange(0, n)[q] == a); } } }
pub broadcast proof fn push_contains<T>(s: Seq<T>, b: T, a: T)
    ensures #![trigger s.push(b).contains(a)] #![trigger s.push(b), s.contains(a)] s.push(b).contains(a) <==> s.contains(a) || a == b,
{
    if s.contains(a) { let q = choose|q: int| 0 <= q < s.len() && s[q] == a; assert(s.push(b)[q] == a); }
    if a == b { assert(s.push(b)[s.len() as int] == a); }
    if s.push(b).contains(a) { let q = choose|q: int| 0 <= q <= s.len() && s.push(b)[q] == a; if q < s.len() { assert(s[q] == a); } }
}
pub broadcast group stacks { pop_contains, push_contains }
/// a trigger
pub open spec fn mk<T>(a: T) -> bool { true }
/// what is in a filtered map
pub proof fn flat_elem<U>(o: Seq<Option<U>>)
    ensures
        forall|j: int| 0 <= j < flat(o).len() ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(#[trigger] flat(o)[j]),
        forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> exists|j: int| 0 <= j < flat(o).len() && #[trigger] flat(o)[j] == o[i]->0,
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        flat_elem(p);
        assert forall|j: int| 0 <= j < flat(o).len() implies exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(#[trigger] flat(o)[j]) by {
            if j < flat(p).len() { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == Some(flat(p)[j]); assert(o[i] == Some(flat(o)[j])); }
            else { assert(o[o.len() - 1] == Some(flat(o)[j])); }
        }
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies exists|j: int| 0 <= j < flat(o).len() && #[trigger] flat(o)[j] == o[i]->0 by {
            if i < p.len() { assert(p[i] is Some); let j = choose|j: int| 0 <= j < flat(p).len() && #[trigger] flat(p)[j] == p[i]->0; assert(flat(o)[j] == o[i]->0); }
            else { assert(flat(o)[flat(o).len() - 1] == o[i]->0); }
        }
    }
}
pub proof fn fmap_elem<T, U>(s: Seq<T>, h: spec_fn(T) -> Option<U>)
    ensures
        forall|j: int| 0 <= j < fmap(s, h).len() ==> exists|i: int| 0 <= i < s.len() && h(#[trigger] s[i]) == Some(#[trigger] fmap(s, h)[j]),
        forall|i: int| 0 <= i < s.len() && h(#[trigger] s[i]) is Some ==> exists|j: int| 0 <= j < fmap(s, h).len() && #[trigger] fmap(s, h)[j] == h(s[i])->0,
{
    let o = Seq::new(s.len(), |i: int| h(s[i]));
    flat_elem(o);
    assert forall|j: int| 0 <= j < fmap(s, h).len() implies exists|i: int| 0 <= i < s.len() && h(#[trigger] s[i]) == Some(#[trigger] fmap(s, h)[j]) by {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]);
        assert(h(s[i]) == o[i]);
    }
    assert forall|i: int| 0 <= i < s.len() && h(#[trigger] s[i]) is Some implies exists|j: int| 0 <= j < fmap(s, h).len() && #[trigger] fmap(s, h)[j] == h(s[i])->0 by { assert(o[i] is Some); }
}
