// ---- prelude: iterators as the sequence they will yield
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { x: Vec<T> }
impl<T> It<T> {
    /// everything the iterator yields, from its creation on
    pub uninterp spec fn s(&self) -> Seq<T>;
    /// how many of these were taken
    pub uninterp spec fn i(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.i() <= self.s().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).s() == old(self).s(), final(self).wf(),
            old(self).i() < old(self).s().len() ==> r == Some(old(self).s()[old(self).i()]) && final(self).i() == old(self).i() + 1,
            old(self).i() >= old(self).s().len() ==> r.is_none() && final(self).i() == old(self).i(),
    { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VxInto: Sized {
    type T;
    spec fn vseq(self) -> Seq<Self::T>;
}
impl<T> VxInto for It<T> { type T = T; open spec fn vseq(self) -> Seq<T> { self.s() } }
impl<T> VxInto for [T; 3] { type T = T; open spec fn vseq(self) -> Seq<T> { self@ } }
impl<T> VxInto for [T; 2] { type T = T; open spec fn vseq(self) -> Seq<T> { self@ } }
impl<T> VxInto for Vec<T> { type T = T; open spec fn vseq(self) -> Seq<T> { self@ } }
impl<'a, T> VxInto for &'a Vec<T> { type T = &'a T; open spec fn vseq(self) -> Seq<&'a T> { refs(self@) } }
impl<'a, T> VxInto for &'a [T] { type T = &'a T; open spec fn vseq(self) -> Seq<&'a T> { refs(self@) } }
impl VxInto for core::ops::Range<usize> { type T = usize; open spec fn vseq(self) -> Seq<usize> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) } else { Seq::empty() } } }
#[verifier::external_body]
pub fn vx_into<I: VxInto>(x: I) -> (r: It<I::T>)
    ensures r.s() == x.vseq(), r.i() == 0, r.wf(),
{ unimplemented!() }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
pub trait ItX<T>: VxInto<T = T> {
    fn vx_zip<J: VxInto>(self, o: J) -> (r: It<(T, J::T)>)
        ensures r.s() == zipped(self.vseq(), o.vseq()), r.i() == 0, r.wf();
    fn vx_into_iter(self) -> (r: It<T>)
        ensures r.s() == self.vseq(), r.i() == 0, r.wf();
}
impl<T, I: VxInto<T = T>> ItX<T> for I {
    #[verifier::external_body] fn vx_zip<J: VxInto>(self, o: J) -> (r: It<(T, J::T)>) { unimplemented!() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
pub broadcast proof fn refs_at<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures #![trigger s[i], refs(s)] *refs(s)[i] == s[i] { }
