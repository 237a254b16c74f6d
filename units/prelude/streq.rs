// ---- prelude: `==` and `!=` where Verus has no specification for the pair of types (rewritten to vx_eq)
pub trait VxEq<R: ?Sized> {
    spec fn eqs(&self, o: &R) -> bool;
    fn vx_eq_(&self, o: &R) -> (r: bool) ensures r == self.eqs(o);
}
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.vx_eq_(b) }
impl VxEq<String> for String { open spec fn eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> bool { self == o } }
impl VxEq<str> for String { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> bool { self == o } }
impl VxEq<&str> for String { open spec fn eqs(&self, o: &&str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&str) -> bool { self == o } }
impl VxEq<String> for str { open spec fn eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> bool { self == o } }
impl VxEq<String> for &str { open spec fn eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> bool { self == o } }
impl VxEq<&String> for &str { open spec fn eqs(&self, o: &&String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&String) -> bool { self == o } }
impl VxEq<&str> for &String { open spec fn eqs(&self, o: &&str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&str) -> bool { self == o } }
impl VxEq<str> for &String { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> bool { *self == o } }
impl VxEq<str> for str { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> bool { self == o } }
impl VxEq<&str> for &str { open spec fn eqs(&self, o: &&str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&str) -> bool { self == o } }
impl VxEq<&String> for &String { open spec fn eqs(&self, o: &&String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&String) -> bool { self == o } }
impl VxEq<&&str> for &String { open spec fn eqs(&self, o: &&&str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&&str) -> (r: bool) { unimplemented!() } }
impl VxEq<u32> for u32 { open spec fn eqs(&self, o: &u32) -> bool { *self == *o } fn vx_eq_(&self, o: &u32) -> (r: bool) { *self == *o } }
impl VxEq<usize> for usize { open spec fn eqs(&self, o: &usize) -> bool { *self == *o } fn vx_eq_(&self, o: &usize) -> (r: bool) { *self == *o } }
