// ---- prelude: std's process, path and collection types as far as the command line needs them
pub type PathBuf = PathX;
pub uninterp spec fn pparent(a: Seq<u8>) -> Option<Seq<u8>>;
pub trait IntoPath: Sized { spec fn pb(self) -> Seq<u8>; fn vx_into_(self) -> (r: PathX) ensures r.b() == self.pb(); }
impl IntoPath for PathX { open spec fn pb(self) -> Seq<u8> { self.b() } fn vx_into_(self) -> (r: PathX) { self } }
impl IntoPath for &str { open spec fn pb(self) -> Seq<u8> { self.b() } #[verifier::external_body] fn vx_into_(self) -> (r: PathX) { unimplemented!() } }
impl IntoPath for String { open spec fn pb(self) -> Seq<u8> { self.b() } #[verifier::external_body] fn vx_into_(self) -> (r: PathX) { unimplemented!() } }
impl PathX {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathX>) ensures r is Some <==> pparent(self.b()) is Some, r is Some ==> r->0.b() == pparent(self.b())->0 { unimplemented!() }
    #[verifier::external_body] pub fn from<P: IntoPath>(p: P) -> (r: PathX) ensures r.b() == p.pb() { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &PathX) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.b().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_own(&self) -> (r: PathX) ensures r.b() == self.b() { unimplemented!() }
}
pub trait OwnX { fn vx_own(&self) -> (r: String) ensures r@ == self.oc(); spec fn oc(&self) -> Seq<char>; }
impl OwnX for str { open spec fn oc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
pub trait ClonePath { spec fn op(&self) -> Option<Seq<u8>>; fn vx_clone(&self) -> (r: Option<PathX>) ensures op(r) == self.op(); }
pub open spec fn op(p: Option<PathX>) -> Option<Seq<u8>> { match p { Some(x) => Some(x.b()), None => None } }
impl ClonePath for Option<PathX> { open spec fn op(&self) -> Option<Seq<u8>> { op(*self) } #[verifier::external_body] fn vx_clone(&self) -> (r: Option<PathX>) { unimplemented!() } }
pub uninterp spec fn env_of(name: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub struct VarErr { x: u64 }
#[verifier::external_body] pub fn vx_env_var(n: &str) -> (r: Result<String, VarErr>) ensures r is Ok <==> env_of(n.b()) is Some, r is Ok ==> r->Ok_0.b() == env_of(n.b())->0 { unimplemented!() }
pub fn vx_unwrap_or_else<A, F: FnOnce() -> A>(a: Option<A>, f: F) -> (r: A) requires a is None ==> f.requires(()), ensures a is Some ==> r == a->0, a is None ==> f.ensures((), r) { match a { Some(x) => x, None => f() } }
pub fn vx_res_map<A, E, B, F: FnOnce(A) -> B>(a: Result<A, E>, f: F) -> (r: Result<B, E>) requires a is Ok ==> f.requires((a->Ok_0,)), ensures a is Ok ==> r is Ok && f.ensures((a->Ok_0,), r->Ok_0), a is Err ==> r is Err { match a { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
/// a map of environment variables
#[verifier::external_body] pub struct EnvX { x: u64 }
#[verifier::external_body] pub struct OsString { x: u64 }
impl Bytes for OsString { uninterp spec fn b(&self) -> Seq<u8>; }
pub trait IntoOs: Sized { spec fn ob(self) -> Seq<u8>; fn vx_into_(self) -> (r: OsString) ensures r.b() == self.ob(); }
impl EnvX {
    pub uninterp spec fn m(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn insert(&mut self, k: OsString, v: OsString) -> (r: Option<OsString>) ensures final(self).m() == old(self).m().insert(k.b(), v.b()) { unimplemented!() }
}
pub open spec fn sb(s: Seq<String>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].b()) }
pub open spec fn join(s: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join(s.drop_last(), sep) + sep + s.last() } }
/// consecutive repetitions removed
pub open spec fn dedup(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases s.len() { if s.len() <= 1 { s } else { let r = dedup(s.drop_last()); if s.last() == s[s.len() - 2] { r } else { r.push(s.last()) } } }
pub open spec fn sorted(s: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater }
pub open spec fn same_elems(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { forall|x: Seq<u8>| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) <==> b.contains(x) }
pub trait VecS {
    spec fn ss(&self) -> Seq<Seq<u8>>;
    fn vx_sort(&mut self) ensures sorted(final(self).ss()), same_elems(final(self).ss(), old(self).ss()), final(self).ss().len() == old(self).ss().len();
    fn vx_dedup(&mut self) ensures final(self).ss() == dedup(old(self).ss());
    fn vx_extend(&mut self, o: Vec<String>) ensures final(self).ss() == old(self).ss() + sb(o@);
    fn vx_append(&mut self, o: &mut Vec<String>) ensures final(self).ss() == old(self).ss() + sb(old(o)@), final(o)@ == Seq::<String>::empty();
    fn vx_push(&mut self, s: String) ensures final(self).ss() == old(self).ss().push(s.b());
    fn vx_join(&self, sep: &str) -> (r: String) ensures r.b() == join(self.ss(), sep.b());
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.ss().len() == 0);
    /// a vector of strings never exceeds isize::MAX bytes
    fn vx_len(&self) -> (r: usize) ensures r == self.ss().len(), r <= isize::MAX / 24;
}
impl VecS for Vec<String> {
    open spec fn ss(&self) -> Seq<Seq<u8>> { sb(self@) }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_extend(&mut self, o: Vec<String>) { unimplemented!() }
    #[verifier::external_body] fn vx_append(&mut self, o: &mut Vec<String>) { unimplemented!() }
    #[verifier::external_body] fn vx_push(&mut self, s: String) { unimplemented!() }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
pub fn vx_usize_from(b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0usize } { if b { 1 } else { 0 } }
/// std's Command, as what was put into it
#[verifier::external_body] pub struct Command { x: u64 }
pub trait ArgX { spec fn ab(&self) -> Seq<u8>; }
impl ArgX for &str { open spec fn ab(&self) -> Seq<u8> { (**self).b() } }
impl ArgX for String { open spec fn ab(&self) -> Seq<u8> { self.b() } }
impl ArgX for &PathX { open spec fn ab(&self) -> Seq<u8> { (**self).b() } }
pub trait ArgsX { spec fn abs(&self) -> Seq<Seq<u8>>; }
impl ArgsX for &Vec<String> { open spec fn abs(&self) -> Seq<Seq<u8>> { sb(self@) } }
impl ArgsX for [&str; 3] { open spec fn abs(&self) -> Seq<Seq<u8>> { Seq::new(3, |i: int| self@[i].b()) } }
impl Command {
    pub uninterp spec fn prog(&self) -> Seq<u8>;
    pub uninterp spec fn argv(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn dir(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn env(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn new(p: PathX) -> (r: Self) ensures r.prog() == p.b(), r.argv() == Seq::<Seq<u8>>::empty(), r.dir() is None, r.env() == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn arg<A: ArgX>(&mut self, a: A) -> (r: &mut Self) ensures r.argv() == old(self).argv().push(a.ab()), r.prog() == old(self).prog(), r.dir() == old(self).dir(), r.env() == old(self).env(), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn args<A: ArgsX>(&mut self, a: A) -> (r: &mut Self) ensures r.argv() == old(self).argv() + a.abs(), r.prog() == old(self).prog(), r.dir() == old(self).dir(), r.env() == old(self).env(), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn current_dir(&mut self, p: &PathX) -> (r: &mut Self) ensures r.dir() == Some(p.b()), r.prog() == old(self).prog(), r.argv() == old(self).argv(), r.env() == old(self).env(), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn envs(&mut self, e: &EnvX) -> (r: &mut Self) ensures r.env() == old(self).env().union_prefer_right(e.m()), r.prog() == old(self).prog(), r.argv() == old(self).argv(), r.dir() == old(self).dir(), *final(r) == *final(self) { unimplemented!() }
}
pub trait IntoVec: Sized { spec fn me(self) -> Seq<String>; fn vx_into_(self) -> (r: Vec<String>) ensures r@ == self.me(); }
impl IntoVec for Vec<String> { open spec fn me(self) -> Seq<String> { self@ } fn vx_into_(self) -> (r: Vec<String>) { self } }
