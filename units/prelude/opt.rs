// ---- prelude: Option helpers vstd lacks (their bodies here are verified, they stand for std's)
pub fn vx_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> }) { match o { Some(x) => Some(*x), None => None } }
pub fn vx_flatten<T>(o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None::<T> }) { match o { Some(x) => x, None => None } }
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
pub trait BoolX { spec fn bv(&self) -> bool; fn vx_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>) requires self.bv() ==> f.requires(()), ensures self.bv() ==> r is Some && f.ensures((), r->0), !self.bv() ==> r is None; fn vx_then_some<T>(self, t: T) -> (r: Option<T>) ensures r == if self.bv() { Some(t) } else { None::<T> }; }
impl BoolX for bool { open spec fn bv(&self) -> bool { *self } fn vx_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>) { if self { Some(f()) } else { None } } fn vx_then_some<T>(self, t: T) -> (r: Option<T>) { if self { Some(t) } else { None } } }
pub fn vx_ok<T, E>(o: Result<T, E>) -> (r: Option<T>) ensures r == (match o { Ok(x) => Some(x), Err(_) => None::<T> }) { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn vx_opt_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<(A, B)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(A, B)> }) { match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn vx_map_or<A, B, F: FnOnce(A) -> B>(a: Option<A>, d: B, f: F) -> (r: B) requires a is Some ==> f.requires((a->0,)), ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r) { match a { Some(x) => f(x), None => d } }
pub fn vx_is_some_and<A, F: FnOnce(A) -> bool>(a: Option<A>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->0,)), ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r) { match a { Some(x) => f(x), None => false } }
pub fn vx_is_ok_and<A, E, F: FnOnce(A) -> bool>(a: Result<A, E>, f: F) -> (r: bool) requires a is Ok ==> f.requires((a->Ok_0,)), ensures a is Err ==> !r, a is Ok ==> f.ensures((a->Ok_0,), r) { match a { Ok(x) => f(x), Err(_) => false } }
pub trait AsDerefX { fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some <==> self.od() is Some, r is Some ==> r->0@ == self.od()->0; spec fn od(&self) -> Option<Seq<char>>; }
impl AsDerefX for Option<String> { open spec fn od(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } fn vx_as_deref(&self) -> (r: Option<&str>) { match self { Some(s) => Some(s.as_str()), None => None } } }
pub fn vx_or_else<A, F: FnOnce() -> Option<A>>(a: Option<A>, f: F) -> (r: Option<A>) requires a is None ==> f.requires(()), ensures a is Some ==> r == a, a is None ==> f.ensures((), r) { match a { Some(x) => Some(x), None => f() } }
pub fn vx_map_err<A, E, G, F: FnOnce(E) -> G>(a: Result<A, E>, f: F) -> (r: Result<A, G>) requires a is Err ==> f.requires((a->Err_0,)), ensures a is Ok ==> r is Ok && r->Ok_0 == a->Ok_0, a is Err ==> r is Err && f.ensures((a->Err_0,), r->Err_0) { match a { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
