// ---- prelude: cfg-expr
/// a closure's answers as a function
pub open spec fn answers<P, F: Fn(P) -> bool>(f: F, h: spec_fn(P) -> bool) -> bool { forall|p: P, r: bool| #[trigger] f.ensures((p,), r) ==> r == h(p) }
pub mod cfg_expr {
    use vstd::prelude::*;
    use super::*;
    pub mod targets {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body] pub struct TripleX { x: u64 }
        impl TripleX {
            pub uninterp spec fn b(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r.b() == self.b() { unimplemented!() }
        }
        pub struct TargetInfo { pub triple: TripleX }
        /// rustc's builtin targets, by triple
        pub uninterp spec fn builtin(t: Seq<u8>) -> Option<TargetInfo>;
        #[verifier::external_body]
        pub fn get_builtin_target_by_triple(t: &str) -> (r: Option<&'static TargetInfo>)
            ensures r is Some <==> builtin(t.b()) is Some, r is Some ==> *r->Some_0 == builtin(t.b())->Some_0 && r->Some_0.triple.b() == t.b(),
        { unimplemented!() }
    }
    pub mod target_lexicon {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body] pub struct Triple { x: u64 }
        /// what target-lexicon reads a text as, and what it displays a triple as
        pub uninterp spec fn parsed(t: Seq<u8>) -> Option<Triple>;
        pub uninterp spec fn shown(t: Triple) -> Seq<u8>;
        #[verifier::external_body] pub struct ParseError { x: u64 }
        impl VxEq<Triple> for Triple { open spec fn eqs(&self, o: &Triple) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &Triple) -> (r: bool) { unimplemented!() } }
    }
    pub mod expr {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body] pub struct TargetPredicate { x: u64 }
        impl TargetPredicate {
            /// cfg-expr's own answers
            pub uninterp spec fn builtin_ok(&self, t: super::targets::TargetInfo) -> bool;
            pub uninterp spec fn triple_ok(&self, t: super::target_lexicon::Triple) -> bool;
        }
        pub enum Predicate<'a> { Target(TargetPredicate), Test, DebugAssertions, ProcMacro, Feature(&'a str), TargetFeature(&'a str), Flag(&'a str), KeyValue { key: &'a str, val: &'a str } }
    }
    pub use expr::Predicate;
    #[verifier::external_body] pub struct Expression { x: u64 }
    #[verifier::external_body] pub struct ParseError { x: u64 }
    /// what cfg-expr reads a text as
    pub uninterp spec fn expression(t: Seq<u8>) -> Option<Expression>;
    impl Expression {
        /// the truth value when each predicate has the given one
        pub uninterp spec fn sem(&self, h: spec_fn(Predicate<'_>) -> bool) -> bool;
        pub uninterp spec fn npreds(&self) -> nat;
        #[verifier::external_body]
        pub fn parse(t: &str) -> (r: Result<Expression, ParseError>)
            ensures r is Ok <==> expression(t.b()) is Some, r is Ok ==> r->Ok_0 == expression(t.b())->Some_0,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn eval<'a, F: Fn(&Predicate<'a>) -> bool>(&'a self, f: F) -> (r: bool)
            requires forall|p: &Predicate<'a>| f.requires((p,)),
            ensures forall|h: spec_fn(Predicate<'_>) -> bool| #![trigger self.sem(h)] (forall|p: &Predicate<'a>, b: bool| f.ensures((p,), b) ==> b == h(*p)) ==> r == self.sem(h),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn predicates(&self) -> (r: Preds<'_>) ensures r.n() == self.npreds() { unimplemented!() }
    }
    #[verifier::external_body] pub struct Preds<'a> { x: &'a u64 }
    impl<'a> Preds<'a> {
        pub uninterp spec fn n(&self) -> nat;
        #[verifier::external_body] pub fn vx_count(self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    }
}
pub trait TargetRef { spec fn tp(&self, p: cfg_expr::expr::TargetPredicate) -> bool; }
impl TargetRef for &cfg_expr::targets::TargetInfo { open spec fn tp(&self, p: cfg_expr::expr::TargetPredicate) -> bool { p.builtin_ok(**self) } }
impl TargetRef for &cfg_expr::target_lexicon::Triple { open spec fn tp(&self, p: cfg_expr::expr::TargetPredicate) -> bool { p.triple_ok(**self) } }
impl cfg_expr::expr::TargetPredicate {
    #[verifier::external_body] pub fn matches<T: TargetRef>(&self, t: T) -> (r: bool) ensures r == t.tp(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_show_triple(t: &cfg_expr::target_lexicon::Triple) -> (r: String) ensures r.b() == cfg_expr::target_lexicon::shown(*t) { unimplemented!() }
/// str::parse
pub trait FromStrX: Sized { type Err; spec fn reads_(t: Seq<u8>) -> Option<Self>; fn vx_from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures r is Ok <==> Self::reads_(s.b()) is Some, r is Ok ==> r->Ok_0 == Self::reads_(s.b())->Some_0; }
impl FromStrX for cfg_expr::target_lexicon::Triple { type Err = cfg_expr::target_lexicon::ParseError; open spec fn reads_(t: Seq<u8>) -> Option<Self> { cfg_expr::target_lexicon::parsed(t) } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() } }
pub trait ParsesX { spec fn pb(&self) -> Seq<u8>; fn vx_parse<T: FromStrX>(&self) -> (r: Result<T, T::Err>) ensures r is Ok <==> T::reads_(self.pb()) is Some, r is Ok ==> r->Ok_0 == T::reads_(self.pb())->Some_0; }
impl ParsesX for str { open spec fn pb(&self) -> Seq<u8> { self.b() } #[verifier::external_body] fn vx_parse<T: FromStrX>(&self) -> (r: Result<T, T::Err>) { unimplemented!() } }
