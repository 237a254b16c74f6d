// ---- prelude: base
#[verifier::external_body]
pub fn vx_probe() -> bool { unimplemented!() }
/// every panic!/unreachable! of the source: reaching it is a proof obligation
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
