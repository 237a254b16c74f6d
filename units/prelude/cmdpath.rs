// ---- prelude: paths
#[verifier::external_body] pub struct PathX { x: u64 }
impl Bytes for PathX { uninterp spec fn b(&self) -> Seq<u8>; }
