// ---- prelude: semver
#[verifier::external_body] pub struct Prerelease { x: u64 }
impl Prerelease {
    pub uninterp spec fn empty(&self) -> bool;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.empty() { unimplemented!() }
}
#[verifier::external_body] pub struct BuildMetadata { x: u64 }
#[verifier::external_body] pub struct Comparator { x: u64 }
pub struct Version { pub major: u64, pub minor: u64, pub patch: u64, pub pre: Prerelease, pub build: BuildMetadata }
pub struct VersionReq { pub comparators: Vec<Comparator> }
impl VersionReq {
    /// semver's own answer
    pub uninterp spec fn accepts(&self, v: Version) -> bool;
    #[verifier::external_body] pub fn matches(&self, v: &Version) -> (r: bool) ensures r == self.accepts(*v) { unimplemented!() }
}
impl VxEq<Version> for Version { open spec fn eqs(&self, o: &Version) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &Version) -> (r: bool) { unimplemented!() } }
impl VxEq<&Version> for &Version { open spec fn eqs(&self, o: &&Version) -> bool { **self == **o } #[verifier::external_body] fn vx_eq_(&self, o: &&Version) -> (r: bool) { unimplemented!() } }
pub mod semver { pub use super::{Version, VersionReq}; }
