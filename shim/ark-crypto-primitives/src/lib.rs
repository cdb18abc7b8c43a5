//! Stand-in for `ark-crypto-primitives` (early 2021) used only by the verification harness.
pub type Error = Box<dyn std::error::Error>;
pub mod crh;
pub use crh::FixedLengthCRH;
#[cfg(feature = "r1cs")]
pub mod prf;
#[cfg(feature = "r1cs")]
pub mod snark;
#[cfg(feature = "r1cs")]
pub use crh::FixedLengthCRHGadget;
