//! Stand-in for `ark-bls12-377` used only by the verification harness.
#![allow(long_running_const_eval)]
pub mod curves;
pub mod fields;
pub use curves::*;
pub use fields::*;
#[cfg(feature = "r1cs")]
pub mod constraints;
