//! Stand-in for `ark-relations` (early 2021) used only by the verification harness.
pub mod r1cs;
pub use tracing::*;
