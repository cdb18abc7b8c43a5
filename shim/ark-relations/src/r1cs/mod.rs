mod cs;
mod lc;
pub mod fault;
pub use cs::*;
pub use lc::*;
pub use tracing::info_span;
pub use ark_ff::{Field, ToConstraintField};

/// layer collecting constraint traces: records nothing here
#[derive(Debug)]
pub struct ConstraintLayer<S> { pub mode: TracingMode, _s: std::marker::PhantomData<fn(S)> }
impl<S> ConstraintLayer<S> { pub fn new(mode: TracingMode) -> Self { ConstraintLayer { mode, _s: std::marker::PhantomData } } }
impl<S> Default for ConstraintLayer<S> { fn default() -> Self { Self::new(TracingMode::All) } }
impl<S> tracing_subscriber::layer::Layer<S> for ConstraintLayer<S> {}
#[derive(PartialEq, Eq, Ord, PartialOrd, Hash, Debug, Clone, Copy)]
pub enum TracingMode { NoConstraints, OnlyConstraints, All }

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum SynthesisError {
    MissingCS,
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    PolynomialDegreeTooLarge,
    UnexpectedIdentity,
    MalformedVerifyingKey,
    UnconstrainedVariable,
}
impl std::error::Error for SynthesisError {}
impl std::fmt::Display for SynthesisError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SynthesisError::MissingCS => write!(f, "the constraint system was `None`"),
            SynthesisError::AssignmentMissing => write!(f, "an assignment for a variable could not be computed"),
            SynthesisError::DivisionByZero => write!(f, "division by zero"),
            SynthesisError::Unsatisfiable => write!(f, "unsatisfiable constraint system"),
            SynthesisError::PolynomialDegreeTooLarge => write!(f, "polynomial degree is too large"),
            SynthesisError::UnexpectedIdentity => write!(f, "encountered an identity element in the CRS"),
            SynthesisError::MalformedVerifyingKey => write!(f, "malformed verifying key"),
            SynthesisError::UnconstrainedVariable => write!(f, "auxiliary variable was unconstrained"),
        }
    }
}
pub type Result<T> = std::result::Result<T, SynthesisError>;

#[macro_export]
macro_rules! ns {
    ($cs:expr, $name:expr) => {{ let _ = $name; $crate::r1cs::Namespace::new($cs.clone(), None) }};
}
#[macro_export]
macro_rules! lc {
    () => { $crate::r1cs::LinearCombination::zero() };
}
