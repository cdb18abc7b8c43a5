//! Stand-in for `ark-r1cs-std` (API of early 2021) used only by the verification harness.
#![allow(clippy::all)]
use ark_ff::Field;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
pub type Res<T> = Result<T, SynthesisError>;

pub mod alloc;
pub mod bits;
pub use bits::*;
pub mod eq;
pub mod select;
#[macro_use]
pub mod macros;
pub mod fields;
pub mod groups;
pub mod pairing;

pub mod prelude {
    pub use crate::{
        alloc::*,
        bits::{boolean::Boolean, uint32::UInt32, uint8::UInt8, ToBitsGadget, ToBytesGadget},
        eq::*,
        fields::{FieldOpsBounds, FieldVar},
        groups::{CurveVar, GroupOpsBounds},
        pairing::PairingVar,
        select::*,
        R1CSVar,
    };
}

pub trait R1CSVar<F: Field> {
    type Value: core::fmt::Debug + Eq + Clone;
    fn cs(&self) -> ConstraintSystemRef<F>;
    fn is_constant(&self) -> bool { self.cs().is_none() }
    fn value(&self) -> Res<Self::Value>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> { self.iter().fold(ConstraintSystemRef::None, |c, v| c.or(v.cs())) }
    fn value(&self) -> Res<Self::Value> { self.iter().map(|v| v.value()).collect() }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> ConstraintSystemRef<F> { (*self).cs() }
    fn value(&self) -> Res<Self::Value> { (*self).value() }
}
macro_rules! arr { ($($n:expr),*) => { $(
    impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T; $n] {
        type Value = Vec<T::Value>;
        fn cs(&self) -> ConstraintSystemRef<F> { self[..].cs() }
        fn value(&self) -> Res<Self::Value> { self[..].value() }
    }
)* } }
arr!(1, 2, 3, 4, 8);
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for Vec<T> {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> { self[..].cs() }
    fn value(&self) -> Res<Self::Value> { self[..].value() }
}

pub trait Assignment<T> { fn get(self) -> Res<T>; }
impl<T> Assignment<T> for Option<T> { fn get(self) -> Res<T> { self.ok_or(SynthesisError::AssignmentMissing) } }

pub trait ToConstraintFieldGadget<F: ark_ff::PrimeField> { fn to_constraint_field(&self) -> Res<Vec<fields::fp::FpVar<F>>>; }
impl<F: ark_ff::PrimeField> ToConstraintFieldGadget<F> for fields::fp::FpVar<F> { fn to_constraint_field(&self) -> Res<Vec<fields::fp::FpVar<F>>> { Ok(vec![self.clone()]) } }
impl<F: ark_ff::PrimeField> ToConstraintFieldGadget<F> for [bits::boolean::Boolean<F>] {
    fn to_constraint_field(&self) -> Res<Vec<fields::fp::FpVar<F>>> {
        let cap = <F::Params as ark_ff::FpParameters>::CAPACITY as usize;
        self.chunks(cap).map(bits::boolean::Boolean::le_bits_to_fp_var).collect()
    }
}
pub(crate) use ark_relations::r1cs::fault::trusted;
