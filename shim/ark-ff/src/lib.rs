//! Stand-in for `ark-ff` (API of early 2021) used only by the verification harness.
#![allow(long_running_const_eval)]
pub mod biginteger;
pub use biginteger::*;
pub mod bytes;
pub use bytes::{FromBytes, ToBytes};
#[macro_use]
pub mod fields;
pub use fields::*;
pub use ark_std as std_shim;

/// Converts anything `ToBytes` to bytes (LE)
#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),*) => ({
        let mut v: Vec<u8> = vec![];
        let mut r: std::io::Result<()> = Ok(());
        $( if r.is_ok() { r = $crate::ToBytes::write(&$x, &mut v); } )*
        r.map(|_| v)
    });
}

pub mod rand_util {
    use rand::{distributions::{Distribution, Standard}, Rng};
    pub trait UniformRand {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
    }
    impl<T> UniformRand for T
    where
        Standard: Distribution<T>,
    {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
            rng.sample(Standard)
        }
    }
}
pub use rand_util::UniformRand;
pub use std::iter::{Product, Sum};
/// conversion into elements of a constraint field
pub trait ToConstraintField<F: Field> {
    fn to_field_elements(&self) -> Option<Vec<F>>;
}
impl<F: PrimeField> ToConstraintField<F> for F { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![*self]) } }
impl<F: Field> ToConstraintField<F> for () { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![]) } }
impl<F: PrimeField> ToConstraintField<F> for [F] { fn to_field_elements(&self) -> Option<Vec<F>> { Some(self.to_vec()) } }
impl<F: PrimeField> ToConstraintField<F> for Vec<F> { fn to_field_elements(&self) -> Option<Vec<F>> { Some(self.to_vec()) } }
impl<F: PrimeField> ToConstraintField<F> for [u8] {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        let max = (<F::Params as FpParameters>::CAPACITY / 8) as usize;
        self.chunks(max).map(|c| {
            let mut b = vec![0u8; (F::size_in_bits() + 63) / 64 * 8];
            b[..c.len()].copy_from_slice(c);
            F::read(&b[..]).ok()
        }).collect()
    }
}
impl<F: PrimeField> ToConstraintField<F> for Vec<u8> { fn to_field_elements(&self) -> Option<Vec<F>> { self.as_slice().to_field_elements() } }
pub mod prelude {
    pub use crate::biginteger::BigInteger;
    pub use crate::fields::{Field, FpParameters, PrimeField, SquareRootField, Zero, One};
    pub use crate::UniformRand;
}
