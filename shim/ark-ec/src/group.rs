use ark_ff::{PrimeField, UniformRand, ToBytes, FromBytes, Zero, BitIteratorBE};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::*;
pub trait Group:
    ToBytes + FromBytes + 'static + Sized + Copy + Clone + Default + Send + Sync + Eq + Hash + Neg<Output = Self> + UniformRand
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + MulAssign<<Self as Group>::ScalarField> + CanonicalSerialize + CanonicalDeserialize + Debug + Display + Zero
{
    type ScalarField: PrimeField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    #[must_use]
    fn double(&self) -> Self;
    fn double_in_place(&mut self) -> &mut Self;
    #[must_use]
    fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self { let mut c = *self; c *= *other; c }
}
#[doc(hidden)]
pub fn _x() { let _ = BitIteratorBE::new([0u64]); }
