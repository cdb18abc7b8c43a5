//! Stand-in for `ark-ec` (API of early 2021) used only by the verification harness.
use ark_ff::{BigInteger, Field, PrimeField, SquareRootField, UniformRand, ToBytes, FromBytes, Zero, BitIteratorBE};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::*;

pub mod models;
pub use models::*;
pub mod group;
pub mod msm;

pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq + PartialEq {
    type Fr: PrimeField + SquareRootField;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + MulAssign<Self::Fr>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + MulAssign<Self::Fr>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: Field;
    #[must_use]
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    #[must_use]
    fn final_exponentiation(_: &Self::Fqk) -> Option<Self::Fqk>;
    #[must_use]
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    #[must_use]
    fn pairing<G1, G2>(p: G1, q: G2) -> Self::Fqk
    where
        G1: Into<Self::G1Affine>,
        G2: Into<Self::G2Affine>,
    {
        let g1_prep = Self::G1Prepared::from(p.into());
        let g2_prep = Self::G2Prepared::from(q.into());
        Self::product_of_pairings(std::iter::once(&(g1_prep, g2_prep)))
    }
}

pub trait ProjectiveCurve:
    Eq + 'static + Sized + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize
    + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand + Zero
    + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + MulAssign<<Self as ProjectiveCurve>::ScalarField>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self>
    + From<<Self as ProjectiveCurve>::Affine>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    #[must_use]
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> {
        let mut v = v.to_vec();
        Self::batch_normalization(&mut v);
        v.into_iter().map(|v| v.into()).collect()
    }
    #[must_use]
    fn is_normalized(&self) -> bool;
    #[must_use]
    fn double(&self) -> Self { let mut c = *self; c.double_in_place(); c }
    fn double_in_place(&mut self) -> &mut Self;
    fn into_affine(&self) -> Self::Affine { (*self).into() }
    #[must_use]
    fn add_mixed(mut self, other: &Self::Affine) -> Self { self.add_assign_mixed(other); self }
    fn add_assign_mixed(&mut self, other: &Self::Affine);
    #[must_use]
    fn mul<S: AsRef<[u64]>>(self, other: S) -> Self {
        let mut res = Self::zero();
        for b in BitIteratorBE::without_leading_zeros(other) {
            res.double_in_place();
            if b { res += self; }
        }
        res
    }
}

pub trait AffineCurve:
    Eq + 'static + Sized + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize
    + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + Zero
    + Neg<Output = Self> + From<<Self as AffineCurve>::Projective>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self> + MulAssign<Self::ScalarField>;
    fn into_projective(&self) -> Self::Projective { (*self).into() }
    #[must_use]
    fn prime_subgroup_generator() -> Self;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    #[must_use]
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective;
    #[must_use]
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective;
    #[must_use]
    fn mul_by_cofactor(&self) -> Self { self.mul_by_cofactor_to_projective().into() }
    #[must_use]
    fn mul_by_cofactor_inv(&self) -> Self;
}
/// a batch normalisation helper for affine slices
pub fn batch_norm<G: ProjectiveCurve>(v: &[G]) -> Vec<G::Affine> { G::batch_normalization_into_affine(v) }
#[doc(hidden)]
pub fn _b<B: BigInteger>() {}
