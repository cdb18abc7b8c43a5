use crate::{biginteger::BigInteger, bytes::{FromBytes, ToBytes}, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalDeserializeWithFlags, CanonicalSerialize, CanonicalSerializeWithFlags, EmptyFlags, Flags};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::*;
use std::str::FromStr;

#[macro_use]
pub mod macros;
pub mod fp;
pub use fp::*;
pub mod ext;
pub use ext::*;
pub use crate::biginteger::{BitIteratorBE, BitIteratorLE};

pub trait Zero: Sized + Add<Self, Output = Self> {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
    fn set_zero(&mut self) { *self = Zero::zero(); }
}
pub trait One: Sized + Mul<Self, Output = Self> {
    fn one() -> Self;
    fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() }
    fn set_one(&mut self) { *self = One::one(); }
}

pub trait Field:
    'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Zero + One + Ord
    + Neg<Output = Self> + UniformRand + Sized + Hash + ToBytes + FromBytes
    + CanonicalSerialize + CanonicalSerializeWithFlags + CanonicalDeserialize + CanonicalDeserializeWithFlags
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self>
    + std::iter::Product<Self> + for<'a> std::iter::Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
{
    type BasePrimeField: PrimeField;
    fn characteristic<'a>() -> &'a [u64] { Self::BasePrimeField::characteristic() }
    fn extension_degree() -> u64;
    #[must_use]
    fn double(&self) -> Self { *self + self }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    #[must_use]
    fn square(&self) -> Self { *self * self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    #[must_use]
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = self.inverse() { *self = i; Some(self) } else { None }
    }
    fn frobenius_map(&mut self, power: usize);
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0)
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
    #[must_use]
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::one();
        let mut started = false;
        for i in BitIteratorBE::new(exp) {
            if started { res.square_in_place(); }
            if i { res *= self; started = true; }
        }
        res
    }
}

pub trait FftParameters: 'static + Send + Sync + Sized {
    type BigInt: BigInteger;
    const TWO_ADICITY: u32;
}
pub trait FpParameters: FftParameters {
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const REPR_SHAVE_BITS: u32;
    const R: Self::BigInt;
    const R2: Self::BigInt;
    const INV: u64;
    const GENERATOR: Self::BigInt;
    const CAPACITY: u32;
    const T: Self::BigInt;
    const T_MINUS_ONE_DIV_TWO: Self::BigInt;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
}
pub trait SquareRootField: Field {
    fn legendre(&self) -> LegendreSymbol;
    #[must_use]
    fn sqrt(&self) -> Option<Self>;
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        if let Some(s) = self.sqrt() { *self = s; Some(self) } else { None }
    }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol { Zero = 0, QuadraticResidue = 1, QuadraticNonResidue = -1 }
impl LegendreSymbol {
    pub fn is_zero(&self) -> bool { *self == LegendreSymbol::Zero }
    pub fn is_qnr(&self) -> bool { *self == LegendreSymbol::QuadraticNonResidue }
    pub fn is_qr(&self) -> bool { *self == LegendreSymbol::QuadraticResidue }
}
pub trait FftField: Field {
    type FftParams: FftParameters;
}
pub trait PrimeField:
    Field<BasePrimeField = Self> + FftField + FromStr + SquareRootField + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt>
{
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut v = bytes.to_vec();
        v.reverse();
        Self::from_le_bytes_mod_order(&v)
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let w = Self::from(256u64);
        let mut r = Self::zero();
        for b in bytes.iter().rev() { r *= w; r += Self::from(*b); }
        r
    }
    fn multiplicative_generator() -> Self;
    fn size_in_bits() -> usize { Self::Params::MODULUS_BITS as usize }
    fn trace() -> Self::BigInt { Self::Params::T }
    fn trace_minus_one_div_two() -> Self::BigInt { Self::Params::T_MINUS_ONE_DIV_TWO }
    fn modulus_minus_one_div_two() -> Self::BigInt { Self::Params::MODULUS_MINUS_ONE_DIV_TWO }
    // --- not part of upstream: fault injection support of the harness ---
    #[doc(hidden)]
    fn get_root_of_unity_2s() -> Self;
}

pub fn batch_inversion<F: Field>(v: &mut [F]) {
    let mut prod = Vec::with_capacity(v.len());
    let mut tmp = F::one();
    for f in v.iter().filter(|f| !f.is_zero()) {
        tmp.mul_assign(f);
        prod.push(tmp);
    }
    if prod.is_empty() { return; }
    tmp = tmp.inverse().unwrap();
    for (f, s) in v.iter_mut().rev().filter(|f| !f.is_zero()).zip(prod.into_iter().rev().skip(1).chain(Some(F::one()))) {
        let new_tmp = tmp * *f;
        *f = tmp * &s;
        tmp = new_tmp;
    }
}

pub fn tonelli<F: PrimeField>(a: &F) -> Option<F> {
    if a.is_zero() { return Some(F::zero()); }
    // w = a^((t-1)/2)
    let mut z = F::get_root_of_unity_2s();
    let mut w = a.pow(F::Params::T_MINUS_ONE_DIV_TWO);
    let mut x = w * a;
    let mut b = x * &w;
    let mut v = <F::Params as FftParameters>::TWO_ADICITY as usize;
    while !b.is_one() {
        let mut k = 0;
        let mut b2k = b;
        while !b2k.is_one() {
            b2k.square_in_place();
            k += 1;
            if k > <F::Params as FftParameters>::TWO_ADICITY as usize { return None; }
        }
        if k >= v && k == <F::Params as FftParameters>::TWO_ADICITY as usize { return None; }
        if v < k + 1 { return None; }
        let j = v - k - 1;
        w = z;
        for _ in 0..j { w.square_in_place(); }
        z = w.square();
        b *= &z;
        x *= &w;
        v = k;
    }
    if x.square() == *a { Some(x) } else { None }
}
