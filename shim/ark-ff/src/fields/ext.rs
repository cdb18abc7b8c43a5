use super::*;
use ark_serialize::{Read, SerializationError, Write};
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::io::Result as IoResult;
use std::marker::PhantomData;

// ------------------------------------------------------------------ quadratic
pub trait QuadExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    type FrobCoeff: Field;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize;
    fn nonresidue() -> Self::BaseField;
    fn mul_base_field_by_nonresidue(fe: &Self::BaseField) -> Self::BaseField { Self::nonresidue() * fe }
    fn mul_base_field_by_frob_coeff(fe: &mut Self::BaseField, power: usize);
}
pub struct QuadExtField<P: QuadExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField }
impl<P: QuadExtParameters> QuadExtField<P> {
    pub const fn new(c0: P::BaseField, c1: P::BaseField) -> Self { QuadExtField { c0, c1 } }
    pub fn conjugate(&mut self) { self.c1 = -self.c1; }
    pub fn unitary_inverse(&self) -> Self { Self::new(self.c0, -self.c1) }
    pub fn norm(&self) -> P::BaseField { self.c0.square() - &P::mul_base_field_by_nonresidue(&self.c1.square()) }
    pub fn mul_assign_by_basefield(&mut self, e: &P::BaseField) { self.c0 *= e; self.c1 *= e; }
}
impl<P: QuadExtParameters> Clone for QuadExtField<P> { #[inline] fn clone(&self) -> Self { *self } }
impl<P: QuadExtParameters> Copy for QuadExtField<P> {}
impl<P: QuadExtParameters> Default for QuadExtField<P> { fn default() -> Self { Self::zero() } }
impl<P: QuadExtParameters> PartialEq for QuadExtField<P> { fn eq(&self, o: &Self) -> bool { self.c0 == o.c0 && self.c1 == o.c1 } }
impl<P: QuadExtParameters> Eq for QuadExtField<P> {}
impl<P: QuadExtParameters> Hash for QuadExtField<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.c0.hash(h); self.c1.hash(h) } }
impl<P: QuadExtParameters> Debug for QuadExtField<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "QuadExtField({:?} + {:?} * u)", self.c0, self.c1) } }
impl<P: QuadExtParameters> Display for QuadExtField<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "QuadExtField({} + {} * u)", self.c0, self.c1) } }
impl<P: QuadExtParameters> Ord for QuadExtField<P> { fn cmp(&self, o: &Self) -> Ordering { self.c1.cmp(&o.c1).then_with(|| self.c0.cmp(&o.c0)) } }
impl<P: QuadExtParameters> PartialOrd for QuadExtField<P> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<P: QuadExtParameters> Zero for QuadExtField<P> {
    fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::zero()) }
    fn is_zero(&self) -> bool { self.c0.is_zero() && self.c1.is_zero() }
}
impl<P: QuadExtParameters> One for QuadExtField<P> {
    fn one() -> Self { Self::new(P::BaseField::one(), P::BaseField::zero()) }
    fn is_one(&self) -> bool { self.c0.is_one() && self.c1.is_zero() }
}
impl<P: QuadExtParameters> Field for QuadExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 2 * P::BaseField::extension_degree() }
    fn double(&self) -> Self { Self::new(self.c0.double(), self.c1.double()) }
    fn square(&self) -> Self {
        // complex squaring
        let v0 = self.c0 - &self.c1;
        let v3 = self.c0 - &P::mul_base_field_by_nonresidue(&self.c1);
        let v2 = self.c0 * &self.c1;
        let v0 = v0 * &v3 + &v2;
        Self::new(v0 + &P::mul_base_field_by_nonresidue(&v2), v2.double())
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        self.norm().inverse().map(|n| Self::new(self.c0 * &n, -(self.c1 * &n)))
    }
    fn frobenius_map(&mut self, power: usize) {
        self.c0.frobenius_map(power);
        self.c1.frobenius_map(power);
        P::mul_base_field_by_frob_coeff(&mut self.c1, power);
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split_at = bytes.len() / 2;
        if let Some(c0) = P::BaseField::from_random_bytes(&bytes[..split_at]) {
            if let Some((c1, flags)) = P::BaseField::from_random_bytes_with_flags(&bytes[split_at..]) {
                return Some((Self::new(c0, c1), flags));
            }
        }
        None
    }
}
impl<P: QuadExtParameters> SquareRootField for QuadExtField<P> where P::BaseField: SquareRootField {
    fn legendre(&self) -> LegendreSymbol { self.norm().legendre() }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            return match self.c0.sqrt() {
                Some(s) => Some(Self::new(s, P::BaseField::zero())),
                None => (self.c0 * &P::nonresidue().inverse().unwrap()).sqrt().map(|s| Self::new(P::BaseField::zero(), s)),
            };
        }
        // Algorithm 8 of eprint 2012/685
        let alpha = self.norm();
        if alpha.legendre() == LegendreSymbol::QuadraticNonResidue { return None; }
        let two_inv = P::BaseField::one().double().inverse().unwrap();
        alpha.sqrt().and_then(|alpha| {
            let mut delta = (alpha + &self.c0) * &two_inv;
            if delta.legendre().is_qnr() { delta -= &alpha; }
            let c0 = delta.sqrt()?;
            let c0_inv = c0.inverse()?;
            let cand = Self::new(c0, self.c1 * &two_inv * &c0_inv);
            if cand.square() == *self { Some(cand) } else { None }
        })
    }
}
macro_rules! from_small { ($f:ident, $p:ident, $($t:ty),*) => { $( impl<P: $p> From<$t> for $f<P> { fn from(v: $t) -> Self { let mut r = Self::zero(); r.c0 = P::BaseField::from(v); r } } )* }; }
from_small!(QuadExtField, QuadExtParameters, u128, u64, u32, u16, u8, bool);
impl<P: QuadExtParameters> ToBytes for QuadExtField<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.c0.write(&mut w)?; self.c1.write(w) } }
impl<P: QuadExtParameters> FromBytes for QuadExtField<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(P::BaseField::read(&mut r)?, P::BaseField::read(r)?)) } }
impl<P: QuadExtParameters> CanonicalSerializeWithFlags for QuadExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> { self.c0.serialize(&mut w)?; self.c1.serialize_with_flags(w, flags) }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { self.c0.serialized_size() + self.c1.serialized_size_with_flags::<F>() }
}
impl<P: QuadExtParameters> CanonicalSerialize for QuadExtField<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
}
impl<P: QuadExtParameters> CanonicalDeserializeWithFlags for QuadExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = P::BaseField::deserialize(&mut r)?;
        let (c1, f) = P::BaseField::deserialize_with_flags(r)?;
        Ok((Self::new(c0, c1), f))
    }
}
impl<P: QuadExtParameters> CanonicalDeserialize for QuadExtField<P> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(Self::new(P::BaseField::deserialize(&mut r)?, P::BaseField::deserialize(r)?)) }
}
impl<P: QuadExtParameters> Distribution<QuadExtField<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> QuadExtField<P> { QuadExtField::new(UniformRand::rand(rng), UniformRand::rand(rng)) }
}
impl<P: QuadExtParameters> Neg for QuadExtField<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.c0, -self.c1) } }
impl<'a, P: QuadExtParameters> AddAssign<&'a Self> for QuadExtField<P> { #[inline] fn add_assign(&mut self, o: &Self) { self.c0 += &o.c0; self.c1 += &o.c1; } }
impl<'a, P: QuadExtParameters> SubAssign<&'a Self> for QuadExtField<P> { #[inline] fn sub_assign(&mut self, o: &Self) { self.c0 -= &o.c0; self.c1 -= &o.c1; } }
impl<'a, P: QuadExtParameters> MulAssign<&'a Self> for QuadExtField<P> {
    #[inline]
    fn mul_assign(&mut self, o: &Self) {
        let v0 = self.c0 * &o.c0;
        let v1 = self.c1 * &o.c1;
        self.c1 = (self.c1 + &self.c0) * &(o.c0 + &o.c1) - &v0 - &v1;
        self.c0 = v0 + &P::mul_base_field_by_nonresidue(&v1);
    }
}
crate::field_ops_from_ref!([P: QuadExtParameters], QuadExtField<P>);

// ---------------------------------------------------------------------- cubic
pub trait CubicExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    type FrobCoeff: Field;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize;
    fn nonresidue() -> Self::BaseField;
    fn mul_base_field_by_nonresidue(fe: &Self::BaseField) -> Self::BaseField { Self::nonresidue() * fe }
    fn mul_base_field_by_frob_coeff(c1: &mut Self::BaseField, c2: &mut Self::BaseField, power: usize);
}
pub struct CubicExtField<P: CubicExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField, pub c2: P::BaseField }
impl<P: CubicExtParameters> CubicExtField<P> {
    pub const fn new(c0: P::BaseField, c1: P::BaseField, c2: P::BaseField) -> Self { CubicExtField { c0, c1, c2 } }
    pub fn mul_assign_by_base_field(&mut self, e: &P::BaseField) { self.c0 *= e; self.c1 *= e; self.c2 *= e; }
}
impl<P: CubicExtParameters> Clone for CubicExtField<P> { #[inline] fn clone(&self) -> Self { *self } }
impl<P: CubicExtParameters> Copy for CubicExtField<P> {}
impl<P: CubicExtParameters> Default for CubicExtField<P> { fn default() -> Self { Self::zero() } }
impl<P: CubicExtParameters> PartialEq for CubicExtField<P> { fn eq(&self, o: &Self) -> bool { self.c0 == o.c0 && self.c1 == o.c1 && self.c2 == o.c2 } }
impl<P: CubicExtParameters> Eq for CubicExtField<P> {}
impl<P: CubicExtParameters> Hash for CubicExtField<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.c0.hash(h); self.c1.hash(h); self.c2.hash(h) } }
impl<P: CubicExtParameters> Debug for CubicExtField<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "CubicExtField({:?}, {:?}, {:?})", self.c0, self.c1, self.c2) } }
impl<P: CubicExtParameters> Display for CubicExtField<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "CubicExtField({}, {}, {})", self.c0, self.c1, self.c2) } }
impl<P: CubicExtParameters> Ord for CubicExtField<P> { fn cmp(&self, o: &Self) -> Ordering { self.c2.cmp(&o.c2).then_with(|| self.c1.cmp(&o.c1)).then_with(|| self.c0.cmp(&o.c0)) } }
impl<P: CubicExtParameters> PartialOrd for CubicExtField<P> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<P: CubicExtParameters> Zero for CubicExtField<P> {
    fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::zero(), P::BaseField::zero()) }
    fn is_zero(&self) -> bool { self.c0.is_zero() && self.c1.is_zero() && self.c2.is_zero() }
}
impl<P: CubicExtParameters> One for CubicExtField<P> {
    fn one() -> Self { Self::new(P::BaseField::one(), P::BaseField::zero(), P::BaseField::zero()) }
    fn is_one(&self) -> bool { self.c0.is_one() && self.c1.is_zero() && self.c2.is_zero() }
}
impl<P: CubicExtParameters> Field for CubicExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 3 * P::BaseField::extension_degree() }
    fn double(&self) -> Self { Self::new(self.c0.double(), self.c1.double(), self.c2.double()) }
    fn square(&self) -> Self {
        // CH-SQR2
        let s0 = self.c0.square();
        let s1 = (self.c0 * &self.c1).double();
        let s2 = (self.c0 - &self.c1 + &self.c2).square();
        let s3 = (self.c1 * &self.c2).double();
        let s4 = self.c2.square();
        Self::new(s0 + &P::mul_base_field_by_nonresidue(&s3), s1 + &P::mul_base_field_by_nonresidue(&s4), s1 + &s2 + &s3 - &s0 - &s4)
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let t0 = self.c0.square();
        let t1 = self.c1.square();
        let t2 = self.c2.square();
        let t3 = self.c0 * &self.c1;
        let t4 = self.c0 * &self.c2;
        let t5 = self.c1 * &self.c2;
        let s0 = t0 - &P::mul_base_field_by_nonresidue(&t5);
        let s1 = P::mul_base_field_by_nonresidue(&t2) - &t3;
        let s2 = t1 - &t4;
        let a3 = P::mul_base_field_by_nonresidue(&(self.c2 * &s1 + &(self.c1 * &s2)));
        let t6 = (self.c0 * &s0 + &a3).inverse()?;
        Some(Self::new(t6 * &s0, t6 * &s1, t6 * &s2))
    }
    fn frobenius_map(&mut self, power: usize) {
        self.c0.frobenius_map(power);
        self.c1.frobenius_map(power);
        self.c2.frobenius_map(power);
        P::mul_base_field_by_frob_coeff(&mut self.c1, &mut self.c2, power);
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split_at = bytes.len() / 3;
        let c0 = P::BaseField::from_random_bytes(&bytes[..split_at])?;
        let c1 = P::BaseField::from_random_bytes(&bytes[split_at..2 * split_at])?;
        let (c2, f) = P::BaseField::from_random_bytes_with_flags(&bytes[2 * split_at..])?;
        Some((Self::new(c0, c1, c2), f))
    }
}
from_small!(CubicExtField, CubicExtParameters, u128, u64, u32, u16, u8, bool);
impl<P: CubicExtParameters> ToBytes for CubicExtField<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.c0.write(&mut w)?; self.c1.write(&mut w)?; self.c2.write(w) } }
impl<P: CubicExtParameters> FromBytes for CubicExtField<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(P::BaseField::read(&mut r)?, P::BaseField::read(&mut r)?, P::BaseField::read(r)?)) } }
impl<P: CubicExtParameters> CanonicalSerializeWithFlags for CubicExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> { self.c0.serialize(&mut w)?; self.c1.serialize(&mut w)?; self.c2.serialize_with_flags(w, flags) }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { self.c0.serialized_size() + self.c1.serialized_size() + self.c2.serialized_size_with_flags::<F>() }
}
impl<P: CubicExtParameters> CanonicalSerialize for CubicExtField<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
}
impl<P: CubicExtParameters> CanonicalDeserializeWithFlags for CubicExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = P::BaseField::deserialize(&mut r)?;
        let c1 = P::BaseField::deserialize(&mut r)?;
        let (c2, f) = P::BaseField::deserialize_with_flags(r)?;
        Ok((Self::new(c0, c1, c2), f))
    }
}
impl<P: CubicExtParameters> CanonicalDeserialize for CubicExtField<P> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(Self::new(P::BaseField::deserialize(&mut r)?, P::BaseField::deserialize(&mut r)?, P::BaseField::deserialize(r)?)) }
}
impl<P: CubicExtParameters> Distribution<CubicExtField<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> CubicExtField<P> { CubicExtField::new(UniformRand::rand(rng), UniformRand::rand(rng), UniformRand::rand(rng)) }
}
impl<P: CubicExtParameters> Neg for CubicExtField<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.c0, -self.c1, -self.c2) } }
impl<'a, P: CubicExtParameters> AddAssign<&'a Self> for CubicExtField<P> { #[inline] fn add_assign(&mut self, o: &Self) { self.c0 += &o.c0; self.c1 += &o.c1; self.c2 += &o.c2; } }
impl<'a, P: CubicExtParameters> SubAssign<&'a Self> for CubicExtField<P> { #[inline] fn sub_assign(&mut self, o: &Self) { self.c0 -= &o.c0; self.c1 -= &o.c1; self.c2 -= &o.c2; } }
impl<'a, P: CubicExtParameters> MulAssign<&'a Self> for CubicExtField<P> {
    #[inline]
    fn mul_assign(&mut self, o: &Self) {
        let ad = self.c0 * &o.c0;
        let be = self.c1 * &o.c1;
        let cf = self.c2 * &o.c2;
        let x = (self.c1 + &self.c2) * &(o.c1 + &o.c2) - &be - &cf;
        let y = (self.c0 + &self.c1) * &(o.c0 + &o.c1) - &ad - &be;
        let z = (self.c0 + &self.c2) * &(o.c0 + &o.c2) - &ad + &be - &cf;
        self.c0 = ad + &P::mul_base_field_by_nonresidue(&x);
        self.c1 = y + &P::mul_base_field_by_nonresidue(&cf);
        self.c2 = z;
    }
}
crate::field_ops_from_ref!([P: CubicExtParameters], CubicExtField<P>);

// ------------------------------------------------------------------- wrappers
/// Fp2 = Fp[u]/(u^2 - NONRESIDUE)
pub trait Fp2Parameters: 'static + Send + Sync + Sized {
    type Fp: PrimeField;
    const NONRESIDUE: Self::Fp;
    fn mul_fp_by_nonresidue(fe: &Self::Fp) -> Self::Fp { Self::NONRESIDUE * fe }
}
pub struct Fp2ParamsWrapper<P>(PhantomData<P>);
impl<P: Fp2Parameters> QuadExtParameters for Fp2ParamsWrapper<P> {
    type BasePrimeField = P::Fp;
    type BaseField = P::Fp;
    type FrobCoeff = P::Fp;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize = 2;
    fn nonresidue() -> P::Fp { P::NONRESIDUE }
    fn mul_base_field_by_nonresidue(fe: &P::Fp) -> P::Fp { P::mul_fp_by_nonresidue(fe) }
    fn mul_base_field_by_frob_coeff(fe: &mut P::Fp, power: usize) { if power % 2 == 1 { *fe = -*fe; } }
}
pub type Fp2<P> = QuadExtField<Fp2ParamsWrapper<P>>;
impl<P: Fp2Parameters> Fp2<P> {
    pub fn mul_assign_by_fp(&mut self, o: &P::Fp) { self.c0 *= o; self.c1 *= o; }
}

/// caches nonresidue^(k*(q^i-1)/d)
pub trait Fp6Parameters: 'static + Send + Sync + Copy {
    type Fp2Params: Fp2Parameters;
    /// v^3 = NONRESIDUE
    fn nonresidue() -> Fp2<Self::Fp2Params>;
    fn mul_fp2_by_nonresidue(fe: &Fp2<Self::Fp2Params>) -> Fp2<Self::Fp2Params> { Self::nonresidue() * fe }
    /// nonresidue^((p^i - 1)/3) for i in 0..6
    fn frobenius_coeff_fp6_c1(i: usize) -> Fp2<Self::Fp2Params>;
    fn frobenius_coeff_fp6_c2(i: usize) -> Fp2<Self::Fp2Params> { let c = Self::frobenius_coeff_fp6_c1(i); c * c }
}
pub struct Fp6ParamsWrapper<P>(PhantomData<P>);
impl<P: Fp6Parameters> CubicExtParameters for Fp6ParamsWrapper<P> {
    type BasePrimeField = <P::Fp2Params as Fp2Parameters>::Fp;
    type BaseField = Fp2<P::Fp2Params>;
    type FrobCoeff = Fp2<P::Fp2Params>;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize = 6;
    fn nonresidue() -> Self::BaseField { P::nonresidue() }
    fn mul_base_field_by_nonresidue(fe: &Self::BaseField) -> Self::BaseField { P::mul_fp2_by_nonresidue(fe) }
    fn mul_base_field_by_frob_coeff(c1: &mut Self::BaseField, c2: &mut Self::BaseField, power: usize) {
        *c1 *= P::frobenius_coeff_fp6_c1(power % 6);
        *c2 *= P::frobenius_coeff_fp6_c2(power % 6);
    }
}
pub type Fp6<P> = CubicExtField<Fp6ParamsWrapper<P>>;
impl<P: Fp6Parameters> Fp6<P> {
    pub fn mul_by_1(&mut self, c1: &Fp2<P::Fp2Params>) {
        let b = self.c1 * c1;
        let t1 = P::mul_fp2_by_nonresidue(&(self.c2 * c1));
        let t2 = self.c0 * c1;
        *self = Self::new(t1, t2, b);
    }
    pub fn mul_by_01(&mut self, c0: &Fp2<P::Fp2Params>, c1: &Fp2<P::Fp2Params>) {
        let a = self.c0 * c0;
        let b = self.c1 * c1;
        let t1 = P::mul_fp2_by_nonresidue(&(*c1 * &(self.c1 + &self.c2) - &b)) + &a;
        let t3 = *c0 * &(self.c0 + &self.c2) - &a + &b;
        let t2 = (*c0 + c1) * &(self.c0 + &self.c1) - &a - &b;
        *self = Self::new(t1, t2, t3);
    }
}

pub trait Fp12Parameters: 'static + Send + Sync + Copy {
    type Fp6Params: Fp6Parameters;
    /// nonresidue(Fp6 over Fp2)^((p^i - 1)/6) for i in 0..12
    fn frobenius_coeff_fp12_c1(i: usize) -> Fp2<<Self::Fp6Params as Fp6Parameters>::Fp2Params>;
}
pub struct Fp12ParamsWrapper<P>(PhantomData<P>);
impl<P: Fp12Parameters> QuadExtParameters for Fp12ParamsWrapper<P> {
    type BasePrimeField = <<P::Fp6Params as Fp6Parameters>::Fp2Params as Fp2Parameters>::Fp;
    type BaseField = Fp6<P::Fp6Params>;
    type FrobCoeff = Fp2<<P::Fp6Params as Fp6Parameters>::Fp2Params>;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize = 12;
    fn nonresidue() -> Self::BaseField { CubicExtField::new(Zero::zero(), One::one(), Zero::zero()) }
    fn mul_base_field_by_nonresidue(fe: &Self::BaseField) -> Self::BaseField {
        CubicExtField::new(P::Fp6Params::mul_fp2_by_nonresidue(&fe.c2), fe.c0, fe.c1)
    }
    fn mul_base_field_by_frob_coeff(fe: &mut Self::BaseField, power: usize) {
        let c = P::frobenius_coeff_fp12_c1(power % 12);
        fe.mul_assign_by_base_field(&c);
    }
}
pub type Fp12<P> = QuadExtField<Fp12ParamsWrapper<P>>;
type Fp2Of<P> = Fp2<<<P as Fp12Parameters>::Fp6Params as Fp6Parameters>::Fp2Params>;
impl<P: Fp12Parameters> Fp12<P> {
    pub fn mul_by_034(&mut self, c0: &Fp2Of<P>, c3: &Fp2Of<P>, c4: &Fp2Of<P>) {
        let mut a = self.c0;
        a.mul_assign_by_base_field(c0);
        let mut b = self.c1;
        b.mul_by_01(c3, c4);
        let mut e = self.c0 + &self.c1;
        e.mul_by_01(&(*c0 + c3), c4);
        self.c1 = e - &(a + &b);
        self.c0 = a + &Fp12ParamsWrapper::<P>::mul_base_field_by_nonresidue(&b);
    }
    pub fn mul_by_014(&mut self, c0: &Fp2Of<P>, c1: &Fp2Of<P>, c4: &Fp2Of<P>) {
        let mut aa = self.c0;
        aa.mul_by_01(c0, c1);
        let mut bb = self.c1;
        bb.mul_by_1(c4);
        let o = *c1 + c4;
        self.c1 += &self.c0;
        self.c1.mul_by_01(c0, &o);
        self.c1 = self.c1 - &aa - &bb;
        self.c0 = Fp12ParamsWrapper::<P>::mul_base_field_by_nonresidue(&bb) + &aa;
    }
    pub fn cyclotomic_square_in_place(&mut self) -> &mut Self { self.square_in_place(); self }
    pub fn cyclotomic_exp<S: AsRef<[u64]>>(&self, e: S) -> Self { self.pow(e) }
}

/// Fp3 = Fp[u]/(u^3 - NONRESIDUE)
pub trait Fp3Parameters: 'static + Send + Sync {
    type Fp: PrimeField;
    const NONRESIDUE: Self::Fp;
    fn frobenius_coeff_c1(i: usize) -> Self::Fp;
}
pub struct Fp3ParamsWrapper<P>(PhantomData<P>);
impl<P: Fp3Parameters> CubicExtParameters for Fp3ParamsWrapper<P> {
    type BasePrimeField = P::Fp;
    type BaseField = P::Fp;
    type FrobCoeff = P::Fp;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize = 3;
    fn nonresidue() -> P::Fp { P::NONRESIDUE }
    fn mul_base_field_by_frob_coeff(c1: &mut P::Fp, c2: &mut P::Fp, power: usize) {
        let c = P::frobenius_coeff_c1(power % 3);
        *c1 *= c;
        *c2 *= c * c;
    }
}
pub type Fp3<P> = CubicExtField<Fp3ParamsWrapper<P>>;
/// Fp6 as 2 over 3: w^2 = u
pub trait Fp6_2over3Parameters: 'static + Send + Sync {
    type Fp3Params: Fp3Parameters;
    fn frobenius_coeff_c1(i: usize) -> <Self::Fp3Params as Fp3Parameters>::Fp;
}
pub struct Fp6_2over3ParamsWrapper<P>(PhantomData<P>);
impl<P: Fp6_2over3Parameters> QuadExtParameters for Fp6_2over3ParamsWrapper<P> {
    type BasePrimeField = <P::Fp3Params as Fp3Parameters>::Fp;
    type BaseField = Fp3<P::Fp3Params>;
    type FrobCoeff = <P::Fp3Params as Fp3Parameters>::Fp;
    const DEGREE_OVER_BASE_PRIME_FIELD: usize = 6;
    fn nonresidue() -> Self::BaseField { CubicExtField::new(Zero::zero(), One::one(), Zero::zero()) }
    fn mul_base_field_by_nonresidue(fe: &Self::BaseField) -> Self::BaseField {
        CubicExtField::new(<P::Fp3Params as Fp3Parameters>::NONRESIDUE * fe.c2, fe.c0, fe.c1)
    }
    fn mul_base_field_by_frob_coeff(fe: &mut Self::BaseField, power: usize) {
        let c = P::frobenius_coeff_c1(power % 6);
        fe.mul_assign_by_base_field(&c);
    }
}
pub type Fp6_2over3<P> = QuadExtField<Fp6_2over3ParamsWrapper<P>>;
pub mod fp2 { pub use super::{Fp2, Fp2Parameters}; }
pub mod fp6_3over2 { pub use super::{Fp6, Fp6Parameters}; }
pub mod fp12_2over3over2 { pub use super::{Fp12, Fp12Parameters}; }
