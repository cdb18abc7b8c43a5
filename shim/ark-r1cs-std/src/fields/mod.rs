use crate::{alloc::AllocVar, bits::boolean::Boolean, eq::EqGadget, select::*, R1CSVar, Res, ToBitsGadget, ToBytesGadget, trusted};
use ark_ff::{BitIteratorBE, Field};
use std::fmt::Debug;
use std::ops::*;
pub mod fp;
pub mod ext;
pub use ext::*;
pub mod fp2 { pub use super::ext::Fp2Var; }
pub mod fp6_3over2 { pub use super::ext::Fp6Var; }
pub mod fp12 { pub use super::ext::Fp12Var; }

pub trait FieldOpsBounds<'a, F, T: 'a>:
    Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>
    + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>
{
}
impl<'a, F, T: 'a, S> FieldOpsBounds<'a, F, T> for S where
    S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>
        + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
        + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>
{
}
pub trait FieldVar<F: Field, ConstraintF: Field>:
    Sized + Clone + 'static + From<Boolean<ConstraintF>> + R1CSVar<ConstraintF, Value = F>
    + EqGadget<ConstraintF> + ToBitsGadget<ConstraintF> + AllocVar<F, ConstraintF> + ToBytesGadget<ConstraintF> + CondSelectGadget<ConstraintF>
    + for<'a> FieldOpsBounds<'a, F, Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + AddAssign<F> + SubAssign<F> + MulAssign<F> + Debug
{
    // by-reference forms, so that generic code needs no bounds on `&Self`
    #[doc(hidden)] fn op_add(&self, o: &Self) -> Self;
    #[doc(hidden)] fn op_sub(&self, o: &Self) -> Self;
    #[doc(hidden)] fn op_mul(&self, o: &Self) -> Self;
    fn zero() -> Self { Self::constant(F::zero()) }
    fn is_zero(&self) -> Res<Boolean<ConstraintF>> { self.is_eq(&Self::zero()) }
    fn one() -> Self { Self::constant(F::one()) }
    fn is_one(&self) -> Res<Boolean<ConstraintF>> { self.is_eq(&Self::one()) }
    fn constant(v: F) -> Self;
    fn double(&self) -> Res<Self> { Ok(self.op_add(self)) }
    fn double_in_place(&mut self) -> Res<&mut Self> { *self = self.double()?; Ok(self) }
    fn negate(&self) -> Res<Self> { Ok(Self::zero().op_sub(self)) }
    fn negate_in_place(&mut self) -> Res<&mut Self> { *self = self.negate()?; Ok(self) }
    fn square(&self) -> Res<Self> { Ok(self.op_mul(self)) }
    fn square_in_place(&mut self) -> Res<&mut Self> { *self = self.square()?; Ok(self) }
    fn mul_equals(&self, o: &Self, result: &Self) -> Res<()> { self.op_mul(o).enforce_equal(result) }
    fn square_equals(&self, result: &Self) -> Res<()> { self.square()?.enforce_equal(result) }
    fn inverse(&self) -> Res<Self>;
    fn mul_by_inverse(&self, d: &Self) -> Res<Self> {
        // result * d = self with d invertible
        let i = d.inverse()?;
        Ok(self.op_mul(&i))
    }
    fn frobenius_map(&self, power: usize) -> Res<Self>;
    fn frobenius_map_in_place(&mut self, power: usize) -> Res<&mut Self> { *self = self.frobenius_map(power)?; Ok(self) }
    fn pow_le(&self, bits: &[Boolean<ConstraintF>]) -> Res<Self> {
        let mut res = Self::one();
        let mut power = self.clone();
        for bit in bits {
            let tmp = res.op_mul(&power);
            res = bit.select(&tmp, &res)?;
            power = power.square()?;
        }
        Ok(res)
    }
    fn pow_by_constant<S: AsRef<[u64]>>(&self, exp: S) -> Res<Self> {
        let mut res = self.clone();
        let mut first = true;
        for b in BitIteratorBE::without_leading_zeros(exp) {
            if first { first = false; continue; }
            res.square_in_place()?;
            if b { res = res.op_mul(self); }
        }
        if first { return Ok(Self::one()); }
        Ok(res)
    }
}
pub(crate) fn plain_var<V: AllocVar<F, CF>, F: Field, CF: Field>(cs: ark_relations::r1cs::ConstraintSystemRef<CF>, f: impl FnOnce() -> Res<F>) -> Res<V> {
    trusted(|| V::new_witness(cs, f))
}
