use super::CurveVar;
use crate::{alloc::*, bits::{boolean::Boolean, uint8::UInt8, ToBitsGadget, ToBytesGadget}, eq::EqGadget, fields::{plain_var, FieldVar}, select::CondSelectGadget, trusted, R1CSVar, Res};
use ark_ec::{twisted_edwards_extended::{GroupAffine, GroupProjective}, ProjectiveCurve, TEModelParameters};
use ark_ff::{BitIteratorLE, Field, One, Zero};
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
use std::marker::PhantomData;
use super::sw::CF;
#[must_use]
pub struct AffineVar<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> { pub x: F, pub y: F, _p: PhantomData<fn() -> P> }
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> std::fmt::Debug for AffineVar<P, F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("AffineVar").field(&self.x).field(&self.y).finish() }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for AffineVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone()) } }
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> AffineVar<P, F> {
    pub fn new(x: F, y: F) -> Self { AffineVar { x, y, _p: PhantomData } }
    pub fn of_const(g: GroupProjective<P>) -> Self { let a = g.into_affine(); Self::new(F::constant(a.x), F::constant(a.y)) }
    fn op_add(&self, o: &Self) -> Self {
        let cs = self.cs().or(o.cs());
        if cs.is_none() { return Self::of_const(self.value().unwrap() + &o.value().unwrap()); }
        let (a, d) = (P::COEFF_A, P::COEFF_D);
        let u = (self.x.clone() * -a).op_add(&self.y).op_mul(&o.x.op_add(&o.y));
        let v0 = o.y.op_mul(&self.x);
        let v1 = o.x.op_mul(&self.y);
        let v2 = v0.op_mul(&v1) * d;
        let one = F::one();
        let nx = v0.op_add(&v1);
        let dx = one.op_add(&v2);
        let ny = u.op_add(&(v0 * a)).op_sub(&v1);
        let dy = one.op_sub(&v2);
        let quot = |n: &F, d: &F| -> F {
            let r: F = plain_var(cs.clone(), || Ok(n.value()? * &d.value()?.inverse().ok_or(SynthesisError::DivisionByZero)?)).unwrap();
            r.mul_equals(d, n).unwrap();
            r
        };
        Self::new(quot(&nx, &dx), quot(&ny, &dy))
    }
    fn op_sub(&self, o: &Self) -> Self { let n = o.negate().unwrap(); self.op_add(&n) }
}
crate::var_ops!([P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>], [], AffineVar<P, F>, GroupProjective<P>,
    Add add AddAssign add_assign op_add, Sub sub SubAssign sub_assign op_sub);
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> R1CSVar<CF<P>> for AffineVar<P, F> {
    type Value = GroupProjective<P>;
    fn cs(&self) -> ConstraintSystemRef<CF<P>> { self.x.cs().or(self.y.cs()) }
    fn value(&self) -> Res<GroupProjective<P>> { Ok(GroupAffine::new(self.x.value()?, self.y.value()?).into()) }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> CurveVar<GroupProjective<P>, CF<P>> for AffineVar<P, F> {
    fn constant(g: GroupProjective<P>) -> Self { Self::of_const(g) }
    fn zero() -> Self { Self::new(F::zero(), F::one()) }
    fn is_zero(&self) -> Res<Boolean<CF<P>>> { self.x.is_zero()?.and(&self.y.is_one()?) }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let g = f().map(|g| g.into_affine());
        if mode == AllocationMode::Constant { return g.map(|g| Self::of_const(g.into())); }
        trusted(|| {
            let x = F::new_variable(cs.clone(), || g.map(|g| g.x), mode)?;
            let y = F::new_variable(cs.clone(), || g.map(|g| g.y), mode)?;
            let x2 = x.square()?;
            let y2 = y.square()?;
            // a x^2 + y^2 = 1 + d x^2 y^2
            let l = (x2.clone() * P::COEFF_A).op_add(&y2);
            let r = F::one().op_add(&(x2.op_mul(&y2) * P::COEFF_D));
            l.enforce_equal(&r)?;
            Ok(Self::new(x, y))
        })
    }
    fn enforce_prime_order(&self) -> Res<()> {
        let bits: Vec<Boolean<CF<P>>> = BitIteratorLE::new(P::ScalarField::characteristic()).map(Boolean::Constant).collect();
        let r = self.scalar_mul_le(bits.iter())?;
        r.enforce_equal(&Self::zero())
    }
    fn double_in_place(&mut self) -> Res<()> { *self = self.op_add(self); Ok(()) }
    fn negate(&self) -> Res<Self> { Ok(Self::new(self.x.negate()?, self.y.clone())) }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<GroupProjective<P>, CF<P>> for AffineVar<P, F> {
    fn new_variable<T: Borrow<GroupProjective<P>>>(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let v = Self::new_variable_omit_prime_order_check(cs, || f().map(|g| *g.borrow()), mode)?;
        if mode == AllocationMode::Witness { v.enforce_prime_order()?; }
        Ok(v)
    }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<GroupAffine<P>, CF<P>> for AffineVar<P, F> {
    fn new_variable<T: Borrow<GroupAffine<P>>>(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        <Self as AllocVar<GroupProjective<P>, CF<P>>>::new_variable(cs, || f().map(|g| GroupProjective::from(*g.borrow())), mode)
    }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> EqGadget<CF<P>> for AffineVar<P, F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<CF<P>>> { self.x.is_eq(&o.x)?.and(&self.y.is_eq(&o.y)?) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<CF<P>>) -> Res<()> { self.x.conditional_enforce_equal(&o.x, c)?; self.y.conditional_enforce_equal(&o.y, c) }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<CF<P>>) -> Res<()> { self.is_eq(o)?.and(c)?.enforce_equal(&Boolean::Constant(false)) }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> CondSelectGadget<CF<P>> for AffineVar<P, F> {
    fn conditionally_select(c: &Boolean<CF<P>>, t: &Self, f: &Self) -> Res<Self> { Ok(Self::new(c.select(&t.x, &f.x)?, c.select(&t.y, &f.y)?)) }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBitsGadget<CF<P>> for AffineVar<P, F> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<CF<P>>>> { let mut b = self.x.to_bits_le()?; b.extend(self.y.to_bits_le()?); Ok(b) }
}
impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBytesGadget<CF<P>> for AffineVar<P, F> {
    fn to_bytes(&self) -> Res<Vec<UInt8<CF<P>>>> { let mut b = self.x.to_bytes()?; b.extend(self.y.to_bytes()?); Ok(b) }
}
#[doc(hidden)]
pub fn _u<T: Zero + One>() {}
