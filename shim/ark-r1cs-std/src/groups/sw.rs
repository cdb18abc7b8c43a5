use super::CurveVar;
use crate::{alloc::*, bits::{boolean::Boolean, uint8::UInt8, ToBitsGadget, ToBytesGadget}, eq::EqGadget, fields::{plain_var, FieldVar}, select::CondSelectGadget, trusted, R1CSVar, Res};
use ark_ec::{short_weierstrass_jacobian::{GroupAffine, GroupProjective}, ProjectiveCurve, SWModelParameters};
use ark_ff::{BitIteratorLE, Field, One, Zero};
use ark_relations::r1cs::{fault, ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
use std::marker::PhantomData;
pub type CF<P> = <<P as ark_ec::ModelParameters>::BaseField as Field>::BasePrimeField;

/// homogeneous projective coordinates
#[must_use]
pub struct ProjectiveVar<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> { pub x: F, pub y: F, pub z: F, _p: PhantomData<fn() -> P> }
#[must_use]
pub struct AffineVar<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> { pub x: F, pub y: F, pub infinity: Boolean<CF<P>>, _p: PhantomData<fn() -> P> }
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> std::fmt::Debug for ProjectiveVar<P, F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("ProjectiveVar").field(&self.x).field(&self.y).field(&self.z).finish() }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> std::fmt::Debug for AffineVar<P, F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("AffineVar").field(&self.x).field(&self.y).field(&self.infinity).finish() }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for ProjectiveVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone(), self.z.clone()) } }
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for AffineVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone(), self.infinity.clone()) } }
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AffineVar<P, F> {
    pub fn new(x: F, y: F, infinity: Boolean<CF<P>>) -> Self { AffineVar { x, y, infinity, _p: PhantomData } }
    pub fn value(&self) -> Res<GroupAffine<P>> {
        Ok(if self.infinity.value()? { GroupAffine::zero() } else { GroupAffine::new(self.x.value()?, self.y.value()?, false) })
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ProjectiveVar<P, F> {
    pub fn new(x: F, y: F, z: F) -> Self { ProjectiveVar { x, y, z, _p: PhantomData } }
    pub fn of_const(g: GroupProjective<P>) -> Self {
        let a = g.into_affine();
        if a.is_zero() { Self::new(F::zero(), F::one(), F::zero()) } else { Self::new(F::constant(a.x), F::constant(a.y), F::one()) }
    }
    fn op_add(&self, o: &Self) -> Self {
        let (x1, y1, z1, x2, y2, z2) = (&self.x, &self.y, &self.z, &o.x, &o.y, &o.z);
        let b3 = P::COEFF_B.double() + &P::COEFF_B;
        let mul_a = |v: &F| -> Option<F> { if P::COEFF_A.is_zero() { None } else { Some(v.clone() * P::COEFF_A) } };
        let plus = |a: F, b: Option<F>| match b { Some(b) => a.op_add(&b), None => a };
        let xx = x1.op_mul(x2);
        let yy = y1.op_mul(y2);
        let zz = z1.op_mul(z2);
        let xy = x1.op_add(y1).op_mul(&x2.op_add(y2)).op_sub(&xx.op_add(&yy));
        let xz = x1.op_add(z1).op_mul(&x2.op_add(z2)).op_sub(&xx.op_add(&zz));
        let yz = y1.op_add(z1).op_mul(&y2.op_add(z2)).op_sub(&yy.op_add(&zz));
        let t = plus(zz.clone() * b3, mul_a(&xz));
        let m = yy.op_sub(&t);
        let p = yy.op_add(&t);
        let azz = mul_a(&zz);
        let xx3 = plus(xx.double().unwrap().op_add(&xx), azz.clone());
        let bxz = plus(xz * b3, mul_a(&match azz { Some(a) => xx.op_sub(&a), None => xx }));
        Self::new(
            m.op_mul(&xy).op_sub(&yz.op_mul(&bxz)),
            p.op_mul(&m).op_add(&xx3.op_mul(&bxz)),
            p.op_mul(&yz).op_add(&xy.op_mul(&xx3)),
        )
    }
    fn op_sub(&self, o: &Self) -> Self { let n = o.negate().unwrap(); self.op_add(&n) }
    fn dbl(&self) -> Res<Self> {
        let b3 = P::COEFF_B.double() + &P::COEFF_B;
        let a = P::COEFF_A;
        let xx = self.x.square()?;
        let yy = self.y.square()?;
        let zz = self.z.square()?;
        let xy2 = self.x.op_mul(&self.y).double()?;
        let xz2 = self.x.op_mul(&self.z).double()?;
        let yz2 = self.y.op_mul(&self.z).double()?;
        let t = (zz.clone() * b3).op_add(&(xz2.clone() * a));
        let m = yy.op_sub(&t);
        let p = yy.op_add(&t);
        let azz = zz * a;
        let bxz = (xz2 * b3).op_add(&(xx.op_sub(&azz) * a));
        let xx3 = xx.double()?.op_add(&xx).op_add(&azz);
        Ok(Self::new(
            m.op_mul(&xy2).op_sub(&bxz.op_mul(&yz2)),
            p.op_mul(&m).op_add(&xx3.op_mul(&bxz)),
            yz2.op_mul(&yy).double()?.double()?,
        ))
    }
    pub fn to_affine(&self) -> Res<AffineVar<P, F>> {
        let cs = self.cs();
        if cs.is_none() {
            let a = self.value()?.into_affine();
            return Ok(if a.is_zero() { AffineVar::new(F::zero(), F::one(), Boolean::TRUE) } else { AffineVar::new(F::constant(a.x), F::constant(a.y), Boolean::FALSE) });
        }
        if let (true, Ok(z)) = (self.z.is_constant(), self.z.value()) {
            if z.is_one() { return Ok(AffineVar::new(self.x.clone(), self.y.clone(), Boolean::FALSE)); }
        }
        let infinity = self.is_zero()?;
        let zi: F = plain_var(cs, || Ok(self.z.value()?.inverse().unwrap_or_else(P::BaseField::zero)))?;
        // z * z_inv = 1 - infinity
        self.z.mul_equals(&zi, &F::from(infinity.not()))?;
        let x = self.x.op_mul(&zi);
        let y = self.y.op_mul(&zi);
        Ok(AffineVar::new(infinity.select(&F::zero(), &x)?, infinity.select(&F::one(), &y)?, infinity))
    }
    /// allocation without the curve equation
    pub fn new_variable_omit_on_curve_check(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let mut g = f().map(|g| g.into_affine());
        if mode == AllocationMode::Constant { return g.map(|g| Self::of_const(g.into())); }
        if let (AllocationMode::Witness, Ok(a)) = (mode, g.as_mut()) { fault::apply_point(a); }
        let c = g.map(|a| if a.is_zero() { (P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero()) } else { (a.x, a.y, P::BaseField::one()) });
        trusted(|| Ok(Self::new(F::new_variable(cs.clone(), || c.map(|c| c.0), mode)?, F::new_variable(cs.clone(), || c.map(|c| c.1), mode)?, F::new_variable(cs.clone(), || c.map(|c| c.2), mode)?)))
    }
    fn eq_bits(&self, o: &Self) -> Res<(F, F, F, F)> {
        Ok((self.x.op_mul(&o.z), o.x.op_mul(&self.z), self.y.op_mul(&o.z), o.y.op_mul(&self.z)))
    }
}
crate::var_ops!([P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>], [], ProjectiveVar<P, F>, GroupProjective<P>,
    Add add AddAssign add_assign op_add, Sub sub SubAssign sub_assign op_sub);
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> R1CSVar<CF<P>> for ProjectiveVar<P, F> {
    type Value = GroupProjective<P>;
    fn cs(&self) -> ConstraintSystemRef<CF<P>> { self.x.cs().or(self.y.cs()).or(self.z.cs()) }
    fn value(&self) -> Res<GroupProjective<P>> {
        let (x, y, z) = (self.x.value()?, self.y.value()?, self.z.value()?);
        Ok(match z.inverse() { Some(zi) => GroupAffine::new(x * &zi, y * &zi, false), None => GroupAffine::zero() }.into())
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> CurveVar<GroupProjective<P>, CF<P>> for ProjectiveVar<P, F> {
    fn constant(g: GroupProjective<P>) -> Self { Self::of_const(g) }
    fn zero() -> Self { Self::new(F::zero(), F::one(), F::zero()) }
    fn is_zero(&self) -> Res<Boolean<CF<P>>> { self.z.is_zero() }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let mut g = f().map(|g| g.into_affine());
        if mode == AllocationMode::Constant { return g.map(|g| Self::of_const(g.into())); }
        if let (AllocationMode::Witness, Ok(a)) = (mode, g.as_mut()) { fault::apply_point(a); }
        let c = g.map(|a| if a.is_zero() { (P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero()) } else { (a.x, a.y, P::BaseField::one()) });
        trusted(|| {
            let x = F::new_variable(cs.clone(), || c.map(|c| c.0), mode)?;
            let y = F::new_variable(cs.clone(), || c.map(|c| c.1), mode)?;
            let z = F::new_variable(cs.clone(), || c.map(|c| c.2), mode)?;
            // z (y^2 - b z^2) = x (x^2 + a z^2)
            let z2 = z.square()?;
            let l = y.square()?.op_sub(&(z2.clone() * P::COEFF_B));
            let mut r = x.square()?;
            if !P::COEFF_A.is_zero() { r = r.op_add(&(z2 * P::COEFF_A)); }
            l.mul_equals(&z, &r.op_mul(&x))?;
            Ok(Self::new(x, y, z))
        })
    }
    fn enforce_prime_order(&self) -> Res<()> {
        let bits: Vec<Boolean<CF<P>>> = BitIteratorLE::new(P::ScalarField::characteristic()).map(Boolean::Constant).collect();
        let r = self.scalar_mul_le(bits.iter())?;
        r.enforce_equal(&Self::zero())
    }
    fn double_in_place(&mut self) -> Res<()> { *self = self.dbl()?; Ok(()) }
    fn negate(&self) -> Res<Self> { Ok(Self::new(self.x.clone(), self.y.negate()?, self.z.clone())) }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<GroupProjective<P>, CF<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<GroupProjective<P>>>(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let v = Self::new_variable_omit_prime_order_check(cs, || f().map(|g| *g.borrow()), mode)?;
        if mode == AllocationMode::Witness { v.enforce_prime_order()?; }
        Ok(v)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<GroupAffine<P>, CF<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<GroupAffine<P>>>(cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        <Self as AllocVar<GroupProjective<P>, CF<P>>>::new_variable(cs, || f().map(|g| GroupProjective::from(*g.borrow())), mode)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> EqGadget<CF<P>> for ProjectiveVar<P, F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<CF<P>>> {
        let (a, b, c, d) = self.eq_bits(o)?;
        let coords = a.is_eq(&b)?.and(&c.is_eq(&d)?)?;
        let zeros = self.is_zero()?.and(&o.is_zero()?)?;
        zeros.or(&coords)
    }
    fn conditional_enforce_equal(&self, o: &Self, cond: &Boolean<CF<P>>) -> Res<()> {
        let (a, b, c, d) = self.eq_bits(o)?;
        let coords = a.is_eq(&b)?.and(&c.is_eq(&d)?)?;
        let zeros = self.is_zero()?.and(&o.is_zero()?)?;
        zeros.or(&coords)?.conditional_enforce_equal(&Boolean::Constant(true), cond)
    }
    fn enforce_equal(&self, o: &Self) -> Res<()> { self.conditional_enforce_equal(o, &Boolean::Constant(true)) }
    fn conditional_enforce_not_equal(&self, o: &Self, cond: &Boolean<CF<P>>) -> Res<()> {
        self.is_eq(o)?.and(cond)?.enforce_equal(&Boolean::Constant(false))
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> CondSelectGadget<CF<P>> for ProjectiveVar<P, F> {
    fn conditionally_select(c: &Boolean<CF<P>>, t: &Self, f: &Self) -> Res<Self> { Ok(Self::new(c.select(&t.x, &f.x)?, c.select(&t.y, &f.y)?, c.select(&t.z, &f.z)?)) }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBitsGadget<CF<P>> for ProjectiveVar<P, F> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<CF<P>>>> { let g = self.to_affine()?; let mut b = g.x.to_bits_le()?; b.extend(g.y.to_bits_le()?); b.push(g.infinity); Ok(b) }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBytesGadget<CF<P>> for ProjectiveVar<P, F> {
    fn to_bytes(&self) -> Res<Vec<UInt8<CF<P>>>> { let g = self.to_affine()?; let mut b = g.x.to_bytes()?; b.extend(g.y.to_bytes()?); b.extend(g.infinity.to_bytes()?); Ok(b) }
}
