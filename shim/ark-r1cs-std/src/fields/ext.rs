use super::{fp::FpVar, plain_var, FieldVar};
use crate::{alloc::*, bits::{boolean::Boolean, uint8::UInt8, ToBitsGadget, ToBytesGadget}, eq::EqGadget, select::*, R1CSVar, Res};
use ark_ff::{CubicExtField, CubicExtParameters, Field, Fp12ParamsWrapper, Fp12Parameters, Fp2, Fp2Parameters, Fp2ParamsWrapper, Fp6Parameters, Fp6ParamsWrapper, QuadExtField, QuadExtParameters, Zero, BitIteratorBE};
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
use std::marker::PhantomData;

pub trait QuadExtVarParams<BF: FieldVar<Self::BaseField, Self::BasePrimeField>>: QuadExtParameters {
    fn mul_base_field_var_by_nonresidue(fe: &BF) -> Res<BF>;
    fn mul_base_field_var_by_frob_coeff(fe: &mut BF, power: usize);
}
pub trait CubicExtVarParams<BF: FieldVar<Self::BaseField, Self::BasePrimeField>>: CubicExtParameters {
    fn mul_base_field_var_by_nonresidue(fe: &BF) -> Res<BF>;
    fn mul_base_field_vars_by_frob_coeff(c1: &mut BF, c2: &mut BF, power: usize);
}
macro_rules! common {
    ($var:ident, $field:ident, $par:ident, $vpar:ident, $deg:expr, $($c:ident),*) => {
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> std::fmt::Debug for $var<BF, P> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple(stringify!($var))$(.field(&self.$c))*.finish() }
        }
        #[must_use]
        pub struct $var<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> { $(pub $c: BF,)* _p: PhantomData<fn() -> P> }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> Clone for $var<BF, P> { fn clone(&self) -> Self { $var { $($c: self.$c.clone(),)* _p: PhantomData } } }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> $var<BF, P> {
            pub fn new($($c: BF),*) -> Self { $var { $($c,)* _p: PhantomData } }
            pub fn of_const(v: $field<P>) -> Self { Self::new($(BF::constant(v.$c)),*) }
            fn op_add(&self, o: &Self) -> Self { Self::new($(self.$c.op_add(&o.$c)),*) }
            fn op_sub(&self, o: &Self) -> Self { Self::new($(self.$c.op_sub(&o.$c)),*) }
            pub fn mul_by_base_field_var(&self, b: &BF) -> Self { Self::new($(self.$c.op_mul(b)),*) }
            pub fn mul_assign_by_base_field_gadget(&mut self, b: &BF) { *self = self.mul_by_base_field_var(b); }
        }
        crate::var_ops!([BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>], [], $var<BF, P>, $field<P>,
            Add add AddAssign add_assign op_add, Sub sub SubAssign sub_assign op_sub, Mul mul MulAssign mul_assign op_mul);
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> R1CSVar<P::BasePrimeField> for $var<BF, P> {
            type Value = $field<P>;
            fn cs(&self) -> ConstraintSystemRef<P::BasePrimeField> { ConstraintSystemRef::None$(.or(self.$c.cs()))* }
            fn value(&self) -> Res<$field<P>> { Ok($field::new($(self.$c.value()?),*)) }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> From<Boolean<P::BasePrimeField>> for $var<BF, P> {
            fn from(b: Boolean<P::BasePrimeField>) -> Self { let mut r = Self::of_const($field::<P>::zero()); r.c0 = BF::from(b); r }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> AllocVar<$field<P>, P::BasePrimeField> for $var<BF, P> {
            fn new_variable<T: Borrow<$field<P>>>(cs: impl Into<Namespace<P::BasePrimeField>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
                let cs = cs.into().cs();
                let v = f().map(|v| *v.borrow());
                Ok(Self::new($(BF::new_variable(cs.clone(), || v.map(|v| v.$c), mode)?),*))
            }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> EqGadget<P::BasePrimeField> for $var<BF, P> {
            fn is_eq(&self, o: &Self) -> Res<Boolean<P::BasePrimeField>> { Boolean::kary_and(&[$(self.$c.is_eq(&o.$c)?),*]) }
            fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<P::BasePrimeField>) -> Res<()> { $(self.$c.conditional_enforce_equal(&o.$c, c)?;)* Ok(()) }
            fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<P::BasePrimeField>) -> Res<()> {
                self.is_eq(o)?.conditional_enforce_equal(&Boolean::Constant(false), c)
            }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> ToBitsGadget<P::BasePrimeField> for $var<BF, P> {
            fn to_bits_le(&self) -> Res<Vec<Boolean<P::BasePrimeField>>> { let mut r = vec![]; $(r.extend(self.$c.to_bits_le()?);)* Ok(r) }
            fn to_non_unique_bits_le(&self) -> Res<Vec<Boolean<P::BasePrimeField>>> { let mut r = vec![]; $(r.extend(self.$c.to_non_unique_bits_le()?);)* Ok(r) }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> ToBytesGadget<P::BasePrimeField> for $var<BF, P> {
            fn to_bytes(&self) -> Res<Vec<UInt8<P::BasePrimeField>>> { let mut r = vec![]; $(r.extend(self.$c.to_bytes()?);)* Ok(r) }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> CondSelectGadget<P::BasePrimeField> for $var<BF, P> {
            fn conditionally_select(c: &Boolean<P::BasePrimeField>, t: &Self, f: &Self) -> Res<Self> { Ok(Self::new($(BF::conditionally_select(c, &t.$c, &f.$c)?),*)) }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> TwoBitLookupGadget<P::BasePrimeField> for $var<BF, P> where BF: TwoBitLookupGadget<P::BasePrimeField, TableConstant = P::BaseField> {
            type TableConstant = $field<P>;
            fn two_bit_lookup(b: &[Boolean<P::BasePrimeField>], t: &[Self::TableConstant]) -> Res<Self> {
                Ok(Self::new($(BF::two_bit_lookup(b, &t.iter().map(|e| e.$c).collect::<Vec<_>>())?),*))
            }
        }
        impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: $vpar<BF>> FieldVar<$field<P>, P::BasePrimeField> for $var<BF, P> {
            fn op_add(&self, o: &Self) -> Self { $var::op_add(self, o) }
            fn op_sub(&self, o: &Self) -> Self { $var::op_sub(self, o) }
            fn op_mul(&self, o: &Self) -> Self { $var::op_mul(self, o) }
            fn constant(v: $field<P>) -> Self { Self::of_const(v) }
            fn double(&self) -> Res<Self> { Ok(Self::new($(self.$c.double()?),*)) }
            fn negate(&self) -> Res<Self> { Ok(Self::new($(self.$c.negate()?),*)) }
            fn square(&self) -> Res<Self> { self.sqr() }
            fn mul_equals(&self, o: &Self, result: &Self) -> Res<()> { self.product_is(o, result) }
            fn inverse(&self) -> Res<Self> {
                let cs = self.cs();
                if cs.is_none() { return self.value()?.inverse().map(Self::of_const).ok_or(SynthesisError::DivisionByZero); }
                let inv: Self = plain_var(cs, || Ok(self.value()?.inverse().unwrap_or_else($field::zero)))?;
                self.mul_equals(&inv, &Self::one())?;
                Ok(inv)
            }
            fn frobenius_map(&self, power: usize) -> Res<Self> { self.frob(power) }
        }
    };
}
common!(QuadExtVar, QuadExtField, QuadExtParameters, QuadExtVarParams, 2, c0, c1);
common!(CubicExtVar, CubicExtField, CubicExtParameters, CubicExtVarParams, 3, c0, c1, c2);
impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: QuadExtVarParams<BF>> QuadExtVar<BF, P> {
    fn op_mul(&self, o: &Self) -> Self {
        let v0 = self.c0.op_mul(&o.c0);
        let v1 = self.c1.op_mul(&o.c1);
        let m = self.c0.op_add(&self.c1).op_mul(&o.c0.op_add(&o.c1));
        let nr = P::mul_base_field_var_by_nonresidue(&v1).unwrap();
        Self::new(v0.op_add(&nr), m.op_sub(&v0).op_sub(&v1))
    }
    fn product_is(&self, o: &Self, r: &Self) -> Res<()> {
        let v1 = self.c1.op_mul(&o.c1);
        let v0 = r.c0.op_sub(&P::mul_base_field_var_by_nonresidue(&v1)?);
        self.c0.mul_equals(&o.c0, &v0)?;
        self.c0.op_add(&self.c1).mul_equals(&o.c0.op_add(&o.c1), &r.c1.op_add(&v0).op_add(&v1))
    }
    fn sqr(&self) -> Res<Self> {
        let v0 = self.c0.op_sub(&self.c1);
        let v3 = self.c0.op_sub(&P::mul_base_field_var_by_nonresidue(&self.c1)?);
        let v2 = self.c0.op_mul(&self.c1);
        let v0 = v0.op_mul(&v3).op_add(&v2);
        Ok(Self::new(v0.op_add(&P::mul_base_field_var_by_nonresidue(&v2)?), v2.double()?))
    }
    fn frob(&self, power: usize) -> Res<Self> {
        let c0 = self.c0.frobenius_map(power)?;
        let mut c1 = self.c1.frobenius_map(power)?;
        P::mul_base_field_var_by_frob_coeff(&mut c1, power);
        Ok(Self::new(c0, c1))
    }
    pub fn unitary_inverse(&self) -> Res<Self> { Ok(Self::new(self.c0.clone(), self.c1.negate()?)) }
    pub fn conjugate(&mut self) -> Res<()> { self.c1 = self.c1.negate()?; Ok(()) }
    pub fn cyclotomic_exp(&self, e: impl AsRef<[u64]>) -> Res<Self> {
        let mut res: Option<Self> = None;
        for b in BitIteratorBE::without_leading_zeros(e) {
            res = match res { None => Some(self.clone()), Some(r) => { let r = r.sqr()?; Some(if b { r.op_mul(self) } else { r }) } };
        }
        Ok(res.unwrap_or_else(Self::one))
    }
}
impl<BF: FieldVar<P::BaseField, P::BasePrimeField>, P: CubicExtVarParams<BF>> CubicExtVar<BF, P> {
    fn op_mul(&self, o: &Self) -> Self {
        let v0 = self.c0.op_mul(&o.c0);
        let v1 = self.c1.op_mul(&o.c1);
        let v2 = self.c2.op_mul(&o.c2);
        let nr = |x: &BF| P::mul_base_field_var_by_nonresidue(x).unwrap();
        let m12 = self.c1.op_add(&self.c2).op_mul(&o.c1.op_add(&o.c2)).op_sub(&v1).op_sub(&v2);
        let m01 = self.c0.op_add(&self.c1).op_mul(&o.c0.op_add(&o.c1)).op_sub(&v0).op_sub(&v1);
        let m02 = self.c0.op_add(&self.c2).op_mul(&o.c0.op_add(&o.c2)).op_sub(&v0).op_sub(&v2).op_add(&v1);
        Self::new(nr(&m12).op_add(&v0), m01.op_add(&nr(&v2)), m02)
    }
    fn product_is(&self, o: &Self, r: &Self) -> Res<()> { self.op_mul(o).enforce_equal(r) }
    fn sqr(&self) -> Res<Self> {
        let nr = |x: &BF| P::mul_base_field_var_by_nonresidue(x);
        let s0 = self.c0.square()?;
        let s1 = self.c0.op_mul(&self.c1).double()?;
        let s2 = self.c0.op_sub(&self.c1).op_add(&self.c2).square()?;
        let s3 = self.c1.op_mul(&self.c2).double()?;
        let s4 = self.c2.square()?;
        Ok(Self::new(s0.op_add(&nr(&s3)?), s1.op_add(&nr(&s4)?), s1.op_add(&s2).op_add(&s3).op_sub(&s0).op_sub(&s4)))
    }
    fn frob(&self, power: usize) -> Res<Self> {
        let c0 = self.c0.frobenius_map(power)?;
        let mut c1 = self.c1.frobenius_map(power)?;
        let mut c2 = self.c2.frobenius_map(power)?;
        P::mul_base_field_vars_by_frob_coeff(&mut c1, &mut c2, power);
        Ok(Self::new(c0, c1, c2))
    }
}
// ---- the tower
pub type Fp2Var<P> = QuadExtVar<FpVar<<P as Fp2Parameters>::Fp>, Fp2ParamsWrapper<P>>;
impl<P: Fp2Parameters> QuadExtVarParams<FpVar<P::Fp>> for Fp2ParamsWrapper<P> {
    fn mul_base_field_var_by_nonresidue(fe: &FpVar<P::Fp>) -> Res<FpVar<P::Fp>> { Ok(fe * P::NONRESIDUE) }
    fn mul_base_field_var_by_frob_coeff(fe: &mut FpVar<P::Fp>, power: usize) { if power % 2 == 1 { *fe = fe.negate().unwrap(); } }
}
pub type Fp6Var<P> = CubicExtVar<Fp2Var<<P as Fp6Parameters>::Fp2Params>, Fp6ParamsWrapper<P>>;
impl<P: Fp6Parameters> CubicExtVarParams<Fp2Var<P::Fp2Params>> for Fp6ParamsWrapper<P> {
    fn mul_base_field_var_by_nonresidue(fe: &Fp2Var<P::Fp2Params>) -> Res<Fp2Var<P::Fp2Params>> { Ok(fe * P::nonresidue()) }
    fn mul_base_field_vars_by_frob_coeff(c1: &mut Fp2Var<P::Fp2Params>, c2: &mut Fp2Var<P::Fp2Params>, power: usize) {
        *c1 *= P::frobenius_coeff_fp6_c1(power % 6);
        *c2 *= P::frobenius_coeff_fp6_c2(power % 6);
    }
}
pub type Fp12Var<P> = QuadExtVar<Fp6Var<<P as Fp12Parameters>::Fp6Params>, Fp12ParamsWrapper<P>>;
impl<P: Fp12Parameters> QuadExtVarParams<Fp6Var<P::Fp6Params>> for Fp12ParamsWrapper<P> {
    fn mul_base_field_var_by_nonresidue(fe: &Fp6Var<P::Fp6Params>) -> Res<Fp6Var<P::Fp6Params>> {
        Ok(Fp6Var::<P::Fp6Params>::new(&fe.c2 * <P::Fp6Params as Fp6Parameters>::nonresidue(), fe.c0.clone(), fe.c1.clone()))
    }
    fn mul_base_field_var_by_frob_coeff(fe: &mut Fp6Var<P::Fp6Params>, power: usize) {
        let c = P::frobenius_coeff_fp12_c1(power % 12);
        fe.c0 *= c;
        fe.c1 *= c;
        fe.c2 *= c;
    }
}
type F2V<P> = Fp2Var<<<P as Fp12Parameters>::Fp6Params as Fp6Parameters>::Fp2Params>;
impl<P: Fp12Parameters> Fp12Var<P> {
    /// times (c0, 0, 0) + (d0, d1, 0) w
    pub fn mul_by_034(&mut self, c0: &F2V<P>, d0: &F2V<P>, d1: &F2V<P>) -> Res<()> {
        let a = self.c0.mul_by_base_field_var(c0);
        let b = mul_by_01::<P::Fp6Params>(&self.c1, d0, d1);
        let e = mul_by_01::<P::Fp6Params>(&self.c0.op_add(&self.c1), &c0.op_add(d0), d1);
        self.c1 = e.op_sub(&a).op_sub(&b);
        self.c0 = <Fp12ParamsWrapper<P> as QuadExtVarParams<_>>::mul_base_field_var_by_nonresidue(&b)?.op_add(&a);
        Ok(())
    }
}
fn mul_by_01<P: Fp6Parameters>(s: &Fp6Var<P>, c0: &Fp2Var<P::Fp2Params>, c1: &Fp2Var<P::Fp2Params>) -> Fp6Var<P> {
    let nr = |x: &Fp2Var<P::Fp2Params>| x * P::nonresidue();
    let a = s.c0.op_mul(c0);
    let b = s.c1.op_mul(c1);
    let t1 = nr(&c1.op_mul(&s.c1.op_add(&s.c2)).op_sub(&b)).op_add(&a);
    let t3 = c0.op_mul(&s.c0.op_add(&s.c2)).op_sub(&a).op_add(&b);
    let t2 = c0.op_add(c1).op_mul(&s.c0.op_add(&s.c1)).op_sub(&a).op_sub(&b);
    Fp6Var::<P>::new(t1, t2, t3)
}
#[doc(hidden)]
pub type _F2<P> = Fp2<P>;
