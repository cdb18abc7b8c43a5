use super::{plain_var, FieldVar};
use crate::{alloc::*, bits::{bits_to_bytes, boolean::{plain_bool, Boolean}, uint8::UInt8, ToBitsGadget, ToBytesGadget}, eq::EqGadget, select::*, Assignment, R1CSVar, Res};
use ark_ff::{BigInteger, PrimeField};
use ark_relations::{lc, r1cs::{ConstraintSystemRef, LinearCombination, Namespace, SynthesisError, Variable}};
use std::borrow::Borrow;
use std::cmp::Ordering;

#[derive(Debug, Clone)]
#[must_use]
pub struct AllocatedFp<F: PrimeField> { pub variable: Variable, pub cs: ConstraintSystemRef<F> }
impl<F: PrimeField> AllocatedFp<F> {
    pub(crate) fn of(variable: Variable, cs: ConstraintSystemRef<F>) -> Self { AllocatedFp { variable, cs } }
    pub fn new(_: Option<F>, variable: Variable, cs: ConstraintSystemRef<F>) -> Self { AllocatedFp { variable, cs } }
    pub fn value(&self) -> Res<F> { self.cs.assigned_value(self.variable).get() }
    pub fn cs(&self) -> ConstraintSystemRef<F> { self.cs.clone() }
    fn lin(&self, l: LinearCombination<F>) -> Self { AllocatedFp { variable: self.cs.new_lc(l).unwrap(), cs: self.cs.clone() } }
}
/// the operations on allocated variables, those of `FpVar`
impl<F: PrimeField> AllocatedFp<F> {
    fn var(&self) -> FpVar<F> { Var(self.clone()) }
    fn back(v: FpVar<F>) -> Self { match v { Var(v) => v, Constant(_) => unreachable!() } }
    pub fn add(&self, o: &Self) -> Self { Self::back(self.var().op_add(&o.var())) }
    pub fn sub(&self, o: &Self) -> Self { Self::back(self.var().op_sub(&o.var())) }
    pub fn mul(&self, o: &Self) -> Self { Self::back(self.var().op_mul(&o.var())) }
    pub fn add_constant(&self, c: F) -> Self { Self::back(self.var().op_add(&Constant(c))) }
    pub fn sub_constant(&self, c: F) -> Self { Self::back(self.var().op_sub(&Constant(c))) }
    pub fn mul_constant(&self, c: F) -> Self { Self::back(self.var().op_mul(&Constant(c))) }
    pub fn double(&self) -> Res<Self> { Ok(Self::back(self.var().double()?)) }
    pub fn negate(&self) -> Self { self.lin(lc!() - self.variable) }
    pub fn square(&self) -> Res<Self> { Ok(self.mul(self)) }
    pub fn inverse(&self) -> Res<Self> { Ok(Self::back(self.var().inverse()?)) }
    pub fn mul_equals(&self, o: &Self, r: &Self) -> Res<()> { self.var().mul_equals(&o.var(), &r.var()) }
    pub fn square_equals(&self, r: &Self) -> Res<()> { self.var().square_equals(&r.var()) }
    pub fn is_eq(&self, o: &Self) -> Res<Boolean<F>> { self.var().is_eq(&o.var()) }
    pub fn is_neq(&self, o: &Self) -> Res<Boolean<F>> { self.var().is_neq(&o.var()) }
    pub fn is_zero(&self) -> Res<Boolean<F>> { self.var().is_zero() }
    pub fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { self.var().to_bits_le() }
    pub fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> { self.var().conditional_enforce_equal(&o.var(), c) }
    pub fn addmany<'a, I: Iterator<Item = &'a Self>>(i: I) -> Self {
        let mut cs = ConstraintSystemRef::None;
        let mut l = LinearCombination::zero();
        for v in i { cs = cs.or(v.cs.clone()); l = l + v.variable; }
        let variable = cs.new_lc(l).unwrap();
        AllocatedFp { variable, cs }
    }
}
impl<F: PrimeField> AllocVar<F, F> for AllocatedFp<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant { let v = *f()?.borrow(); let variable = cs.new_lc(lc!() + (v, Variable::One))?; return Ok(AllocatedFp { variable, cs }); }
        Ok(Self::back(FpVar::new_variable(cs, f, mode)?))
    }
}
impl<'a, F: PrimeField> std::iter::Sum<&'a FpVar<F>> for FpVar<F> {
    fn sum<I: Iterator<Item = &'a FpVar<F>>>(i: I) -> Self { i.fold(Constant(F::zero()), |a, b| a.op_add(b)) }
}
impl<F: PrimeField> std::iter::Sum for FpVar<F> {
    fn sum<I: Iterator<Item = FpVar<F>>>(i: I) -> Self { i.fold(Constant(F::zero()), |a, b| a.op_add(&b)) }
}
#[derive(Debug, Clone)]
#[must_use]
pub enum FpVar<F: PrimeField> { Constant(F), Var(AllocatedFp<F>) }
use FpVar::*;
impl<F: PrimeField> From<AllocatedFp<F>> for FpVar<F> { fn from(v: AllocatedFp<F>) -> Self { Var(v) } }
impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
    type Value = F;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Constant(_) => ConstraintSystemRef::None, Var(a) => a.cs.clone() } }
    fn value(&self) -> Res<F> { match self { Constant(v) => Ok(*v), Var(v) => v.value() } }
}
impl<F: PrimeField> From<Boolean<F>> for FpVar<F> {
    fn from(b: Boolean<F>) -> Self {
        if let Boolean::Constant(c) = b { Constant(F::from(c)) } else { let cs = b.cs(); let variable = cs.new_lc(b.lc()).unwrap(); Var(AllocatedFp { variable, cs }) }
    }
}
impl<F: PrimeField> FpVar<F> {
    pub fn of_const(v: F) -> Self { Constant(v) }
    pub(crate) fn lc(&self) -> LinearCombination<F> { match self { Constant(c) => LinearCombination::from((*c, Variable::One)), Var(v) => v.variable.into() } }
    fn op_add(&self, o: &Self) -> Self {
        match (self, o) {
            (Constant(a), Constant(b)) => Constant(*a + b),
            (Constant(c), Var(v)) | (Var(v), Constant(c)) => if c.is_zero() { Var(v.clone()) } else { Var(v.lin(lc!() + v.variable + (*c, Variable::One))) },
            (Var(a), Var(b)) => Var(a.lin(lc!() + a.variable + b.variable)),
        }
    }
    fn op_sub(&self, o: &Self) -> Self {
        match (self, o) {
            (Constant(a), Constant(b)) => Constant(*a - b),
            (Constant(c), Var(v)) => Var(v.lin(lc!() + (*c, Variable::One) - v.variable)),
            (Var(v), Constant(c)) => if c.is_zero() { Var(v.clone()) } else { Var(v.lin(lc!() + v.variable - (*c, Variable::One))) },
            (Var(a), Var(b)) => Var(a.lin(lc!() + a.variable - b.variable)),
        }
    }
    fn op_mul(&self, o: &Self) -> Self {
        match (self, o) {
            (Constant(a), Constant(b)) => Constant(*a * b),
            (Constant(c), Var(v)) | (Var(v), Constant(c)) => if c.is_one() { Var(v.clone()) } else { Var(v.lin(lc!() + (*c, v.variable))) },
            (Var(a), Var(b)) => {
                let r: FpVar<F> = plain_var(a.cs.clone(), || Ok(a.value()? * &b.value()?)).unwrap();
                a.cs.enforce_constraint(lc!() + a.variable, lc!() + b.variable, r.lc()).unwrap();
                r
            }
        }
    }
    pub fn is_constant_value(&self) -> bool { matches!(self, Constant(_)) }

    // ---- comparisons
    pub fn enforce_cmp(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Res<()> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.enforce_smaller_than(&r)
    }
    pub fn enforce_cmp_unchecked(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Res<()> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.enforce_smaller_than_unchecked(&r)
    }
    pub fn is_cmp(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Res<Boolean<F>> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.is_smaller_than(&r)
    }
    pub fn is_cmp_unchecked(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Res<Boolean<F>> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.is_smaller_than_unchecked(&r)
    }
    fn process_cmp_inputs(&self, other: &Self, ordering: Ordering, eq: bool) -> Res<(Self, Self)> {
        let (left, right) = match ordering {
            Ordering::Less => (self, other),
            Ordering::Greater => (other, self),
            Ordering::Equal => return Err(SynthesisError::Unsatisfiable),
        };
        let right = if eq { right.op_add(&Constant(F::one())) } else { right.clone() };
        Ok((left.clone(), right))
    }
    pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Res<()> {
        let _ = Boolean::enforce_smaller_or_equal_than_le(&self.to_non_unique_bits_le()?, F::modulus_minus_one_div_two())?;
        Ok(())
    }
    fn is_smaller_than(&self, other: &FpVar<F>) -> Res<Boolean<F>> {
        self.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        other.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        self.is_smaller_than_unchecked(other)
    }
    fn is_smaller_than_unchecked(&self, other: &FpVar<F>) -> Res<Boolean<F>> { Ok(self.op_sub(other).double()?.to_bits_le()?.first().unwrap().clone()) }
    fn enforce_smaller_than(&self, other: &FpVar<F>) -> Res<()> {
        self.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        other.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        self.enforce_smaller_than_unchecked(other)
    }
    fn enforce_smaller_than_unchecked(&self, other: &FpVar<F>) -> Res<()> {
        let r = self.is_smaller_than_unchecked(other)?;
        r.enforce_equal(&Boolean::Constant(true))
    }
}
crate::var_ops!([F: PrimeField], [], FpVar<F>, F,
    Add add AddAssign add_assign op_add, Sub sub SubAssign sub_assign op_sub, Mul mul MulAssign mul_assign op_mul);
impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
    fn op_add(&self, o: &Self) -> Self { FpVar::op_add(self, o) }
    fn op_sub(&self, o: &Self) -> Self { FpVar::op_sub(self, o) }
    fn op_mul(&self, o: &Self) -> Self { FpVar::op_mul(self, o) }
    fn constant(v: F) -> Self { Constant(v) }
    fn double(&self) -> Res<Self> { Ok(match self { Constant(c) => Constant(c.double()), Var(v) => Var(v.lin(lc!() + (F::one().double(), v.variable))) }) }
    fn negate(&self) -> Res<Self> { Ok(match self { Constant(c) => Constant(-*c), Var(v) => Var(v.lin(lc!() - v.variable)) }) }
    fn mul_equals(&self, o: &Self, result: &Self) -> Res<()> {
        let cs = self.cs().or(o.cs()).or(result.cs());
        if cs.is_none() { return if self.value()? * o.value()? == result.value()? { Ok(()) } else { Err(SynthesisError::Unsatisfiable) }; }
        cs.enforce_constraint(self.lc(), o.lc(), result.lc())
    }
    fn square_equals(&self, result: &Self) -> Res<()> { self.mul_equals(self, result) }
    fn inverse(&self) -> Res<Self> {
        match self {
            Constant(c) => c.inverse().get().map(Constant),
            Var(v) => {
                let inv: Self = plain_var(v.cs.clone(), || Ok(v.value()?.inverse().unwrap_or_else(F::zero)))?;
                v.cs.enforce_constraint(lc!() + v.variable, inv.lc(), lc!() + Variable::One)?;
                Ok(inv)
            }
        }
    }
    fn frobenius_map(&self, _: usize) -> Res<Self> { Ok(self.clone()) }
}
impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant { return Ok(Constant(*f()?.borrow())); }
        let g = || Ok(*f()?.borrow());
        let variable = if mode == AllocationMode::Input { cs.new_input_variable(g)? } else { cs.new_witness_variable(g)? };
        Ok(Var(AllocatedFp { variable, cs }))
    }
}
impl<F: PrimeField> EqGadget<F> for FpVar<F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> {
        if let (Constant(a), Constant(b)) = (self, o) { return Ok(Boolean::Constant(a == b)); }
        let cs = self.cs().or(o.cs());
        let d = self.op_sub(o);
        let ne = plain_bool_unchecked(&cs, || Ok(!d.value()?.is_zero()))?;
        let mult: Self = plain_var(cs.clone(), || Ok(d.value()?.inverse().unwrap_or_else(F::one)))?;
        // d * mult = ne ; d * (1 - ne) = 0
        cs.enforce_constraint(d.lc(), mult.lc(), ne.lc())?;
        cs.enforce_constraint(d.lc(), lc!() + Variable::One - &ne.lc(), lc!())?;
        Ok(ne.not())
    }
    fn conditional_enforce_equal(&self, o: &Self, cond: &Boolean<F>) -> Res<()> {
        if let (Constant(a), Constant(b)) = (self, o) {
            if a == b { return Ok(()); }
            return match cond { Boolean::Constant(false) => Ok(()), Boolean::Constant(true) => Err(SynthesisError::Unsatisfiable), c => c.enforce_equal(&Boolean::Constant(false)) };
        }
        if let Boolean::Constant(false) = cond { return Ok(()); }
        let d = self.op_sub(o);
        self.cs().or(o.cs()).enforce_constraint(d.lc(), cond.lc(), lc!())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, cond: &Boolean<F>) -> Res<()> {
        if let (Constant(a), Constant(b)) = (self, o) {
            if a != b { return Ok(()); }
            return match cond { Boolean::Constant(false) => Ok(()), Boolean::Constant(true) => Err(SynthesisError::Unsatisfiable), c => c.enforce_equal(&Boolean::Constant(false)) };
        }
        if let Boolean::Constant(false) = cond { return Ok(()); }
        let cs = self.cs().or(o.cs()).or(cond.cs());
        let d = self.op_sub(o);
        let mult: Self = plain_var(cs.clone(), || Ok(if cond.value()? { d.value()?.inverse().unwrap_or_else(F::zero) } else { F::zero() }))?;
        cs.enforce_constraint(d.lc(), mult.lc(), cond.lc())
    }
}
/// a boolean whose booleanity follows from the surrounding constraints
fn plain_bool_unchecked<F: PrimeField>(cs: &ConstraintSystemRef<F>, f: impl FnOnce() -> Res<bool>) -> Res<Boolean<F>> { plain_bool(cs, f) }
impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> {
        let bits = self.to_non_unique_bits_le()?;
        if let Var(_) = self { Boolean::enforce_in_field_le(&bits)?; }
        Ok(bits)
    }
    fn to_non_unique_bits_le(&self) -> Res<Vec<Boolean<F>>> {
        let n = F::size_in_bits();
        match self {
            Constant(c) => Ok(c.into_repr().to_bits_le().into_iter().take(n).map(Boolean::Constant).collect()),
            Var(v) => {
                let repr = v.value().map(|v| v.into_repr());
                let mut l = LinearCombination::zero();
                let mut p = F::one();
                let mut bits = Vec::with_capacity(n);
                for i in 0..n {
                    let b = plain_bool(&v.cs, || repr.map(|r| r.get_bit(i)))?;
                    l = l + b.lc() * p;
                    p.double_in_place();
                    bits.push(b);
                }
                l = l - v.variable;
                v.cs.enforce_constraint(lc!(), lc!(), l)?;
                Ok(bits)
            }
        }
    }
}
impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(bits_to_bytes(self.to_bits_le()?)) } }
impl<F: PrimeField> CondSelectGadget<F> for FpVar<F> {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> {
        if let Boolean::Constant(c) = cond { return Ok(if *c { t.clone() } else { f.clone() }); }
        if let (Constant(a), Constant(b)) = (t, f) {
            let cs = cond.cs();
            let variable = cs.new_lc(cond.lc() * (*a - b) + (*b, Variable::One))?;
            return Ok(Var(AllocatedFp { variable, cs }));
        }
        let cs = cond.cs();
        let r: Self = plain_var(cs.clone(), || if cond.value()? { t.value() } else { f.value() })?;
        cs.enforce_constraint(cond.lc(), t.lc() - f.lc(), r.lc() - f.lc())?;
        Ok(r)
    }
}
impl<F: PrimeField> TwoBitLookupGadget<F> for FpVar<F> {
    type TableConstant = F;
    fn two_bit_lookup(b: &[Boolean<F>], c: &[F]) -> Res<Self> {
        let m = b[0].and(&b[1])?;
        lookup_from(&m, b, c)
    }
}
fn lookup_from<F: PrimeField>(b0b1: &Boolean<F>, b: &[Boolean<F>], c: &[F]) -> Res<FpVar<F>> {
    assert_eq!(c.len(), 4);
    assert!(b.len() >= 2);
    // c0 + b0 (c1-c0) + b1 (c2-c0) + b0b1 (c3-c2-c1+c0)
    let l = LinearCombination::from((c[0], Variable::One)) + b[0].lc() * (c[1] - &c[0]) + b[1].lc() * (c[2] - &c[0]) + b0b1.lc() * (c[3] - &c[2] - &c[1] + &c[0]);
    let cs = b.cs().or(b0b1.cs());
    if cs.is_none() { return Ok(Constant(c[b[0].value()? as usize + 2 * b[1].value()? as usize])); }
    let variable = cs.new_lc(l)?;
    Ok(Var(AllocatedFp { variable, cs }))
}
impl<F: PrimeField> ThreeBitCondNegLookupGadget<F> for FpVar<F> {
    type TableConstant = F;
    fn three_bit_cond_neg_lookup(b: &[Boolean<F>], b0b1: &Boolean<F>, c: &[F]) -> Res<Self> {
        assert_eq!(b.len(), 3);
        let y = lookup_from(b0b1, b, c)?;
        let n = y.negate()?;
        b[2].select(&n, &y)
    }
}
