use crate::{alloc::*, eq::EqGadget, fields::fp::{AllocatedFp, FpVar}, select::CondSelectGadget, Assignment, R1CSVar, Res, ToBytesGadget, trusted};
use super::uint8::UInt8;
use ark_ff::{BitIteratorBE, Field, PrimeField};
use ark_relations::{lc, r1cs::{ConstraintSystemRef, LinearCombination, Namespace, SynthesisError, Variable}};
use std::borrow::Borrow;

#[derive(Clone, Debug, Eq, PartialEq)]
#[must_use]
pub struct AllocatedBool<F: Field> { variable: Variable, cs: ConstraintSystemRef<F> }
pub type AllocatedBit<F> = AllocatedBool<F>;
pub(crate) fn bool_to_field<F: Field>(v: impl Borrow<bool>) -> F { if *v.borrow() { F::one() } else { F::zero() } }
impl<F: Field> AllocatedBool<F> {
    pub fn value(&self) -> Res<bool> {
        let v = self.cs.assigned_value(self.variable).get()?;
        // a dishonest prover may have put anything here: the booleanity constraint decides, the value reads as "non-zero"
        Ok(!v.is_zero())
    }
    pub fn variable(&self) -> Variable { self.variable }
    pub fn cs(&self) -> ConstraintSystemRef<F> { self.cs.clone() }
    fn plain(cs: &ConstraintSystemRef<F>, f: impl FnOnce() -> Res<bool>) -> Res<Self> {
        trusted(|| { let variable = cs.new_witness_variable(|| Ok(bool_to_field(f()?)))?; Ok(AllocatedBool { variable, cs: cs.clone() }) })
    }
    pub fn not(&self) -> Res<Self> {
        let variable = self.cs.new_lc(lc!() + Variable::One - self.variable)?;
        Ok(AllocatedBool { variable, cs: self.cs.clone() })
    }
    pub fn xor(&self, b: &Self) -> Res<Self> {
        let r = Self::plain(&self.cs, || Ok(self.value()? ^ b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable + self.variable, lc!() + b.variable, lc!() + self.variable + b.variable - r.variable)?;
        Ok(r)
    }
    pub fn and(&self, b: &Self) -> Res<Self> {
        let r = Self::plain(&self.cs, || Ok(self.value()? & b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable, lc!() + b.variable, lc!() + r.variable)?;
        Ok(r)
    }
    pub fn or(&self, b: &Self) -> Res<Self> {
        let r = Self::plain(&self.cs, || Ok(self.value()? | b.value()?))?;
        self.cs.enforce_constraint(lc!() + Variable::One - self.variable, lc!() + Variable::One - b.variable, lc!() + Variable::One - r.variable)?;
        Ok(r)
    }
    pub fn and_not(&self, b: &Self) -> Res<Self> {
        let r = Self::plain(&self.cs, || Ok(self.value()? & !b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable, lc!() + Variable::One - b.variable, lc!() + r.variable)?;
        Ok(r)
    }
    pub fn nor(&self, b: &Self) -> Res<Self> {
        let r = Self::plain(&self.cs, || Ok(!(self.value()? | b.value()?)))?;
        self.cs.enforce_constraint(lc!() + Variable::One - self.variable, lc!() + Variable::One - b.variable, lc!() + r.variable)?;
        Ok(r)
    }
}
impl<F: Field> AllocVar<bool, F> for AllocatedBool<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant {
            let variable = if *f()?.borrow() { Variable::One } else { Variable::Zero };
            return Ok(AllocatedBool { variable, cs });
        }
        let g = || Ok(bool_to_field(f()?));
        let variable = if mode == AllocationMode::Input { cs.new_input_variable(g)? } else { cs.new_witness_variable(g)? };
        // (1 - a) * a = 0
        cs.enforce_constraint(lc!() + Variable::One - variable, lc!() + variable, lc!())?;
        Ok(AllocatedBool { variable, cs })
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
#[must_use]
pub enum Boolean<F: Field> { Is(AllocatedBool<F>), Not(AllocatedBool<F>), Constant(bool) }
use Boolean::*;
impl<F: Field> From<AllocatedBool<F>> for Boolean<F> { fn from(b: AllocatedBool<F>) -> Self { Is(b) } }
impl<F: Field> R1CSVar<F> for Boolean<F> {
    type Value = bool;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Is(a) | Not(a) => a.cs.clone(), _ => ConstraintSystemRef::None } }
    fn value(&self) -> Res<bool> { match self { Constant(c) => Ok(*c), Is(v) => v.value(), Not(v) => v.value().map(|b| !b) } }
}
impl<F: Field> Boolean<F> {
    pub const TRUE: Self = Boolean::Constant(true);
    pub const FALSE: Self = Boolean::Constant(false);
    pub fn constant(b: bool) -> Self { Constant(b) }
    pub fn lc(&self) -> LinearCombination<F> {
        match self {
            Constant(false) => lc!(),
            Constant(true) => lc!() + Variable::One,
            Is(v) => v.variable.into(),
            Not(v) => lc!() + Variable::One - v.variable,
        }
    }
    pub fn constant_vec_from_bytes(v: &[u8]) -> Vec<Self> { v.iter().flat_map(|b| (0..8).map(move |i| Constant((b >> i) & 1 == 1))).collect() }
    pub fn not(&self) -> Self { match self { Constant(c) => Constant(!c), Is(v) => Not(v.clone()), Not(v) => Is(v.clone()) } }
    pub fn xor<'a>(&'a self, o: &'a Self) -> Res<Self> {
        Ok(match (self, o) {
            (Constant(false), x) | (x, Constant(false)) => x.clone(),
            (Constant(true), x) | (x, Constant(true)) => x.not(),
            (Is(a), Not(b)) | (Not(a), Is(b)) => Is(a.xor(b)?).not(),
            (Is(a), Is(b)) | (Not(a), Not(b)) => Is(a.xor(b)?),
        })
    }
    pub fn or<'a>(&'a self, o: &'a Self) -> Res<Self> {
        Ok(match (self, o) {
            (Constant(false), x) | (x, Constant(false)) => x.clone(),
            (Constant(true), _) | (_, Constant(true)) => Constant(true),
            (Is(a), Is(b)) => Is(a.or(b)?),
            (Is(a), Not(b)) | (Not(b), Is(a)) => Not(b.and_not(a)?),
            (Not(a), Not(b)) => Not(a.and(b)?),
        })
    }
    pub fn and<'a>(&'a self, o: &'a Self) -> Res<Self> {
        Ok(match (self, o) {
            (Constant(false), _) | (_, Constant(false)) => Constant(false),
            (Constant(true), x) | (x, Constant(true)) => x.clone(),
            (Is(a), Not(b)) | (Not(b), Is(a)) => Is(a.and_not(b)?),
            (Not(a), Not(b)) => Is(a.nor(b)?),
            (Is(a), Is(b)) => Is(a.and(b)?),
        })
    }
    pub fn kary_and(bits: &[Self]) -> Res<Self> {
        assert!(!bits.is_empty());
        let mut cur = bits[0].clone();
        for b in &bits[1..] { cur = cur.and(b)?; }
        Ok(cur)
    }
    pub fn kary_or(bits: &[Self]) -> Res<Self> {
        assert!(!bits.is_empty());
        let mut cur = bits[0].clone();
        for b in &bits[1..] { cur = cur.or(b)?; }
        Ok(cur)
    }
    pub fn kary_nand(bits: &[Self]) -> Res<Self> { Ok(Self::kary_and(bits)?.not()) }
    pub fn enforce_kary_nand(bits: &[Self]) -> Res<()> { Self::kary_nand(bits)?.enforce_equal(&Constant(true)) }
    /// bits (LE) encode an element smaller than the characteristic
    pub fn enforce_in_field_le(bits: &[Self]) -> Res<()> {
        let mut b = F::characteristic().to_vec();
        assert_eq!(b[0] % 2, 1);
        b[0] -= 1;
        let run = Self::enforce_smaller_or_equal_than_le(bits, b)?;
        assert!(run.is_empty());
        Ok(())
    }
    /// bits (LE) <= element; returns the current run
    pub fn enforce_smaller_or_equal_than_le<'a>(bits: &[Self], element: impl AsRef<[u64]>) -> Res<Vec<Self>> {
        let b: &[u64] = element.as_ref();
        let mut bits_iter = bits.iter().rev();
        let mut last_run = Constant(true);
        let mut current_run: Vec<Self> = vec![];
        let mut element_num_bits = 0;
        for _ in BitIteratorBE::without_leading_zeros(b) { element_num_bits += 1; }
        if bits.len() > element_num_bits {
            let mut or_result = Constant(false);
            for should_be_zero in &bits[element_num_bits..] {
                or_result = or_result.or(should_be_zero)?;
                let _ = bits_iter.next().unwrap();
            }
            or_result.enforce_equal(&Constant(false))?;
        }
        for (b, a) in BitIteratorBE::without_leading_zeros(b).zip(bits_iter.by_ref()) {
            if b {
                current_run.push(a.clone());
            } else {
                if !current_run.is_empty() {
                    current_run.push(last_run.clone());
                    last_run = Self::kary_and(&current_run)?;
                    current_run.truncate(0);
                }
                // a must be zero if the run is all ones
                Self::enforce_kary_nand(&[last_run.clone(), a.clone()])?;
            }
        }
        assert!(bits_iter.next().is_none());
        Ok(current_run)
    }
    pub fn select<T: CondSelectGadget<F>>(&self, first: &T, second: &T) -> Res<T> { T::conditionally_select(self, first, second) }
}
impl<F: PrimeField> Boolean<F> {
    /// LE bits to a field element (the value must fit)
    pub fn le_bits_to_fp_var(bits: &[Self]) -> Res<FpVar<F>> {
        let cs = bits.cs();
        if cs.is_none() {
            let mut acc = F::zero();
            for b in bits.iter().rev() { acc.double_in_place(); if b.value()? { acc += F::one(); } }
            return Ok(FpVar::Constant(acc));
        }
        // more bits than the field holds: upstream reduces modulo p after enforcing the range
        if bits.len() >= F::size_in_bits() { Self::enforce_in_field_le(bits)?; }
        let mut l = LinearCombination::zero();
        let mut p = F::one();
        for b in bits { l = l + b.lc() * p; p.double_in_place(); }
        let variable = cs.new_lc(l)?;
        Ok(FpVar::Var(AllocatedFp::of(variable, cs)))
    }
}
impl<F: Field> AllocVar<bool, F> for Boolean<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        if mode == AllocationMode::Constant { Ok(Constant(*f()?.borrow())) } else { AllocatedBool::new_variable(cs, f, mode).map(Is) }
    }
}
impl<F: Field> EqGadget<F> for Boolean<F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> { Ok(self.xor(o)?.not()) }
    fn conditional_enforce_equal(&self, o: &Self, cond: &Boolean<F>) -> Res<()> {
        use Boolean::*;
        let difference = match (self, o) {
            (Constant(a), Constant(b)) if a == b => return Ok(()),
            (Constant(_), Constant(_)) => return match cond {
                Constant(false) => Ok(()),
                Constant(true) => Err(SynthesisError::AssignmentMissing),
                c => c.cs().enforce_constraint(c.lc(), lc!() + Variable::One, lc!()),
            },
            (a, b) => a.lc() - b.lc(),
        };
        if let Constant(false) = cond { return Ok(()); }
        self.cs().or(o.cs()).or(cond.cs()).enforce_constraint(difference, cond.lc(), lc!())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, cond: &Boolean<F>) -> Res<()> {
        use Boolean::*;
        if let (Constant(a), Constant(b)) = (self, o) {
            if a != b { return Ok(()); }
            return match cond {
                Constant(false) => Ok(()),
                Constant(true) => Err(SynthesisError::AssignmentMissing),
                c => c.cs().enforce_constraint(c.lc(), lc!() + Variable::One, lc!()),
            };
        }
        // 1 - a - b = 0 iff a != b
        if let Constant(false) = cond { return Ok(()); }
        let d = lc!() + Variable::One - self.lc() - o.lc();
        self.cs().or(o.cs()).or(cond.cs()).enforce_constraint(d, cond.lc(), lc!())
    }
}
impl<F: Field> ToBytesGadget<F> for Boolean<F> {
    fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(super::bits_to_bytes(vec![self.clone()])) }
}
impl<F: Field> CondSelectGadget<F> for Boolean<F> {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> {
        use Boolean::*;
        match cond {
            Constant(true) => Ok(t.clone()),
            Constant(false) => Ok(f.clone()),
            cond => match (t, f) {
                (x, Constant(false)) => cond.and(x),
                (Constant(false), x) => cond.not().and(x),
                (Constant(true), x) => cond.or(x),
                (x, Constant(true)) => cond.not().or(x),
                (a, b) => {
                    let cs = cond.cs();
                    let r = Is(AllocatedBool::plain(&cs, || Ok(if cond.value()? { t.value()? } else { f.value()? }))?);
                    cs.enforce_constraint(cond.lc(), lc!() + a.lc() - b.lc(), lc!() + r.lc() - b.lc())?;
                    Ok(r)
                }
            },
        }
    }
}
impl<F: Field> std::ops::Not for Boolean<F> { type Output = Self; fn not(self) -> Self { Boolean::not(&self) } }
impl<'a, F: Field> std::ops::Not for &'a Boolean<F> { type Output = Boolean<F>; fn not(self) -> Boolean<F> { Boolean::not(self) } }
pub(crate) fn plain_bool<F: Field>(cs: &ConstraintSystemRef<F>, f: impl FnOnce() -> Res<bool>) -> Res<Boolean<F>> {
    trusted(|| Boolean::new_witness(cs.clone(), f))
}
