use super::boolean::{plain_bool, Boolean};
use crate::{alloc::*, eq::EqGadget, select::CondSelectGadget, Assignment, R1CSVar, Res, ToBitsGadget};
use ark_ff::{Field, PrimeField};
use ark_relations::{lc, r1cs::{ConstraintSystemRef, LinearCombination, Namespace, SynthesisError, Variable}};
use std::borrow::Borrow;
macro_rules! make_uint {
    ($name:ident, $n:expr, $native:ty) => {
        #[derive(Clone, Debug)]
        pub struct $name<F: Field> { bits: Vec<Boolean<F>> }
        impl<F: Field> R1CSVar<F> for $name<F> {
            type Value = $native;
            fn cs(&self) -> ConstraintSystemRef<F> { self.bits.cs() }
            fn value(&self) -> Res<$native> {
                let mut r: $native = 0;
                for (i, b) in self.bits.iter().enumerate() { r |= (b.value()? as $native) << i; }
                Ok(r)
            }
        }
        impl<F: Field> $name<F> {
            pub fn constant(v: $native) -> Self { $name { bits: (0..$n).map(|i| Boolean::Constant((v >> i) & 1 == 1)).collect() } }
            pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() }
            pub fn from_bits_le(bits: &[Boolean<F>]) -> Self { assert_eq!(bits.len(), $n); $name { bits: bits.to_vec() } }
            pub fn rotr(&self, by: usize) -> Self { let by = by % $n; let mut b = self.bits.clone(); b.rotate_left(by); $name { bits: b } }
            pub fn xor(&self, o: &Self) -> Res<Self> { Ok($name { bits: self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Res<Vec<_>>>()? }) }
            pub fn addmany(ops: &[Self]) -> Res<Self> where F: PrimeField {
                assert!(!ops.is_empty());
                if ops.len() == 1 { return Ok(ops[0].clone()); }
                let cs = ops.iter().fold(ConstraintSystemRef::None, |c, o| c.or(o.cs()));
                let max_bits = $n + (usize::BITS - (ops.len() - 1).leading_zeros()) as usize;
                if cs.is_none() {
                    let mut v: $native = 0;
                    for o in ops { v = v.wrapping_add(o.value()?); }
                    return Ok(Self::constant(v));
                }
                let mut l = LinearCombination::zero();
                for o in ops { let mut c = F::one(); for b in &o.bits { for (k, v) in &b.lc().0 { l.0.push((if k.is_one() { c } else { c * k }, *v)); } c.double_in_place(); } }
                l.compactify();
                let sum = || -> Res<u128> { let mut s = 0u128; for o in ops { s += o.value()? as u128; } Ok(s) };
                let s = sum();
                let mut bits = vec![];
                let mut c = F::one();
                let mut r = LinearCombination::zero();
                for i in 0..max_bits {
                    let b = plain_bool(&cs, || s.map(|s| (s >> i) & 1 == 1))?;
                    for (k, v) in &b.lc().0 { r.0.push((if k.is_one() { c } else { c * k }, *v)); }
                    c.double_in_place();
                    bits.push(b);
                }
                r.compactify();
                cs.enforce_constraint(l, lc!() + Variable::One, r)?;
                bits.truncate($n);
                Ok($name { bits })
            }
        }
        impl<F: Field> ToBitsGadget<F> for $name<F> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.bits.clone()) } }
        impl<F: Field> AllocVar<$native, F> for $name<F> {
            fn new_variable<T: Borrow<$native>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
                let cs = cs.into().cs();
                let v = f().map(|v| *v.borrow()).ok();
                let bits = (0..$n).map(|i| Boolean::new_variable(cs.clone(), || v.map(|v| (v >> i) & 1 == 1).get(), mode)).collect::<Res<Vec<_>>>()?;
                Ok($name { bits })
            }
        }
        impl<F: Field> EqGadget<F> for $name<F> {
            fn is_eq(&self, o: &Self) -> Res<Boolean<F>> { self.bits[..].is_eq(&o.bits[..]) }
            fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> { self.bits[..].conditional_enforce_equal(&o.bits[..], c) }
        }
        impl<F: Field> CondSelectGadget<F> for $name<F> {
            fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> {
                Ok($name { bits: t.bits.iter().zip(&f.bits).map(|(a, b)| c.select(a, b)).collect::<Res<Vec<_>>>()? })
            }
        }
    };
}
make_uint!(UInt16, 16, u16);
make_uint!(UInt32, 32, u32);
make_uint!(UInt64, 64, u64);
