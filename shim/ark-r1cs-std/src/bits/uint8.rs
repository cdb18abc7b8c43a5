use super::boolean::Boolean;
use crate::{alloc::*, eq::EqGadget, fields::fp::FpVar, select::CondSelectGadget, Assignment, R1CSVar, Res, ToBitsGadget, ToBytesGadget};
use ark_ff::{Field, PrimeField, ToConstraintField};
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
#[derive(Clone, Debug)]
pub struct UInt8<F: Field> { pub bits: Vec<Boolean<F>>, pub value: Option<u8> }
impl<F: Field> R1CSVar<F> for UInt8<F> {
    type Value = u8;
    fn cs(&self) -> ConstraintSystemRef<F> { self.bits.cs() }
    fn value(&self) -> Res<u8> {
        let mut r = 0u8;
        for (i, b) in self.bits.iter().enumerate() { r |= (b.value()? as u8) << i; }
        Ok(r)
    }
}
impl<F: Field> UInt8<F> {
    pub fn constant_vec(v: &[u8]) -> Vec<Self> { v.iter().map(|b| Self::constant(*b)).collect() }
    pub fn constant(v: u8) -> Self { UInt8 { bits: (0..8).map(|i| Boolean::Constant((v >> i) & 1 == 1)).collect(), value: Some(v) } }
    pub fn new_witness_vec(cs: impl Into<Namespace<F>>, values: &[impl Into<Option<u8>> + Copy]) -> Res<Vec<Self>> {
        let cs = cs.into().cs();
        values.iter().map(|v| { let v: Option<u8> = (*v).into(); Self::new_witness(cs.clone(), || v.get()) }).collect()
    }
    /// inputs packed into field elements
    pub fn new_input_vec(cs: impl Into<Namespace<F>>, values: &[u8]) -> Res<Vec<Self>> where F: PrimeField {
        let cs = cs.into().cs();
        let n = values.len();
        let max = (<F::Params as ark_ff::FpParameters>::CAPACITY / 8) as usize;
        let elems: Vec<F> = values.to_field_elements().unwrap();
        let mut bits = vec![];
        for e in elems {
            let fe = FpVar::new_input(cs.clone(), || Ok(e))?;
            let mut b = fe.to_bits_le()?;
            b.truncate(8 * max);
            bits.extend(b);
        }
        Ok(bits[..8 * n].chunks(8).map(Self::from_bits_le).collect())
    }
    pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
        assert_eq!(bits.len(), 8);
        let mut value = Some(0u8);
        for (i, b) in bits.iter().enumerate() { value = match (value, b.value()) { (Some(v), Ok(b)) => Some(v | (b as u8) << i), _ => None }; }
        UInt8 { bits: bits.to_vec(), value }
    }
    pub fn xor(&self, o: &Self) -> Res<Self> {
        let bits = self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Res<Vec<_>>>()?;
        Ok(Self::from_bits_le(&bits))
    }
    pub fn into_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() }
}
impl<F: Field> AllocVar<u8, F> for UInt8<F> {
    fn new_variable<T: Borrow<u8>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let v = f().map(|v| *v.borrow()).ok();
        let bits = (0..8).map(|i| Boolean::new_variable(cs.clone(), || v.map(|v| (v >> i) & 1 == 1).get(), mode)).collect::<Res<Vec<_>>>()?;
        Ok(Self::from_bits_le(&bits))
    }
}
impl<F: Field> EqGadget<F> for UInt8<F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> { self.bits[..].is_eq(&o.bits[..]) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> { self.bits[..].conditional_enforce_equal(&o.bits[..], c) }
}
impl<F: Field> CondSelectGadget<F> for UInt8<F> {
    fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> {
        let bits = t.bits.iter().zip(&f.bits).map(|(a, b)| c.select(a, b)).collect::<Res<Vec<_>>>()?;
        Ok(Self::from_bits_le(&bits))
    }
}
impl<F: Field> ToBytesGadget<F> for UInt8<F> { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(vec![self.clone()]) } }
