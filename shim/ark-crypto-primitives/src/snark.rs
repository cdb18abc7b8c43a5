use ark_ff::PrimeField;
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::SynthesisError;
use std::marker::PhantomData;
/// a proof system over statements in `F`
pub trait SNARK<F: PrimeField> { type ProvingKey: Clone; type VerifyingKey: Clone; type Proof: Clone; }
pub trait SNARKGadget<F: PrimeField, ConstraintF: PrimeField, S: SNARK<F>> {
    type VerifyingKeyVar: AllocVar<S::VerifyingKey, ConstraintF> + Clone;
    type InputVar: Clone;
    type ProofVar: AllocVar<S::Proof, ConstraintF> + Clone;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<ConstraintF>, SynthesisError>;
}
#[derive(Clone)]
pub struct BooleanInputVar<F: PrimeField, CF: PrimeField> { val: Vec<Vec<Boolean<CF>>>, _f: PhantomData<F> }
impl<F: PrimeField, CF: PrimeField> BooleanInputVar<F, CF> {
    pub fn new(val: Vec<Vec<Boolean<CF>>>) -> Self { BooleanInputVar { val, _f: PhantomData } }
}
impl<F: PrimeField, CF: PrimeField> IntoIterator for BooleanInputVar<F, CF> {
    type Item = Vec<Boolean<CF>>;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter { self.val.into_iter() }
}
