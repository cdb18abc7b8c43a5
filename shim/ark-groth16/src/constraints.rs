use crate::{Groth16, Proof, ProvingKey, VerifyingKey};
use ark_crypto_primitives::snark::{BooleanInputVar, SNARKGadget, SNARK};
use ark_ec::{AffineCurve, PairingEngine};
use ark_r1cs_std::{alloc::AllocationMode, prelude::*};
use ark_relations::r1cs::{Namespace, SynthesisError};
use std::{borrow::Borrow, marker::PhantomData};
impl<E: PairingEngine> SNARK<E::Fr> for Groth16<E> { type ProvingKey = ProvingKey<E>; type VerifyingKey = VerifyingKey<E>; type Proof = Proof<E>; }
pub struct ProofVar<E: PairingEngine, P: PairingVar<E>> { pub a: P::G1Var, pub b: P::G2Var, pub c: P::G1Var }
impl<E: PairingEngine, P: PairingVar<E>> Clone for ProofVar<E, P> { fn clone(&self) -> Self { ProofVar { a: self.a.clone(), b: self.b.clone(), c: self.c.clone() } } }
pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E>> { pub alpha_g1: P::G1Var, pub beta_g2: P::G2Var, pub gamma_g2: P::G2Var, pub delta_g2: P::G2Var, pub gamma_abc_g1: Vec<P::G1Var> }
impl<E: PairingEngine, P: PairingVar<E>> Clone for VerifyingKeyVar<E, P> {
    fn clone(&self) -> Self { VerifyingKeyVar { alpha_g1: self.alpha_g1.clone(), beta_g2: self.beta_g2.clone(), gamma_g2: self.gamma_g2.clone(), delta_g2: self.delta_g2.clone(), gamma_abc_g1: self.gamma_abc_g1.clone() } }
}
impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<Proof<E>, E::Fq> for ProofVar<E, P> {
    fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let p = f().map(|p| p.borrow().clone());
        let g = |sel: fn(&Proof<E>) -> E::G1Affine| P::G1Var::new_variable(cs.clone(), || p.as_ref().map(|p| sel(p).into_projective()).map_err(|e| *e), mode);
        let a = g(|p| p.a)?;
        let b = P::G2Var::new_variable(cs.clone(), || p.as_ref().map(|p| p.b.into_projective()).map_err(|e| *e), mode)?;
        let c = g(|p| p.c)?;
        Ok(ProofVar { a, b, c })
    }
}
impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<VerifyingKey<E>, E::Fq> for VerifyingKeyVar<E, P> {
    fn new_variable<T: Borrow<VerifyingKey<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let vk = f()?.borrow().clone();
        let g1 = |g: &E::G1Affine| P::G1Var::new_variable(cs.clone(), || Ok(g.into_projective()), mode);
        let g2 = |g: &E::G2Affine| P::G2Var::new_variable(cs.clone(), || Ok(g.into_projective()), mode);
        Ok(VerifyingKeyVar {
            alpha_g1: g1(&vk.alpha_g1)?, beta_g2: g2(&vk.beta_g2)?, gamma_g2: g2(&vk.gamma_g2)?, delta_g2: g2(&vk.delta_g2)?,
            gamma_abc_g1: vk.gamma_abc_g1.iter().map(g1).collect::<Result<_, _>>()?,
        })
    }
}
/// What a verification inside a circuit was given and what it came out as, for the monitors.
#[derive(Clone, Debug)]
pub struct Verification { pub inputs: Vec<Vec<Option<bool>>>, pub result: Option<bool> }
thread_local! { static SEEN: std::cell::RefCell<Vec<Verification>> = Default::default(); }
pub fn take_verifications() -> Vec<Verification> { SEEN.with(|e| std::mem::take(&mut *e.borrow_mut())) }
pub struct Groth16VerifierGadget<E: PairingEngine, P: PairingVar<E>> { _p: PhantomData<fn() -> (E, P)> }
impl<E: PairingEngine, P: PairingVar<E, E::Fq>> SNARKGadget<E::Fr, E::Fq, Groth16<E>> for Groth16VerifierGadget<E, P> {
    type VerifyingKeyVar = VerifyingKeyVar<E, P>;
    type InputVar = BooleanInputVar<E::Fr, E::Fq>;
    type ProofVar = ProofVar<E, P>;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<E::Fq>, SynthesisError> {
        ark_relations::r1cs::fault::trusted(|| {
            let inputs: Vec<Vec<Boolean<E::Fq>>> = x.clone().into_iter().collect();
            assert!(inputs.len() + 1 == vk.gamma_abc_g1.len());
            let mut g_ic = vk.gamma_abc_g1[0].clone();
            for (bits, b) in inputs.iter().zip(&vk.gamma_abc_g1[1..]) { g_ic += b.scalar_mul_le(bits.iter())?; }
            let ps = [P::prepare_g1(&proof.a)?, P::prepare_g1(&g_ic)?, P::prepare_g1(&proof.c)?];
            let qs = [P::prepare_g2(&proof.b)?, P::prepare_g2(&vk.gamma_g2.negate()?)?, P::prepare_g2(&vk.delta_g2.negate()?)?];
            let lhs = P::product_of_pairings(&ps, &qs)?;
            let rhs = P::pairing(P::prepare_g1(&vk.alpha_g1)?, P::prepare_g2(&vk.beta_g2)?)?;
            let out = lhs.is_eq(&rhs)?;
            let inputs = inputs.iter().map(|i| i.iter().map(|b| b.value().ok()).collect()).collect();
            SEEN.with(|e| e.borrow_mut().push(Verification { inputs, result: out.value().ok() }));
            Ok(out)
        })
    }
}
