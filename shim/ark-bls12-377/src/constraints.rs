use crate::{Fq, Fq12Parameters, Fq2Parameters, Fq6Parameters, Parameters};
use ark_r1cs_std::{fields::{fp::FpVar, Fp12Var, Fp2Var, Fp6Var}, groups::bls12};
pub type FqVar = FpVar<Fq>;
pub type Fq2Var = Fp2Var<Fq2Parameters>;
pub type Fq6Var = Fp6Var<Fq6Parameters>;
pub type Fq12Var = Fp12Var<Fq12Parameters>;
pub type G1Var = bls12::G1Var<Parameters>;
pub type G2Var = bls12::G2Var<Parameters>;
pub type G1PreparedVar = bls12::G1PreparedVar<Parameters>;
pub type G2PreparedVar = bls12::G2PreparedVar<Parameters>;
pub type PairingVar = ark_r1cs_std::pairing::bls12::PairingVar<Parameters>;
