use crate::{alloc::AllocVar, bits::ToBytesGadget, eq::EqGadget, fields::FieldVar, groups::CurveVar, Res};
use ark_ec::PairingEngine;
use ark_ff::Field;
use std::fmt::Debug;
pub mod bls12;
pub trait PairingVar<E: PairingEngine, F: Field = <E as PairingEngine>::Fq> {
    type G1Var: CurveVar<E::G1Projective, F> + AllocVar<E::G1Projective, F> + AllocVar<E::G1Affine, F>;
    type G2Var: CurveVar<E::G2Projective, F> + AllocVar<E::G2Projective, F> + AllocVar<E::G2Affine, F>;
    type GTVar: FieldVar<E::Fqk, F>;
    type G1PreparedVar: ToBytesGadget<F> + AllocVar<E::G1Prepared, F> + Clone + Debug;
    type G2PreparedVar: ToBytesGadget<F> + AllocVar<E::G2Prepared, F> + Clone + Debug;
    fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Res<Self::GTVar>;
    fn final_exponentiation(p: &Self::GTVar) -> Res<Self::GTVar>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Res<Self::GTVar> { Self::product_of_pairings(&[p], &[q]) }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Res<Self::GTVar> {
        let m = Self::miller_loop(p, q)?;
        Self::final_exponentiation(&m)
    }
    fn prepare_g1(q: &Self::G1Var) -> Res<Self::G1PreparedVar>;
    fn prepare_g2(q: &Self::G2Var) -> Res<Self::G2PreparedVar>;
}
#[doc(hidden)]
pub fn _e<F: Field, T: EqGadget<F>>() {}
