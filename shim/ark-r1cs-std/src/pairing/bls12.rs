use super::PairingVar as PG;
use crate::{fields::{fp::FpVar, Fp12Var, Fp2Var, FieldVar}, groups::bls12::{G1PreparedVar, G1Var, G2PreparedVar, G2Var}, Res};
use ark_ec::bls12::{Bls12, Bls12Parameters};
use ark_ff::BitIteratorBE;
use std::marker::PhantomData;
#[derive(Debug)]
pub struct PairingVar<P: Bls12Parameters>(PhantomData<P>);
impl<P: Bls12Parameters> Clone for PairingVar<P> { fn clone(&self) -> Self { PairingVar(PhantomData) } }
type F12<P> = Fp12Var<<P as Bls12Parameters>::Fp12Params>;
fn ell<P: Bls12Parameters>(f: &mut F12<P>, c: &(Fp2Var<P::Fp2Params>, Fp2Var<P::Fp2Params>), p: &G1PreparedVar<P>) -> Res<()> {
    let (x, y) = (&p.0.x, &p.0.y);
    let zero: FpVar<P::Fp> = FpVar::zero();
    let c0 = Fp2Var::<P::Fp2Params>::new(y.clone(), zero);
    let d0 = c.0.mul_by_base_field_var(x);
    f.mul_by_034(&c0, &d0, &c.1)
}
fn exp_by_x<P: Bls12Parameters>(f: &F12<P>) -> Res<F12<P>> {
    let mut r = f.cyclotomic_exp(P::X)?;
    if P::X_IS_NEGATIVE { r.conjugate()?; }
    Ok(r)
}
impl<P: Bls12Parameters> PG<Bls12<P>, P::Fp> for PairingVar<P> {
    type G1Var = G1Var<P>;
    type G2Var = G2Var<P>;
    type G1PreparedVar = G1PreparedVar<P>;
    type G2PreparedVar = G2PreparedVar<P>;
    type GTVar = F12<P>;
    fn miller_loop(ps: &[Self::G1PreparedVar], qs: &[Self::G2PreparedVar]) -> Res<Self::GTVar> {
        let mut pairs: Vec<_> = ps.iter().zip(qs.iter()).map(|(p, q)| (p, q.ell_coeffs.iter())).collect();
        let mut f: F12<P> = FieldVar::one();
        for i in BitIteratorBE::without_leading_zeros(P::X).skip(1) {
            f = f.square()?;
            for (p, c) in pairs.iter_mut() { ell::<P>(&mut f, c.next().unwrap(), p)?; }
            if i { for (p, c) in pairs.iter_mut() { ell::<P>(&mut f, c.next().unwrap(), p)?; } }
        }
        if P::X_IS_NEGATIVE { f.conjugate()?; }
        Ok(f)
    }
    fn final_exponentiation(f: &Self::GTVar) -> Res<Self::GTVar> {
        let mut f1 = f.clone();
        f1.conjugate()?;
        let mut r = f1 * &f.inverse()?;
        let t = r.clone();
        r = r.frobenius_map(2)? * &t;
        let sub1 = |a: &F12<P>| -> Res<F12<P>> { Ok(exp_by_x::<P>(a)? * &a.unitary_inverse()?) };
        let y0 = sub1(&sub1(&r)?)?;
        let y1 = exp_by_x::<P>(&y0)? * &y0.frobenius_map(1)?;
        let y2 = exp_by_x::<P>(&exp_by_x::<P>(&y1)?)? * &y1.frobenius_map(2)? * &y1.unitary_inverse()?;
        Ok(y2 * &r.square()? * &r)
    }
    fn prepare_g1(p: &Self::G1Var) -> Res<Self::G1PreparedVar> { G1PreparedVar::from_group_var(p) }
    fn prepare_g2(q: &Self::G2Var) -> Res<Self::G2PreparedVar> { G2PreparedVar::from_group_var(q) }
}
