use super::{sw::{AffineVar, ProjectiveVar}, CurveVar};
use crate::{alloc::*, bits::{boolean::Boolean, uint8::UInt8, ToBytesGadget}, eq::EqGadget, fields::{fp::FpVar, Fp2Var, FieldVar}, R1CSVar, Res};
use ark_ec::bls12::{Bls12Parameters, G1Prepared, G2Prepared, TwistType};
use ark_ff::{BitIteratorBE, Field, One};
use ark_relations::r1cs::{Namespace, SynthesisError};
use std::borrow::Borrow;
pub type G1Var<P> = ProjectiveVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
pub type G1AffineVar<P> = AffineVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
pub type G2Var<P> = ProjectiveVar<<P as Bls12Parameters>::G2Parameters, Fp2Var<<P as Bls12Parameters>::Fp2Params>>;
pub type G2AffineVar<P> = AffineVar<<P as Bls12Parameters>::G2Parameters, Fp2Var<<P as Bls12Parameters>::Fp2Params>>;

#[must_use]
pub struct G1PreparedVar<P: Bls12Parameters>(pub G1AffineVar<P>);
impl<P: Bls12Parameters> Clone for G1PreparedVar<P> { fn clone(&self) -> Self { G1PreparedVar(self.0.clone()) } }
impl<P: Bls12Parameters> std::fmt::Debug for G1PreparedVar<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "G1PreparedVar({:?})", self.0) } }
impl<P: Bls12Parameters> G1PreparedVar<P> {
    pub fn value(&self) -> Res<G1Prepared<P>> { Ok(G1Prepared(self.0.value()?)) }
    pub fn from_group_var(q: &G1Var<P>) -> Res<Self> { Ok(Self(q.to_affine()?)) }
}
impl<P: Bls12Parameters> AllocVar<G1Prepared<P>, P::Fp> for G1PreparedVar<P> {
    fn new_variable<T: Borrow<G1Prepared<P>>>(cs: impl Into<Namespace<P::Fp>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let g = <G1Var<P> as CurveVar<_, _>>::new_variable_omit_prime_order_check(cs, || f().map(|g| g.borrow().0.into()), mode)?;
        Self::from_group_var(&g)
    }
}
impl<P: Bls12Parameters> ToBytesGadget<P::Fp> for G1PreparedVar<P> {
    fn to_bytes(&self) -> Res<Vec<UInt8<P::Fp>>> { let mut b = self.0.x.to_bytes()?; b.extend(self.0.y.to_bytes()?); b.extend(self.0.infinity.to_bytes()?); Ok(b) }
}
type F2V<P> = Fp2Var<<P as Bls12Parameters>::Fp2Params>;
/// per step: slope term and constant term of the line
#[must_use]
pub struct G2PreparedVar<P: Bls12Parameters> { pub ell_coeffs: Vec<(F2V<P>, F2V<P>)> }
impl<P: Bls12Parameters> Clone for G2PreparedVar<P> { fn clone(&self) -> Self { G2PreparedVar { ell_coeffs: self.ell_coeffs.clone() } } }
impl<P: Bls12Parameters> std::fmt::Debug for G2PreparedVar<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "G2PreparedVar({})", self.ell_coeffs.len()) } }
impl<P: Bls12Parameters> G2PreparedVar<P> {
    pub fn from_group_var(q: &G2Var<P>) -> Res<Self> {
        assert!(matches!(P::TWIST_TYPE, TwistType::D), "only D-type twists are modelled");
        let q = q.to_affine()?;
        // the point at infinity is not a valid argument
        q.infinity.enforce_equal(&Boolean::Constant(false))?;
        let (mut rx, mut ry) = (q.x.clone(), q.y.clone());
        let two_inv = P::Fp::one().double().inverse().unwrap();
        let mut out = vec![];
        let half = |v: &F2V<P>| { let mut v = v.clone(); v.c0 *= two_inv; v.c1 *= two_inv; v };
        let step = |rx: &mut F2V<P>, ry: &mut F2V<P>, l: F2V<P>, ox: &F2V<P>| -> Res<(F2V<P>, F2V<P>)> {
            let x3 = l.square()?.op2(&*rx, ox);
            let e = mulv::<P>(&l, rx) - &*ry;
            let y3 = e.clone() - mulv::<P>(&l, &x3);
            *rx = x3;
            *ry = y3;
            Ok((l.negate()?, e))
        };
        for i in BitIteratorBE::without_leading_zeros(P::X).skip(1) {
            // lambda = 3x^2 / 2y
            let xx = rx.square()?;
            let l = half(&mulv::<P>(&(xx.double()? + &xx), &ry.inverse()?));
            let ox = rx.clone();
            out.push(step(&mut rx, &mut ry, l, &ox)?);
            if i {
                // lambda = (qy - ry) / (qx - rx)
                let l = mulv::<P>(&(q.y.clone() - &ry), &(q.x.clone() - &rx).inverse()?);
                out.push(step(&mut rx, &mut ry, l, &q.x)?);
            }
        }
        Ok(G2PreparedVar { ell_coeffs: out })
    }
}
fn mulv<P: Bls12Parameters>(a: &F2V<P>, b: &F2V<P>) -> F2V<P> { a * b }
trait SubTwo { fn op2(self, a: &Self, b: &Self) -> Self; }
impl<P: ark_ff::Fp2Parameters> SubTwo for Fp2Var<P> { fn op2(self, a: &Self, b: &Self) -> Self { self - a - b } }
impl<P: Bls12Parameters> AllocVar<G2Prepared<P>, P::Fp> for G2PreparedVar<P> {
    fn new_variable<T: Borrow<G2Prepared<P>>>(_: impl Into<Namespace<P::Fp>>, _: impl FnOnce() -> Result<T, SynthesisError>, _: AllocationMode) -> Res<Self> {
        unimplemented!("allocate the group element and prepare it")
    }
}
impl<P: Bls12Parameters> ToBytesGadget<P::Fp> for G2PreparedVar<P> {
    fn to_bytes(&self) -> Res<Vec<UInt8<P::Fp>>> { let mut r = vec![]; for (a, b) in &self.ell_coeffs { r.extend(a.to_bytes()?); r.extend(b.to_bytes()?); } Ok(r) }
}
#[doc(hidden)]
pub fn _r<T: R1CSVar<F>, F: Field>() {}
