use crate::{models::short_weierstrass_jacobian::{GroupAffine, GroupProjective}, models::{ModelParameters, SWModelParameters}, PairingEngine, AffineCurve};
use ark_ff::{biginteger::BitIteratorBE, Field, Fp12, Fp12Parameters, Fp2, Fp2Parameters, Fp6Parameters, One, PrimeField, SquareRootField, ToBytes, Zero};
use std::io::{Result as IoResult, Write};
use std::marker::PhantomData;

pub enum TwistType { M, D }
pub trait Bls12Parameters: 'static {
    const X: &'static [u64];
    const X_IS_NEGATIVE: bool;
    const TWIST_TYPE: TwistType;
    type Fp: PrimeField + SquareRootField + Into<<Self::Fp as PrimeField>::BigInt>;
    type Fp2Params: Fp2Parameters<Fp = Self::Fp>;
    type Fp6Params: Fp6Parameters<Fp2Params = Self::Fp2Params>;
    type Fp12Params: Fp12Parameters<Fp6Params = Self::Fp6Params>;
    type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
    type G2Parameters: SWModelParameters<BaseField = Fp2<Self::Fp2Params>, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
}
pub type G1Affine<P> = GroupAffine<<P as Bls12Parameters>::G1Parameters>;
pub type G1Projective<P> = GroupProjective<<P as Bls12Parameters>::G1Parameters>;
pub type G2Affine<P> = GroupAffine<<P as Bls12Parameters>::G2Parameters>;
pub type G2Projective<P> = GroupProjective<<P as Bls12Parameters>::G2Parameters>;

pub struct G1Prepared<P: Bls12Parameters>(pub G1Affine<P>);
impl<P: Bls12Parameters> Clone for G1Prepared<P> { fn clone(&self) -> Self { G1Prepared(self.0) } }
impl<P: Bls12Parameters> std::fmt::Debug for G1Prepared<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "G1Prepared({:?})", self.0) } }
impl<P: Bls12Parameters> PartialEq for G1Prepared<P> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<P: Bls12Parameters> Eq for G1Prepared<P> {}
impl<P: Bls12Parameters> From<G1Affine<P>> for G1Prepared<P> { fn from(o: G1Affine<P>) -> Self { G1Prepared(o) } }
impl<P: Bls12Parameters> G1Prepared<P> { pub fn is_zero(&self) -> bool { self.0.is_zero() } }
impl<P: Bls12Parameters> Default for G1Prepared<P> { fn default() -> Self { G1Prepared(G1Affine::<P>::prime_subgroup_generator()) } }
impl<P: Bls12Parameters> ToBytes for G1Prepared<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }

pub type EllCoeff<F> = (F, F, F);
pub struct G2Prepared<P: Bls12Parameters> { pub ell_coeffs: Vec<EllCoeff<Fp2<P::Fp2Params>>>, pub infinity: bool }
impl<P: Bls12Parameters> Clone for G2Prepared<P> { fn clone(&self) -> Self { G2Prepared { ell_coeffs: self.ell_coeffs.clone(), infinity: self.infinity } } }
impl<P: Bls12Parameters> std::fmt::Debug for G2Prepared<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "G2Prepared({:?})", self.ell_coeffs) } }
impl<P: Bls12Parameters> PartialEq for G2Prepared<P> { fn eq(&self, o: &Self) -> bool { self.ell_coeffs == o.ell_coeffs && self.infinity == o.infinity } }
impl<P: Bls12Parameters> Eq for G2Prepared<P> {}
impl<P: Bls12Parameters> Default for G2Prepared<P> { fn default() -> Self { Self::from(G2Affine::<P>::prime_subgroup_generator()) } }
impl<P: Bls12Parameters> ToBytes for G2Prepared<P> {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        for c in &self.ell_coeffs { c.0.write(&mut w)?; c.1.write(&mut w)?; c.2.write(&mut w)?; }
        self.infinity.write(w)
    }
}
struct G2Hom<P: Bls12Parameters> { x: Fp2<P::Fp2Params>, y: Fp2<P::Fp2Params>, z: Fp2<P::Fp2Params> }
impl<P: Bls12Parameters> G2Prepared<P> { pub fn is_zero(&self) -> bool { self.infinity } }
impl<P: Bls12Parameters> From<G2Affine<P>> for G2Prepared<P> {
    fn from(q: G2Affine<P>) -> Self {
        let two_inv = P::Fp::one().double().inverse().unwrap();
        if q.is_zero() { return Self { ell_coeffs: vec![], infinity: true }; }
        let mut coeffs = vec![];
        let mut r = G2Hom::<P> { x: q.x, y: q.y, z: Fp2::one() };
        for i in BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1) {
            coeffs.push(doubling_step::<P>(&mut r, &two_inv));
            if i { coeffs.push(addition_step::<P>(&mut r, &q)); }
        }
        Self { ell_coeffs: coeffs, infinity: false }
    }
}
fn doubling_step<B: Bls12Parameters>(r: &mut G2Hom<B>, two_inv: &B::Fp) -> EllCoeff<Fp2<B::Fp2Params>> {
    let mut a = r.x * &r.y;
    a.mul_assign_by_fp(two_inv);
    let b = r.y.square();
    let c = r.z.square();
    let e = B::G2Parameters::COEFF_B * &(c.double() + &c);
    let f = e.double() + &e;
    let mut g = b + &f;
    g.mul_assign_by_fp(two_inv);
    let h = (r.y + &r.z).square() - &(b + &c);
    let i = e - &b;
    let j = r.x.square();
    let e2 = e.square();
    r.x = a * &(b - &f);
    r.y = g.square() - &(e2.double() + &e2);
    r.z = b * &h;
    match B::TWIST_TYPE {
        TwistType::M => (i, j.double() + &j, -h),
        TwistType::D => (-h, j.double() + &j, i),
    }
}
fn addition_step<B: Bls12Parameters>(r: &mut G2Hom<B>, q: &G2Affine<B>) -> EllCoeff<Fp2<B::Fp2Params>> {
    let theta = r.y - &(q.y * &r.z);
    let lambda = r.x - &(q.x * &r.z);
    let c = theta.square();
    let d = lambda.square();
    let e = lambda * &d;
    let f = r.z * &c;
    let g = r.x * &d;
    let h = e + &f - &g.double();
    r.x = lambda * &h;
    r.y = theta * &(g - &h) - &(e * &r.y);
    r.z *= &e;
    let j = theta * &q.x - &(lambda * &q.y);
    match B::TWIST_TYPE {
        TwistType::M => (j, -theta, lambda),
        TwistType::D => (lambda, -theta, j),
    }
}

pub struct Bls12<P: Bls12Parameters>(PhantomData<fn() -> P>);
impl<P: Bls12Parameters> Copy for Bls12<P> {}
impl<P: Bls12Parameters> Clone for Bls12<P> { fn clone(&self) -> Self { *self } }
impl<P: Bls12Parameters> std::fmt::Debug for Bls12<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Bls12") } }
impl<P: Bls12Parameters> PartialEq for Bls12<P> { fn eq(&self, _: &Self) -> bool { true } }
impl<P: Bls12Parameters> Eq for Bls12<P> {}
impl<P: Bls12Parameters> Bls12<P> {
    fn ell(f: &mut Fp12<P::Fp12Params>, coeffs: &EllCoeff<Fp2<P::Fp2Params>>, p: &G1Affine<P>) {
        let mut c0 = coeffs.0;
        let mut c1 = coeffs.1;
        let mut c2 = coeffs.2;
        match P::TWIST_TYPE {
            TwistType::M => { c2.mul_assign_by_fp(&p.y); c1.mul_assign_by_fp(&p.x); f.mul_by_014(&c0, &c1, &c2); }
            TwistType::D => { c0.mul_assign_by_fp(&p.y); c1.mul_assign_by_fp(&p.x); f.mul_by_034(&c0, &c1, &c2); }
        }
    }
    pub fn exp_by_x(f: &Fp12<P::Fp12Params>) -> Fp12<P::Fp12Params> {
        let mut r = f.cyclotomic_exp(P::X);
        if P::X_IS_NEGATIVE { r.conjugate(); }
        r
    }
}
impl<P: Bls12Parameters> PairingEngine for Bls12<P> {
    type Fr = <P::G1Parameters as ModelParameters>::ScalarField;
    type G1Projective = G1Projective<P>;
    type G1Affine = G1Affine<P>;
    type G1Prepared = G1Prepared<P>;
    type G2Projective = G2Projective<P>;
    type G2Affine = G2Affine<P>;
    type G2Prepared = G2Prepared<P>;
    type Fq = P::Fp;
    type Fqe = Fp2<P::Fp2Params>;
    type Fqk = Fp12<P::Fp12Params>;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        let mut pairs = vec![];
        for (p, q) in i { if !p.is_zero() && !q.is_zero() { pairs.push((p, q.ell_coeffs.iter())); } }
        let mut f = Self::Fqk::one();
        for i in BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1) {
            f.square_in_place();
            for (p, ref mut c) in &mut pairs { Self::ell(&mut f, c.next().unwrap(), &p.0); }
            if i { for &mut (p, ref mut c) in &mut pairs { Self::ell(&mut f, c.next().unwrap(), &p.0); } }
        }
        if P::X_IS_NEGATIVE { f.conjugate(); }
        f
    }
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
        // easy part: (q^6 - 1)(q^2 + 1)
        let mut f1 = *f;
        f1.conjugate();
        f.inverse().map(|f2| {
            let mut r = f1 * &f2;
            let t = r;
            r.frobenius_map(2);
            r *= &t;
            // hard part: (x-1)^2 (x+q) (x^2+q^2-1) + 3 (eprint 2020/875)
            let sub1 = |a: &Self::Fqk| Self::exp_by_x(a) * &a.unitary_inverse();
            let y0 = sub1(&sub1(&r));
            let mut fq = y0;
            fq.frobenius_map(1);
            let y1 = Self::exp_by_x(&y0) * &fq;
            let mut fq2 = y1;
            fq2.frobenius_map(2);
            let y2 = Self::exp_by_x(&Self::exp_by_x(&y1)) * &fq2 * &y1.unitary_inverse();
            y2 * &r.square() * &r
        })
    }
}
