//! A reduced Tate pairing for BW6 curves (M-type sextic twist, denominators eliminated).
//! The value differs from upstream's optimal ate pairing by a fixed exponent, which product-of-pairings
//! equations (Groth16 verification) cannot observe.
use crate::{models::short_weierstrass_jacobian::{GroupAffine, GroupProjective}, models::{ModelParameters, SWModelParameters}, PairingEngine};
use ark_ff::{biginteger::BitIteratorBE, Field, Fp3, Fp3Parameters, Fp6_2over3, Fp6_2over3Parameters, One, PrimeField, SquareRootField, ToBytes, Zero};
use std::io::{Result as IoResult, Write};
use std::marker::PhantomData;
pub trait BW6Parameters: 'static + Eq + PartialEq {
    type Fp: PrimeField + SquareRootField + Into<<Self::Fp as PrimeField>::BigInt>;
    type Fp3Params: Fp3Parameters<Fp = Self::Fp>;
    type Fp6Params: Fp6_2over3Parameters<Fp3Params = Self::Fp3Params>;
    type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
    type G2Parameters: SWModelParameters<BaseField = Self::Fp, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
    /// (q^2 - q + 1)/r as big-endian bits
    fn hard_exponent() -> Vec<u64>;
}
pub type G1Affine<P> = GroupAffine<<P as BW6Parameters>::G1Parameters>;
pub type G1Projective<P> = GroupProjective<<P as BW6Parameters>::G1Parameters>;
pub type G2Affine<P> = GroupAffine<<P as BW6Parameters>::G2Parameters>;
pub type G2Projective<P> = GroupProjective<<P as BW6Parameters>::G2Parameters>;
macro_rules! prep {
    ($n:ident, $a:ident) => {
        pub struct $n<P: BW6Parameters>(pub $a<P>);
        impl<P: BW6Parameters> Clone for $n<P> { fn clone(&self) -> Self { $n(self.0) } }
        impl<P: BW6Parameters> std::fmt::Debug for $n<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
        impl<P: BW6Parameters> PartialEq for $n<P> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<P: BW6Parameters> Eq for $n<P> {}
        impl<P: BW6Parameters> From<$a<P>> for $n<P> { fn from(o: $a<P>) -> Self { $n(o) } }
        impl<P: BW6Parameters> Default for $n<P> { fn default() -> Self { $n($a::<P>::zero()) } }
        impl<P: BW6Parameters> ToBytes for $n<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }
    };
}
prep!(G1Prepared, G1Affine);
prep!(G2Prepared, G2Affine);
pub struct BW6<P: BW6Parameters>(PhantomData<fn() -> P>);
impl<P: BW6Parameters> Copy for BW6<P> {}
impl<P: BW6Parameters> Clone for BW6<P> { fn clone(&self) -> Self { *self } }
impl<P: BW6Parameters> std::fmt::Debug for BW6<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "BW6") } }
impl<P: BW6Parameters> PartialEq for BW6<P> { fn eq(&self, _: &Self) -> bool { true } }
impl<P: BW6Parameters> Eq for BW6<P> {}
impl<P: BW6Parameters> PairingEngine for BW6<P> {
    type Fr = <P::G1Parameters as ModelParameters>::ScalarField;
    type G1Projective = G1Projective<P>;
    type G1Affine = G1Affine<P>;
    type G1Prepared = G1Prepared<P>;
    type G2Projective = G2Projective<P>;
    type G2Affine = G2Affine<P>;
    type G2Prepared = G2Prepared<P>;
    type Fq = P::Fp;
    type Fqe = P::Fp;
    type Fqk = Fp6_2over3<P::Fp6Params>;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        let mut pairs = vec![];
        for (p, q) in i { if !p.0.is_zero() && !q.0.is_zero() { pairs.push((p.0, q.0, (p.0.x, p.0.y), false)); } }
        let mut f = Self::Fqk::one();
        let zero = P::Fp::zero();
        // Q = (x'/w^2, y'/w^3); with v = w^2 and w^6 = NONRESIDUE: 1/w^2 = v^2/N, 1/w^3 = w*v/N
        let ninv = P::Fp3Params::NONRESIDUE.inverse().unwrap();
        // line through T with slope l at Q: y_Q - y_T - l (x_Q - x_T)
        let eval = |l: P::Fp, t: &(P::Fp, P::Fp), q: &G2Affine<P>| -> Self::Fqk {
            Fp6_2over3::new(
                Fp3::new(l * &t.0 - &t.1, zero, -(l * &q.x * &ninv)),
                Fp3::new(zero, q.y * &ninv, zero),
            )
        };
        for b in BitIteratorBE::new(Self::Fr::characteristic()).skip_while(|b| !b).skip(1) {
            f.square_in_place();
            for (_, q, t, inf) in pairs.iter_mut() {
                if *inf { continue; }
                if t.1.is_zero() { *inf = true; continue; }
                let x2 = t.0.square();
                let l = (x2.double() + &x2) * &t.1.double().inverse().unwrap();
                f *= &eval(l, t, q);
                let x3 = l.square() - &t.0.double();
                let y3 = l * &(t.0 - &x3) - &t.1;
                *t = (x3, y3);
            }
            if b {
                for (p, q, t, inf) in pairs.iter_mut() {
                    if *inf { *t = (p.x, p.y); *inf = false; continue; }
                    if t.0 == p.x {
                        // vertical line (killed by the final exponentiation) or a doubling; with P of order r
                        // only the former can occur, at the very last addition
                        *inf = true;
                        continue;
                    }
                    let l = (p.y - &t.1) * &(p.x - &t.0).inverse().unwrap();
                    f *= &eval(l, t, q);
                    let x3 = l.square() - &t.0 - &p.x;
                    let y3 = l * &(t.0 - &x3) - &t.1;
                    *t = (x3, y3);
                }
            }
        }
        f
    }
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
        f.inverse().map(|fi| {
            // (q^3 - 1)(q + 1)
            let mut c = *f;
            c.conjugate();
            let r = c * &fi;
            let mut rq = r;
            rq.frobenius_map(1);
            (rq * &r).pow(P::hard_exponent())
        })
    }
}
