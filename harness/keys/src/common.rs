//! What the K monitors share: hash-to-curve instances, points in hostile representations, the pairing oracle.
pub use ark_bls12_377::{Bls12_377, Fq, Fq12, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
pub use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
pub use ark_ff::{Field, One, PrimeField, SquareRootField, UniformRand, Zero};
pub use bls_crypto::hash_to_curve::{try_and_increment::{COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1}, try_and_increment_cip22::{TryAndIncrementCIP22, COMPOSITE_HASH_TO_G1_CIP22}, HashToCurve};
pub use bls_crypto::{bls::Batch, hashers::DirectHasher, BLSError, PrivateKey, PublicKey, PublicKeyCache, Signature};
pub use mon::{catch, gen, hex, rand::Rng, short, Rng8, Run};
pub use std::ops::Neg;

pub const SIG: &[u8] = b"ULforxof";
pub const POP: &[u8] = b"ULforpop";
type P1 = ark_bls12_377::g1::Parameters;

/// every hash-to-curve instance offered, a cheap one, one that fails, and one returning a given point
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hi { Direct, Composite, CompositeCip22, DirectCip22, Cheap, Fail, Point(G1Projective), FailOn(u64) }
pub const REAL: [Hi; 4] = [Hi::Direct, Hi::Composite, Hi::CompositeCip22, Hi::DirectCip22];
pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts { for b in p.iter() { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); } h = (h ^ 0x1ff).wrapping_mul(0x100000001b3); h ^= p.len() as u64; }
    h
}
impl HashToCurve for Hi {
    type Output = G1Projective;
    fn hash(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<G1Projective, BLSError> {
        match self {
            Hi::Direct => DIRECT_HASH_TO_G1.hash(d, m, e),
            Hi::Composite => COMPOSITE_HASH_TO_G1.hash(d, m, e),
            Hi::CompositeCip22 => COMPOSITE_HASH_TO_G1_CIP22.hash(d, m, e),
            Hi::DirectCip22 => TryAndIncrementCIP22::<DirectHasher, P1>::new(&DirectHasher).hash(d, m, e),
            Hi::Cheap => Ok(G1Projective::prime_subgroup_generator().mul([fnv(&[d, m, e]) | 1])),
            Hi::Fail => Err(BLSError::HashToCurveError),
            Hi::Point(p) => Ok(*p),
            Hi::FailOn(h) => if fnv(&[d, m, e]) == *h { Err(BLSError::HashToCurveError) } else { Hi::Cheap.hash(d, m, e) },
        }
    }
}
impl Hi { pub fn cip22(&self) -> bool { matches!(self, Hi::CompositeCip22 | Hi::DirectCip22) } pub fn exact(&self) -> bool { self.cip22() || *self == Hi::Cheap } }
/// do the instance's own rules tell these two inputs apart?
pub fn same_input(h: &Hi, m1: &[u8], e1: &[u8], m2: &[u8], e2: &[u8]) -> bool { if h.exact() { m1 == m2 && e1 == e2 } else { [e1, m1].concat() == [e2, m2].concat() } }

/// the same point under another internal representation
pub fn rerep1(p: G1Projective, r: &mut Rng8) -> G1Projective {
    match r.gen_range(0, 3) {
        0 => p,
        1 => p.into_affine().into_projective(),
        _ => { let mut z = Fq::rand(r); if z.is_zero() { z = Fq::one() } let z2 = z.square(); G1Projective::new(p.x * z2, p.y * z2 * z, p.z * z) }
    }
}
pub fn rerep2(p: G2Projective, r: &mut Rng8) -> G2Projective {
    match r.gen_range(0, 3) {
        0 => p,
        1 => p.into_affine().into_projective(),
        _ => { let mut z = Fq2::rand(r); if z.is_zero() { z = Fq2::one() } let z2 = z.square(); G2Projective::new(p.x * z2, p.y * z2 * z, p.z * z) }
    }
}
pub fn sk(r: &mut Rng8) -> PrivateKey { scalar(r).into() }
/// nonzero scalars, some of them extreme
pub fn scalar(r: &mut Rng8) -> Fr {
    match r.gen_range(0, 10) {
        0 => Fr::one(),
        1 => -Fr::one(),
        2 => Fr::from(r.gen_range(2u64, 1000)),
        3 => -Fr::from(r.gen_range(2u64, 1000)),
        4 => Fr::from(2u64).pow([r.gen_range(0u64, 252)]),
        5 => Fr::from(2u64).inverse().unwrap(),
        _ => loop { let s = Fr::rand(r); if !s.is_zero() { break s; } },
    }
}
pub fn g1(r: &mut Rng8) -> G1Projective { let s = Fr::rand(r); G1Projective::prime_subgroup_generator().mul(s.into_repr()) }
pub fn g2(r: &mut Rng8) -> G2Projective { let s = Fr::rand(r); G2Projective::prime_subgroup_generator().mul(s.into_repr()) }
/// does e(sig, g2) = prod e(h_i, pk_i) hold? Each pairing computed on its own.
pub fn equation(sig: &G1Projective, terms: &[(G1Projective, G2Projective)]) -> bool {
    let l = Bls12_377::pairing(*sig, G2Projective::prime_subgroup_generator());
    let mut p = Fq12::one();
    for (h, k) in terms { p *= Bls12_377::pairing(*h, *k); }
    l == p
}
pub fn show1(p: &G1Projective) -> String { p.into_affine().to_string().chars().take(60).collect() }
pub fn show2(p: &G2Projective) -> String { p.into_affine().to_string().chars().take(60).collect() }
/// accepted / refused as such / anything else
#[derive(Debug, PartialEq, Clone)]
pub enum Verdict { Yes, No, Uneven, Hash, Other(String) }
pub fn verdict(r: Result<(), BLSError>) -> Verdict {
    match r { Ok(()) => Verdict::Yes, Err(BLSError::VerificationFailed) => Verdict::No, Err(BLSError::UnevenNumKeysMessages) => Verdict::Uneven, Err(BLSError::HashToCurveError) => Verdict::Hash, Err(e) => Verdict::Other(e.to_string()) }
}
/// a message and extra data
pub fn msg(r: &mut Rng8) -> (Vec<u8>, Vec<u8>) { let m = gen::long(r, 200, 6000); let e = match r.gen_range(0, 3) { 0 => vec![], _ => gen::long(r, 40, 6000) }; (m, e) }
/// small changes of a message/extra pair, including moves of bytes between the two
pub fn mutate(r: &mut Rng8, m: &[u8], e: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (mut m, mut e) = (m.to_vec(), e.to_vec());
    let t = if r.gen() { &mut m } else { &mut e };
    match r.gen_range(0, 8) {
        0 if !t.is_empty() => { let i = r.gen_range(0, t.len()); t[i] ^= 1 << r.gen_range(0, 8); }
        1 => t.push(0),
        2 => t.insert(0, r.gen()),
        3 if !t.is_empty() => { t.pop(); }
        4 if !m.is_empty() => { let b = m.remove(0); e.push(b); }
        5 => std::mem::swap(&mut m, &mut e),
        6 => { m.clear(); }
        7 if !e.is_empty() => { e.clear(); }
        _ => m.push(r.gen()),
    }
    (m, e)
}
