//! Epoch blocks, and the published encodings written down independently.
pub use ark_bls12_377::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
pub use ark_ec::{AffineCurve, ProjectiveCurve};
pub use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
pub use bls_crypto::{hashers::{composite::COMPOSITE_HASHER, Hasher}, PublicKey, Signature};
use circ::points::*;
pub use epoch_snark::EpochBlock;
pub use mon::{catch, gen, hex, rand::seq::SliceRandom, rand::Rng, short, Rng8, Run};
pub const SIG: &[u8] = b"ULforxof";
pub const OUT: &[u8] = b"ULforout";
pub const SIGN: usize = if cfg!(feature = "compat") { 377 } else { 383 };
pub type Bits = Vec<bool>;

pub fn gen2() -> G2Projective { G2Projective::prime_subgroup_generator() }
pub fn gen1() -> G1Projective { G1Projective::prime_subgroup_generator() }
pub fn mul2(s: Fr) -> G2Projective { gen2().mul(s.into_repr()) }
pub fn mul1(p: G1Projective, s: Fr) -> G1Projective { p.mul(s.into_repr()) }
pub fn rerep2(p: G2Projective, r: &mut Rng8) -> G2Projective {
    match r.gen_range(0, 3) {
        0 => p,
        1 => p.into_affine().into_projective(),
        _ => { let mut z = Fq2::rand(r); if z.is_zero() { z = Fq2::one() } let z2 = z.square(); G2Projective::new(p.x * z2, p.y * z2 * z, p.z * z) }
    }
}

// ---- the published layout
pub fn le(n: u64, w: usize) -> Bits { (0..w).map(|i| n >> i & 1 == 1).collect() }
pub fn field_be(x: &Fq) -> Bits { let mut b: Bits = bits_le(&x.into_repr().to_bytes_le())[..377].to_vec(); b.reverse(); b }
pub fn key_bits(p: &G2Projective) -> Bits {
    let a = p.into_affine();
    let mut b = field_be(&a.x.c0);
    b.extend(field_be(&a.x.c1));
    b.push(larger2(&a.y));
    b
}
pub fn entropy_bits(e: &Option<Vec<u8>>) -> Bits { match e { Some(e) => bits_le(e), None => vec![false; 128] } }
pub fn point(k: &PublicKey) -> G2Projective { *k.as_ref() }
pub fn keys_bits(b: &EpochBlock, pad: bool) -> Bits {
    let mut out: Bits = b.new_public_keys.iter().flat_map(|k| key_bits(&point(k))).collect();
    if pad { for _ in b.new_public_keys.len()..b.maximum_validators { out.extend(key_bits(&gen2())); } }
    out
}
pub fn plain(b: &EpochBlock) -> Bits { [le(b.index as u64, 16), le(b.maximum_non_signers as u64, 32), keys_bits(b, false)].concat() }
pub fn first(b: &EpochBlock) -> Bits { [le(b.index as u64, 16), entropy_bits(&b.parent_entropy), le(b.maximum_non_signers as u64, 32), keys_bits(b, true)].concat() }
pub fn last(b: &EpochBlock) -> Bits { [le(b.index as u64, 16), entropy_bits(&b.epoch_entropy), le(b.maximum_non_signers as u64, 32), keys_bits(b, true)].concat() }
pub fn total(b: &EpochBlock) -> G2Projective { b.new_public_keys.iter().fold(G2Projective::zero(), |a, k| a + point(k)) }
pub fn last_agg(b: &EpochBlock) -> Bits { [last(b), key_bits(&total(b))].concat() }
pub fn inner(b: &EpochBlock) -> Bits { [entropy_bits(&b.epoch_entropy), entropy_bits(&b.parent_entropy), keys_bits(b, true)].concat() }
pub fn extra(b: &EpochBlock) -> Bits { [le(b.index as u64, 16), le(b.round as u64, 8), le(b.maximum_non_signers as u64, 32)].concat() }
/// the little-endian bytes of the number whose digits, most significant first, are these
pub fn to_bytes(b: &[bool]) -> Vec<u8> {
    let n = b.len();
    let mut out = vec![0u8; (n + 7) / 8];
    for (i, x) in b.iter().enumerate() { let k = n - 1 - i; if *x { out[k / 8] |= 1 << (k % 8); } }
    out
}
pub fn out_hash(bits: &[bool]) -> Bits {
    let mut personal = [0; 8];
    personal.copy_from_slice(OUT);
    bits_le(&mon::blake::blake2s(&mon::blake::Param { digest: 32, fanout: 1, depth: 1, personal, ..Default::default() }, &to_bytes(bits)))
}
pub fn ends_hash(a: &EpochBlock, b: &EpochBlock) -> Bits { [out_hash(&first(a)), out_hash(&last_agg(b))].concat() }
pub fn pack<F: PrimeField>(bits: &[bool], capacity: usize) -> Vec<F> { bits.chunks(capacity).map(|c| c.iter().fold(F::zero(), |a, b| a.double() + if *b { F::one() } else { F::zero() })).collect() }
pub const CAP_BW: usize = 376;
pub const CAP_BLS: usize = 252;
/// the block's hash: expansion and decoding for counters 0, 1, 2, ...
pub fn block_hash(b: &EpochBlock) -> Option<(G1Projective, u8)> { hash_inner(&inner(b), &extra(b)) }
pub fn hash_inner(inner: &[bool], extra: &[bool]) -> Option<(G1Projective, u8)> {
    let crh = COMPOSITE_HASHER.crh(&[], &to_bytes(inner), 0).ok()?;
    let e = to_bytes(extra);
    (0..=255u8).find_map(|c| decode(&expand(c, &e, &crh), SIGN).filter(|p| !p.is_zero()).map(|p| (p, c)))
}
pub fn expand(c: u8, extra: &[u8], crh: &[u8]) -> Bits { bits_le(&mon::blake::xof(SIG, &[&[c][..], extra, crh].concat(), 64)) }

// ---- generators
pub fn entropy(r: &mut Rng8) -> Option<Vec<u8>> {
    match r.gen_range(0, 6) {
        0 => None, 1 => Some(vec![0; 16]), 2 => Some(vec![255; 16]),
        3 => { let mut v = vec![0; 16]; v[r.gen_range(0, 16)] = 1 << r.gen_range(0, 8); Some(v) }
        _ => Some(gen::bytes(r, 16)),
    }
}
pub fn index(r: &mut Rng8) -> u16 { match r.gen_range(0, 5) { 0 => 0, 1 => 65535, 2 => 1 << r.gen_range(0, 16), 3 => r.gen_range(0, 300), _ => r.gen() } }
pub fn round(r: &mut Rng8) -> u8 { match r.gen_range(0, 4) { 0 => 0, 1 => 255, 2 => 1 << r.gen_range(0, 8), _ => r.gen() } }
pub fn threshold(r: &mut Rng8) -> u32 { match r.gen_range(0, 5) { 0 => r.gen_range(0, 10), 1 => u32::MAX, 2 => 1 << r.gen_range(0, 32), 3 => 0, _ => r.gen() } }
pub fn key(r: &mut Rng8) -> G2Projective {
    let p = match r.gen_range(0, 8) {
        0 => gen2(), 1 => -gen2(),
        2 => { let (a, b) = (special(r), special(r)); let y = match r.gen_range(0, 3) { 0 => Fq2::new(a, Fq::zero()), 1 => Fq2::new(a, b), _ => Fq2::new(Fq::rand(r), b) }; match on2(y) { Some(p) => p.into_projective(), None => mul2(Fr::rand(r)) } }
        3 => mul2(Fr::from(r.gen_range(2u64, 100))),
        _ => mul2(Fr::rand(r)),
    };
    rerep2(p, r)
}
pub fn keys(r: &mut Rng8, n: usize) -> Vec<G2Projective> {
    let mut v: Vec<G2Projective> = vec![];
    for i in 0..n { let k = if i > 0 && r.gen_bool(0.1) { v[r.gen_range(0, i)] } else { key(r) }; v.push(k); }
    // the identity stands for no key and no aggregate
    if v.iter().fold(G2Projective::zero(), |a, k| a + *k).is_zero() && n > 0 { return keys(r, n); }
    v
}
pub fn block(r: &mut Rng8, n: usize, max: usize) -> EpochBlock {
    let k = keys(r, n).into_iter().map(PublicKey::from).collect();
    EpochBlock::new(index(r), round(r), entropy(r), entropy(r), threshold(r), max, k)
}
pub fn show(b: &EpochBlock) -> String {
    format!("index {}, round {}, entropy {:?}, parent entropy {:?}, at most {} absent, {} of {} validators", b.index, b.round, b.epoch_entropy.as_ref().map(|e| hex(e)), b.parent_entropy.as_ref().map(|e| hex(e)), b.maximum_non_signers, b.new_public_keys.len(), b.maximum_validators)
}
pub fn diff(a: &[bool], b: &[bool]) -> String { if a.len() != b.len() { return format!("{} bits instead of {}", a.len(), b.len()); } let d: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect(); format!("{} bits differ, first at {:?}", d.len(), d.first()) }
