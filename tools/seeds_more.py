#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
import seeds_circ_text as T
E = "crates/epoch-snark/src/"
B = "crates/bls-crypto/src/"
SHAPE = T.EP + '''
use ark_relations::r1cs::SynthesisMode;
type Size = (usize, usize, usize, usize);
fn size(c: ValidatorSetUpdate<Bls12_377>, setup: bool) -> Size {
    let cs = ConstraintSystem::<Fq>::new_ref();
    if setup { cs.set_mode(SynthesisMode::Setup); }
    if c.generate_constraints(cs.clone()).is_err() { fail("no constraints") }
    let m = cs.to_matrices().unwrap();
    (m.num_instance_variables, m.num_witness_variables, m.num_constraints, m.a.iter().chain(&m.b).chain(&m.c).map(|r| r.len()).sum())
}
fn empty(n: usize, m: usize, max: usize) -> Size { size(ValidatorSetUpdate::<Bls12_377>::empty(n, m, max, None), true) }
fn chain(init: &Data, ups: &[Data]) -> Size {
    size(ValidatorSetUpdate::<Bls12_377> { initial_epoch: init.clone(), num_validators: init.public_keys.len() as u32, epochs: ups.iter().map(|d| SingleUpdate { epoch_data: d.clone(), signed_bitmap: vec![Some(true); init.public_keys.len()] }).collect(), aggregated_signature: Some(G1Projective::prime_subgroup_generator()), hash_helper: None }, false)
}
'''
def c(id, edits, needs, breaks, body): plant(id, "C10", edits, needs, breaks, T.HEAD + SHAPE + body, "epoch", True)
c("s-repeated-key-shared", {E + "gadgets/epoch_data.rs": [('''        let mut pubkey_vars = Vec::with_capacity(self.public_keys.len());
        for maybe_pk in self.public_keys.iter() {
            let pk_var = G2Var::new_variable_omit_prime_order_check(
                index.cs(),
                || maybe_pk.get(),
                AllocationMode::Witness,
            )?;
''', '''        let mut pubkey_vars: Vec<G2Var> = Vec::with_capacity(self.public_keys.len());
        for (i, maybe_pk) in self.public_keys.iter().enumerate() {
            // a key that is listed again needs no variable of its own
            let known = maybe_pk.and_then(|pk| {
                self.public_keys[..i]
                    .iter()
                    .position(|other| *other == Some(pk))
            });
            let pk_var = match known {
                Some(j) => pubkey_vars[j].clone(),
                None => G2Var::new_variable_omit_prime_order_check(
                    index.cs(),
                    || maybe_pk.get(),
                    AllocationMode::Witness,
                )?,
            };
''')]}, "a validator set in which a key occurs twice (padding keys, for one)", "repeated keys share their variables, so the circuit is not the one set up", '''
fn main() {
    let s = empty(3, 1, 1);
    if chain(&data(7, 0, 5, 4, 1, &[3, 4, 5]), &[data(8, 0, 9, 5, 1, &[6, 7, 8])]) != s { fail("an ordinary chain has other constraints than the set-up") }
    if chain(&data(7, 0, 5, 4, 1, &[3, 4, 5]), &[data(8, 0, 9, 5, 1, &[6, 7, 6])]) != s { fail("a chain with a repeated key has other constraints than the set-up") }
}''')
c("s-padding-epoch-unhashed", {E + "gadgets/epochs.rs": [("                self.hash_helper.is_none(), // generate", "                self.hash_helper.is_none() && epoch.epoch_data.index != Some(0), // generate")]},
  "a padding epoch", "the constraints of a padding epoch's hash are left out, so the circuit is not the one set up", '''
fn main() {
    let s = empty(2, 2, 1);
    let (a, b, c) = (data(7, 0, 5, 4, 1, &[3, 4]), data(8, 0, 9, 5, 1, &[6, 7]), data(9, 0, 3, 9, 1, &[8, 9]));
    if chain(&a, &[b.clone(), c]) != s { fail("an ordinary chain has other constraints than the set-up") }
    if chain(&a, &[data(0, 0, 0, 0, 0, &[1, 1]), b]) != s { fail("a chain with a padding epoch has other constraints than the set-up") }
}''')
c("s-no-threshold-constant", {E + "gadgets/epoch_data.rs": [('''        let maximum_non_signers =
            FpVar::new_witness(index.cs(), || Ok(Fr::from(self.maximum_non_signers)))?;
''', '''        // without absences allowed there is nothing to witness
        let maximum_non_signers = if self.maximum_non_signers == 0 {
            FpVar::constant(Fr::from(0u32))
        } else {
            FpVar::new_witness(index.cs(), || Ok(Fr::from(self.maximum_non_signers)))?
        };
''')]}, "an epoch, or a set-up, with threshold zero", "a threshold of zero becomes part of the circuit", '''
fn main() {
    let s = empty(2, 1, 1);
    if empty(2, 1, 0) != s { fail("the constraints depend on the threshold the circuit was set up with") }
    let (a, b) = (data(7, 0, 5, 4, 1, &[3, 4]), data(8, 0, 9, 5, 1, &[6, 7]));
    if chain(&a, &[b.clone()]) != s { fail("an ordinary chain has other constraints than the set-up") }
    if chain(&data(7, 0, 5, 4, 0, &[3, 4]), &[b]) != s { fail("a chain without absences has other constraints than the set-up") }
}''')
import seeds_bls_text as L
def k(id, edits, needs, breaks, body): plant(id, "K08", {B + f: e for f, e in edits.items()}, needs, breaks, L.HEAD + body)
FIXED = '''
use ark_ff::BigInteger;
struct Words(u64);
impl Words { fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) } }
impl rand::RngCore for Words {
    fn next_u32(&mut self) -> u32 { self.next() as u32 }
    fn next_u64(&mut self) -> u64 { self.next() }
    fn fill_bytes(&mut self, b: &mut [u8]) { for c in b.chunks_mut(8) { let w = self.next().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
fn key(seed: u64) -> Vec<u8> { PrivateKey::generate(&mut Words(seed)).as_ref().into_repr().to_bytes_le() }
'''
k("s-keys-reduced", {"bls/secret.rs": [("        PrivateKey(Fr::rand(rng))", "        let mut bytes = [0u8; 32];\n        rng.fill_bytes(&mut bytes);\n        PrivateKey(Fr::from_le_bytes_mod_order(&bytes))"), ("use ark_ff::UniformRand;", "use ark_ff::PrimeField;")]},
  "many keys: the lower seven tenths of the range come up 14 times where the rest comes up 13 times", "keys are not uniform", FIXED + '''
fn main() {
    // 2^256 = 13.7 times the order: after reduction the lower 0.71 of the range is 14/13 as frequent as the rest
    let n = 400_000u64;
    let mut g = Words(1);
    let low = (0..n).filter(|_| { let v = PrivateKey::generate(&mut g).as_ref().into_repr(); (v.as_ref()[3] as f64) < 0.70 * 0x12ab655e9a2ca556u64 as f64 }).count() as f64;
    let z = (low - 0.70 * n as f64) / (0.21 * n as f64).sqrt();
    if z.abs() > 10.0 { fail(&format!("{} of {} keys lie in the lower seven tenths of the range", low, n)) }
    if key(5) != key(5) || key(5) == key(6) { fail("keys are not determined by the generator") }
}''')
k("s-key-half-drawn", {"bls/secret.rs": [("        PrivateKey(Fr::rand(rng))", "        // stretch one draw to the length of a key\n        let seed = u128::from(rng.next_u64()) << 64 | u128::from(rng.next_u64());\n        let wide = Fr::from(seed);\n        PrivateKey(wide * wide * wide)")]},
  "nothing an individual key shows", "keys are made from 128 drawn bits", FIXED + '''
struct Count(Words, u64);
impl rand::RngCore for Count {
    fn next_u32(&mut self) -> u32 { self.1 += 4; self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.1 += 8; self.0.next_u64() }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.1 += b.len() as u64; self.0.fill_bytes(b) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
fn main() {
    for s in 0..50 {
        let mut g = Count(Words(s), 0);
        PrivateKey::generate(&mut g);
        if g.1 < 32 { fail(&format!("a key made from {} drawn bytes", g.1)) }
    }
    if key(5) != key(5) || key(5) == key(6) { fail("keys are not determined by the generator") }
}''')
k("s-short-key-public", {"bls/public.rs": [("        PublicKey::from(G2Projective::prime_subgroup_generator().mul(pk.as_ref().into_repr()))", "        let scalar = pk.as_ref().into_repr();\n        let limbs = scalar.as_ref();\n        if limbs[1..].iter().fold(0u64, |all, limb| all.wrapping_add(*limb)) == 0 {\n            // a short key needs a short multiplication only\n            return PublicKey::from(G2Projective::prime_subgroup_generator().mul([limbs[0]]));\n        }\n        PublicKey::from(G2Projective::prime_subgroup_generator().mul(scalar))")]},
  "a key whose upper limbs sum to zero without being zero", "the public key of such a key is that of its lowest limb", '''
fn main() {
    let two = Fr::from(2u64);
    let g = G2Projective::prime_subgroup_generator();
    for (i, j) in [(64u64, 128u64), (100, 200), (64, 192), (127, 191)] {
        // 2^i + 2^j * (2^64 - 2^(i mod 64)) for limbs that cancel, and ordinary neighbours
        let (a, b) = (two.pow([i]), two.pow([j / 64 * 64]));
        for s in [a + b, a * Fr::from(3u64) + b, a, b] {
            if *PrivateKey::from(s).to_public().as_ref() != g.mul(s.into_repr()) { fail("wrong public key") }
        }
        let t = Fr::from(5u64) + two.pow([64u64]) * Fr::from(u64::MAX) + two.pow([128u64]);
        if *PrivateKey::from(t).to_public().as_ref() != g.mul(t.into_repr()) { fail("wrong public key for limbs that cancel") }
    }
}''')
def k9(id, edits, needs, breaks, body): plant(id, "K09", {B + f: e for f, e in edits.items()}, needs, breaks, L.HEAD + COMB + body)
COMB = '''
fn keys(ks: &[i64]) -> Vec<PublicKey> { ks.iter().map(|k| { let p = g2(k.unsigned_abs()); if *k < 0 { (-p).into() } else { p.into() } }).collect() }
fn g2(n: u64) -> G2Projective { G2Projective::prime_subgroup_generator().mul(Fr::from(n).into_repr()) }
fn sigs(ks: &[i64]) -> Vec<Signature> { ks.iter().map(|k| { let p = g1(k.unsigned_abs()); if *k < 0 { (-p).into() } else { p.into() } }).collect() }
fn total(ks: &[i64], es: &[Fr]) -> Fr { ks.iter().zip(es).fold(Fr::zero(), |a, (k, e)| { let t = Fr::from(k.unsigned_abs()) * e; if *k < 0 { a - t } else { a + t } }) }
fn good(ks: &[i64], es: &[Fr]) {
    let t = total(ks, es);
    match PublicKey::batch(es, keys(ks)) { Some(p) if *p.as_ref() == G2Projective::prime_subgroup_generator().mul(t.into_repr()) => {} _ => fail("the combination of keys is wrong") }
    match Signature::batch(es, sigs(ks)) { Some(p) if *p.as_ref() == G1Projective::prime_subgroup_generator().mul(t.into_repr()) => {} _ => fail("the combination of signatures is wrong") }
}
fn f(n: u64) -> Fr { Fr::from(n) }
'''
k9("s-weights-left-over", {"bls/public.rs": [("        if projective_elements.len() != exponents.len() {\n            // multi_scalar_mul does not enforce this and takes the min length of the two\n            return None;", "        if projective_elements.len() > exponents.len() {\n            // every key needs its exponent\n            return None;")]},
  "more weights than keys", "surplus weights are dropped instead of refusing the lists", '''
fn main() {
    good(&[3, 4], &[f(5), f(6)]);
    if PublicKey::batch(&[f(5)], keys(&[3, 4])).is_some() { fail("fewer weights than keys are accepted") }
    if PublicKey::batch(&[f(5), f(6), f(7)], keys(&[3, 4])).is_some() { fail("more weights than keys are accepted") }
    if PublicKey::batch(&[f(0)], keys(&[])).is_some() { fail("a weight without a key is accepted") }
}''')
k9("s-identity-shifts-weights", {"bls/signature.rs": [("        let bases = G1Projective::batch_normalization_into_affine(&projective_elements);", "        // the identity contributes nothing\n        let contributing = projective_elements\n            .into_iter()\n            .filter(|p| !p.is_zero())\n            .collect::<Vec<_>>();\n        let bases = G1Projective::batch_normalization_into_affine(&contributing);"), ("use ark_ff::{One, PrimeField};", "use ark_ff::{One, PrimeField, Zero};")]},
  "the identity before another signature", "the weights after an identity are those of their predecessors", '''
fn main() {
    good(&[3, 4, 9], &[f(5), f(6), f(7)]);
    good(&[3, 4, 0], &[f(5), f(6), f(7)]);
    good(&[3, 0, 9], &[f(5), f(6), f(7)]);
}''')
k9("s-weights-128-bits", {"bls/public.rs": [("        let bigint_scalars = exponents.iter().map(|n| n.into_repr()).collect::<Vec<_>>();", "        // exponents are small: one hundred and twenty-eight bits of each are enough unless they say otherwise\n        let small = exponents.iter().all(|n| n.into_repr().as_ref()[3] == 0);\n        let bigint_scalars = exponents\n            .iter()\n            .map(|n| {\n                let mut n = n.into_repr();\n                if small {\n                    n.as_mut()[2] = 0;\n                }\n                n\n            })\n            .collect::<Vec<_>>();")]},
  "weights of 129 to 192 bits, none longer", "the upper bits of medium weights are dropped", '''
fn main() {
    let big = |i: u64| f(2).pow([i]);
    good(&[3, 4], &[f(5), f(6)]);
    good(&[3, 4], &[big(100), big(127)]);
    good(&[3, 4], &[-f(1), big(140)]);
    good(&[3, 4], &[f(5), big(140)]);
}''')
def k10(id, edits, needs, breaks, body): plant(id, "K10", {B + f: e for f, e in edits.items()}, needs, breaks, L.HEAD + MEM + body)
MEM = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn enc(p: G2Projective) -> Vec<u8> { let mut v = vec![]; PublicKey::from(p).serialize(&mut v).unwrap(); v }
fn keys(from: u64, n: usize) -> Vec<G2Projective> { let g = G2Projective::prime_subgroup_generator(); let mut p = g.mul([from]); let mut v = vec![]; for _ in 0..n { v.push(p.into_affine().into_projective()); p += g; } v }
'''
k10("s-cache-unbounded", {"bls/cache.rs": [("            de: LruCache::new(512),", "            de: LruCache::unbounded(),")]},
  "more than 512 different keys decoded through the cache", "the decoding cache grows without bound", '''
fn main() {
    let all: Vec<Vec<u8>> = keys(1000, 2600).into_iter().map(enc).collect();
    let mut c = PublicKeyCache::new();
    for b in &all[..1300] { c.deserialize(b.clone()).unwrap(); }
    let a = LIVE.load(SeqCst);
    for b in &all[1300..] { c.deserialize(b.clone()).unwrap(); }
    let grown = LIVE.load(SeqCst) - a;
    if grown > 100_000 { fail(&format!("1300 more keys leave {} bytes behind", grown)) }
}''')
k10("s-cache-remembers-refusals", {"bls/cache.rs": [("    pub de: LruCache<Vec<u8>, PublicKey>,\n}", "    pub de: LruCache<Vec<u8>, PublicKey>,\n    /// Encodings known not to be those of a key\n    refused: HashSet<Vec<u8>>,\n}"), ("            de: LruCache::new(512),\n", "            de: LruCache::new(512),\n            refused: HashSet::new(),\n"), ("        self.de.clear();", "        self.de.clear();\n        self.refused.clear();"),
   ("                let generated_result = PublicKey::deserialize(&mut &data[..])?;\n", "                if self.refused.contains(&data) {\n                    return Err(SerializationError::InvalidData);\n                }\n                let generated_result = match PublicKey::deserialize(&mut &data[..]) {\n                    Ok(key) => key,\n                    Err(SerializationError::InvalidData) => {\n                        self.refused.insert(data);\n                        return Err(SerializationError::InvalidData);\n                    }\n                    Err(e) => return Err(e),\n                };\n")]},
  "many different encodings that are refused as no key", "refused encodings are remembered without bound", '''
fn main() {
    let mut c = PublicKeyCache::new();
    // not reduced, and on no curve point
    let bad: Vec<Vec<u8>> = (0..4000u32).map(|i| { let mut b = vec![0x11; 96]; b[..4].copy_from_slice(&i.to_le_bytes()); b[95] = if i % 2 == 0 { 0x3f } else { 0 }; b[47] = 0; b }).collect();
    for b in &bad[..2000] { let _ = c.deserialize(b.clone()); }
    let a = LIVE.load(SeqCst);
    let mut n = 0;
    for b in &bad[2000..] { n += c.deserialize(b.clone()).is_err() as usize; }
    let grown = LIVE.load(SeqCst) - a;
    if n < 1000 || grown > 20_000 { fail(&format!("{} more refused encodings leave {} bytes behind", n, grown)) }
}''')
k10("s-cache-remembers-sets", {"bls/cache.rs": [("        self.keys = keys;\n", "        let previous = std::mem::replace(&mut self.keys, keys);\n        if previous.len() > self.keys.len() {\n            // keys that have left tend to come back\n            self.absent.push(previous);\n        }\n"), ("    keys: HashSet<WrappedPublicKey>,\n", "    keys: HashSet<WrappedPublicKey>,\n    /// Larger sets seen before\n    absent: Vec<HashSet<WrappedPublicKey>>,\n"), ("            keys: HashSet::new(),\n", "            keys: HashSet::new(),\n            absent: Vec::new(),\n"), ("        self.keys = HashSet::new();\n", "        self.keys = HashSet::new();\n        self.absent = Vec::new();\n")]},
  "aggregating sets of which many are smaller than the one before", "every larger set that was aggregated stays in memory", '''
fn main() {
    let all: Vec<PublicKey> = keys(1000, 60).into_iter().map(|p| p.into()).collect();
    let mut c = PublicKeyCache::new();
    let mut round = |n: usize| { for i in 0..n { let _ = c.aggregate(all[i % 20..i % 20 + 5 + (i * 7) % 30].to_vec()); } LIVE.load(SeqCst) };
    let a = round(100);
    let b = round(300);
    if b - a > 20_000 { fail(&format!("three hundred aggregations leave {} bytes behind", b - a)) }
}''')
