//! C09: set-up, proving and verification of epoch chains through the public interface.
use crate::blk::*;
use crate::chain::{chain, corrupt, Chain};
use ark_bls12_377::Bls12_377;
use ark_bw6_761::BW6_761;
use ark_groth16::{Proof, VerifyingKey};
use epoch_snark::{prove, trusted_setup, verify, EpochTransition, Parameters};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
type Params = Parameters<BW6_761, Bls12_377>;
type Pools = Mutex<HashMap<(usize, usize, bool, u8), Arc<Params>>>;

fn params(run: &Run, pools: &Pools, n: usize, max: usize, split: bool, which: u8, r: &mut Rng8) -> Option<Arc<Params>> {
    if let Some(p) = pools.lock().unwrap().get(&(n, max, split, which)) { return Some(p.clone()); }
    let t = r.gen_range(0, n + 1);
    let p = match catch(|| trusted_setup(n, max, t, r, split)) {
        Ok(Ok(p)) => Arc::new(p),
        e => { run.violation("setup", format!("set-up for {} validators and {} epochs: {:?}", n, max, e.map(|e| e.err()))); return None; }
    };
    run.count("setups", 1);
    run.check(p.hash_to_bits.is_some() == split, "setup", || format!("set-up for {} validators and {} epochs: the helper's parameters are {}", n, max, if split { "missing" } else { "there" }));
    Some(pools.lock().unwrap().entry((n, max, split, which)).or_insert(p).clone())
}
/// the chain as a prover gets it: the signature cut into the parts of the transitions
pub fn transitions(c: &Chain, r: &mut Rng8) -> Vec<EpochTransition> {
    let mut parts: Vec<G1Projective> = c.ups.iter().zip(c.signers()).map(|(u, k)| if u.block.index == 0 { gen1() } else { block_hash(&u.block).map_or(gen1(), |h| mul1(h.0, k)) }).collect();
    let sum = parts.iter().fold(G1Projective::zero(), |a, p| a + *p);
    parts[0] = parts[0] + c.sig - sum;
    if r.gen_bool(0.3) && parts.len() > 1 { let d = mul1(gen1(), Fr::rand(r)); parts[0] += d; parts[1] -= d; }
    c.ups.iter().zip(parts).map(|(u, p)| EpochTransition { block: u.block.clone(), aggregate_signature: Signature::from(p), bitmap: u.bitmap.clone() }).collect()
}
fn ok(run: &Run, vk: &VerifyingKey<BW6_761>, a: &EpochBlock, b: &EpochBlock, p: &Proof<BW6_761>) -> Result<(), String> {
    run.count("verifications", 1);
    match catch(|| verify(vk, a, b, p)) { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{:?}", e)), Err(e) => Err(format!("panic: {}", e)) }
}
/// changes something the encodings of the ends contain; returns what
fn other_ends(r: &mut Rng8, a: &mut EpochBlock, b: &mut EpochBlock) -> String {
    let flip = |e: &mut Option<Vec<u8>>, r: &mut Rng8| { let mut v = e.clone().unwrap_or_else(|| vec![0; 16]); v[r.gen_range(0, 16)] ^= 1 << r.gen_range(0, 8); *e = Some(v); };
    match r.gen_range(0, 14) {
        0 => { a.index ^= 1 << r.gen_range(0, 16); "one bit of the first index".into() }
        1 => { b.index ^= 1 << r.gen_range(0, 16); "one bit of the last index".into() }
        2 => { a.maximum_non_signers ^= 1 << r.gen_range(0, 32); "one bit of the first threshold".into() }
        3 => { b.maximum_non_signers ^= 1 << r.gen_range(0, 32); "one bit of the last threshold".into() }
        4 => { flip(&mut a.parent_entropy, r); "one bit of the first parent entropy".into() }
        5 => { flip(&mut b.epoch_entropy, r); "one bit of the last entropy".into() }
        6 => { let i = r.gen_range(0, a.new_public_keys.len()); a.new_public_keys[i] = PublicKey::from(-point(&a.new_public_keys[i])); "the sign of one first key".into() }
        7 => { let i = r.gen_range(0, b.new_public_keys.len()); b.new_public_keys[i] = PublicKey::from(-point(&b.new_public_keys[i])); "the sign of one last key".into() }
        8 => { let i = r.gen_range(0, a.new_public_keys.len()); a.new_public_keys[i] = PublicKey::from(mul2(Fr::rand(r))); "one first key".into() }
        9 => { let i = r.gen_range(0, b.new_public_keys.len()); b.new_public_keys[i] = PublicKey::from(mul2(Fr::rand(r))); "one last key".into() }
        10 => { let i = r.gen_range(0, b.new_public_keys.len()); b.new_public_keys.rotate_left(i); "the order of the last keys".into() }
        11 => { a.new_public_keys.pop(); a.maximum_validators -= 1; "a first key left out".into() }
        12 => { b.new_public_keys.push(PublicKey::from(gen2())); b.maximum_validators += 1; "a last key more".into() }
        _ => { std::mem::swap(a, b); "the ends exchanged".into() }
    }
}
fn other_proof(r: &mut Rng8, p: &Proof<BW6_761>) -> (Proof<BW6_761>, &'static str) {
    let mut q = p.clone();
    let rand1 = |r: &mut Rng8| <BW6_761 as ark_ec::PairingEngine>::G1Projective::prime_subgroup_generator().mul(Fq::rand(r).into_repr()).into_affine();
    let rand2 = |r: &mut Rng8| <BW6_761 as ark_ec::PairingEngine>::G2Projective::prime_subgroup_generator().mul(Fq::rand(r).into_repr()).into_affine();
    let what = match r.gen_range(0, 8) {
        0 => { q.a = -q.a; "a negated" } 1 => { q.b = -q.b; "b negated" } 2 => { q.c = -q.c; "c negated" }
        3 => { q.a = rand1(r); "another a" } 4 => { q.b = rand2(r); "another b" } 5 => { q.c = rand1(r); "another c" }
        6 => { std::mem::swap(&mut q.a, &mut q.c); "a and c exchanged" }
        _ => { q.c = (q.c.into_projective() + <BW6_761 as ark_ec::PairingEngine>::G1Projective::prime_subgroup_generator()).into_affine(); "c shifted by the generator" }
    };
    (q, what)
}
fn other_key(r: &mut Rng8, k: &VerifyingKey<BW6_761>) -> (VerifyingKey<BW6_761>, &'static str) {
    let mut q = k.clone();
    let what = match r.gen_range(0, 6) {
        0 => { q.alpha_g1 = -q.alpha_g1; "alpha negated" } 1 => { q.beta_g2 = q.delta_g2; "beta replaced" } 2 => { q.gamma_g2 = -q.gamma_g2; "gamma negated" }
        3 => { q.delta_g2 = -q.delta_g2; "delta negated" } 4 => { let n = q.gamma_abc_g1.len(); q.gamma_abc_g1.swap(r.gen_range(0, 1), n - 1); "two input bases exchanged" }
        _ => { let i = r.gen_range(0, q.gamma_abc_g1.len()); q.gamma_abc_g1[i] = -q.gamma_abc_g1[i]; "an input base negated" }
    };
    (q, what)
}
pub fn c09() {
    let run = Run::start("C09", "set-up for 1 to 4 validators and 1 to 3 transitions (both with the hashes inside and with the helper circuit), chains of 1 to that many transitions with padding validators, differing thresholds, with and without entropies, 2 of 5 with a relation broken; each proof verified for its ends, for ends that differ in one field, as a modified proof and under other keys");
    let pools: Pools = Default::default();
    run.par(8, |t, r| {
        let mut i = t as u64;
        while run.within(run.pick(75.0, 2400.0)) {
            i += 1;
            let n = match r.gen_range(0, 5) { 0 => 1, 1 => run.pick(3, 4), _ => r.gen_range(2, 4) };
            let max = match r.gen_range(0, 6) { 0 => 1, 1 | 2 => 3, _ => 2 };
            let split = r.gen_bool(0.2);
            let real = r.gen_range(1, max + 1);
            let mut c = chain(r, n, real, 0, false);
            if i % 5 >= 3 { corrupt(r, &mut c); }
            if c.degenerate() || c.ups.len() > max || c.ups.is_empty() { continue; }
            let p = match params(&run, &pools, n, max, split, 0, r) { Some(p) => p, None => return };
            let problem = c.problem();
            let what = || format!("{} in a circuit of {} transitions{}", c.show(), max, if split { " with the hash helper" } else { "" });
            let (first, last) = (c.init.clone(), c.ups.last().unwrap().block.clone());
            let proof = catch(|| { let t = transitions(&c, r); prove(&p, n as u32, &c.init, &t, max) });
            run.eval(what() + &format!("{:?}", c.public()), true);
            run.count(if problem.is_none() { "valid_chains" } else { "invalid_chains" }, 1);
            run.state("kinds", (c.note.clone(), n, c.ups.len(), max, split));
            run.sample(|| format!("{}: {} -> {}", what(), problem.clone().unwrap_or_else(|| "valid".into()), match &proof { Ok(Ok(_)) => "a proof", Ok(Err(_)) => "an error", Err(_) => "a panic" }));
            let proof = match (proof, &problem) {
                (Ok(Ok(p)), _) => p,
                (e, None) => { run.violation("no-proof", format!("{}: valid, but proving gives {:?}", what(), e.map(|e| e.err()))); continue; }
                _ => { run.count("proofs_refused", 1); continue; }
            };
            let vk = &p.epochs.vk;
            let v = ok(&run, vk, &first, &last, &proof);
            if let Some(p) = &problem {
                run.check(v.is_err(), "invalid-proved", || format!("{}: not valid ({}), but the proof made for it verifies", what(), p));
                continue;
            }
            if let Err(e) = v { run.violation(if c.ups.len() < max { "padded-not-verified" } else { "not-verified" }, format!("{}: valid, but the proof made for it does not verify: {}", what(), e)); continue; }
            for _ in 0..6 {
                let (mut a, mut b) = (first.clone(), last.clone());
                let d = other_ends(r, &mut a, &mut b);
                if ends_hash(&a, &b) == ends_hash(&first, &last) { continue; }
                run.count("other_ends", 1);
                run.state("other_ends", &d);
                run.check(ok(&run, vk, &a, &b, &proof).is_err(), "other-ends", || format!("{}: the proof also verifies with {} changed", what(), d));
            }
            for _ in 0..2 {
                let (q, d) = other_proof(r, &proof);
                if q != proof { run.count("other_proofs", 1); run.check(ok(&run, vk, &first, &last, &q).is_err(), "other-proof", || format!("{}: the proof verifies with {}", what(), d)); }
            }
            let (q, d) = other_key(r, vk);
            if q != *vk { run.count("other_keys", 1); run.check(ok(&run, &q, &first, &last, &proof).is_err(), "other-key", || format!("{}: the proof verifies under a key with {}", what(), d)); }
            if let Some(o) = if r.gen_bool(0.2) { params(&run, &pools, n, max, split, 1, r) } else { None } { run.count("other_keys", 1); run.check(ok(&run, &o.epochs.vk, &first, &last, &proof).is_err(), "other-key", || format!("{}: the proof verifies under the key of another set-up", what())); }
        }
    });
    run.require("valid_chains", 10);
    run.require("invalid_chains", 5);
    run.require("other_ends", 30);
    run.require("other_proofs", 10);
    run.require("other_keys", 6);
    run.assume("the Groth16 prover of /verif/shim keeps the secrets of the set-up and gives a proof that does not verify when the circuit is unsatisfied or differs from that of the set-up; the verifier is the real equation over the real curve. Blocks list exactly the circuit's number of validators (padding validators spelled out)");
    run.finish()
}
