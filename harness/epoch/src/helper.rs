//! C11: what the epoch circuit holds a helper proof against.
use crate::blk::*;
use crate::chain::{chain, corrupt, Chain};
use crate::proof::transitions;
use ark_bls12_377::Bls12_377;
use ark_groth16::constraints::{take_verifications, Verification};
use ark_groth16::{create_proof_no_zk, generate_random_parameters, Proof, ProvingKey};
use ark_r1cs_std::{alloc::AllocVar, eq::EqGadget, fields::fp::FpVar};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use circ::points::bits_le;
use circ::{honest, Exec};
use epoch_snark::verif_hooks::HashToBitsHelper;
use epoch_snark::{prove, trusted_setup};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
type Key = Arc<ProvingKey<Bls12_377>>;
type Keys = Mutex<HashMap<usize, Key>>;

/// a circuit of our own that proves nothing but its public elements
#[derive(Clone)]
struct Stated { elements: Option<Vec<Fr>>, n: usize }
impl ConstraintSynthesizer<Fr> for Stated {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        for i in 0..self.n {
            let f = || self.elements.as_ref().map(|e| e[i]).ok_or(SynthesisError::AssignmentMissing);
            let x = FpVar::new_input(cs.clone(), f)?;
            let y = FpVar::new_witness(cs.clone(), f)?;
            x.enforce_equal(&y)?;
        }
        Ok(())
    }
}
fn key(keys: &Keys, n: usize, r: &mut Rng8) -> Key {
    if let Some(k) = keys.lock().unwrap().get(&n) { return k.clone(); }
    let k = Arc::new(generate_random_parameters::<Bls12_377, _, _>(Stated { elements: None, n }, r).expect("set-up of a statement"));
    keys.lock().unwrap().entry(n).or_insert(k).clone()
}
fn proof(k: &Key, e: &[Fr]) -> Proof<Bls12_377> { create_proof_no_zk(Stated { elements: Some(e.to_vec()), n: e.len() }, k).expect("proof of a statement") }

/// the digest and the expansion of each transition, as the circuit has to compute them
fn hashes(c: &Chain) -> Option<(Vec<Bits>, Vec<Bits>)> {
    let mut out = (vec![], vec![]);
    for u in &c.ups {
        let crh = COMPOSITE_HASHER.crh(&[], &to_bytes(&inner(&u.block)), 0).ok()?;
        let (_, counter) = block_hash(&u.block)?;
        out.0.push(bits_le(&crh));
        out.1.push(expand(counter, &to_bytes(&extra(&u.block)), &crh));
    }
    Some(out)
}
fn packed(crh: &[Bits], xof: &[Bits]) -> Vec<Fr> { [pack::<Fr>(&crh.concat(), CAP_BLS), pack::<Fr>(&xof.concat(), CAP_BLS)].concat() }
fn execute(c: &Chain, key: &Key, proof: Proof<Bls12_377>) -> (Exec<Fq, ()>, Vec<Verification>) {
    take_verifications();
    let mut k = c.circuit();
    k.hash_helper = Some(HashToBitsHelper { proof, verifying_key: key.vk.clone() });
    let e = honest(|cs| k.generate_constraints(cs));
    (e, take_verifications())
}
/// another statement with as many elements, and what it is
fn other(r: &mut Rng8, crh: &[Bits], xof: &[Bits]) -> (Vec<Fr>, String) {
    let (mut a, mut b) = (crh.to_vec(), xof.to_vec());
    let k = r.gen_range(0, a.len());
    let (all, n) = (packed(crh, xof), (384 * crh.len() + CAP_BLS - 1) / CAP_BLS);
    match r.gen_range(0, 12) {
        0 | 1 => { let i = r.gen_range(0, 384); a[k][i] = !a[k][i]; (packed(&a, &b), format!("bit {} of the digest of transition {} flipped", i, k)) }
        2 | 3 => { let i = r.gen_range(0, 512); b[k][i] = !b[k][i]; (packed(&a, &b), format!("bit {} of the expansion of transition {} flipped", i, k)) }
        4 => { let i = [0, 383, 251][r.gen_range(0, 3)]; a[k][i] = !a[k][i]; (packed(&a, &b), format!("bit {} of the digest of transition {} flipped", i, k)) }
        5 => { let i = [0, 511, 377, 378, 383, 384][r.gen_range(0, 6)]; b[k][i] = !b[k][i]; (packed(&a, &b), format!("bit {} of the expansion of transition {} flipped", i, k)) }
        6 => { let mut v = all[n..].to_vec(); v.extend(&all[..n]); (v, "the expansions before the digests".into()) }
        7 => { a.reverse(); (packed(&a, &b), "the digests in reverse order".into()) }
        8 => { b.reverse(); (packed(&a, &b), "the expansions in reverse order".into()) }
        9 => { for x in a.iter_mut().chain(b.iter_mut()) { x.reverse(); } (packed(&a, &b), "the bits in reverse order".into()) }
        10 => { let l = b.len() - 1; b[k] = b[l].clone(); a[k] = a[l].clone(); (packed(&a, &b), format!("transition {} replaced by the last", k)) }
        _ => { let mut v = all; let i = r.gen_range(0, v.len()); v[i] += Fr::one(); (v, format!("element {} plus one", i)) }
    }
}
fn shown(v: &Verification) -> Vec<String> { v.inputs.iter().map(|i| i.iter().rev().map(|b| match b { Some(true) => '1', Some(false) => '0', None => '?' }).collect()).collect() }
/// the real prover with its own helper proof: the weakness on record
fn recorded(run: &Run, r: &mut Rng8) {
    let p = match catch(|| trusted_setup(2, 1, 1, r, true)) { Ok(Ok(p)) => p, e => { run.violation("setup", format!("set-up with the helper circuit: {:?}", e.map(|e| e.err()))); return; } };
    let mut c = chain(r, 2, 1, 0, false);
    while c.degenerate() { c = chain(r, 2, 1, 0, false); }
    take_verifications();
    let res = catch(|| { let t = transitions(&c, r); prove(&p, 2, &c.init, &t, 1) });
    let v = take_verifications();
    if let (Ok(Ok(_)), Some(v)) = (res, v.last()) { run.check(v.result == Some(true), "own-helper-fails", || format!("{}: the helper proof made by `prove` itself does not verify in the epoch circuit", c.show())); }
}
pub fn c11() {
    let run = Run::start("C11", "chains of 1 to 3 transitions (some of them padding epochs) between sets of 1 to 4 validators, valid or with one relation broken, in the epoch circuit of the two-proof mode, each with a helper proof of a statement of our choosing: the digests and expansions written down independently, or the same with a bit flipped, in another order, or with an element replaced. Oracle: what the verification inside the circuit comes out as; for valid chains the circuit is satisfied with the public input of its ends, for others it is not. Non-trivial: every execution");
    let keys: Keys = Default::default();
    run.par(8, |t, r| {
        if t == 0 { recorded(&run, r); }
        while run.within(run.pick(60.0, 1500.0)) {
            let n = [1, 2, 2, 3, run.pick(3, 4)][r.gen_range(0, 5)];
            let m = [1, 2, 2, 2, 3][r.gen_range(0, 5)];
            let dummies = if m > 1 && r.gen_bool(0.25) { 1 } else { 0 };
            let scattered = r.gen();
            let mut c = chain(r, n, m - dummies, dummies, scattered);
            let broken = r.gen_bool(0.15);
            if broken { corrupt(r, &mut c); }
            if c.degenerate() || c.ups.is_empty() || c.ups.len() > 4 || c.ups.iter().any(|u| u.bitmap.len() != n) { continue; }
            let (crh, xof) = match hashes(&c) { Some(h) => h, None => continue };
            let problem = c.problem();
            let right = packed(&crh, &xof);
            let (stated, what) = if r.gen_bool(0.45) { (right.clone(), "its own digests and expansions".to_string()) } else { other(r, &crh, &xof) };
            let k = key(&keys, right.len(), r);
            let (e, seen) = execute(&c, &k, proof(&k, &stated));
            let show = || format!("{} with a helper proof of {}", c.show(), what);
            run.eval(show() + &format!("{:?}{:?}", c.public(), stated), true);
            run.state("statements", (what.split(" of ").next().unwrap_or("").to_string(), c.ups.len(), dummies));
            run.sample(|| format!("{}: {}, verification {:?}", show(), e.describe(), seen.iter().map(|v| v.result).collect::<Vec<_>>()));
            match (&problem, e.ok().is_some()) {
                (None, true) => { run.count("valid_chains", 1); run.check(e.cs.borrow().unwrap().instance_assignment[1..].to_vec() == c.public(), "public-input", || format!("{}: the public input is not that of the first and last epoch", show())); }
                (None, false) => { run.count("valid_chains", 1); if stated == right { run.violation("refused", format!("{}: a valid chain, but {}", show(), e.describe())); } }
                (Some(p), ok) => { run.count("invalid_chains", 1); run.check(!ok, "accepted", || format!("{}: satisfied although not valid ({})", show(), p)); }
            }
            if !matches!(e.out, Ok(Ok(_))) { continue; }
            let v = match seen.last() { Some(v) => v, None => { run.violation("not-looked-at", format!("{}: no verification of the helper proof takes place", show())); continue; } };
            run.count(if stated == right { "right_statements" } else { "other_statements" }, 1);
            if stated == right { run.check(v.result == Some(true), "own-hashes", || format!("{}: the proof does not verify; it is held against {:?}, not {:?}", show(), shown(v), right.iter().map(|x| { let mut b: String = bits_le(&x.into_repr().to_bytes_le())[..CAP_BLS].iter().rev().map(|b| if *b { '1' } else { '0' }).collect(); b.truncate(CAP_BLS); b }).collect::<Vec<_>>())); }
            else { run.check(v.result != Some(true), "other-hashes", || format!("{}: the proof verifies", show())); }
        }
    });
    run.require("valid_chains", 40);
    run.require("invalid_chains", 5);
    run.require("right_statements", 25);
    run.require("other_statements", 25);
    run.require("statements", 20);
    run.assume("the constraint system, gadgets, curves and proof system are the stand-ins of /verif/shim; the outcome of the verification inside the circuit is read off the library's gadget, because the circuit does not use it (the finding on record under C07)");
    run.finish()
}
