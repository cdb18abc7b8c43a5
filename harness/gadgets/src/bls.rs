//! C04: in-circuit BLS verification against the native pairing equation and a plain count of absent signers.
use ark_bls12_377::{constraints::{G1Var, G2Var, PairingVar}, Bls12_377, Fq, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode}, boolean::Boolean, fields::fp::FpVar, groups::CurveVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::BlsVerifyGadget;
use circ::{given, honest, setup_shape, Attack, Budget};
use mon::{rand::Rng, Rng8, Run};
use std::collections::HashMap;
use std::sync::Mutex;
type CS = ConstraintSystemRef<Fq>;
type Gadget = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
type Shapes = Mutex<HashMap<(usize, u8), u64>>;

fn g1(cs: &CS, v: Option<G1Projective>, m: AllocationMode) -> Result<G1Var, SynthesisError> { G1Var::new_variable_omit_prime_order_check(cs.clone(), || v.ok_or(SynthesisError::AssignmentMissing), m) }
fn g2(cs: &CS, v: Option<G2Projective>, m: AllocationMode) -> Result<G2Var, SynthesisError> { G2Var::new_variable_omit_prime_order_check(cs.clone(), || v.ok_or(SynthesisError::AssignmentMissing), m) }
fn rand_scalar(r: &mut Rng8) -> Fr { match r.gen_range(0, 6) { 0 => Fr::from(r.gen_range(2u64, 6)), 1 => -Fr::from(r.gen_range(1u64, 6)), _ => Fr::rand(r) } }
fn gen2() -> G2Projective { G2Projective::prime_subgroup_generator() }
fn mul2(s: Fr) -> G2Projective { use ark_ff::PrimeField; gen2().mul(s.into_repr()) }
fn mul1(p: G1Projective, s: Fr) -> G1Projective { use ark_ff::PrimeField; p.mul(s.into_repr()) }

#[derive(Clone, Debug)]
struct Case { sks: Vec<Fr>, keys: Vec<G2Projective>, bits: Vec<bool>, max: u64, h: G1Projective, sig: G1Projective, pad: G2Projective, pad_const: bool, note: String }
impl Case {
    fn absent(&self) -> u64 { self.bits.iter().filter(|b| !**b).count() as u64 }
    fn sum(&self) -> G2Projective { self.keys.iter().zip(&self.bits).filter(|x| *x.1).fold(G2Projective::zero(), |a, x| a + *x.0) }
    fn padding_signs(&self) -> bool { self.keys.iter().zip(&self.bits).any(|(k, b)| *b && *k == self.pad) }
    /// the constraints on the bitmap and the keys alone
    fn selects(&self) -> bool { self.absent() <= self.max && !self.padding_signs() }
    fn valid(&self) -> bool { self.selects() && !self.sum().is_zero() && Bls12_377::product_of_pairings(&[((-self.sig).into_affine().into(), gen2().into_affine().into()), (self.h.into_affine().into(), self.sum().into_affine().into())]).is_one() }
    fn show(&self) -> String { format!("{} keys, bitmap {}, at most {} absent, {}{}", self.keys.len(), self.bits.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>(), self.max, self.note, if self.padding_signs() { ", the padding key signs" } else { "" }) }
}
struct Vars { keys: Vec<G2Var>, bits: Vec<Boolean<Fq>>, h: G1Var, sig: G1Var, max: FpVar<Fq>, pad: G2Var }
fn alloc(c: &Case, cs: &CS, values: bool) -> Result<Vars, SynthesisError> {
    use AllocationMode::*;
    given(|| Ok(Vars {
        keys: c.keys.iter().map(|k| g2(cs, values.then_some(*k), Witness)).collect::<Result<_, _>>()?,
        bits: c.bits.iter().map(|b| Boolean::new_witness(cs.clone(), || values.then_some(*b).ok_or(SynthesisError::AssignmentMissing))).collect::<Result<_, _>>()?,
        h: g1(cs, values.then_some(c.h), Witness)?,
        sig: g1(cs, values.then_some(c.sig), Witness)?,
        max: FpVar::new_witness(cs.clone(), || values.then_some(Fq::from(c.max)).ok_or(SynthesisError::AssignmentMissing))?,
        pad: if c.pad_const { G2Var::constant(c.pad) } else { g2(cs, values.then_some(c.pad), Witness)? },
    }))
}
fn case(r: &mut Rng8, n: usize) -> Case {
    let mut sks: Vec<Fr> = vec![];
    for i in 0..n { let s = match r.gen_range(0, 12) { 0 if i > 0 => sks[r.gen_range(0, i)], 1 if i > 0 => -sks[r.gen_range(0, i)], 2 => Fr::zero(), _ => rand_scalar(r) }; sks.push(s); }
    let pad = match r.gen_range(0, 4) { 0 => mul2(rand_scalar(r)), _ => gen2() };
    let mut keys: Vec<G2Projective> = sks.iter().map(|s| mul2(*s)).collect();
    let p = [1.0, 0.9, 0.7, 0.5][r.gen_range(0, 4)];
    let mut bits: Vec<bool> = (0..n).map(|_| r.gen_bool(p)).collect();
    if pad == gen2() && r.gen_bool(0.25) {
        // padding keys in the list; mostly they do not sign
        for i in 0..n { if r.gen_bool(0.4) { sks[i] = Fr::one(); keys[i] = gen2(); if r.gen_bool(0.7) { bits[i] = false; } } }
    }
    let absent = bits.iter().filter(|b| !**b).count() as u64;
    let max = match r.gen_range(0, 10) { 8 => 1 << r.gen_range(0, 64), 9 => (1u64 << r.gen_range(8, 64)) + absent.saturating_sub(1), 0..=2 => absent, 3 | 4 => absent.saturating_sub(1), 5 => absent + 1, 6 => n as u64, _ => r.gen_range(0, n as u64 + 1) };
    let h = G1Projective::rand(r);
    let signers: Vec<usize> = (0..n).filter(|i| bits[*i]).collect();
    let s = signers.iter().fold(Fr::zero(), |a, i| a + sks[*i]);
    let honest = mul1(h, s);
    let (sig, note) = match r.gen_range(0, 16) {
        0 => (-honest, "negated signature"),
        1 => (mul1(G1Projective::rand(r), s), "signature on another message"),
        2 => (mul1(h, sks.iter().fold(Fr::zero(), |a, b| a + b)), "signature of all keys"),
        3 if !signers.is_empty() => { let i = signers[r.gen_range(0, signers.len())]; (mul1(h, s - sks[i]), "signature without one of the signers") }
        4 => { let i = r.gen_range(0, n); (mul1(h, s + sks[i]), "signature with a key added") }
        5 => (G1Projective::rand(r), "random signature"),
        6 => (honest + G1Projective::prime_subgroup_generator(), "signature shifted by the generator"),
        7 => (honest + h, "signature with a padding signer's added"),
        _ => (honest, "honest signature"),
    };
    Case { sks, keys, bits, max, h, sig, pad, pad_const: r.gen_bool(0.75), note: note.into() }
}
fn shape_check<T>(run: &Run, shapes: &Shapes, key: (usize, u8), e: &circ::Exec<Fq, T>, what: &str, setup: impl FnOnce() -> Result<u64, String>) {
    if !matches!(e.out, Ok(Ok(_))) { return; }
    let s = e.shape();
    let mut g = shapes.lock().unwrap();
    let fresh = !g.contains_key(&key);
    let old = *g.entry(key).or_insert(s);
    drop(g);
    run.check(old == s, "shape", || format!("{}, {} keys: the constraints depend on the values", what, key.0));
    if fresh {
        run.count("shapes_compared_with_setup", 1);
        match setup() { Ok(t) => { run.check(t == s, "shape-setup", || format!("{}, {} keys: the constraints at set-up differ from those at proving", what, key.0)); } Err(x) => run.violation("setup", format!("{}, {} keys: set-up fails: {}", what, key.0, x)) }
    }
}
fn no_sig_at_zero(c: &Case) -> bool { c.sig.is_zero() || c.h.is_zero() }
fn full(run: &Run, r: &mut Rng8, shapes: &Shapes, attack: bool) {
    let n = match r.gen_range(0, 24) { 0 | 1 => 1, 2 | 3 => r.gen_range(5, 12), 4 => r.gen_range(12, 140), _ => r.gen_range(1, 6) };
    let c = case(r, n);
    if no_sig_at_zero(&c) { return; }
    let body = |cs: CS, values: bool| -> Result<(), SynthesisError> {
        let v = alloc(&c, &cs, values)?;
        Gadget::verify(&v.keys, &v.bits, &v.h, &v.sig, &v.max, &v.pad)
    };
    let ok = c.valid();
    let h = honest(|cs| body(cs, true));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval((format!("{:?}", c.sks), &c.bits, c.max, &c.note, format!("{:?}", c.h)), true);
    run.count(if ok { "valid" } else { "invalid" }, 1);
    run.state("signature_selection", (&c.note, (c.absent() as i128 - c.max as i128).max(-9), c.padding_signs(), ok));
    run.sample(|| format!("verify: {} -> {}", c.show(), h.describe()));
    match (ok, h.ok().is_some()) {
        (true, false) => { run.violation("refused", format!("verify: {}: valid, but {}", c.show(), h.describe())); }
        (false, true) => { run.violation("accepted", format!("verify: {}: satisfied although not valid", c.show())); }
        _ => {}
    }
    // a constant padding key is part of the circuit
    if !c.pad_const || c.pad == gen2() { shape_check(run, shapes, (n, c.pad_const as u8), &h, "verify", || setup_shape(|cs| body(cs, false))); }
    if attack && !ok {
        let pool2 = [gen2().into_affine(), G2Affine::default(), c.sum().into_affine(), mul2(Fr::rand(r)).into_affine()];
        let pool1 = [c.h.into_affine(), c.sig.into_affine(), mul1(c.h, c.sks.iter().zip(&c.bits).filter(|x| *x.1).fold(Fr::zero(), |a, x| a + x.0)).into_affine(), G1Affine::default()];
        let b = |cs: CS| body(cs, true);
        Attack { run, key: "tampered-accepted", body: &b, budget: Budget { sites: 12, per_site: 6, pairs: 3, repair: 1, runs: 14 }, pool1: &pool1, pool2: &pool2,
            wrong: &|_| Some(format!("verify: {}: satisfied although not valid", c.show())) }.go(&h, r);
    }
}
/// the parts that do not need a pairing: many more cases
fn parts(run: &Run, r: &mut Rng8, shapes: &Shapes, attack: bool) {
    let n = if r.gen_range(0, 24) == 0 { r.gen_range(14, 260) } else { r.gen_range(1, 14) };
    let c = case(r, n);
    let which = r.gen_range(0, 3u8);
    let all = c.keys.iter().fold(G2Projective::zero(), |a, k| a + *k);
    let (want, ok, name) = match which { 0 => (c.sum(), !c.padding_signs(), "aggregated keys"), 1 => (c.sum(), c.selects(), "bitmap"), _ => (all, true, "all keys aggregated") };
    let body = |cs: CS, values: bool| -> Result<Option<(G2Projective, G1Projective)>, SynthesisError> {
        let v = alloc(&c, &cs, values)?;
        let (h, k) = match which {
            0 => (v.h.clone(), Gadget::enforce_aggregated_pubkeys(&v.keys, &v.bits, &v.pad)?),
            1 => Gadget::enforce_bitmap(&v.keys, &v.bits, &v.h, &v.max, &v.pad)?,
            _ => (v.h.clone(), Gadget::enforce_aggregated_all_pubkeys(&v.keys)?),
        };
        Ok(if values { Some((k.value()?, h.value()?)) } else { None })
    };
    let h = honest(|cs| body(cs, true));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval((which, format!("{:?}", c.sks), &c.bits, c.max), true);
    run.count(&format!("part: {}", name), 1);
    match h.ok() {
        Some(Some((k, m))) => {
            if !ok { run.violation("part-accepted", format!("{}: {}: satisfied", name, c.show())); }
            run.check(*k == want && *m == c.h, "part-value", || format!("{}: {}: another key or hash than natively", name, c.show()));
        }
        _ => if ok { run.violation("part-refused", format!("{}: {}: {}", name, c.show(), h.describe())); },
    }
    if !c.pad_const || c.pad == gen2() { shape_check(run, shapes, (n, 10 + which * 2 + c.pad_const as u8), &h, name, || setup_shape(|cs| body(cs, false))); }
    if attack {
        let mut pool2 = vec![gen2().into_affine(), G2Affine::default(), c.sum().into_affine(), all.into_affine(), mul2(Fr::rand(r)).into_affine()];
        pool2.extend(c.keys.iter().map(|k| k.into_affine()));
        let b = |cs: CS| body(cs, true);
        Attack { run, key: "part-tampered", body: &b, budget: Budget { sites: 14, per_site: 8, pairs: 4, repair: 2, runs: 40 }, pool1: &[G1Projective::rand(r).into_affine()], pool2: &pool2,
            wrong: &|o| if !ok { Some(format!("{}: {}: satisfied", name, c.show())) } else { match o { Some((k, m)) if *k != want || *m != c.h => Some(format!("{}: {}: a wrong key satisfies the constraints", name, c.show())), _ => None } } }.go(&h, r);
    }
}
fn batch(run: &Run, r: &mut Rng8, shapes: &Shapes, attack: bool) {
    let n = if r.gen_range(0, 20) == 0 { r.gen_range(5, 33) } else { r.gen_range(1, 5) };
    let mut sks: Vec<Fr> = (0..n).map(|_| rand_scalar(r)).collect();
    if n > 1 && r.gen_bool(0.2) { sks[1] = sks[0]; }
    let mut hs: Vec<G1Projective> = (0..n).map(|_| G1Projective::rand(r)).collect();
    if n > 1 && r.gen_bool(0.2) { hs[1] = hs[0]; }
    let mut keys: Vec<G2Projective> = sks.iter().map(|s| mul2(*s)).collect();
    let mut sig = (0..n).fold(G1Projective::zero(), |a, i| a + mul1(hs[i], sks[i]));
    let i = r.gen_range(0, n);
    let note = match r.gen_range(0, 14) {
        0 => { sig -= mul1(hs[i], sks[i]); "one epoch's signature left out" }
        1 => { sig += mul1(hs[i], sks[i]); "one epoch's signature twice" }
        2 => { sig = -sig; "signature negated" }
        3 => { hs.rotate_left(1); "hashes rotated" }
        4 => { keys[i] = mul2(Fr::rand(r)); "one key replaced" }
        5 => { hs[i] = G1Projective::rand(r); "one hash replaced" }
        6 => { keys[i] = -keys[i]; "one key negated" }
        7 => { sig += G1Projective::prime_subgroup_generator(); "signature shifted by the generator" }
        8 => { keys[i] = -keys[i]; hs[i] = -hs[i]; "one key and its hash negated" }
        _ => "honest",
    };
    if sig.is_zero() || keys.iter().any(|k| k.is_zero()) { return; }
    let mut pairs = vec![((-sig).into_affine().into(), gen2().into_affine().into())];
    for (k, h) in keys.iter().zip(&hs) { pairs.push((h.into_affine().into(), k.into_affine().into())); }
    let ok = Bls12_377::product_of_pairings(&pairs).is_one();
    let body = |cs: CS, values: bool| -> Result<(), SynthesisError> {
        use AllocationMode::*;
        let (k, h, s) = given(|| -> Result<_, SynthesisError> { Ok((
            keys.iter().map(|k| g2(&cs, values.then_some(*k), Witness)).collect::<Result<Vec<_>, _>>()?,
            hs.iter().map(|h| g1(&cs, values.then_some(*h), Witness)).collect::<Result<Vec<_>, _>>()?,
            g1(&cs, values.then_some(sig), Witness)?)) })?;
        Gadget::batch_verify(&k, &h, &s)
    };
    let h = honest(|cs| body(cs, true));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval((format!("{:?}", sks), format!("{:?}", sig)), true);
    run.count(if ok { "valid_batch" } else { "invalid_batch" }, 1);
    run.state("batch_kinds", (note, n, ok));
    run.sample(|| format!("batch of {}: {} -> {}", n, note, h.describe()));
    match (ok, h.ok().is_some()) {
        (true, false) => { run.violation("batch-refused", format!("batch of {} epochs, {}: valid, but {}", n, note, h.describe())); }
        (false, true) => { run.violation("batch-accepted", format!("batch of {} epochs, {}: satisfied although not valid", n, note)); }
        _ => {}
    }
    shape_check(run, shapes, (n, 50), &h, "batch", || setup_shape(|cs| body(cs, false)));
    if attack && !ok {
        let b = |cs: CS| body(cs, true);
        Attack { run, key: "batch-tampered", body: &b, budget: Budget { sites: 12, per_site: 6, pairs: 2, repair: 1, runs: 10 }, pool1: &[hs[0].into_affine(), sig.into_affine()], pool2: &[gen2().into_affine()],
            wrong: &|_| Some(format!("batch of {} epochs, {}: satisfied although not valid", n, note)) }.go(&h, r);
    }
    // lists of different lengths stand for no equation
    if r.gen_bool(0.25) {
        let drop_key = r.gen();
        let e = honest(|cs: CS| -> Result<(), SynthesisError> {
            use AllocationMode::*;
            let (mut k, mut h, s) = given(|| -> Result<_, SynthesisError> { Ok((
                keys.iter().map(|k| g2(&cs, Some(*k), Witness)).collect::<Result<Vec<_>, _>>()?,
                hs.iter().map(|h| g1(&cs, Some(*h), Witness)).collect::<Result<Vec<_>, _>>()?,
                g1(&cs, Some(sig), Witness)?)) })?;
            let extra_k = k[0].clone();
            let extra_h = h[0].clone();
            if drop_key { h.push(extra_h) } else { k.push(extra_k) }
            Gadget::batch_verify(&k, &h, &s)
        });
        run.count("uneven_batches", 1);
        run.check(e.ok().is_none(), "uneven", || format!("batch of {} epochs with a {} more: satisfied", n, if drop_key { "hash" } else { "key" }));
    }
}
pub fn c04() {
    let run = Run::start("C04", "random lists of 1 to 13 keys, at times up to 259 (repeated, opposite, identity and padding keys among them), random bitmaps, maxima around the number of absent signers, honest signatures and nine kinds of wrong ones; batches of 1 to 4 epochs, at times up to 32, honest and with eight kinds of corruption; the key sum and bitmap parts on their own; witness values allocated by the code under test replaced by a dishonest prover. Oracle: native pairing product over the selected keys, plain count, native sums. Non-trivial: every case");
    let shapes = Mutex::new(HashMap::new());
    run.par(8, |_, r| {
        let mut i = 0u64;
        while run.within(run.pick(40.0, 1800.0)) {
            i += 1;
            full(&run, r, &shapes, i % 3 == 0);
            if i % 2 == 0 { batch(&run, r, &shapes, i % 4 == 0); }
            for k in 0..4 { parts(&run, r, &shapes, k % 2 == 0); }
        }
    });
    run.require("valid", 15);
    run.require("invalid", 15);
    run.require("valid_batch", 4);
    run.require("invalid_batch", 4);
    run.require("signature_selection", 12);
    run.assume("the constraint system, curve and pairing gadgets are the stand-ins of /verif/shim; signatures, hashes and aggregate keys other than the identity; a dishonest prover replaces witness values the code under test allocates (the library's own gadgets are taken to be sound)");
    run.finish()
}
