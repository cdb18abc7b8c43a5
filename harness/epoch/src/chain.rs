//! C06 and C07: one transition and whole chains against a plain model of a valid validator-set change.
use crate::blk::*;
use crate::data::*;
use ark_bls12_377::{constraints::G2Var, Bls12_377};
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode}, boolean::Boolean, fields::fp::FpVar, groups::CurveVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSynthesizer, SynthesisError};
use circ::points::bits_le;
use circ::{exec, given, honest, setup_shape, Attack, Budget, Exec, Plan, Val};
use epoch_snark::verif_hooks::{HashToBitsHelper, SingleUpdate};
use epoch_snark::ValidatorSetUpdate;
use std::sync::Mutex;
pub type Update = SingleUpdate<Bls12_377>;

fn number(e: &Option<Vec<u8>>) -> Fq { e.as_ref().map_or(Fq::zero(), |e| e.iter().rev().fold(Fq::zero(), |a, x| a * Fq::from(256u64) + Fq::from(*x as u64))) }
fn zero_entropy(e: &Option<Vec<u8>>) -> bool { e.as_ref().map_or(true, |e| e.iter().all(|x| *x == 0)) }
fn map(b: &[bool]) -> String { b.iter().map(|b| if *b { '1' } else { '0' }).collect() }

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug)]
pub struct Step { pub keys: Vec<G2Projective>, pub index: u16, pub entropy: Option<Vec<u8>>, pub max: u32, pub bit: bool, pub bit_const: bool, pub block: EpochBlock, pub bitmap: Bits, pub full: bool, pub note: String }
#[derive(Clone, Debug)]
pub struct StepOut { agg: G2Projective, seen: Seen }
impl Step {
    fn valid(&self) -> bool {
        self.bitmap.len() == self.keys.len() && self.bitmap.iter().filter(|b| !**b).count() as u64 <= self.max as u64
            && !self.keys.iter().zip(&self.bitmap).any(|(k, b)| *b && *k == gen2())
            && (self.block.index == 0 || (self.block.index as u32 == self.index as u32 + 1 && (!self.bit || number(&self.block.parent_entropy) == number(&self.entropy))))
    }
    fn agg(&self) -> G2Projective { self.keys.iter().zip(&self.bitmap).filter(|x| *x.1).fold(G2Projective::zero(), |a, x| a + *x.0) }
    pub fn show(&self) -> String { format!("after index {} (entropy {:?}, at most {} absent, entropies {}): {}; bitmap {}; {}", self.index, self.entropy.as_ref().map(|e| hex(e)), self.max, if self.bit { "compared" } else { "ignored" }, show(&self.block), map(&self.bitmap), self.note) }
    pub fn update(&self) -> Update { Update { epoch_data: data(&self.block), signed_bitmap: self.bitmap.iter().map(|b| Some(*b)).collect() } }
    pub fn run(&self, u: &Update, cs: CS) -> Result<Option<StepOut>, SynthesisError> {
        let setup = cs.is_in_setup_mode();
        let no = SynthesisError::AssignmentMissing;
        let (keys, index, entropy, max, bit) = given(|| -> Result<_, SynthesisError> {
            let f = |v: Fq| FpVar::new_witness(cs.clone(), || if setup { Err(no) } else { Ok(v) });
            Ok((self.keys.iter().map(|k| G2Var::new_variable_omit_prime_order_check(cs.clone(), || if setup { Err(no) } else { Ok(*k) }, AllocationMode::Witness)).collect::<Result<Vec<_>, _>>()?,
                f(Fq::from(self.index as u64))?, f(number(&self.entropy))?, f(Fq::from(self.max as u64))?,
                if self.bit_const { Boolean::constant(self.bit) } else { Boolean::new_witness(cs.clone(), || if setup { Err(no) } else { Ok(self.bit) })? }))
        })?;
        let c = u.constrain(&keys, &index, &entropy, &max, &bit, self.keys.len() as u32, self.full)?;
        if setup { return Ok(None); }
        Ok(Some(StepOut { agg: c.aggregate_pk.value()?, seen: Seen { index: c.index.value()?, epoch: c.epoch_entropy.value()?, parent: c.parent_entropy.value()?, max: c.new_max_non_signers.value()?, keys: c.new_pubkeys.iter().map(|k| k.value()).collect::<Result<_, _>>()?, inner: None, extra: None, first: vals(&c.combined_first_epoch_bits)?, last: vals(&c.combined_last_epoch_bits)?, hash: Some((c.message_hash.value()?, vals(&c.crh_bits)?, vals(&c.xof_bits)?)) } }))
    }
    /// whether a satisfied execution stands for a transition that is not valid
    fn wrong(&self, o: &StepOut) -> Option<String> {
        let s = &o.seen;
        if !s.index.is_zero() {
            if s.index != Fq::from(self.index as u64 + 1) { return Some(format!("an index that is not the predecessor's plus one: {:?}", s.index.into_repr())); }
            if self.bit && s.parent != number(&self.entropy) { return Some("a parent entropy that is not the predecessor's entropy".into()); }
        }
        let n = self.keys.len();
        let good = (0..1u32 << n).any(|m| {
            let set = |i: usize| m >> i & 1 == 1;
            (n as u32 - m.count_ones()) as u64 <= self.max as u64 && !(0..n).any(|i| set(i) && self.keys[i] == gen2()) && (0..n).filter(|i| set(*i)).fold(G2Projective::zero(), |a, i| a + self.keys[i]) == o.agg
        });
        if !good { return Some("an aggregate that is not of enough of the previous validators, padding excluded".into()); }
        judge(s, self.full)
    }
}
fn plain_key(r: &mut Rng8) -> G2Projective { loop { let k = mul2(match r.gen_range(0, 6) { 0 => Fr::from(r.gen_range(2u64, 9)), 1 => -Fr::from(r.gen_range(1u64, 9)), _ => Fr::rand(r) }); if !at_half(&k) { return rerep2(k, r); } } }
fn nonzero(r: &mut Rng8) -> Option<Vec<u8>> { loop { let e = entropy(r); if !zero_entropy(&e) { return e; } } }
pub fn step(r: &mut Rng8) -> Step {
    let n = match r.gen_range(0, 6) { 0 => 1, 1 => 2, _ => r.gen_range(1, 7) };
    step_of(r, n)
}
pub fn step_of(r: &mut Rng8, n: usize) -> Step {
    let mut keys: Vec<G2Projective> = (0..n).map(|_| plain_key(r)).collect();
    if n > 1 && r.gen_bool(0.1) { keys[1] = keys[0]; }
    let p = [1.0, 0.9, 0.7, 0.5][r.gen_range(0, 4)];
    let mut bitmap: Bits = (0..n).map(|_| r.gen_bool(p)).collect();
    let mut note = String::new();
    if r.gen_bool(0.25) { for i in 0..n { if r.gen_bool(0.4) { keys[i] = gen2(); if r.gen_bool(0.75) { bitmap[i] = false; } } } note += "padding keys among the previous; "; }
    let absent = bitmap.iter().filter(|b| !**b).count() as u32;
    let max = match r.gen_range(0, 12) { 10 => 1 << r.gen_range(0, 32), 11 => (1u32 << r.gen_range(8, 32)) + absent.saturating_sub(1), 0..=3 => absent, 4 => absent.saturating_sub(1), 5 => absent + 1, 6 => u32::MAX, 7 => n as u32, _ => absent + r.gen_range(0, 3) };
    let prev: u16 = match r.gen_range(0, 6) { 0 => 0, 1 => 65534, 2 => 65535, 3 => 255, _ => r.gen_range(0, 65535) };
    let bit = r.gen_bool(0.7);
    let ent = if bit && r.gen_bool(0.75) { nonzero(r) } else { entropy(r) };
    let mut b = block(r, 0, n);
    b.new_public_keys = (0..n).map(|_| PublicKey::from(plain_key(r))).collect();
    b.index = prev.wrapping_add(1);
    b.parent_entropy = ent.clone();
    match r.gen_range(0, 16) {
        0 => { b.index = 0; note += "padding epoch; "; if r.gen() { b.parent_entropy = entropy(r); } }
        1 => { b.index = prev; note += "same index; " }
        2 => { b.index = prev.wrapping_add(2); note += "index plus two; " }
        3 => { b.index = index(r); note += "any index; " }
        4 => { b.index = prev.wrapping_add(1) ^ 1 << r.gen_range(0, 16); note += "one bit of the index; " }
        5 => { b.index = prev.wrapping_sub(1); note += "index minus one; " }
        6 | 7 => { let mut e = b.parent_entropy.unwrap_or_else(|| vec![0; 16]); e[r.gen_range(0, 16)] ^= 1 << r.gen_range(0, 8); b.parent_entropy = Some(e); note += "one bit of the parent entropy; " }
        8 => { b.parent_entropy = None; note += "no parent entropy; " }
        9 => { b.parent_entropy = b.epoch_entropy.clone(); note += "parent entropy is the epoch's own; " }
        _ => {}
    }
    match r.gen_range(0, 30) { 0 => { bitmap.pop(); note += "bitmap too short; " } 1 => { bitmap.push(r.gen()); note += "bitmap too long; " } _ => {} }
    Step { keys, index: prev, entropy: ent, max, bit, bit_const: r.gen(), block: b, bitmap, full: false, note }
}
/// The listed weakness, always looked for first: a threshold whose encoding does not show its high bits.
fn raised_threshold(run: &Run, r: &mut Rng8) {
    let mut s = step(r);
    while !s.valid() || s.keys.len() != s.bitmap.len() || s.block.index == 0 { s = step(r); }
    s.block.maximum_non_signers = 77_777_777;
    let u = s.update();
    let h = honest(|cs| s.run(&u, cs));
    for (i, v) in h.sites.iter().enumerate() {
        if let Val::F(x) = v.val { if x == Fq::from(77_777_777u64) {
            let mut p = Plan::new();
            p.insert(i, Val::F(x + Fq::from(1u64 << 32)));
            let e = exec(&p, |cs| s.run(&u, cs));
            run.count("tampered_executions", 1);
            if let Some(Some(o)) = e.ok() { if let Some(t) = s.wrong(o) { let (key, t) = match t.strip_prefix('@').and_then(|t| t.split_once(' ')) { Some((k, t)) => (k, t), None => ("tampered", &t[..]) }; run.violation(key, format!("transition {}: satisfied with {}", s.show(), t)); } }
        } }
    }
}
pub fn c06() {
    let run = Run::start("C06", "random transitions between epochs of 1 to 6 validators, and a few between sets of up to 150: honest, padding epochs, wrong or boundary indices, wrong parent entropies (compared or not), bitmaps around the threshold, of wrong length, padding keys signing or absent, thresholds up to 2^32 - 1; witnesses allocated by the code under test replaced by a dishonest prover. Oracle: a plain model of a valid transition, the sum of the signing keys, the block's native encodings and hash. Non-trivial: every transition");
    let shapes: Shapes = Default::default();
    run.par(8, |t, r| {
        if t < 2 { raised_threshold(&run, r); }
        // a few sets of the size of real ones
        let mut large = match t { 2 => vec![(r.gen_range(100, 151), true), (r.gen_range(64, 129), false)], 3 => vec![(r.gen_range(100, 151), false), (r.gen_range(17, 65), true)], 4 => vec![(r.gen_range(17, 65), false), (r.gen_range(33, 65), true), (r.gen_range(17, 34), true)], _ => vec![] };
        let mut i = 0u64;
        while run.within(run.pick(50.0, 1800.0)) {
            i += 1;
            if run.pick(false, true) && i % 64 == 0 { large.push((r.gen_range(7, 200), r.gen())); }
            let big = large.pop();
            let mut s = match big {
                Some((n, true)) => loop { let s = step_of(r, n); if s.valid() && s.block.index != 0 { break s; } },
                Some((n, false)) => loop { let s = step_of(r, n); if !s.valid() { break s; } },
                None => step(r),
            };
            s.full = i % 12 == 0 && big.is_none();
            let (ok, u) = (s.valid(), s.update());
            if big.is_some() { run.count("large_sets", 1); run.state("large_set_sizes", s.keys.len()); }
            let h = honest(|cs| s.run(&u, cs));
            run.eval(s.show(), true);
            run.count(if ok { if s.block.index == 0 { "valid_padding_epochs" } else { "valid" } } else { "invalid" }, 1);
            run.state("relations", (&s.note, s.bit, s.bitmap.iter().filter(|b| !**b).count() as i64 - s.max as i64, ok));
            run.sample(|| format!("{} -> {}", s.show(), h.describe()));
            match (ok, h.ok()) {
                (true, Some(Some(o))) => {
                    run.check(o.agg == s.agg(), "aggregate", || format!("{}: the aggregate is not that of the signing keys", s.show()));
                    compare(&run, "transition", &s.block, &o.seen, false);
                }
                (true, _) => { run.violation("refused", format!("{}: valid, but {}", s.show(), h.describe())); }
                (false, Some(_)) => { run.violation("accepted", format!("{}: satisfied although not valid", s.show())); }
                (false, None) => {}
            }
            if s.bitmap.len() == s.keys.len() {
                shape_check(&run, &shapes, (s.keys.len(), s.full as u8 + 2 * s.bit_const as u8 + 4 * (s.bit_const && s.bit) as u8), &h, "transition", || { let e = Update::empty(s.keys.len(), 3); setup_shape(|cs| s.run(&e, cs)) });
                if i % 2 == 0 && s.keys.len() < 16 {
                    let body = |cs: CS| s.run(&u, cs);
                    let all = s.keys.iter().fold(G2Projective::zero(), |a, k| a + *k);
                    let mut pool2 = vec![gen2().into_affine(), all.into_affine(), s.agg().into_affine()];
                    pool2.extend(s.keys.iter().map(|k| k.into_affine()));
                    pool2.retain(|p| !at_half(&p.into_projective()) && !p.is_zero());
                    let pool1 = [gen1().into_affine(), mul1(gen1(), Fr::rand(r)).into_affine()];
                    Attack { run: &run, key: "tampered", body: &body, budget: Budget { sites: 16, per_site: 2, pairs: 3, repair: 1, runs: if s.full { 4 } else { 10 } }, pool1: &pool1, pool2: &pool2, wrong: &|o| o.as_ref().and_then(|o| s.wrong(o)) }.go(&h, r);
                }
            }
        }
    });
    run.require("valid", 60);
    run.require("valid_padding_epochs", 5);
    run.require("large_sets", 4);
    run.require("invalid", 60);
    run.require("relations", 60);
    run.require("tampered_executions", 200);
    run.assume("the constraint system, gadgets and curves are the stand-ins of /verif/shim; a dishonest prover replaces the witness values the code under test allocates (the library's own gadgets are taken to be sound)");
    run.finish()
}

// ---------------------------------------------------------------- C07
#[derive(Clone)]
pub struct Chain { pub n: usize, pub init: EpochBlock, pub init_sks: Vec<Fr>, pub ups: Vec<Up>, pub sig: G1Projective, pub note: String }
#[derive(Clone)]
pub struct Up { pub block: EpochBlock, pub sks: Vec<Fr>, pub bitmap: Bits }
fn set(r: &mut Rng8, n: usize, pads: usize) -> Vec<Fr> {
    let mut v: Vec<Fr> = (0..n).map(|_| loop { let s = match r.gen_range(0, 6) { 0 => Fr::from(r.gen_range(2u64, 1000)), _ => Fr::rand(r) }; if !at_half(&mul2(s)) { return s; } }).map(|s| s).collect();
    for i in n - pads..n { v[i] = Fr::one(); }
    v
}
fn pks(r: &mut Rng8, s: &[Fr]) -> Vec<PublicKey> { s.iter().map(|s| PublicKey::from(rerep2(mul2(*s), r))).collect() }
pub fn padding(r: &mut Rng8, n: usize, like: &[bool]) -> Up { let sks = vec![Fr::one(); n]; Up { block: EpochBlock::new(0, 0, Some(vec![0; 16]), Some(vec![0; 16]), 0, n, pks(r, &sks)), sks, bitmap: like.to_vec() } }
/// a valid chain: `real` transitions, `dummies` padding epochs before the last, `pads` padding validators per epoch
pub fn chain(r: &mut Rng8, n: usize, real: usize, dummies: usize, scattered: bool) -> Chain {
    let ent = r.gen_bool(0.6);
    let pads: Vec<usize> = (0..=real).map(|_| if n > 1 && r.gen_bool(0.2) { r.gen_range(1, n) } else { 0 }).collect();
    let start = match r.gen_range(0, 4) { 0 => 0, 1 => (65535 - real) as u16, _ => r.gen_range(0, 60000) };
    let mut es: Vec<Option<Vec<u8>>> = (0..=real).map(|_| if ent { nonzero(r) } else { entropy(r) }).collect();
    if !ent { es[0] = if r.gen() { None } else { Some(vec![0; 16]) }; }
    // entropies are compared for the whole chain as soon as the first epoch has one, whatever the later epochs have
    for k in 1..=real { match r.gen_range(0, 8) { 0 | 1 => es[k] = entropy(r), 2 => es[k] = Some(vec![0; 16]), 3 => es[k] = es[k - 1].clone(), _ => {} } }
    // thresholds leave room for the padding validators and mostly for someone absent
    let maxs: Vec<u32> = pads.iter().map(|p| *p as u32 + match r.gen_range(0, 8) { 0 | 1 => 0, 2 => u32::MAX - n as u32, 3 => 1 << r.gen_range(8, 32), _ => r.gen_range(0, (n - p) as u32) }).collect();
    let sks: Vec<Vec<Fr>> = pads.iter().map(|p| set(r, n, *p)).collect();
    let init = EpochBlock::new(start, round(r), es[0].clone(), entropy(r), maxs[0], n, pks(r, &sks[0]));
    let mut ups = vec![];
    for k in 1..=real {
        let mut bitmap: Bits = (0..n).map(|i| i < n - pads[k - 1]).collect();
        let mut room = (maxs[k - 1] as usize).saturating_sub(pads[k - 1]).min(n - pads[k - 1] - 1);
        for i in 0..n { if bitmap[i] && room > 0 && r.gen_bool(0.5) { bitmap[i] = false; room -= 1; } }
        let parent = if ent { es[k - 1].clone() } else { entropy(r) };
        ups.push(Up { block: EpochBlock::new(start + k as u16, round(r), es[k].clone(), parent, maxs[k], n, pks(r, &sks[k])), sks: sks[k].clone(), bitmap });
    }
    let mut c = Chain { n, init, init_sks: sks[0].clone(), ups, sig: gen1(), note: String::new() };
    for _ in 0..dummies {
        let at = if scattered { r.gen_range(0, c.ups.len()) } else { c.ups.len() - 1 };
        // a padding epoch's bitmap is held against the validators of the epoch before it
        let like = c.ups[at].bitmap.clone();
        let u = padding(r, n, &like);
        c.ups.insert(at, u);
    }
    c.sig = c.expected().unwrap_or_else(gen1);
    c
}
impl Chain {
    /// the previous real epoch of each update: its block and secret keys
    fn prevs(&self) -> Vec<(&EpochBlock, &Vec<Fr>)> {
        let mut p = (&self.init, &self.init_sks);
        self.ups.iter().map(|u| { let x = p; if u.block.index != 0 { p = (&u.block, &u.sks); } x }).collect()
    }
    pub fn signers(&self) -> Vec<Fr> { self.ups.iter().zip(self.prevs()).map(|(u, p)| u.bitmap.iter().zip(p.1).filter(|x| *x.0).fold(Fr::zero(), |a, x| a + *x.1)).collect() }
    /// the signature that makes the pairing equation hold
    pub fn expected(&self) -> Option<G1Projective> {
        let mut s = G1Projective::zero();
        for (u, k) in self.ups.iter().zip(self.signers()) { s += if u.block.index == 0 { gen1() } else { mul1(block_hash(&u.block)?.0, k) }; }
        Some(s)
    }
    pub fn degenerate(&self) -> bool { self.sig.is_zero() || self.ups.iter().zip(self.signers()).any(|(u, k)| u.block.index != 0 && k.is_zero()) || self.ups.last().map_or(true, |u| total(&u.block).is_zero()) }
    pub fn problem(&self) -> Option<String> {
        let ent = !zero_entropy(&self.init.epoch_entropy);
        for (k, (u, p)) in self.ups.iter().zip(self.prevs()).enumerate() {
            if u.bitmap.len() != self.n { return Some(format!("update {}: bitmap of the wrong length", k)); }
            if u.bitmap.iter().filter(|b| !**b).count() as u64 > p.0.maximum_non_signers as u64 { return Some(format!("update {}: too many absent", k)); }
            if p.0.new_public_keys.iter().zip(&u.bitmap).any(|(a, b)| *b && point(a) == gen2()) { return Some(format!("update {}: padding key signs", k)); }
            if u.block.index == 0 { continue; }
            if u.block.index as u32 != p.0.index as u32 + 1 { return Some(format!("update {}: index {} after {}", k, u.block.index, p.0.index)); }
            if ent && number(&u.block.parent_entropy) != number(&p.0.epoch_entropy) { return Some(format!("update {}: parent entropy", k)); }
        }
        if self.ups.last().map_or(true, |u| u.block.index == 0) { return Some("the last epoch is padding".into()); }
        if self.expected() != Some(self.sig) { return Some("signature".into()); }
        None
    }
    pub fn show(&self) -> String { format!("{} validators, indices {:?}, thresholds {:?}, bitmaps {:?}, entropies {}, {}", self.n, std::iter::once(&self.init).chain(self.ups.iter().map(|u| &u.block)).map(|b| b.index).collect::<Vec<_>>(), std::iter::once(&self.init).chain(self.ups.iter().map(|u| &u.block)).map(|b| b.maximum_non_signers).collect::<Vec<_>>(), self.ups.iter().map(|u| map(&u.bitmap)).collect::<Vec<_>>(), if zero_entropy(&self.init.epoch_entropy) { "ignored" } else { "compared" }, self.note) }
    pub fn circuit(&self) -> ValidatorSetUpdate<Bls12_377> {
        ValidatorSetUpdate { initial_epoch: data(&self.init), num_validators: self.n as u32, epochs: self.ups.iter().map(|u| Update { epoch_data: data(&u.block), signed_bitmap: u.bitmap.iter().map(|b| Some(*b)).collect() }).collect(), aggregated_signature: Some(self.sig), hash_helper: None }
    }
    pub fn public(&self) -> Vec<Fq> { pack(&ends_hash(&self.init, &self.ups.last().unwrap().block), CAP_BW) }
    fn run(&self, plan: &Plan<Fq>) -> Exec<Fq, ()> { let c = self.circuit(); exec(plan, |cs| c.generate_constraints(cs)) }
}
fn instance(e: &Exec<Fq, ()>) -> Vec<Fq> { e.cs.borrow().unwrap().instance_assignment[1..].to_vec() }
/// breaks (or, at times, does not break) one relation; the signature follows unless it is what is broken
pub fn corrupt(r: &mut Rng8, c: &mut Chain) {
    let mut k = r.gen_range(0, c.ups.len());
    let prev_n = c.n;
    let mut resign = true;
    let other = mul1(gen1(), Fr::rand(r));
    let fresh = set(r, c.n, 0);
    let shown = c.signers();
    let h = |c: &Chain, k: usize| if c.ups[k].block.index == 0 { gen1() } else { block_hash(&c.ups[k].block).map_or(gen1(), |x| x.0) };
    let note: &str = match r.gen_range(0, 32) {
        0 => { c.ups[k].block.index = c.ups[k].block.index.wrapping_add(1); "index plus one" }
        1 => { c.ups[k].block.index = c.ups[k].block.index.wrapping_sub(1); "index minus one" }
        2 => { c.ups[k].block.index ^= 1 << r.gen_range(0, 16); "one bit of an index" }
        3 | 4 => { let mut e = c.ups[k].block.parent_entropy.clone().unwrap_or_else(|| vec![0; 16]); e[r.gen_range(0, 16)] ^= 1 << r.gen_range(0, 8); c.ups[k].block.parent_entropy = Some(e); "one bit of a parent entropy" }
        5 => { let mut e = c.ups[k].block.epoch_entropy.clone().unwrap_or_else(|| vec![0; 16]); e[r.gen_range(0, 16)] ^= 1 << r.gen_range(0, 8); c.ups[k].block.epoch_entropy = Some(e); "one bit of an epoch entropy" }
        6 if r.gen() => { let e = nonzero(r); c.init.epoch_entropy = e; "entropy of the first epoch" }
        6 | 29 | 30 => {
            // where it is least expected: in the last epochs, after epochs of every sort
            k = c.ups.len() - 1;
            c.ups[k].block.parent_entropy = match r.gen_range(0, 5) { 0 => None, 1 => c.init.epoch_entropy.clone(), 2 => c.ups[k].block.epoch_entropy.clone(), 3 => c.ups[0].block.parent_entropy.clone(), _ => nonzero(r) };
            "another parent entropy of the last epoch"
        }
        7 | 8 => { let i = r.gen_range(0, prev_n); c.ups[k].bitmap[i] = !c.ups[k].bitmap[i]; "one bit of a bitmap" }
        9 => { for b in c.ups[k].bitmap.iter_mut() { *b = false; } let i = r.gen_range(0, prev_n); c.ups[k].bitmap[i] = true; "one signer only" }
        10 => { let i = r.gen_range(0, prev_n); c.ups[k].bitmap[i] = !c.ups[k].bitmap[i]; resign = false; "one bit of a bitmap, signature as before" }
        11 => { c.sig = -c.sig; resign = false; "signature negated" }
        12 => { c.sig += gen1(); resign = false; "signature shifted by the generator" }
        13 => { c.sig = c.sig - mul1(h(c, k), if c.ups[k].block.index == 0 { Fr::one() } else { shown[k] }); resign = false; "one epoch's signature left out" }
        14 => { c.sig += mul1(h(c, k), shown[k]); resign = false; "one epoch's signature twice" }
        15 => { c.sig = other; resign = false; "random signature" }
        16 => { let s = fresh.iter().fold(Fr::zero(), |a, b| a + b); c.sig += mul1(h(c, k), s - shown[k]); resign = false; "one epoch signed by others" }
        17 if c.ups[k].block.index != 0 => { let own = c.ups[k].bitmap.iter().zip(&c.ups[k].sks).filter(|x| *x.0).fold(Fr::zero(), |a, x| a + *x.1); c.sig += mul1(h(c, k), own - shown[k]); resign = false; "one epoch signed by its own validators" }
        18 => { let i = r.gen_range(0, prev_n); let s = if r.gen() { fresh[i] } else { Fr::one() }; c.ups[k].sks[i] = s; c.ups[k].block.new_public_keys[i] = PublicKey::from(mul2(s)); resign = false; "one key replaced, signature as before" }
        19 => { let i = r.gen_range(0, prev_n); c.ups[k].sks[i] = fresh[i]; c.ups[k].block.new_public_keys[i] = PublicKey::from(mul2(fresh[i])); "one key replaced" }
        20 => { c.ups[k].block.maximum_non_signers = 0; "a threshold lowered" }
        21 => { c.init.maximum_non_signers = r.gen_range(0, 2); "the first threshold changed" }
        22 if c.ups.len() > 1 => { let j = r.gen_range(0, c.ups.len()); c.ups.swap(k, j); "two epochs exchanged" }
        23 if c.ups.len() > 1 => { c.ups.remove(k); "an epoch left out" }
        24 => { let u = c.ups[k].clone(); c.ups.insert(k, u); "an epoch repeated" }
        25 => { let like = c.ups[c.ups.len() - 1].bitmap.clone(); let mut u = padding(r, prev_n, &like); if r.gen() { u.bitmap = vec![true; prev_n]; } c.ups.push(u); "padding at the end" }
        26 => {
            // a padding epoch with arbitrary contents, which change nothing
            let like = c.ups[k].bitmap.clone();
            let mut u = padding(r, prev_n, &like);
            u.block.epoch_entropy = entropy(r); u.block.parent_entropy = entropy(r); u.block.maximum_non_signers = threshold(r); u.block.round = round(r);
            u.sks = fresh.clone();
            u.block.new_public_keys = fresh.iter().map(|s| PublicKey::from(mul2(*s))).collect();
            if r.gen_bool(0.3) { let i = r.gen_range(0, prev_n); u.bitmap[i] = !u.bitmap[i]; }
            c.ups.insert(k, u);
            "a padding epoch with other contents"
        }
        27 => { let like = c.ups[k].bitmap.clone(); let u = padding(r, prev_n, &like); c.ups.insert(k, u); resign = r.gen(); if resign { "a padding epoch" } else { "a padding epoch, its share of the signature missing" } }
        28 => { c.ups[k].block.round ^= 1 << r.gen_range(0, 8); resign = r.gen(); if resign { "another round" } else { "another round, signature as before" } }
        _ => { c.init.index ^= 1 << r.gen_range(0, 16); "one bit of the first index" }
    };
    c.note = note.into();
    if resign { if let Some(s) = c.expected() { c.sig = s; } }
}
fn judge_chain(run: &Run, c: &Chain) -> Option<(bool, Exec<Fq, ()>)> {
    if c.degenerate() { return None; }
    let problem = c.problem();
    let e = c.run(&Plan::new());
    run.eval(c.show() + &format!("{:?}", c.public()), true);
    run.count(if problem.is_none() { "valid_chains" } else { "invalid_chains" }, 1);
    run.state("kinds", (&c.note, problem.as_ref().map(|p| p.split(": ").last().unwrap_or("").split(' ').next().unwrap_or("").to_string()), c.ups.len()));
    run.sample(|| format!("{}: {} -> {}", c.show(), problem.clone().unwrap_or_else(|| "valid".into()), e.describe()));
    match (&problem, e.ok().is_some()) {
        (None, false) => { run.violation("refused", format!("{}: a valid chain, but {}", c.show(), e.describe())); }
        (Some(p), true) => { run.violation("accepted", format!("{}: satisfied although not valid ({})", c.show(), p)); }
        (None, true) => { run.check(instance(&e) == c.public(), "public-input", || format!("{}: the public input is not that of the first and last epoch", c.show())); }
        _ => {}
    }
    Some((problem.is_none(), e))
}
pub fn last_bits(run: &Run, r: &mut Rng8) {
    let (n, real) = (r.gen_range(1, 4), r.gen_range(1, 3));
    let c = chain(r, n, real, 0, false);
    if c.degenerate() { return; }
    let e = c.run(&Plan::new());
    run.count("whole_circuits", 1);
    match e.ok() { Some(_) => { run.check(instance(&e) == c.public(), "public-input", || format!("{}: the public input is not that of the first-epoch encoding and the last-epoch encoding with aggregate", c.show())); } None => run.violation("refused", format!("{}: a valid chain, but {}", c.show(), e.describe())) }
}
/// the two weaknesses on record, in their simplest form
fn recorded(run: &Run, r: &mut Rng8) {
    // too many absent, covered up by a threshold of the first epoch whose encoding hides its high bits
    let mut c = chain(r, 4, 1, 0, false);
    while c.prevs()[0].1.contains(&Fr::one()) { c = chain(r, 4, 1, 0, false); }
    c.init.maximum_non_signers = 2;
    c.init.index = 4001;
    c.ups[0].block.index = 4002;
    c.ups[0].bitmap = vec![true, false, false, false];
    c.note = "three of four absent, two allowed".into();
    if let Some(s) = c.expected() { c.sig = s; }
    let h = c.run(&Plan::new());
    run.check(h.ok().is_none(), "accepted", || format!("{}: satisfied although not valid", c.show()));
    for (i, v) in h.sites.iter().enumerate().take(60) {
        if let Val::F(x) = v.val { if x == Fq::from(2u64) {
            let mut p = Plan::new();
            p.insert(i, Val::F(x + Fq::from(1u64 << 32)));
            let e = c.run(&p);
            run.count("tampered_executions", 1);
            if e.ok().is_some() { run.violation("high-bits", format!("{}: satisfied, with the public input of the true threshold, when the threshold is {} plus 2^32 inside the circuit", c.show(), 2)); }
        } }
    }
    // a proof of the expansion that proves nothing
    let c = chain(r, 2, 1, 0, false);
    if c.degenerate() { return; }
    let mut k = c.circuit();
    let vk = ark_groth16::generate_random_parameters::<Bls12_377, _, _>(epoch_snark::verif_hooks::HashToBits::empty::<ark_bw6_761::FrParameters>(1), r).unwrap().vk;
    let proof = ark_groth16::Proof { a: gen1().into_affine(), b: gen2().into_affine(), c: gen1().into_affine() };
    k.hash_helper = Some(HashToBitsHelper { proof, verifying_key: vk });
    let e = honest(|cs| k.generate_constraints(cs));
    if e.ok().is_some() { run.violation("helper-not-enforced", "a chain with a helper proof that does not verify satisfies the circuit".to_string()); }
}
pub fn c07() {
    let run = Run::start("C07", "chains of 1 to 3 transitions between sets of 1 to 5 validators (and a few of up to 9 transitions or 32 validators) with 0 to 2 padding epochs (at times up to 8) before the last (also scattered, with arbitrary contents, or wrongly at the end), padding validators, thresholds that differ from epoch to epoch, with and without entropies, at the boundaries of the index; 30 kinds of corruption, most of them signed afresh so that only the one relation is broken; other public inputs; witnesses replaced by a dishonest prover in invalid chains. Oracle: a plain model of chain validity and of the signature equation over known secret keys. Non-trivial: every chain");
    let shapes: Shapes = Default::default();
    let tried: Mutex<u64> = Default::default();
    run.par(8, |t, r| {
        if t == 0 { recorded(&run, r); }
        // some larger sets and longer chains: (validators, transitions, padding epochs, corrupted)
        let mut large = match t { 1 => vec![(r.gen_range(20, 33), 1, 0, true)], 2 => vec![(r.gen_range(20, 33), 1, 0, false)], 3 => vec![(r.gen_range(1, 3), r.gen_range(6, 10), 0, true)], 4 => vec![(r.gen_range(1, 3), r.gen_range(6, 10), 1, false)], 5 => vec![(1, 2, r.gen_range(4, 9), true)], 6 => vec![(r.gen_range(2, 4), 1, r.gen_range(4, 9), false)], 7 => vec![(r.gen_range(8, 17), 2, 1, false)], _ => vec![] };
        let mut i = t as u64;
        while run.within(run.pick(75.0, 2400.0)) {
            i += 1;
            let n = match r.gen_range(0, 5) { 0 => 1, 1 => 4, 2 => run.pick(3, 5), _ => r.gen_range(2, 4) };
            let real = match r.gen_range(0, 6) { 0 | 1 => 1, 2 => 3, _ => 2 };
            let dummies = match r.gen_range(0, 4) { 0 => 1, 1 => r.gen_range(0, 3), _ => 0 };
            let scattered = r.gen();
            if run.pick(false, true) && i % 48 == 0 { large.push(if r.gen() { (r.gen_range(5, 60), 1, r.gen_range(0, 2), r.gen()) } else { (r.gen_range(1, 3), r.gen_range(4, 16), r.gen_range(0, 5), r.gen()) }); }
            let big = large.pop();
            let (n, real, dummies) = match big { Some((n, k, d, _)) => (n, k, d), None => (n, real, dummies) };
            let mut c = chain(r, n, real, dummies, scattered);
            if let Some((.., bad)) = big {
                while c.degenerate() { c = chain(r, n, real, dummies, scattered); }
                if bad { let whole = c.clone(); while c.problem().is_none() || c.degenerate() { c = whole.clone(); corrupt(r, &mut c); } }
                run.count("large_chains", 1);
                run.state("large_chain_sizes", (c.n, c.ups.len()));
            } else if i % 3 != 0 { corrupt(r, &mut c); if r.gen_bool(0.1) { corrupt(r, &mut c); c.note += ", twice"; } }
            let (ok, e) = match judge_chain(&run, &c) { Some(x) => x, None => continue };
            if big.is_some() { continue; }
            shape_check(&run, &shapes, (c.n, c.ups.len() as u8), &e, "chain", || { let k = ValidatorSetUpdate::<Bls12_377>::empty(c.n, c.ups.len(), 1, None); setup_shape(|cs| k.generate_constraints(cs)) });
            if ok && i % 2 == 0 {
                // the public input of other ends
                let ins: Vec<usize> = e.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::I(_))).map(|x| x.0).collect();
                let mut d = c.clone();
                match r.gen_range(0, 4) { 0 => d.init.index ^= 1, 1 => d.init.maximum_non_signers ^= 1, 2 => { d.ups.last_mut().unwrap().block.maximum_non_signers ^= 1 } _ => { let l = d.ups.last_mut().unwrap(); l.block.epoch_entropy = nonzero(r); } }
                let (a, b) = (c.public(), d.public());
                if ins.len() == a.len() && a != b {
                    let mut p = Plan::new();
                    for (k, s) in ins.iter().enumerate() { if r.gen_bool(0.7) || k == 0 { p.insert(*s, Val::I(if r.gen_bool(0.8) { b[k] } else { a[k] + Fq::one() })); } }
                    // nothing but the public input may tell them apart
                    let want: Vec<Fq> = ins.iter().enumerate().map(|(k, s)| match p.get(s) { Some(Val::I(x)) => *x, _ => a[k] }).collect();
                    if want != a {
                        let x = c.run(&p);
                        run.count("other_public_inputs", 1);
                        run.check(x.ok().is_none(), "other-public-input", || format!("{}: satisfied with another public input", c.show()));
                    }
                }
            }
            if !ok {
                // a few dishonest witnesses: points, and small numbers
                let pts: Vec<usize> = e.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::P1(_) | Val::P2(_))).map(|x| x.0).collect();
                let nums: Vec<usize> = e.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::F(_))).map(|x| x.0).collect();
                for _ in 0..2 {
                    let mut p = Plan::new();
                    for _ in 0..r.gen_range(1, 3) {
                        if r.gen() && !pts.is_empty() {
                            let s = if r.gen() { pts[pts.len() - 1] } else { pts[r.gen_range(0, pts.len())] };
                            match e.sites[s].val { Val::P1(v) => { let o = [-v, gen1().into_affine(), c.expected().unwrap_or_else(gen1).into_affine()]; p.insert(s, Val::P1(o[r.gen_range(0, 3)])); } Val::P2(v) => { p.insert(s, Val::P2(if r.gen() { gen2().into_affine() } else { -v })); } _ => {} }
                        } else if !nums.is_empty() {
                            let s = nums[r.gen_range(0, nums.len())];
                            if let Val::F(v) = e.sites[s].val { p.insert(s, Val::F(match r.gen_range(0, 4) { 0 => Fq::one() - v, 1 => v + Fq::one(), 2 => v - Fq::one(), _ => Fq::zero() })); }
                        }
                    }
                    let x = c.run(&p);
                    run.count("tampered_executions", 1);
                    *tried.lock().unwrap() += 1;
                    // a tampered execution is wrong only if its public input is one no valid chain has: the corrupted chain's own
                    if x.ok().is_some() && instance(&x) == c.public() && c.problem().map_or(false, |p| p != "signature") { run.violation("tampered", format!("{}: not valid ({:?}), yet satisfied with witnesses {:?}", c.show(), c.problem(), p)); }
                }
            }
        }
    });
    run.require("valid_chains", 12);
    run.require("invalid_chains", 25);
    run.require("kinds", 20);
    run.require("large_chains", 3);
    run.require("other_public_inputs", 4);
    run.assume("the constraint system, gadgets, curves and pairing are the stand-ins of /verif/shim; signatures, aggregate keys and hashes other than the identity; single-SNARK mode (hash expansion constrained), the other mode is covered by the recorded finding only");
    run.finish()
}
