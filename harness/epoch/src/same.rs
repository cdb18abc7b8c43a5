//! C10: the constraints and the number of public inputs are those of the set-up, whatever is proved.
use crate::blk::*;
use crate::chain::{chain, corrupt, step, Chain, Update};
use crate::data::CS;
use crate::proof::transitions;
use ark_bls12_377::Bls12_377;
use ark_bw6_761::{FrParameters as BwFr, BW6_761};
use ark_groth16::{generate_random_parameters, take_events, Proof, ProvingKey};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef};
use circ::{honest, setup_shape, Exec};
use epoch_snark::verif_hooks::{EpochData, HashToBits, HashToBitsHelper};
use epoch_snark::{prove, trusted_setup, Parameters, ValidatorSetUpdate};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
type Circuit = ValidatorSetUpdate<Bls12_377>;
#[derive(Clone, Copy, PartialEq)]
struct Shape { hash: u64, inputs: usize, constraints: usize }
type Table = Mutex<HashMap<(String, usize, usize), (Shape, String)>>;

fn odd_entropy(r: &mut Rng8) -> Option<Vec<u8>> { match r.gen_range(0, 5) { 0 => None, 1 => Some(vec![0; 16]), 2 => Some(vec![]), 3 => { let n = r.gen_range(0, 40); Some(gen::bytes(r, n)) } _ => Some(gen::bytes(r, 16)) } }
/// values a prover may come with, sensible or not
fn twist(r: &mut Rng8, c: &mut Circuit) -> String {
    let mut note = vec![];
    for _ in 0..r.gen_range(1, 4) {
        let k = r.gen_range(0, c.epochs.len() + 1);
        let what = r.gen_range(0, 12);
        let d: &mut EpochData<Bls12_377> = if k == 0 { &mut c.initial_epoch } else { &mut c.epochs[k - 1].epoch_data };
        let n = d.public_keys.len();
        let i = r.gen_range(0, n);
        note.push(match what {
            0 => { d.public_keys[i] = Some(G2Projective::zero()); "an identity key" }
            1 => { let j = r.gen_range(0, n); d.public_keys[i] = d.public_keys[j]; "a key twice" }
            2 => { d.public_keys[i] = Some(gen2()); "the generator as a key" }
            3 => { d.public_keys[i] = d.public_keys[r.gen_range(0, n)].map(|k| -k); "a key's negative" }
            4 => { d.index = Some([0, 1, 65535, r.gen()][r.gen_range(0, 4)]); "any index" }
            5 => { d.epoch_entropy = odd_entropy(r); "any entropy" }
            6 => { d.parent_entropy = odd_entropy(r); "any parent entropy" }
            7 => { d.maximum_non_signers = threshold(r); "any threshold" }
            8 => { d.round = Some(round(r)); "any round" }
            9 | 10 if k > 0 => { let v = match r.gen_range(0, 3) { 0 => Some(true), 1 => Some(false), _ => None }; for b in c.epochs[k - 1].signed_bitmap.iter_mut() { *b = Some(v.unwrap_or_else(|| r.gen())); } "any bitmap" }
            _ => { c.aggregated_signature = Some(match r.gen_range(0, 3) { 0 => G1Projective::zero(), 1 => gen1(), _ => mul1(gen1(), Fr::rand(r)) }); "any signature" }
        });
    }
    note.join(", ")
}
fn of<F: PrimeField>(e: &Exec<F, ()>) -> Option<Shape> { if !matches!(e.out, Ok(Ok(_))) { return None; } Some(Shape { hash: e.shape(), inputs: e.cs.num_instance_variables(), constraints: e.cs.num_constraints() }) }
/// compares an execution with all others of its kind and size
fn one(run: &Run, t: &Table, kind: &str, n: usize, m: usize, s: Option<Shape>, what: String) {
    let s = match s { Some(s) => s, None => { run.count("synthesis_refused", 1); return; } };
    run.count("proving_shapes", 1);
    run.state("sizes", (kind.to_string(), n, m));
    let mut g = t.lock().unwrap();
    let (o, other) = g.entry((kind.to_string(), n, m)).or_insert((s, what.clone())).clone();
    drop(g);
    run.check(o == s, "differs", || format!("{} for {} validators and {} epochs: {} constraints and {} public elements for {}, but {} and {} for {}{}", kind, n, m, s.constraints, s.inputs, what, o.constraints, o.inputs, other, if (o.constraints, o.inputs) == (s.constraints, s.inputs) { " (the constraints differ)" } else { "" }));
}
fn set_up<F: PrimeField>(run: &Run, t: &Table, kind: &str, n: usize, m: usize, what: String, body: impl FnOnce(ConstraintSystemRef<F>) -> Result<(), ark_relations::r1cs::SynthesisError>) {
    let mut at = None;
    let res = setup_shape(|cs: ConstraintSystemRef<F>| { let c = cs.clone(); let x = body(cs); at = Some((c.num_instance_variables(), c.num_constraints())); x });
    match (res, at) {
        (Ok(hash), Some((inputs, constraints))) => { run.count("set_up_shapes", 1); one(run, t, kind, n, m, Some(Shape { hash, inputs, constraints }), what) }
        (e, _) => run.violation("setup", format!("{} for {} validators and {} epochs ({}): set-up fails: {:?}", kind, n, m, what, e)),
    }
}
fn message(r: &mut Rng8) -> Vec<Option<bool>> { match r.gen_range(0, 4) { 0 => vec![Some(false); 384], 1 => vec![Some(true); 384], 2 => { let k = r.gen_range(0, 384); (0..384).map(|i| Some(i == k)).collect() } _ => (0..384).map(|_| Some(r.gen())).collect() } }
/// the real prover on the real parameters: what the proof system was handed
fn through_api(run: &Run, pools: &Mutex<HashMap<(usize, usize, bool), Arc<Parameters<BW6_761, Bls12_377>>>>, first: bool, r: &mut Rng8) {
    // (the first: the weakness on record)
    let (n, max, split) = if first { (2, 2, true) } else { (r.gen_range(1, 4), r.gen_range(1, 4), r.gen_bool(0.3)) };
    let known = pools.lock().unwrap().get(&(n, max, split)).cloned();
    let p = match known {
        Some(p) => p,
        None => {
            let th = match r.gen_range(0, 3) { 0 => 0, 1 => n, _ => r.gen_range(0, 1000) };
            match catch(|| trusted_setup(n, max, th, r, split)) { Ok(Ok(p)) => { let p = Arc::new(p); pools.lock().unwrap().entry((n, max, split)).or_insert(p).clone() } e => { run.violation("setup", format!("set-up for {} validators and {} epochs: {:?}", n, max, e.map(|e| e.err()))); return; } }
        }
    };
    let real = if first { 1 } else { r.gen_range(1, max + 1) };
    let mut c = chain(r, n, real, 0, false);
    if !first && r.gen() { corrupt(r, &mut c); }
    if c.ups.is_empty() || c.ups.len() > max || c.ups.iter().any(|u| u.bitmap.len() != n) { return; }
    take_events();
    let res = catch(|| { let t = transitions(&c, r); prove(&p, n as u32, &c.init, &t, max) });
    let what = || format!("{} in a circuit of {} transitions{}", c.show(), max, if split { " with the hash helper" } else { "" });
    run.eval(what() + &format!("{:?}", c.public()), true);
    for e in take_events() {
        let helper = e.set_up.0 == p.hash_to_bits.as_ref().map_or(0, |h| h.vk.gamma_abc_g1.len()) && e.set_up.0 != p.epochs.vk.gamma_abc_g1.len();
        run.count(if helper { "proved_helpers" } else { "proved_circuits" }, 1);
        run.check(e.same, if helper && c.ups.len() < max { "helper-shorter" } else { "proved" }, || format!("{}: the {} handed to the prover ({:?}: public elements, witnesses, constraints) is not the one set up ({:?})", what(), if helper { "helper circuit" } else { "circuit" }, e.proved, e.set_up));
    }
    if !matches!(res, Ok(Ok(_))) { run.count("proving_refused", 1); }
}
pub fn c10() {
    let run = Run::start("C10", "for each size (1 to 5 validators, 1 to 3 transitions; with and without a helper proof), the epoch circuit at set-up with various thresholds, and for valid chains, chains with a relation broken and chains with arbitrary values (identity, repeated, negated and padding keys, any index, round, entropy of any length or none, threshold, bitmap and signature), and as handed to the proof system by `prove` under real parameters; one epoch's bits for sets of up to 40 keys; single transitions; the helper circuit for 1 to 6 messages. Oracle: matrices and number of public elements the same for every execution of a size. Non-trivial: every execution");
    let (table, pools): (Table, Mutex<HashMap<_, _>>) = Default::default();
    let helpers: Vec<ProvingKey<Bls12_377>> = (1..=3).map(|m| generate_random_parameters::<Bls12_377, _, _>(HashToBits::empty::<BwFr>(m), &mut run.rng(m as u64)).expect("set-up of the helper circuit")).collect();
    run.par(8, |t, r| {
        if t == 0 { through_api(&run, &pools, true, r); }
        let mut i = t as u64;
        while run.within(run.pick(75.0, 1500.0)) {
            i += 1;
            match i % 8 {
                0 => through_api(&run, &pools, false, r),
                1 => {
                    // the helper circuit
                    let m = r.gen_range(1, 7);
                    set_up(&run, &table, "helper circuit", 0, m, "set-up".into(), |cs| HashToBits::empty::<BwFr>(m).generate_constraints(cs));
                    let c = HashToBits { message_bits: (0..m).map(|_| message(r)).collect() };
                    run.eval(format!("{:?}", c.message_bits), true);
                    let e = honest(|cs| c.generate_constraints(cs));
                    one(&run, &table, "helper circuit", 0, m, of(&e), "random messages".into());
                }
                2 => {
                    // one epoch, larger sets
                    let n = [1, 2, 9, 16, 25, 40][r.gen_range(0, 6)];
                    let d: EpochData<Bls12_377> = { let mut b = block(r, n, n); if r.gen_bool(0.2) { b.new_public_keys[0] = PublicKey::from(G2Projective::zero()); } crate::data::data(&b) };
                    let bits = |d: &EpochData<Bls12_377>, cs: CS| d.to_bits(cs).map(|_| ());
                    let th = r.gen_range(0, 1000);
                    set_up(&run, &table, "bits of one epoch", n, 0, format!("set-up with threshold {}", th), |cs| bits(&EpochData::empty(n, th), cs));
                    run.eval(format!("{:?}", d), true);
                    let e = honest(|cs| bits(&d, cs));
                    one(&run, &table, "bits of one epoch", n, 0, of(&e), format!("index {:?}, entropies {:?} and {:?}", d.index, d.epoch_entropy, d.parent_entropy));
                }
                3 | 4 => {
                    // one transition, its message's expansion not constrained
                    let mut s = step(r);
                    if s.bitmap.len() != s.keys.len() { continue; }
                    match r.gen_range(0, 8) { 0 => { s.block.index = 0; } 1 => { let i = r.gen_range(0, s.keys.len()); s.block.new_public_keys[i] = PublicKey::from(G2Projective::zero()); } 2 => { s.bitmap = vec![false; s.keys.len()]; } 3 => { s.block.epoch_entropy = odd_entropy(r); s.block.parent_entropy = odd_entropy(r); } 4 => { s.block.maximum_non_signers = threshold(r); } _ => {} }
                    let n = s.keys.len();
                    let kind = format!("one transition ({})", if s.bit_const { if s.bit { "entropies compared" } else { "entropies ignored" } } else { "entropies compared as the first epoch says" });
                    let th = r.gen_range(0, 1000);
                    let u = s.update();
                    if r.gen_bool(0.3) { set_up(&run, &table, &kind, n, 1, format!("set-up with threshold {}", th), |cs| s.run(&Update::empty(n, th), cs).map(|_| ())); }
                    run.eval(s.show(), true);
                    run.state("values", &s.note);
                    let e = honest(|cs| s.run(&u, cs).map(|_| ()));
                    one(&run, &table, &kind, n, 1, of(&e), s.show());
                }
                _ => {
                    let n = match r.gen_range(0, 6) { 0 => 1, 1 => run.pick(4, 5), _ => r.gen_range(2, 4) };
                    let m = match r.gen_range(0, 6) { 0 => 3, 1 | 2 => 2, _ => 1 };
                    let dummies = if m > 1 && r.gen_bool(0.3) { 1 } else { 0 };
                    let mut c: Chain = chain(r, n, m - dummies, dummies, true);
                    if r.gen_bool(0.4) { corrupt(r, &mut c); }
                    if c.ups.is_empty() || c.ups.len() > 3 || c.ups.iter().any(|u| u.bitmap.len() != n) { continue; }
                    let m = c.ups.len();
                    let mut k = c.circuit();
                    let mut what = if c.note.is_empty() { "a valid chain".to_string() } else { format!("a chain with {}", c.note) };
                    if r.gen_bool(0.6) { what += &format!("; {}", twist(r, &mut k)); }
                    let with = r.gen_bool(0.25);
                    let kind = if with { "epoch circuit with helper proof" } else { "epoch circuit" };
                    if with {
                        let key = &helpers[m - 1];
                        let proof = match r.gen_range(0, 3) { 0 => Proof { a: gen1().into_affine(), b: gen2().into_affine(), c: gen1().into_affine() }, _ => Proof { a: mul1(gen1(), Fr::rand(r)).into_affine(), b: mul2(Fr::rand(r)).into_affine(), c: mul1(gen1(), Fr::rand(r)).into_affine() } };
                        k.hash_helper = Some(HashToBitsHelper { proof, verifying_key: key.vk.clone() });
                    }
                    let th = match r.gen_range(0, 4) { 0 => 0, 1 => n, 2 => r.gen_range(0, n + 1), _ => r.gen_range(0, 1 << 20) };
                    if i % 8 == 5 || table.lock().unwrap().get(&(kind.to_string(), n, m)).is_none() {
                        let vk = if with { Some(helpers[m - 1].vk.clone()) } else { None };
                        set_up(&run, &table, kind, n, m, format!("set-up with threshold {}", th), |cs| Circuit::empty(n, m, th, vk).generate_constraints(cs));
                    }
                    run.eval(format!("{:?}", k), true);
                    run.state("values", &what);
                    run.sample(|| format!("{}, {} validators, {} epochs: {}", kind, n, m, what));
                    let e = honest(|cs| k.generate_constraints(cs));
                    if matches!(e.out, Err(_)) { run.count("synthesis_panicked", 1); }
                    one(&run, &table, kind, n, m, of(&e), what);
                }
            }
        }
    });
    run.require("proving_shapes", 60);
    run.require("set_up_shapes", 20);
    run.require("proved_circuits", 8);
    run.require("proved_helpers", 2);
    run.require("sizes", 12);
    run.assume("the constraint system and gadgets are the stand-ins of /verif/shim; bitmaps as long as the set, sets as large as the circuit's; executions in which synthesis refuses the values have no shape and are counted apart");
    run.finish()
}
