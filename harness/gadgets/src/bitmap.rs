//! C01: the bitmap constraint holds exactly when few enough bits have the counted value.
use ark_bls12_377::Fq;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, fields::{fp::FpVar, FieldVar}};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::verif_hooks::Bitmap;
use circ::{exec, given, honest, setup_shape, Attack, Budget, Plan};
use mon::{rand::Rng, Rng8, Run};
use std::sync::Mutex;
use std::collections::HashMap;

type CS = ConstraintSystemRef<Fq>;
#[derive(Clone, Debug)]
struct Case { bits: Vec<bool>, max: u64, value: bool, max_const: bool, kind: u8 }
/// how a bit is given: 0 witness, 1 negation of a witness, 2 public input, 3 mixture incl. constants
fn bit(cs: &CS, b: bool, kind: u8, i: usize) -> Result<Boolean<Fq>, SynthesisError> {
    match if kind == 3 { (i * 7 + 3) % 4 } else { kind as usize } {
        0 => Boolean::new_witness(cs.clone(), || Ok(b)),
        1 => Ok(Boolean::new_witness(cs.clone(), || Ok(!b))?.not()),
        2 => Boolean::new_input(cs.clone(), || Ok(b)),
        _ if i > 0 => Ok(Boolean::constant(b)),
        _ => Boolean::new_witness(cs.clone(), || Ok(b)),
    }
}
fn circuit(c: &Case, cs: CS) -> Result<(), SynthesisError> {
    let (bits, max) = given(|| -> Result<_, SynthesisError> {
        let bits = c.bits.iter().enumerate().map(|(i, b)| bit(&cs, *b, c.kind, i)).collect::<Result<Vec<_>, _>>()?;
        let max = if c.max_const { FpVar::constant(Fq::from(c.max)) } else { FpVar::new_witness(cs.clone(), || Ok(Fq::from(c.max)))? };
        Ok((bits, max))
    })?;
    bits[..].enforce_maximum_occurrences_in_bitmap(&max, c.value)
}
fn count(c: &Case) -> u64 { c.bits.iter().filter(|b| **b == c.value).count() as u64 }
fn show(c: &Case) -> String { format!("bitmap of {} bits {:?}, {} of them {}, maximum {}{}, kind {}", c.bits.len(), if c.bits.len() <= 24 { c.bits.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>() } else { "..".into() }, count(c), c.value, c.max, if c.max_const { " (constant)" } else { "" }, c.kind) }
fn one(run: &Run, c: &Case, r: &mut Rng8, attack: bool, shapes: &Mutex<HashMap<(usize, bool, bool, u8, u64), u64>>) {
    let within = count(c) <= c.max;
    let h = honest(|cs| circuit(c, cs));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval((&c.bits, c.max, c.value, c.max_const, c.kind), true);
    run.count(if within { "within_maximum" } else { "above_maximum" }, 1);
    run.state("length_count_max", (c.bits.len(), count(c), c.max.min(c.bits.len() as u64 + 2), c.value));
    if within {
        if h.ok().is_none() { run.violation("refused", format!("{}: {}", show(c), h.describe())); }
    } else if h.ok().is_some() { run.violation("accepted", show(c)); }
    run.sample(|| format!("{} -> {}", show(c), h.describe()));
    // the circuit must be the same one for every bitmap (constants are part of the circuit)
    if matches!(h.out, Ok(Ok(()))) && c.kind != 3 {
        let k = (c.bits.len(), c.value, c.max_const, c.kind, if c.max_const { c.max } else { 0 });
        let s = h.shape();
        let mut m = shapes.lock().unwrap();
        let fresh = !m.contains_key(&k);
        let old = *m.entry(k).or_insert(s);
        drop(m);
        run.check(old == s, "shape", || format!("the constraints depend on the witness: {}", show(c)));
        if fresh {
            run.count("shapes_compared_with_setup", 1);
            match setup_shape(|cs| circuit(c, cs)) {
                Ok(t) => { run.check(t == s, "shape-setup", || format!("the constraints at set-up differ from those at proving: {}", show(c))); }
                Err(e) => { run.violation("setup", format!("set-up of {} fails: {}", show(c), e)); }
            }
        }
    }
    if attack && !within {
        let sites = h.sites.len();
        run.state("sites", sites);
        let body = |cs: CS| circuit(c, cs);
        Attack { run, key: "tampered-accepted", body: &body, budget: Budget { sites: 12, per_site: 12, pairs: 6, repair: 2, runs: 60 }, pool1: &[], pool2: &[],
            wrong: &|_| Some(format!("satisfied although too many bits have the value: {}", show(c))) }.go(&h, r);
        // the helper variable at every smaller count
        for (i, s) in h.sites.iter().enumerate() {
            if s.var.is_none() { continue; }
            for k in 0..=count(c).min(20) {
                let mut p = Plan::new();
                p.insert(i, circ::Val::F(Fq::from(k)));
                let e = exec(&p, |cs| circuit(c, cs));
                run.count("tampered_executions", 1);
                if e.ok().is_some() && s.val != circ::Val::F(Fq::from(k)) { run.violation("tampered-accepted", format!("satisfied with helper variable {} set to {}: {}", i, k, show(c))); }
            }
        }
    }
}
pub fn c01() {
    let run = Run::start("C01", "every bitmap up to a length with every maximum, both values, constant and variable maxima, bits given as witnesses, negations, inputs or constants; random bitmaps of up to some thousand bits around every threshold; helper variables replaced by a dishonest prover. Oracle: plain count. Non-trivial: any bitmap of at least one bit");
    let shapes = Mutex::new(HashMap::new());
    let full = run.pick(6, 9);
    let mut all = vec![];
    for n in 1..=full { for b in 0..1u32 << n { for max in 0..=n as u64 + 1 { for v in [false, true] { all.push((n, b, max, v)); } } } }
    run.par(8, |t, r| {
        for (i, (n, b, max, v)) in all.iter().enumerate() {
            if i % 8 != t || run.stopped() { continue; }
            let bits: Vec<bool> = (0..*n).map(|k| b >> k & 1 == 1).collect();
            let c = Case { bits, max: *max, value: *v, max_const: (i / 8) % 3 == 0, kind: ((i / 8) % 4) as u8 };
            one(&run, &c, r, (i / 8) % 9 == 0, &shapes);
        }
        run.count("exhaustive_part_done_by_threads", 1);
        let mut k = 0u64;
        while run.within(run.pick(25.0, 1200.0)) {
            k += 1;
            let n = match r.gen_range(0, 6) { 0 => r.gen_range(1, 20), 1 => r.gen_range(1, 160), 2 => [127, 128, 129, 150, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600][r.gen_range(0, 14)], 3 => r.gen_range(240, 300), 4 => r.gen_range(20, 120), _ => if k % 16 == 0 { r.gen_range(600, 3000) } else { r.gen_range(1, 60) } };
            let value: bool = r.gen();
            let p = match r.gen_range(0, 5) { 0 => 0.0, 1 => 1.0, 2 => 0.9, 3 => 0.1, _ => 0.5 };
            let bits: Vec<bool> = (0..n).map(|_| r.gen_bool(p)).collect();
            let mut c = Case { bits, max: 0, value, max_const: r.gen_bool(0.3), kind: r.gen_range(0, 4) };
            let k = count(&c);
            c.max = match r.gen_range(0, 12) { 9 => 1 << r.gen_range(0, 64), 10 => (1u64 << r.gen_range(8, 64)) + k.saturating_sub(1), 11 => r.gen::<u64>() >> r.gen_range(0, 64), 0 => k, 1 => k + 1, 2 => k.saturating_sub(1), 3 => 0, 4 => n as u64, 5 => r.gen_range(0, n as u64 + 2), 6 => u32::MAX as u64, 7 => k % 256, _ => k + r.gen_range(0, 300) };
            let attack = r.gen_bool(0.3);
            one(&run, &c, r, attack, &shapes);
        }
    });
    run.require("within_maximum", 500);
    run.require("above_maximum", 300);
    run.require("tampered_executions", 200);
    run.assume("the constraint system, boolean and field gadgets are the stand-ins of /verif/shim; a dishonest prover is modelled as replacing the witness values the code under test allocates (the library's own gadgets are taken to be sound)");
    run.finish()
}
