//! C03: hashing to the curve in the circuit against a model of CIP22 hashing.
use ark_bls12_377::{constraints::G1Var, Fq, G1Affine, G1Projective, Parameters};
use ark_ec::{AffineCurve, ProjectiveCurve, SWModelParameters};
use ark_ff::{BigInteger, Field, One, PrimeField, SquareRootField, UniformRand, Zero};
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, uint8::UInt8, R1CSVar};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_crypto::hashers::{composite::COMPOSITE_HASHER, Hasher};
use bls_gadgets::{hash_to_bits, HashToGroupGadget};
use circ::points::*;
use circ::{given, honest, setup_shape, Attack, Budget};
use mon::{catch, gen, rand::Rng, short, Rng8, Run};
use std::collections::HashMap;
use std::sync::Mutex;
type CS = ConstraintSystemRef<Fq>;
const SIG: &[u8] = b"ULforxof";
const SIGN: usize = if cfg!(feature = "compat") { 377 } else { 383 };

struct Native { crh: Vec<bool>, xof: Vec<bool>, point: Option<G1Projective> }
fn native(m: &[u8], e: &[u8], c: u8) -> Native {
    let crh = COMPOSITE_HASHER.crh(&[], m, 0).unwrap();
    let xof = bits_le(&mon::blake::xof(SIG, &[&[c][..], e, &crh].concat(), 64));
    Native { crh: bits_le(&crh), point: decode(&xof, SIGN), xof }
}
struct Out { point: G1Projective, crh: Vec<bool>, xof: Vec<bool> }
fn circuit(m: &[u8], e: &[u8], c: u8, full: bool, input: bool, cs: CS) -> Result<Out, SynthesisError> {
    let (cv, mv, ev) = given(|| -> Result<_, SynthesisError> {
        let al = |cs: &CS, v: u8| if input { UInt8::new_input(cs.clone(), || Ok(v)) } else { UInt8::new_witness(cs.clone(), || Ok(v)) };
        Ok((UInt8::new_witness(cs.clone(), || Ok(c))?, m.iter().map(|b| al(&cs, *b)).collect::<Result<Vec<_>, _>>()?, e.iter().map(|b| al(&cs, *b)).collect::<Result<Vec<_>, _>>()?))
    })?;
    let (h, crh, xof) = HashToGroupGadget::<Parameters, Fq>::enforce_hash_to_group(cv, &mv, &ev, full)?;
    let vals = |b: &[Boolean<Fq>]| b.iter().map(|x| x.value()).collect::<Result<Vec<bool>, _>>();
    Ok(Out { point: h.value()?, crh: vals(&crh)?, xof: vals(&xof)? })
}
fn setup(m: &[u8], e: &[u8], full: bool, cs: CS) -> Result<(), SynthesisError> {
    let no = || Err::<u8, _>(SynthesisError::AssignmentMissing);
    let (cv, mv, ev) = given(|| -> Result<_, SynthesisError> {
        let al = |_: &u8| UInt8::new_witness(cs.clone(), no);
        Ok((UInt8::new_witness(cs.clone(), no)?, m.iter().map(al).collect::<Result<Vec<_>, _>>()?, e.iter().map(al).collect::<Result<Vec<_>, _>>()?))
    })?;
    HashToGroupGadget::<Parameters, Fq>::enforce_hash_to_group(cv, &mv, &ev, full).map(|_: (G1Var, _, _)| ())
}
fn one(run: &Run, m: &[u8], e: &[u8], c: u8, full: bool, attack: usize, r: &mut Rng8, shapes: &Mutex<HashMap<(usize, usize, bool), u64>>) {
    let n = native(m, e, c);
    let input = r.gen_bool(0.2);
    let h = honest(|cs| circuit(m, e, c, full, input, cs));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    let d = || format!("message {} ({} bytes), extra data {} ({} bytes), counter {}, {} constraints for the expansion", short(m), m.len(), short(e), e.len(), c, if full { "with" } else { "without" });
    run.eval((m, e, c, full), true);
    run.count(if n.point.is_some() { "decodable" } else { "not_decodable" }, 1);
    run.state("lengths", (m.len(), e.len(), full));
    match (&n.point, h.ok()) {
        (Some(p), Some(o)) => {
            run.check(o.point == *p, "point", || format!("{}: another point than native hashing", d()));
            run.check(o.crh == n.crh, "inner-bits", || format!("{}: other inner-hash bits than the native hash", d()));
            run.check(o.xof == n.xof, "expanded-bits", || format!("{}: other expanded bits than the native hash", d()));
        }
        (Some(_), None) => { run.violation("refused", format!("{}: {}", d(), h.describe())); }
        (None, Some(_)) => { run.violation("accepted", format!("{}: satisfied although this counter decodes to no point", d())); }
        (None, None) => {}
    }
    run.sample(|| format!("{} -> {}", d(), h.describe()));
    if h.ok().is_some() && !input {
        let k = (m.len(), e.len(), full);
        let s = h.shape();
        let mut g = shapes.lock().unwrap();
        let fresh = !g.contains_key(&k);
        let old = *g.entry(k).or_insert(s);
        let total = g.len();
        drop(g);
        run.check(old == s, "shape", || format!("{}: the constraints depend on the values", d()));
        if fresh && total < 40 {
            run.count("shapes_compared_with_setup", 1);
            match setup_shape(|cs| setup(m, e, full, cs)) { Ok(t) => { run.check(t == s, "shape-setup", || format!("{}: the constraints at set-up differ from those at proving", d())); } Err(x) => run.violation("setup", format!("{}: set-up fails: {}", d(), x)) }
        }
    }
    if attack > 0 {
        let body = |cs: CS| circuit(m, e, c, full, input, cs);
        let mut pool: Vec<G1Affine> = vec![G1Projective::prime_subgroup_generator().into_affine(), G1Affine::zero(), G1Projective::rand(r).into_affine()];
        // another point with the right cofactor multiple's neighbours: the point of another counter
        for k in 0..4u8 { if let Some(p) = on_curve(&native(m, e, c.wrapping_add(k + 1)).xof) { pool.push(p); } }
        // same x bits read unreduced or with the sign of the other position
        if let Some(p) = on_curve(&n.xof) { pool.push(p); pool.push(-p); }
        let (want, full) = (n.point, full);
        let wrong = move |o: &Out| -> Option<String> {
            // without constraints on the expansion, its bits are the prover's: then only their decoding is fixed
            let want = if full { want } else { decode(&o.xof, SIGN) };
            if full && (o.crh != n.crh || o.xof != n.xof) { return Some("wrong hash bits satisfy the constraints".into()); }
            if o.crh != n.crh { return Some("wrong inner-hash bits satisfy the constraints".into()); }
            if want == Some(o.point) { None } else { Some("a point that the hash does not decode to satisfies the constraints".into()) }
        };
        let h0 = if h.sites.is_empty() { return } else { h };
        run.state("sites", h0.sites.len());
        Attack { run, key: "tampered", body: &body, budget: Budget { sites: 10, per_site: 7, pairs: attack / 4, repair: 1, runs: attack }, pool1: &pool, pool2: &[], wrong: &wrong }.go(&h0, r);
    }
}
/// the hash-to-bits gadget on its own
fn expansion(run: &Run, r: &mut Rng8) {
    let m = gen::blob(r, 150);
    if m.is_empty() { return; }
    let n = [256u16, 512, 768, 1024][r.gen_range(0, 4)];
    let mut pers = [0u8; 8];
    match r.gen_range(0, 3) { 0 => pers.copy_from_slice(SIG), 1 => pers.copy_from_slice(b"ULforout"), _ => for b in pers.iter_mut() { *b = r.gen(); } }
    let full = n != 512 || r.gen();
    let body = |cs: CS| -> Result<Vec<bool>, SynthesisError> {
        let b = given(|| bits_le(&m).iter().map(|b| Boolean::new_witness(cs.clone(), || Ok(*b))).collect::<Result<Vec<_>, _>>())?;
        hash_to_bits(&b, n, pers, full)?.iter().map(|x| x.value()).collect()
    };
    let want = bits_le(&mon::blake::xof(&pers, &m, n / 8));
    let h = honest(&body);
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval((&m, n, pers, full), true);
    run.count("expansions", 1);
    match h.ok() {
        Some(b) => { run.check(*b == want, "expansion", || format!("hash_to_bits of {} to {} bits, personalisation {}: other bits than Blake2Xs", short(&m), n, mon::hex(&pers))); }
        None => { run.violation("expansion-refused", format!("hash_to_bits of {} to {} bits: {}", short(&m), n, h.describe())); }
    }
    if full { run.check(h.sites.is_empty() || !h.cs.borrow().map_or(true, |c| c.num_constraints == 0), "expansion-unconstrained", || "no constraints for the expansion".into()); }
    if full && !h.sites.is_empty() {
        let want = want.clone();
        Attack { run, key: "expansion-tampered", body: &body, budget: Budget { sites: 8, per_site: 2, pairs: 2, repair: 1, runs: 20 }, pool1: &[], pool2: &[], wrong: &move |b: &Vec<bool>| (*b != want).then(|| "wrong expanded bits satisfy the constraints".to_string()) }.go(&h, r);
    }
}
pub fn c03() {
    let run = Run::start("C03", "random and degenerate messages of 1 to some hundred bytes and extra data of 0 to some dozen bytes, given as witnesses or inputs, with the counter native hashing finds and with other counters, with and without constraints for the expansion; the hash-to-bits gadget alone for several output lengths and personalisations; the allocated point and sign helpers (and the expanded bits where unconstrained) replaced by a dishonest prover. Oracle: composite hash, independent Blake2Xs and independent decoding, and the native hash with its counter. Non-trivial: every case");
    let shapes = Mutex::new(HashMap::new());
    run.par(8, |t, r| {
        let mut i = 0u64;
        while run.within(run.pick(40.0, 1800.0)) {
            i += 1;
            if i % 4 == 3 { expansion(&run, r); }
            let m = match r.gen_range(0, 6) { 0 => gen::bytes(r, 1), 1 => gen::blob(r, 40), 2 => gen::blob(r, run.pick(400, 1500)), 3 => { let n = [31, 32, 33, 69, 70, 71, 93, 140][r.gen_range(0, 8)]; gen::bytes(r, n) } _ => gen::blob(r, 120) };
            if m.is_empty() { continue; }
            let e = match r.gen_range(0, 5) { 0 => vec![], 1 => gen::bytes(r, 7), 2 => gen::bytes(r, 15), _ => gen::blob(r, 30) };
            let (p, c) = match catch(|| COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG, &m, &e)) { Ok(Ok(x)) => x, other => { run.violation("native", format!("native hashing of {} fails: {:?}", short(&m), other.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))); continue; } };
            run.state("native_counter", c);
            run.check(native(&m, &e, c as u8).point == Some(p), "native-point", || format!("native hashing of {} extra {}: not the point its counter {} stands for", short(&m), short(&e), c));
            let full = r.gen_bool(0.75);
            let attack = if i % 3 == (t % 3) as u64 { 24 } else { 0 };
            one(&run, &m, &e, c as u8, full, attack, r, &shapes);
            if i % 2 == 0 {
                let k = match r.gen_range(0, 4) { 0 => (c as u8).wrapping_add(1), 1 => r.gen(), 2 => (c as u8).saturating_sub(1), _ => 255 };
                one(&run, &m, &e, k, full, if i % 5 == 0 { 10 } else { 0 }, r, &shapes);
            }
        }
    });
    run.require("decodable", 60);
    run.require("not_decodable", 10);
    run.require("expansions", 10);
    run.require("tampered_executions", 100);
    run.require("native_counter", 2);
    run.assume("the constraint system and gadget library are the stand-ins of /verif/shim; a dishonest prover is modelled as replacing the witness values and points the code under test allocates, points in affine form (the library's own gadgets are taken to be sound)");
    run.finish()
}
