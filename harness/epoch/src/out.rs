//! C08: the hash helper circuit, the output hash and packing against their native counterparts.
use crate::blk::*;
use ark_bls12_377::FrParameters as BlsPar;
use ark_bw6_761::FrParameters as BwPar;
use ark_ff::FpParameters;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use circ::points::bits_le;
use circ::{exec, given, honest, setup_shape, Exec, Plan, Val};
use epoch_snark::verif_hooks::{EpochBits, HashToBits, MultipackGadget};
use mon::blake;

fn instance<F: PrimeField, T>(e: &Exec<F, T>) -> Vec<F> { e.cs.borrow().unwrap().instance_assignment[1..].to_vec() }
fn inputs<F: PrimeField, T>(e: &Exec<F, T>) -> Vec<usize> { e.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::I(_))).map(|x| x.0).collect() }
fn num<F: PrimeField>(x: &F) -> String { format!("{:?}", x.into_repr().as_ref()) }
fn low<F: PrimeField>(v: &F, w: usize) -> Bits { bits_le(&v.into_repr().to_bytes_le())[..w].to_vec() }
fn widths(n: usize, size: usize) -> Vec<usize> { (0..(n + size - 1) / size).map(|i| size.min(n - i * size)).collect() }
/// other values of a public input: neighbours, bits above the packed ones, the reversed reading
fn others<F: PrimeField>(v: F, r: &mut Rng8) -> F {
    match r.gen_range(0, 6) {
        0 => v + F::one(), 1 => v - F::one(), 2 => -v, 3 => F::rand(r),
        4 => v + F::from(2u64).pow([r.gen_range(0u64, F::size_in_bits() as u64)]),
        _ => { let mut b = bits_le(&v.into_repr().to_bytes_le()); b.truncate(F::Params::CAPACITY as usize); b.iter().fold(F::zero(), |a, b| a.double() + if *b { F::one() } else { F::zero() }) }
    }
}
/// with the given public inputs instead of the native ones: satisfied for none but those
fn other_inputs<F: PrimeField, T>(run: &Run, what: &dyn Fn() -> String, h: &Exec<F, T>, want: &[F], widths: &[usize], tries: usize, r: &mut Rng8, body: &dyn Fn(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) {
    let ins = inputs(h);
    if ins.len() != want.len() || ins.is_empty() { return; }
    for _ in 0..tries {
        let k = r.gen_range(0, ins.len());
        let v = others(want[k], r);
        // only the low bits are packed: nobody packs more, so what is above them does not matter
        if low(&v, widths[k]) == low(&want[k], widths[k]) { continue; }
        let mut p = Plan::new();
        p.insert(ins[k], Val::I(v));
        let e = exec(&p, |cs| body(cs));
        run.count("other_public_inputs", 1);
        run.check(e.ok().is_none(), "other-public-input", || format!("{}: satisfied with the public element {} being {} instead of {}", what(), k, num(&v), num(&want[k])));
    }
}
/// a dishonest witness: satisfied with the native public inputs only if the bits are as given
fn tamper<F: PrimeField, T>(run: &Run, what: &dyn Fn() -> String, h: &Exec<F, T>, want: &[F], tries: usize, r: &mut Rng8, body: &dyn Fn(ConstraintSystemRef<F>) -> Result<T, SynthesisError>, bits: &dyn Fn(&T) -> bool) {
    let free: Vec<usize> = h.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::F(_))).map(|x| x.0).collect();
    let ins = inputs(h);
    if free.is_empty() { return; }
    for _ in 0..tries {
        let mut p = Plan::new();
        for _ in 0..r.gen_range(1, 3) {
            let k = free[r.gen_range(0, free.len())];
            if let Val::F(v) = h.sites[k].val { p.insert(k, Val::F(if v.is_zero() || v.is_one() { F::one() - v } else { others(v, r) })); }
        }
        // the public input stays what the verifier computes
        for (i, s) in ins.iter().enumerate() { if i < want.len() { p.insert(*s, Val::I(want[i])); } }
        let e = exec(&p, |cs| body(cs));
        run.count("tampered_executions", 1);
        if let Some(t) = e.ok() { run.count("tampered_satisfied", 1); run.check(instance(&e) != want || bits(t), "tampered", || format!("{}: satisfied with the same public input although other bits were used; witnesses {:?}", what(), p)); }
    }
}
fn booleans<F: PrimeField>(cs: &ConstraintSystemRef<F>, b: &[bool], consts: &[bool]) -> Result<Vec<Boolean<F>>, SynthesisError> {
    given(|| b.iter().zip(consts).map(|(b, k)| if *k { Ok(Boolean::constant(*b)) } else { Boolean::new_witness(cs.clone(), || if cs.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(*b) }) }).collect())
}
fn bits(r: &mut Rng8, n: usize) -> Bits { match r.gen_range(0, 6) { 0 => vec![true; n], 1 => vec![false; n], 2 => { let mut v = vec![false; n]; if n > 0 { let i = r.gen_range(0, n); v[i] = true; } v } _ => (0..n).map(|_| r.gen()).collect() } }

// ---- packing
fn packing<F: PrimeField, P: FpParameters>(run: &Run, r: &mut Rng8, field: &str) {
    let cap = P::CAPACITY as usize;
    let size = match r.gen_range(0, 6) { 0 => cap, 1 => 1, 2 => cap - 1, 3 => 8, _ => r.gen_range(1, cap + 1) };
    let n = match r.gen_range(0, 8) { 0 => size, 1 => size + 1, 2 => size.max(2) - 1, 3 => 2 * size, 4 => 3 * size + 1, 5 => 1, _ => r.gen_range(1, 3 * cap) }.min(3 * cap).min(40 * size);
    let b = bits(r, n);
    // no chunk made of constants only: there is no constraint system to be had from those
    let mut consts: Bits = (0..n).map(|_| r.gen_bool(0.1)).collect();
    for c in consts.chunks_mut(size) { c[0] = false; }
    let input = r.gen_bool(0.75);
    let what = || format!("packing {} bits ({}) {} at a time over the {} field as {}", n, short(&to_bytes(&b)), size, field, if input { "public elements" } else { "witnesses" });
    let want: Vec<F> = pack(&b, size);
    let body = |cs: ConstraintSystemRef<F>| -> Result<Option<(Vec<F>, Bits)>, SynthesisError> {
        let v = booleans(&cs, &b, &consts)?;
        let p = MultipackGadget::pack::<F, P>(&v, size, input)?;
        if cs.is_in_setup_mode() { return Ok(None); }
        Ok(Some((p.iter().map(|x: &FpVar<F>| x.value()).collect::<Result<_, _>>()?, v.iter().map(|x| x.value()).collect::<Result<_, _>>()?)))
    };
    let h = honest(body);
    run.eval(what(), n > 0);
    run.count("packings", 1);
    run.state("packing", (field.to_string(), size.min(400), n % size == 0, input));
    run.sample(|| format!("{} -> {}", what(), h.describe()));
    match h.ok() {
        None => { run.violation("packing-refused", format!("{}: {}", what(), h.describe())); return; }
        Some(Some((p, _))) => {
            run.check(*p == want, "packing", || format!("{}: packed as {:?}, not {:?}", what(), p.iter().map(num).collect::<Vec<_>>(), want.iter().map(num).collect::<Vec<_>>()));
            let i = instance(&h);
            run.check(i == if input { want.clone() } else { vec![] }, "packing-inputs", || format!("{}: public elements {:?}", what(), i.iter().map(num).collect::<Vec<_>>()));
        }
        Some(None) => {}
    }
    if n * 4 < 3 * cap { run.check(setup_shape(body) == Ok(h.shape()), "setup-shape", || format!("{}: the circuit differs between set-up and proving", what())); }
    if input {
        other_inputs(run, &what, &h, &want, &widths(n, size), 4, r, &body);
        // the packing of another string with the same public elements
        let mut d = b.clone();
        let k = r.gen_range(0, n);
        if consts[k] { return; }
        match r.gen_range(0, 3) { 0 => d[k] = !d[k], 1 => { d.reverse(); } _ => { let j = (k + size) % n; d.swap(k, j); } }
        if d != b {
            let body2 = |cs: ConstraintSystemRef<F>| { let v = booleans(&cs, &d, &vec![false; n])?; MultipackGadget::pack::<F, P>(&v, size, true).map(|_| ()) };
            let mut p = Plan::new();
            for (i, s) in inputs(&honest(body2)).iter().enumerate() { if i < want.len() { p.insert(*s, Val::I(want[i])); } }
            let e = exec(&p, body2);
            run.count("other_strings", 1);
            run.check(e.ok().is_none() || instance(&e) != want, "other-string", || format!("{}: bits {} satisfy the constraints with those public elements", what(), short(&to_bytes(&d))));
        }
        tamper(run, &what, &h, &want, 3, r, &body, &|t| t.as_ref().map_or(true, |t| t.1 == b));
    } else {
        // the low bits of a packed witness are the string's
        let free: Vec<usize> = h.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::F(_))).map(|x| x.0).collect();
        if free.is_empty() { return; }
        for _ in 0..4 {
            let k = free[r.gen_range(0, free.len())];
            let v = match h.sites[k].val { Val::F(v) => v, _ => continue };
            let mut p = Plan::new();
            p.insert(k, Val::F(others(v, r)));
            let e = exec(&p, body);
            run.count("tampered_executions", 1);
            if let Some(Some((q, v))) = e.ok() {
                run.count("tampered_satisfied", 1);
                let low: Bits = q.iter().enumerate().flat_map(|(i, q)| { let l = size.min(n - i * size); let mut b = bits_le(&q.into_repr().to_bytes_le())[..l].to_vec(); b.reverse(); b }).collect();
                run.check(*v == b && low == b, "tampered", || format!("{}: satisfied although the packed elements are not of these bits; witnesses {:?}", what(), p));
            }
        }
    }
}

// ---- the output hash of the ends
fn ends(run: &Run, r: &mut Rng8) {
    let len = |r: &mut Rng8| match r.gen_range(0, 8) { 0 => r.gen_range(1, 9), 1 => 8 * r.gen_range(1, 40), 2 => 512, 3 => 512 * r.gen_range(1, 4) + [0, 1, 7, 8, 511][r.gen_range(0, 5)], 4 => r.gen_range(500, 530), _ => r.gen_range(1, 1200) };
    let (n, m) = (len(r), len(r));
    let (f, l) = (bits(r, n), if r.gen_bool(0.1) { bits(r, n) } else { bits(r, m) });
    let what = || format!("output hash of {} bits {} and {} bits {}", f.len(), short(&to_bytes(&f)), l.len(), short(&to_bytes(&l)));
    let want: Vec<Fq> = pack(&[out_hash(&f), out_hash(&l)].concat(), CAP_BW);
    let mut cf: Bits = f.iter().map(|_| r.gen_bool(0.05)).collect();
    cf[0] = false;
    let mut cl: Bits = l.iter().map(|_| r.gen_bool(0.05)).collect();
    cl[0] = false;
    let run_on = |f: &Bits, l: &Bits, cs: ConstraintSystemRef<Fq>| -> Result<Option<(Bits, Bits)>, SynthesisError> {
        let (a, b) = (booleans(&cs, f, &cf)?, booleans(&cs, l, &cl)?);
        let e = EpochBits { first_epoch_bits: a, last_epoch_bits: b, crh_bits: vec![], xof_bits: vec![] };
        e.verify(None, cs.clone())?;
        if cs.is_in_setup_mode() { return Ok(None); }
        let v = |b: &[Boolean<Fq>]| b.iter().map(|x| x.value()).collect::<Result<Bits, _>>();
        Ok(Some((v(&e.first_epoch_bits)?, v(&e.last_epoch_bits)?)))
    };
    let body = |cs| run_on(&f, &l, cs);
    let h = honest(body);
    run.eval(what(), true);
    run.count("output_hashes", 1);
    run.state("output_length", (f.len() % 8, f.len() / 512, l.len() % 8, l.len() / 512));
    run.sample(|| format!("{} -> {}", what(), h.describe()));
    if h.ok().is_none() { run.violation("output-refused", format!("{}: {}", what(), h.describe())); return; }
    run.check(instance(&h) == want, "output-hash", || format!("{}: public elements {:?}, not {:?}", what(), instance(&h).iter().map(num).collect::<Vec<_>>(), want.iter().map(num).collect::<Vec<_>>()));
    run.check(setup_shape(body) == Ok(h.shape()), "setup-shape", || format!("{}: the circuit differs between set-up and proving", what()));
    other_inputs(run, &what, &h, &want, &widths(512, CAP_BW), 1, r, &body);
    // the public input of other ends
    let (mut f2, mut l2) = (f.clone(), l.clone());
    match r.gen_range(0, 3) {
        0 => { let k = r.gen_range(0, f2.len()); if !cf[k] { f2[k] = !f2[k]; } }
        1 => { let k = r.gen_range(0, l2.len()); if !cl[k] { l2[k] = !l2[k]; } }
        _ => if f.len() == l.len() { std::mem::swap(&mut f2, &mut l2); } else { let k = r.gen_range(0, l2.len()); l2[k] = !l2[k]; }
    }
    if (&f2, &l2) != (&f, &l) {
        let b2 = |cs| run_on(&f2, &l2, cs);
        let mut p = Plan::new();
        for (i, s) in inputs(&h).iter().enumerate() { if i < want.len() { p.insert(*s, Val::I(want[i])); } }
        let e = exec(&p, b2);
        run.count("other_strings", 1);
        run.check(e.ok().is_none() || instance(&e) != want, "other-string", || format!("{}: other ends satisfy the constraints with that public input", what()));
    }
    tamper(run, &what, &h, &want, 1, r, &body, &|t| t.as_ref().map_or(true, |t| t.0 == f && t.1 == l));
}

// ---- the hash helper
fn helper(run: &Run, r: &mut Rng8) {
    let epochs = [1, 1, 2, 3][r.gen_range(0, 4)];
    let blobs: Vec<Vec<u8>> = (0..epochs).map(|_| { let n = match r.gen_range(0, 8) { 0 => 1, 1 => r.gen_range(60, 70), 2 => 64, 3 => r.gen_range(1, 200), 4 => 128, _ => 48 }; to_bytes(&bits(r, 8 * n)) }).collect();
    let what = || format!("hash helper on {:?}", blobs.iter().map(|b| short(b)).collect::<Vec<_>>());
    let all: Bits = blobs.iter().flat_map(|b| bits_le(b)).collect();
    let xof: Bits = blobs.iter().flat_map(|b| bits_le(&blake::xof(SIG, b, 64))).collect();
    let want: Vec<Fr> = [pack::<Fr>(&all, CAP_BLS), pack::<Fr>(&xof, CAP_BLS)].concat();
    let circuit = HashToBits { message_bits: blobs.iter().map(|b| bits_le(b).into_iter().map(Some).collect()).collect() };
    let body = |cs: ConstraintSystemRef<Fr>| circuit.clone().generate_constraints(cs);
    let h = honest(body);
    run.eval(what(), true);
    run.count("helper_circuits", 1);
    run.state("helper_lengths", blobs.iter().map(|b| b.len()).collect::<Vec<_>>());
    run.sample(|| format!("{} -> {}", what(), h.describe()));
    if h.ok().is_none() { run.violation("helper-refused", format!("{}: {}", what(), h.describe())); return; }
    let got = instance(&h);
    run.check(got == want, "helper-hash", || format!("{}: public elements {:?}, not {:?}", what(), got.iter().map(num).collect::<Vec<_>>(), want.iter().map(num).collect::<Vec<_>>()));
    if blobs.iter().all(|b| b.len() == 48) {
        let empty = HashToBits::empty::<BwPar>(blobs.len());
        run.count("shapes_compared_with_setup", 1);
        run.check(setup_shape(|cs: ConstraintSystemRef<Fr>| empty.generate_constraints(cs)) == Ok(h.shape()), "setup-shape", || format!("{}: the circuit differs between set-up and proving", what()));
    }
    other_inputs(run, &what, &h, &want, &[widths(all.len(), CAP_BLS), widths(xof.len(), CAP_BLS)].concat(), 2, r, &body);
    // a dishonest prover: other message bits or hash bits with the verifier's public input
    let free: Vec<usize> = h.sites.iter().enumerate().filter(|(_, s)| matches!(s.val, Val::F(_))).map(|x| x.0).collect();
    let ins = inputs(&h);
    for _ in 0..2 {
        let k = free[r.gen_range(0, free.len())];
        let v = match h.sites[k].val { Val::F(v) => v, _ => continue };
        let mut p = Plan::new();
        p.insert(k, Val::F(Fr::one() - v));
        let keep = r.gen::<bool>();
        if keep { for (i, s) in ins.iter().enumerate() { if i < want.len() { p.insert(*s, Val::I(want[i])); } } }
        let e = exec(&p, |cs| body(cs));
        run.count("tampered_executions", 1);
        if e.ok().is_some() {
            run.count("tampered_satisfied", 1);
            // only the statement that other message bits hash to their own hash may come out of it
            let i = instance(&e);
            let un = |v: &[Fr], n: usize| -> Bits { v.iter().enumerate().flat_map(|(j, x)| { let l = CAP_BLS.min(n - j * CAP_BLS); let mut b = bits_le(&x.into_repr().to_bytes_le())[..l].to_vec(); b.reverse(); b }).collect() };
            let a = (all.len() + CAP_BLS - 1) / CAP_BLS;
            let good = i.len() == want.len() && { let m = un(&i[..a], all.len()); let x = un(&i[a..], xof.len()); let mut at = 0; let mut hs: Bits = vec![]; for b in &blobs { let part: Bits = m[at..at + 8 * b.len()].to_vec(); at += 8 * b.len(); let mut rev = part.clone(); rev.reverse(); hs.extend(bits_le(&blake::xof(SIG, &to_bytes(&rev), 64))); } hs == x };
            run.check(good, "tampered", || format!("{}: satisfied for a hash that is not that of the message; witnesses {:?}", what(), p));
        }
    }
}
pub fn c08() {
    let run = Run::start("C08", "random, constant and single-bit strings: packing of 1 to 3 capacities of bits in chunks of any size up to the capacity over both fields, as public elements and as witnesses; output hashes of two strings of 1 to 2047 bits around byte and block boundaries; the hash helper circuit on 1 to 3 messages of 1 to 199 bytes; each with other public elements, other strings and tampered witnesses");
    run.par(8, |t, r| {
        let mut i = t;
        while run.within(run.pick(40.0, 1500.0)) {
            i += 1;
            match i % 8 { 0 => helper(&run, r), 1 | 2 => ends(&run, r), 3 | 4 => packing::<Fr, BlsPar>(&run, r, "inner"), _ => packing::<Fq, BwPar>(&run, r, "outer") }
        }
    });
    run.require("packings", 60);
    run.require("output_hashes", 25);
    run.require("helper_circuits", 12);
    run.require("other_public_inputs", 100);
    run.require("other_strings", 40);
    run.require("tampered_executions", 100);
    run.assume("the constraint system, field and hash gadgets are the stand-ins of /verif/shim; a dishonest prover replaces the witness values the code under test allocates (the library's own gadgets are taken to be sound); packed witnesses bind the low bits only, as nothing relies on more");
    run.finish()
}
