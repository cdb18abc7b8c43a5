//! C05: the circuit's bits and hash of an epoch against the native ones; what C06 and C07 share.
use crate::blk::*;
use ark_bls12_377::Bls12_377;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use circ::points::{bits_le, decode, half};
use circ::{exec, given, honest, setup_shape, Attack, Budget, Exec, Plan, Val};
use epoch_snark::verif_hooks::EpochData;
use std::collections::HashMap;
use std::sync::Mutex;
pub type CS = ConstraintSystemRef<Fq>;
pub type Shapes = Mutex<HashMap<(usize, u8), u64>>;
pub type Data = EpochData<Bls12_377>;

pub fn data(b: &EpochBlock) -> Data {
    Data { maximum_non_signers: b.maximum_non_signers, index: Some(b.index), round: Some(b.round), epoch_entropy: b.epoch_entropy.clone(), parent_entropy: b.parent_entropy.clone(), public_keys: b.new_public_keys.iter().map(|k| Some(point(k))).collect() }
}
pub fn vals(b: &[Boolean<Fq>]) -> Result<Bits, SynthesisError> { b.iter().map(|x| x.value()).collect() }
/// what the circuit made of an epoch
#[derive(Clone, Debug)]
pub struct Seen { pub index: Fq, pub epoch: Fq, pub parent: Fq, pub max: Fq, pub keys: Vec<G2Projective>, pub inner: Option<Bits>, pub extra: Option<Bits>, pub first: Bits, pub last: Bits, pub hash: Option<(G1Projective, Bits, Bits)> }
fn low(x: &Fq, w: usize) -> Bits { bits_le(&x.into_repr().to_bytes_le())[..w].to_vec() }
fn wide(x: &Fq, w: usize) -> bool { bits_le(&x.into_repr().to_bytes_le())[w..].iter().any(|b| *b) }
/// is this an epoch at all, and are its bits and hash those of its values? `full`: the expansion is constrained
pub fn judge(o: &Seen, full: bool) -> Option<String> {
    let (i, m, e, p) = (low(&o.index, 16), low(&o.max, 32), low(&o.epoch, 128), low(&o.parent, 128));
    let k: Bits = o.keys.iter().flat_map(key_bits).collect();
    if o.first != [&i[..], &p, &m, &k].concat() { return Some(format!("first-epoch bits that are not the encoding of the values they stand for ({})", diff(&o.first, &[&i[..], &p, &m, &k].concat()))); }
    if o.last != [&i[..], &e, &m, &k].concat() { return Some(format!("last-epoch bits that are not the encoding of the values they stand for ({})", diff(&o.last, &[&i[..], &e, &m, &k].concat()))); }
    let inner = [&e[..], &p, &k].concat();
    if let Some(b) = &o.inner { if *b != inner { return Some(format!("inner bits that are not the encoding of the values they stand for ({})", diff(b, &inner))); } }
    let rounds: Vec<u64> = match &o.extra {
        Some(x) => {
            if x.len() != 56 || x[..16] != i[..] || x[24..] != m[..] { return Some("extra data that is not the encoding of the values it stands for".into()); }
            vec![x[16..24].iter().rev().fold(0, |a, b| a * 2 + *b as u64)]
        }
        None => (0..256).collect(),
    };
    if let Some((h, crh, xof)) = &o.hash {
        let want = COMPOSITE_HASHER.crh(&[], &to_bytes(&inner), 0).ok()?;
        if bits_le(&want) != *crh { return Some("inner-hash bits that are not the composite hash of the epoch".into()); }
        if full && !rounds.iter().any(|r| { let x = to_bytes(&[&i[..], &le(*r, 8), &m].concat()); (0..=255u8).any(|c| expand(c, &x, &want) == *xof) }) { return Some("hash bits that are not an expansion of the epoch's hash for any counter".into()); }
        if decode(xof, SIGN) != Some(*h) { return Some("a message hash its hash bits do not decode to".into()); }
    }
    if wide(&o.index, 16) || wide(&o.max, 32) || wide(&o.epoch, 128) || wide(&o.parent, 128) { return Some(format!("@high-bits values beyond the width of their encoding: index {:?}, threshold {:?}, entropies {:?} and {:?}", o.index.into_repr(), o.max.into_repr(), o.epoch.into_repr(), o.parent.into_repr())); }
    None
}
/// an encoding the circuit cannot tell apart for a reason recorded under C02
pub fn at_half(p: &G2Projective) -> bool { let h = half(); let y = p.into_affine().y; y.c1 == h || (y.c1.is_zero() && y.c0 == h) }
/// values and bits of the honest execution
pub fn compare(run: &Run, what: &str, b: &EpochBlock, o: &Seen, round_seen: bool) {
    let num = |e: &Option<Vec<u8>>| e.as_ref().map_or(Fq::zero(), |e| e.iter().rev().fold(Fq::zero(), |a, x| a * Fq::from(256u64) + Fq::from(*x as u64)));
    run.check(o.index == Fq::from(b.index as u64), "index", || format!("{}: index variable differs: {}", what, show(b)));
    run.check(o.max == Fq::from(b.maximum_non_signers as u64), "threshold", || format!("{}: threshold variable differs: {}", what, show(b)));
    run.check(o.epoch == num(&b.epoch_entropy) && o.parent == num(&b.parent_entropy), "entropies", || format!("{}: entropy variables differ: {}", what, show(b)));
    run.check(o.keys.len() == b.new_public_keys.len() && o.keys.iter().zip(&b.new_public_keys).all(|(a, k)| *a == point(k)), "keys", || format!("{}: key variables differ: {}", what, show(b)));
    let mut one = |name: &str, have: &Bits, want: Bits, native: Option<Bits>| {
        run.check(*have == want, name, || format!("{}: {} are not the published layout ({}): {}", what, name, diff(have, &want), show(b)));
        if let Some(n) = native { run.check(*have == n, &format!("{}-native", name), || format!("{}: {} are not the native encoding ({}): {}", what, name, diff(have, &n), show(b))); }
    };
    use epoch_snark::verif_hooks::EpochType;
    one("first-epoch bits", &o.first, first(b), catch(|| b.encode_to_bits_cip22(EpochType::First).ok()).ok().flatten());
    one("last-epoch bits", &o.last, last(b), catch(|| b.encode_to_bits_cip22(EpochType::Last).ok()).ok().flatten());
    let nat = catch(|| b.encode_inner_to_bits_cip22().ok()).ok().flatten();
    if let Some(i) = &o.inner { one("inner bits", i, inner(b), nat.clone().map(|x| x.0)); }
    if let Some(e) = &o.extra { if round_seen { one("extra data bits", e, extra(b), nat.map(|x| x.1)); } }
    if let Some((h, crh, xof)) = &o.hash {
        if let Some((w, c)) = block_hash(b) {
            let i = COMPOSITE_HASHER.crh(&[], &to_bytes(&inner(b)), 0).unwrap();
            run.check(*h == w, "message hash", || format!("{}: another message hash than the block's: {}", what, show(b)));
            run.check(*crh == bits_le(&i), "inner hash bits", || format!("{}: other inner-hash bits: {}", what, show(b)));
            run.check(*xof == expand(c, &to_bytes(&extra(b)), &i), "hash bits", || format!("{}: other hash bits: {}", what, show(b)));
            run.state("counter", c);
        }
        match catch(|| b.hash_to_g1_cip22()) { Ok(Ok(n)) => { run.check(n == *h, "native-hash", || format!("{}: another message hash than hash_to_g1_cip22: {}", what, show(b))); } _ => run.violation("native-hash", format!("native hash of a block fails: {}", show(b))) }
    }
}
pub fn shape_check<T>(run: &Run, shapes: &Shapes, key: (usize, u8), e: &Exec<Fq, T>, what: &str, setup: impl FnOnce() -> Result<u64, String>) {
    if !matches!(e.out, Ok(Ok(_))) { return; }
    let s = e.shape();
    let mut g = shapes.lock().unwrap();
    let fresh = !g.contains_key(&key);
    let old = *g.entry(key).or_insert(s);
    drop(g);
    run.check(old == s, "shape", || format!("{}, size {}: the constraints depend on the values", what, key.0));
    if fresh {
        run.count("shapes_compared_with_setup", 1);
        match setup() { Ok(t) => { run.check(t == s, "shape-setup", || format!("{}, size {}: the constraints at set-up differ from those at proving", what, key.0)); } Err(x) => run.violation("setup", format!("{}, size {}: set-up fails: {}", what, key.0, x)) }
    }
}
fn bits_only(d: &Data, cs: CS) -> Result<Option<Seen>, SynthesisError> {
    let (inner, extra, first, last, index, epoch, parent, max, keys) = d.to_bits(cs.clone())?;
    if cs.is_in_setup_mode() { return Ok(None); }
    Ok(Some(Seen { index: index.value()?, epoch: epoch.value()?, parent: parent.value()?, max: max.value()?, keys: keys.iter().map(|k| k.value()).collect::<Result<_, _>>()?, inner: Some(vals(&inner)?), extra: Some(vals(&extra)?), first: vals(&first)?, last: vals(&last)?, hash: None }))
}
fn hashed(d: &Data, prev: Option<Fq>, full: bool, cs: CS) -> Result<Option<Seen>, SynthesisError> {
    let pv = given(|| FpVar::new_witness(cs.clone(), || prev.ok_or(SynthesisError::AssignmentMissing)))?;
    let c = d.constrain(&pv, full)?;
    if cs.is_in_setup_mode() { return Ok(None); }
    Ok(Some(Seen { index: c.index.value()?, epoch: c.epoch_entropy.value()?, parent: c.parent_entropy.value()?, max: c.maximum_non_signers.value()?, keys: c.pubkeys.iter().map(|k| k.value()).collect::<Result<_, _>>()?, inner: None, extra: None, first: vals(&c.combined_first_epoch_bits)?, last: vals(&c.combined_last_epoch_bits)?, hash: Some((c.message_hash.value()?, vals(&c.crh_bits)?, vals(&c.xof_bits)?)) }))
}
/// each witness of the code under test in turn raised by a power of two its encoding does not show
fn raised(run: &Run, b: &EpochBlock) {
    let d = data(b);
    let body = |cs: CS| bits_only(&d, cs);
    let h = honest(&body);
    for (i, s) in h.sites.iter().enumerate().take(40) {
        if let Val::F(v) = s.val {
            let mut p = Plan::new();
            p.insert(i, Val::F(v + Fq::from(2u64).pow([200])));
            let e = exec(&p, &body);
            run.count("tampered_executions", 1);
            if let Some(Some(o)) = e.ok() { run.count("tampered_satisfied", 1); if let Some(t) = judge(o, true) { let (key, t) = match t.strip_prefix('@').and_then(|t| t.split_once(' ')) { Some((k, t)) => (k, t), None => ("tampered", &t[..]) }; run.violation(key, format!("the constraints are satisfied with {} ({})", t, show(b))); } }
        }
    }
}
pub fn c05() {
    let run = Run::start("C05", "random and boundary epochs of 1 to some keys, and a few of up to 150 (generator, negatives, boundary coordinates, repeated, in random representations); bits alone, and with the hash (its expansion constrained or not); whole one-epoch circuits for the aggregated key of the last epoch; witnesses allocated by the code under test replaced by a dishonest prover. Oracle: independent encodings, native encodings and hash; under tampering, the bits must encode the values the circuit goes on to use, and the message hash must be that of those bits for some counter. Non-trivial: every epoch");
    let shapes: Shapes = Default::default();
    run.par(8, |t, r| {
        if t < 2 { let b = block(r, 1, 1); raised(&run, &b); }
        let mut i = 0u64;
        let mut large = match t { 2 => vec![r.gen_range(100, 151)], 3 => vec![r.gen_range(64, 129)], 4 | 5 => vec![r.gen_range(17, 65), r.gen_range(7, 33)], _ => vec![] };
        while run.within(run.pick(45.0, 1800.0)) {
            i += 1;
            let n = match r.gen_range(0, 5) { 0 => 1, 1 => 2, _ => r.gen_range(1, run.pick(7, 16)) };
            if run.pick(false, true) && i % 100 == 97 { large.push(r.gen_range(16, 200)); }
            let n = if i % 4 != 0 { match large.pop() { Some(n) => { run.count("large_epochs", 1); run.state("large_epoch_sizes", n); n } None => n } } else { n };
            let b = block(r, n, n);
            let d = data(&b);
            let attackable = !b.new_public_keys.iter().any(|k| at_half(&point(k)));
            run.eval(show(&b), true);
            let pool1 = [gen1().into_affine(), mul1(gen1(), Fr::rand(r)).into_affine()];
            let mut pool2: Vec<G2Affine> = vec![gen2().into_affine(), mul2(Fr::rand(r)).into_affine()];
            pool2.retain(|p| !at_half(&p.into_projective()));
            if i % 4 != 0 {
                let body = |cs: CS| bits_only(&d, cs);
                let h = honest(&body);
                run.count("bits", 1);
                match h.ok() { Some(Some(o)) => compare(&run, "bits", &b, o, true), _ => run.violation("refused", format!("bits of an epoch: {}: {}", h.describe(), show(&b))) }
                shape_check(&run, &shapes, (n, 0), &h, "bits of an epoch", || setup_shape(|cs| bits_only(&Data::empty(n, 3), cs)));
                if attackable && i % 2 == 0 && n < 16 {
                    Attack { run: &run, key: "tampered", body: &body, budget: Budget { sites: 20, per_site: 4, pairs: 10, repair: 2, runs: 40 }, pool1: &pool1, pool2: &pool2, wrong: &|o| o.as_ref().and_then(|o| judge(o, true)) }.go(&h, r);
                }
                run.sample(|| format!("{} -> {}", show(&b), h.describe()));
            } else if i % 32 == 0 {
                // the last epoch's bits with the aggregate appear in the public input only
                crate::chain::last_bits(&run, r);
            } else {
                let full = r.gen_bool(0.7);
                let prev = if b.index == 0 { Fq::rand(r) } else { Fq::from(b.index as u64 - 1) };
                let body = |cs: CS| hashed(&d, Some(prev), full, cs);
                let h = honest(&body);
                run.count(if full { "hashes" } else { "hashes_without_expansion" }, 1);
                match h.ok() { Some(Some(o)) => compare(&run, "epoch", &b, o, false), _ => run.violation("refused", format!("epoch: {}: {}", h.describe(), show(&b))) }
                shape_check(&run, &shapes, (n, 1 + full as u8), &h, "epoch", || setup_shape(|cs| hashed(&Data::empty(n, 3), None, full, cs)));
                if attackable && n < 5 {
                    Attack { run: &run, key: "tampered", body: &body, budget: Budget { sites: 16, per_site: 2, pairs: 2, repair: 1, runs: 6 }, pool1: &pool1, pool2: &pool2, wrong: &|o| o.as_ref().and_then(|o| judge(o, full)) }.go(&h, r);
                }
                run.sample(|| format!("{} -> {}", show(&b), h.describe()));
            }
        }
    });
    run.require("bits", 100);
    run.require("large_epochs", 4);
    run.require("hashes", 20);
    run.require("hashes_without_expansion", 5);
    run.require("whole_circuits", 3);
    run.require("tampered_satisfied", 20);
    run.assume("the constraint system, gadgets and curves are the stand-ins of /verif/shim; keys and aggregates other than the identity, entropies of 16 bytes; keys whose y coordinate is (q-1)/2 (see C02) are not attacked");
    run.finish()
}
