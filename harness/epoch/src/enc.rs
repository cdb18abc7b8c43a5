//! E01..E03: encodings of epoch blocks, their injectivity, the hash of the ends and its packing.
use crate::blk::*;
use ark_ff::FpParameters;
use circ::points::{bits_le, on2};
use epoch_snark::verif_hooks::{self as hooks, EpochType};
use std::collections::HashMap;
use std::sync::Mutex;

fn got<T, E: std::fmt::Display>(run: &Run, b: &EpochBlock, what: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    match catch(f) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => { run.violation(&format!("{}-refused", what), format!("{} of a block fails ({}): {}", what, e, show(b))); None }
        Err(e) => { run.violation(&format!("{}-panic", what), format!("{} of a block panics ({}): {}", what, e, show(b))); None }
    }
}
fn bits(run: &Run, b: &EpochBlock, what: &str, have: Option<Bits>, want: &[bool]) {
    if let Some(h) = have { run.check(h == want, what, || format!("{}: not the published layout ({}): {}", what, diff(&h, want), show(b))); }
}
fn bytes(run: &Run, b: &EpochBlock, what: &str, have: Option<Vec<u8>>, want: &[bool]) {
    let want = to_bytes(want);
    if let Some(h) = have { run.check(h == want, what, || format!("{}: {} instead of {}: {}", what, short(&h), short(&want), show(b))); }
}
pub fn any_block(r: &mut Rng8, most: usize) -> EpochBlock {
    let n = match r.gen_range(0, 60) { 0 => r.gen_range(most, 200), 1..=10 => 1, 11..=20 => 2, 21..=29 => r.gen_range(0, most + 1), _ => r.gen_range(1, 6.min(most) + 1) };
    // (room for far more than there are keys, which only the hash has not)
    if n < most && r.gen_range(0, 50) == 0 { let max = r.gen_range(207, 700); return block(r, n, max); }
    let max = match r.gen_range(0, 6) { 0 => n, 1 => n + 1, 2 => n.saturating_sub(1), 3 => 0, _ => n + r.gen_range(0, 5) };
    block(r, n, max)
}
pub fn e01() {
    let run = Run::start("E01", "random and boundary indices, rounds, thresholds, entropies (present, absent, zero, all ones, one bit), 0 to some dozen and at times up to 199 keys (random, generator and its negative, repeated, with boundary y coordinates, in random projective representations), and maximum numbers of validators below, at and above the number of keys (at times by hundreds); every encoding in bits and bytes and the hash to the curve. Oracle: the layout written down independently, BLAKE2Xs and decoding written independently. Non-trivial: every block");
    run.par(8, |_, r| {
        let mut i = 0u64;
        while run.within(run.pick(25.0, 900.0)) {
            i += 1;
            let b = any_block(r, run.pick(14, 60));
            run.eval(show(&b) + &format!("{:?}", b.new_public_keys.iter().map(|k| key_bits(&point(k))).collect::<Vec<_>>()), true);
            run.state("shape", (b.new_public_keys.len(), b.maximum_validators, b.epoch_entropy.is_some(), b.parent_entropy.is_some()));
            run.count(match b.maximum_validators.cmp(&b.new_public_keys.len()) { std::cmp::Ordering::Less => "more_keys_than_maximum", std::cmp::Ordering::Equal => "full", _ => "padded" }, 1);
            bits(&run, &b, "plain encoding", got(&run, &b, "plain encoding", || b.encode_to_bits()), &plain(&b));
            bytes(&run, &b, "plain encoding bytes", got(&run, &b, "plain encoding bytes", || b.encode_to_bytes()), &plain(&b));
            bits(&run, &b, "first-epoch encoding", got(&run, &b, "first-epoch encoding", || b.encode_to_bits_cip22(EpochType::First)), &first(&b));
            bytes(&run, &b, "first-epoch encoding bytes", got(&run, &b, "first-epoch encoding bytes", || b.encode_first_epoch_to_bytes_cip22()), &first(&b));
            bits(&run, &b, "last-epoch encoding", got(&run, &b, "last-epoch encoding", || b.encode_to_bits_cip22(EpochType::Last)), &last(&b));
            if !b.new_public_keys.is_empty() {
                bits(&run, &b, "last-epoch encoding with aggregate", got(&run, &b, "last-epoch encoding with aggregate", || b.encode_last_epoch_to_bits_with_aggregated_pk_cip22()), &last_agg(&b));
                bytes(&run, &b, "last-epoch encoding with aggregate bytes", got(&run, &b, "last-epoch encoding with aggregate bytes", || b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22()), &last_agg(&b));
            }
            if let Some((m, e)) = got(&run, &b, "inner encoding", || b.encode_inner_to_bits_cip22()) { bits(&run, &b, "inner encoding", Some(m), &inner(&b)); bits(&run, &b, "extra data", Some(e), &extra(&b)); }
            if let Some((m, e)) = got(&run, &b, "inner encoding bytes", || b.encode_inner_to_bytes_cip22()) { bytes(&run, &b, "inner encoding bytes", Some(m), &inner(&b)); bytes(&run, &b, "extra data bytes", Some(e), &extra(&b)); }
            for e in [&b.epoch_entropy, &b.parent_entropy] { bits(&run, &b, "entropy", got(&run, &b, "entropy", || Ok::<_, String>(EpochBlock::encode_entropy_cip22(e.as_ref()))), &entropy_bits(e)); }
            if b.new_public_keys.len().max(b.maximum_validators) > 206 { run.count("wide_padding", 1); continue; }
            if i % 4 == 0 {
                run.count("hashed_to_curve", 1);
                let h = got(&run, &b, "hash to curve", || b.hash_to_g1_cip22());
                if let (Some(h), Some((w, c))) = (h, block_hash(&b)) { run.state("counter", c); run.check(h == w, "hash to curve", || format!("hash to curve: not the composite CIP22 hash of the inner block: {}", show(&b))); }
            }
            run.sample(|| format!("{} -> {}", show(&b), short(&to_bytes(&inner(&b)))));
        }
    });
    run.require("padded", 100);
    run.require("more_keys_than_maximum", 20);
    run.require("full", 50);
    run.require("wide_padding", 10);
    run.require("hashed_to_curve", 50);
    run.require("shape", 100);
    run.assume("entropies of exactly 16 bytes where present; no key and no aggregate is the identity");
    run.finish()
}

/// what an encoding must determine
fn zeros(e: &Option<Vec<u8>>) -> Vec<u8> { e.clone().unwrap_or_else(|| vec![0; 16]) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form { Inner, First, Last, LastAgg }
fn means(b: &EpochBlock, f: Form) -> Vec<u8> {
    let mut v = b.index.to_le_bytes().to_vec();
    v.extend(b.maximum_non_signers.to_le_bytes());
    if f == Form::Inner { v.push(b.round); }
    if f != Form::First { v.extend(zeros(&b.epoch_entropy)); }
    if matches!(f, Form::Inner | Form::First) { v.extend(zeros(&b.parent_entropy)); }
    v.extend(to_bytes(&keys_bits(b, true)));
    // the aggregate is of the keys listed, without padding
    if f == Form::LastAgg { v.extend(to_bytes(&key_bits(&total(b)))); }
    v
}
fn form_bits(b: &EpochBlock, f: Form) -> Result<(Bits, Bits, Vec<u8>, Vec<u8>), String> {
    let e = |e: epoch_snark::EncodingError| e.to_string();
    match f {
        Form::Inner => { let (a, c) = b.encode_inner_to_bits_cip22().map_err(e)?; let (x, y) = b.encode_inner_to_bytes_cip22().map_err(e)?; Ok((a, c, x, y)) }
        Form::First => Ok((b.encode_to_bits_cip22(EpochType::First).map_err(e)?, vec![], b.encode_first_epoch_to_bytes_cip22().map_err(e)?, vec![])),
        Form::Last => Ok((b.encode_to_bits_cip22(EpochType::Last).map_err(e)?, vec![], vec![], vec![])),
        Form::LastAgg => Ok((b.encode_last_epoch_to_bits_with_aggregated_pk_cip22().map_err(e)?, vec![], b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().map_err(e)?, vec![])),
    }
}
fn mutate(b: &EpochBlock, r: &mut Rng8) -> (EpochBlock, &'static str) {
    let mut c = b.clone();
    let n = c.new_public_keys.len();
    let flip = |e: &mut Option<Vec<u8>>, r: &mut Rng8| { let mut v = zeros(e); v[r.gen_range(0, 16)] ^= 1 << r.gen_range(0, 8); *e = Some(v); };
    let what = match r.gen_range(0, 19) {
        0 => { c.index ^= 1 << r.gen_range(0, 16); "one bit of the index" }
        1 => { c.round ^= 1 << r.gen_range(0, 8); "one bit of the round" }
        2 => { c.maximum_non_signers ^= 1 << r.gen_range(0, 32); "one bit of the threshold" }
        3 => { flip(&mut c.epoch_entropy, r); "one bit of the epoch entropy" }
        4 => { flip(&mut c.parent_entropy, r); "one bit of the parent entropy" }
        5 => { std::mem::swap(&mut c.epoch_entropy, &mut c.parent_entropy); "entropies exchanged" }
        6 => { c.epoch_entropy = match &c.epoch_entropy { None => Some(vec![0; 16]), Some(e) if e.iter().all(|x| *x == 0) => None, _ => entropy(r) }; "epoch entropy" }
        7 => { c.index = c.index.swap_bytes(); "bytes of the index exchanged" }
        8 => { let x = (c.index as u32) << 16 | c.round as u32; c.index = x as u16; c.round = (x >> 16) as u8; "index and round exchanged" }
        9 => { c.maximum_non_signers = c.maximum_non_signers.rotate_left(8); "threshold rotated" }
        10 => { c.index = index(r); "index" }
        11 if n > 0 => { let i = r.gen_range(0, n); c.new_public_keys[i] = PublicKey::from(-point(&c.new_public_keys[i])); "sign of one key" }
        12 if n > 1 => { let (i, j) = (r.gen_range(0, n), r.gen_range(0, n)); c.new_public_keys.swap(i, j); "two keys exchanged" }
        13 if n > 0 => { let i = r.gen_range(0, n); c.new_public_keys[i] = PublicKey::from(key(r)); "one key replaced" }
        14 if n > 0 => { c.new_public_keys.remove(r.gen_range(0, n)); "one key removed" }
        15 if n < c.maximum_validators => { let at = if r.gen() { n } else { r.gen_range(0, n + 1) }; c.new_public_keys.insert(at, PublicKey::from(gen2())); "one padding key spelled out" }
        16 if n > 0 => { c.new_public_keys.rotate_left(1); "keys rotated" }
        17 if n > 0 => { let i = r.gen_range(0, n); let p = point(&c.new_public_keys[i]); c.new_public_keys[i] = PublicKey::from(rerep2(p, r)); "one key in another representation" }
        // the same coordinates in the other components
        _ if n > 0 => {
            let i = r.gen_range(0, n);
            let a = point(&c.new_public_keys[i]).into_affine();
            if let Some(p) = on2(Fq2::new(a.y.c1, a.y.c0)) { c.new_public_keys[i] = PublicKey::from(p.into_projective()); } else { c.new_public_keys.swap(0, n - 1); }
            "another point"
        }
        _ => { c.maximum_non_signers = threshold(r); "threshold" }
    };
    (c, what)
}
pub fn e02() {
    let run = Run::start("E02", "pairs of epoch blocks that differ in one bit of one field, in exchanged fields or bytes, in one sign, one key, an order, a padding key spelled out or an internal representation, and every pair among all blocks of the run (through a map from encodings to what they must determine). Oracle: encodings agree if and only if the fields they carry agree. Non-trivial: every pair");
    let seen: Mutex<HashMap<(Form, Bits, Bits), Vec<u8>>> = Mutex::new(HashMap::new());
    let seen_bytes: Mutex<HashMap<(Form, usize, Vec<u8>, Vec<u8>), Vec<u8>>> = Mutex::new(HashMap::new());
    run.par(8, |_, r| {
        while run.within(run.pick(25.0, 900.0)) {
            let max = match r.gen_range(0, 40) { 0 => r.gen_range(7, 180), 1..=10 => 1, 11..=20 => 2, _ => r.gen_range(1, 7) };
            let n = r.gen_range(0, max + 1);
            let a = block(r, n, max);
            let (mut b, mut what) = mutate(&a, r);
            if r.gen_bool(0.15) { let (c, w) = mutate(&b, r); b = c; what = if what == w { w } else { "two changes" }; }
            for f in [Form::Inner, Form::First, Form::Last, Form::LastAgg] {
                if f == Form::LastAgg && (total(&a).is_zero() || total(&b).is_zero()) { continue; }
                let (x, y) = match (got(&run, &a, "encoding", || form_bits(&a, f)), got(&run, &b, "encoding", || form_bits(&b, f))) { (Some(x), Some(y)) => (x, y), _ => continue };
                let same = means(&a, f) == means(&b, f);
                run.eval((f, means(&a, f), means(&b, f)), true);
                run.count(if same { "equal_pairs" } else { "different_pairs" }, 1);
                run.state("changes", (f, what, same));
                if same { run.check(x == y, "equal", || format!("{:?}: blocks with the same meaning ({}) encode differently: {}", f, what, show(&a))); }
                else {
                    run.check((&x.0, &x.1) != (&y.0, &y.1), "collision", || format!("{:?}: two blocks that differ ({}) have the same encoding: {} | {}", f, what, show(&a), show(&b)));
                    run.check(x.2.is_empty() || (&x.2, &x.3) != (&y.2, &y.3), "collision-bytes", || format!("{:?}: two blocks that differ ({}) have the same encoding in bytes: {} | {}", f, what, show(&a), show(&b)));
                }
                for (c, z) in [(&a, x), (&b, y)] {
                    let m = means(c, f);
                    let len = z.0.len();
                    if let Some(o) = seen.lock().unwrap().insert((f, z.0, z.1), m.clone()) { run.check(o == m, "collision", || format!("{:?}: shares its encoding with another block: {}", f, show(c))); }
                    if !z.2.is_empty() { if let Some(o) = seen_bytes.lock().unwrap().insert((f, len, z.2, z.3), m.clone()) { run.check(o == m, "collision-bytes", || format!("{:?}: shares its encoding in bytes with another block: {}", f, show(c))); } }
                }
            }
            run.sample(|| format!("{}: {} | {}", what, show(&a), show(&b)));
            // bounded memory
            if seen.lock().unwrap().len() > 150_000 { seen.lock().unwrap().clear(); seen_bytes.lock().unwrap().clear(); }
        }
    });
    run.require("different_pairs", 1000);
    run.require("equal_pairs", 100);
    run.require("changes", 40);
    run.assume("keys and aggregates other than the identity; entropies of exactly 16 bytes where present; at most as many keys as the maximum number of validators");
    run.finish()
}

pub fn e03() {
    let run = Run::start("E03", "random and boundary pairs of first and last epoch blocks; the hash of arbitrary byte strings; packing of random, degenerate and hash-shaped bit strings of 0 to some thousand bits over both fields, with lengths around multiples of the capacities. Oracle: independent encodings, independent BLAKE2s, packing by its definition and unpacking. Non-trivial: every case");
    fn packs<F: PrimeField>(run: &Run, name: &str, cap: usize, b: &[bool], f: impl FnOnce(&[bool]) -> Result<Vec<F>, ark_relations::r1cs::SynthesisError>) {
        let want: Vec<F> = pack(b, cap);
        match catch(|| f(b)) {
            Ok(Ok(v)) => {
                run.check(v == want, "packing", || format!("packing {} bits over {}: not the chunks of {} bits, most significant first", b.len(), name, cap));
                // nothing is lost
                let mut back = vec![];
                for (i, x) in v.iter().enumerate() { let w = cap.min(b.len() - (i * cap).min(b.len())); let mut l = bits_le(&x.into_repr().to_bytes_le()); run.check(l[w..].iter().all(|b| !*b), "packing", || format!("packing {} bits over {}: element {} is larger than its bits", b.len(), name, i)); l.truncate(w); l.reverse(); back.extend(l); }
                run.check(back == b, "unpacking", || format!("packing {} bits over {} does not give them back", b.len(), name));
            }
            Ok(Err(e)) => run.violation("packing-refused", format!("packing {} bits over {} fails: {:?}", b.len(), name, e)),
            Err(e) => run.violation("packing-panic", format!("packing {} bits over {} panics: {}", b.len(), name, e)),
        }
        run.eval((name, b), true);
        run.count(&format!("packed over {}", name), 1);
        run.state("packed_lengths", (name, b.len()));
    }
    run.par(8, |_, r| {
        while run.within(run.pick(20.0, 600.0)) {
            let (mut a, b) = (any_block(r, 10), loop { let b = any_block(r, 10); if !b.new_public_keys.is_empty() { break b; } });
            // ends that are the same, or nearly: of one field each, or of the same keys
            let like = match r.gen_range(0, 8) {
                0 => { a = b.clone(); "same" }
                1 => {
                    a = b.clone();
                    match r.gen_range(0, 6) { 0 => a.index = a.index.wrapping_sub(1), 1 => a.round ^= 1, 2 => a.maximum_non_signers ^= 1, 3 => a.epoch_entropy = entropy(r), 4 => a.parent_entropy = b.epoch_entropy.clone(), _ => { a.new_public_keys.reverse(); } }
                    "nearly the same"
                }
                2 => { a.new_public_keys = b.new_public_keys.clone(); a.maximum_validators = b.maximum_validators; "same keys" }
                _ => "unrelated",
            };
            run.count(&format!("pairs: {}", like), 1);
            let want = ends_hash(&a, &b);
            if let Some(h) = got(&run, &b, "hash of the ends", || hooks::hash_first_last_epoch_block(&a, &b)) {
                run.check(h == want, "ends", || format!("hash of the ends: not the hashes of the first-epoch and last-epoch encodings ({}): {} | {}", diff(&h, &want), show(&a), show(&b)));
            }
            if let Some(h) = got(&run, &a, "hash of the first epoch", || a.blake2_first_epoch_cip22()) { run.check(h[..] == want[..256], "first", || format!("hash of a first epoch differs: {}", show(&a))); }
            if let Some(h) = got(&run, &b, "hash of the last epoch", || b.blake2_last_epoch_with_aggregated_pk_cip22()) { run.check(h[..] == want[256..], "last", || format!("hash of a last epoch differs: {}", show(&b))); }
            run.eval(&want, true);
            run.count("pairs_of_ends", 1);
            run.sample(|| format!("{} | {} -> {}", show(&a), show(&b), short(&to_bytes(&want))));
            let m = gen::blob(r, 400);
            let w: Bits = { let mut p = [0; 8]; p.copy_from_slice(OUT); bits_le(&mon::blake::blake2s(&mon::blake::Param { digest: 32, fanout: 1, depth: 1, personal: p, ..Default::default() }, &m)) };
            match catch(|| hooks::hash_to_bits(&m)) { Ok(h) => { run.check(h == w, "hash-to-bits", || format!("hash of {}: not BLAKE2s", short(&m))); } Err(e) => run.violation("hash-to-bits", format!("hash of {} panics: {}", short(&m), e)) }
            for _ in 0..6 {
                let cap = if r.gen() { CAP_BW } else { CAP_BLS };
                let n = match r.gen_range(0, 6) { 0 => 512, 1 => r.gen_range(0, 20), 2 => (cap * r.gen_range(1, 5) + r.gen_range(0, 3)).saturating_sub(1), 3 => 256, _ => r.gen_range(0, 2000) };
                let b: Bits = match r.gen_range(0, 5) { 0 => vec![true; n], 1 => vec![false; n], 2 => { let mut v = vec![false; n]; if n > 0 { v[r.gen_range(0, n)] = true; } v } _ => (0..n).map(|_| r.gen()).collect() };
                packs::<Fq>(&run, "BW6", CAP_BW, &b, |b| hooks::pack::<Fq, ark_bw6_761::FrParameters>(b));
                packs::<Fr>(&run, "BLS12", CAP_BLS, &b, |b| hooks::pack::<Fr, ark_bls12_377::FrParameters>(b));
            }
            packs::<Fq>(&run, "BW6", CAP_BW, &want, |b| hooks::pack::<Fq, ark_bw6_761::FrParameters>(b));
        }
    });
    run.check(<ark_bw6_761::FrParameters as FpParameters>::CAPACITY as usize == CAP_BW && <ark_bls12_377::FrParameters as FpParameters>::CAPACITY as usize == CAP_BLS, "capacity", || "the stand-in fields have other capacities".into());
    run.require("pairs_of_ends", 100);
    run.require("packed_lengths", 200);
    run.assume("the fields are the stand-ins of /verif/shim");
    run.finish()
}
