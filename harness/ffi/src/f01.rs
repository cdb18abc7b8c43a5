//! F01: what the C interface reports and writes is what the library returns.
use crate::{api::*, gen::Pool};
use std::collections::HashSet;
use std::sync::Mutex;

pub use crate::tell::*;
pub fn compare(run: &Run, op: &Op, r: &mut Rng8, keep: &mut Vec<Held>) -> Option<Out> {
    let want = match catch(|| op.expect()) { Ok(w) => w, Err(e) => { run.count("library_panics", 1); run.violation("library-panic", format!("the library panics ({}) where {} would call it", e, op.show())); return None; } };
    let have = match during(op, || op.call(r, keep)) { Ok(h) => h, Err(e) => { run.violation(&format!("{}-protocol", op.name()), format!("{}: {}", op.show(), e)); return None; } };
    run.eval((op.show(), &want), !want.nums.is_empty() || want.ok);
    run.count(op.name(), 1);
    run.sample(|| format!("{} -> {} {:?} {:?}", op.show().chars().take(400).collect::<String>(), have.ok, have.bytes.iter().map(|b| mon::short(b)).collect::<Vec<_>>(), have.nums));
    if !want.nums.is_empty() { run.count(if want.nums.iter().all(|x| *x == 1) { "verdicts_all_true" } else { "verdicts_some_false" }, 1); }
    if !want.ok { run.count("refused", 1); }
    run.check(have == want, op.name(), || format!("{}: the C interface gives {} {:?} {:?}, the library {} {:?} {:?}", op.show(), have.ok, have.bytes.iter().map(|b| hex(b)).collect::<Vec<_>>(), have.nums, want.ok, want.bytes.iter().map(|b| hex(b)).collect::<Vec<_>>(), want.nums));
    Some(have)
}
pub fn f01() {
    let run = Run::start("F01", "random well-formed calls of every exported function with random keys (extreme scalars, several internal representations, infinity), messages (also empty), valid and forged signatures, batches of 0 to 4, all flag combinations; success, outputs and verdicts compared with the library's for the same input");
    tell_of_panics("F01");
    unsafe { crate::sys::init() };
    let keys: Mutex<HashSet<Vec<u8>>> = Default::default();
    run.par(8, |_, r| {
        let mut pool = Pool::new(r, 10, false);
        let mut k = 0u64;
        while run.within(run.pick(35.0, 1200.0)) {
            k += 1;
            if k % 400 == 0 { pool = Pool::new(r, 10, false); }
            let op = pool.op(r);
            let mut keep = vec![];
            if compare(&run, &op, r, &mut keep).is_none() { continue; }
            if let Op::Generate = op { if let Some(Held::Sk(_, b)) = keep.first() { let fresh = keys.lock().unwrap().insert(b.clone()); run.check(fresh, "generate_private_key", || format!("the key {} was generated twice", hex(b))); } }
            if let Err(e) = release_all(&mut keep) { run.violation("release", e); }
        }
    });
    for f in ["generate_private_key", "private_key_to_public_key", "deserialize_private_key", "deserialize_public_key", "deserialize_public_key_cached", "deserialize_signature", "serialize_private_key", "serialize_public_key", "serialize_public_key_uncompressed", "serialize_signature", "serialize_signature_uncompressed", "compress_signature", "compress_pubkey", "sign_message", "sign_pop", "hash_direct", "hash_direct_with_attempt", "hash_composite", "hash_composite_cip22", "hash_crh", "hash_direct_first_step", "verify_signature", "verify_pop", "batch_verify_signature", "batch_verify_strict", "aggregate_public_keys", "aggregate_public_keys_subtract", "aggregate_signatures", "encode_epoch_block_to_bytes", "encode_epoch_block_to_bytes_cip22"] { run.require(f, 10); }
    run.require("verdicts_all_true", 100);
    run.require("verdicts_some_false", 100);
    run.assume("aggregated keys are different points (the library's own aggregate over them is the reference); counts and lengths are those of the buffers");
    run.finish()
}
