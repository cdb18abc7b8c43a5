//! F03: malformed input is refused; a crash of this process is reported by the driver.
use crate::{api::*, f01::{during, tell_of_panics}, gen::{hostile, Judge, Pool}};

pub fn f03() {
    let run = Run::start("F03", "bytes of any length offered as key or signature (truncated, over-long, not reduced, on no curve point, outside the group, flags changed, noise, one bit flipped), as coordinates to compress, batches with uneven lists, the unsupported flag combination; refusals judged where certain, otherwise by the library; any panic or signal ends the process and is reported");
    tell_of_panics("F03");
    unsafe { crate::sys::init() };
    run.par(8, |_, r| {
        let mut pool = Pool::new(r, 6, false);
        while run.within(run.pick(25.0, 900.0)) {
            let mut keep = vec![];
            let mut refuse = |op: &Op, must: Option<bool>, what: &str, r: &mut Rng8| {
                match during(op, || op.call(r, &mut keep)) {
                    Err(e) => run.violation(&format!("{}-protocol", op.name()), format!("{}: {}", op.show(), e)),
                    Ok(o) => {
                        run.eval(op.show(), true);
                        run.count(op.name(), 1);
                        run.state("kinds", (op.name(), what.to_string(), o.ok));
                        run.sample(|| format!("{}: {} -> {}", what, op.show().chars().take(300).collect::<String>(), o.ok));
                        if must == Some(false) { run.count("certainly_malformed", 1); }
                        if let Some(m) = must { run.check(o.ok == m, op.name(), || format!("{} ({}): reports {} instead of {}", op.show(), what, o.ok, m)); }
                    }
                }
                let _ = release_all(&mut keep);
            };
            match r.gen_range(0, 10) {
                0..=5 => {
                    let k = *[Kind::Sk, Kind::Pk, Kind::PkCached, Kind::Sig].choose(r).unwrap();
                    let (b, j, what) = hostile(k, &mut pool, r);
                    let op = Op::De(k, b);
                    let must = match j { Judge::Refuse => Some(false), Judge::Library => Some(op.expect().ok), Judge::Either => None };
                    refuse(&op, must, what, r);
                    // the cache must not remember it as valid
                    if let (Op::De(Kind::Pk, b), Some(false)) = (&op, must) { refuse(&Op::De(Kind::PkCached, b.clone()), must, what, r); refuse(&op, must, what, r); }
                }
                6 | 7 => {
                    let s = r.gen::<bool>();
                    let size = if s { 96 } else { 192 };
                    let q = |r: &mut Rng8| { let mut v = vec![]; Fq::rand(r).write(&mut v).unwrap(); v };
                    let (b, must, what): (Vec<u8>, _, _) = match r.gen_range(0, 6) {
                        0 => (vec![], Some(false), "nothing"),
                        1 => { let n = r.gen_range(0, size); ((0..size / 48).flat_map(|_| q(r)).take(n).collect(), Some(false), "truncated") }
                        2 => { let mut b: Vec<u8> = (0..size / 48).flat_map(|_| q(r)).collect(); let j = r.gen_range(0, size / 48) * 48; for x in b[j..j + 47].iter_mut() { *x = r.gen(); } b[j + 47] = r.gen_range(2u16, 256) as u8; (b, Some(false), "not reduced") }
                        3 => ((0..size).map(|_| r.gen()).collect(), None, "noise"),
                        4 => ((0..size / 48).flat_map(|_| q(r)).collect(), None, "coordinates of no point"),
                        _ => ((0..r.gen_range(0, 300)).map(|_| if r.gen_bool(0.1) { r.gen() } else { 0 }).collect(), None, "mostly zeros"),
                    };
                    refuse(&Op::Compress(s, b), must, what, r);
                }
                8 => {
                    // uneven lists, in one of several batches
                    let (c, d) = crate::gen::flags(r);
                    let n = r.gen_range(1, 4);
                    let odd = r.gen_range(0, n);
                    let mut v = vec![];
                    for b in 0..n {
                        let (m, e) = pool.msg(r);
                        let l = r.gen_range(0, 4);
                        let (mut ks, mut ss) = (vec![], vec![]);
                        for _ in 0..l { let i = r.gen_range(0, pool.sk.len()); ss.push(pool.sign(i, &m, &e, c, d, false, r)); ks.push(pool.pk[i].clone()); }
                        if b == odd { for _ in 0..r.gen_range(1, 3) { let i = r.gen_range(0, pool.sk.len()); if r.gen() { ss.push(pool.sign(i, &m, &e, c, d, false, r)); } else { ks.push(pool.pk[i].clone()); } } if ks.len() == ss.len() { ks.push(pool.pk[0].clone()); } }
                        v.push((m, e, ks, ss));
                    }
                    let op = Op::Strict(v, c, d);
                    match during(&op, || op.call(r, &mut keep)) {
                        Err(e) => run.violation("batch_verify_strict", format!("{}: {}", op.show(), e)),
                        Ok(o) => { run.eval(op.show(), true); run.count("uneven_batches", 1); run.check(!o.ok && o.nums[odd] == 0, "batch_verify_strict", || format!("{}: batch {} has uneven lists, yet the verdicts are {} {:?}", op.show(), odd, o.ok, o.nums)); }
                    }
                }
                _ => {
                    // a hasher that does not exist
                    let i = r.gen_range(0, pool.sk.len());
                    let (m, e) = pool.msg(r);
                    let s = pool.sign(i, &m, &e, false, false, false, r);
                    let op = match r.gen_range(0, 6) {
                        0 => Op::Sign(pool.sk[i].clone(), m, e, false, true),
                        1 => Op::Verify(pool.pk[i].clone(), m, e, s, false, true),
                        2 => { let n = r.gen_range(0, 4); Op::Batch((0..n).map(|_| (m.clone(), e.clone(), pool.pk[i].clone(), s.clone())).collect(), false, true) }
                        _ => {
                            // also batches in which there is nothing to verify
                            let n = r.gen_range(1, 4);
                            Op::Strict((0..n).map(|_| { let l = r.gen_range(0, 3); (m.clone(), e.clone(), vec![pool.pk[i].clone(); l], vec![s.clone(); l]) }).collect(), false, true)
                        }
                    };
                    let signs = matches!(op, Op::Sign(..));
                    match during(&op, || op.call(r, &mut keep)) {
                        Err(e) => run.violation("flags", format!("{}: {}", op.show(), e)),
                        Ok(o) => { run.eval(op.show(), true); run.count("unsupported_flags", 1); run.check(!o.ok || (!signs && !o.nums.is_empty() && o.nums.iter().all(|v| *v == 0)), "flags", || format!("{}: reports {} {:?}", op.show(), o.ok, o.nums)); }
                    }
                    let _ = release_all(&mut keep);
                }
            }
        }
    });
    snark(&run);
    for f in ["deserialize_private_key", "deserialize_public_key", "deserialize_public_key_cached", "deserialize_signature", "compress_signature", "compress_pubkey", "uneven_batches", "unsupported_flags", "malformed_proof_calls"] { run.require(f, 20); }
    run.require("certainly_malformed", 200);
    run.assume("lengths describe readable memory; compressing judges lengths and reducedness of coordinates, not whether they are those of a point");
    run.finish()
}
/// malformed bytes offered to the verification of proofs
fn snark(run: &Run) {
    use crate::f05::{self, Ends};
    run.par(8, |_, r| {
        let t0 = run.elapsed().as_secs_f64();
        while run.elapsed().as_secs_f64() - t0 < run.pick(8.0, 120.0) {
            let mut c = Ends::golden(r);
            let what = match r.gen_range(0, 7) {
                0 => { let n = r.gen_range(0, c.vk.len()); c.vk.truncate(n); "truncated key" }
                1 => { let n = r.gen_range(0, c.proof.len()); c.proof.truncate(n); "truncated proof" }
                2 => { let n = r.gen_range(0, c.vk.len()); for x in c.vk[n..].iter_mut().take(100) { *x = r.gen(); } "noise in the key" }
                3 => { let n = r.gen_range(0, c.proof.len()); for x in c.proof[n..].iter_mut().take(100) { *x = r.gen(); } "noise in the proof" }
                4 => { let e = if r.gen() { &mut c.first } else { &mut c.last }; let n = r.gen_range(0, e.keys.len()); for x in e.keys[n..].iter_mut().take(50) { *x = r.gen(); } "noise in the keys of a block" }
                5 => { let n = r.gen_range(0, c.vk.len()); c.vk[n] ^= 1 << r.gen_range(0, 8); "one bit of the key" }
                _ => { let n = r.gen_range(0, c.proof.len()); c.proof[n] ^= 1 << r.gen_range(0, 8); "one bit of the proof" }
            };
            let say = f05::show(&c);
            crate::f01::NOW.with(|n| *n.borrow_mut() = Some(format!("verify with {}: {}", what, say)));
            let v = c.ffi(r);
            crate::f01::NOW.with(|n| *n.borrow_mut() = None);
            run.eval((what, &say), true);
            run.count("malformed_proof_calls", 1);
            // (the unused high bits of an encoding may be what was flipped: the library then decides, F05)
            if let Ok(true) = v { if what.starts_with("truncated") { run.violation("verify", format!("accepts a {}: {}", what, say)); } else { run.count("harmless_changes", 1); } }
            if let Err(e) = v { run.violation("verify-protocol", e); }
        }
    });
}
