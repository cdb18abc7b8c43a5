//! K05: strict batches under correlated errors; a monitor on the exponents the code draws.
use crate::common::*;
use ark_ec::msm::record_scalars;

fn fr_of(l: &[u64]) -> Fr {
    let sh = Fr::from(1u64 << 32).square();
    l.iter().rev().fold(Fr::zero(), |a, w| a * sh + Fr::from(*w))
}
/// exponents of one verification: the scalar vectors of the right length the code multiplied with
fn learn(rec: &[Vec<Vec<u64>>], n: usize) -> Option<Vec<Fr>> { rec.iter().find(|v| v.len() == n).map(|v| v.iter().map(|l| fr_of(l)).collect()) }

pub fn k05() {
    let run = Run::start("K05", "a case is one batch (entries, error pattern, order); nontrivial: at least one entry");
    run.require("honest batch", 30); run.require("cancelling errors", 300); run.require("batches by attack kind", 8);
    let secs = run.pick(30.0, 1200.0);
    // bits of each exponent position that were ever seen set / clear, and repeated vectors
    let seen: std::sync::Mutex<std::collections::HashMap<(usize, usize), ([u64; 4], [u64; 4], u64)>> = Default::default();
    let drawn: std::sync::Mutex<std::collections::HashSet<[u64; 4]>> = Default::default();
    run.par(8, |t, r| {
        let mut n = t;
        let mut learned: std::collections::HashMap<usize, Vec<Fr>> = Default::default();
        while run.within(secs) {
            n += 1;
            let len = if n == t + 1 && t > 5 { if t == 6 { r.gen_range(520, 1024) } else { r.gen_range(1030, 1300) } } else { match r.gen_range(0, 20) { 0 => 0, 1 => 1, 2..=9 => 2, 10..=13 => 3, 14 => r.gen_range(20, 41), 15 if n % 11 == 0 => r.gen_range(200, 330), 16 if n % 7 == 0 => r.gen_range(64, 200), _ => r.gen_range(2, 10) } };
            let hi = if n % 17 == 0 { REAL[n % 4] } else { Hi::Cheap };
            let (m, e) = msg(r);
            let h = hi.hash(SIG, &m, &e).unwrap();
            let mut ks: Vec<Fr> = (0..len).map(|_| if len > 50 { Fr::from(r.gen::<u64>()) } else { scalar(r) }).collect();
            if len > 1 && r.gen_range(0, 4) == 0 { let (i, j) = (r.gen_range(0, len), r.gen_range(0, len)); ks[i] = ks[j]; }
            if len > 0 && r.gen_range(0, 12) == 0 { let i = r.gen_range(0, len); ks[i] = Fr::zero(); }
            // deltas are multiples of the hash, so an entry is valid exactly when its delta is zero
            let mut d = vec![Fr::zero(); len];
            let kind = if len == 0 { 0 } else { r.gen_range(0, 11) };
            let small = |r: &mut Rng8| { let c = Fr::from(r.gen_range(1u64, 5)); if r.gen() { c } else { -c } };
            let (i, j) = if len > 1 { let i = r.gen_range(0, len); let j = (i + 1 + r.gen_range(0, len - 1)) % len; (i, j) } else { (0, 0) };
            let x = scalar(r);
            let name = match kind {
                0 | 1 => "honest",
                2 => { d[i] = x; "single error" }
                3 if len > 1 => { d[i] = x; d[j] = -x; "opposite errors" }
                4 if len > 1 => { d[i] = x * small(r); d[j] = x * small(r); "small multiples" }
                5 if len > 2 => { for v in d.iter_mut() { *v = x * small(r); } "small multiples everywhere" }
                6 if len > 1 => { d[i] = ks[j] - ks[i]; d[j] = ks[i] - ks[j]; "two signatures swapped" }
                7 if len > 2 => { let s: Vec<Fr> = (0..len).map(|a| ks[(a + 1) % len] - ks[a]).collect(); d = s; "signatures rotated" }
                8 if len > 1 => { // sum zero, and sum weighted by the position zero if three errors fit
                    d[i] = x; d[j] = -x;
                    if len > 2 { let c = len; let (p, q, s) = (0, c / 2, c - 1); d = vec![Fr::zero(); len]; d[p] = x * Fr::from((s - q) as u64); d[q] = -x * Fr::from((s - p) as u64); d[s] = x * Fr::from((q - p) as u64); }
                    "errors that cancel under weights linear in the position" }
                9 if len > 1 => { let w = Fr::from(2u64).pow([r.gen_range(1u64, 65)]); d[i] = x; d[j] = -x * w; "ratio a power of two" }
                10 if len > 1 => match learned.get(&len) { // cancel under the exponents seen last time
                    Some(rs) if !rs[j].is_zero() => { d[i] = x; d[j] = -x * rs[i] * rs[j].inverse().unwrap(); "cancel under earlier exponents" }
                    _ => { d[i] = x; d[j] = -x; "opposite errors" } },
                _ => { d[i] = x; "single error" }
            };
            // all alike messages, but the invalid entry may also be an invalid key
            let valid = d.iter().all(|v| v.is_zero());
            let mut b = Batch::new(&m, &e);
            let mut entries = vec![];
            for a in 0..len {
                let pk = rerep2(G2Projective::prime_subgroup_generator().mul(ks[a].into_repr()), r);
                let sg = rerep1(h.mul((ks[a] + d[a]).into_repr()), r);
                entries.push((pk, sg));
                b.add(pk.into(), sg.into());
            }
            let what = || format!("{} at {},{} of {} entries under {:?}, message {} extra {}", name, i, j, len, hi, short(&m), short(&e));
            run.eval((t, n), len > 0);
            run.count(if valid { "honest batch" } else { "cancelling errors" }, 1);
            run.state("batches by attack kind", name); run.state("batch size", len);
            let (v, rec) = record_scalars(|| catch(|| verdict(b.verify(&hi))));
            run.check(v == Ok(if valid { Verdict::Yes } else { Verdict::No }), name, || format!("strict batch said {:?}: {}", v, what()));
            if let Some(rs) = learn(&rec, len) {
                run.count("exponent vectors observed", 1);
                let mut s = seen.lock().unwrap();
                for (p, k) in rs.iter().enumerate().take(12) {
                    let w = k.into_repr().0;
                    let en = s.entry((len.min(13), p)).or_insert(([0; 4], [!0; 4], 0));
                    for q in 0..4 { en.0[q] |= w[q]; en.1[q] &= w[q]; }
                    en.2 += 1;
                }
                drop(s);
                // one vector by itself, and against all others: nothing is drawn twice (a constant one is no draw)
                {
                    let mut d = drawn.lock().unwrap();
                    if d.len() > 4_000_000 { d.clear(); }
                    let mut mine: std::collections::HashMap<[u64; 4], usize> = Default::default();
                    for (p, k) in rs.iter().enumerate() {
                        let w = k.into_repr().0;
                        if let Some(q) = mine.insert(w, p) { run.violation("repeated-exponents", format!("the exponents of entries {} and {} are equal, so errors that cancel between them pass: {}", q, p, what())); }
                        else if w != [1, 0, 0, 0] && !d.insert(w) { run.violation("repeated-exponents", format!("the exponent of entry {} was drawn before, in another batch: {}", p, what())); }
                    }
                }
                if len >= 64 {
                    let (or, and) = rs.iter().fold(([0u64; 4], [!0u64; 4]), |mut a, k| { let w = k.into_repr().0; for q in 0..4 { a.0[q] |= w[q]; a.1[q] &= w[q]; } a });
                    let vary: u32 = (0..4).map(|q| (or[q] & !and[q]).count_ones()).sum();
                    run.count("long exponent vectors judged", 1);
                    if vary < 100 { run.violation("weak-exponents", format!("the exponents of a batch of {} entries vary in {} bits only: {}", len, vary, what())); }
                }
                learned.insert(len, rs);
            }
            // the one-by-one variant, and each entry by itself
            if len <= 12 && n % 2 == 0 || n % 23 == 0 && len < 60 {
                let each = catch(|| verdict(b.verify_each(&hi)));
                run.count("one-by-one", 1);
                run.check(each == Ok(if valid { Verdict::Yes } else { Verdict::No }), "verify-each", || format!("one-by-one said {:?}: {}", each, what()));
            }
            if n % 6 == 0 && len > 0 {
                let a = r.gen_range(0, len);
                let (pk, sg) = entries[a];
                let one = catch(|| verdict(PublicKey::from(pk).verify(&m, &e, &Signature::from(sg), &hi)));
                run.check(one == Ok(if d[a].is_zero() { Verdict::Yes } else { Verdict::No }), "individual", || format!("entry {} alone said {:?}: {}", a, one, what()));
            }
            // verifying again must not carry anything over, and adding after verifying counts
            if n % 5 == 0 && len < 20 {
                let v2 = catch(|| verdict(b.verify(&hi)));
                run.check(v2 == v, "again", || format!("second verification said {:?} after {:?}: {}", v2, v, what()));
                let bad = r.gen::<bool>();
                let k = scalar(r);
                b.add(G2Projective::prime_subgroup_generator().mul(k.into_repr()).into(), h.mul((if bad { k + Fr::one() } else { k }).into_repr()).into());
                let v3 = catch(|| verdict(b.verify(&hi)));
                run.count("added after verifying", 1);
                run.check(v3 == Ok(if valid && !bad { Verdict::Yes } else { Verdict::No }), "add-after", || format!("after adding a {} entry: {:?}: {}", if bad { "bad" } else { "good" }, v3, what()));
            }
            if n % 19 == 0 { let v = catch(|| verdict(b.verify(&Hi::Fail))); run.check(v == Ok(Verdict::Hash), "hash-error", || format!("{:?} although hashing fails: {}", v, what())); }
            // another message or extra data than the batch's never verifies a nonempty batch with nonzero keys
            if n % 7 == 0 && valid && len > 0 {
                let (m2, e2) = mutate(r, &m, &e);
                if !same_input(&hi, &m, &e, &m2, &e2) && ks.iter().any(|k| !k.is_zero()) {
                    let mut b2 = Batch::new(&m2, &e2);
                    for (p, s) in &entries { b2.add((*p).into(), (*s).into()); }
                    let v = catch(|| verdict(b2.verify(&hi)));
                    run.count("other message", 1);
                    run.check(v == Ok(Verdict::No), "other-message", || format!("{:?}: {} presented with {} {}", v, what(), short(&m2), short(&e2)));
                }
            }
            run.sample(what);
        }
    });
    // a forger who knows the exponents wins: all but one of a batch must carry about 128 bits of fresh randomness
    let mut weak: std::collections::HashMap<usize, Vec<(usize, u32)>> = Default::default();
    for ((len, p), (or, and, times)) in seen.lock().unwrap().iter() {
        if *times < 60 || *len == 13 { continue; }
        let vary: u32 = (0..4).map(|q| (or[q] & !and[q]).count_ones()).sum();
        run.state("exponent positions judged", (len, p));
        if vary < 100 { weak.entry(*len).or_default().push((*p, vary)); }
    }
    for (len, w) in weak {
        let constant_one_allowed = w.len() == 1 && w[0].1 == 0;
        if !constant_one_allowed && len > 1 || (len == 1 && w[0].1 > 0 && w[0].1 < 100) { run.violation("weak-exponents", format!("in batches of {} entries these exponent positions vary in so few bits (position, bits): {:?}; an invalid entry passes with a probability that is not negligible", len, w)); }
    }
    run.assume("exponents are observed through the multi-scalar multiplication of the stand-in ark-ec; an implementation that does not use it is judged by the attacks alone");
    run.finish()
}
