//! K07: the cache against plain decoding and plain sums, over random and adversarial histories.
use crate::common::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

fn enc(p: &G2Projective) -> Vec<u8> { let mut v = vec![]; PublicKey::from(*p).serialize(&mut v).unwrap(); v }
fn omega() -> Fq { let g = (2u64..).map(Fq::from).find_map(|g: Fq| { let e = g.pow(&third()); if e.is_one() { None } else { Some(e) } }).unwrap(); g }
/// (q-1)/3 by long division of the modulus minus one
fn third() -> [u64; 6] { use ark_ff::FpParameters; let m = <<Fq as PrimeField>::Params as FpParameters>::MODULUS.0; let mut o = [0u64; 6]; let mut rem = 0u128; for i in (0..6).rev() { let c = (rem << 64) | (if i == 0 { m[0] - 1 } else { m[i] }) as u128; o[i] = (c / 3) as u64; rem = c % 3; } o }

pub fn k07() {
    let run = Run::start("K07", "a case is one call in a history on one cache (its position, kind and argument); nontrivial: the cache is not fresh");
    run.require("decoded from cache or afresh", 2000); run.require("aggregated", 300); run.require("refused as plain decoding does", 100); run.require("histories with eviction", 4); run.require("aggregated sets of over 200", 20);
    let secs = run.pick(25.0, 900.0);
    let (w, i) = (omega(), (-Fq::one()).sqrt().unwrap());
    // a pool with relatives: negations, the same y with other x, the same half of x
    let mut pool: Vec<G2Projective> = vec![];
    let mut r0 = run.rng(7);
    for n in 0..40 {
        let p = g2(&mut r0);
        let a = p.into_affine();
        pool.push(p);
        if n % 2 == 0 { pool.push(-p); }
        if n % 3 == 0 { let mut x = a.x; x.mul_assign_by_fp(&w); let q = G2Affine::new(x, a.y, false); assert!(q.is_on_curve() && q.is_in_correct_subgroup_assuming_on_curve()); pool.push(q.into_projective()); x.mul_assign_by_fp(&w); pool.push(G2Affine::new(x, a.y, false).into_projective()); }
        if n % 3 == 1 { let x = Fq2::new(-a.x.c0, a.x.c1); let y = Fq2::new(a.y.c0 * i, -a.y.c1 * i); let q = G2Affine::new(x, y, false); assert!(q.is_on_curve() && q.is_in_correct_subgroup_assuming_on_curve()); pool.push(q.into_projective()); pool.push(-q.into_projective()); }
    }
    pool.push(G2Projective::zero());
    pool.push(G2Projective::prime_subgroup_generator());
    let mut extra = G2Projective::prime_subgroup_generator().mul([r0.gen::<u64>()]);
    // many more keys than the cache holds (cheap to make, costly to decode: decoded in the background of each history)
    let mut many = vec![];
    let narrow = pool.len();
    for i in 0..1100 { extra = extra.double(); many.push(enc(&extra)); if i % 2 == 0 { pool.push(extra); } }
    let encs: Vec<Vec<u8>> = pool.iter().map(enc).collect();
    let (pool, encs, many) = (&pool, &encs, &many);
    run.par(8, |t, r| {
        let mut hist = 0;
        while run.within(secs) {
            hist += 1;
            let mut c = PublicKeyCache::new();
            let mut log: Vec<String> = vec![];
            let mut cur: Vec<usize> = vec![];
            let steps = r.gen_range(20, 120);
            let flood = hist % 3 == 0;
            // every sixth history is over sets of hundreds of keys
            let wide = hist % 6 == 1;
            let span = if wide { pool.len() } else { narrow };
            let steps = if wide { steps.min(40) } else { steps };
            let mut decoded = 0;
            for s in 0..steps {
                if !run.within(secs * 1.5) { break; }
                let mut dec = |c: &mut PublicKeyCache, b: &[u8], kind: &str, log: &mut Vec<String>| {
                    let plain = catch(|| PublicKey::deserialize(&b[..])).map(|x| x.map_err(|e| e.to_string()));
                    let got = catch(|| c.deserialize(b.to_vec())).map(|x| x.map_err(|e| e.to_string()));
                    log.push(format!("decode {} {}", kind, short(b)));
                    run.eval((t, hist, s, b), s > 0);
                    let ok = match (&plain, &got) { (Ok(Ok(a)), Ok(Ok(b))) => a == b, (Ok(Err(_)), Ok(Err(_))) => { run.count("refused as plain decoding does", 1); true } _ => false };
                    run.count("decoded from cache or afresh", 1);
                    run.check(ok, &format!("decode {}", kind), || format!("{:?} instead of {:?} after {}", got, plain, log[log.len().saturating_sub(12)..].join("; ")));
                };
                match r.gen_range(0, 10) {
                    0..=3 => {
                        let i = r.gen_range(0, span);
                        let mut b = encs[i].clone();
                        let k = match r.gen_range(0, 12) {
                            0 => { b.truncate(r.gen_range(0, 96)); "truncated" }
                            1 => { b.extend(gen::bytes(r, 3)); "followed by other bytes" }
                            2 => { let j = r.gen_range(0, 768); b[j / 8] ^= 1 << (j % 8); "one bit off" }
                            3 => { b[95] ^= 0x80; "other sign" }
                            4 => { let o = &encs[r.gen_range(0, pool.len())]; b[48..].copy_from_slice(&o[48..]); "halves of two keys" }
                            5 => { b = gen::blob(r, 100); "random" }
                            6 => { b[95] |= 0x40; "identity flag" }
                            _ => "good",
                        };
                        run.state("decoding kinds", k);
                        dec(&mut c, &b, k, &mut log);
                        // right after: the good one again
                        if r.gen() { dec(&mut c, &encs[i], "good", &mut log); }
                    }
                    4..=7 => {
                        // the next set: mostly overlapping with the present one
                        let mut set = cur.clone();
                        match r.gen_range(0, 8) {
                            0 => set.clear(),
                            1 => { set = (0..span).filter(|_| r.gen()).collect(); }
                            2 => { set = (0..span).filter(|x| !cur.contains(x)).collect(); }
                            _ => { for _ in 0..r.gen_range(0, 5) { if !set.is_empty() && r.gen() { let i = r.gen_range(0, set.len()); set.remove(i); } } for _ in 0..r.gen_range(0, 5) { let i = r.gen_range(0, span); if !set.contains(&i) { set.push(i); } } }
                        }
                        for i in (1..set.len()).rev() { let j = r.gen_range(0, i + 1); set.swap(i, j); }
                        let re = r.gen_range(0, 3) == 0;
                        let via = r.gen_range(0, 4) == 0;
                        let keys: Vec<PublicKey> = set.iter().map(|i| if via { c.deserialize(encs[*i].clone()).unwrap() } else if re { PublicKey::from(rerep2(pool[*i], r)) } else { PublicKey::from(pool[*i]) }).collect();
                        let want = set.iter().fold(G2Projective::zero(), |a, i| a + pool[*i]);
                        log.push(format!("aggregate {:?}{}{}", set, if re { " other representations" } else { "" }, if via { " decoded" } else { "" }));
                        run.eval((t, hist, s, &set), s > 0);
                        run.count("aggregated", 1);
                        if set.len() > 200 { run.count("aggregated sets of over 200", 1); }
                        run.state("sizes of aggregated sets", set.len());
                        let got = catch(|| c.aggregate(keys));
                        run.check(got.as_ref().map(|g| *g.as_ref() == want) == Ok(true), "aggregate", || format!("{:?} is not the sum, after {}", got, log[log.len().saturating_sub(12)..].join("; ")));
                        // what was returned equals the stateless aggregate
                        cur = set;
                    }
                    8 if r.gen_range(0, 4) == 0 => { log.push("clear".into()); if catch(|| c.clear_cache()).is_err() { run.violation("clear", log.join("; ")); } run.count("cleared", 1); cur.clear(); }
                    _ if flood && decoded < 700 => {
                        // walk through keys, coming back to early ones across the capacity of 512
                        for _ in 0..60 { let b = &many[decoded % many.len()]; dec(&mut c, b, "flood", &mut log); decoded += 1; }
                        if decoded > 520 { for k in 0..8 { dec(&mut c, &many[k], "long ago", &mut log); } dec(&mut c, &many[decoded - 513], "just evicted", &mut log); dec(&mut c, &many[decoded - 500], "about to be evicted", &mut log); }
                    }
                    _ => {}
                }
            }
            if decoded > 520 { run.count("histories with eviction", 1); }
            run.count("histories", 1);
            run.sample(|| log.iter().take(12).cloned().collect::<Vec<_>>().join("; "));
        }
    });
    run.finish()
}
