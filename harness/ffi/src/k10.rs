//! K10: nothing is retained between calls but a bounded number of decoded keys and the last aggregated set.
use crate::{api::*, f01::tell_of_panics, gen::Pool, watch::here};
use bls_crypto::PublicKeyCache;
use std::collections::BTreeMap;
use std::sync::Mutex;

/// n different keys with their encodings
fn keys(r: &mut Rng8, n: usize) -> (Vec<PublicKey>, Vec<Vec<u8>>) {
    let s = Fr::rand(r);
    let (g, mut p) = (G2Projective::prime_subgroup_generator(), G2Projective::prime_subgroup_generator().mul(s.into_repr()));
    let mut v = vec![];
    for _ in 0..n { v.push(p); p += g; }
    let v: Vec<PublicKey> = v.into_iter().map(|p| p.into_affine().into_projective().into()).collect();
    let b = v.iter().map(bytes_of).collect();
    (v, b)
}
fn garbage(r: &mut Rng8) -> Vec<u8> {
    let mut b: Vec<u8> = (0..96).map(|_| r.gen()).collect();
    match r.gen_range(0, 3) { 0 => b[95] = 0x3f, 1 => { b[47] &= 1; b[95] &= 0x80; }, _ => { let n = r.gen_range(0, 96); b.truncate(n); } }
    b
}
/// the cache itself or the one behind the C interface
trait Cached { fn de(&mut self, b: &[u8]) -> bool; fn agg(&mut self, k: &[Pk]); }
impl Cached for PublicKeyCache {
    fn de(&mut self, b: &[u8]) -> bool { self.deserialize(b.to_vec()).is_ok() }
    fn agg(&mut self, k: &[Pk]) { let _ = self.aggregate(k.iter().map(|k| k.get().clone()).collect()); }
}
struct C(Rng8);
impl Cached for C {
    fn de(&mut self, b: &[u8]) -> bool { let mut keep = vec![]; let o = Op::De(Kind::PkCached, b.to_vec()).call(&mut self.0, &mut keep); let _ = release_all(&mut keep); o.map_or(false, |o| o.ok) }
    fn agg(&mut self, k: &[Pk]) { let mut keep = vec![]; let _ = Op::AggPk(k.to_vec()).call(&mut self.0, &mut keep); let _ = release_all(&mut keep); }
}
fn flood(run: &Run, who: &str, c: &mut dyn Cached, r: &mut Rng8) {
    let total = run.pick(3600, 20000);
    let warm = 1400;
    let (pks, enc) = keys(r, warm + total);
    let owned: Vec<Pk> = pks.iter().take(600).map(|k| own_pk(k.clone())).collect();
    let judge = |what: &str, calls: usize, grown: i64, allowed: i64| {
        run.eval((who, what), true);
        run.count(&format!("{}: {}", who, what), calls as u64);
        run.sample(|| format!("{}: {} more calls ({}) leave {} bytes behind, at most {} allowed", who, calls, what, grown, allowed));
        run.check(grown <= allowed, what, || format!("{}: {} calls of the kind \"{}\" after {} others leave {} bytes behind, more than {}", who, calls, what, warm, grown, allowed));
    };
    let mut ok = 0;
    for b in &enc[..warm] { ok += c.de(b) as usize; }
    let a = here();
    for b in &enc[warm..] { ok += c.de(b) as usize; }
    let grown = here() - a;
    run.check(ok == enc.len(), "decodes", || format!("{}: {} of {} valid keys decoded", who, ok, enc.len()));
    judge("valid keys decoded", total, grown, total as i64 * 30);
    let bad: Vec<Vec<u8>> = (0..total).map(|_| garbage(r)).collect();
    let a = here();
    for b in &bad { c.de(b); }
    judge("refused encodings", total, here() - a, 20_000);
    let a = here();
    for i in 0..total { c.de(&enc[enc.len() - 1 - i % 300]); }
    judge("keys decoded again", total, here() - a, 20_000);
    let long: Vec<Vec<u8>> = (0..total / 2).map(|i| { let mut b = enc[i % 7].clone(); b.extend_from_slice(&(i as u32).to_le_bytes()); b }).collect();
    let a = here();
    for b in &long { c.de(b); }
    judge("encodings with bytes after them", long.len(), here() - a, 60_000);
    // aggregated sets: sliding, random, empty ones
    let sets: Vec<Vec<Pk>> = (0..total / 3).map(|i| match i % 4 { 0 => vec![], 1 => owned[i % 550..i % 550 + 40].to_vec(), 2 => owned[i % 550..i % 550 + 1].to_vec(), _ => { let mut v = owned.clone(); v.shuffle(r); v.truncate(r.gen_range(0, 60)); v } }).collect();
    for s in sets.iter().take(40) { c.agg(s); }
    c.agg(&owned[..60]);
    let a = here();
    for s in &sets { c.agg(s); }
    c.agg(&owned[60..120]);
    judge("aggregated sets", sets.len(), here() - a, 20_000);
}
pub fn k10() {
    let run = Run::start("K10", "bytes that stay allocated after a call whose results were released, by call, counted by an allocator that knows the calling thread: random fresh calls of every function of the C interface and of the library beneath; floods of the key cache with valid, refused, repeated and over-long encodings and changing sets. Non-trivial: every call");
    tell_of_panics("K10");
    unsafe { crate::sys::init() };
    let kept: Mutex<BTreeMap<(&str, &str), (u64, u64, i64)>> = Default::default();
    run.par(8, |t, r| {
        if t == 0 {
            let a = here();
            let mut c = PublicKeyCache::new();
            flood(&run, "key cache", &mut c, r);
            c.clear_cache();
            // (a table that is emptied may keep its room for as many entries as it held: twice without counting)
            let mut b = 0;
            for k in 0..8 {
                if k == 2 { b = here(); }
                let (pks, enc) = keys(r, 560);
                for b in enc { let _ = c.deserialize(b); }
                let _ = c.aggregate(pks);
                c.clear_cache();
                run.count("clearings", 1);
            }
            let left = here() - b;
            run.check(left < 30_000, "cleared", || format!("six times filling and clearing a cache leave {} bytes behind", left));
            let empty = { let a = here(); let c = PublicKeyCache::new(); let n = here() - a; drop(c); n };
            drop(c);
            let left = here() - a;
            run.count("bytes_of_an_empty_cache", empty.max(0) as u64);
            // (the monitor's own records are made in this thread too)
            run.check(left < 60_000, "dropped", || format!("a cache that is gone leaves {} bytes behind", left));
            return;
        }
        if t == 1 { let x = Rng8::clone(r); return flood(&run, "C interface", &mut C(x), r); }
        let mut seen: BTreeMap<(&str, &str), (u64, u64, i64)> = Default::default();
        let mut pool = Pool::new(r, 8, false);
        let mut k = 0u64;
        while run.within(run.pick(30.0, 900.0)) {
            k += 1;
            if k % 300 == 0 { pool = Pool::new(r, 8, false); }
            let op = pool.op(r);
            if matches!(op, Op::AggPk(_) | Op::AggSub(..) | Op::De(Kind::PkCached, _)) { continue; }
            let mut keep = Vec::with_capacity(64);
            let what = op.show().chars().take(300).collect::<String>();
            for side in ["C interface", "library"] {
                if side == "library" && matches!(op, Op::Generate) { continue; }
                let a = here();
                if side == "library" { let _ = catch(|| op.expect()); } else { let o = op.call(r, &mut keep); drop(o); let _ = release_all(&mut keep); }
                let left = here() - a;
                run.eval((side, t, k), true);
                let e = seen.entry((side, op.name())).or_default();
                e.0 += 1;
                if e.0 > 24 && left > 0 { e.1 += 1; e.2 += left; }
                run.sample(|| format!("{}: {} leaves {} bytes behind", side, what, left));
            }
        }
        let mut all = kept.lock().unwrap();
        for (k, v) in seen { let e = all.entry(k).or_default(); e.0 += v.0; e.1 += v.1; e.2 += v.2; }
    });
    for ((side, name), (calls, times, bytes)) in kept.into_inner().unwrap() {
        run.count(&format!("{} calls", side), calls);
        run.state("functions", (side, name));
        run.check(times < 12 || bytes < 2000, "retained", || format!("{} ({}): of {} calls {} left {} bytes behind in all", name, side, calls, times, bytes));
    }
    run.require("functions", 40);
    run.require("C interface calls", 2000);
    run.require("library calls", 2000);
    run.require("key cache: valid keys decoded", 1000);
    run.require("C interface: valid keys decoded", 1000);
    run.assume("memory is what the Rust allocator hands out; of the cache's, 512 decoded keys and the last aggregated set are taken as allowed");
    run.finish()
}
