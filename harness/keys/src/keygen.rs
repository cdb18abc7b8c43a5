//! K08: key generation draws uniformly from the generator it is given and from nothing else; public keys.
use crate::common::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use mon::rand::{Error, RngCore, SeedableRng};
use mon::uniform::{below_order, Draws};
use std::sync::Mutex;

/// a generator that counts what is drawn from it; its first words may be scripted
#[derive(Clone)]
struct Counting { inner: Rng8, script: Vec<u64>, bytes: u64, calls: u64 }
impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 { self.bytes += 4; self.calls += 1; match self.script.pop() { Some(w) => w as u32, None => self.inner.next_u32() } }
    fn next_u64(&mut self) -> u64 { self.bytes += 8; self.calls += 1; match self.script.pop() { Some(w) => w, None => self.inner.next_u64() } }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.bytes += b.len() as u64; self.calls += 1; match self.script.pop() { Some(w) => for (i, x) in b.iter_mut().enumerate() { *x = (w >> (8 * (i % 8))) as u8 }, None => self.inner.fill_bytes(b) } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) }
}
fn script(r: &mut Rng8) -> Vec<u64> {
    let n = r.gen_range(0, 24);
    match r.gen_range(0, 6) { 0 | 1 => vec![], 2 => vec![0; n], 3 => vec![!0; n], 4 => { let w = r.gen(); vec![w; n] } _ => (0..n).map(|_| match r.gen_range(0, 4) { 0 => 0, 1 => !0, 2 => 1 << r.gen_range(0, 64), _ => r.gen() }).collect() }
}
fn le(k: &PrivateKey) -> Vec<u8> { let mut v = vec![]; let _ = k.serialize(&mut v); v }
/// k times the generator, one bit at a time
fn times(k: &[u8]) -> G2Projective {
    let g = G2Projective::prime_subgroup_generator();
    let mut acc = G2Projective::zero();
    for i in (0..256).rev() { acc = acc + acc; if k[i / 8] >> (i % 8) & 1 == 1 { acc = acc + g; } }
    acc
}
fn point(k: &PublicKey) -> G2Projective { *k.as_ref() }
fn enc(k: &PublicKey) -> Vec<u8> { let mut v = vec![]; let _ = k.serialize(&mut v); v }
/// limbs of zeros, ones, single bits, repetitions and complements of one another
fn patterned(r: &mut Rng8) -> Fr {
    let mut l = [0u64; 4];
    for i in 0..4 {
        let j = r.gen_range(0, 4);
        l[i] = match r.gen_range(0, 8) { 0 | 1 => 0, 2 => u64::MAX, 3 => 1 << r.gen_range(0, 64), 4 => r.gen(), 5 => l[j], 6 => l[j].wrapping_neg(), _ => !l[j] };
    }
    l[3] &= (1 << 60) - 1;
    let two64 = Fr::from(u64::MAX) + Fr::one();
    l.iter().rev().fold(Fr::zero(), |a, x| a * two64 + Fr::from(*x))
}
fn extreme(r: &mut Rng8) -> Fr {
    match r.gen_range(0, 13) { 9..=11 => patterned(r), 0 => Fr::zero(), 1 => Fr::one(), 2 => -Fr::one(), 3 => Fr::from(2u64).pow([r.gen_range(0u64, 252)]), 4 => Fr::from(2u64).pow([r.gen_range(0u64, 252)]) - Fr::one(), 5 => -Fr::from(r.gen::<u64>()), 6 => Fr::from(r.gen::<u64>()), 7 => Fr::from(2u64).inverse().unwrap(), _ => Fr::rand(r) }
}
fn public(run: &Run, k: &PrivateKey, r: &mut Rng8) {
    let b = le(k);
    let want = times(&b);
    run.count("public_keys", 1);
    let got = match run.no_panic("public", || format!("public key of {}", hex(&b)), || (k.to_public(), PublicKey::from(k), k.clone().to_public())) { Some(x) => x, None => return };
    run.check(point(&got.0) == want, "public", || format!("the public key of {} is {}, not that multiple of the generator", hex(&b), show2(&point(&got.0))));
    run.check(got.0 == got.1 && got.0 == got.2 && enc(&got.0) == enc(&got.1), "public-same", || format!("two public keys of {} differ", hex(&b)));
    run.check(want.is_zero() == k.as_ref().is_zero(), "oracle", || format!("oracle: {}", hex(&b)));
    // a decoded copy of the key has the same public key
    if let Ok(d) = PrivateKey::deserialize(&b[..]) { run.check(point(&d.to_public()) == want, "public-decoded", || format!("the decoded copy of {} has another public key", hex(&b))); }
    // sums of keys have the sums of public keys
    let o: PrivateKey = extreme(r).into();
    let s: PrivateKey = (*k.as_ref() + o.as_ref()).into();
    run.check(point(&s.to_public()) == want + point(&o.to_public()), "public-sum", || format!("public keys of {} and {} do not add up", hex(&b), hex(&le(&o))));
}
pub fn k08() {
    let run = Run::start("K08", "keys generated from equal generators (random seeds; generators that begin with zeros, ones, repeated or mixed words), from generators one draw apart, and millions in a row; bits, intervals, low byte, weights, distances and repetitions counted; public keys of generated and extreme keys against a double-and-add. Non-trivial: every generated key");
    let all: Mutex<Vec<String>> = Default::default();
    let per = run.pick(300_000, 6_000_000);
    run.par(8, |_, r| {
        // millions in a row from one generator
        let mut d = Draws::default();
        let mut g = Rng8::from_rng(&mut *r).unwrap();
        for i in 0..per { if i % 1024 == 0 && run.stopped() { break; } d.add(&le(&PrivateKey::generate(&mut g))); }
        run.count("keys_counted", d.len());
        all.lock().unwrap().extend(d.judge());
        let mut heads = Draws::default();
        while run.within(run.pick(25.0, 900.0)) {
            let s = script(r);
            let scripted = !s.is_empty();
            let (mut a, seed) = { let seed: [u8; 32] = r.gen(); (Counting { inner: Rng8::from_seed(seed), script: s.clone(), bytes: 0, calls: 0 }, seed) };
            let what = || format!("generator with seed {} beginning with {} scripted words {:x?}", hex(&seed), s.len(), s.iter().rev().take(6).collect::<Vec<_>>());
            let mut b = a.clone();
            let n = r.gen_range(1, 4);
            let make = |g: &mut Counting| (0..n).map(|_| PrivateKey::generate(g)).collect::<Vec<_>>();
            let (x, y) = match (catch(|| make(&mut a)), catch(|| { let mut v = vec![]; for _ in 0..n { v.push(PrivateKey::generate(&mut &mut b)); } v })) { (Ok(x), Ok(y)) => (x, y), _ => { run.violation("generate", format!("generation panics: {}", what())); continue; } };
            run.eval((seed, s.len(), n), true);
            run.count(if scripted { "scripted_generators" } else { "random_generators" }, 1);
            run.state("draws", (a.bytes, a.calls));
            run.check(x.iter().zip(&y).all(|(a, b)| le(a) == le(b)) && a.next_u64() == b.next_u64(), "determined", || format!("two equal generators give different keys or are left in different states: {}", what()));
            run.check(a.bytes >= 32 * n as u64, "drawn", || format!("{} keys from {} drawn bytes: {}", n, a.bytes, what()));
            for k in &x { run.check(below_order(&le(k)), "range", || format!("key {} is not below the group order: {}", hex(&le(k)), what())); }
            if !scripted {
                heads.add(&le(&x[0]));
                for w in x.windows(2) { run.check(le(&w[0]) != le(&w[1]), "repeated", || format!("the same key twice in a row: {}", what())); }
                // a generator one word ahead gives another key
                let mut c = Rng8::from_seed(seed);
                c.next_u64();
                let k = PrivateKey::generate(&mut c);
                run.check(le(&k) != le(&x[0]), "state-ignored", || format!("the same key from a generator one word ahead: {}", what()));
            }
            if r.gen_bool(0.3) { public(&run, &x[0], r); } else if r.gen_bool(0.3) {
                let f = extreme(r);
                let k: PrivateKey = f.into();
                run.check(*k.as_ref() == f, "wrapped", || "a key made of a scalar holds another".into());
                public(&run, &k, r);
            }
            run.sample(|| format!("{} -> {}", what(), hex(&le(&x[0]))));
        }
        run.count("first_keys_counted", heads.len());
        all.lock().unwrap().extend(heads.judge());
    });
    for t in all.into_inner().unwrap().into_iter().take(20) { run.violation("uniform", t); }
    run.require("keys_counted", 1_000_000);
    run.require("public_keys", 200);
    run.require("scripted_generators", 200);
    run.require("random_generators", 200);
    run.assume("statistical thresholds leave a chance of a false alarm below 1e-9; the field's own sampling comes from the stand-in in /verif/shim, so what is judged is the use the library makes of it");
    run.finish()
}
