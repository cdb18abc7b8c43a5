//! H03: the composite hasher against an independent evaluation of the windowed hash.
use crate::direct::{call, Op, OPS};
use ark_crypto_primitives::crh::{bowe_hopwood, pedersen};
use ark_ec::{ModelParameters, ProjectiveCurve, TEModelParameters};
use ark_ed_on_bw6_761::{EdwardsParameters as E, EdwardsProjective};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use bls_crypto::hashers::{composite::{CompositeHasher, COMPOSITE_HASHER, CRH}, Hasher};
use bls_crypto::BLSError;
use mon::{blake, catch, gen, rand::Rng, rand::SeedableRng, short, Run};

type F = <E as ModelParameters>::BaseField;
const WINDOW: usize = 93;
const WINDOWS: usize = 560;
#[derive(Clone)]
struct W;
impl pedersen::Window for W { const WINDOW_SIZE: usize = WINDOW; const NUM_WINDOWS: usize = WINDOWS; }
/// affine twisted Edwards point with denominators kept: (X:Y:Z)
#[derive(Clone, Copy)]
struct Pt(F, F, F);
fn add(p: Pt, q: Pt) -> Pt {
    // textbook addition law in projective coordinates: x3=(x1y2+y1x2)/(1+k), y3=(y1y2-a x1x2)/(1-k), k=d x1x2y1y2
    let (a, d) = (<E as TEModelParameters>::COEFF_A, <E as TEModelParameters>::COEFF_D);
    let zz = p.2 * q.2;
    let (xx, yy) = (p.0 * q.0, p.1 * q.1);
    let k = d * xx * yy;
    let z4 = zz * zz;
    let (one_p, one_m) = (z4 + k, z4 - k);
    let x = (p.0 * q.1 + p.1 * q.0) * zz * one_m;
    let y = (yy - a * xx) * zz * one_p;
    Pt(x, y, one_p * one_m)
}
fn neg(p: Pt) -> Pt { Pt(-p.0, p.1, p.2) }
pub struct Model { gens: Vec<Vec<[Pt; 2]>> }
impl Model {
    pub fn new() -> Model {
        let seed = blake::blake2s(&blake::Param { digest: 32, fanout: 1, depth: 1, personal: *b"UL_prngs", ..Default::default() }, b"ULTRALIGHT PRNG SEED");
        let mut s = [0u8; 32];
        s.copy_from_slice(&seed);
        let mut rng = mon::rand_chacha::ChaChaRng::from_seed(s);
        let g: Vec<Vec<EdwardsProjective>> = bowe_hopwood::CRH::<E, W>::create_generators(&mut rng);
        let gens = g.iter().map(|seg| {
            let a = EdwardsProjective::batch_normalization_into_affine(seg);
            a.iter().map(|p| { let p = Pt(p.x, p.y, F::one()); [p, add(p, p)] }).collect()
        }).collect();
        Model { gens }
    }
    /// little-endian x coordinate of the hash
    pub fn crh(&self, m: &[u8]) -> Vec<u8> {
        let bit = |i: usize| i < m.len() * 8 && (m[i / 8] >> (i % 8)) & 1 == 1;
        let chunks = (m.len() * 8 + 2) / 3;
        let mut acc = Pt(F::zero(), F::one(), F::one());
        for c in 0..chunks {
            let [g, g2] = self.gens[c / WINDOW][c % WINDOW];
            // (1 + b0 + 2 b1) * (-1)^b2
            let mut e = g;
            if bit(3 * c) { e = add(e, g); }
            if bit(3 * c + 1) { e = add(e, g2); }
            if bit(3 * c + 2) { e = neg(e); }
            acc = add(acc, e);
        }
        let x = acc.0 * acc.2.inverse().unwrap();
        x.into_repr().to_bytes_le()
    }
}
pub fn h03() -> ! {
    let run = Run::start("H03", "call of one operation of the composite hasher on (domain, message, length), compared with an independent evaluation of the windowed hash and of BLAKE2Xs; non-trivial: non-empty message");
    let model = Model::new();
    run.check(model.crh(&[]) == vec![0u8; 48], "model", || "the model does not map the empty message to zero".into());
    let fresh = CompositeHasher::<CRH>::new().unwrap();
    let cap = WINDOW * WINDOWS * 3 / 8;
    let one = |h: &CompositeHasher<CRH>, who: &str, op: Op, d: &[u8], m: &[u8], n: usize| {
        let what = || format!("{} {:?} domain={} message={} length={}", who, op, mon::hex(d), short(m), n);
        run.eval((op, d, m, n), !m.is_empty());
        run.count(&format!("{:?} calls", op), 1);
        run.state("message length", m.len());
        match catch(|| call(h, op, d, m, n)) {
            Err(p) => run.violation(&format!("{:?}-panic", op), format!("panicked ({}): {}", p, what())),
            Ok(Err(BLSError::DomainTooLarge(k))) if op != Op::Crh && d.len() > 8 => { run.count("refused", 1); run.check(k == d.len(), "wrong-length", || what()); }
            Ok(Err(e)) => run.violation(&format!("{:?}-error", op), format!("refused ({}): {}", e, what())),
            Ok(Ok(_)) if op != Op::Crh && d.len() > 8 => run.violation(&format!("{:?}-accepted", op), what()),
            Ok(Ok(v)) => {
                let want = match op { Op::Crh => model.crh(m), Op::Xof => blake::xof(d, m, n as u16), Op::Hash => blake::xof(d, &model.crh(m), n as u16) };
                run.check(v == want, &format!("{:?}-value", op), || format!("got {} expected {}: {}", short(&v), short(&want), what()));
            }
        }
    };
    let (budget, big) = (run.pick(20.0, 240.0), run.pick(3000, cap));
    run.par(8, |t, r| {
        let mut first = true;
        while run.within(budget) {
            // the longest messages the hash has room for, first
            let longest = first && t < 4;
            let m = if longest { gen::bytes(r, cap - [0, 1, 30, 100][t]) } else { gen::long(r, big.min(600), cap) };
            first = false;
            let dl = if r.gen_range(0, 6) == 0 { r.gen_range(0, 20) } else { r.gen_range(0, 9) };
            let d = gen::bytes(r, dl);
            let n = gen::len(r, 300);
            let op = if longest { run.count("longest messages", 1); Op::Crh } else { OPS[r.gen_range(0, 3)] };
            if r.gen() { one(&fresh, "fresh", op, &d, &m, n) } else { one(&COMPOSITE_HASHER, "shared", op, &d, &m, n) }
        }
    });
    let mut r = run.rng(2);
    for _ in 0..3 { let m = gen::bytes(&mut r, 20); run.sample(|| format!("crh({}) = {}", mon::hex(&m), mon::hex(&COMPOSITE_HASHER.crh(&[], &m, 0).unwrap_or_default()))); }
    run.assume("generators are sampled from the seeded stream by the stand-in of ark-ec; the repository's golden vectors were checked against it");
    run.require("distinct", 500);
    run.require("refused", 5);
    run.require("longest messages", 4);
    run.finish()
}
