//! H04, H05: hash-to-curve against a model of the first-valid-counter rule.
use ark_bls12_377::{Fq, Fq2, G1Projective, G2Projective};
use ark_ec::{short_weierstrass_jacobian::{GroupAffine, GroupProjective}, AffineCurve, ProjectiveCurve, SWModelParameters};
use ark_ff::{BigInteger, Field, FpParameters, PrimeField, SquareRootField, UniformRand, Zero};
use bls_crypto::hash_to_curve::{try_and_increment::{TryAndIncrement, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1}, try_and_increment_cip22::{TryAndIncrementCIP22, COMPOSITE_HASH_TO_G1_CIP22}, HashToCurve};
use bls_crypto::hashers::{composite::COMPOSITE_HASHER, DirectHasher, Hasher};
use bls_crypto::BLSError;
use mon::{catch, gen, rand::Rng, short, Rng8, Run};
use std::cell::RefCell;

type P1 = ark_bls12_377::g1::Parameters;
type P2 = ark_bls12_377::g2::Parameters;
const COMPAT: bool = cfg!(feature = "compat");

/// what the model needs of a source group
trait Grp: SWModelParameters + Sized {
    const BYTES: usize;
    const CAND: usize;
    fn x_of(b: &[u8]) -> Option<Self::BaseField>;
    fn larger(y: &Self::BaseField) -> bool;
    fn enc(x: &Self::BaseField) -> Vec<u8>;
    /// the cofactor, most significant digit first, base 10
    const COFACTOR_DEC: &'static str;
    const NAME: &'static str;
}
fn fq_of(b: &[u8]) -> Option<Fq> {
    // the low 377 bits, little endian; refused when not reduced
    let mut w = b[..48].to_vec();
    w[47] &= 1;
    let mut limbs = [0u64; 6];
    for i in 0..6 { let mut a = [0u8; 8]; a.copy_from_slice(&w[8 * i..8 * i + 8]); limbs[i] = u64::from_le_bytes(a); }
    let m = <<Fq as PrimeField>::Params as FpParameters>::MODULUS.0;
    let less = { let mut l = false; for i in (0..6).rev() { if limbs[i] != m[i] { l = limbs[i] < m[i]; break; } } l };
    if !less { return None; }
    let mut acc = Fq::zero();
    let sh = Fq::from(1u64 << 32);
    for i in (0..6).rev() { acc = acc * sh * sh + Fq::from(limbs[i]); }
    Some(acc)
}
fn fq_larger(y: &Fq) -> Option<bool> { if y.is_zero() { None } else { let n = -*y; Some(y.into_repr().to_bytes_be() > n.into_repr().to_bytes_be()) } }
impl Grp for P1 {
    const BYTES: usize = 48;
    const CAND: usize = 64;
    const COFACTOR_DEC: &'static str = "30631250834960419227450344600217059328";
    const NAME: &'static str = "G1";
    fn x_of(b: &[u8]) -> Option<Fq> { fq_of(b) }
    fn larger(y: &Fq) -> bool { fq_larger(y).unwrap_or(false) }
    fn enc(x: &Fq) -> Vec<u8> { x.into_repr().to_bytes_le() }
}
impl Grp for P2 {
    const BYTES: usize = 96;
    const CAND: usize = 96;
    const COFACTOR_DEC: &'static str = "7923214915284317143930293550643874566881017850177945424769256759165301436616933228209277966774092486467289478618404761412630691835764674559376407658497";
    const NAME: &'static str = "G2";
    fn x_of(b: &[u8]) -> Option<Fq2> { Some(Fq2::new(fq_of(&b[..48])?, fq_of(&b[48..96])?)) }
    fn larger(y: &Fq2) -> bool { fq_larger(&y.c1).or(fq_larger(&y.c0)).unwrap_or(false) }
    fn enc(x: &Fq2) -> Vec<u8> { [x.c0.into_repr().to_bytes_le(), x.c1.into_repr().to_bytes_le()].concat() }
}
#[derive(Debug, Clone, PartialEq)]
enum Decoded<F> { No, Identity, Point(F, F) }
fn decode<P: Grp>(b: &[u8]) -> Decoded<P::BaseField> {
    let last = b[P::BYTES - 1];
    let x = match P::x_of(b) { Some(x) => x, None => return Decoded::No };
    let want_larger = if COMPAT { last & 2 != 0 } else { last & 0x80 != 0 };
    if x.is_zero() && last & 0x40 != 0 { return Decoded::Identity; }
    let y2 = x.square() * x + P::COEFF_B;
    match y2.sqrt() {
        None => Decoded::No,
        Some(y) => { assert!(y.square() == y2); Decoded::Point(x, if P::larger(&y) == want_larger { y } else { -y }) }
    }
}
/// textbook affine double-and-add by the cofactor; None is the identity
fn clear<P: Grp>(x: P::BaseField, y: P::BaseField) -> Option<(P::BaseField, P::BaseField)> {
    let mut bits = vec![];
    let mut dec: Vec<u8> = P::COFACTOR_DEC.bytes().map(|b| b - b'0').collect();
    while !dec.is_empty() {
        let mut rem = 0;
        for d in dec.iter_mut() { let v = rem * 10 + *d; *d = v / 2; rem = v % 2; }
        bits.push(rem == 1);
        while !dec.is_empty() && dec[0] == 0 { dec.remove(0); }
    }
    let add = |a: Option<(P::BaseField, P::BaseField)>, b: Option<(P::BaseField, P::BaseField)>| -> Option<(P::BaseField, P::BaseField)> {
        let ((x1, y1), (x2, y2)) = match (a, b) { (None, o) | (o, None) => return o, (Some(a), Some(b)) => (a, b) };
        let l = if x1 == x2 {
            if y1 != y2 || y1.is_zero() { return None; }
            let x = x1.square();
            (x.double() + x) * y1.double().inverse().unwrap()
        } else { (y2 - y1) * (x2 - x1).inverse().unwrap() };
        let x3 = l.square() - x1 - x2;
        Some((x3, l * (x1 - x3) - y1))
    };
    let mut acc = None;
    for b in bits.iter().rev() { acc = add(acc, acc); if *b { acc = add(acc, Some((x, y))); } }
    acc
}
/// `None`: every counter failed
fn model<P: Grp>(cand: impl Fn(u8) -> Vec<u8>) -> Option<((P::BaseField, P::BaseField), usize)> {
    for c in 0..255u8 {
        if let Decoded::Point(x, y) = decode::<P>(&cand(c)) { if let Some(p) = clear::<P>(x, y) { return Some((p, c as usize)); } }
    }
    None
}
/// a hasher whose expansion is scripted per counter: hostile candidates that real hashing reaches with negligible probability
struct Scripted { script: Vec<Vec<u8>>, calls: RefCell<Vec<u8>>, bad: RefCell<Option<String>>, cip22: bool, domain: Vec<u8>, message: Vec<u8>, extra: Vec<u8>, cand: usize, fail_at: Option<usize> }
impl Hasher for Scripted {
    type Error = BLSError;
    fn crh(&self, d: &[u8], m: &[u8], _n: usize) -> Result<Vec<u8>, BLSError> {
        if d != &self.domain[..] { *self.bad.borrow_mut() = Some(format!("compression under domain {}", mon::hex(d))); }
        Ok(if self.cip22 { [&b"inner:"[..], m].concat() } else { m.to_vec() })
    }
    fn xof(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        let c = m.first().copied().unwrap_or(255);
        self.calls.borrow_mut().push(c);
        let tail = if self.cip22 { [&b"inner:"[..], &self.message].concat() } else { self.message.clone() };
        let want = [&[c][..], &self.extra, &tail].concat();
        if d != &self.domain[..] || m != &want[..] || n != self.cand { *self.bad.borrow_mut() = Some(format!("expansion of {} (domain {}, length {})", short(m), mon::hex(d), n)); }
        if self.fail_at == Some(c as usize) { return Err(BLSError::VerificationFailed); }
        let mut v = self.script[c as usize].clone();
        v.resize(n, 0xa5);
        Ok(v)
    }
}
fn non_residue_x<P: Grp>(r: &mut Rng8) -> Vec<u8> { loop { let x = P::BaseField::rand(r); let mut b = P::enc(&x); flags(&mut b, r); if decode::<P>(&b) == Decoded::No { return b; } } }
fn flags(b: &mut Vec<u8>, r: &mut Rng8) { let n = b.len(); b[n - 1] = (b[n - 1] & 1) | (r.gen::<u8>() & 0xfe); if n == 96 { b[47] = (b[47] & 1) | (r.gen::<u8>() & 0xfe); } }
fn good_x<P: Grp>(r: &mut Rng8) -> Vec<u8> { loop { let x = P::BaseField::rand(r); let mut b = P::enc(&x); flags(&mut b, r); if matches!(decode::<P>(&b), Decoded::Point(..)) { return b; } } }
/// a point that the cofactor sends to the identity
fn torsion_x<P: Grp>(r: &mut Rng8) -> Vec<u8> {
    loop {
        let x = P::BaseField::rand(r);
        if let Some(p) = GroupAffine::<P>::get_point_from_x(x, r.gen()) {
            let t: GroupAffine<P> = p.mul(<<P::ScalarField as PrimeField>::Params as FpParameters>::MODULUS).into();
            if !t.is_zero() { let mut b = P::enc(&t.x); flags(&mut b, r); return b; }
        }
    }
}
fn too_big<P: Grp>(r: &mut Rng8) -> Vec<u8> {
    let mut b = gen::bytes(r, P::BYTES);
    let k = P::BYTES - 48;
    for i in 0..8 { b[k + 47 - i] = 0xff; }
    if decode::<P>(&b) == Decoded::No { b } else { too_big::<P>(r) }
}
fn zero_x<P: Grp>(r: &mut Rng8, inf: bool) -> Vec<u8> { let mut b = vec![0; P::BYTES]; flags(&mut b, r); let n = b.len(); if inf { b[n - 1] |= 0x40 } else { b[n - 1] &= !0x40 } b }

trait Subject<P: Grp> {
    fn with_attempt(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<(GroupProjective<P>, usize), BLSError>;
    fn plain(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<GroupProjective<P>, BLSError>;
}
impl<'a, P: Grp, H: Hasher<Error = BLSError>> Subject<P> for TryAndIncrement<'a, H, P> {
    fn with_attempt(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<(GroupProjective<P>, usize), BLSError> { self.hash_with_attempt(d, m, e) }
    fn plain(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<GroupProjective<P>, BLSError> { self.hash(d, m, e) }
}
impl<'a, P: Grp, H: Hasher<Error = BLSError>> Subject<P> for TryAndIncrementCIP22<'a, H, P> {
    fn with_attempt(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<(GroupProjective<P>, usize), BLSError> { self.hash_with_attempt_cip22(d, m, e) }
    fn plain(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<GroupProjective<P>, BLSError> { self.hash(d, m, e) }
}
fn judge<P: Grp>(run: &Run, who: &str, d: &[u8], m: &[u8], e: &[u8], got: Result<Result<(GroupProjective<P>, usize), BLSError>, String>, plain: Result<Result<GroupProjective<P>, BLSError>, String>, want: Option<((P::BaseField, P::BaseField), usize)>) {
    let what = || format!("{} {} domain={} message={} extra={}", who, P::NAME, mon::hex(d), short(m), short(e));
    match (got, want) {
        (Err(p), _) => run.violation("panic", format!("panicked ({}): {}", p, what())),
        (Ok(Ok((p, c))), Some(((x, y), wc))) => {
            run.state("counter", wc);
            run.check(c == wc, "counter", || format!("counter {} instead of {}: {}", c, wc, what()));
            let a = p.into_affine();
            run.check(!p.is_zero() && a.x == x && a.y == y, "point", || format!("got {} expected ({}, {}): {}", a, x, y, what()));
            run.check(!a.is_zero() && a.is_on_curve() && a.is_in_correct_subgroup_assuming_on_curve(), "subgroup", || format!("{} : {}", a, what()));
            match plain { Ok(Ok(q)) => { run.check(q == p, "plain-differs", || what()); } Ok(Err(e)) => run.violation("plain-error", format!("{}: {}", e, what())), Err(p) => run.violation("plain-panic", format!("{}: {}", p, what())) }
        }
        (Ok(Ok((p, c))), None) => run.violation("accepted", format!("returned {} at counter {} although no counter is valid: {}", p, c, what())),
        (Ok(Err(BLSError::HashToCurveError)), None) => run.count("exhausted", 1),
        (Ok(Err(e)), None) => run.violation("wrong-error", format!("{}: {}", e, what())),
        (Ok(Err(e)), Some((_, c))) => run.violation("error", format!("{} although counter {} is valid: {}", e, c, what())),
    }
}
fn real<P: Grp, H: Hasher<Error = BLSError>>(run: &Run, cip22: bool, who: &str, h: &H, s: &dyn Subject<P>, d: &[u8], m: &[u8], e: &[u8]) {
    run.eval((who, P::NAME, d, m, e), true);
    run.count(&format!("{} {}", who, P::NAME), 1);
    // candidates from the two steps of the hasher itself (what those compute is the business of H01 and H03)
    let inner = if cip22 { h.crh(d, m, P::CAND).unwrap() } else { vec![] };
    let want = model::<P>(|c| {
        let msg = if cip22 { [&[c][..], e, &inner[..]].concat() } else { [&[c][..], e, m].concat() };
        let pre = if cip22 { msg } else { h.crh(d, &msg, P::CAND).unwrap() };
        h.xof(d, &pre, P::CAND).unwrap()
    });
    judge::<P>(run, who, d, m, e, catch(|| s.with_attempt(d, m, e)), catch(|| s.plain(d, m, e)), want);
}
fn scripted<P: Grp>(run: &Run, cip22: bool, r: &mut Rng8) {
    let mut script = vec![];
    let fail_prefix = match r.gen_range(0, 6) { 0 => 0, 1 => 253, 2 => 254, 3 => 255, 4 => r.gen_range(0, 255), _ => r.gen_range(0, 12) };
    let mut kinds = vec![];
    let bad: Vec<Vec<u8>> = vec![non_residue_x::<P>(r), too_big::<P>(r), zero_x::<P>(r, true), torsion_x::<P>(r), non_residue_x::<P>(r)];
    for i in 0..256 {
        if i < fail_prefix { let k = r.gen_range(0, bad.len()); kinds.push(k); script.push(bad[k].clone()); } else if r.gen_range(0, 12) == 0 { kinds.push(9); script.push(zero_x::<P>(r, false)) } else if i < fail_prefix + 2 { kinds.push(10); script.push(good_x::<P>(r)) } else { kinds.push(11); script.push(bad[0].clone()) }
    }
    let dl = r.gen_range(0, 9);
    let (domain, message, extra) = (gen::bytes(r, dl), gen::long(r, 40, 5000), gen::long(r, 20, 5000));
    let fail_at = if r.gen_range(0, 5) == 0 { Some(r.gen_range(0, (fail_prefix + 2).min(255))) } else { None };
    let want = model::<P>(|c| script[c as usize].clone());
    let h = Scripted { script, calls: Default::default(), bad: Default::default(), cip22, domain: domain.clone(), message: message.clone(), extra: extra.clone(), cand: P::CAND, fail_at };
    run.eval(("scripted", P::NAME, fail_prefix, &kinds, &message, &extra), true);
    run.count(&format!("scripted {}", P::NAME), 1);
    let (got, plain);
    if cip22 { let s = TryAndIncrementCIP22::<_, P>::new(&h); got = catch(|| s.with_attempt(&domain, &message, &extra)); h.calls.borrow_mut().clear(); plain = catch(|| s.plain(&domain, &message, &extra)); }
    else { let s = TryAndIncrement::<_, P>::new(&h); got = catch(|| s.with_attempt(&domain, &message, &extra)); h.calls.borrow_mut().clear(); plain = catch(|| s.plain(&domain, &message, &extra)); }
    if let Some(b) = h.bad.borrow().as_ref() { run.violation("hasher-input", format!("{} while hashing message={} extra={} under domain={}", b, short(&message), short(&extra), mon::hex(&domain))); }
    // the hasher's own failure before the first valid counter is passed on
    if let Some(f) = fail_at { if want.as_ref().map_or(true, |w| f <= w.1) {
        run.count("hasher failures injected", 1);
        match got { Ok(Err(BLSError::VerificationFailed)) => {} , o => run.violation("hasher-error-lost", format!("the hasher failed at counter {} but the call returned {:?}", f, o.map(|x| x.map(|y| y.1)))) }
        return;
    } }
    judge::<P>(run, "scripted", &domain, &message, &extra, got, plain, want);
}
/// the decoding of candidates by itself: every combination of the two flags (of bits the sign and infinity are read from), hostile x
fn decoding<P: Grp>(run: &Run, r: &mut Rng8) {
    let mut b = match r.gen_range(0, 6) { 0 => vec![0; P::BYTES], 1 => too_big::<P>(r), 2 => torsion_x::<P>(r), 3 => { let mut b = vec![0; P::BYTES]; b[0] = r.gen_range(0, 4); b } , 4 => non_residue_x::<P>(r), _ => good_x::<P>(r) };
    let n = b.len();
    for top in 0..64u8 {
        b[n - 1] = (b[n - 1] & 1) | ((top & 3) << 6) | ((top >> 2) << 1);
        run.eval(("decode", P::NAME, &b), true);
        run.count(&format!("decoded {}", P::NAME), 1);
        let want = match P::x_of(&b) {
            None => Decoded::No,
            Some(x) if x.is_zero() && b[n - 1] & 0x40 != 0 => Decoded::Identity,
            Some(x) => { let y2 = x.square() * x + P::COEFF_B; match y2.sqrt() { None => Decoded::No, Some(y) => Decoded::Point(x, if P::larger(&y) == (b[n - 1] & 0x80 != 0) { y } else { -y }) } }
        };
        let got = catch(|| bls_crypto::hash_to_curve::from_random_bytes::<P>(&b));
        let got = match got { Err(p) => { run.violation("decode-panic", format!("{} {}: {}", P::NAME, short(&b), p)); return; } Ok(None) => Decoded::No, Ok(Some(p)) => if p.is_zero() { Decoded::Identity } else { Decoded::Point(p.x, p.y) } };
        run.check(got == want, "decode", || format!("{} bytes {} decode to {:?}, should {:?}", P::NAME, short(&b), got, want));
    }
}
pub fn run(cip22: bool) -> ! {
    let id = if cip22 { "H05" } else { "H04" };
    let run = Run::start(id, "hash of (domain, message, extra data) to G1 or G2 with the direct, composite or a scripted hasher, compared with a model of the first-valid-counter rule (own decoding, affine cofactor clearing); scripted hashers feed non-residues, unreduced and zero x, identity flags and torsion points for up to all 255 counters; every case counts as non-trivial, distinct by inputs");
    let budget = run.pick(22.0, 200.0);
    run.par(8, |t, r| {
        let comp = &*COMPOSITE_HASHER;
        let mut i = t;
        while run.within(budget) {
            i += 1;
            if i % 16 == t % 16 && !cip22 { if i % 32 < 16 { decoding::<P1>(&run, r) } else { decoding::<P2>(&run, r) } }
            let dl = r.gen_range(0, 9);
            let d = if r.gen() { bls_crypto::SIG_DOMAIN.to_vec() } else { gen::bytes(r, dl) };
            let (m, e) = (gen::long(r, 400, 9000), if r.gen_range(0, 3) == 0 { vec![] } else { gen::long(r, 60, 9000) });
            // lengths past 16 bits, for the hasher that takes any
            let m = if matches!(i % 8, 2 | 4 | 6) && r.gen_range(0, 60) == 0 { run.count("messages over 65535 bytes", 1); let n = r.gen_range(65_530, 200_000); gen::bytes(r, n) } else { m };
            match (i % 8, cip22) {
                (0, _) | (5, _) => scripted::<P1>(&run, cip22, r),
                (1, _) => scripted::<P2>(&run, cip22, r),
                (2, false) => real::<P2, _>(&run, cip22, "direct", &DirectHasher, &TryAndIncrement::<_, P2>::new(&DirectHasher), &d, &m, &e),
                (2, true) => real::<P2, _>(&run, cip22, "direct", &DirectHasher, &TryAndIncrementCIP22::<_, P2>::new(&DirectHasher), &d, &m, &e),
                (3, false) => real::<P2, _>(&run, cip22, "composite", comp, &TryAndIncrement::<_, P2>::new(comp), &d, &m, &e),
                (3, true) => real::<P2, _>(&run, cip22, "composite", comp, &TryAndIncrementCIP22::<_, P2>::new(comp), &d, &m, &e),
                (4, false) | (6, false) => real::<P1, _>(&run, cip22, "direct-shared", &DirectHasher, &*DIRECT_HASH_TO_G1, &d, &m, &e),
                (4, true) | (6, true) => real::<P1, _>(&run, cip22, "direct", &DirectHasher, &TryAndIncrementCIP22::<_, P1>::new(&DirectHasher), &d, &m, &e),
                (_, false) => real::<P1, _>(&run, cip22, "composite-shared", comp, &*COMPOSITE_HASH_TO_G1, &d, &m, &e),
                (_, true) => real::<P1, _>(&run, cip22, "composite-shared", comp, &*COMPOSITE_HASH_TO_G1_CIP22, &d, &m, &e),
            }
        }
    });
    // candidate lengths
    for n in 0..2000usize { let w = (n + 31) / 32 * 32; run.check(bls_crypto::hash_to_curve::hash_length(n) == w, "hash-length", || format!("{} bytes rounded to {}", n, bls_crypto::hash_to_curve::hash_length(n))); }
    // the two flag bits above a coordinate: sign, identity
    {
        use ark_serialize::Flags;
        use bls_crypto::hash_to_curve::YSignFlags as Y;
        for b in 0..=255u8 {
            let f = Y::from_u8(b);
            let got = f.map(|f| (f.is_positive(), f.is_infinity(), f.u8_bitmask()));
            run.check(got == Some((Some(b & 0x80 != 0), b & 0x40 != 0, b & 0xc0)), "flags", || format!("flag byte {:#04x} reads as {:?}", b, got));
            let mut c = b;
            let _ = Y::from_u8_remove_flags(&mut c);
            run.check(c == b & 0x3f, "flags", || format!("flag byte {:#04x} without its flags is {:#04x}", b, c));
        }
        for s in [false, true] { let f = Y::from_y_sign(s); run.check(f.is_positive() == Some(s) && !f.is_infinity() && f.u8_bitmask() == (s as u8) << 7, "flags", || format!("sign {} gives flags {:#04x}", s, f.u8_bitmask())); }
        run.check(Y::default().u8_bitmask() == 0 && Y::BIT_SIZE == 2, "flags", || format!("default flags {:#04x} of {} bits", Y::default().u8_bitmask(), Y::BIT_SIZE));
    }
    run.sample(|| { let p = DIRECT_HASH_TO_G1.hash_with_attempt(b"ULforxof", b"sample", b"extra"); format!("direct G1 sample/extra: counter {:?}", p.map(|x| x.1)) });
    run.assume(if COMPAT { "built with the compat feature" } else { "built without the compat feature" });
    if !cip22 { run.require("decoded G1", 100); run.require("decoded G2", 100); }
    run.require("distinct", 300);
    run.require("messages over 65535 bytes", 2);
    run.require("exhausted", 3);
    run.require("hasher failures injected", 3);
    let _ = (G1Projective::zero(), G2Projective::zero());
    run.finish()
}
