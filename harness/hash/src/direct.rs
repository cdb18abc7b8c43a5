//! H01, H02: the direct hasher against an independent BLAKE2s / BLAKE2Xs.
use bls_crypto::hashers::{DirectHasher, Hasher};
use bls_crypto::BLSError;
use mon::{blake, catch, gen, rand::Rng, short, Run};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Crh, Xof, Hash }
pub const OPS: [Op; 3] = [Op::Crh, Op::Xof, Op::Hash];
pub fn call<H: Hasher<Error = BLSError>>(h: &H, op: Op, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
    match op { Op::Crh => h.crh(d, m, n), Op::Xof => h.xof(d, m, n), Op::Hash => h.hash(d, m, n) }
}
fn reference(op: Op, d: &[u8], m: &[u8], n: u16) -> Vec<u8> {
    match op { Op::Crh => blake::crh(d, m, n), Op::Xof => blake::xof(d, m, n), Op::Hash => blake::hash(d, m, n) }
}
fn one(run: &Run, op: Op, d: &[u8], m: &[u8], n: usize) {
    let what = || format!("{:?} domain={} message={} length={}", op, hexs(d), short(m), n);
    run.eval((op, d, m, n), n > 0);
    run.count(&format!("{:?} calls", op), 1);
    run.state("output length mod 32", n % 32);
    run.state("domain length", d.len());
    match catch(|| call(&DirectHasher, op, d, m, n)) {
        Err(p) => run.violation(&format!("{:?}-panic", op), format!("panicked ({}): {}", p, what())),
        Ok(Err(e)) => run.violation(&format!("{:?}-error", op), format!("refused ({}): {}", e, what())),
        Ok(Ok(out)) => {
            let want = reference(op, d, m, n as u16);
            if out.len() != want.len() { run.violation(&format!("{:?}-length", op), format!("{} bytes, expected {}: {}", out.len(), want.len(), what())); }
            else if out != want { run.violation(&format!("{:?}-value", op), format!("got {} expected {}: {}", short(&out), short(&want), what())); }
        }
    }
}
fn hexs(b: &[u8]) -> String { if b.is_empty() { "(empty)".into() } else { mon::hex(b) } }
fn domain(r: &mut mon::Rng8) -> Vec<u8> {
    match r.gen_range(0, 5) { 0 => bls_crypto::SIG_DOMAIN.to_vec(), 1 => bls_crypto::POP_DOMAIN.to_vec(), 2 => bls_crypto::OUT_DOMAIN.to_vec(), _ => { let n = r.gen_range(0, 9); if r.gen_range(0, 4) == 0 { vec![0; n] } else { gen::bytes(r, n) } } }
}
/// a case, then cases that differ in one respect, with returns to earlier ones: nothing may be remembered
fn neighbours(run: &Run, r: &mut mon::Rng8) {
    let mut past = vec![(OPS[r.gen_range(0, 3)], domain(r), gen::blob(r, 600), gen::len(r, 300))];
    for _ in 0..12 {
        let (mut op, mut d, mut m, mut n) = past[r.gen_range(0, past.len())].clone();
        match r.gen_range(0, 10) {
            0 => op = OPS[r.gen_range(0, 3)],
            1 => if d.len() < 8 { d.push(r.gen_range(0, 2)) } else { d.pop(); },
            2 => if !d.is_empty() { let i = r.gen_range(0, d.len()); d[i] ^= 1 << r.gen_range(0, 8); },
            3 => m.push(r.gen_range(0, 2)),
            4 => { m.pop(); }
            5 | 6 => if !m.is_empty() { let i = match r.gen_range(0, 3) { 0 => 0, 1 => m.len() - 1, _ => r.gen_range(0, m.len()) }; m[i] ^= 1 << r.gen_range(0, 8); },
            7 => n += 1,
            8 => n = n.saturating_sub(1),
            _ => {}
        }
        one(run, op, &d, &m, n);
        past.push((op, d, m, n));
    }
}
/// what one step gives is fed to the next, as it is and changed, with other domains and lengths in between
fn chained(run: &Run, r: &mut mon::Rng8) {
    let (d, d2) = (domain(r), domain(r));
    let (n, n2) = (gen::len(r, 200), gen::len(r, 200));
    let m = gen::blob(r, 300);
    let mut h = blake::crh(&d, &m, n as u16);
    one(run, Op::Crh, &d, &m, n);
    one(run, Op::Xof, &d, &h, n);
    for _ in 0..4 {
        match r.gen_range(0, 6) { 0 => one(run, Op::Xof, &d2, &h, n), 1 => one(run, Op::Xof, &d, &h, n2), 2 => one(run, Op::Crh, &d, &h, n), 3 => one(run, Op::Hash, &d, &h, n), 4 => one(run, Op::Hash, &d, &m, n2), _ => one(run, Op::Xof, &d, &m, n) }
        let i = r.gen_range(0, 32);
        h[i] ^= 1 << r.gen_range(0, 8);
        one(run, Op::Xof, &d, &h, n);
    }
    run.count("chains", 1);
}
/// contents that change where they are: no call may go by the place of its arguments
fn in_place(run: &Run, r: &mut mon::Rng8) {
    let mut d = domain(r);
    let mut m = gen::blob(r, 400);
    let (op, n) = (OPS[r.gen_range(0, 3)], gen::len(r, 200));
    for _ in 0..6 {
        one(run, op, &d, &m, n);
        // from anywhere in it
        let (i, j) = (r.gen_range(0, m.len() + 1), r.gen_range(0, d.len() + 1));
        one(run, op, &d[j..], &m[i..], n);
        one(run, op, &d[..j], &m[..i], n);
        if !m.is_empty() && r.gen() { let i = r.gen_range(0, m.len()); m[i] ^= 1 << r.gen_range(0, 8); }
        else if m.len() > 1 && r.gen() { let (i, j) = (r.gen_range(0, m.len()), r.gen_range(0, m.len())); m.swap(i, j); }
        else if !d.is_empty() && r.gen() { let i = r.gen_range(0, d.len()); d[i] ^= 1 << r.gen_range(0, 8); }
        else { let k = r.gen_range(0, m.len() + 1); m.truncate(k); }
    }
    run.count("buffers changed in place", 1);
}
/// a hasher that only defines the two steps and records how the provided composition uses them
struct Recorder { log: RefCell<Vec<(bool, Vec<u8>, Vec<u8>, usize)>>, fail: u8 }
impl Hasher for Recorder {
    type Error = BLSError;
    fn crh(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        self.log.borrow_mut().push((true, d.to_vec(), m.to_vec(), n));
        if self.fail & 1 != 0 { return Err(BLSError::VerificationFailed); }
        Ok([&b"inner"[..], m].concat())
    }
    fn xof(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        self.log.borrow_mut().push((false, d.to_vec(), m.to_vec(), n));
        if self.fail & 2 != 0 { return Err(BLSError::HashToCurveError); }
        Ok([&b"outer"[..], m].concat())
    }
}
pub fn h01() -> ! {
    let run = Run::start("H01", "call of one operation (crh/xof/hash) on (domain, message, output length), each compared with an independent BLAKE2s/BLAKE2Xs; non-trivial: output length > 0 and case not seen before");
    // every output length up to a bound, each with every operation
    run.par(8, |t, r| {
        let mut n = t;
        while n < 65536 && !run.stopped() {
            let d = domain(r);
            let m = gen::blob(r, 300);
            // (beyond the first thousands one of the two long operations for each length is enough for a quick run)
            for op in OPS { if !run.thorough && n > 4000 && op == OPS[1 + (n >> 3 & 1)] { continue; } if op != Op::Crh || n % 8 == 0 || n < 1024 { one(&run, op, &d, &m, n); } }
            n += 8;
        }
    });
    // lengths around every power of two and 32-byte boundary up to the maximum; all domain lengths with padding bytes
    let mut r = run.rng(1);
    let mut lens: Vec<usize> = vec![65535, 65534, 65505, 65504, 65503, 32767, 32768, 32769];
    for e in 5..16 { for d in 0..3 { lens.push((1usize << e) + d - 1); } }
    for n in lens { if n <= 65535 { for op in OPS { let d = domain(&mut r); let m = gen::blob(&mut r, 100); one(&run, op, &d, &m, n); } } }
    for dl in 0..=8usize { for fill in [0u8, 1, 0x55, 0xff] { for op in OPS { for n in [1usize, 32, 33, 48, 64, 96, 192] { one(&run, op, &vec![fill; dl], &gen::blob(&mut r, 70), n); } } } }
    // every message length up to a bound, and some large messages
    let bound = run.pick(4300, 30_000);
    run.par(8, |t, r| {
        let mut l = t;
        while l < bound && !run.stopped() {
            let d = domain(r);
            let m = match r.gen_range(0, 5) { 0 => vec![0; l], 1 => vec![0xff; l], _ => gen::bytes(r, l) };
            for op in OPS { one(&run, op, &d, &m, [0, 1, 31, 32, 33, 48, 64, 96, 192, 300][r.gen_range(0, 10)]); }
            run.count("message lengths swept", 1);
            l += 8;
        }
        let big = [65_535usize, 65_536, 65_537, 131_072, 1 << 20, (1 << 20) + 1, (1 << 22) + 64, 1 << 24];
        let d = domain(r);
        let m = gen::bytes(r, big[t]);
        for op in OPS { one(&run, op, &d, &m, 48); }
        run.count("large messages", 1);
    });
    // random
    let (budget, maxmsg) = (run.pick(35.0, 300.0), run.pick(100_000, 400_000));
    run.par(8, |t, r| {
        // messages longer than 2^32 bytes (zero pages, with something at the ends)
        if t > 5 {
            let (op, d) = ([Op::Crh, Op::Xof][t - 6], domain(r));
            let mut m = vec![0u8; (1usize << 32) + r.gen_range(1, 200)];
            let l = m.len();
            m[0] = 1;
            m[l - 1] = 2;
            m[(1 << 32) - 1] = 3;
            let (got, want) = std::thread::scope(|s| { let w = s.spawn(|| reference(op, &d, &m, 32)); (catch(|| call(&DirectHasher, op, &d, &m, 32)), w.join().unwrap()) });
            run.check(matches!(&got, Ok(Ok(v)) if *v == want), "beyond-32-bits", || format!("{:?} of {} bytes, domain {}: {:?}", op, l, hexs(&d), got.map(|g| g.map(|v| short(&v)))));
            run.count("messages beyond 2^32 bytes", 1);
        }
        while run.within(budget) {
            let d = domain(r);
            let m = gen::long(r, 3000, maxmsg);
            let n = match r.gen_range(0, 40) { 0 => r.gen_range(0, 65536), 1..=4 => r.gen_range(0, 4000), _ => gen::len(r, 300) };
            let op = OPS[r.gen_range(0, 3)];
            one(&run, op, &d, &m, n);
            neighbours(&run, r);
            chained(&run, r);
            in_place(&run, r);
            // the composition, seen from inside
            let fail = if r.gen_range(0, 4) == 0 { r.gen_range(0, 4) } else { 0 };
            let rec = Recorder { log: Default::default(), fail };
            let res = rec.hash(&d, &m, n);
            let inner = [&b"inner"[..], &m[..]].concat();
            let want_log = if fail & 1 != 0 { vec![(true, d.clone(), m.clone(), n)] } else { vec![(true, d.clone(), m.clone(), n), (false, d.clone(), inner.clone(), n)] };
            run.count("compositions traced", 1);
            run.check(*rec.log.borrow() == want_log, "composition-trace", || format!("steps {:?} for domain={} message={} length={}", rec.log.borrow().iter().map(|x| (x.0, short(&x.2), x.3)).collect::<Vec<_>>(), hexs(&d), short(&m), n));
            match (fail, res) {
                (0, Ok(v)) => { run.check(v == [&b"outer"[..], &inner[..]].concat(), "composition-result", || format!("result {}", short(&v))); }
                (f, Err(BLSError::VerificationFailed)) if f & 1 != 0 => {}
                (2, Err(BLSError::HashToCurveError)) => {}
                (f, x) => run.violation("composition-error", format!("failure mode {} gave {:?}", f, x.map(|v| short(&v)))),
            }
        }
    });
    for _ in 0..3 { let d = domain(&mut r); let m = gen::blob(&mut r, 64); run.sample(|| format!("hash(domain={}, message={}, 48) = {}", hexs(&d), short(&m), short(&call(&DirectHasher, Op::Hash, &d, &m, 48).unwrap_or_default()))); }
    run.require("distinct", 5000);
    run.require("output length mod 32", 32);
    run.require("domain length", 9);
    run.finish()
}

pub fn h02() -> ! {
    let run = Run::start("H02", "call of one operation with a domain of a given length; non-trivial: the domain is longer than 8 bytes (must be refused with its length) or exactly 8 (must be accepted)");
    let mut r = run.rng(1);
    let bound = run.pick(700, 5000);
    for dl in 0..bound {
        for op in OPS {
            for n in [0usize, 1, 31, 32, 48, 64, 96, 192, 1000] {
                let d = match r.gen_range(0, 3) { 0 => vec![0; dl], 1 => [&bls_crypto::SIG_DOMAIN[..], &vec![0u8; dl]].concat()[..dl].to_vec(), _ => gen::bytes(&mut r, dl) };
                let m = gen::blob(&mut r, 100);
                run.eval((op, &d, &m, n), dl >= 8);
                run.state("domain length", dl);
                let what = || format!("{:?} domain length {} message={} output length {}", op, dl, short(&m), n);
                match catch(|| call(&DirectHasher, op, &d, &m, n)) {
                    Err(p) => run.violation(&format!("{:?}-panic", op), format!("panicked ({}): {}", p, what())),
                    Ok(Ok(v)) => {
                        run.count("accepted", 1);
                        if dl > 8 { run.violation(&format!("{:?}-accepted", op), format!("accepted, output {}: {}", short(&v), what())) }
                    }
                    Ok(Err(BLSError::DomainTooLarge(k))) if dl > 8 => { run.count("refused", 1); run.check(k == dl, "wrong-length", || format!("error says {}: {}", k, what())); }
                    Ok(Err(e)) => run.violation(&format!("{:?}-wrong-error", op), format!("error {:?}: {}", e, what())),
                }
            }
        }
    }
    // lengths whose low bits look like an acceptable length (zero pages, never written)
    let mut long = vec![];
    for e in [12u32, 15, 16, 17, 20, 24, 31, 32] { for k in [0usize, 1, 5, 8, 9] { long.push((1usize << e) + k); } }
    for dl in long {
        let d = vec![0u8; dl];
        for op in OPS {
            run.eval((op, dl, "long"), true);
            run.state("domain length", dl);
            match catch(|| call(&DirectHasher, op, &d, b"m", 48)) {
                Ok(Err(BLSError::DomainTooLarge(k))) => { run.count("refused", 1); run.check(k == dl, "wrong-length", || format!("{:?}: error says {} for a domain of {} bytes", op, k, dl)); }
                x => run.violation(&format!("{:?}-long", op), format!("{:?} for a domain of {} bytes", x.map(|r| r.map(|v| short(&v))), dl)),
            }
        }
    }
    // refusals and acceptances in any order: a refusal leaves nothing behind, and what is accepted is used whole
    let budget = run.pick(6.0, 60.0);
    run.par(8, |_, r| {
        while run.within(budget) {
            let op = OPS[r.gen_range(0, 3)];
            let dl = match r.gen_range(0, 6) { 0 => 8, 1 => 9, 2 => r.gen_range(0, 9), 3 => r.gen_range(9, 70), 4 => 256 + r.gen_range(0, 12), _ => r.gen_range(0, 20) };
            let d = match r.gen_range(0, 3) { 0 => vec![r.gen_range(0, 2) * 0xff; dl], 1 => bls_crypto::POP_DOMAIN.iter().cycle().take(dl).cloned().collect(), _ => gen::bytes(r, dl) };
            let m = gen::blob(r, 200);
            let n = if r.gen_range(0, 3) == 0 { r.gen_range(0, 3000) } else { gen::len(r, 300) };
            if dl <= 8 { run.count("accepted among refusals", 1); one(&run, op, &d, &m, n); continue; }
            run.eval((op, &d, &m, n), true);
            match catch(|| call(&DirectHasher, op, &d, &m, n)) {
                Ok(Err(BLSError::DomainTooLarge(k))) => { run.count("refused", 1); run.check(k == dl, "wrong-length", || format!("{:?}: error says {} for a domain of {} bytes", op, k, dl)); }
                x => run.violation(&format!("{:?}-not-refused", op), format!("{:?} for domain {}, message {}, length {}", x.map(|r| r.map(|v| short(&v))), hexs(&d), short(&m), n)),
            }
        }
    });
    for dl in [8usize, 9, 64] { let d = vec![7u8; dl]; run.sample(|| format!("domain of {} bytes: crh {:?}", dl, catch(|| DirectHasher.crh(&d, b"m", 32).map(|v| mon::hex(&v)).map_err(|e| e.to_string())))); }
    run.require("refused", 1000);
    run.require("accepted", 100);
    run.finish()
}
