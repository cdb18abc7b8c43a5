//! F04: many threads in the C interface at once, with shared objects, keys and the process-wide key cache.
use crate::{api::*, f01::{during, tell_of_panics}, gen::{hostile, Pool}};
use mon::rand::SeedableRng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher as _};
use std::sync::{atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*}, Barrier, Mutex};

/// calls with their results alone; the ones that use the key cache dominate
fn plan(r: &mut Rng8, n: usize) -> Vec<(Op, Out)> {
    let mut pool = Pool::new(r, 14, false);
    let mut v = vec![];
    while v.len() < n {
        let sub = |r: &mut Rng8, pool: &Pool, lo: usize, hi: usize| { let mut l = pool.pk.clone(); l.shuffle(r); l.truncate(r.gen_range(lo, hi)); l };
        let op = match r.gen_range(0, 12) {
            // neighbouring sets, as successive epochs have them, and unrelated ones
            0 | 1 => { let a = r.gen_range(0, pool.pk.len()); let b = r.gen_range(a, pool.pk.len() + 1); Op::AggPk(pool.pk[a..b].to_vec()) }
            2 => Op::AggPk(sub(r, &pool, 0, 10)),
            3 => { let p = own_pk(PublicKey::aggregate(pool.pk.iter().map(|k| k.get()))); Op::AggSub(p, sub(r, &pool, 0, 8)) }
            4 | 5 => Op::De(Kind::PkCached, bytes_of(pool.pk.choose(r).unwrap().get())),
            6 => { let (b, _, what) = hostile(Kind::PkCached, &mut pool, r); if what == "over-long" { continue } Op::De(Kind::PkCached, b) }
            7 => { let (b, _, what) = hostile(Kind::Pk, &mut pool, r); if what == "over-long" { continue } Op::De(Kind::Pk, b) }
            _ => pool.op(r),
        };
        if let Op::Generate = op { continue }
        if let Ok(o) = catch(|| op.expect()) { v.push((op, o)); }
    }
    v
}
fn pause(r: &mut Rng8) {
    match r.gen_range(0, 12) { 0 | 1 => std::thread::yield_now(), 2 => { let n = r.gen_range(0, 3000); for _ in 0..n { std::hint::spin_loop(); } } 3 if r.gen_bool(0.1) => std::thread::sleep(std::time::Duration::from_micros(r.gen_range(0, 300))), _ => {} }
}
pub fn f04() {
    let run = Run::start("F04", "12 threads calling at random out of a list of calls with results computed beforehand, most of them on the shared key cache (aggregates of overlapping key sets, cached decoding of valid and malformed bytes), with shared keys and signatures and random pauses; every result compared, progress watched; and new processes whose threads all begin with an uninitialised library");
    tell_of_panics("F04");
    let watch = cfg!(not(feature = "watch")) && std::env::var("VERIF_SANITIZER").is_ok();
    let secs = if watch { run.pick(45.0, 1200.0) } else { run.pick(25.0, 1200.0) };
    // processes that begin with a race on everything lazily initialised
    let me = std::env::current_exe().unwrap();
    let n = if watch { run.pick(2, 60) } else { run.pick(10, 300) };
    for i in 0..n {
        let seed = run.seed * 100_000 + i;
        let want = fresh_plan(seed).into_iter().map(|(_, o)| digest(&o)).fold(String::new(), |a, d| a + &format!("{:016x},", d));
        let o = std::process::Command::new(&me).arg("F04-fresh").arg(seed.to_string()).arg(&want).output().unwrap();
        let t = String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr);
        run.eval(("fresh", seed), true);
        run.count("new_processes", 1);
        if !o.status.success() { run.violation("fresh", format!("a new process with racing first calls (plan {}): {:?} {}", seed, o.status, t.chars().take(8000).collect::<String>())); if run.stopped() || i > 3 { break; } }
    }
    let mut t0 = run.elapsed().as_secs_f64();
    let end = t0 + secs;
    let mut round = 0;
    while t0 < end && !run.stopped() {
        round += 1;
        let ops = plan(&mut run.rng(77 + round), if watch { 60 } else { 240 });
        let slice = if watch { secs / 2.0 } else { secs / 4.0 };
        let start = run.elapsed().as_secs_f64();
        let threads = 12;
        let (done, ticks) = (AtomicBool::new(false), AtomicU64::new(0));
        let now: Vec<AtomicUsize> = (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect();
        let (names, barrier) = (ops.iter().map(|o| o.0.name()).collect::<Vec<_>>(), Barrier::new(threads));
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|t| {
                let (run, ops, now, ticks, barrier, names) = (&run, &ops, &now, &ticks, &barrier, &names);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut r = run.rng(9000 + 100 * round + t as u64);
                    barrier.wait();
                    while run.elapsed().as_secs_f64() - start < slice && !run.stopped() {
                        let k = r.gen_range(0, ops.len());
                        let (op, want) = &ops[k];
                        pause(&mut r);
                        now[t].store(k, SeqCst);
                        // what else is in flight
                        let others: Vec<&str> = now.iter().enumerate().filter(|(i, _)| *i != t).filter_map(|(_, k)| names.get(k.load(SeqCst)).copied()).collect();
                        let mut keep = vec![];
                        let have = during(op, || op.call(&mut r, &mut keep));
                        now[t].store(usize::MAX, SeqCst);
                        ticks.fetch_add(1, SeqCst);
                        run.eval((round, t, ticks.load(SeqCst)), !others.is_empty());
                        for o in &others { run.state("overlapping_pairs", (op.name(), *o)); }
                        { let mut o = others.clone(); o.sort(); run.state("sets_in_flight", (op.name(), o)); }
                        if !others.is_empty() { run.count("calls_with_others_in_flight", 1); }
                        if others.len() > 6 { run.sample(|| format!("{} with {:?} in flight -> as alone: {}", op.show().chars().take(300).collect::<String>(), others, have.as_ref().map_or(false, |h| h == want))); }
                        match have {
                            Ok(h) => { run.check(h == *want, op.name(), || format!("{}: {} {:?} {:?} with {:?} in flight, alone {} {:?} {:?}", op.show(), h.ok, h.bytes.iter().map(|b| hex(b)).collect::<Vec<_>>(), h.nums, others, want.ok, want.bytes.iter().map(|b| hex(b)).collect::<Vec<_>>(), want.nums)); }
                            Err(e) => run.violation(op.name(), format!("{}: {}", op.show(), e)),
                        }
                        if !want.ok { run.count("failing_calls", 1); }
                        if let Err(e) = release_all(&mut keep) { run.violation("release", e); }
                    }
                }).unwrap()
            }).collect();
            // no deadlock: calls keep ending
            let (done, ticks, run, now, names) = (&done, &ticks, &run, &now, &names);
            s.spawn(move || {
                let (mut last, mut since) = (0, run.elapsed());
                while !done.load(SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    let t = ticks.load(SeqCst);
                    if t != last { last = t; since = run.elapsed(); }
                    if (run.elapsed() - since).as_secs() > 90 {
                        let stuck: Vec<&str> = now.iter().filter_map(|k| names.get(k.load(SeqCst)).copied()).collect();
                        run.violation("deadlock", format!("no call has ended for 90 s; in flight: {:?}", stuck));
                        std::process::exit(1);
                    }
                }
            });
            for h in hs { if h.join().is_err() { run.violation("workload-panic", "a thread died"); } }
            done.store(true, SeqCst);
        });
        t0 = run.elapsed().as_secs_f64();
    }
    run.require("calls_with_others_in_flight", if watch { 200 } else { 2000 });
    run.require("overlapping_pairs", if watch { 60 } else { 200 });
    run.require("new_processes", 2);
    run.assume("schedules are those the machine produces with random pauses; data races are decided by ThreadSanitizer on the same workload");
    run.finish()
}
fn digest(o: &Out) -> u64 { let mut h = DefaultHasher::new(); o.hash(&mut h); h.finish() }
fn fresh_plan(seed: u64) -> Vec<(Op, Out)> { fresh_ops(seed).into_iter().map(|o| { let e = o.expect(); (o, e) }).collect() }
/// without touching anything lazily initialised
fn fresh_ops(seed: u64) -> Vec<Op> {
    let r = &mut Rng8::seed_from_u64(seed);
    let sk = own_sk(Fr::rand(r).into());
    let pks: Vec<Pk> = (0..3).map(|_| { let s = Fr::rand(r); own_pk(PublicKey::from(G2Projective::prime_subgroup_generator().mul(s.into_repr()))) }).collect();
    let one = r.gen_range(0, 12);
    (0..8).map(|i| {
        let (m, e) = (gen::blob(r, 80), gen::blob(r, 20));
        // sometimes everybody begins with the same function
        let k = if seed % 3 == 0 { one } else { (i + seed as usize) % 12 };
        match k {
            0 => Op::HashComposite(m, e), 1 => Op::HashCip22(m, e), 2 => Op::HashDirect(m, true), 3 => Op::HashAttempt(m, false), 4 => Op::HashCrh(m, 32),
            5 => Op::AggPk(pks[..r.gen_range(0, 4)].to_vec()), 6 => Op::De(Kind::PkCached, bytes_of(pks[i % 3].get())), 7 => Op::Sign(sk.clone(), m, e, true, true), 8 => Op::Sign(sk.clone(), m, e, true, false), 9 => Op::SignPop(sk.clone(), m),
            10 => Op::AggSub(pks[0].clone(), pks[1..].to_vec()), _ => Op::HashFirst(m, 40),
        }
    }).collect()
}
pub fn fresh() {
    tell_of_panics("F04");
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let ops = fresh_ops(seed);
    let b = Barrier::new(ops.len());
    let got: Mutex<Vec<u64>> = Mutex::new(vec![0; ops.len()]);
    std::thread::scope(|s| for (i, op) in ops.iter().enumerate() {
        let (b, got) = (&b, &got);
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
            let mut r = Rng8::seed_from_u64(seed + i as u64);
            let mut keep = vec![];
            b.wait();
            let d = match during(op, || op.call(&mut r, &mut keep)) { Ok(o) => digest(&o), Err(e) => { println!("{}", e); 0 } };
            got.lock().unwrap()[i] = d;
            let _ = release_all(&mut keep);
        }).unwrap();
    });
    let have = got.lock().unwrap().iter().fold(String::new(), |a, d| a + &format!("{:016x},", d));
    if have != a[3] { println!("results of racing first calls {:?}: {} instead of {}", ops.iter().map(|o| o.show()).collect::<Vec<_>>(), have, a[3]); std::process::exit(1) }
}
