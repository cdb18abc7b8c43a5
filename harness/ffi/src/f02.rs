//! F02: sequences of create / use / release through the C interface, under a monitoring allocator, AddressSanitizer, Miri.
use crate::{api::*, f01::{during, tell_of_panics}, gen::Pool};
use crate::sys as ser;
use std::ptr;
use mon::rand::SeedableRng;

/// one history; returns how many calls, releases and looks it made
pub struct Tally { pub calls: u64, pub releases: u64, pub looks: u64, pub adopted: u64, pub history: String }
/// objects handed out become inputs of later calls and are released at the end of the history, or earlier
pub fn session(seed: u64, calls: usize, cheap: bool) -> Result<Tally, String> {
    let r = &mut Rng8::seed_from_u64(seed);
    let mut pool = Pool::new(r, if cheap { 3 } else { 6 }, cheap);
    let mut held: Vec<Held> = vec![];
    let mut t = Tally { calls: 0, releases: 0, looks: 0, adopted: 0, history: String::new() };
    for _ in 0..calls {
        let op = pool.op(r);
        let first = held.len();
        let before = if r.gen_bool(0.2) && !cheap { Some(op.show()) } else { None };
        let out = during(&op, || op.call(r, &mut held)).map_err(|e| format!("{}: {}", op.show(), e))?;
        // what was passed in is what it was
        if let Some(b) = before { if op.show() != b { return Err(format!("inputs changed: {} became {}", b, op.show())); } }
        t.calls += 1;
        t.history += op.name(); t.history.push(if out.ok { '+' } else { '-' });
        for h in &held[first..] { h.look()?; }
        // some of what was handed out becomes an input of later calls
        // (a generated key differs between replays and would make the key cache grow)
        let replayed = cfg!(feature = "watch") && matches!(op, Op::Generate);
        if held.len() > first && !replayed && r.gen_bool(0.3) {
            match held.pop().unwrap() {
                Held::Sk(p, b) => {
                    let k = std::sync::Arc::new(Own(p, ser::destroy_private_key as unsafe extern "C" fn(*mut PrivateKey) -> bool));
                    if pool.sk.iter().all(|o| bytes_of(o.get()) != b) { if !cheap { pool.pk.push(own_pk(k.get().to_public())); pool.sk.push(k); } t.adopted += 1; }
                }
                Held::Sg(p, _) => { let s = std::sync::Arc::new(Own(p, ser::destroy_signature as unsafe extern "C" fn(*mut Signature) -> bool)); pool.sigs.insert((usize::MAX, vec![t.calls as u8], vec![], 0), s); t.adopted += 1; }
                Held::Pk(p, b) => { let k = std::sync::Arc::new(Own(p, ser::destroy_public_key as unsafe extern "C" fn(*mut PublicKey) -> bool)); if bytes_of(k.get()) != b { return Err("a key changed".into()); } let op = Op::SerPk(k, r.gen()); op.call(r, &mut held)?; t.adopted += 1; t.calls += 1; }
                // bytes handed out are read back in place
                Held::Buf(p, n, b) => {
                    let mut x: *mut Signature = ptr::null_mut();
                    let ok = n < 100 && !cheap && read_sig(p, n, &mut x);
                    if ok { held.push(Held::Sg(x, unsafe { bytes_of(&*x) })); }
                    held.push(Held::Buf(p, n, b));
                    t.calls += 1;
                }
            }
        }
        // looked at and released in any order
        if held.len() > 0 && r.gen_bool(0.3) { let i = r.gen_range(0, held.len()); held[i].look()?; t.looks += 1; }
        while held.len() > 12 || (held.len() > 0 && r.gen_bool(0.4)) { let i = r.gen_range(0, held.len()); held.swap_remove(i).release()?; t.releases += 1; }
        if pool.sk.len() > 9 { let i = r.gen_range(2, pool.sk.len()); pool.sk.remove(i); pool.pk.remove(i); pool.sigs.clear(); t.releases += 1; }
    }
    for h in &held { h.look()?; }
    held.shuffle(r);
    t.releases += held.len() as u64;
    release_all(&mut held)?;
    // nothing is released through no pointer
    unsafe {
        if ser::destroy_private_key(ptr::null_mut()) || ser::destroy_public_key(ptr::null_mut()) || ser::destroy_signature(ptr::null_mut()) || ser::free_vec(ptr::null_mut(), r.gen_range(0, 3)) { return Err("releasing a null pointer reports success".into()); }
    }
    Ok(t)
}
#[allow(unused_unsafe)]
fn read_sig(p: *const u8, n: i32, x: &mut *mut Signature) -> bool { unsafe { ser::deserialize_signature(p, n, x) } }
fn note(run: &Run, t: &Tally) { run.eval(&t.history, true); run.sample(|| t.history.chars().take(600).collect()); run.count("calls", t.calls); run.count("releases", t.releases); run.count("later_looks", t.looks); run.count("adopted_as_inputs", t.adopted); }
const RULE: &str = "random histories of 20 to 60 calls of all exported functions whose results are kept, looked at again, passed to later calls and released in any order";

#[cfg(not(feature = "watch"))]
pub fn f02() {
    let run = Run::start("F02", &format!("{}; under AddressSanitizer when built with it", RULE));
    tell_of_panics("F02");
    run.par(8, |_, r| while run.within(run.pick(30.0, 1200.0)) {
        let (seed, n) = (r.gen(), r.gen_range(20, 60));
        match catch(|| session(seed, n, false)) { Ok(Ok(t)) => note(&run, &t), Ok(Err(e)) => run.violation("ownership", format!("history {} of {} calls: {}", seed, n, e)), Err(e) => run.violation("workload-panic", e) }
    });
    run.require("calls", 1000);
    run.require("later_looks", 100);
    run.finish()
}
/// each child process replays histories and requires the live bytes to settle
#[cfg(feature = "watch")]
pub fn f02() {
    use crate::watch::*;
    use std::sync::atomic::Ordering::Relaxed;
    let child = std::env::args().nth(2);
    let run = Run::start("F02", &format!("{}; every block between canaries, layouts compared on release, released blocks filled and checked later, each history replayed five times and the live bytes compared", RULE));
    tell_of_panics("F02");
    if let Some(c) = child {
        let r = &mut run.rng(5000 + c.parse::<u64>().unwrap());
        while run.within(run.pick(30.0, 1200.0)) {
            let (seed, n) = (r.gen(), r.gen_range(20, 50));
            let mut live = [0i64; 6];
            let mut last = None;
            for i in 0..5 {
                match session(seed, n, false) { Ok(t) => last = Some(t), Err(e) => { println!("OWNERSHIP history {} of {} calls: {}", seed, n, e); std::process::exit(1) } }
                // (nothing of the monitor's own may count)
                live[i] = LIVE.load(Relaxed) - last.as_ref().map_or(0, |t| t.history.capacity() as i64);
            }
            if live[0] < live[1] && live[1] < live[2] && live[2] < live[3] && live[3] < live[4] {
                println!("LEAK history {} of {} calls: live bytes after each replay {:?}", seed, n, &live[..5]);
                std::process::exit(1)
            }
            let t = last.unwrap();
            println!("STAT {} {} {} {} {}", t.calls * 5, t.releases * 5, t.looks * 5, t.adopted * 5, t.history);
        }
        println!("ALLOC {} {}", ALLOCS.load(Relaxed), FREES.load(Relaxed));
        std::process::exit(0)
    }
    let me = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..8).map(|i| std::process::Command::new(&me).arg("F02").arg(i.to_string()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap()).map(|k| std::thread::spawn(move || k.wait_with_output().unwrap())).collect();
    for k in kids {
        let o = k.join().unwrap();
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "STAT" => { let n = |i: usize| f[i].parse().unwrap(); note(&run, &Tally { calls: n(1), releases: n(2), looks: n(3), adopted: n(4), history: f[5].into() }); run.count("histories_replayed", 1); }
                "ALLOC" => { run.count("blocks_allocated", f[1].parse().unwrap()); run.count("blocks_released", f[2].parse().unwrap()); }
                "LEAK" => run.violation("leak", l),
                "OWNERSHIP" => run.violation("ownership", l),
                _ => {}
            }
        }
        if !o.status.success() && !text.contains("LEAK") && !text.contains("OWNERSHIP") {
            use std::os::unix::process::ExitStatusExt;
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            if o.status.signal() == Some(9) { println!("a workload process was killed"); std::process::exit(2) }
            run.violation("crash", format!("a workload process ended with {:?}: {} {}", o.status, text.lines().filter(|l| !l.starts_with("STAT")).collect::<Vec<_>>().join("\n"), e));
        }
    }
    run.require("histories_replayed", 16);
    run.require("calls", 1000);
    run.require("later_looks", 100);
    run.assume("a leak is seen when it recurs: the live bytes grow in each of five replays of a history");
    run.finish()
}
/// a few cheap histories for an interpreter
pub fn miri() {
    let n: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(3);
    let s: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in 0..n {
        match session(s * 1000 + i, 12, true) { Ok(t) => println!("MIRI {} calls {} releases {}", t.calls, t.releases, t.history), Err(e) => { println!("OWNERSHIP {}", e); std::process::abort() } }
    }
}
