//! K08 through the C interface: every call gives a fresh key, in every thread and every process.
use crate::api::*;
use crate::sys::{self as ser, self as sig};
use mon::uniform::Draws;
use std::collections::HashSet;
use std::sync::Mutex;

fn one() -> Result<(PrivateKey, Vec<u8>, Vec<u8>), String> {
    let mut k = std::ptr::null_mut();
    if !unsafe { sig::generate_private_key(&mut k) } || k.is_null() { return Err("no key generated".into()); }
    let mut p = std::ptr::null_mut();
    if !unsafe { sig::private_key_to_public_key(k, &mut p) } || p.is_null() { return Err("no public key".into()); }
    let (sk, s, b) = unsafe { ((*k).clone(), bytes_of(&*k), bytes_of(&*p)) };
    if unsafe { !ser::destroy_private_key(k) || !ser::destroy_public_key(p) } { return Err("releasing fails".into()); }
    Ok((sk, s, b))
}
pub fn k08() {
    let run = Run::start("K08", "keys generated through the C interface by 8 threads, by short-lived threads and by new processes: bits, intervals, weights and repetitions counted, none generated twice; public keys compared with the library's. Non-trivial: every key");
    let (all, odd, first) = (Mutex::new(HashSet::<Vec<u8>>::new()), Mutex::new(Vec::<String>::new()), Mutex::new(Draws::default()));
    let me = std::env::current_exe().unwrap();
    for _ in 0..run.pick(24, 400) {
        let o = std::process::Command::new(&me).arg("K08-fresh").output().unwrap();
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let keys: Vec<&str> = t.split_whitespace().collect();
        run.count("new_processes", 1);
        run.check(o.status.success() && keys.len() == 16, "fresh", || format!("a new process generating keys: {:?} {}", o.status, t));
        for k in keys { let b: Vec<u8> = (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(); run.eval(&b, true); run.check(all.lock().unwrap().insert(b), "repeated", || format!("the key {} is generated by two processes or threads", k)); }
    }
    run.par(8, |t, r| {
        let mut d = Draws::default();
        let mut i = 0u64;
        while run.within(run.pick(15.0, 600.0)) {
            i += 1;
            let (k, b, p) = match if t == 0 { std::thread::spawn(|| catch(one)).join().unwrap() } else { catch(one) } { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { run.violation("generate", e); return; } };
            run.eval(&b, true);
            if t == 0 { first.lock().unwrap().add(&b); run.count("new_threads", 1); } else { d.add(&b); }
            run.check(all.lock().unwrap().insert(b.clone()), "repeated", || format!("the key {} was generated before", hex(&b)));
            run.sample(|| format!("thread {}, key {}: public key {}", t, i, mon::short(&p)));
            run.check(p == bytes_of(&k.to_public()), "public", || format!("the public key of {} is not the library's", hex(&b)));
            if i % 16 == 0 { let s = Fr::rand(r); let o = own_sk(s.into()); let mut p = std::ptr::null_mut(); if run.check(unsafe { sig::private_key_to_public_key(o.0, &mut p) }, "public", || "no public key".into()) { let p = own_at(p); run.check(bytes_of(p.get()) == bytes_of(&PrivateKey::from(s).to_public()), "public", || format!("the public key of {} is not the library's", hex(&bytes_of(o.get())))); } }
        }
        run.count("keys_counted", d.len());
        odd.lock().unwrap().extend(d.judge());
    });
    let mut odd = odd.into_inner().unwrap();
    odd.extend(first.into_inner().unwrap().judge());
    for t in odd.into_iter().take(20) { run.violation("uniform", t); }
    run.require("keys_counted", 4000);
    run.require("new_processes", 10);
    run.require("new_threads", 100);
    run.assume("generation through the C interface draws from the operating system's randomness, so these keys differ from run to run; thresholds leave a chance of a false alarm below 1e-9");
    run.finish()
}
fn own_at(p: *mut PublicKey) -> Pk { std::sync::Arc::new(Own(p, ser::destroy_public_key)) }
pub fn fresh() {
    // half in the first thread, half in others
    let say = |k: Result<(PrivateKey, Vec<u8>, Vec<u8>), String>| match k { Ok(k) => println!("{}", hex(&k.1)), Err(e) => { println!("{}", e); std::process::exit(1) } };
    for _ in 0..8 { say(one()); }
    for _ in 0..8 { say(std::thread::spawn(one).join().unwrap()); }
}
