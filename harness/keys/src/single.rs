//! K01, K02, K03, K04
use crate::common::*;

pub fn k01() {
    let run = Run::start("K01", "a case is (instance, key, message, extra, claim presented); every one is nontrivial: it exercises a real hash and two pairings");
    run.require("distinct", 300);
    let secs = run.pick(25.0, 900.0);
    let seen = std::sync::Mutex::new(std::collections::HashSet::new());
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 1;
            let h = REAL[n % 4];
            let k = sk(r);
            let (m, e) = msg(r);
            let what = |s: &str| format!("{}: {:?} key={:?} message={} extra={}", s, h, k, short(&m), short(&e));
            let pk = k.to_public();
            run.check(*pk.as_ref() == G2Projective::prime_subgroup_generator().mul(k.as_ref().into_repr()), "public-key", || what("public key is not the generator times the key"));
            run.check(pk == PublicKey::from(&k), "public-key-paths", || what("the two ways to the public key differ"));
            let (s, p) = match (catch(|| k.sign(&m, &e, &h)), catch(|| k.sign_pop(&m, &h))) { (Ok(Ok(s)), Ok(Ok(p))) => (s, p), o => { run.violation("sign", format!("{:?} {}", o.0.is_ok(), what("signing failed"))); continue; } };
            seen.lock().unwrap().insert(h.cip22());
            let mut present = |claim: &str, key: &PublicKey, hh: &Hi, m2: &[u8], e2: &[u8], sig: &Signature, pop: bool, want: bool| {
                run.eval((claim, t, n, m2, e2), true);
                run.count(claim, 1);
                let v = catch(|| verdict(if pop { key.verify_pop(m2, sig, hh) } else { key.verify(m2, e2, sig, hh) }));
                run.check(v == Ok(if want { Verdict::Yes } else { Verdict::No }), claim, || format!("{:?} for presented message={} extra={} under {:?}; {}", v, short(m2), short(e2), hh, what(claim)));
            };
            present("honest signature", &pk, &h, &m, &e, &s, false, true);
            present("honest proof of possession", &pk, &h, &m, &[], &p, true, true);
            present("proof of possession as signature", &pk, &h, &m, &[], &p, false, false);
            if e.is_empty() { present("signature as proof of possession", &pk, &h, &m, &[], &s, true, false); }
            else { let s0 = k.sign(&m, &[], &h).unwrap(); present("signature as proof of possession", &pk, &h, &m, &[], &s0, true, false); }
            for _ in 0..2 {
                let (m2, e2) = mutate(r, &m, &e);
                present(if same_input(&h, &m, &e, &m2, &e2) { "split between extra data and message moved" } else { "other message or extra data" }, &pk, &h, &m2, &e2, &s, false, same_input(&h, &m, &e, &m2, &e2));
                if m2 != m { present("proof of possession for another message", &pk, &h, &m2, &[], &p, true, false); }
            }
            let k2 = match r.gen_range(0, 3) { 0 => PrivateKey::from(-*k.as_ref()), 1 => PrivateKey::from(*k.as_ref() + Fr::one()), _ => sk(r) };
            if k2.as_ref() != k.as_ref() && !k2.as_ref().is_zero() {
                present("other key", &k2.to_public(), &h, &m, &e, &s, false, false);
                present("proof of possession of another key", &k2.to_public(), &h, &m, &[], &p, true, false);
            }
            let h2 = REAL[(n + 1 + r.gen_range(0, 3)) % 4];
            if h2 != h { present("other hash-to-curve instance", &pk, &h2, &m, &e, &s, false, false); present("proof of possession under another instance", &pk, &h2, &m, &[], &p, true, false); }
            // generation from a random source gives usable keys
            if n % 16 == 0 { let g = PrivateKey::generate(r); let s = g.sign(&m, &e, &h).unwrap(); present("generated key", &g.to_public(), &h, &m, &e, &s, false, true); }
            run.sample(|| what("signed, verified and cross-presented"));
        }
    });
    run.finish()
}

pub fn k02() {
    let run = Run::start("K02", "a case is (key point, signature point, representation, instance, message, extra, entry point); all are nontrivial");
    run.require("honest", 20); run.require("equation holds", 50); run.require("equation fails", 50);
    let secs = run.pick(25.0, 900.0);
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 1;
            let (m, e) = msg(r);
            let pop = n % 3 == 0;
            let e = if pop { vec![] } else { e };
            let dom = if pop { POP } else { SIG };
            let hi = match n % 8 { 0 => Hi::Direct, 1 => Hi::Composite, 2 => Hi::CompositeCip22, 3 => Hi::Point(match r.gen_range(0, 3) { 0 => G1Projective::zero(), 1 => G1Projective::prime_subgroup_generator(), _ => g1(r) }), _ => Hi::Cheap };
            let h = hi.hash(dom, &m, &e).unwrap();
            let k = scalar(r);
            let pk0 = G2Projective::prime_subgroup_generator().mul(k.into_repr());
            let sig0 = h.mul(k.into_repr());
            let q = g1(r);
            let kind = r.gen_range(0, 16);
            let (name, pk, sig) = match kind {
                0 => ("honest", pk0, sig0),
                1 => ("negated signature", pk0, -sig0),
                2 => ("negated key", -pk0, sig0),
                3 => ("both negated", -pk0, -sig0),
                4 => ("identity signature", pk0, G1Projective::zero()),
                5 => ("identity key", G2Projective::zero(), sig0),
                6 => ("both identity", G2Projective::zero(), G1Projective::zero()),
                7 => { let c = scalar(r); ("both scaled alike", pk0.mul(c.into_repr()), sig0.mul(c.into_repr())) }
                8 => { let c = scalar(r); ("signature scaled", pk0, sig0.mul(c.into_repr())) }
                9 => ("generator as signature", pk0, G1Projective::prime_subgroup_generator()),
                10 => ("hash itself as signature", pk0, h),
                11 => ("hash itself under the generator", G2Projective::prime_subgroup_generator(), h),
                12 => ("signature plus small point", pk0, sig0 + G1Projective::prime_subgroup_generator()),
                13 => { let hh = hi.hash(if pop { SIG } else { POP }, &m, &e).unwrap(); ("signature of the other domain", pk0, hh.mul(k.into_repr())) }
                14 => ("random signature", pk0, q),
                _ => ("random key", g2(r), sig0),
            };
            let (pk, sig) = (rerep2(pk, r), rerep1(sig, r));
            let want = equation(&sig, &[(h, pk)]);
            run.eval((t, n), true);
            run.count(name, 1); run.state("kind, instance, entry point", (kind, n % 8, pop));
            run.count(if want { "equation holds" } else { "equation fails" }, 1);
            let (pkk, sg) = (PublicKey::from(pk), Signature::from(sig));
            let go = |h: &Hi| catch(|| verdict(if pop { pkk.verify_pop(&m, &sg, h) } else { pkk.verify(&m, &e, &sg, h) }));
            let what = || format!("{} {} under {:?}, message={} extra={} key={} signature={}", name, if pop { "proof of possession" } else { "signature" }, hi, short(&m), short(&e), show2(&pk), show1(&sig));
            let v = go(&hi);
            run.check(v == Ok(if want { Verdict::Yes } else { Verdict::No }), name, || format!("verdict {:?} but the equation {}: {}", v, if want { "holds" } else { "fails" }, what()));
            if n % 4 == 0 {
                let v = go(&Hi::Fail);
                run.count("hashing fails", 1);
                run.check(v == Ok(Verdict::Hash), "hash-error", || format!("{:?} although hashing failed: {}", v, what()));
            }
            run.sample(what);
        }
    });
    run.finish()
}

pub fn k03() {
    let run = Run::start("K03", "a case is one list of points (with its order, grouping, duplicates, identities and representations); nontrivial: at least two entries");
    run.require("distinct", 200); run.require("aggregate verified", 20); run.require("wrong multiset refused", 20);
    let secs = run.pick(25.0, 900.0);
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 1;
            // lists of scalars: the expected sum is computed on scalars
            // (long lists once per run)
            let len = if n == t + 1 && t < 4 { r.gen_range(300, 600) << t } else { match r.gen_range(0, 8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => r.gen_range(0, 70), 5 => r.gen_range(100, 300), _ => r.gen_range(0, 12) } };
            let mut ks: Vec<Fr> = vec![];
            while ks.len() < len {
                match r.gen_range(0, 8) {
                    0 if !ks.is_empty() => { let i = r.gen_range(0, ks.len()); let k = ks[i]; ks.push(k); }
                    1 if !ks.is_empty() => { let i = r.gen_range(0, ks.len()); let k = -ks[i]; ks.push(k); }
                    2 => ks.push(Fr::zero()),
                    3 if len < 5 => ks.push(scalar(r)),
                    _ => ks.push(Fr::from(r.gen::<u64>())),
                }
            }
            let total: Fr = ks.iter().fold(Fr::zero(), |a, k| a + k);
            let (b1, b2) = (G1Projective::prime_subgroup_generator(), G2Projective::prime_subgroup_generator());
            let pks: Vec<PublicKey> = ks.iter().map(|k| rerep2(b2.mul(k.into_repr()), r).into()).collect();
            let sigs: Vec<Signature> = ks.iter().map(|k| rerep1(b1.mul(k.into_repr()), r).into()).collect();
            let (want2, want1) = (b2.mul(total.into_repr()), b1.mul(total.into_repr()));
            let mut order: Vec<usize> = (0..len).collect();
            for i in (1..len).rev() { let j = r.gen_range(0, i + 1); order.swap(i, j); }
            let what = |s: &str| format!("{} of {} entries {:?}", s, len, ks.iter().take(6).map(|k| k.into_repr().0[0]).collect::<Vec<_>>());
            run.eval((t, n, len), len > 1);
            run.state("list length", len);
            let cut = if len == 0 { 0 } else { r.gen_range(0, len + 1) };
            let cases: Vec<(&str, Result<PublicKey, String>, Result<Signature, String>)> = vec![
                ("borrowed", catch(|| PublicKey::aggregate(&pks)), catch(|| Signature::aggregate(&sigs))),
                ("owned", catch(|| PublicKey::aggregate(pks.clone())), catch(|| Signature::aggregate(sigs.clone()))),
                ("shuffled", catch(|| PublicKey::aggregate(order.iter().map(|i| &pks[*i]))), catch(|| Signature::aggregate(order.iter().map(|i| &sigs[*i])))),
                ("filtered iterator", catch(|| PublicKey::aggregate(pks.iter().filter(|_| true))), catch(|| Signature::aggregate(sigs.iter().filter(|_| true)))),
                ("grouped", catch(|| PublicKey::aggregate([PublicKey::aggregate(&pks[..cut]), PublicKey::aggregate(&pks[cut..])])), catch(|| Signature::aggregate([Signature::aggregate(&sigs[..cut]), Signature::aggregate(&sigs[cut..])]))),
            ];
            for (name, a, s) in cases {
                run.count(name, 1);
                run.check(a.as_ref().map(|a| *a.as_ref() == want2) == Ok(true), &format!("keys {}", name), || format!("{:?} is not the sum: {}", a, what("keys")));
                run.check(s.as_ref().map(|a| *a.as_ref() == want1) == Ok(true), &format!("signatures {}", name), || format!("{:?} is not the sum: {}", s, what("signatures")));
            }
            // aggregated signatures verify under the aggregated keys and under no other multiset
            if n % 2 == 0 && len < 40 {
                let hi = if n % 8 == 0 { REAL[n / 8 % 4] } else { Hi::Cheap };
                let (m, e) = msg(r);
                let sigs: Vec<Signature> = ks.iter().map(|k| PrivateKey::from(*k).sign(&m, &e, &hi).unwrap()).collect();
                let asig = Signature::aggregate(order.iter().map(|i| &sigs[*i]));
                let v = catch(|| verdict(PublicKey::aggregate(&pks).verify(&m, &e, &asig, &hi)));
                run.count("aggregate verified", 1);
                run.check(v == Ok(Verdict::Yes), "aggregate-verifies", || format!("{:?}: {}", v, what("aggregate signature")));
                let mut other = ks.clone();
                match r.gen_range(0, 4) {
                    0 if !other.is_empty() => { other.pop(); }
                    1 if !other.is_empty() => { let k = other[0]; other.push(k); }
                    2 if !other.is_empty() => { let i = r.gen_range(0, other.len()); other[i] = scalar(r); }
                    _ => other.push(scalar(r)),
                }
                if other.iter().fold(Fr::zero(), |a, k| a + k) != total {
                    let opk = PublicKey::aggregate(other.iter().map(|k| PrivateKey::from(*k).to_public()));
                    let v = catch(|| verdict(opk.verify(&m, &e, &asig, &hi)));
                    run.count("wrong multiset refused", 1);
                    run.check(v == Ok(Verdict::No), "wrong-multiset", || format!("{:?}: {}", v, what("aggregate signature under other keys")));
                }
            }
            run.sample(|| what("aggregated"));
        }
    });
    run.finish()
}

pub fn k04() {
    let run = Run::start("K04", "a case is (list of keys, list of messages or hashes, signature); nontrivial: at least one pair");
    run.require("equation holds", 50); run.require("equation fails", 50); run.require("uneven", 30); run.require("hashing error", 10);
    let secs = run.pick(25.0, 900.0);
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 1;
            let len = match r.gen_range(0, 6) { 0 => 0, 1 => 1, 2 => 2, 3 if n % 8 == 0 => r.gen_range(64, 300), 3 => r.gen_range(10, 24), _ => r.gen_range(0, 8) };
            let hi = if len > 24 { Hi::Cheap } else if n % 5 == 0 { REAL[n / 5 % 4] } else { Hi::Cheap };
            let dl = r.gen_range(0, 9);
            let dom = match r.gen_range(0, 4) { 0 => POP.to_vec(), 1 => gen::bytes(r, dl), _ => SIG.to_vec() };
            let mut ms: Vec<(Vec<u8>, Vec<u8>)> = (0..len).map(|_| msg(r)).collect();
            let mut ks: Vec<Fr> = (0..len).map(|_| scalar(r)).collect();
            // repeated messages, keys and cancelling pairs
            if len > 1 { match r.gen_range(0, 5) { 0 => ms[1] = ms[0].clone(), 1 => ks[1] = ks[0], 2 => { ms[1] = ms[0].clone(); ks[1] = -ks[0] } 3 => ks[0] = Fr::zero(), _ => {} } }
            let hashes: Vec<G1Projective> = ms.iter().map(|(m, e)| hi.hash(&dom, m, e).unwrap()).collect();
            let pks: Vec<G2Projective> = ks.iter().map(|k| { let p = G2Projective::prime_subgroup_generator().mul(k.into_repr()); rerep2(p, r) }).collect();
            let honest: G1Projective = hashes.iter().zip(&ks).fold(G1Projective::zero(), |a, (h, k)| a + h.mul(k.into_repr()));
            let kind = r.gen_range(0, 10);
            let mut pks2 = pks.clone();
            let sig = match kind {
                0..=2 => honest,
                3 => honest + g1(r),
                4 => -honest,
                5 => G1Projective::zero(),
                6 if len > 0 => { let i = r.gen_range(0, len); honest - hashes[i].mul(ks[i].into_repr()) }
                7 if len > 1 => { let i = r.gen_range(0, len - 1); pks2.swap(i, i + 1); honest }
                8 if len > 0 => { let i = r.gen_range(0, len); pks2[i] = -pks2[i]; honest }
                9 if len > 1 => { // only the last or only the first entry signed
                    let i = if r.gen() { 0 } else { len - 1 }; hashes[i].mul(ks[i].into_repr()) }
                _ => honest,
            };
            let sig = rerep1(sig, r);
            let terms: Vec<_> = hashes.iter().cloned().zip(pks2.iter().cloned()).collect();
            let want = equation(&sig, &terms);
            let keys: Vec<PublicKey> = pks2.iter().map(|p| (*p).into()).collect();
            let refs: Vec<&PublicKey> = keys.iter().collect();
            let mrefs: Vec<(&[u8], &[u8])> = ms.iter().map(|(m, e)| (&m[..], &e[..])).collect();
            let s = Signature::from(sig);
            let hs: Vec<G1Projective> = hashes.iter().map(|h| rerep1(*h, r)).collect();
            let what = |x: &str| format!("{} with {} entries, kind {} under {:?}, domain {}, first message {}", x, len, kind, hi, hex(&dom), ms.first().map(|m| short(&m.0)).unwrap_or_default());
            run.eval((t, n), len > 0);
            run.state("length, kind", (len, kind));
            run.count(if want { "equation holds" } else { "equation fails" }, 1);
            let w = Ok(if want { Verdict::Yes } else { Verdict::No });
            for (name, v) in [("messages", catch(|| verdict(s.batch_verify(&keys, &dom, &mrefs, &hi)))), ("messages, borrowed keys", catch(|| verdict(s.batch_verify(&refs, &dom, &mrefs, &hi)))), ("hashes", catch(|| verdict(s.batch_verify_hashes(&keys, &hs))))] {
                run.check(v == w, name, || format!("verdict {:?} but the equation {}: {}", v, if want { "holds" } else { "fails" }, what(name)));
            }
            // lengths that differ: an honest prefix, so that truncation would accept
            if len > 0 {
                let cut = r.gen_range(0, len);
                let h_cut = hashes[..cut].iter().zip(&ks).fold(G1Projective::zero(), |a, (h, k)| a + h.mul(k.into_repr()));
                let sc = Signature::from(h_cut);
                let plain: Vec<PublicKey> = pks.iter().map(|p| (*p).into()).collect();
                for (name, v) in [
                    ("more keys than messages", catch(|| verdict(sc.batch_verify(&plain, &dom, &mrefs[..cut], &hi)))),
                    ("more messages than keys", catch(|| verdict(sc.batch_verify(&plain[..cut], &dom, &mrefs, &hi)))),
                    ("more keys than hashes", catch(|| verdict(sc.batch_verify_hashes(&plain, &hashes[..cut])))),
                    ("more hashes than keys", catch(|| verdict(sc.batch_verify_hashes(&plain[..cut], &hashes)))),
                ] {
                    run.count("uneven", 1);
                    run.check(v == Ok(Verdict::Uneven), name, || format!("{:?}: {} cut {}", v, what(name), cut));
                }
                // one message cannot be hashed
                let i = r.gen_range(0, len);
                let bad = Hi::FailOn(fnv(&[&dom, &ms[i].0, &ms[i].1]));
                let cheap: Vec<G1Projective> = ms.iter().map(|(m, e)| Hi::Cheap.hash(&dom, m, e).unwrap()).collect();
                let without: G1Projective = (0..len).filter(|j| ms[*j] != ms[i]).fold(G1Projective::zero(), |a, j| a + cheap[j].mul(ks[j].into_repr()));
                let v = catch(|| verdict(Signature::from(without).batch_verify(&plain, &dom, &mrefs, &bad)));
                run.count("hashing error", 1);
                run.check(v == Ok(Verdict::Hash), "hash-error", || format!("{:?} although message {} cannot be hashed: {}", v, i, what("batch")));
            }
            run.sample(|| what("batch"));
        }
    });
    run.finish()
}
