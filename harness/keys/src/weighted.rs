//! K09: weighted combinations of keys and of signatures.
use crate::common::*;
pub fn k09() {
    let run = Run::start("K09", "a case is one list of points and weights (repeated, opposite and identity points, zero, small, extreme, equal and power-of-two weights, any representation, any length); the combination compared with the generator times the sum of products of scalars; lists of different lengths; verification of combined signatures under combined keys. Non-trivial: at least one weight that is not zero on a point that is not the identity, or uneven lists");
    let secs = run.pick(20.0, 900.0);
    run.par(8, |t, r| {
        let (b1, b2) = (G1Projective::prime_subgroup_generator(), G2Projective::prime_subgroup_generator());
        let mut n = t;
        while run.within(secs) {
            n += 1;
            let len = if n == t + 1 && t > 5 { if t == 6 { r.gen_range(520, 1024) } else { r.gen_range(1030, 1300) } } else { match r.gen_range(0, 9) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => r.gen_range(28, 40), 5 => r.gen_range(40, 90), 6 if n % 32 < 8 => r.gen_range(100, 300), _ => r.gen_range(0, 14) } };
            let mut ks: Vec<Fr> = vec![];
            while ks.len() < len {
                let again = if ks.is_empty() { None } else { Some(ks[r.gen_range(0, ks.len())]) };
                ks.push(match (r.gen_range(0, 8), again) { (0, Some(k)) => k, (1, Some(k)) => -k, (2, _) => Fr::zero(), (3, _) => scalar(r), _ => Fr::from(r.gen::<u64>()) });
            }
            let style = r.gen_range(0, 7);
            let one = scalar(r);
            let mut es: Vec<Fr> = (0..len).map(|_| match style { 0 => one, 1 => Fr::from(r.gen_range(0u64, 4)), 2 => Fr::from(2u64).pow([r.gen_range(0u64, 252)]), 3 => Fr::from(r.gen::<u64>()), 4 => Fr::rand(r), _ => match r.gen_range(0, 5) { 0 => Fr::zero(), 1 => Fr::one(), 2 => -Fr::one(), 3 => Fr::from(r.gen::<u128>()), _ => scalar(r) } }).collect();
            if len > 1 && r.gen_range(0, 8) == 0 {
                // everything cancels
                let k = ks[len - 1];
                if !k.is_zero() { let rest: Fr = ks.iter().zip(&es).take(len - 1).fold(Fr::zero(), |a, (k, e)| a + *k * e); es[len - 1] = -rest * k.inverse().unwrap(); run.count("cancelling", 1); }
            }
            let total: Fr = ks.iter().zip(&es).fold(Fr::zero(), |a, (k, e)| a + *k * e);
            let pks: Vec<PublicKey> = ks.iter().map(|k| rerep2(b2.mul(k.into_repr()), r).into()).collect();
            let sigs: Vec<Signature> = ks.iter().map(|k| rerep1(b1.mul(k.into_repr()), r).into()).collect();
            let what = |s: &str| format!("{} of {} entries, points {:?}.., weights {:?}..", s, len, ks.iter().take(5).map(|k| k.into_repr().0).collect::<Vec<_>>(), es.iter().take(5).map(|k| k.into_repr().0).collect::<Vec<_>>());
            run.eval((&es.iter().map(|e| e.into_repr().0).collect::<Vec<_>>(), &ks.iter().map(|e| e.into_repr().0).collect::<Vec<_>>()), ks.iter().zip(&es).any(|(k, e)| !k.is_zero() && !e.is_zero()));
            run.count("even lists", 1);
            run.state("length", len);
            run.state("kind of weights", style);
            if total.is_zero() && len > 0 { run.count("identity as result", 1); }
            let (kp, sg) = (catch(|| PublicKey::batch(&es, pks.clone())), catch(|| Signature::batch(&es, sigs.clone())));
            run.check(matches!(&kp, Ok(Some(p)) if *p.as_ref() == b2.mul(total.into_repr())), "keys", || format!("{:?} is not the combination: {}", kp, what("keys")));
            run.check(matches!(&sg, Ok(Some(p)) if *p.as_ref() == b1.mul(total.into_repr())), "signatures", || format!("{:?} is not the combination: {}", sg, what("signatures")));
            run.sample(|| what("combination"));
            // lists of different lengths are refused, whatever the surplus
            if n % 3 == 0 {
                let d = if r.gen() { 1 } else { r.gen_range(1, 40) };
                let longer = |r: &mut Rng8| { let mut x = es.clone(); for _ in 0..d { x.push(if r.gen() { Fr::zero() } else { scalar(r) }); } x };
                let (p, s) = if r.gen() && len > 0 {
                    let cut = len.saturating_sub(d);
                    (catch(|| PublicKey::batch(&es[..cut], pks.clone())), catch(|| Signature::batch(&es[..cut], sigs.clone())))
                } else { let x = longer(r); (catch(|| PublicKey::batch(&x, pks.clone())), catch(|| Signature::batch(&x, sigs.clone()))) };
                run.eval(("uneven", t, n), true);
                run.count("uneven lists", 1);
                run.check(p == Ok(None), "uneven-keys", || format!("{:?} for a number of weights that differs by {}: {}", p, d, what("keys")));
                run.check(matches!(s, Ok(None)), "uneven-signatures", || format!("{:?} for a number of weights that differs by {}: {}", s, d, what("signatures")));
            }
            // equal weights: combined signatures verify under combined keys; other weights do not
            if n % 4 == 0 && len > 0 && len < 40 {
                let hi = Hi::Cheap;
                let (m, e) = msg(r);
                let sigs: Vec<Signature> = ks.iter().map(|k| PrivateKey::from(*k).sign(&m, &e, &hi).unwrap()).collect();
                if let (Ok(Some(p)), Ok(Some(s))) = (kp, catch(|| Signature::batch(&es, sigs.clone()))) {
                    run.count("combined signatures verified", 1);
                    let v = catch(|| verdict(p.verify(&m, &e, &s, &hi)));
                    run.check(v == Ok(Verdict::Yes), "verifies", || format!("{:?}: {}", v, what("combined signatures under combined keys")));
                    let mut other = es.clone();
                    let i = r.gen_range(0, len);
                    other[i] += Fr::from(r.gen_range(1u64, 1 << 40));
                    if !ks[i].is_zero() {
                        let v = catch(|| Signature::batch(&other, sigs).map(|s| verdict(p.verify(&m, &e, &s, &hi))));
                        run.check(v == Ok(Some(Verdict::No)), "other-weights", || format!("{:?} with another weight at {}: {}", v, i, what("combined signatures")));
                    }
                }
            }
        }
    });
    run.require("even lists", 400); run.require("uneven lists", 100); run.require("combined signatures verified", 60); run.require("cancelling", 20);
    run.finish()
}
