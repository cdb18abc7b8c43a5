//! K06: encodings
use crate::common::*;
use ark_ff::{BigInteger, FpParameters};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use std::io::{Read, Write};

struct Drip<'a>(&'a [u8], usize);
impl<'a> Read for Drip<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
struct Cap(Vec<u8>, usize, usize);
impl Write for Cap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0.len() >= self.1 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } let n = b.len().min(self.2).min(self.1 - self.0.len()); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn ser<T: CanonicalSerialize>(t: &T) -> Result<Vec<u8>, String> { catch(|| { let mut v = vec![]; t.serialize(&mut v).map(|_| v).map_err(|e| e.to_string()) }).unwrap_or_else(|p| Err(format!("panic {}", p))) }
fn seru<T: CanonicalSerialize>(t: &T) -> Result<Vec<u8>, String> { catch(|| { let mut v = vec![]; t.serialize_uncompressed(&mut v).map(|_| v).map_err(|e| e.to_string()) }).unwrap_or_else(|p| Err(format!("panic {}", p))) }

/// half the modulus and comparison on integers, for the sign
fn larger(y: &Fq) -> Option<bool> { if y.is_zero() { None } else { Some(y.into_repr().to_bytes_be() > (-*y).into_repr().to_bytes_be()) } }
fn le(x: &Fq) -> Vec<u8> { x.into_repr().to_bytes_le() }
fn expect1(p: &G1Projective) -> Vec<u8> { if p.is_zero() { let mut v = vec![0; 48]; v[47] = 0x40; return v; } let a = p.into_affine(); let mut v = le(&a.x); if larger(&a.y).unwrap_or(false) { v[47] |= 0x80 } v }
fn expect2(p: &G2Projective) -> Vec<u8> { if p.is_zero() { let mut v = vec![0; 96]; v[95] = 0x40; return v; } let a = p.into_affine(); let mut v = [le(&a.x.c0), le(&a.x.c1)].concat(); if larger(&a.y.c1).or(larger(&a.y.c0)).unwrap_or(false) { v[95] |= 0x80 } v }

/// one value through every encoder, decoder, reader and writer
fn trip<T: CanonicalSerialize + CanonicalDeserialize>(run: &Run, r: &mut Rng8, name: &str, t: &T, same: impl Fn(&T) -> bool, want: &[u8], ulen: usize) {
    run.count(name, 1);
    let n = want.len();
    let bytes = ser(t);
    if !run.check(bytes.as_deref() == Ok(want), &format!("{} encoding", name), || format!("{:?} instead of {}", bytes.as_ref().map(|b| hex(b)), hex(want))) { return; }
    run.check(catch(|| t.serialized_size()) == Ok(n), &format!("{} size", name), || format!("serialized_size is {:?}", catch(|| t.serialized_size())));
    let u = seru(t);
    if !run.check(u.as_ref().map(|u| u.len()) == Ok(ulen), &format!("{} uncompressed size", name), || format!("{:?}", u)) { return; }
    let u = u.unwrap();
    // whole, dripping, and followed by other data
    let chunk = r.gen_range(1, 9);
    let cases: Vec<(&str, Result<Result<T, SerializationError>, String>)> = vec![
        ("whole", catch(|| T::deserialize(&want[..]))),
        ("dripping reader", catch(|| T::deserialize(Drip(want, chunk)))),
        ("uncompressed", catch(|| T::deserialize_uncompressed(&u[..]))),
        ("uncompressed, dripping reader", catch(|| T::deserialize_uncompressed(Drip(&u, chunk)))),
    ];
    for (k, v) in cases {
        let ok = matches!(&v, Ok(Ok(x)) if same(x));
        run.check(ok, &format!("{} decode {}", name, k), || format!("{} of {} gave {}", k, hex(want), match v { Ok(Ok(_)) => "another value".to_string(), Ok(Err(e)) => format!("error {}", e), Err(p) => format!("panic {}", p) }));
    }
    let follow = [want, &gen::bytes(r, 7)[..]].concat();
    let mut rd = &follow[..];
    let ok = catch(|| T::deserialize(&mut rd).map(|x| same(&x)).unwrap_or(false)) == Ok(true);
    run.check(ok && rd.len() == 7, &format!("{} in a stream", name), || format!("{} bytes left of 7 after {}", rd.len(), hex(want)));
    // a writer that takes little at a time, and one that fills up
    let mut w = Cap(vec![], n, chunk);
    let ok = catch(|| t.serialize(&mut w).is_ok()) == Ok(true);
    run.check(ok && w.0 == want, &format!("{} slow writer", name), || format!("wrote {}", hex(&w.0)));
    let cap = r.gen_range(0, n);
    let mut w = Cap(vec![], cap, 1000);
    let v = catch(|| t.serialize(&mut w).is_err());
    run.check(v == Ok(true), &format!("{} full writer", name), || format!("writer with room for {}: {:?}", cap, v));
    // every truncation
    for k in 0..n { let v = catch(|| T::deserialize(&want[..k]).is_err()); run.check(v == Ok(true), &format!("{} truncated", name), || format!("first {} bytes of {}: refused = {:?}", k, hex(want), v)); }
    run.count("truncations", n as u64);
}
/// any bytes as a compressed encoding
fn offer<T: CanonicalSerialize + CanonicalDeserialize>(run: &Run, name: &str, kind: &str, b: &[u8], must_refuse: bool, sound: impl Fn(&T) -> bool, ident: bool) {
    run.count(&format!("{} offered: {}", name, kind), 1);
    run.eval((name, b), true);
    match catch(|| T::deserialize(b)) {
        Err(p) => run.violation(&format!("{} panic", name), format!("panicked ({}) on {} ({})", p, hex(b), kind)),
        Ok(Err(_)) => run.count("refused", 1),
        Ok(Ok(t)) => {
            run.count("accepted", 1);
            run.check(!must_refuse, &format!("{} {} accepted", name, kind), || hex(b));
            run.check(sound(&t), &format!("{} unsound", name), || format!("decoded outside the group: {}", hex(b)));
            if !ident { let s = ser(&t); run.check(s.as_deref() == Ok(b), &format!("{} not canonical", name), || format!("{} re-encodes to {:?}", hex(b), s.map(|s| hex(&s)))); }
        }
    }
}
fn sub<P: ark_ec::SWModelParameters>(p: &ark_ec::short_weierstrass_jacobian::GroupProjective<P>) -> bool { let a = p.into_affine(); a.is_zero() || (a.is_on_curve() && a.mul(<<P::ScalarField as PrimeField>::Params as FpParameters>::MODULUS).is_zero()) }
fn add_le(b: &[u8], m: &[u64]) -> Vec<u8> { let mut c = 0u16; b.iter().enumerate().map(|(i, x)| { let v = *x as u16 + ((m[i / 8] >> (8 * (i % 8))) & 0xff) as u16 + c; c = v >> 8; v as u8 }).collect() }

pub fn k06() {
    let run = Run::start("K06", "a case is one value encoded and decoded through all paths, or one byte string offered to a decoder; all are nontrivial");
    run.require("distinct", 1000); run.require("truncations", 1000); run.require("private key", 50); run.require("public key", 50); run.require("signature", 50);
    let secs = run.pick(20.0, 900.0);
    let rmod = <<Fr as PrimeField>::Params as FpParameters>::MODULUS.0.to_vec();
    let qmod = <<Fq as PrimeField>::Params as FpParameters>::MODULUS.0.to_vec();
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 1;
            let k = match n % 29 { 0 => Fr::zero(), _ => scalar(r) };
            run.eval(("value", t, n), true);
            trip(&run, r, "private key", &PrivateKey::from(k), |x: &PrivateKey| *x.as_ref() == k, &k.into_repr().to_bytes_le(), 32);
            let p2 = match n % 13 { 0 => G2Projective::zero(), 1 => G2Projective::prime_subgroup_generator(), 2 => G2Projective::prime_subgroup_generator().neg(), _ => G2Projective::prime_subgroup_generator().mul(k.into_repr()) };
            let (w2, v2) = (expect2(&p2), rerep2(p2, r));
            trip(&run, r, "public key", &PublicKey::from(v2), |x: &PublicKey| *x.as_ref() == p2, &w2, 192);
            let p1 = match n % 13 { 0 => G1Projective::zero(), 1 => G1Projective::prime_subgroup_generator(), 2 => G1Projective::prime_subgroup_generator().neg(), _ => G1Projective::prime_subgroup_generator().mul(k.into_repr()) };
            let (w1, v1) = (expect1(&p1), rerep1(p1, r));
            trip(&run, r, "signature", &Signature::from(v1), |x: &Signature| *x.as_ref() == p1, &w1, 96);
            run.sample(|| format!("{} / {} / {}", hex(&k.into_repr().to_bytes_le()), hex(&w2), hex(&w1)));
            // private keys offered
            let okfr = |x: &PrivateKey| { let _ = x; true };
            let mut big = [0u8; 32].to_vec(); for i in 0..32 { big[i] = (rmod[i / 8] >> (8 * (i % 8))) as u8; }
            offer::<PrivateKey>(&run, "private key", "the modulus", &big, true, okfr, false);
            let over = add_le(&Fr::from(r.gen::<u64>()).into_repr().to_bytes_le(), &rmod);
            offer::<PrivateKey>(&run, "private key", "not reduced", &over, true, okfr, false);
            offer::<PrivateKey>(&run, "private key", "random", &gen::bytes(r, 32), false, okfr, false);
            offer::<PrivateKey>(&run, "private key", "all ones", &[0xff; 32], true, okfr, false);
            // points offered
            let s1 = |x: &Signature| sub(x.as_ref());
            let s2 = |x: &PublicKey| sub(x.as_ref());
            let flag = |r: &mut Rng8| [0u8, 0x80][r.gen_range(0, 2)];
            // on the curve but (except with negligible probability) outside the subgroup
            if let Some(a) = G1Affine::get_point_from_x(Fq::rand(r), r.gen()) { let mut b = le(&a.x); b[47] |= flag(r); offer::<Signature>(&run, "signature", "outside the subgroup", &b, !sub(&a.into_projective()), s1, false); }
            if let Some(a) = G2Affine::get_point_from_x(Fq2::rand(r), r.gen()) { let mut b = [le(&a.x.c0), le(&a.x.c1)].concat(); b[95] |= flag(r); offer::<PublicKey>(&run, "public key", "outside the subgroup", &b, !sub(&a.into_projective()), s2, false); }
            // pure torsion points
            if n % 3 == 0 {
                if let Some(a) = G1Affine::get_point_from_x(Fq::from(n as u64), true) { let z = a.mul(<<Fr as PrimeField>::Params as FpParameters>::MODULUS); if !z.is_zero() { offer::<Signature>(&run, "signature", "torsion", &expect1(&z), true, s1, false); offer::<Signature>(&run, "signature", "good plus torsion", &expect1(&(z + p1)), true, s1, false); } }
                let a = loop { if let Some(a) = G2Affine::get_point_from_x(Fq2::new(Fq::from(n as u64), Fq::rand(r)), true) { break a; } };
                let z = a.mul(<<Fr as PrimeField>::Params as FpParameters>::MODULUS);
                if !z.is_zero() { offer::<PublicKey>(&run, "public key", "torsion", &expect2(&z), true, s2, false); offer::<PublicKey>(&run, "public key", "good plus torsion", &expect2(&(z + p2)), true, s2, false); }
            }
            // points of low order: x = 0 and y = 0
            offer::<Signature>(&run, "signature", "x zero", &{ let mut b = vec![0; 48]; b[47] = flag(r); b }, true, s1, false);
            offer::<Signature>(&run, "signature", "y zero", &{ let mut b = le(&-Fq::one()); b[47] |= flag(r); b }, true, s1, false);
            offer::<PublicKey>(&run, "public key", "x zero", &{ let mut b = vec![0; 96]; b[95] = flag(r); b }, true, s2, false);
            // no such point
            let x = loop { let x = Fq::rand(r); if G1Affine::get_point_from_x(x, true).is_none() { break x; } };
            offer::<Signature>(&run, "signature", "off the curve", &{ let mut b = le(&x); b[47] |= flag(r); b }, true, s1, false);
            let x = loop { let x = Fq2::rand(r); if G2Affine::get_point_from_x(x, true).is_none() { break x; } };
            offer::<PublicKey>(&run, "public key", "off the curve", &{ let mut b = [le(&x.c0), le(&x.c1)].concat(); b[95] |= flag(r); b }, true, s2, false);
            // a good point with an unreduced coordinate
            if !p1.is_zero() {
                let a = p1.into_affine(); let b2 = p2.into_affine();
                let small = add_le(&le(&a.x), &qmod);
                if small[47] < 0x40 { let mut b = small.clone(); b[47] |= flag(r); offer::<Signature>(&run, "signature", "not reduced", &b, true, s1, false); }
                if !p2.is_zero() {
                    let mut b = [add_le(&le(&b2.x.c0), &qmod), le(&b2.x.c1)].concat(); b[95] |= flag(r);
                    offer::<PublicKey>(&run, "public key", "first half not reduced", &b, true, s2, false);
                    let mut b = [le(&b2.x.c0), add_le(&le(&b2.x.c1), &qmod)].concat(); if b[95] < 0x40 { b[95] |= flag(r); offer::<PublicKey>(&run, "public key", "second half not reduced", &b, true, s2, false); }
                    // stray bits above the first half
                    let mut b = w2.clone(); b[47] |= 1 << r.gen_range(1, 8); offer::<PublicKey>(&run, "public key", "stray bits", &b, true, s2, false);
                }
            }
            // bit flips, other flags, random
            for _ in 0..3 {
                let mut b = w1.clone(); let i = r.gen_range(0, 384); b[i / 8] ^= 1 << (i % 8);
                offer::<Signature>(&run, "signature", "bit flip", &b, false, s1, b[47] & 0x40 != 0);
                let mut b = w2.clone(); let i = r.gen_range(0, 768); b[i / 8] ^= 1 << (i % 8);
                offer::<PublicKey>(&run, "public key", "bit flip", &b, false, s2, b[95] & 0x40 != 0);
            }
            let b = gen::blob(r, 60); offer::<Signature>(&run, "signature", "random length", &b, b.len() < 48, s1, true);
            let b = gen::blob(r, 120); offer::<PublicKey>(&run, "public key", "random length", &b, b.len() < 96, s2, true);
            let b = gen::blob(r, 40); offer::<PrivateKey>(&run, "private key", "random length", &b, b.len() < 32, okfr, true);
        }
    });
    run.finish()
}
