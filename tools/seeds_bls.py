#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
B = "crates/bls-crypto/src/"
from seeds_bls_text import HEAD
def p(id, prop, edits, needs, breaks, body): plant(id, prop, {B + f: e for f, e in edits.items()}, needs, breaks, HEAD + "fn main() {\n    let h = &*DIRECT_HASH_TO_G1;\n    let _ = h;\n" + body + "\n}\n")

p("s-pop-domain", "K01", {"bls/secret.rs": [("self.sign_message(POP_DOMAIN, message, &[], hash_to_g1)", "self.sign_message(SIG_DOMAIN, message, &[], hash_to_g1)"), ("use crate::{BLSError, HashToCurve, PublicKey, Signature, POP_DOMAIN, SIG_DOMAIN};", "use crate::{BLSError, HashToCurve, PublicKey, Signature, SIG_DOMAIN};")],
  "bls/public.rs": [("self.verify_sig(POP_DOMAIN, message, &[], signature, hash_to_g1)", "self.verify_sig(SIG_DOMAIN, message, &[], signature, hash_to_g1)"), ("Signature, POP_DOMAIN, SIG_DOMAIN};", "Signature, SIG_DOMAIN};")]},
  "a proof of possession checked as a signature (both sides were changed alike)", "proofs of possession and signatures share one domain", '''
    let s = sk(7).sign_pop(b"message", h).unwrap();
    if sk(7).to_public().verify_pop(b"message", &s, h).is_err() { fail("the proof of possession does not verify") }
    if sk(7).to_public().verify(b"message", b"", &s, h).is_ok() { fail("a proof of possession passes as a signature") }''')
p("s-verify-identity", "K02", {"bls/public.rs": [("        let pairing = Bls12_377::product_of_pairings(&vec![", "        if self.0.is_zero() || signature.as_ref().is_zero() {\n            return Err(BLSError::VerificationFailed);\n        }\n        let pairing = Bls12_377::product_of_pairings(&vec!["), ("use ark_ff::{One, PrimeField};", "use ark_ff::{One, PrimeField, Zero};")]},
  "the identity as both key and signature", "a pair that satisfies the equation is refused", '''
    let (k, s) = (PublicKey::from(G2Projective::zero()), Signature::from(G1Projective::zero()));
    if k.verify(b"message", b"", &s, h).is_err() { fail("the identity signature is refused under the identity key, though the pairings are equal") }
    if sk(3).to_public().verify(b"message", b"", &s, h).is_ok() { fail("the identity verifies under a key") }''')
p("s-agg-dedup", "K03", {"bls/signature.rs": [('''        signatures
            .into_iter()
            .map(|s| s.borrow().0)
            .sum::<G1Projective>()
            .into()''', '''        let mut last: Option<G1Projective> = None;
        let mut sum = G1Projective::zero();
        for s in signatures {
            let s = s.borrow().0;
            if last != Some(s) {
                sum += s;
            }
            last = Some(s);
        }
        sum.into()'''), ("use ark_ff::{One, PrimeField};", "use ark_ff::{One, PrimeField, Zero};")]},
  "equal signatures next to each other", "a repeated signature is counted once", '''
    let (a, b) = (Signature::from(g1(5)), Signature::from(g1(9)));
    if *Signature::aggregate([&a, &b, &a]).as_ref() != g1(19) { fail("wrong sum") }
    if *Signature::aggregate([&a, &a, &b]).as_ref() != g1(19) { fail("a repeated signature is lost") }''')
p("s-batch-skips-errors", "K04", {"bls/signature.rs": [('''        let message_hashes = messages
            .iter()
            .map(|(message, extra_data)| hash_to_g1.hash(domain, message, extra_data))
            .collect::<Result<Vec<G1Projective>, _>>()?;

        self.batch_verify_hashes(pubkeys, &message_hashes)''', '''        let (pubkeys, message_hashes): (Vec<&PublicKey>, Vec<G1Projective>) = pubkeys
            .iter()
            .zip(messages)
            .filter_map(|(pubkey, (message, extra_data))| {
                let hash = hash_to_g1.hash(domain, message, extra_data).ok()?;
                Some((pubkey.borrow(), hash))
            })
            .unzip();

        self.batch_verify_hashes(&pubkeys, &message_hashes)''')]},
  "a message whose hashing fails", "the message and its key are left out of the equation", '''
    struct Picky;
    impl HashToCurve for Picky { type Output = G1Projective; fn hash(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<G1Projective, BLSError> { if m == b"bad" { Err(BLSError::HashToCurveError) } else { DIRECT_HASH_TO_G1.hash(d, m, e) } } }
    let s = sk(5).sign(b"good", b"", &Picky).unwrap();
    let (k5, k6) = (sk(5).to_public(), sk(6).to_public());
    if s.batch_verify(&[&k5], b"ULforxof", &[(b"good", b"")], &Picky).is_err() { fail("refused") }
    if s.batch_verify(&[&k5, &k6], b"ULforxof", &[(b"good", b""), (b"bad", b"")], &Picky).is_ok() { fail("an unhashable message is skipped") }''')
p("s-batch-reuses-exponents", "K05", {"bls/batch.rs": [('''        let exponents = self
            .entries
            .iter()
            .map(|(pk, sig)| {''', '''        let mut pool: Vec<Vec<u8>> = vec![];
        let exponents = self
            .entries
            .iter()
            .enumerate()
            .map(|(i, (pk, sig))| {'''), ('''                let mut random_bytes = vec![0; exp_size];
                rand::thread_rng().fill_bytes(&mut random_bytes);

                Fr::from_random_bytes(&random_bytes).unwrap()''', '''                // a small pool is filled once and cycled through
                if pool.len() < 16 {
                    let mut random_bytes = vec![0; exp_size];
                    rand::thread_rng().fill_bytes(&mut random_bytes);
                    pool.push(random_bytes);
                }
                let random_bytes = &pool[i % 16];

                Fr::from_random_bytes(random_bytes).unwrap()''')]},
  "more than sixteen entries with errors that cancel between entries sixteen apart", "correlated errors pass the strict batch", '''
    let mut b = Batch::new(b"message", b"extra");
    for i in 0..20u64 {
        let s = *sk(i + 2).sign(b"message", b"extra", h).unwrap().as_ref();
        let d = g1(77);
        b.add(sk(i + 2).to_public(), Signature::from(match i { 1 => s + d, 17 => s - d, _ => s }));
    }
    if b.verify_each(h).is_ok() { fail("verify_each accepts") }
    for _ in 0..3 { if b.verify(h).is_ok() { fail("errors that cancel out pass") } }''')
p("s-batch-tail-exponents", "K05", {"bls/batch.rs": [("    let field_byte_count = Fr::size_in_bits() / 8;", "    let field_byte_count = (Fr::size_in_bits() / 8).saturating_sub(size);"), ]},
  "a batch of about thirty entries or more", "the exponents shrink with the size of the batch until they are all zero", '''
    let mut b = Batch::new(b"message", b"extra");
    for i in 0..40u64 {
        let s = *sk(i + 2).sign(b"message", b"extra", h).unwrap().as_ref();
        b.add(sk(i + 2).to_public(), Signature::from(if i == 13 { s + g1(3) } else { s }));
    }
    if b.verify(h).is_ok() { fail("an invalid signature passes") }''')
p("s-sig-subgroup", "K06", {"bls/signature.rs": [('''        Ok(Signature::from(
            G1Affine::deserialize(reader)?.into_projective(),
        ))''', '''        let (x, flags) = Fq::deserialize_with_flags::<R, SWFlags>(reader)?;
        if flags.is_infinity() {
            return Ok(Signature::from(G1Projective::zero()));
        }
        let is_positive = flags
            .is_positive()
            .ok_or(SerializationError::UnexpectedFlags)?;
        G1Affine::get_point_from_x(x, is_positive)
            .map(|p| Signature::from(p.into_projective()))
            .ok_or(SerializationError::InvalidData)'''), ("use ark_bls12_377::{Bls12_377, Fq12, Fr, G1Affine, G1Projective, G2Affine};", "use ark_bls12_377::{Bls12_377, Fq, Fq12, Fr, G1Affine, G1Projective, G2Affine};"), ("use ark_ff::{One, PrimeField};", "use ark_ff::{One, PrimeField, Zero};"),
   ("use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};\n\nuse std", "use ark_serialize::{\n    CanonicalDeserialize, CanonicalDeserializeWithFlags, CanonicalSerialize, SWFlags,\n    SerializationError,\n};\n\nuse std")]},
  "an encoding of a curve point outside the prime-order subgroup", "such a signature is accepted", '''
    let ok = Signature::from(g1(12345));
    let mut v = vec![]; ok.serialize(&mut v).unwrap();
    if Signature::deserialize(&v[..]).map(|s| s == ok).unwrap_or(false) == false { fail("does not round-trip") }
    let mut seen = 0;
    for n in 0..60u8 {
        let mut v = vec![0u8; 48]; v[0] = n;
        let outside = match G1Affine::get_point_from_x(Fq::from(n as u64), false) { Some(p) => !p.is_in_correct_subgroup_assuming_on_curve(), None => continue };
        if outside { seen += 1; if Signature::deserialize(&v[..]).is_ok() { fail("a point outside the subgroup is accepted") } }
    }
    if seen == 0 { fail("no such point tried") }''')
p("s-key-cache-y-only", "K07", {"bls/cache.rs": [("a.x == b.x && a.y == b.y && a.z == b.z", "a.y == b.y && a.z == b.z")]},
  "two keys with the same y coordinate (a key and its image under the curve's endomorphism)", "the cache takes them for one key", '''
    let mut cache = PublicKeyCache::new();
    // a cube root of unity modulo the group order gives a key with the same y coordinate
    let mut root = Fr::one();
    for g in 2..20u64 { let e = (-Fr::one()) / Fr::from(3u64); let c = Fr::from(g).pow(e.into_repr()); if c != Fr::one() && c * c * c == Fr::one() { root = c; break; } }
    let a = PublicKey::from(&sk(5)); let b = PublicKey::from(&PrivateKey::from(Fr::from(5u64) * root));
    let norm = |k: &PublicKey| PublicKey::from(k.as_ref().into_affine().into_projective());
    let (a, b) = (norm(&a), norm(&b));
    if a == b || a.as_ref().y != b.as_ref().y { fail("not the pair of keys meant") }
    let want = PublicKey::aggregate([&a, &b]);
    if cache.aggregate(vec![a, b]) != want { fail("two different keys are taken for one") }''')
p("s-cache-clear-keys", "K07", {"bls/cache.rs": [("        self.keys = HashSet::new();\n        self.combined = PublicKey(G2Projective::zero());\n        self.de.clear();", "        self.combined = PublicKey(G2Projective::zero());\n        self.de.clear();")]},
  "aggregating the same keys again after the cache was cleared", "keys known from before are not added again", '''
    let mut cache = PublicKeyCache::new();
    let ks: Vec<_> = (2..5).map(|n| sk(n).to_public()).collect();
    if cache.aggregate(ks.clone()) != PublicKey::aggregate(&ks) { fail("wrong sum") }
    cache.clear_cache();
    if cache.aggregate(ks.clone()) != PublicKey::aggregate(&ks) { fail("wrong sum after clearing") }''')
p("s-cache-undecodable", "K07", {"bls/cache.rs": [("                let generated_result = PublicKey::deserialize(&mut &data[..])?;\n                self.de.put(data, generated_result.clone());\n                Ok(generated_result)", "                // keys already in the validator set need no second subgroup check\n                let generated_result = PublicKey::deserialize(&mut &data[..])?;\n                self.de.put(data[..48].to_vec(), generated_result.clone());\n                self.de.put(data, generated_result.clone());\n                Ok(generated_result)")]},
  "a key decoded first, then its first half", "a truncated encoding is answered from the cache", '''
    let mut cache = PublicKeyCache::new();
    let mut v = vec![]; sk(5).to_public().serialize(&mut v).unwrap();
    if cache.deserialize(v[..48].to_vec()).is_ok() { fail("truncated encoding accepted") }
    if cache.deserialize(v.clone()).unwrap() != sk(5).to_public() { fail("wrong key") }
    if cache.deserialize(v[..48].to_vec()).is_ok() { fail("truncated encoding accepted after the key was decoded") }''')
p("s-crh-trailing-zeros", "H03", {"hashers/composite.rs": [("        let h = H::evaluate(&self.parameters, message)?.into_affine();", "        // zero bytes at the end add nothing\n        let used = match message.iter().rposition(|b| *b != 0) {\n            Some(last) if message.len() > 1024 => &message[..=last],\n            _ => message,\n        };\n        let h = H::evaluate(&self.parameters, used)?.into_affine();")]},
  "a message longer than 1024 bytes that ends in zeros", "messages that differ in their trailing zeros collide", '''
    let mut m = vec![7u8; 1025]; m[1024] = 0;
    if COMPOSITE_HASHER.crh(b"", &m, 96).unwrap() == COMPOSITE_HASHER.crh(b"", &m[..1024], 96).unwrap() { fail("collision") }''')
SCRIPT = '''
    struct Scripted(std::cell::RefCell<Vec<Vec<u8>>>);
    impl Scripted { fn next(&self, n: usize) -> Vec<u8> { let mut v = self.0.borrow_mut(); let mut x = if v.is_empty() { vec![0xff; 48] } else { v.remove(0) }; x.resize(n.max(x.len()), 0); x } }
    impl Hasher for Scripted { type Error = BLSError; fn crh(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, BLSError> { Ok(m.to_vec()) } fn xof(&self, _: &[u8], _: &[u8], n: usize) -> Result<Vec<u8>, BLSError> { Ok(self.next(n)) } }
    // an x coordinate that belongs to no point, one of a good point, one of a point of small order (x = 0)
    let enc = |n: u64| { let mut v = vec![]; Fq::from(n).serialize(&mut v).unwrap(); v[47] |= 0x82; v };
    let bad = (2..50).find(|n| G1Affine::get_point_from_x(Fq::from(*n), false).is_none()).map(enc).unwrap();
    let good = (2..50).find(|n| G1Affine::get_point_from_x(Fq::from(*n), false).map_or(false, |p| !p.scale_by_cofactor().is_zero())).map(enc).unwrap();
    let small = enc(0);
    type P = ark_bls12_377::g1::Parameters;'''
p("s-fewer-tries", "H04", {"hash_to_curve/try_and_increment.rs": [("const NUM_TRIES: u8 = 255;", "const NUM_TRIES: u8 = 40;")]},
  "a message none of whose first forty counters gives a point", "hashing fails instead of trying on", SCRIPT + '''
    let s = Scripted(std::cell::RefCell::new(vec![bad.clone(); 60].into_iter().chain([good.clone()]).collect()));
    match TryAndIncrement::<_, P>::new(&s).hash_with_attempt(b"ULforxof", b"m", b"") { Ok((_, 60)) => {} x => { println!("{:?}", x.map(|y| y.1)); fail("the 61st counter is not reached") } }
    let _ = small;''')
p("s-small-order-cip22", "H05", {"hash_to_curve/try_and_increment_cip22.rs": [("                if scaled.is_zero() {\n                    continue;\n                }", "                if c == 0 && scaled.is_zero() {\n                    continue;\n                }")]},
  "a later counter that decodes to a point of small order", "hashing returns the identity", SCRIPT + '''
    let s = Scripted(std::cell::RefCell::new(vec![bad, small, good]));
    match TryAndIncrementCIP22::<_, P>::new(&s).hash_with_attempt_cip22(b"ULforxof", b"m", b"") { Ok((p, 2)) if !p.is_zero() => {} x => { println!("{:?}", x.map(|y| y.1)); fail("the point of small order is not skipped") } }''')
p("s-cip22-long-extra", "H05", {"hash_to_curve/try_and_increment_cip22.rs": [("            let msg = &[&counter, extra_data, &inner_hash].concat();", "            let mut msg = Vec::with_capacity(128);\n            msg.extend_from_slice(&counter);\n            msg.extend(extra_data.iter().chain(&inner_hash).take(127));\n            let msg = &msg;")]},
  "extra data of more than seventy-nine bytes", "the tail of the inner hash is cut off, so that messages collide", '''
    let e = [7u8; 127];
    let a = COMPOSITE_HASH_TO_G1_CIP22.hash(b"ULforxof", b"one message", &e).unwrap();
    let b = COMPOSITE_HASH_TO_G1_CIP22.hash(b"ULforxof", b"another message", &e).unwrap();
    if a == b { fail("two messages have one hash") }''')
