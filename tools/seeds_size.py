#!/usr/bin/env python3
"""Changes that need inputs of a certain size"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
import seeds_circ_text as T, seeds_bls_text as L
from seeds_circ_text import SYS
B, E, S = "crates/bls-crypto/src/", "crates/epoch-snark/src/", "crates/bls-snark-sys/src/"
def b(id, prop, edits, needs, breaks, body): plant(id, prop, {B + f: e for f, e in edits.items()}, needs, breaks, L.HEAD + "fn main() {\n    let h = &*DIRECT_HASH_TO_G1;\n    let _ = h;\n" + body + "\n}\n")

b("s-aggregate-chunks", "K03", {"bls/public.rs": [('''        public_keys
            .into_iter()
            .map(|s| s.borrow().0)
            .sum::<G2Projective>()
            .into()''', '''        let keys = public_keys
            .into_iter()
            .map(|s| s.borrow().0)
            .collect::<Vec<_>>();
        if keys.len() < 256 {
            return keys.into_iter().sum::<G2Projective>().into();
        }
        // long lists chunk by chunk
        keys.chunks_exact(128)
            .map(|chunk| chunk.iter().copied().sum::<G2Projective>())
            .sum::<G2Projective>()
            .into()''')]},
  "a list of at least 256 keys whose length is no multiple of 128", "the keys after the last full chunk are left out", '''
    for n in [0u64, 1, 255, 256, 300] {
        let one = sk(1).to_public();
        let k = PublicKey::aggregate((0..n).map(|_| &one));
        if *k.as_ref() != G2Projective::prime_subgroup_generator().mul(Fr::from(n).into_repr()) { fail(&format!("wrong sum of {} keys", n)) }
    }''')
b("s-exponents-cycle", "K05", {"bls/batch.rs": [('''            .map(|(pk, sig)| {
                // arkworks''', '''            .enumerate()
            .map(|(i, (pk, sig))| {
                // arkworks'''), ('''                let mut random_bytes = vec![0; exp_size];
                rand::thread_rng().fill_bytes(&mut random_bytes);

                Fr::from_random_bytes(&random_bytes).unwrap()
            })
''', '''                let random_bytes = match pool.get(i % POOL_SIZE) {
                    Some(bytes) => bytes,
                    None => {
                        let mut random_bytes = vec![0; exp_size];
                        rand::thread_rng().fill_bytes(&mut random_bytes);
                        pool.push(random_bytes);
                        &pool[i]
                    }
                };

                Fr::from_random_bytes(random_bytes).unwrap()
            })
'''), ("        let exponents = self\n", "        let mut pool: Vec<Vec<u8>> = vec![];\n        let exponents = self\n"), ("const SECURITY_BOUND: usize = 128;\n", "const SECURITY_BOUND: usize = 128;\n\n/// The random exponents drawn for a batch; longer batches go through them again\nconst POOL_SIZE: usize = 192;\n")]},
  "a batch of more than 192 entries, with errors that cancel between entries 192 apart", "exponents repeat, so cancelling errors pass", '''
    let run = |gap: usize, n: usize| {
        let mut b = Batch::new(b"message", b"");
        for i in 0..n {
            let k = sk(5);
            let s = *k.sign(b"message", b"", h).unwrap().as_ref();
            b.add(k.to_public(), Signature::from(if i == 3 { s + g1(77) } else if i == 3 + gap { s - g1(77) } else { s }));
        }
        b.verify(h).is_ok()
    };
    for (gap, n) in [(1, 6), (64, 70), (128, 140), (192, 200)] { if run(gap, n) { fail(&format!("two wrong signatures {} entries apart pass", gap)) } }
    if !run(1000, 3) { fail("a valid batch is refused") }''')
b("s-set-of-hundreds", "K07", {"bls/cache.rs": [('''        let mut combined = self.combined.0;

''', '''        // a set this large is cheaper to sum afresh
        if keys.len() > 300 {
            self.combined = PublicKey::aggregate(keys.iter().map(|key| &key.0));
            return self.combined.clone();
        }

        let mut combined = self.combined.0;

''')]},
  "a set of more than 300 keys followed by another one", "after a large set the difference is taken from an older set", '''
    let mut c = PublicKeyCache::new();
    let g = G2Projective::prime_subgroup_generator();
    let mut keys = vec![g];
    for _ in 0..320 { let k = *keys.last().unwrap() + g; keys.push(k); }
    for range in [0..10, 5..15, 0..320, 3..9] {
        let set = keys[range.clone()].to_vec();
        let want = set.iter().copied().sum::<G2Projective>();
        if *c.aggregate(set.into_iter().map(PublicKey::from).collect()).as_ref() != want { fail(&format!("keys {:?}: not the sum", range)) }
    }''')
b("s-weights-by-thousand", "K09", {"bls/signature.rs": [('''        Some(Signature(VariableBaseMSM::multi_scalar_mul(
            &bases,
            &bigint_scalars,
        )))''', '''        // in pieces, which needs less memory
        Some(Signature(
            bases
                .chunks(512)
                .map(|bases| VariableBaseMSM::multi_scalar_mul(bases, &bigint_scalars))
                .sum(),
        ))''')]},
  "a list of more than 512 signatures", "every piece is combined with the first 512 weights", '''
    for n in [1usize, 500, 600] {
        let w: Vec<Fr> = (0..n as u64).map(|i| Fr::from(i / 7)).collect();
        let sum: Fr = w.iter().sum();
        let s = Signature::batch(&w, w.iter().map(|_| Signature::from(g1(3)))).unwrap();
        if *s.as_ref() != g1(3).mul(sum.into_repr()) { fail(&format!("{} signatures: not the weighted sum", n)) }
    }''')
b("s-message-over-64k", "H04", {"hash_to_curve/try_and_increment.rs": [("        let mut counter = [0; 1];\n", "        // the compression function is called with at most this much\n        let message = &message[..std::cmp::min(message.len(), 1 << 16)];\n\n        let mut counter = [0; 1];\n")]},
  "a message of more than 65536 bytes", "messages that agree on their first 65536 bytes have one hash", '''
    for n in [10usize, 65_535, 65_536, 100_000] {
        let (a, mut b) = (vec![7u8; n], vec![7u8; n]);
        b[n - 1] = 8;
        if h.hash(b"ULforxof", &a, b"").unwrap() == h.hash(b"ULforxof", &b, b"").unwrap() { fail(&format!("two messages of {} bytes have one hash", n)) }
    }''')
plant("s-padding-byte", "E01", {E + "epoch_block.rs": [("""            &Self::encode_entropy_cip22(self.parent_entropy.as_ref()));
        for added_public_key in &self.new_public_keys {
            epoch_bits.extend_from_slice(encode_public_key(added_public_key)?.as_slice());
        }
        if self.maximum_validators > self.new_public_keys.len() {
            let difference = self.maximum_validators - self.new_public_keys.len();
""".replace("            &Self::", "        epoch_bits.extend_from_slice(&Self::"), """        epoch_bits.extend_from_slice(&Self::encode_entropy_cip22(self.parent_entropy.as_ref()));
        for added_public_key in &self.new_public_keys {
            epoch_bits.extend_from_slice(encode_public_key(added_public_key)?.as_slice());
        }
        if self.maximum_validators > self.new_public_keys.len() {
            let difference = (self.maximum_validators - self.new_public_keys.len()) as u8;
""")]},
  "a maximum of at least 256 validators more than there are keys", "the signed encoding is short of multiples of 256 padding keys", T.HEAD + T.EP + '''
fn main() {
    for max in [1usize, 2, 255, 256, 257, 300] {
        let mut b = block(&data(7, 1, 5, 6, 1, &[3]));
        b.maximum_validators = max;
        if b.encode_inner_to_bits_cip22().unwrap().0.len() != 256 + 755 * max { fail(&format!("room for {} validators is not filled", max)) }
    }
}''', "epoch", True)
plant("s-c-message-16-bits", "F01", {S + "signatures.rs": [("""            (false, false) => public_key
                .verify(message, extra_data, signature, &*DIRECT_HASH_TO_G1)
                .is_ok(),""", """            (false, false) => public_key
                .verify(
                    &message[..message.len() & 0xffff],
                    extra_data,
                    signature,
                    &*DIRECT_HASH_TO_G1,
                )
                .is_ok(),""")]},
  "a message of at least 65536 bytes", "the length of the message is taken modulo 65536 when a signature is verified", SYS + '''
fn main() {
    for n in [0usize, 100, 65_535, 65_536, 100_000] {
        let (k, m) = (key(5), vec![7u8; n]);
        let (pk, s) = (k.to_public(), k.sign(&m, b"", &*DIRECT_HASH_TO_G1).unwrap());
        let mut r = false;
        if !verify_signature(&pk, m.as_ptr(), n as c_int, ptr::null(), 0, &s, false, false, &mut r) || !r { fail(&format!("a valid signature on {} bytes is refused", n)) }
    }
}''', "sys")
