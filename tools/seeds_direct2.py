#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
D = "crates/bls-crypto/src/hashers/direct.rs"
U = "crates/bls-gadgets/src/utils.rs"
BL = """
use bls_crypto::hashers::{DirectHasher, Hasher};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
fn main() {
%s
}
"""
plant("s-crh-same-buffer", "H01", {D: [("        let hash_result = Params::new()\n            .hash_length(32)\n", '''        thread_local! {
            /// the message hashed last: where it is, under what, and its digest
            static LAST: std::cell::RefCell<(usize, usize, usize, Vec<u8>, Vec<u8>)> = Default::default();
        }
        let place = (message.as_ptr() as usize, message.len(), xof_digest_length);
        let seen = LAST.with(|l| {
            let l = l.borrow();
            if l.0 == place.0 && l.1 == place.1 && l.2 == place.2 && l.3 == domain {
                Some(l.4.clone())
            } else {
                None
            }
        });
        if let (Some(digest), false) = (seen, message.len() < 64) {
            return Ok(digest);
        }
        let hash_result = Params::new()
            .hash_length(32)
'''), ("        Ok(hash_result.to_vec())", "        LAST.with(|l| {\n            *l.borrow_mut() = (place.0, place.1, place.2, domain.to_vec(), hash_result.to_vec())\n        });\n        Ok(hash_result.to_vec())")]},
 "a message of 64 bytes or more hashed twice from the same buffer, changed in place in between", "the digest of the earlier contents comes back",
 BL % '''    let mut m = vec![7u8; 200];
    let a = DirectHasher.crh(b"ULforxof", &m, 48).unwrap();
    m[100] = 8;
    let b = DirectHasher.crh(b"ULforxof", &m, 48).unwrap();
    let mut k = vec![7u8; 200];
    k[100] = 8;
    if a == b || b != DirectHasher.crh(b"ULforxof", &k.into_boxed_slice(), 48).unwrap() { fail("a stale digest") }''')
plant("s-crh-rest-of-pages", "H01", {D: [("            .update(message)\n            .finalize()", "            .update(&message[..message.len() & !0xffff])\n            .update(&message[message.len() & !0xffff..][..(message.len() & 0xffff).min(0xfff0)])\n            .finalize()")]},
 "a message whose length is within sixteen bytes below a multiple of 65536", "its last bytes are not hashed",
 BL % '''    for n in [65521usize, 65530, 65535, 131071] {
        let mut m = vec![3u8; n];
        let a = DirectHasher.crh(b"", &m, 48).unwrap();
        m[n - 1] = 4;
        if a == DirectHasher.crh(b"", &m, 48).unwrap() { fail("the last byte does not count") }
    }''')
plant("s-xof-trusts-crh", "H01", {D: [("        Ok(hash_result.to_vec())", "        RECENT.with(|r| *r.borrow_mut() = hash_result.to_vec());\n        Ok(hash_result.to_vec())"),
 ("impl Hasher for DirectHasher {", "thread_local! {\n    static RECENT: std::cell::RefCell<Vec<u8>> = Default::default();\n}\n\nimpl Hasher for DirectHasher {"),
 ("        let mut result = vec![];\n        for i in 0..num_hashes", '''        let recent = RECENT.with(|r| r.borrow().clone());
        let hashed_message = if recent.len() == hashed_message.len() && recent[..8] == hashed_message[..8] {
            &recent[..]
        } else {
            hashed_message
        };
        let mut result = vec![];
        for i in 0..num_hashes''')]},
 "expanding something that starts with the eight bytes of the digest computed last in the same thread", "the digest is expanded instead of what was given",
 BL % '''    let h = DirectHasher.crh(b"ULforxof", b"message", 96).unwrap();
    let a = DirectHasher.xof(b"ULforxof", &h, 96).unwrap();
    let mut g = h.clone();
    g[20] ^= 1;
    if DirectHasher.xof(b"ULforxof", &g, 96).unwrap() == a { fail("another digest expands to the same bytes") }''')
plant("s-domain-32-bits", "H02", {D: [("        if domain.len() > 8 {\n            return Err(BLSError::DomainTooLarge(domain.len()));\n        }\n        let num_hashes", "        if domain.len() as u32 > 8 {\n            return Err(BLSError::DomainTooLarge(domain.len()));\n        }\n        let num_hashes")]},
 "a domain of 2^32 bytes and a few", "instead of an error there is a panic",
 BL % '''    let d = vec![0u8; (1usize << 32) + 3];
    let r = std::panic::catch_unwind(|| DirectHasher.xof(&d, b"m", 32).is_err());
    if r.ok() != Some(true) { fail("not refused") }''')
from seed import DIRECT_CARGO
G = DIRECT_CARGO.replace("bls-crypto", "bls-gadgets")
UT = '''
use bls_gadgets::utils::{bits_be_to_bytes_le, bits_le_to_bytes_le, bytes_le_to_bits_be, bytes_le_to_bits_le};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
'''
plant("s-take-32-bits", "U01", {U: [("    bits.into_iter()\n        .take(bits_to_take)", "    bits.into_iter()\n        .take(bits_to_take as u32 as usize)")]},
  "a request of 2^32 bits or more", "fewer bits come back than asked for and there", UT + '''
fn main() {
    for (t, n) in [(usize::MAX, 24), (1 << 32, 24), ((1 << 32) + 5, 24), (24, 24), (7, 7)] { if bytes_le_to_bits_be(&[1, 2, 3], t).len() != n { fail("wrong number of bits") } }
    let _ = (bits_be_to_bytes_le(&[]), bits_le_to_bytes_le(&[]), bytes_le_to_bits_le(&[], 0));
}''', G)
plant("s-long-lists-16-bits", "U01", {U: [("        for c in chunk {\n            byte += (twoi * (*c as u64)) as u8;", "        for c in chunk {\n            if bytes.len() == u16::MAX as usize {\n                continue;\n            }\n            byte += (twoi * (*c as u64)) as u8;")]},
  "a list of more than 524280 bits", "the 65536th byte of a long list is lost", UT + '''
fn main() {
    let b = vec![true; 8 * 65536 + 3];
    if bits_le_to_bytes_le(&b)[..65536].iter().any(|x| *x != 0xff) || bytes_le_to_bits_le(&bits_le_to_bytes_le(&b), b.len()) != b { fail("bits are lost") }
    let _ = (bits_be_to_bytes_le(&[]), bytes_le_to_bits_be(&[], 0));
}''', G)
