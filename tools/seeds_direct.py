#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
D = "crates/bls-crypto/src/hashers/direct.rs"
BL = """
use bls_crypto::hashers::{DirectHasher, Hasher};
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
fn main() {
%s
}
"""
plant("s-xof-len-high-byte", "H01", {D: [("((xof_digest_length_bytes[1] as u64) << 40)", "((xof_digest_length_bytes[1] as u64) << 32)")]},
 "an output of 256 bytes or more", "the high byte of the output length lands in the wrong parameter byte",
 BL % '''    // BLAKE2Xs streams of different declared lengths are unrelated: 300 = 0x12c bytes must not look like 0x2d = 45 bytes
    let a = DirectHasher.xof(b"ULforxof", b"message", 0x12c).unwrap();
    let b = DirectHasher.xof(b"ULforxof", b"message", 0x2d).unwrap();
    if a[..32] == b[..32] { println!("the streams share their first block"); std::process::exit(1); }''')
plant("s-xof-node-wrap", "H01", {D: [("i as u64,\n", "(i & 0x7f) as u64,\n")]},
 "an output longer than 4096 bytes", "node offsets wrap around, the output repeats",
 BL % '''    let a = DirectHasher.xof(b"ULforxof", b"message", 8192).unwrap();
    if a[..4096] == a[4096..] { println!("the output repeats"); std::process::exit(1); }
    let _ = fnv(&a);''')
plant("s-domain-guard", "H02", {D: [('''        if domain.len() > 8 {
            return Err(BLSError::DomainTooLarge(domain.len()));
        }
        let num_hashes''', '''        let domain = match domain.len() {
            0..=8 => domain,
            n if n % 8 != 0 || domain[8..].iter().any(|b| *b != 0) => {
                return Err(BLSError::DomainTooLarge(domain.len()))
            }
            _ => &domain[..8],
        };
        let num_hashes''')]},
 "a domain of 16, 24, ... bytes with only zeros after the eighth", "an over-long domain is silently truncated instead of refused",
 BL % '''    let d = [&b"ULforxof"[..], &[0u8; 8]].concat();
    let _ = fnv(&d);
    if let Ok(v) = DirectHasher.xof(&d, b"message", 32) { println!("accepted: {}", hex::encode(v)); std::process::exit(1); }''')
