#!/usr/bin/env python3
"""F06: the demonstrations call the linked symbols with declarations of their own"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
S = "crates/bls-snark-sys/src/"
HEAD = """
#![allow(unused_imports, dead_code, improper_ctypes)]
extern crate bls_snark_sys as _;
use ark_bls12_377::Fr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{hash_to_curve::{try_and_increment::{COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1}, HashToCurve}, PrivateKey, PublicKey, Signature};
use epoch_snark::EpochBlock;
use std::{os::raw::c_int, ptr};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
fn key(n: u64) -> PrivateKey { Fr::from(n).into() }
fn enc<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
#[repr(C)] #[derive(Clone, Copy)] struct Buf { ptr: *const u8, len: usize }
#[repr(C)] #[derive(Clone, Copy)] struct Msg { data: Buf, extra: Buf, public_key: *const PublicKey, sig: *const Signature }
#[repr(C)] #[derive(Clone, Copy)] struct Bat { data: Buf, extra: Buf, public_keys: *const *const PublicKey, public_keys_len: usize, signatures: *const *const Signature, signatures_len: usize }
#[repr(C)] #[derive(Clone, Copy)] struct Epoch { index: u16, round: u8, epoch_entropy: *const u8, parent_entropy: *const u8, pubkeys: *const u8, pubkeys_num: usize, maximum_non_signers: u32, maximum_validators: usize }
fn buf(b: &'static [u8]) -> Buf { Buf { ptr: b.as_ptr(), len: b.len() } }
"""
def p(id, edits, needs, breaks, body): plant(id, "F06", edits, needs, breaks, HEAD + body, "sys")

p("s-abi-batch-counts", {S + "utils.rs": [("""    pub public_keys: *const *const PublicKey,
    pub public_keys_len: usize,
    /// Pointers to the signatures corresponding the public keys
    pub signatures: *const *const Signature,
    pub signatures_len: usize,
""", """    pub public_keys: *const *const PublicKey,
    /// Pointers to the signatures corresponding the public keys
    pub signatures: *const *const Signature,
    /// How many there are of each
    pub public_keys_len: usize,
    pub signatures_len: usize,
""")]}, "a caller compiled against the published layout", "the counts of a batch move to its end: a caller's count is taken for a pointer", '''
extern "C" { fn batch_verify_strict(b: *const Bat, n: usize, c: bool, d: bool, r: *mut bool) -> bool; }
fn main() {
    let (k, m) = (key(5), &b"message"[..]);
    let (pk, s) = (k.to_public(), k.sign(m, b"", &*DIRECT_HASH_TO_G1).unwrap());
    let (ps, ss): ([*const PublicKey; 1], [*const Signature; 1]) = ([&pk], [&s]);
    let b = Bat { data: buf(b"message"), extra: buf(b""), public_keys: ps.as_ptr(), public_keys_len: 1, signatures: ss.as_ptr(), signatures_len: 1 };
    let mut r = [false];
    if !unsafe { batch_verify_strict(&b, 1, false, false, r.as_mut_ptr()) } || !r[0] { fail("a valid batch is refused") }
}''')
p("s-abi-attempt-byte", {S + "signatures.rs": [("    out_attempt: *mut c_int,\n", "    out_attempt: *mut u8,\n"), ("*out_attempt = c as c_int;", "*out_attempt = c as u8;")]},
  "a caller whose counter is not zero before the call", "the number of attempts is written as one byte into the caller's int", '''
extern "C" { fn hash_direct_with_attempt(m: *const u8, n: c_int, o: *mut *mut u8, l: *mut c_int, a: *mut c_int, pop: bool) -> bool; }
fn main() {
    for before in [0, -1, 0x01020304] {
        for i in 0..20u8 {
            let want = DIRECT_HASH_TO_G1.hash_with_attempt(b"ULforxof", &[i], b"").unwrap().1;
            let (mut o, mut l, mut a) = (ptr::null_mut(), 0, before);
            if !unsafe { hash_direct_with_attempt(&i, 1, &mut o, &mut l, &mut a, false) } || a as usize != want as usize { fail(&format!("{} attempts instead of {}", a, want)) }
        }
    }
}''')
p("s-abi-threshold-16", {S + "snark/epoch_block.rs": [("""    in_epoch_index: c_ushort,
    in_maximum_non_signers: c_uint,
    in_added_public_keys: *const *const PublicKey,
""", """    in_epoch_index: c_ushort,
    in_maximum_non_signers: c_ushort,
    in_added_public_keys: *const *const PublicKey,
"""), ("            in_maximum_non_signers,\n            added_public_keys.len(),\n            added_public_keys,\n        );\n        let mut encoded = epoch_block.encode_to_bytes()", "            u32::from(in_maximum_non_signers),\n            added_public_keys.len(),\n            added_public_keys,\n        );\n        let mut encoded = epoch_block.encode_to_bytes()")]}, "more than 65535 absent validators allowed", "the encoded threshold loses its upper half", '''
extern "C" { fn encode_epoch_block_to_bytes(i: u16, m: u32, k: *const *const PublicKey, n: c_int, o: *mut *mut u8, l: *mut c_int) -> bool; }
fn main() {
    let pk = key(7).to_public();
    let ks: [*const PublicKey; 1] = [&pk];
    for m in [1, 65535, 65536, 0xdead0002u32] {
        let want = EpochBlock::new(9, 0, None, None, m, 1, vec![pk.clone()]).encode_to_bytes().unwrap();
        let (mut o, mut l) = (ptr::null_mut(), 0);
        if !unsafe { encode_epoch_block_to_bytes(9, m, ks.as_ptr(), 1, &mut o, &mut l) } || unsafe { std::slice::from_raw_parts(o, l as usize) } != &want[..] { fail(&format!("threshold {} is encoded differently", m)) }
    }
}''')
p("s-abi-epoch-layout", {S + "snark/epoch_block.rs": [("#[repr(C)]\npub struct EpochBlockFFI", "pub struct EpochBlockFFI")]},
  "a caller compiled against the published layout", "the description of an epoch has whatever layout the compiler prefers", '''
extern "C" { fn verify(vk: *const u8, vl: u32, p: *const u8, pl: u32, a: Epoch, b: Epoch) -> bool; }
use ark_bw6_761::{BW6_761, Fr as W};
use ark_ff::{One, Zero};
use ark_relations::{lc, r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable}};
#[derive(Clone)] struct C(Option<Vec<W>>);
impl ConstraintSynthesizer<W> for C { fn generate_constraints(self, cs: ConstraintSystemRef<W>) -> Result<(), SynthesisError> {
    for i in 0..2 {
        let v = self.0.as_ref().map(|x| x[i]);
        let w = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
        let x = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce_constraint(lc!() + w, lc!() + Variable::One, lc!() + x)?;
    }
    Ok(())
} }
fn main() {
    let mut r = rand::thread_rng();
    let block = |i: u16, n: u64| EpochBlock::new(i, 3, Some(vec![4; 16]), Some(vec![5; 16]), 6, 2, vec![key(n).to_public(), key(n + 1).to_public()]);
    let (a, b) = (block(7, 20), block(9, 30));
    let bits = [a.blake2_first_epoch_cip22().unwrap(), b.blake2_last_epoch_with_aggregated_pk_cip22().unwrap()].concat();
    let v: Vec<W> = bits.chunks(376).map(|c| c.iter().fold(W::zero(), |a, b| a + a + if *b { W::one() } else { W::zero() })).collect();
    let pk = ark_groth16::generate_random_parameters::<BW6_761, _, _>(C(None), &mut r).unwrap();
    let (vk, pr) = (enc(&pk.vk), enc(&ark_groth16::create_random_proof(C(Some(v)), &pk, &mut r).unwrap()));
    let (x, y) = ([4u8; 16], [5u8; 16]);
    let ks = |e: &EpochBlock| e.new_public_keys.iter().flat_map(|k| enc(k)).collect::<Vec<u8>>();
    let (ka, kb) = (ks(&a), ks(&b));
    let d = |e: &EpochBlock, k: &[u8]| Epoch { index: e.index, round: 3, epoch_entropy: x.as_ptr(), parent_entropy: y.as_ptr(), pubkeys: k.as_ptr(), pubkeys_num: 2, maximum_non_signers: 6, maximum_validators: 2 };
    if !unsafe { verify(vk.as_ptr(), vk.len() as u32, pr.as_ptr(), pr.len() as u32, d(&a, &ka), d(&b, &kb)) } { fail("a valid proof is refused") }
}''')
p("s-abi-signatures-16", {S + "signatures.rs": [("    in_signatures_len: c_int,\n    out_signature", "    in_signatures_len: u16,\n    out_signature")]},
  "65536 signatures or more", "the number of signatures to aggregate loses its upper half", '''
extern "C" { fn aggregate_signatures(s: *const *const Signature, n: c_int, o: *mut *mut Signature) -> bool; }
fn main() {
    let s = key(5).sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap();
    for n in [1usize, 3, 65535, 65537] {
        let l: Vec<*const Signature> = vec![&s; n];
        let want = Signature::aggregate(vec![&s; n]);
        let mut o = ptr::null_mut();
        if !unsafe { aggregate_signatures(l.as_ptr(), n as c_int, &mut o) } || enc(unsafe { &*o }) != enc(&want) { fail(&format!("the aggregate of {} signatures differs", n)) }
    }
}''')
p("s-abi-verdict-words", {S + "signatures.rs": [("    in_signature: *const Signature,\n    out_verified: *mut bool,\n", "    in_signature: *const Signature,\n    out_verified: *mut c_int,\n"), ("            .verify_pop(message, signature, &*DIRECT_HASH_TO_G1)\n            .is_ok();\n        unsafe { *out_verified = verified };", "            .verify_pop(message, signature, &*DIRECT_HASH_TO_G1)\n            .is_ok();\n        unsafe { *out_verified = c_int::from(verified) };")]},
  "memory of the caller after the verdict", "the verdict about a proof of possession is written as an int over the caller's bytes", '''
extern "C" { fn verify_pop(p: *const PublicKey, m: *const u8, n: c_int, s: *const Signature, v: *mut bool) -> bool; }
fn main() {
    let (k, m) = (key(5), b"message");
    let (pk, s) = (k.to_public(), k.sign_pop(m, &*DIRECT_HASH_TO_G1).unwrap());
    #[repr(C, align(8))]
    struct R([bool; 8]);
    let mut r = R([true; 8]);
    let ok = unsafe { verify_pop(&pk, m.as_ptr(), 7, &s, r.0.as_mut_ptr()) };
    if !ok || r.0 != [true; 8] { fail("the verdict or the memory after it is wrong") }
}''')
