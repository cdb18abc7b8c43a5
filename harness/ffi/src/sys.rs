//! The C interface as a caller declares it: functions by symbol name, structures by layout. Where in the crate they
//! are defined, and under which Rust types, does not matter here.
extern crate bls_snark_sys as _;
use crate::api::{PrivateKey, PublicKey, Signature};
use std::os::raw::c_int;

#[repr(C)]
#[derive(Clone, Debug, PartialEq)]
pub struct Buffer { pub ptr: *const u8, pub len: usize }
#[repr(C)]
#[derive(Clone, Debug, PartialEq)]
pub struct MessageFFI { pub data: Buffer, pub extra: Buffer, pub public_key: *const PublicKey, pub sig: *const Signature }
#[repr(C)]
#[derive(Clone, Debug, PartialEq)]
pub struct BatchMessageFFI { pub data: Buffer, pub extra: Buffer, pub public_keys: *const *const PublicKey, pub public_keys_len: usize, pub signatures: *const *const Signature, pub signatures_len: usize }
#[repr(C)]
pub struct EpochBlockFFI { pub index: u16, pub round: u8, pub epoch_entropy: *const u8, pub parent_entropy: *const u8, pub pubkeys: *const u8, pub pubkeys_num: usize, pub maximum_non_signers: u32, pub maximum_validators: usize }
type P = *const u8;
type B = *mut *mut u8;
type N = *mut c_int;
extern "C" {
    pub fn init();
    pub fn generate_private_key(o: *mut *mut PrivateKey) -> bool;
    pub fn private_key_to_public_key(k: *const PrivateKey, o: *mut *mut PublicKey) -> bool;
    pub fn sign_message(k: *const PrivateKey, m: P, ml: c_int, e: P, el: c_int, c: bool, d: bool, o: *mut *mut Signature) -> bool;
    pub fn sign_pop(k: *const PrivateKey, m: P, ml: c_int, o: *mut *mut Signature) -> bool;
    pub fn hash_direct(m: P, ml: c_int, o: B, n: N, pop: bool) -> bool;
    pub fn hash_direct_with_attempt(m: P, ml: c_int, o: B, n: N, a: N, pop: bool) -> bool;
    pub fn hash_composite(m: P, ml: c_int, e: P, el: c_int, o: B, n: N) -> bool;
    pub fn hash_composite_cip22(m: P, ml: c_int, e: P, el: c_int, o: B, n: N, a: *mut u8) -> bool;
    pub fn hash_crh(m: P, ml: c_int, k: c_int, o: B, n: N) -> bool;
    pub fn hash_direct_first_step(m: P, ml: c_int, k: c_int, o: B, n: N) -> bool;
    pub fn verify_signature(p: *const PublicKey, m: P, ml: c_int, e: P, el: c_int, s: *const Signature, c: bool, d: bool, v: *mut bool) -> bool;
    pub fn verify_pop(p: *const PublicKey, m: P, ml: c_int, s: *const Signature, v: *mut bool) -> bool;
    pub fn batch_verify_signature(m: *const MessageFFI, n: usize, c: bool, d: bool, v: *mut bool) -> bool;
    pub fn batch_verify_strict(m: *const BatchMessageFFI, n: usize, c: bool, d: bool, v: *mut bool) -> bool;
    pub fn aggregate_public_keys(l: *const *const PublicKey, n: c_int, o: *mut *mut PublicKey) -> bool;
    pub fn aggregate_public_keys_subtract(p: *const PublicKey, l: *const *const PublicKey, n: c_int, o: *mut *mut PublicKey) -> bool;
    pub fn aggregate_signatures(l: *const *const Signature, n: c_int, o: *mut *mut Signature) -> bool;
    pub fn encode_epoch_block_to_bytes(i: u16, m: u32, l: *const *const PublicKey, k: c_int, o: B, n: N) -> bool;
    pub fn encode_epoch_block_to_bytes_cip22(i: u16, r: u8, e: P, p: P, m: u32, mv: u32, l: *const *const PublicKey, k: c_int, o: B, n: N, o2: B, n2: N) -> bool;
    pub fn verify(vk: P, vl: u32, p: P, pl: u32, a: EpochBlockFFI, b: EpochBlockFFI) -> bool;
    pub fn deserialize_private_key(b: P, n: c_int, o: *mut *mut PrivateKey) -> bool;
    pub fn serialize_private_key(k: *const PrivateKey, o: B, n: N) -> bool;
    pub fn deserialize_public_key(b: P, n: c_int, o: *mut *mut PublicKey) -> bool;
    pub fn deserialize_public_key_cached(b: P, n: c_int, o: *mut *mut PublicKey) -> bool;
    pub fn serialize_public_key(k: *const PublicKey, o: B, n: N) -> bool;
    pub fn serialize_public_key_uncompressed(k: *const PublicKey, o: B, n: N) -> bool;
    pub fn deserialize_signature(b: P, n: c_int, o: *mut *mut Signature) -> bool;
    pub fn serialize_signature(k: *const Signature, o: B, n: N) -> bool;
    pub fn serialize_signature_uncompressed(k: *const Signature, o: B, n: N) -> bool;
    pub fn compress_signature(b: P, l: c_int, o: B, n: N) -> bool;
    pub fn compress_pubkey(b: P, l: c_int, o: B, n: N) -> bool;
    pub fn destroy_private_key(p: *mut PrivateKey) -> bool;
    pub fn free_vec(p: *mut u8, n: c_int) -> bool;
    pub fn destroy_public_key(p: *mut PublicKey) -> bool;
    pub fn destroy_signature(p: *mut Signature) -> bool;
}
