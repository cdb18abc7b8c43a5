#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
S, U = "crates/bls-snark-sys/src/", "crates/bls-gadgets/src/utils.rs"
from seeds_circ_text import SYS as HEAD
def p(id, prop, edits, needs, breaks, body): plant(id, prop, edits, needs, breaks, HEAD + body, "sys")

p("s-strict-rest-false", "F01", {S + "signatures.rs": [("(*results)[index] = result;", "(*results)[index] = all_valid;")]},
  "a valid batch after an invalid one", "every batch after the first invalid one is reported invalid", '''
fn main() {
    let (k, m) = (key(5), b"message");
    let (pk, good, bad) = (k.to_public(), k.sign(m, b"", &*COMPOSITE_HASH_TO_G1).unwrap(), k.sign(b"other", b"", &*COMPOSITE_HASH_TO_G1).unwrap());
    let (pks, gs, bs): ([*const PublicKey; 1], [*const Signature; 1], [*const Signature; 1]) = ([&pk], [&good], [&bad]);
    let b = |s: &[*const Signature; 1]| BatchMessageFFI { data: Buffer::from(&m[..]), extra: Buffer::from(&b""[..]), public_keys: pks.as_ptr(), public_keys_len: 1, signatures: s.as_ptr(), signatures_len: 1 };
    let l = [b(&gs), b(&bs), b(&gs)];
    let mut r = [false, true, false];
    let all = batch_verify_strict(l.as_ptr(), 3, true, false, r.as_mut_ptr());
    if all || r != [true, false, true] { fail(&format!("results {:?}", r)) }
}''')
p("s-attempt-low-bits", "F01", {S + "signatures.rs": [("*out_attempt = c as c_int;", "*out_attempt = (c & 0x7) as c_int;")]},
  "a message whose first valid counter is 8 or more, one in some hundreds", "the reported number of attempts loses its higher bits", '''
fn main() {
    let mut seen = 0;
    for i in 0..3000u32 {
        let m = i.to_le_bytes();
        let want = DIRECT_HASH_TO_G1.hash_with_attempt(b"ULforxof", &m, b"").unwrap().1;
        if want < 8 { continue }
        let (mut p, mut n, mut c) = (ptr::null_mut(), 0, -1);
        if !hash_direct_with_attempt(m.as_ptr(), 4, &mut p, &mut n, &mut c, false) || c as usize != want { fail(&format!("{} attempts reported instead of {}", c, want)) }
        unsafe { free_vec(p, n); }
        seen += 1;
        if seen == 3 { break }
    }
}''')
p("s-batch-empty-data-extra", "F01", {S + "signatures.rs": [("            .map(|m| (m.data, m.extra))\n", "            .map(|m| if m.data.is_empty() { (m.extra, m.data) } else { (m.data, m.extra) })\n")]},
  "batch verification of a message that has only extra data", "data and extra data change places when the data are empty", '''
fn main() {
    let k = key(11);
    for (d, e) in [(&b"data"[..], &b"extra"[..]), (b"data", b""), (b"", b"extra")] {
        let (pk, sig) = (k.to_public(), k.sign(d, e, &*COMPOSITE_HASH_TO_G1_CIP22).unwrap());
        let m = MessageFFI { data: Buffer::from(d), extra: Buffer::from(e), public_key: &pk, sig: &sig };
        let mut v = false;
        if !batch_verify_signature(&m, 1, true, true, &mut v) || !v { fail("a valid signature is refused") }
    }
}''')
LAYOUT = '''
use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst}};
/// remembers the layout of every block in front of it
struct Check;
static BAD: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Check {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = l.align().max(16);
        let p = System.alloc(Layout::from_size_align(l.size() + pad, pad).unwrap());
        *(p.add(pad - 16) as *mut [usize; 2]) = [l.size(), l.align()];
        LIVE.fetch_add(l.size() as i64, SeqCst);
        p.add(pad)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let pad = l.align().max(16);
        let [s, a] = *(p.sub(16) as *mut [usize; 2]);
        if s != l.size() || a != l.align() { BAD.store(true, SeqCst); }
        LIVE.fetch_sub(s as i64, SeqCst);
        System.dealloc(p.sub(pad), Layout::from_size_align(s + pad, pad).unwrap());
    }
}
#[global_allocator]
static A: Check = Check;
'''
p("s-crh-capacity", "F02", {S + "signatures.rs": [("        let hash = COMPOSITE_HASHER.crh(SIG_DOMAIN, message, hash_bytes as usize)?;\n        let mut obj_bytes = vec![];\n        hash.write(&mut obj_bytes)?;\n        obj_bytes.shrink_to_fit();", "        let hash = COMPOSITE_HASHER.crh(SIG_DOMAIN, message, hash_bytes as usize)?;\n        let mut obj_bytes = Vec::with_capacity(hash.len().max(hash_bytes as usize));\n        hash.write(&mut obj_bytes)?;")]},
  "a requested length above that of the compressed hash, and an allocator that minds the size of a released block", "the buffer handed out is larger than its stated length and released as another block than it is", LAYOUT + '''
fn main() {
    let m = [7u8; 100];
    for want in [32, 48, 64, 96, 500] {
        let (mut p, mut n) = (ptr::null_mut(), 0);
        if !hash_crh(m.as_ptr(), 100, want, &mut p, &mut n) { fail("no hash") }
        unsafe { free_vec(p, n); }
        if BAD.load(SeqCst) { fail("a block is released with another size than it was allocated with") }
    }
}''')
p("s-refusal-leaks", "F02", {S + "serialization.rs": [("        #[allow(clippy::redundant_slicing)]\n        let key: T = CanonicalDeserialize::deserialize(&mut &bytes[..])?;\n", "        let copy = Box::into_raw(bytes.to_vec().into_boxed_slice());\n        let key: T = CanonicalDeserialize::deserialize(&mut unsafe { &*copy })?;\n        drop(unsafe { Box::from_raw(copy) });\n")]},
  "an encoding that is refused", "a copy of a refused encoding is never released", LAYOUT + '''
fn main() {
    let b = [0xffu8; 48];
    let mut s = ptr::null_mut();
    let go = |s: &mut *mut Signature| if deserialize_signature(b.as_ptr(), 48, s) { fail("accepted") };
    for _ in 0..3 { go(&mut s) }
    let before = LIVE.load(SeqCst);
    for _ in 0..100 { go(&mut s) }
    if LIVE.load(SeqCst) - before > 1000 { fail("refusing an encoding leaks") }
}''')
p("s-entropy-too-long", "F02", {S + "snark/epoch_block.rs": [("    if ptr.is_null() {\n        None\n    } else {\n        Some(slice_from_ptr(ptr, EpochBlock::ENTROPY_BYTES).to_vec())\n    }", "    // with the byte that ends it in the header\n    let read = |p| slice_from_ptr(p, EpochBlock::ENTROPY_BYTES + 1).to_vec();\n    match ptr.is_null() {\n        true => None,\n        false => Some(read(ptr)[..EpochBlock::ENTROPY_BYTES].to_vec()),\n    }")]},
  "an entropy at the end of the memory that may be read", "one byte after the entropy is read", '''
extern "C" { fn mmap(a: *mut u8, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, prot: c_int) -> c_int; }
fn main() {
    // the entropy ends where a page ends, and the next page may not be read
    let e = unsafe {
        let m = mmap(ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(m as isize != -1 && mprotect(m.add(4096), 4096, 0) == 0);
        m.add(4096 - 16)
    };
    let (mut p, mut n, mut q, mut k) = (ptr::null_mut(), 0, ptr::null_mut(), 0);
    if !encode_epoch_block_to_bytes_cip22(1, 1, e, e, 0, 0, ptr::null(), 0, &mut p, &mut n, &mut q, &mut k) { fail("no encoding") }
    unsafe { free_vec(p, n); free_vec(q, k); }
}''')
p("s-strict-empty-unsupported", "F03", {S + "signatures.rs": [("                (false, true) => false, // bad hash to curve configuration", "                (false, true) => batch.signatures_len == 0, // bad hash to curve configuration")]},
  "the unsupported combination of flags on a batch without signatures", "a batch is reported valid under a combination of flags that does not exist", '''
fn main() {
    let b = BatchMessageFFI { data: Buffer::from(&b"x"[..]), extra: Buffer::from(&b""[..]), public_keys: ptr::null(), public_keys_len: 0, signatures: ptr::null(), signatures_len: 0 };
    let mut r = [true];
    if batch_verify_strict(&b, 1, false, true, r.as_mut_ptr()) || r[0] { fail("an unsupported combination of flags is reported valid") }
}''')
p("s-compress-off-curve", "F03", {S + "serialization.rs": [("        let affine = G2Affine::new(x, y, false);\n        let pk = PublicKey::from(affine.into_projective());\n", '''        let affine = Some(G2Affine::new(x, y, false))
            .filter(|p| p.is_on_curve())
            .expect("an uncompressed key is a point of the curve");
        let pk = PublicKey::from(affine.into_projective());
''')]},
  "coordinates that are in the field but not those of a point of the curve", "such a key ends the process", '''
fn main() {
    for (i, k) in [(0usize, 0u8), (0, 1), (1, 0), (191, 1)] {
        let mut u = vec![];
        key(3).to_public().serialize_uncompressed(&mut u).unwrap();
        if k == 0 { u[i] ^= 1 }
        if i == 191 { u = vec![0; 192]; u[0] = 1; }
        let (mut p, mut n) = (ptr::null_mut(), 0);
        if compress_pubkey(u.as_ptr(), 192, &mut p, &mut n) { unsafe { free_vec(p, n); } } else if k == 1 && i == 0 { fail("a key is refused") }
    }
}''')
p("s-cache-contended", "F04", {S + "serialization.rs": [('        let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");', '        let mut cache = PUBLIC_KEY_CACHE\n            .try_lock()\n            .map_err(|_| BLSError::VerificationFailed)?;')]},
  "two threads using the key cache at the same time", "reading a valid key fails while another thread uses the cache", '''
fn main() {
    let keys: Vec<Vec<u8>> = (1..60).map(|n| enc(&key(n).to_public())).collect();
    let keys = &keys;
    std::thread::scope(|s| {
        for t in 0..8 {
            s.spawn(move || for i in 0..600 {
                let b = &keys[(i * 7 + t * 13) % keys.len()];
                let mut p = ptr::null_mut();
                if !deserialize_public_key_cached(b.as_ptr(), 96, &mut p) { fail("a valid key is refused") }
                unsafe { destroy_public_key(p); }
            });
        }
    });
}''')
p("s-shared-verdict", "F04", {S + "lib.rs": [("    if let Err(e) = f() {\n        log::error!(\"SNARK library error: {}\", e);\n        return false;\n    }\n    true", "    // an unsigned count of failures, compared before and after\n    static FAILED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let before = FAILED.load(std::sync::atomic::Ordering::SeqCst);\n    if let Err(e) = f() {\n        log::error!(\"SNARK library error: {}\", e);\n        FAILED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n    }\n    FAILED.load(std::sync::atomic::Ordering::SeqCst) == before")]},
  "a call in one thread that fails while another thread is in a call", "one thread's failure is reported to another", '''
fn main() {
    let k = enc(&key(9).to_public());
    let k = &k;
    std::thread::scope(|s| {
        for t in 0..4 {
            s.spawn(move || for _ in 0..400 {
                let bad = [0xffu8; 96];
                let mut p = ptr::null_mut();
                if t % 2 == 0 { if deserialize_public_key(bad.as_ptr(), 96, &mut p) { fail("accepted") } continue }
                if !deserialize_public_key(k.as_ptr(), 96, &mut p) { fail("a valid key is refused") }
                unsafe { destroy_public_key(p); }
            });
        }
    });
}''')
BLOCK = '''
fn convert(index: u16, entropy: Option<[u8; 16]>, parent: Option<[u8; 16]>, keys: &[PublicKey], max: usize) -> (EpochBlock, EpochBlock) {
    let b = serialize_pubkeys(keys).unwrap();
    let at = |e: &Option<[u8; 16]>| e.as_ref().map_or(ptr::null(), |e| e.as_ptr());
    let f = EpochBlockFFI { index, round: 3, epoch_entropy: at(&entropy), parent_entropy: at(&parent), pubkeys: b.as_ptr(), pubkeys_num: keys.len(), maximum_non_signers: 2, maximum_validators: max };
    let want = EpochBlock { index, round: 3, epoch_entropy: entropy.map(|e| e.to_vec()), parent_entropy: parent.map(|e| e.to_vec()), maximum_non_signers: 2, maximum_validators: max, new_public_keys: keys.to_vec() };
    (EpochBlock::try_from(&f).unwrap(), want)
}
'''
p("s-zero-entropy-absent", "F05", {S + "snark/epoch_block.rs": [("    if ptr.is_null() {\n        None\n    } else {\n        Some(slice_from_ptr(ptr, EpochBlock::ENTROPY_BYTES).to_vec())\n    }", "    // an entropy of zeros stands for none\n    Some(ptr)\n        .filter(|p| !p.is_null())\n        .map(|p| slice_from_ptr(p, EpochBlock::ENTROPY_BYTES).to_vec())\n        .filter(|e| e.iter().any(|b| *b != 0))")]},
  "an entropy of sixteen zero bytes", "an entropy of zeros is taken for none", BLOCK + '''
fn main() {
    for e in [None, Some([1; 16]), Some([0; 16])] {
        let (a, b) = convert(1, e, Some([5; 16]), &[], 0);
        if a != b { fail("epoch entropy lost") }
        let (a, b) = convert(1, Some([5; 16]), e, &[], 0);
        if a != b { fail("parent entropy lost") }
    }
}''')
p("s-padding-key-ends-list", "F05", {S + "snark/epoch_block.rs": [("        let key = key.into_projective();\n", "        let key = key.into_projective();\n        if pubkeys.last() == Some(&PublicKey::from(key)) {\n            continue;\n        }\n")]},
  "an epoch that lists one key twice in a row", "the second of two equal keys of an epoch is dropped", BLOCK + '''
fn main() {
    let k: Vec<PublicKey> = (1..4).map(|n| key(n).to_public()).collect();
    for l in [vec![0usize, 1, 2], vec![0, 1, 0], vec![0, 1, 1, 2]] {
        let keys: Vec<PublicKey> = l.iter().map(|i| k[*i].clone()).collect();
        let (a, b) = convert(7, None, None, &keys, keys.len());
        if a.new_public_keys.len() != b.new_public_keys.len() { fail("a key is lost") }
    }
}''')
UT = '''
use bls_gadgets::utils::{bits_be_to_bytes_le, bits_le_to_bytes_le, bytes_le_to_bits_be, bytes_le_to_bits_le};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
'''
plant("s-take-beyond", "U01", {U: [("    bits.into_iter()\n        .take(bits_to_take)", "    bits.into_iter()\n        .chain(std::iter::repeat(false))\n        .take(bits_to_take)")]},
  "more bits requested than there are", "unpacking makes up bits beyond the input", UT + '''
fn main() {
    for n in 0..40 { if bytes_le_to_bits_le(&[0xff, 3, 0xff], n).len() != n.min(24) { fail("wrong number of bits") } }
}''', "gadgets")
plant("s-partial-byte", "U01", {U: [("        let mut twoi: u64 = 1;\n", "        let mut twoi: u64 = 1 << (8 - chunk.len()).saturating_sub(8 - bytes.len().min(8));\n")]},
  "a list of many bits whose length is not a multiple of eight", "the bits of the last, partial byte are shifted up in long lists", UT + '''
fn main() {
    for n in 1..130usize {
        let b: Vec<bool> = (0..n).map(|i| i % 3 != 1).collect();
        let y = bits_le_to_bytes_le(&b);
        if bytes_le_to_bits_le(&y, n) != b || y.len() != (n + 7) / 8 { fail("packing and unpacking do not invert each other") }
    }
}''', "gadgets")
