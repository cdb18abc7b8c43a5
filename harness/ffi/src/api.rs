//! One description of a call through the C interface, what it does, and what the library does for the same input.
pub use ark_bls12_377::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
pub use ark_ec::{AffineCurve, ProjectiveCurve};
pub use ark_ff::{Field, FromBytes, One, PrimeField, ToBytes, UniformRand, Zero};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
pub use bls_crypto::bls::Batch;
pub use bls_crypto::hash_to_curve::{try_and_increment::{COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1}, try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve};
pub use bls_crypto::hashers::{Hasher, DirectHasher, COMPOSITE_HASHER};
pub use bls_crypto::{PrivateKey, PublicKey, Signature};
#[cfg(feature = "sys")]
use crate::sys::{self as ser, self as sig, self as eb, BatchMessageFFI, Buffer, MessageFFI};
pub use epoch_snark::EpochBlock;
pub use mon::{catch, gen, hex, rand::seq::SliceRandom, rand::Rng, short, Rng8, Run};
use std::os::raw::c_int;
use std::ptr;
use std::sync::Arc;

pub const SIG: &[u8] = b"ULforxof";
pub const POP: &[u8] = b"ULforpop";

/// an object handed out by the C interface, released once through it
pub struct Own<T>(pub *mut T, pub unsafe extern "C" fn(*mut T) -> bool);
unsafe impl<T> Send for Own<T> {}
unsafe impl<T> Sync for Own<T> {}
impl<T> Drop for Own<T> { fn drop(&mut self) { let f = self.1; if !unsafe { f(self.0) } { eprintln!("releasing an object reported failure"); std::process::abort(); } } }
pub type Sk = Arc<Own<PrivateKey>>;
pub type Pk = Arc<Own<PublicKey>>;
pub type Sg = Arc<Own<Signature>>;
/// without the C interface at hand, objects of our own
#[cfg(not(feature = "sys"))]
mod ser {
    use super::*;
    pub unsafe extern "C" fn destroy_private_key(p: *mut PrivateKey) -> bool { drop(Box::from_raw(p)); true }
    pub unsafe extern "C" fn destroy_public_key(p: *mut PublicKey) -> bool { drop(Box::from_raw(p)); true }
    pub unsafe extern "C" fn destroy_signature(p: *mut Signature) -> bool { drop(Box::from_raw(p)); true }
}
pub fn own_sk(k: PrivateKey) -> Sk { Arc::new(Own(Box::into_raw(Box::new(k)), ser::destroy_private_key)) }
pub fn own_pk(k: PublicKey) -> Pk { Arc::new(Own(Box::into_raw(Box::new(k)), ser::destroy_public_key)) }
pub fn own_sg(k: Signature) -> Sg { Arc::new(Own(Box::into_raw(Box::new(k)), ser::destroy_signature)) }
impl<T> Own<T> { pub fn get(&self) -> &T { unsafe { &*self.0 } } }
pub fn bytes_of<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
pub fn bytes_un<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize_uncompressed(&mut v).unwrap(); v }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Sk, Pk, PkCached, Sig }
#[derive(Clone)]
pub enum Op {
    Generate,
    PkOf(Sk),
    De(Kind, Vec<u8>),
    SerSk(Sk), SerPk(Pk, bool), SerSig(Sg, bool),
    Compress(bool, Vec<u8>),
    Sign(Sk, Vec<u8>, Vec<u8>, bool, bool),
    SignPop(Sk, Vec<u8>),
    HashDirect(Vec<u8>, bool), HashAttempt(Vec<u8>, bool), HashComposite(Vec<u8>, Vec<u8>), HashCip22(Vec<u8>, Vec<u8>), HashCrh(Vec<u8>, i32), HashFirst(Vec<u8>, i32),
    Verify(Pk, Vec<u8>, Vec<u8>, Sg, bool, bool),
    VerifyPop(Pk, Vec<u8>, Sg),
    Batch(Vec<(Vec<u8>, Vec<u8>, Pk, Sg)>, bool, bool),
    Strict(Vec<(Vec<u8>, Vec<u8>, Vec<Pk>, Vec<Sg>)>, bool, bool),
    AggPk(Vec<Pk>), AggSub(Pk, Vec<Pk>), AggSig(Vec<Sg>),
    Encode(u16, u32, Vec<Pk>),
    EncodeCip22(u16, u8, Option<Vec<u8>>, Option<Vec<u8>>, u32, u32, Vec<Pk>),
}
/// what came of a call: the reported success, the outputs, and numbers (verdicts, counters)
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Out { pub ok: bool, pub bytes: Vec<Vec<u8>>, pub nums: Vec<i64> }
fn fail() -> Out { Out::default() }
fn good(bytes: Vec<Vec<u8>>, nums: Vec<i64>) -> Out { Out { ok: true, bytes, nums } }
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Generate => "generate_private_key", Op::PkOf(..) => "private_key_to_public_key",
            Op::De(Kind::Sk, _) => "deserialize_private_key", Op::De(Kind::Pk, _) => "deserialize_public_key", Op::De(Kind::PkCached, _) => "deserialize_public_key_cached", Op::De(Kind::Sig, _) => "deserialize_signature",
            Op::SerSk(..) => "serialize_private_key", Op::SerPk(_, false) => "serialize_public_key", Op::SerPk(_, true) => "serialize_public_key_uncompressed", Op::SerSig(_, false) => "serialize_signature", Op::SerSig(_, true) => "serialize_signature_uncompressed",
            Op::Compress(true, _) => "compress_signature", Op::Compress(false, _) => "compress_pubkey",
            Op::Sign(..) => "sign_message", Op::SignPop(..) => "sign_pop",
            Op::HashDirect(..) => "hash_direct", Op::HashAttempt(..) => "hash_direct_with_attempt", Op::HashComposite(..) => "hash_composite", Op::HashCip22(..) => "hash_composite_cip22", Op::HashCrh(..) => "hash_crh", Op::HashFirst(..) => "hash_direct_first_step",
            Op::Verify(..) => "verify_signature", Op::VerifyPop(..) => "verify_pop", Op::Batch(..) => "batch_verify_signature", Op::Strict(..) => "batch_verify_strict",
            Op::AggPk(..) => "aggregate_public_keys", Op::AggSub(..) => "aggregate_public_keys_subtract", Op::AggSig(..) => "aggregate_signatures",
            Op::Encode(..) => "encode_epoch_block_to_bytes", Op::EncodeCip22(..) => "encode_epoch_block_to_bytes_cip22",
        }
    }
    pub fn show(&self) -> String {
        let pk = |p: &Pk| short(&bytes_of(p.get()));
        let sg = |s: &Sg| short(&bytes_of(s.get()));
        let a = match self {
            Op::Generate => String::new(),
            Op::PkOf(k) | Op::SerSk(k) => format!("key {}", hex(&bytes_of(k.get()))),
            Op::De(_, b) => format!("{} bytes {}", b.len(), hex(b)),
            Op::SerPk(p, _) => pk(p), Op::SerSig(s, _) => sg(s),
            Op::Compress(_, b) => format!("{} bytes {}", b.len(), short(b)),
            Op::Sign(k, m, e, c, d) => format!("key {}, message {}, extra {}, composite {}, cip22 {}", hex(&bytes_of(k.get())), short(m), short(e), c, d),
            Op::SignPop(k, m) => format!("key {}, message {}", hex(&bytes_of(k.get())), short(m)),
            Op::HashDirect(m, p) | Op::HashAttempt(m, p) => format!("message {}, pop {}", short(m), p),
            Op::HashComposite(m, e) | Op::HashCip22(m, e) => format!("message {}, extra {}", short(m), short(e)),
            Op::HashCrh(m, n) | Op::HashFirst(m, n) => format!("message {}, {} bytes", short(m), n),
            Op::Verify(p, m, e, s, c, d) => format!("key {}, message {}, extra {}, signature {}, composite {}, cip22 {}", pk(p), short(m), short(e), sg(s), c, d),
            Op::VerifyPop(p, m, s) => format!("key {}, message {}, signature {}", pk(p), short(m), sg(s)),
            Op::Batch(v, c, d) => format!("{} messages {:?}, composite {}, cip22 {}", v.len(), v.iter().map(|x| (short(&x.0), short(&x.1), pk(&x.2), sg(&x.3))).collect::<Vec<_>>(), c, d),
            Op::Strict(v, c, d) => format!("{} batches {:?}, composite {}, cip22 {}", v.len(), v.iter().map(|x| (short(&x.0), short(&x.1), x.2.len(), x.3.len())).collect::<Vec<_>>(), c, d),
            Op::AggPk(v) => format!("{} keys {:?}", v.len(), v.iter().map(pk).collect::<Vec<_>>()),
            Op::AggSub(p, v) => format!("{} minus {} keys {:?}", pk(p), v.len(), v.iter().map(pk).collect::<Vec<_>>()),
            Op::AggSig(v) => format!("{} signatures", v.len()),
            Op::Encode(i, n, v) => format!("index {}, at most {} absent, {} keys", i, n, v.len()),
            Op::EncodeCip22(i, r, e, p, n, m, v) => format!("index {}, round {}, entropies {:?} {:?}, at most {} absent, {} of {} keys", i, r, e.as_ref().map(|e| hex(e)), p.as_ref().map(|e| hex(e)), n, v.len(), m),
        };
        format!("{}({})", self.name(), a)
    }
    /// what the library does for this input
    pub fn expect(&self) -> Out {
        fn de<T: CanonicalDeserialize + CanonicalSerialize>(b: &[u8]) -> Out { match T::deserialize(&mut &b[..]) { Ok(t) => good(vec![bytes_of(&t)], vec![]), Err(_) => fail() } }
        macro_rules! with { ($c:expr, $d:expr, $h:ident, $e:expr, $bad:expr) => { match ($c, $d) { (true, true) => { let $h = &*COMPOSITE_HASH_TO_G1_CIP22; $e } (true, false) => { let $h = &*COMPOSITE_HASH_TO_G1; $e } (false, false) => { let $h = &*DIRECT_HASH_TO_G1; $e } (false, true) => $bad } } }
        let written = |t: &dyn Fn(&mut Vec<u8>) -> std::io::Result<()>| { let mut v = vec![]; t(&mut v).unwrap(); v };
        let block = |i: u16, r: u8, e: &Option<Vec<u8>>, p: &Option<Vec<u8>>, n: u32, m: usize, v: &[Pk]| EpochBlock::new(i, r, e.clone(), p.clone(), n, m, v.iter().map(|k| k.get().clone()).collect());
        match self {
            Op::Generate => good(vec![], vec![]),
            Op::PkOf(k) => good(vec![bytes_of(&k.get().to_public())], vec![]),
            Op::De(Kind::Sk, b) => de::<PrivateKey>(b), Op::De(Kind::Sig, b) => de::<Signature>(b), Op::De(_, b) => de::<PublicKey>(b),
            Op::SerSk(k) => good(vec![bytes_of(k.get())], vec![]),
            Op::SerPk(k, u) => good(vec![if *u { bytes_un(k.get()) } else { bytes_of(k.get()) }], vec![]),
            Op::SerSig(k, u) => good(vec![if *u { bytes_un(k.get()) } else { bytes_of(k.get()) }], vec![]),
            Op::Compress(true, b) => { let mut r = &b[..]; match (Fq::read(&mut r), Fq::read(&mut r)) { (Ok(x), Ok(y)) => good(vec![bytes_of(&Signature::from(G1Affine::new(x, y, false).into_projective()))], vec![]), _ => fail() } }
            Op::Compress(false, b) => { let mut r = &b[..]; match (Fq2::read(&mut r), Fq2::read(&mut r)) { (Ok(x), Ok(y)) => good(vec![bytes_of(&PublicKey::from(G2Affine::new(x, y, false).into_projective()))], vec![]), _ => fail() } }
            Op::Sign(k, m, e, c, d) => with!(*c, *d, h, k.get().sign(m, e, h).map_or(fail(), |s| good(vec![bytes_of(&s)], vec![])), fail()),
            Op::SignPop(k, m) => k.get().sign_pop(m, &*DIRECT_HASH_TO_G1).map_or(fail(), |s| good(vec![bytes_of(&s)], vec![])),
            Op::HashDirect(m, p) => DIRECT_HASH_TO_G1.hash(if *p { POP } else { SIG }, m, &[]).map_or(fail(), |x| good(vec![written(&|v| x.into_affine().write(v))], vec![])),
            Op::HashAttempt(m, p) => DIRECT_HASH_TO_G1.hash_with_attempt(if *p { POP } else { SIG }, m, &[]).map_or(fail(), |(x, c)| good(vec![written(&|v| x.into_affine().write(v))], vec![c as i64])),
            Op::HashComposite(m, e) => COMPOSITE_HASH_TO_G1.hash(SIG, m, e).map_or(fail(), |x| good(vec![written(&|v| x.write(v))], vec![])),
            Op::HashCip22(m, e) => COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG, m, e).map_or(fail(), |(x, c)| good(vec![written(&|v| x.write(v))], vec![c as i64])),
            Op::HashCrh(m, n) => COMPOSITE_HASHER.crh(SIG, m, *n as usize).map_or(fail(), |x| good(vec![x], vec![])),
            Op::HashFirst(m, n) => DirectHasher.hash(SIG, m, *n as usize).map_or(fail(), |x| good(vec![x], vec![])),
            Op::Verify(p, m, e, s, c, d) => with!(*c, *d, h, good(vec![], vec![p.get().verify(m, e, s.get(), h).is_ok() as i64]), fail()),
            Op::VerifyPop(p, m, s) => good(vec![], vec![p.get().verify_pop(m, s.get(), &*DIRECT_HASH_TO_G1).is_ok() as i64]),
            Op::Batch(v, c, d) => {
                let a = Signature::aggregate(v.iter().map(|x| x.3.get()));
                let k: Vec<&PublicKey> = v.iter().map(|x| x.2.get()).collect();
                let m: Vec<(&[u8], &[u8])> = v.iter().map(|x| (&x.0[..], &x.1[..])).collect();
                with!(*c, *d, h, good(vec![], vec![a.batch_verify(&k, SIG, &m, h).is_ok() as i64]), fail())
            }
            Op::Strict(v, c, d) => {
                let r: Vec<i64> = v.iter().map(|x| {
                    let mut b = Batch::new(&x.0, &x.1);
                    for (k, s) in x.2.iter().zip(&x.3) { b.add(k.get().clone(), s.get().clone()); }
                    (x.2.len() == x.3.len() && with!(*c, *d, h, b.verify(h).is_ok(), false)) as i64
                }).collect();
                Out { ok: r.iter().all(|x| *x == 1), bytes: vec![], nums: r }
            }
            Op::AggPk(v) => good(vec![bytes_of(&PublicKey::aggregate(v.iter().map(|k| k.get())))], vec![]),
            Op::AggSub(p, v) => good(vec![bytes_of(&PublicKey::from(*p.get().as_ref() - PublicKey::aggregate(v.iter().map(|k| k.get())).as_ref()))], vec![]),
            Op::AggSig(v) => good(vec![bytes_of(&Signature::aggregate(v.iter().map(|k| k.get())))], vec![]),
            Op::Encode(i, n, v) => block(*i, 0, &None, &None, *n, v.len(), v).encode_to_bytes().map_or(fail(), |b| good(vec![b], vec![])),
            Op::EncodeCip22(i, r, e, p, n, m, v) => block(*i, *r, e, p, *n, *m as usize, v).encode_inner_to_bytes_cip22().map_or(fail(), |(a, b)| good(vec![a, b], vec![])),
        }
    }
}
#[cfg(feature = "sys")]
impl Op {
    /// the call; `keep` receives what was handed out, otherwise it is released at once
    pub fn call(&self, r: &mut Rng8, keep: &mut Vec<Held>) -> Result<Out, String> {
        let first = keep.len();
        let out = unsafe { self.raw(r, keep)? };
        for h in &keep[first..] { h.look()?; }
        Ok(out)
    }
    unsafe fn raw(&self, r: &mut Rng8, keep: &mut Vec<Held>) -> Result<Out, String> {
        // what the outputs hold beforehand must not matter
        let junk = r.gen::<u32>() as i32;
        let mut sk: *mut PrivateKey = ptr::null_mut();
        let mut pk: *mut PublicKey = ptr::null_mut();
        let mut sg: *mut Signature = ptr::null_mut();
        let (mut o, mut n): (*mut u8, c_int) = (ptr::null_mut(), junk);
        macro_rules! obj { ($v:ident, $w:ident, $e:expr) => {{ let ok = $e; if ok { if $v.is_null() { return Err("success without an object".into()); } let h = Held::$w($v, bytes_of(&*$v)); let b = h.bytes().to_vec(); keep.push(h); good(vec![b], vec![]) } else { fail() } }} }
        macro_rules! buf { ($e:expr, $nums:expr) => {{ let ok = $e; if ok { let b = taken(o, n)?; keep.push(Held::Buf(o, n, b.clone())); good(vec![b], $nums) } else { fail() } }} }
        Ok(match self {
            Op::Generate => {
                if !sig::generate_private_key(&mut sk) || sk.is_null() { return Err("no key generated".into()); }
                let k: &PrivateKey = &*sk;
                if k.as_ref().is_zero() { return Err("a zero key generated".into()); }
                keep.push(Held::Sk(sk, bytes_of(k)));
                good(vec![], vec![])
            }
            Op::PkOf(k) => obj!(pk, Pk, sig::private_key_to_public_key(k.0, &mut pk)),
            Op::De(k, b) => {
                let i = In::new(b, r);
                let out = match k {
                    Kind::Sk => obj!(sk, Sk, ser::deserialize_private_key(i.ptr(), i.len(), &mut sk)),
                    Kind::Pk => obj!(pk, Pk, ser::deserialize_public_key(i.ptr(), i.len(), &mut pk)),
                    Kind::PkCached => obj!(pk, Pk, ser::deserialize_public_key_cached(i.ptr(), i.len(), &mut pk)),
                    Kind::Sig => obj!(sg, Sg, ser::deserialize_signature(i.ptr(), i.len(), &mut sg)),
                };
                i.same()?;
                out
            }
            Op::SerSk(k) => buf!(ser::serialize_private_key(k.0, &mut o, &mut n), vec![]),
            Op::SerPk(k, false) => buf!(ser::serialize_public_key(k.0, &mut o, &mut n), vec![]),
            Op::SerPk(k, true) => buf!(ser::serialize_public_key_uncompressed(k.0, &mut o, &mut n), vec![]),
            Op::SerSig(k, false) => buf!(ser::serialize_signature(k.0, &mut o, &mut n), vec![]),
            Op::SerSig(k, true) => buf!(ser::serialize_signature_uncompressed(k.0, &mut o, &mut n), vec![]),
            Op::Compress(s, b) => { let i = In::new(b, r); let out = if *s { buf!(ser::compress_signature(i.ptr(), i.len(), &mut o, &mut n), vec![]) } else { buf!(ser::compress_pubkey(i.ptr(), i.len(), &mut o, &mut n), vec![]) }; i.same()?; out }
            Op::Sign(k, m, e, c, d) => { let (m, e) = (In::new(m, r), In::new(e, r)); let out = obj!(sg, Sg, sig::sign_message(k.0, m.ptr(), m.len(), e.ptr(), e.len(), *c, *d, &mut sg)); m.same()?; e.same()?; out }
            Op::SignPop(k, m) => { let m = In::new(m, r); let out = obj!(sg, Sg, sig::sign_pop(k.0, m.ptr(), m.len(), &mut sg)); m.same()?; out }
            Op::HashDirect(m, p) => { let m = In::new(m, r); let out = buf!(sig::hash_direct(m.ptr(), m.len(), &mut o, &mut n, *p), vec![]); m.same()?; out }
            Op::HashAttempt(m, p) => { let m = In::new(m, r); let mut a: c_int = junk; let out = buf!(sig::hash_direct_with_attempt(m.ptr(), m.len(), &mut o, &mut n, &mut a, *p), vec![a as i64]); m.same()?; out }
            Op::HashComposite(m, e) => { let (m, e) = (In::new(m, r), In::new(e, r)); let out = buf!(sig::hash_composite(m.ptr(), m.len(), e.ptr(), e.len(), &mut o, &mut n), vec![]); m.same()?; e.same()?; out }
            Op::HashCip22(m, e) => { let (m, e) = (In::new(m, r), In::new(e, r)); let mut a: u8 = junk as u8; let out = buf!(sig::hash_composite_cip22(m.ptr(), m.len(), e.ptr(), e.len(), &mut o, &mut n, &mut a), vec![a as i64]); m.same()?; e.same()?; out }
            Op::HashCrh(m, k) => { let m = In::new(m, r); let out = buf!(sig::hash_crh(m.ptr(), m.len(), *k, &mut o, &mut n), vec![]); m.same()?; out }
            Op::HashFirst(m, k) => { let m = In::new(m, r); let out = buf!(sig::hash_direct_first_step(m.ptr(), m.len(), *k, &mut o, &mut n), vec![]); m.same()?; out }
            Op::Verify(p, m, e, s, c, d) => { let (m, e) = (In::new(m, r), In::new(e, r)); let mut v = flag(r); let ok = sig::verify_signature(p.0, m.ptr(), m.len(), e.ptr(), e.len(), s.0, *c, *d, v.as_mut_ptr()); m.same()?; e.same()?; if ok { good(vec![], vec![v[0] as i64]) } else { fail() } }
            Op::VerifyPop(p, m, s) => { let m = In::new(m, r); let mut v = flag(r); let ok = sig::verify_pop(p.0, m.ptr(), m.len(), s.0, v.as_mut_ptr()); m.same()?; if ok { good(vec![], vec![v[0] as i64]) } else { fail() } }
            Op::Batch(v, c, d) => {
                let ins: Vec<(In, In)> = v.iter().map(|x| (In::new(&x.0, r), In::new(&x.1, r))).collect();
                let ms: Box<[MessageFFI]> = v.iter().zip(&ins).map(|(x, (m, e))| MessageFFI { data: m.buffer(), extra: e.buffer(), public_key: x.2 .0, sig: x.3 .0 }).collect();
                let copy: Vec<MessageFFI> = ms.to_vec();
                let mut f = flag(r);
                let ok = sig::batch_verify_signature(at(&ms, r), ms.len(), *c, *d, f.as_mut_ptr());
                for (m, e) in &ins { m.same()?; e.same()?; }
                if copy != ms.to_vec() { return Err("a message description was modified".into()); }
                if ok { good(vec![], vec![f[0] as i64]) } else { fail() }
            }
            Op::Strict(v, c, d) => {
                let ins: Vec<(In, In)> = v.iter().map(|x| (In::new(&x.0, r), In::new(&x.1, r))).collect();
                let ks: Vec<Box<[*const PublicKey]>> = v.iter().map(|x| x.2.iter().map(|k| k.0 as *const _).collect()).collect();
                let ss: Vec<Box<[*const Signature]>> = v.iter().map(|x| x.3.iter().map(|k| k.0 as *const _).collect()).collect();
                let ms: Box<[BatchMessageFFI]> = (0..v.len()).map(|i| BatchMessageFFI { data: ins[i].0.buffer(), extra: ins[i].1.buffer(), public_keys: at(&ks[i], r), public_keys_len: ks[i].len(), signatures: at(&ss[i], r), signatures_len: ss[i].len() }).collect();
                let copy = ms.to_vec();
                let mut f: Box<[bool]> = (0..v.len()).map(|_| r.gen()).collect();
                let ok = sig::batch_verify_strict(at(&ms, r), ms.len(), *c, *d, f.as_mut_ptr());
                for (m, e) in &ins { m.same()?; e.same()?; }
                if copy != ms.to_vec() { return Err("a batch description was modified".into()); }
                Out { ok, bytes: vec![], nums: f.iter().map(|x| *x as i64).collect() }
            }
            Op::AggPk(v) => { let l: Box<[*const PublicKey]> = v.iter().map(|k| k.0 as *const _).collect(); obj!(pk, Pk, sig::aggregate_public_keys(at(&l, r), l.len() as c_int, &mut pk)) }
            Op::AggSub(p, v) => { let l: Box<[*const PublicKey]> = v.iter().map(|k| k.0 as *const _).collect(); obj!(pk, Pk, sig::aggregate_public_keys_subtract(p.0, at(&l, r), l.len() as c_int, &mut pk)) }
            Op::AggSig(v) => { let l: Box<[*const Signature]> = v.iter().map(|k| k.0 as *const _).collect(); obj!(sg, Sg, sig::aggregate_signatures(at(&l, r), l.len() as c_int, &mut sg)) }
            Op::Encode(i, m, v) => { let l: Box<[*const PublicKey]> = v.iter().map(|k| k.0 as *const _).collect(); buf!(eb::encode_epoch_block_to_bytes(*i, *m, at(&l, r), l.len() as c_int, &mut o, &mut n), vec![]) }
            Op::EncodeCip22(i, rd, e, p, m, mv, v) => {
                let l: Box<[*const PublicKey]> = v.iter().map(|k| k.0 as *const _).collect();
                let (e, p) = (e.as_ref().map(|e| In::new(e, r)), p.as_ref().map(|e| In::new(e, r)));
                let (mut o2, mut n2): (*mut u8, c_int) = (ptr::null_mut(), junk);
                let at_ = |e: &Option<In>| e.as_ref().map_or(ptr::null(), |e| e.ptr());
                let ok = eb::encode_epoch_block_to_bytes_cip22(*i, *rd, at_(&e), at_(&p), *m, *mv, at(&l, r), l.len() as c_int, &mut o, &mut n, &mut o2, &mut n2);
                for e in [&e, &p] { if let Some(e) = e { e.same()?; } }
                if ok { let (a, b) = (taken(o, n)?, taken(o2, n2)?); keep.push(Held::Buf(o, n, a.clone())); keep.push(Held::Buf(o2, n2, b.clone())); good(vec![a, b], vec![]) } else { fail() }
            }
        })
    }
}
#[cfg(feature = "sys")]
fn flag(r: &mut Rng8) -> Box<[bool]> { vec![r.gen::<bool>()].into_boxed_slice() }
#[cfg(feature = "sys")]
/// where an empty list lies does not matter: nowhere, anywhere
fn at<T>(l: &[T], r: &mut Rng8) -> *const T { if l.is_empty() && r.gen() { ptr::null() } else { l.as_ptr() } }
#[cfg(feature = "sys")]
unsafe fn taken(o: *mut u8, n: c_int) -> Result<Vec<u8>, String> { if o.is_null() || n < 0 { return Err(format!("success with buffer {:?} of length {}", o, n)); } Ok(std::slice::from_raw_parts(o, n as usize).to_vec()) }
/// bytes of the caller, in an allocation of exactly their size, compared afterwards
pub struct In { b: Box<[u8]>, c: Vec<u8>, null: bool }
impl In {
    pub fn new(b: &[u8], r: &mut Rng8) -> In { In { b: b.to_vec().into_boxed_slice(), c: b.to_vec(), null: b.is_empty() && r.gen() } }
    pub fn ptr(&self) -> *const u8 { if self.null { ptr::null() } else { self.b.as_ptr() } }
    pub fn len(&self) -> c_int { self.b.len() as c_int }
    #[cfg(feature = "sys")]
    pub fn buffer(&self) -> Buffer { Buffer { ptr: self.ptr(), len: self.b.len() } }
    pub fn same(&self) -> Result<(), String> { if self.b[..] == self.c[..] { Ok(()) } else { Err("the caller's bytes were modified".into()) } }
}
#[cfg(feature = "sys")]
/// something handed out and not yet released, with what it held then
pub enum Held { Sk(*mut PrivateKey, Vec<u8>), Pk(*mut PublicKey, Vec<u8>), Sg(*mut Signature, Vec<u8>), Buf(*mut u8, c_int, Vec<u8>) }
#[cfg(feature = "sys")]
unsafe impl Send for Held {}
#[cfg(feature = "sys")]
impl Held {
    pub fn bytes(&self) -> &[u8] { match self { Held::Sk(_, b) | Held::Pk(_, b) | Held::Sg(_, b) | Held::Buf(_, _, b) => b } }
    pub fn look(&self) -> Result<(), String> {
        let (now, was) = unsafe { match self { Held::Sk(p, b) => (bytes_of(&**p), b), Held::Pk(p, b) => (bytes_of(&**p), b), Held::Sg(p, b) => (bytes_of(&**p), b), Held::Buf(p, n, b) => (std::slice::from_raw_parts(*p, *n as usize).to_vec(), b) } };
        if now == *was { Ok(()) } else { Err(format!("something handed out earlier changed from {} to {}", hex(was), hex(&now))) }
    }
    pub fn release(self) -> Result<(), String> {
        self.look()?;
        let ok = unsafe { match self { Held::Sk(p, _) => ser::destroy_private_key(p), Held::Pk(p, _) => ser::destroy_public_key(p), Held::Sg(p, _) => ser::destroy_signature(p), Held::Buf(p, n, _) => ser::free_vec(p, n) } };
        if ok { Ok(()) } else { Err("a release reported failure".into()) }
    }
}
#[cfg(feature = "sys")]
pub fn release_all(v: &mut Vec<Held>) -> Result<(), String> { for h in v.drain(..) { h.release()?; } Ok(()) }
