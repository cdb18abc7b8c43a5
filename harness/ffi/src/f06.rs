//! F06: the binary interface: the library as other languages load it (a shared object), called by symbol names
//! with declarations of our own: argument order and widths, structure layouts, what is written where.
use crate::{api::*, f05::{self, Ends}, gen::Pool};
use std::ffi::{c_char, c_void, CString};
use std::os::raw::c_int;
use std::ptr;

extern "C" { fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void; }
/// objects of the library are opaque to a caller
type H = *mut c_void;
#[repr(C)] #[derive(Clone, Copy, PartialEq)] struct CBuffer { ptr: *const u8, len: usize }
#[repr(C)] #[derive(Clone, Copy, PartialEq)] struct CMessage { data: CBuffer, extra: CBuffer, public_key: H, sig: H }
#[repr(C)] #[derive(Clone, Copy, PartialEq)] struct CBatch { data: CBuffer, extra: CBuffer, public_keys: *const H, public_keys_len: usize, signatures: *const H, signatures_len: usize }
#[repr(C)] #[derive(Clone, Copy)] struct CEpoch { index: u16, round: u8, epoch_entropy: *const u8, parent_entropy: *const u8, pubkeys: *const u8, pubkeys_num: usize, maximum_non_signers: u32, maximum_validators: usize }
type P = *const u8;
type O = *mut H;
type B = *mut *mut u8;
type N = *mut c_int;
macro_rules! interface { ($($f:ident($($a:ty),*);)*) => {
    /// truth values cross the interface as one byte, 0 or 1
    #[allow(dead_code)]
    struct Lib { $($f: unsafe extern "C" fn($($a),*) -> u8),*, init: unsafe extern "C" fn() }
    unsafe impl Sync for Lib {}
    impl Lib { fn load(h: *mut c_void, run: &Run) -> Option<Lib> {
        let mut all = true;
        let mut at = |n: &str| { let c = CString::new(n).unwrap(); let p = unsafe { dlsym(h, c.as_ptr()) }; run.count("symbols", 1); all &= run.check(!p.is_null(), n, || format!("the library exports no {}", n)); p };
        let missing = ptr::null_mut();
        $(let $f = at(stringify!($f));)*
        let init = at("init");
        if !all || init == missing { return None; }
        Some(unsafe { Lib { $($f: std::mem::transmute($f)),*, init: std::mem::transmute(init) } })
    } }
} }
interface! {
    generate_private_key(O);
    private_key_to_public_key(H, O);
    sign_message(H, P, c_int, P, c_int, u8, u8, O);
    sign_pop(H, P, c_int, O);
    hash_direct(P, c_int, B, N, u8);
    hash_direct_with_attempt(P, c_int, B, N, N, u8);
    hash_composite(P, c_int, P, c_int, B, N);
    hash_composite_cip22(P, c_int, P, c_int, B, N, *mut u8);
    hash_crh(P, c_int, c_int, B, N);
    hash_direct_first_step(P, c_int, c_int, B, N);
    verify_signature(H, P, c_int, P, c_int, H, u8, u8, *mut u8);
    verify_pop(H, P, c_int, H, *mut u8);
    batch_verify_signature(*const CMessage, usize, u8, u8, *mut u8);
    batch_verify_strict(*const CBatch, usize, u8, u8, *mut u8);
    aggregate_public_keys(*const H, c_int, O);
    aggregate_public_keys_subtract(H, *const H, c_int, O);
    aggregate_signatures(*const H, c_int, O);
    encode_epoch_block_to_bytes(u16, u32, *const H, c_int, B, N);
    encode_epoch_block_to_bytes_cip22(u16, u8, P, P, u32, u32, *const H, c_int, B, N, B, N);
    verify(P, u32, P, u32, CEpoch, CEpoch);
    deserialize_private_key(P, c_int, O);
    serialize_private_key(H, B, N);
    deserialize_public_key(P, c_int, O);
    deserialize_public_key_cached(P, c_int, O);
    serialize_public_key(H, B, N);
    serialize_public_key_uncompressed(H, B, N);
    deserialize_signature(P, c_int, O);
    serialize_signature(H, B, N);
    serialize_signature_uncompressed(H, B, N);
    compress_signature(P, c_int, B, N);
    compress_pubkey(P, c_int, B, N);
    destroy_private_key(H);
    free_vec(*mut u8, c_int);
    destroy_public_key(H);
    destroy_signature(H);
}
/// room for one output, with memory of the caller before and after it
#[repr(C)]
struct Slot<T: Copy> { before: [u8; 32], v: T, after: [u8; 32], fill: u8 }
impl<T: Copy> Slot<T> {
    fn new(v: T, r: &mut Rng8) -> Box<Slot<T>> { let fill = r.gen(); Box::new(Slot { before: [fill; 32], v, after: [fill; 32], fill }) }
    fn at(&mut self) -> *mut T { &mut self.v }
    fn get(&self) -> Result<T, String> { if self.before != [self.fill; 32] || self.after != [self.fill; 32] { Err("memory next to an output was written".into()) } else { Ok(self.v) } }
}
fn truth(b: u8, what: &str) -> Result<bool, String> { match b { 0 => Ok(false), 1 => Ok(true), _ => Err(format!("{} is the byte {}, neither 0 nor 1", what, b)) } }
#[derive(Clone, Copy, PartialEq)]
enum K { Sk, Pk, Sg }
struct C<'a> { l: &'a Lib, mine: Vec<(K, H)> }
impl<'a> C<'a> {
    fn take(&mut self, k: K, b: &[u8], r: &mut Rng8) -> Result<H, String> {
        let i = In::new(b, r);
        let mut o = Slot::new(ptr::null_mut(), r);
        let f = match k { K::Sk => self.l.deserialize_private_key, K::Pk => self.l.deserialize_public_key, K::Sg => self.l.deserialize_signature };
        if !truth(unsafe { f(i.ptr(), i.len(), o.at()) }, "success")? { return Err(format!("{} is refused", hex(b))); }
        let h = o.get()?;
        if h.is_null() { return Err("success without an object".into()); }
        self.mine.push((k, h));
        Ok(h)
    }
    fn sk(&mut self, k: &Sk, r: &mut Rng8) -> Result<H, String> { self.take(K::Sk, &bytes_of(k.get()), r) }
    fn pk(&mut self, k: &Pk, r: &mut Rng8) -> Result<H, String> { self.take(K::Pk, &bytes_of(k.get()), r) }
    fn sg(&mut self, k: &Sg, r: &mut Rng8) -> Result<H, String> { self.take(K::Sg, &bytes_of(k.get()), r) }
    fn pks(&mut self, v: &[Pk], r: &mut Rng8) -> Result<Box<[H]>, String> { v.iter().map(|k| self.pk(k, r)).collect() }
    fn sgs(&mut self, v: &[Sg], r: &mut Rng8) -> Result<Box<[H]>, String> {
        // the same object may be listed any number of times
        let mut seen: Vec<(*mut Signature, H)> = vec![];
        v.iter().map(|s| { if let Some((_, h)) = seen.iter().find(|x| x.0 == s.0) { return Ok(*h); } let h = self.sg(s, r)?; seen.push((s.0, h)); Ok(h) }).collect()
    }
    /// an output of bytes, released
    fn buf(&self, ok: u8, o: Box<Slot<*mut u8>>, n: Box<Slot<c_int>>) -> Result<Option<Vec<u8>>, String> {
        let (o, n) = (o.get()?, n.get()?);
        if !truth(ok, "success")? { return Ok(None); }
        if o.is_null() || n < 0 { return Err(format!("success with buffer {:?} of length {}", o, n)); }
        let b = unsafe { std::slice::from_raw_parts(o, n as usize) }.to_vec();
        if !truth(unsafe { (self.l.free_vec)(o, n) }, "success")? { return Err("releasing a buffer reports failure".into()); }
        Ok(Some(b))
    }
    /// an output object, by its bytes
    fn obj(&mut self, k: K, ok: u8, o: Box<Slot<H>>, r: &mut Rng8) -> Result<Out, String> {
        let h = o.get()?;
        if !truth(ok, "success")? { return Ok(Out::default()); }
        if h.is_null() { return Err("success without an object".into()); }
        self.mine.push((k, h));
        let (mut o, mut n) = (Slot::new(ptr::null_mut(), r), Slot::new(-1, r));
        let f = match k { K::Sk => self.l.serialize_private_key, K::Pk => self.l.serialize_public_key, K::Sg => self.l.serialize_signature };
        let ok = unsafe { f(h, o.at(), n.at()) };
        Ok(Out { ok: true, bytes: vec![self.buf(ok, o, n)?.ok_or("an object handed out has no bytes")?], nums: vec![] })
    }
    fn finish(&mut self) -> Result<(), String> {
        for (k, h) in self.mine.drain(..) {
            let f = match k { K::Sk => self.l.destroy_private_key, K::Pk => self.l.destroy_public_key, K::Sg => self.l.destroy_signature };
            if !truth(unsafe { f(h) }, "success")? { return Err("a release reports failure".into()); }
        }
        Ok(())
    }
    fn call(&mut self, op: &Op, r: &mut Rng8) -> Result<Out, String> {
        let l = self.l;
        let (mut o, mut n, mut h) = (Slot::new(ptr::null_mut::<u8>(), r), Slot::new(r.gen::<c_int>(), r), Slot::new(ptr::null_mut::<c_void>(), r));
        let some = |b: Option<Vec<u8>>, nums: Vec<i64>| match b { Some(b) => Out { ok: true, bytes: vec![b], nums }, None => Out::default() };
        let at = |v: &[H]| if v.is_empty() { ptr::null() } else { v.as_ptr() };
        unsafe {
            Ok(match op {
                Op::Generate => { let ok = (l.generate_private_key)(h.at()); let x = self.obj(K::Sk, ok, h, r)?; if !x.ok || x.bytes[0].len() != 32 { return Err(format!("no key generated: {:?}", x)); } Out { ok: true, ..Out::default() } }
                Op::PkOf(k) => { let k = self.sk(k, r)?; let ok = (l.private_key_to_public_key)(k, h.at()); self.obj(K::Pk, ok, h, r)? }
                Op::De(k, b) => {
                    let (b, f) = (In::new(b, r), match k { Kind::Sk => l.deserialize_private_key, Kind::Pk => l.deserialize_public_key, Kind::PkCached => l.deserialize_public_key_cached, Kind::Sig => l.deserialize_signature });
                    let ok = f(b.ptr(), b.len(), h.at());
                    b.same()?;
                    self.obj(match k { Kind::Sk => K::Sk, Kind::Sig => K::Sg, _ => K::Pk }, ok, h, r)?
                }
                Op::SerSk(k) => { let k = self.sk(k, r)?; let ok = (l.serialize_private_key)(k, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::SerPk(k, u) => { let k = self.pk(k, r)?; let ok = (if *u { l.serialize_public_key_uncompressed } else { l.serialize_public_key })(k, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::SerSig(k, u) => { let k = self.sg(k, r)?; let ok = (if *u { l.serialize_signature_uncompressed } else { l.serialize_signature })(k, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::Compress(s, b) => { let b = In::new(b, r); let ok = (if *s { l.compress_signature } else { l.compress_pubkey })(b.ptr(), b.len(), o.at(), n.at()); b.same()?; some(self.buf(ok, o, n)?, vec![]) }
                Op::Sign(k, m, e, c, d) => { let (k, m, e) = (self.sk(k, r)?, In::new(m, r), In::new(e, r)); let ok = (l.sign_message)(k, m.ptr(), m.len(), e.ptr(), e.len(), *c as u8, *d as u8, h.at()); m.same()?; e.same()?; self.obj(K::Sg, ok, h, r)? }
                Op::SignPop(k, m) => { let (k, m) = (self.sk(k, r)?, In::new(m, r)); let ok = (l.sign_pop)(k, m.ptr(), m.len(), h.at()); m.same()?; self.obj(K::Sg, ok, h, r)? }
                Op::HashDirect(m, p) => { let m = In::new(m, r); let ok = (l.hash_direct)(m.ptr(), m.len(), o.at(), n.at(), *p as u8); some(self.buf(ok, o, n)?, vec![]) }
                Op::HashAttempt(m, p) => { let m = In::new(m, r); let mut a = Slot::new(r.gen::<c_int>(), r); let ok = (l.hash_direct_with_attempt)(m.ptr(), m.len(), o.at(), n.at(), a.at(), *p as u8); some(self.buf(ok, o, n)?, vec![a.get()? as i64]) }
                Op::HashComposite(m, e) => { let (m, e) = (In::new(m, r), In::new(e, r)); let ok = (l.hash_composite)(m.ptr(), m.len(), e.ptr(), e.len(), o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::HashCip22(m, e) => { let (m, e) = (In::new(m, r), In::new(e, r)); let mut a = Slot::new(r.gen::<u8>(), r); let ok = (l.hash_composite_cip22)(m.ptr(), m.len(), e.ptr(), e.len(), o.at(), n.at(), a.at()); some(self.buf(ok, o, n)?, vec![a.get()? as i64]) }
                Op::HashCrh(m, k) => { let m = In::new(m, r); let ok = (l.hash_crh)(m.ptr(), m.len(), *k, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::HashFirst(m, k) => { let m = In::new(m, r); let ok = (l.hash_direct_first_step)(m.ptr(), m.len(), *k, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::Verify(p, m, e, s, c, d) => {
                    let (p, m, e, s, mut v) = (self.pk(p, r)?, In::new(m, r), In::new(e, r), self.sg(s, r)?, Slot::new(r.gen::<bool>() as u8, r));
                    let ok = (l.verify_signature)(p, m.ptr(), m.len(), e.ptr(), e.len(), s, *c as u8, *d as u8, v.at());
                    m.same()?; e.same()?;
                    let v = truth(v.get()?, "a verdict")?;
                    if truth(ok, "success")? { Out { ok: true, bytes: vec![], nums: vec![v as i64] } } else { Out::default() }
                }
                Op::VerifyPop(p, m, s) => {
                    let (p, m, s, mut v) = (self.pk(p, r)?, In::new(m, r), self.sg(s, r)?, Slot::new(r.gen::<bool>() as u8, r));
                    let ok = (l.verify_pop)(p, m.ptr(), m.len(), s, v.at());
                    let v = truth(v.get()?, "a verdict")?;
                    if truth(ok, "success")? { Out { ok: true, bytes: vec![], nums: vec![v as i64] } } else { Out::default() }
                }
                Op::Batch(v, c, d) => {
                    let ins: Vec<(In, In)> = v.iter().map(|x| (In::new(&x.0, r), In::new(&x.1, r))).collect();
                    let mut ms = vec![];
                    for (x, (m, e)) in v.iter().zip(&ins) { ms.push(CMessage { data: cb(m), extra: cb(e), public_key: self.pk(&x.2, r)?, sig: self.sg(&x.3, r)? }); }
                    let (copy, mut f) = (ms.clone(), Slot::new(r.gen::<bool>() as u8, r));
                    let ok = (l.batch_verify_signature)(if ms.is_empty() { ptr::null() } else { ms.as_ptr() }, ms.len(), *c as u8, *d as u8, f.at());
                    if copy != ms { return Err("a message description was modified".into()); }
                    let f = truth(f.get()?, "a verdict")?;
                    if truth(ok, "success")? { Out { ok: true, bytes: vec![], nums: vec![f as i64] } } else { Out::default() }
                }
                Op::Strict(v, c, d) => {
                    let ins: Vec<(In, In)> = v.iter().map(|x| (In::new(&x.0, r), In::new(&x.1, r))).collect();
                    let (mut ks, mut ss) = (vec![], vec![]);
                    for x in v { ks.push(self.pks(&x.2, r)?); ss.push(self.sgs(&x.3, r)?); }
                    let ms: Vec<CBatch> = (0..v.len()).map(|i| CBatch { data: cb(&ins[i].0), extra: cb(&ins[i].1), public_keys: at(&ks[i]), public_keys_len: ks[i].len(), signatures: at(&ss[i]), signatures_len: ss[i].len() }).collect();
                    // one byte per batch, and memory of the caller around them
                    let fill: u8 = r.gen();
                    let mut f = vec![fill; v.len() + 64];
                    for x in f[32..32 + v.len()].iter_mut() { *x = r.gen::<bool>() as u8; }
                    let copy = ms.clone();
                    let ok = (l.batch_verify_strict)(if ms.is_empty() { ptr::null() } else { ms.as_ptr() }, ms.len(), *c as u8, *d as u8, f[32..].as_mut_ptr());
                    if copy != ms { return Err("a batch description was modified".into()); }
                    if f[..32].iter().chain(&f[32 + v.len()..]).any(|x| *x != fill) { return Err("memory next to the verdicts was written".into()); }
                    let nums = f[32..32 + v.len()].iter().map(|x| truth(*x, "a verdict").map(|x| x as i64)).collect::<Result<_, _>>()?;
                    Out { ok: truth(ok, "success")?, bytes: vec![], nums }
                }
                Op::AggPk(v) => { let v = self.pks(v, r)?; let ok = (l.aggregate_public_keys)(at(&v), v.len() as c_int, h.at()); self.obj(K::Pk, ok, h, r)? }
                Op::AggSub(p, v) => { let (p, v) = (self.pk(p, r)?, self.pks(v, r)?); let ok = (l.aggregate_public_keys_subtract)(p, at(&v), v.len() as c_int, h.at()); self.obj(K::Pk, ok, h, r)? }
                Op::AggSig(v) => { let v = self.sgs(v, r)?; let ok = (l.aggregate_signatures)(at(&v), v.len() as c_int, h.at()); self.obj(K::Sg, ok, h, r)? }
                Op::Encode(i, m, v) => { let v = self.pks(v, r)?; let ok = (l.encode_epoch_block_to_bytes)(*i, *m, at(&v), v.len() as c_int, o.at(), n.at()); some(self.buf(ok, o, n)?, vec![]) }
                Op::EncodeCip22(i, rd, e, p, m, mv, v) => {
                    let v = self.pks(v, r)?;
                    let (e, p) = (e.as_ref().map(|e| In::new(e, r)), p.as_ref().map(|e| In::new(e, r)));
                    let (mut o2, mut n2) = (Slot::new(ptr::null_mut::<u8>(), r), Slot::new(r.gen::<c_int>(), r));
                    let en = |e: &Option<In>| e.as_ref().map_or(ptr::null(), |e| e.ptr());
                    let ok = (l.encode_epoch_block_to_bytes_cip22)(*i, *rd, en(&e), en(&p), *m, *mv, at(&v), v.len() as c_int, o.at(), n.at(), o2.at(), n2.at());
                    match (self.buf(ok, o, n)?, self.buf(ok, o2, n2)?) { (Some(a), Some(b)) => Out { ok: true, bytes: vec![a, b], nums: vec![] }, _ => Out::default() }
                }
            })
        }
    }
}
fn cb(i: &In) -> CBuffer { CBuffer { ptr: i.ptr(), len: i.len() as usize } }
/// lengths and counts that do not fit in a byte, or in two
fn large(k: usize, r: &mut Rng8, pool: &mut Pool, many: &[Pk]) -> Op {
    let long = |r: &mut Rng8| { let n = *[255usize, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131072 + 5].choose(r).unwrap(); (0..n).map(|_| r.gen::<u8>()).collect::<Vec<u8>>() };
    let i = r.gen_range(0, pool.sk.len());
    let e = if r.gen() { vec![] } else { vec![7u8; 300] };
    let some = |r: &mut Rng8| { let mut v = many.to_vec(); v.shuffle(r); v.truncate(r.gen_range(256, 301)); v };
    match k % 16 {
        0 => Op::HashFirst(long(r), *[255, 256, 257, 1000, 32768, 65535].choose(r).unwrap()),
        1 => Op::HashDirect(long(r), r.gen()),
        2 => Op::Sign(pool.sk[i].clone(), long(r), e, false, false),
        3 => { let (m, s) = (long(r), vec![]); let g = pool.sign(i, &m, &s, false, false, false, r); Op::Verify(pool.pk[i].clone(), m, s, g, false, false) }
        4 => { let m = long(r); let g = pool.sign(i, &m, &[], false, false, true, r); Op::VerifyPop(pool.pk[i].clone(), m, g) }
        5 => Op::AggPk(some(r)),
        6 => Op::AggSub(pool.pk[i].clone(), some(r)),
        7 => { let n = *[256usize, 300, 65536, 65600].choose(r).unwrap(); let base: Vec<Sg> = (0..3).map(|j| pool.sign((i + j) % pool.sk.len(), b"many", &[], false, false, false, r)).collect(); Op::AggSig((0..n).map(|j| base[j % 3].clone()).collect()) }
        8 => Op::Encode(r.gen(), r.gen(), some(r)),
        9 => { let v = some(r); Op::EncodeCip22(r.gen(), r.gen(), Some(vec![r.gen(); 16]), None, r.gen(), v.len() as u32 + r.gen_range(0, 70), v) }
        10 => { let n = r.gen_range(256, 300); let g = pool.sign(i, b"one", b"x", false, false, false, r); let mut v: Vec<_> = (0..n).map(|_| (b"one".to_vec(), b"x".to_vec(), vec![], vec![])).collect(); for _ in 0..4 { let j = r.gen_range(0, n); v[j].2 = vec![pool.pk[i].clone()]; v[j].3 = vec![g.clone()]; } if r.gen() { v[n - 1].0 = b"two".to_vec(); v[n - 1].2 = vec![pool.pk[i].clone()]; v[n - 1].3 = vec![g]; } Op::Strict(v, false, false) }
        11 => { let m = long(r); let e = long(r); let g = pool.sign(i, &m, &e, false, false, false, r); Op::Strict(vec![(m, e, vec![pool.pk[i].clone()], vec![g])], false, false) }
        12 => { let mut v = vec![]; for j in 0..2 { let (m, e) = (long(r), long(r)); let i = (i + j) % pool.sk.len(); let g = pool.sign(i, &m, &e, false, false, false, r); v.push((m, e, pool.pk[i].clone(), g)); } Op::Batch(v, false, false) }
        13 => Op::HashCrh(long(r), r.gen_range(0, 100)),
        14 => Op::HashCip22(long(r), long(r)),
        _ => { let k = *[Kind::Sk, Kind::Pk, Kind::PkCached, Kind::Sig].choose(r).unwrap(); let mut b = match k { Kind::Sk => bytes_of(pool.sk[i].get()), Kind::Sig => bytes_of(pool.sign(i, b"many", &[], false, false, false, r).get()), _ => bytes_of(pool.pk[i].get()) }; b[3] ^= r.gen::<bool>() as u8; Op::De(k, b) }
    }
}
fn ends(l: &Lib, c: &Ends, r: &mut Rng8) -> Result<bool, String> {
    let (vk, pr, a, b) = (In::new(&c.vk, r), In::new(&c.proof, r), c.first.mem(r), c.last.mem(r));
    let e = |e: &f05::End, m: &f05::Mem| { let (k, x, y) = m.at(); CEpoch { index: e.index, round: e.round, epoch_entropy: x, parent_entropy: y, pubkeys: k, pubkeys_num: e.num, maximum_non_signers: e.absent, maximum_validators: e.max } };
    let v = unsafe { (l.verify)(vk.ptr(), c.vk.len() as u32, pr.ptr(), c.proof.len() as u32, e(&c.first, &a), e(&c.last, &b)) };
    vk.same()?; pr.same()?; a.same()?; b.same()?;
    truth(v, "a verdict")
}
pub fn f06() {
    let run = Run::start("F06", "the library built as a shared object, loaded at run time, every function found by name and called with declarations of our own: the calls of F01 and F05, also with lengths and counts beyond one and two bytes, objects only through the interface, outputs in guarded memory; success, outputs and verdicts compared with the library's for the same input");
    let so = CString::new(std::env::var("VERIF_SO").expect("VERIF_SO")).unwrap();
    let h = unsafe { dlopen(so.as_ptr(), 2) };
    assert!(!h.is_null(), "the shared object cannot be loaded");
    crate::tell::tell_of_panics("F06");
    let lib = match Lib::load(h, &run) { Some(l) => l, None => run.finish() };
    // everything works before and after any number of initialisations
    run.par(8, |t, r| {
        let mut pool = Pool::new(r, 10, false);
        let mut many: Vec<Pk> = vec![];
        let mut p = G2Projective::prime_subgroup_generator();
        let step = G2Projective::prime_subgroup_generator().mul(Fr::rand(r).into_repr());
        while many.len() < 300 { many.push(own_pk(PublicKey::from(p))); p += step; }
        let cases = f05::Cases::new(r);
        let mut k = t;
        while run.within(run.pick(40.0, 1200.0)) {
            k += 1;
            if r.gen_bool(0.01) { unsafe { (lib.init)() }; run.count("init", 1); }
            if k % 16 == 3 {
                let (c, what) = match cases.next(t, r) { Some(c) => c, None => continue };
                let want = match catch(|| c.library()) { Ok(w) => w, Err(_) => continue };
                let have = ends(&lib, &c, r);
                run.eval((what, f05::show(&c)), true);
                run.count(if want { "proofs_accepted" } else { "proofs_refused" }, 1);
                run.check(have == Ok(want), "verify", || format!("changed: {}; the shared library answers {:?}, the library {} for {}", what, have, want, f05::show(&c)));
                continue;
            }
            let big = k % 8 == 1;
            let op = if big { large(k / 8, r, &mut pool, &many) } else { pool.op(r) };
            let want = match catch(|| op.expect()) { Ok(w) => w, Err(_) => { run.count("library_panics", 1); continue } };
            let mut c = C { l: &lib, mine: vec![] };
            let have = crate::tell::during(&op, || c.call(&op, r));
            let end = c.finish();
            run.eval((op.show(), &want), !want.nums.is_empty() || want.ok);
            run.count(op.name(), 1);
            if big { run.count("large", 1); run.state("large", (op.name(), want.ok, want.nums.clone())); }
            run.sample(|| format!("{} -> {:?}", op.show().chars().take(300).collect::<String>(), have.as_ref().map(|h| (h.ok, h.bytes.iter().map(|b| short(b)).collect::<Vec<_>>(), h.nums.clone()))));
            run.check(have.as_ref() == Ok(&want), op.name(), || format!("{}: the shared library gives {:?}, the library {:?}", op.show().chars().take(1500).collect::<String>(), have, want));
            if let Err(e) = end { run.violation("release", e); }
        }
    });
    // nothing to release is reported
    for (n, f) in [("destroy_private_key", lib.destroy_private_key), ("destroy_public_key", lib.destroy_public_key), ("destroy_signature", lib.destroy_signature)] { let v = unsafe { f(ptr::null_mut()) }; run.check(v == 0, n, || format!("{} of a null pointer reports {}", n, v)); }
    let v = unsafe { (lib.free_vec)(ptr::null_mut(), 0) };
    run.check(v == 0, "free_vec", || format!("free_vec of a null pointer reports {}", v));
    run.require("symbols", 36);
    run.require("large", 100);
    run.require("proofs_accepted", 20);
    run.require("proofs_refused", 20);
    run.require("batch_verify_strict", 10);
    run.require("batch_verify_signature", 10);
    run.assume("x86-64 Linux; the shared object is the crate built as a dynamic library (the original builds a static one from the same exported functions); other calling conventions are not run");
    run.finish()
}
