//! F05: the exported verification of proofs decides as the library does, about the same epochs.
use crate::{api::*, golden};
use ark_bw6_761::{Fr as BwFr, BW6_761};
use ark_groth16::{create_random_proof, generate_random_parameters, Proof, ProvingKey, VerifyingKey};
use ark_relations::{lc, r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError}};
#[cfg(feature = "convert")]
use bls_snark_sys::snark::epoch_block::{read_slice, EpochBlockFFI as Described};
#[cfg(feature = "sys")]
use crate::sys::{verify, EpochBlockFFI};
#[cfg(feature = "convert")]
use std::convert::TryFrom;

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// one end of a chain as a caller describes it
#[derive(Clone, Debug, PartialEq)]
pub struct End { pub index: u16, pub round: u8, pub epoch: Option<Vec<u8>>, pub parent: Option<Vec<u8>>, pub absent: u32, pub max: usize, pub num: usize, pub keys: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Ends { pub vk: Vec<u8>, pub proof: Vec<u8>, pub first: End, pub last: End }
pub fn show(c: &Ends) -> String { format!("key {} proof {} first {:?} last {:?}", short(&c.vk), short(&c.proof), show_end(&c.first), show_end(&c.last)) }
fn show_end(e: &End) -> String { format!("index {} round {} entropies {:?} {:?} absent {} validators {} of {} keys {}", e.index, e.round, e.epoch.as_ref().map(|x| hex(x)), e.parent.as_ref().map(|x| hex(x)), e.absent, e.num, e.max, short(&e.keys)) }
/// the caller's memory behind a description
pub struct Mem { keys: In, epoch: Option<In>, parent: Option<In> }
impl End {
    pub fn mem(&self, r: &mut Rng8) -> Mem { Mem { keys: In::new(&self.keys, r), epoch: self.epoch.as_ref().map(|e| In::new(e, r)), parent: self.parent.as_ref().map(|e| In::new(e, r)) } }
    #[cfg(feature = "sys")]
    fn ffi(&self, m: &Mem) -> EpochBlockFFI {
        let at = |e: &Option<In>| e.as_ref().map_or(std::ptr::null(), |e| e.ptr());
        EpochBlockFFI { index: self.index, round: self.round, epoch_entropy: at(&m.epoch), parent_entropy: at(&m.parent), pubkeys: m.keys.ptr(), pubkeys_num: self.num, maximum_non_signers: self.absent, maximum_validators: self.max }
    }
    #[cfg(feature = "convert")]
    fn described(&self, m: &Mem) -> Described {
        let at = |e: &Option<In>| e.as_ref().map_or(std::ptr::null(), |e| e.ptr());
        Described { index: self.index, round: self.round, epoch_entropy: at(&m.epoch), parent_entropy: at(&m.parent), pubkeys: m.keys.ptr(), pubkeys_num: self.num, maximum_non_signers: self.absent, maximum_validators: self.max }
    }
    /// what the description means, read key by key by the library
    pub fn block(&self) -> Option<EpochBlock> {
        let mut keys = vec![];
        for c in self.keys.chunks(96) { keys.push(PublicKey::deserialize(&mut &c[..]).ok()?); }
        Some(EpochBlock { index: self.index, round: self.round, epoch_entropy: self.epoch.clone(), parent_entropy: self.parent.clone(), maximum_non_signers: self.absent, maximum_validators: self.max, new_public_keys: keys })
    }
    fn random(r: &mut Rng8, keys: &[PublicKey]) -> End {
        let n = r.gen_range(0, keys.len() + 1);
        let en = |r: &mut Rng8| if r.gen_bool(0.3) { None } else { Some((0..16).map(|_| r.gen()).collect::<Vec<u8>>()) };
        End { index: r.gen(), round: r.gen(), epoch: en(r), parent: en(r), absent: r.gen(), max: n + r.gen_range(0, 3), num: n, keys: keys.choose_multiple(r, n).flat_map(|k| bytes_of(k)).collect() }
    }
}
impl Mem { pub fn at(&self) -> (*const u8, *const u8, *const u8) { let p = |e: &Option<In>| e.as_ref().map_or(std::ptr::null(), |e| e.ptr()); (self.keys.ptr(), p(&self.epoch), p(&self.parent)) }
    pub fn same(&self) -> Result<(), String> { self.keys.same()?; for e in [&self.epoch, &self.parent] { if let Some(e) = e { e.same()?; } } Ok(()) } }
impl Ends {
    pub fn golden(_r: &mut Rng8) -> Ends {
        let end = |index, e: u8, p: u8, k| End { index, round: 0, epoch: Some(vec![e; 16]), parent: Some(vec![p; 16]), absent: 1, max: 4, num: 4, keys: unhex(k) };
        Ends { vk: unhex(golden::VK), proof: unhex(golden::PROOF), first: end(0, 1, 2, golden::FIRST_PUBKEYS), last: end(2, 3, 2, golden::LAST_PUBKEYS) }
    }
    #[cfg(feature = "sys")]
    pub fn ffi(&self, r: &mut Rng8) -> Result<bool, String> {
        let (vk, pr, a, b) = (In::new(&self.vk, r), In::new(&self.proof, r), self.first.mem(r), self.last.mem(r));
        let v = unsafe { verify(vk.ptr(), self.vk.len() as u32, pr.ptr(), self.proof.len() as u32, self.first.ffi(&a), self.last.ffi(&b)) };
        vk.same()?; pr.same()?; a.same()?; b.same()?;
        Ok(v)
    }
    pub fn library(&self) -> bool {
        let (a, b) = match (self.first.block(), self.last.block()) { (Some(a), Some(b)) => (a, b), _ => return false };
        match (VerifyingKey::<BW6_761>::deserialize(&mut &self.vk[..]), Proof::<BW6_761>::deserialize(&mut &self.proof[..])) { (Ok(vk), Ok(p)) => epoch_snark::verify(&vk, &a, &b, &p).is_ok(), _ => false }
    }
}
/// two public inputs, known to the prover
#[derive(Clone)]
struct Two(Option<[BwFr; 2]>);
impl ConstraintSynthesizer<BwFr> for Two {
    fn generate_constraints(self, cs: ConstraintSystemRef<BwFr>) -> Result<(), SynthesisError> {
        for i in 0..2 {
            let v = self.0.map(|x| x[i]);
            let w = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            let p = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(lc!() + w, lc!() + ark_relations::r1cs::Variable::One, lc!() + p)?;
        }
        Ok(())
    }
}
fn inputs(a: &EpochBlock, b: &EpochBlock) -> Option<[BwFr; 2]> {
    let bits = [a.blake2_first_epoch_cip22().ok()?, b.blake2_last_epoch_with_aggregated_pk_cip22().ok()?].concat();
    let v: Vec<BwFr> = bits.chunks(376).map(|c| c.iter().fold(BwFr::zero(), |a, b| a + a + if *b { BwFr::one() } else { BwFr::zero() })).collect();
    if v.len() == 2 { Some([v[0], v[1]]) } else { None }
}
fn alter(c: &mut Ends, keys: &[PublicKey], r: &mut Rng8) -> &'static str {
    let last = r.gen::<bool>();
    let k = r.gen_range(0, 16);
    let flip = |e: &mut Option<Vec<u8>>, r: &mut Rng8| match e { Some(v) => { let i = r.gen_range(0, 16); v[i] ^= 1 << r.gen_range(0, 8); } None => *e = Some((0..16).map(|_| r.gen()).collect()) };
    {
        let e = if last { &mut c.last } else { &mut c.first };
        match k {
            0 => { e.index ^= 1 << r.gen_range(0, 16); return "index" }
            1 => { e.round ^= 1 << r.gen_range(0, 8); return "round" }
            2 => { flip(&mut e.epoch, r); return "epoch entropy" }
            3 => { flip(&mut e.parent, r); return "parent entropy" }
            4 => { let x = if r.gen() { &mut e.epoch } else { &mut e.parent }; *x = match x { Some(_) => None, None => Some(vec![0; 16]) }; return "presence of an entropy" }
            5 => { e.absent ^= 1 << r.gen_range(0, 32); return "threshold" }
            6 => { e.max += 1; return "number of validators" }
            7 => { e.keys.extend(bytes_of(keys.choose(r).unwrap())); e.num += 1; e.max = e.max.max(e.num); return "a key more" }
            8 if e.num > 0 => { e.num -= 1; e.keys.truncate(96 * e.num); return "a key less" }
            9 if e.num > 1 => { e.keys.rotate_left(96); return "order of the keys" }
            10 if e.num > 0 => { let i = r.gen_range(0, e.num) * 96; let b = bytes_of(keys.choose(r).unwrap()); e.keys[i..i + 96].copy_from_slice(&b); return "another key" }
            11 if e.num > 0 => { let i = r.gen_range(0, 768 * e.num); e.keys[i / 8] ^= 1 << (i % 8); return "a bit of a key" }
            _ => {}
        }
    }
    match k {
        12 => { std::mem::swap(&mut c.first, &mut c.last); "ends exchanged" }
        13 => { let i = r.gen_range(0, 8 * c.proof.len()); c.proof[i / 8] ^= 1 << (i % 8); "a bit of the proof" }
        14 => { let i = r.gen_range(0, 8 * c.vk.len()); c.vk[i / 8] ^= 1 << (i % 8); "a bit of the verification key" }
        15 => { let v = if r.gen() { &mut c.vk } else { &mut c.proof }; let n = r.gen_range(0, v.len()); v.truncate(n); "truncation" }
        _ => "nothing",
    }
}
/// proofs for random ends, as they are or altered
pub struct Cases { pk: ProvingKey<BW6_761>, vk: Vec<u8>, keys: Vec<PublicKey> }
impl Cases {
    pub fn new(r: &mut Rng8) -> Cases {
        let keys = (0..6).map(|_| { let k: PrivateKey = Fr::rand(r).into(); k.to_public() }).collect();
        let pk: ProvingKey<BW6_761> = generate_random_parameters(Two(None), r).unwrap();
        Cases { vk: bytes_of(&pk.vk), pk, keys }
    }
    pub fn next(&self, t: usize, r: &mut Rng8) -> Option<(Ends, &'static str)> {
        let mut c = if t == 0 && r.gen_bool(0.3) { Ends::golden(r) } else {
            let (first, last) = (End::random(r, &self.keys), End::random(r, &self.keys));
            let i = catch(|| inputs(&first.block()?, &last.block()?)).ok()??;
            let p = create_random_proof(Two(Some(i)), &self.pk, r).unwrap();
            Ends { vk: self.vk.clone(), proof: bytes_of(&p), first, last }
        };
        let what = if r.gen() { "nothing" } else { alter(&mut c, &self.keys, r) };
        Some((c, what))
    }
}
#[cfg(feature = "sys")]
pub fn f05() {
    let run = Run::start("F05", "proofs over a small circuit with the two public inputs of the verification, made for random pairs of epochs with 0 to 4 keys, and one proof made by the original project; verified as they are and with one field, one bit or the length of anything changed; verdicts compared with the library's about the same epochs, and the epoch each description is converted to compared field by field");
    crate::tell::tell_of_panics("F05");
    let mut r0 = run.rng(1);
    let keys: Vec<PublicKey> = (0..6).map(|_| { let k: PrivateKey = Fr::rand(&mut r0).into(); k.to_public() }).collect();
    let g = Ends::golden(&mut r0);
    let v = g.ffi(&mut r0);
    run.count("original_proofs", 1);
    run.check(v == Ok(true), "original", || format!("the proof made by the original project is not accepted: {:?}", v));
    run.par(8, |t, r| {
        let pk: ProvingKey<BW6_761> = generate_random_parameters(Two(None), r).unwrap();
        let vk = bytes_of(&pk.vk);
        while run.within(run.pick(40.0, 1200.0)) {
            let (mut first, mut last) = (End::random(r, &keys), End::random(r, &keys));
            let mut c = if t == 0 && r.gen_bool(0.3) { Ends::golden(r) } else {
                if r.gen_bool(0.3) { first.num = 0; first.keys.clear(); }
                if r.gen_bool(0.1) { last.num = 0; last.keys.clear(); }
                let (a, b) = match (first.block(), last.block()) { (Some(a), Some(b)) => (a, b), _ => continue };
                let i = match catch(|| inputs(&a, &b)) { Ok(Some(i)) => i, _ => { run.count("unencodable", 1); continue } };
                let p = create_random_proof(Two(Some(i)), &pk, r).unwrap();
                Ends { vk: vk.clone(), proof: bytes_of(&p), first, last }
            };
            for k in 0..4 {
                let what = if k == 0 { "nothing" } else { alter(&mut c, &keys, r) };
                // every field of each description arrives
                #[cfg(feature = "convert")]
                for (n, e) in [("first", &c.first), ("last", &c.last)] {
                    let m = e.mem(r);
                    let f = e.described(&m);
                    let have = catch(|| EpochBlock::try_from(&f).ok());
                    let want = e.block();
                    run.count("conversions", 1);
                    run.check(match &have { Ok(h) => same(h, &want), Err(_) => false }, "conversion", || format!("the {} epoch {} is converted to {:?} instead of {:?}", n, show_end(e), have, want));
                }
                let want = match catch(|| c.library()) { Ok(w) => w, Err(_) => { run.count("library_panics", 1); continue } };
                crate::tell::NOW.with(|n| *n.borrow_mut() = Some(format!("verify: {}", show(&c))));
                let have = c.ffi(r);
                crate::tell::NOW.with(|n| *n.borrow_mut() = None);
                run.eval((what, show(&c)), true);
                run.count(if want { "accepted" } else { "refused" }, 1);
                run.state("kinds", (what, want));
                run.sample(|| format!("changed: {}; library {}, C interface {:?}", what, want, have));
                run.check(have == Ok(want), "verify", || format!("changed: {}; the C interface answers {:?}, the library {} for {}", what, have, want, show(&c)));
            }
            // typed reads of byte strings
            #[cfg(feature = "convert")]
            {
            let b = if r.gen() { &c.proof } else { &c.vk };
            let m = In::new(b, r);
            let x: Result<Proof<BW6_761>, _> = unsafe { read_slice(m.ptr(), b.len()) };
            let y = Proof::<BW6_761>::deserialize(&mut &b[..]);
            run.check(x.is_ok() == y.is_ok() && (x.is_err() || x.unwrap() == y.unwrap()), "read", || format!("reading a proof from {} bytes {}", b.len(), short(b)));
            }
        }
    });
    run.require("accepted", 60);
    run.require("refused", 60);
    if cfg!(feature = "convert") { run.require("conversions", 400); } else { run.assume("the conversion functions themselves are not reachable under their names; only verdicts were compared"); }
    run.assume("descriptions point to 16 bytes of entropy or nowhere, and to 96 bytes per key; more keys than validators are out of scope");
    run.finish()
}
#[cfg(feature = "convert")]
fn same(a: &Option<EpochBlock>, b: &Option<EpochBlock>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.index == b.index && a.round == b.round && a.epoch_entropy == b.epoch_entropy && a.parent_entropy == b.parent_entropy && a.maximum_non_signers == b.maximum_non_signers && a.maximum_validators == b.maximum_validators && a.new_public_keys.len() == b.new_public_keys.len() && a.new_public_keys.iter().zip(&b.new_public_keys).all(|(x, y)| bytes_of(x) == bytes_of(y)),
        _ => false,
    }
}
