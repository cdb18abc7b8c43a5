//! Random calls: keys in hostile representations, messages with empty parts, valid and forged signatures, all flags.
use crate::api::*;
use std::collections::HashMap;

pub struct Pool { pub sk: Vec<Sk>, pub pk: Vec<Pk>, pub sigs: HashMap<(usize, Vec<u8>, Vec<u8>, u8), Sg>, pub msgs: Vec<(Vec<u8>, Vec<u8>)>, pub cheap: bool }
pub fn rerep1(p: G1Projective, r: &mut Rng8) -> G1Projective {
    match r.gen_range(0, 3) { 0 => p, 1 => p.into_affine().into_projective(), _ => { let z = Fq::rand(r); let z2 = z.square(); G1Projective::new(p.x * z2, p.y * z2 * z, p.z * z) } }
}
pub fn rerep2(p: G2Projective, r: &mut Rng8) -> G2Projective {
    match r.gen_range(0, 3) { 0 => p, 1 => p.into_affine().into_projective(), _ => { let z = Fq2::rand(r); let z2 = z.square(); G2Projective::new(p.x * z2, p.y * z2 * z, p.z * z) } }
}
/// small multiples of the generators
fn few1(i: usize) -> G1Projective { let mut p = G1Projective::zero(); for _ in 0..i { p += G1Projective::prime_subgroup_generator(); } p }
fn few2(i: usize) -> G2Projective { let mut p = G2Projective::zero(); for _ in 0..i + 1 { p += G2Projective::prime_subgroup_generator(); } p }
fn scalar(r: &mut Rng8) -> Fr { match r.gen_range(0, 6) { 0 => Fr::from(r.gen_range(1u64, 100)), 1 => -Fr::from(r.gen_range(1u64, 100)), _ => Fr::rand(r) } }
pub fn flags(r: &mut Rng8) -> (bool, bool) { match r.gen_range(0, 9) { 0..=2 => (true, true), 3..=5 => (true, false), 6 | 7 => (false, false), _ => (false, true) } }
impl Pool {
    pub fn new(r: &mut Rng8, n: usize, cheap: bool) -> Pool {
        let (mut sk, mut pk) = (vec![], vec![]);
        while sk.len() < n {
            let i = sk.len();
            let s = if cheap { Fr::from(i as u64 + 1) } else if i == 1 { -*(&sk as &Vec<Sk>)[0].get().as_ref() } else { scalar(r) };
            // (aggregates are of different keys)
            if (&sk as &Vec<Sk>).iter().any(|k| *k.get().as_ref() == s) { continue; }
            let k: PrivateKey = s.into();
            pk.push(own_pk(PublicKey::from(if cheap { few2(i) } else { rerep2(*k.to_public().as_ref(), r) })));
            sk.push(own_sk(k));
        }
        let mut msgs: Vec<(Vec<u8>, Vec<u8>)> = (0..6).map(|_| (gen::blob(r, 300), gen::blob(r, 60))).collect();
        msgs[0].1.clear(); msgs[1].0.clear(); msgs[2] = (vec![], vec![]);
        Pool { sk, pk, sigs: Default::default(), msgs, cheap }
    }
    pub fn msg(&self, r: &mut Rng8) -> (Vec<u8>, Vec<u8>) { if r.gen_bool(0.7) { self.msgs.choose(r).unwrap().clone() } else { (gen::long(r, 400, 9000), if r.gen() { vec![] } else { gen::long(r, 60, 9000) }) } }
    pub fn sign(&mut self, i: usize, m: &[u8], e: &[u8], c: bool, d: bool, pop: bool, r: &mut Rng8) -> Sg {
        let k = (i, m.to_vec(), e.to_vec(), if pop { 9 } else { c as u8 + 2 * d as u8 });
        if let Some(s) = self.sigs.get(&k) { return s.clone(); }
        let x = self.sk[i].get();
        let s = match (pop, c, d) { (true, _, _) => x.sign_pop(m, &*DIRECT_HASH_TO_G1), (_, true, true) => x.sign(m, e, &*COMPOSITE_HASH_TO_G1_CIP22), (_, true, false) => x.sign(m, e, &*COMPOSITE_HASH_TO_G1), _ => x.sign(m, e, &*DIRECT_HASH_TO_G1) };
        let s = match s { Ok(s) => s, Err(_) => Signature::from(G1Projective::prime_subgroup_generator()) };
        let s = own_sg(Signature::from(rerep1(*s.as_ref(), r)));
        if self.sigs.len() > 300 { self.sigs.clear(); }
        self.sigs.insert(k, s.clone());
        s
    }
    fn any_sig(&mut self, r: &mut Rng8) -> Sg {
        if r.gen_bool(0.5) && !self.sigs.is_empty() { let n = r.gen_range(0, self.sigs.len()); let mut k: Vec<_> = self.sigs.keys().cloned().collect(); k.sort(); return self.sigs[&k[n]].clone(); }
        if self.cheap { return own_sg(Signature::from(few1(r.gen_range(0, 4)))); }
        let p = match r.gen_range(0, 6) { 0 => G1Projective::zero(), _ => { let s = Fr::rand(r); G1Projective::prime_subgroup_generator().mul(s.into_repr()) } };
        own_sg(Signature::from(rerep1(p, r)))
    }
    fn any_pk(&mut self, r: &mut Rng8) -> Pk {
        if self.cheap || r.gen_bool(0.8) { return self.pk.choose(r).unwrap().clone(); }
        let p = match r.gen_range(0, 6) { 0 => G2Projective::zero(), _ => { let s = Fr::rand(r); G2Projective::prime_subgroup_generator().mul(s.into_repr()) } };
        own_pk(PublicKey::from(rerep2(p, r)))
    }
    /// different keys
    fn pks(&mut self, r: &mut Rng8, max: usize) -> Vec<Pk> { let n = r.gen_range(0, max.min(self.pk.len()) + 1); let mut v = self.pk.clone(); v.shuffle(r); v.truncate(n);
        if max > 20 { for _ in 0..r.gen_range(0, max) { v.push(own_pk(PublicKey::from(G2Projective::prime_subgroup_generator().mul([r.gen::<u64>(), 1])))); } }
        v
    }
    /// a well-formed call
    pub fn op(&mut self, r: &mut Rng8) -> Op {
        let n = self.sk.len();
        let i = r.gen_range(0, n);
        let (mut m, mut e) = self.msg(r);
        let (mut c, mut d) = flags(r);
        let which = r.gen_range(0, if self.cheap { 10 } else { 26 });
        // lengths beyond 16 bits (the direct hasher only: the composite one has no room for them)
        if !self.cheap && matches!(which, 14 | 15 | 18 | 19 | 20) && r.gen_bool(0.012) { c = false; d = false; let n = r.gen_range(65_536, 150_000); if r.gen_bool(0.7) { m = gen::bytes(r, n) } else { e = gen::bytes(r, n) } }
        match which {
            0 => Op::Generate,
            1 => Op::SerSk(self.sk[i].clone()),
            2 => Op::De(Kind::Sk, bytes_of(self.sk[i].get())),
            3 => Op::SerPk(self.any_pk(r), r.gen()),
            4 => Op::SerSig(self.any_sig(r), r.gen()),
            5 => { let s = self.any_sig(r); let a = s.get().as_ref().into_affine(); let mut b = vec![]; a.x.write(&mut b).unwrap(); a.y.write(&mut b).unwrap(); Op::Compress(true, b) }
            6 => { let s = self.any_pk(r); let a = s.get().as_ref().into_affine(); let mut b = vec![]; a.x.write(&mut b).unwrap(); a.y.write(&mut b).unwrap(); Op::Compress(false, b) }
            7 => Op::HashFirst(m, match r.gen_range(0, 6) { 0 => 0, 1 => r.gen_range(1, 33), 2 => r.gen_range(0, 3000), _ => r.gen_range(30, 200) }),
            8 => { let k = if !self.cheap && r.gen_bool(0.06) { r.gen_range(5, 60) } else { r.gen_range(0, 5) }; let v = (0..k).map(|_| self.any_sig(r)).collect(); Op::AggSig(v) }
            9 => { let k = if !self.cheap && r.gen_bool(0.06) { 60 } else { 6 }; Op::Encode(r.gen(), r.gen(), self.pks(r, k)) }
            10 => Op::PkOf(self.sk[i].clone()),
            11 => Op::De(Kind::Pk, bytes_of(self.any_pk(r).get())),
            12 => Op::De(Kind::PkCached, bytes_of(self.any_pk(r).get())),
            13 => Op::De(Kind::Sig, bytes_of(self.any_sig(r).get())),
            14 => Op::Sign(self.sk[i].clone(), m, e, c, d),
            15 => Op::SignPop(self.sk[i].clone(), m),
            16 => if r.gen() { Op::HashDirect(m, r.gen()) } else { Op::HashAttempt(m, r.gen()) },
            17 => match r.gen_range(0, 3) { 0 => Op::HashComposite(m, e), 1 => Op::HashCip22(m, e), _ => Op::HashCrh(m, r.gen_range(0, 200)) },
            18 | 19 => {
                let mut j = i;
                let s = match r.gen_range(0, 8) { 0 => self.any_sig(r), 1 => { j = r.gen_range(0, n); self.sign(j, &m, &e, c, d, false, r) } 2 if m.len() + e.len() < 60_000 => { let (c, d) = flags(r); self.sign(i, &m, &e, c, d, false, r) } 3 => { let (m, e) = self.msg(r); self.sign(i, &m, &e, c, d, false, r) } 4 => self.sign(i, &e, &m, c, d, false, r), 5 => self.sign(i, &m, &[], c, d, true, r), _ => self.sign(i, &m, &e, c, d, false, r) };
                let _ = j;
                Op::Verify(self.pk[i].clone(), m, e, s, c, d)
            }
            20 => { let s = match r.gen_range(0, 4) { 0 => self.any_sig(r), 1 => self.sign(i, &m, &[], false, false, false, r), _ => self.sign(i, &m, &[], c, d, true, r) }; Op::VerifyPop(self.pk[i].clone(), m, s) }
            21 => {
                let k = if r.gen_bool(0.06) { r.gen_range(5, 41) } else { r.gen_range(0, 5) };
                let mut v = vec![];
                for _ in 0..k { let (m, e) = self.msg(r); let i = r.gen_range(0, n); let s = self.sign(i, &m, &e, c, d, false, r); v.push((m, e, self.pk[i].clone(), s)); }
                if r.gen_bool(0.4) && k > 0 { let j = r.gen_range(0, k); match r.gen_range(0, 4) { 0 => v[j].3 = self.any_sig(r), 1 => v[j].1.push(0), 2 => v[j].0.push(r.gen()), _ => v[j].2 = self.any_pk(r) } }
                // exchanged signatures leave the sum valid
                if r.gen_bool(0.3) && k > 1 { let t = v[0].3.clone(); v[0].3 = v[1].3.clone(); v[1].3 = t; }
                Op::Batch(v, c, d)
            }
            22 => {
                let big = r.gen_range(0, 32);
                let k = if big == 0 { r.gen_range(4, 17) } else { r.gen_range(0, 4) };
                let mut v = vec![];
                for _ in 0..k {
                    let (m, e) = self.msg(r);
                    let l = if big == 1 { r.gen_range(4, 17) } else { r.gen_range(0, 4) };
                    let (mut ks, mut ss) = (vec![], vec![]);
                    for _ in 0..l { let i = r.gen_range(0, n); ss.push(self.sign(i, &m, &e, c, d, false, r)); ks.push(self.pk[i].clone()); }
                    if l > 0 && r.gen_bool(0.3) { let j = r.gen_range(0, l); if r.gen() { ss[j] = self.any_sig(r) } else { ks[j] = self.any_pk(r) } }
                    if l > 1 && r.gen_bool(0.2) { ss.swap(0, 1); }
                    if r.gen_bool(0.1) { if r.gen() { ss.pop(); } else { ks.pop(); } }
                    v.push((m, e, ks, ss));
                }
                Op::Strict(v, c, d)
            }
            23 => { let k = if r.gen_bool(0.06) { 60 } else { 8 }; Op::AggPk(self.pks(r, k)) },
            24 => { let v = self.pks(r, 5); let p = if r.gen() { own_pk(PublicKey::aggregate(self.pk.iter().map(|k| k.get()))) } else { self.any_pk(r) }; Op::AggSub(p, v) }
            _ => {
                let k = match r.gen_range(0, 60) { 0 => 300, 1 => 70, _ => 5 };
                let v = self.pks(r, k);
                let room = if k > 5 && r.gen() { r.gen_range(0, 400) } else { r.gen_range(0, 4) };
                let en = |r: &mut Rng8| if r.gen_bool(0.3) { None } else { Some((0..16).map(|_| r.gen()).collect::<Vec<u8>>()) };
                Op::EncodeCip22(r.gen(), r.gen(), en(r), en(r), r.gen(), v.len() as u32 + room, v)
            }
        }
    }
}
/// bytes nobody should accept, for sure, and bytes about which the library decides
pub enum Judge { Refuse, Library, Either }
const R: [u64; 4] = [0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556];
const Q: [u64; 6] = [0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x01ae3a4617c510ea];
fn le(w: &[u64]) -> Vec<u8> { w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
/// a number of that many bytes that is at least the modulus
fn beyond(m: &[u64], top: u8, r: &mut Rng8) -> Vec<u8> {
    let mut b = le(m);
    match r.gen_range(0, 4) { 0 => {} 1 => { let d = r.gen_range(0u16, 255); let mut c = d; for x in b.iter_mut() { let s = *x as u16 + c; *x = s as u8; c = s >> 8; } } 2 => { for x in b.iter_mut() { *x = 255; } let l = b.len() - 1; b[l] = top; } _ => { let l = b.len() - 1; let hi = b[l]; for x in b.iter_mut() { *x = r.gen(); } b[l] = top.max(hi + 1).min(top); if b[l] <= hi { return le(m); } } }
    b
}
pub fn hostile(k: Kind, pool: &mut Pool, r: &mut Rng8) -> (Vec<u8>, Judge, &'static str) {
    let (size, good) = match k { Kind::Sk => (32, bytes_of(pool.sk.choose(r).unwrap().get())), Kind::Sig => (48, bytes_of(pool.any_sig(r).get())), _ => (96, bytes_of(pool.any_pk(r).get())) };
    match r.gen_range(0, 12) {
        0 => (vec![], Judge::Refuse, "nothing"),
        1 => (good[..r.gen_range(0, size)].to_vec(), Judge::Refuse, "truncated"),
        2 => { let n = r.gen_range(0, size); ((0..n).map(|_| r.gen()).collect(), Judge::Refuse, "short noise") }
        3 => ((0..size).map(|_| r.gen()).collect(), Judge::Library, "noise"),
        4 => { let mut b = good; let i = r.gen_range(0, 8 * size); b[i / 8] ^= 1 << (i % 8); (b, Judge::Library, "one bit flipped") }
        5 => { let mut b = good; let i = r.gen_range(1, 20); for _ in 0..i { b.push(r.gen()); } (b, Judge::Either, "over-long") }
        6 => { let b = r.gen::<bool>(); (vec![if b { 255 } else { 0 }; r.gen_range(0, 200)], Judge::Either, "all zeros or ones") }
        7 | 8 => match k {
            Kind::Sk => (beyond(&R, 0xff, r), Judge::Refuse, "not reduced"),
            Kind::Sig => { let mut b = beyond(&Q, 0x3f, r); b[47] = b[47] & 0x3f | [0, 0x80][r.gen_range(0, 2)]; (b, Judge::Refuse, "not reduced") }
            _ => { let mut b = if r.gen() { [beyond(&Q, 0xff, r), good[48..].to_vec()].concat() } else { [good[..48].to_vec(), { let mut x = beyond(&Q, 0x3f, r); x[47] &= 0x3f; x }].concat() }; if r.gen() { b[95] = b[95] & 0x3f | 0x80; } (b, Judge::Refuse, "not reduced") }
        },
        9 => match k {
            // coordinates of no point, or of a point outside the group
            Kind::Sig => loop { let x = Fq::rand(r); let p = G1Affine::get_point_from_x(x, r.gen()); let mut b = vec![]; x.write(&mut b).unwrap(); if r.gen() { b[47] |= 0x80; } match p { None => break (b, Judge::Refuse, "not on the curve"), Some(p) if !p.is_in_correct_subgroup_assuming_on_curve() => break (b, Judge::Refuse, "outside the group"), _ => {} } },
            Kind::Sk => (good, Judge::Library, "valid"),
            _ => loop { let x = Fq2::rand(r); let p = G2Affine::get_point_from_x(x, r.gen()); let mut b = vec![]; x.write(&mut b).unwrap(); if r.gen() { b[95] |= 0x80; } match p { None => break (b, Judge::Refuse, "not on the curve"), Some(p) if !p.is_in_correct_subgroup_assuming_on_curve() => break (b, Judge::Refuse, "outside the group"), _ => {} } },
        },
        10 => { let mut b = good; let l = b.len() - 1; b[l] ^= [0x40, 0x80, 0xc0][r.gen_range(0, 3)]; (b, Judge::Library, "flags changed") }
        _ => (good, Judge::Library, "valid"),
    }
}
