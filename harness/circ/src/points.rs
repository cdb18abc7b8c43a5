//! Points and field elements at the boundaries of sign and reduction, and independent decoding of a hash.
use ark_bls12_377::{Fq, Fq2, G1Affine, G1Projective, G2Affine};
use ark_ec::{AffineCurve, SWModelParameters};
use ark_ff::{BigInteger, Field, One, PrimeField, SquareRootField, UniformRand, Zero};
use mon::{rand::Rng, Rng8};
type P1 = ark_bls12_377::g1::Parameters;
type P2 = ark_bls12_377::g2::Parameters;

// ---- big naturals, little-endian 32-bit digits (only for exponents)
pub fn digits(m: &Fq) -> Vec<u32> { let mut v = vec![]; for b in m.into_repr().to_bytes_le().chunks(4) { let mut a = [0u8; 4]; a[..b.len()].copy_from_slice(b); v.push(u32::from_le_bytes(a)); } v }
pub fn mulb(a: &[u32], b: &[u32]) -> Vec<u32> { let mut r = vec![0u64; a.len() + b.len() + 1]; for (i, x) in a.iter().enumerate() { let mut c = 0u64; for (j, y) in b.iter().enumerate() { let t = r[i + j] + *x as u64 * *y as u64 + c; r[i + j] = t & 0xffffffff; c = t >> 32; } let mut k = i + b.len(); while c > 0 { let t = r[k] + c; r[k] = t & 0xffffffff; c = t >> 32; k += 1; } } r.into_iter().map(|x| x as u32).collect() }
pub fn divs(a: &[u32], d: u32) -> (Vec<u32>, u32) { let mut r = vec![0; a.len()]; let mut rem = 0u64; for i in (0..a.len()).rev() { let t = rem << 32 | a[i] as u64; r[i] = (t / d as u64) as u32; rem = t % d as u64; } (r, rem as u32) }
pub fn adds(a: &[u32], d: i64) -> Vec<u32> { let mut r = a.to_vec(); r.push(0); let mut c = d; for x in r.iter_mut() { let t = *x as i64 + c; *x = t.rem_euclid(1 << 32) as u32; c = t.div_euclid(1 << 32); } r }
pub fn limbs(a: &[u32]) -> Vec<u64> { let mut a = a.to_vec(); if a.len() % 2 == 1 { a.push(0) } a.chunks(2).map(|c| c[0] as u64 | (c[1] as u64) << 32).collect() }
/// a cube root by Adleman, Manders and Miller; `order` is that of the multiplicative group
pub fn cbrt<F: Field>(a: F, order: &[u32]) -> Option<F> {
    if a.is_zero() { return Some(a); }
    let (mut t, mut s) = (order.to_vec(), 0u32);
    loop { let (q, r) = divs(&t, 3); if r != 0 { break; } t = q; s += 1; }
    if s > 0 && !a.pow(limbs(&divs(order, 3).0)).is_one() { return None; }
    let tm = divs(&t, 3).1;
    // alpha with 3 alpha = 1 mod t
    let alpha = if tm == 2 { divs(&adds(&t, 1), 3).0 } else { divs(&adds(&mulb(&t, &[2]), 1), 3).0 };
    let x = a.pow(limbs(&alpha));
    if s == 0 { return (x * x * x == a).then_some(x); }
    let mut g = F::one();
    let mut k = F::one();
    while g.pow(limbs(&divs(order, 3).0)).is_one() { k += F::one(); g = k; if g.is_zero() { return None; } if let Some(h) = extra(&k) { g = h; } }
    let g = g.pow(limbs(&t));
    // x^3 / a lies in the 3-Sylow group: remove its discrete logarithm
    let e = x * x * x * a.inverse()?;
    let n = 3u64.pow(s);
    let (mut h, gi) = (F::one(), g);
    for i in 0..n { if h == e { if i % 3 != 0 { return None; } let y = x * gi.inverse()?.pow([i / 3]); return (y * y * y == a).then_some(y); } h *= gi; if n > 100000 && i > 100000 { return None; } }
    None
}
/// elements outside the prime field, where F is an extension
pub fn extra<F: Field>(k: &F) -> Option<F> { (k as &dyn std::any::Any).downcast_ref::<Fq2>().map(|k| { let v = Fq2::new(k.c0, Fq::one()); *(&v as &dyn std::any::Any).downcast_ref::<F>().unwrap() }) }
pub fn order1() -> Vec<u32> { let m = digits(&-Fq::one()); m } // q - 1
pub fn order2() -> Vec<u32> { let m = adds(&digits(&-Fq::one()), 1); adds(&mulb(&m, &m), -1) }
pub fn half() -> Fq { -(Fq::one().double().inverse().unwrap()) } // (q - 1) / 2
pub fn big(f: &Fq) -> Vec<u8> { f.into_repr().to_bytes_be() }
pub fn larger(y: &Fq) -> bool { !y.is_zero() && big(y) > big(&-*y) }
pub fn larger2(y: &Fq2) -> bool { if y.c1.is_zero() { larger(&y.c0) } else { larger(&y.c1) } }
pub fn special(r: &mut Rng8) -> Fq {
    let h = half();
    let k = Fq::from(r.gen_range(0u64, 40));
    match r.gen_range(0, 9) { 0 => k, 1 => -k, 2 => h + k, 3 => h - k, 4 => h + Fq::one() + k, 5 => Fq::from(2u64).pow([r.gen_range(0u64, 378)]), 6 => -Fq::from(2u64).pow([r.gen_range(0u64, 378)]), 7 => h + Fq::from(2u64).pow([r.gen_range(0u64, 370)]), _ => Fq::rand(r) }
}
pub fn on1(y: Fq) -> Option<G1Affine> { let x = cbrt(y.square() - P1::COEFF_B, &order1())?; let p = G1Affine::new(x, y, false); assert!(p.is_on_curve()); Some(p) }
pub fn on2(y: Fq2) -> Option<G2Affine> { let x = cbrt(y.square() - P2::COEFF_B, &order2())?; let p = G2Affine::new(x, y, false); assert!(p.is_on_curve()); Some(p) }
pub fn bits_le(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
/// the point 377 bits and a sign bit stand for, cofactor cleared
pub fn decode(bits: &[bool], sign: usize) -> Option<G1Projective> {
    let (mut x, mut p) = (Fq::zero(), Fq::one());
    for b in &bits[..377] { if *b { x += p; } p = p.double(); }
    // refused when not reduced: compare with the canonical bits
    let canon = x.into_repr().to_bits_le();
    if (0..377).any(|i| canon[i] != bits[i]) { return None; }
    let y = (x.square() * x + P1::COEFF_B).sqrt()?;
    let n = -y;
    let big = if y.into_repr().to_bytes_be() > n.into_repr().to_bytes_be() { y } else { n };
    let p = G1Affine::new(x, if bits[sign] { big } else { -big }, false);
    Some(clear(p))
}
pub fn clear(p: G1Affine) -> G1Projective {
    // 0x170b5d44300000000000000000000000
    let mut a = G1Projective::zero();
    for i in (0..128).rev() {
        a = a + a;
        if 0x170b5d44300000000000000000000000u128 >> i & 1 == 1 { a = a + p.into_projective(); }
    }
    a
}
pub fn on_curve(bits: &[bool]) -> Option<G1Affine> {
    let (mut x, mut p) = (Fq::zero(), Fq::one());
    for b in &bits[..377] { if *b { x += p; } p = p.double(); }
    let y = (x.square() * x + P1::COEFF_B).sqrt()?;
    Some(G1Affine::new(x, y, false))
}
