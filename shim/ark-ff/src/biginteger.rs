use crate::bytes::{FromBytes, ToBytes};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt::{Debug, Display};
use std::io::{Read, Result as IoResult, Write};

pub struct BitIteratorBE<S: AsRef<[u64]>> { s: S, n: usize }
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self { let n = s.as_ref().len() * 64; BitIteratorBE { s, n } }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> { Self::new(s).skip_while(|b| !b) }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == 0 { None } else {
            self.n -= 1;
            Some((self.s.as_ref()[self.n / 64] >> (self.n % 64)) & 1 == 1)
        }
    }
}
pub struct BitIteratorLE<S: AsRef<[u64]>> { s: S, n: usize, max: usize }
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self { let max = s.as_ref().len() * 64; BitIteratorLE { s, n: 0, max } }
    pub fn without_trailing_zeros(s: S) -> Self {
        let mut max = s.as_ref().len() * 64;
        while max > 0 && (s.as_ref()[(max - 1) / 64] >> ((max - 1) % 64)) & 1 == 0 { max -= 1; }
        BitIteratorLE { s, n: 0, max }
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == self.max { None } else {
            let i = self.n;
            self.n += 1;
            Some((self.s.as_ref()[i / 64] >> (i % 64)) & 1 == 1)
        }
    }
}

/// w-NAF etc. are not needed; the Miller loops use plain binary.
pub trait BigInteger:
    ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Debug + Default
    + Display + Eq + Ord + Send + Sized + Sync + 'static + AsMut<[u64]> + AsRef<[u64]> + From<u64>
    + std::hash::Hash
{
    const NUM_LIMBS: usize;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn muln(&mut self, amt: u32);
    fn div2(&mut self);
    fn divn(&mut self, amt: u32);
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool;
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn from_bits_be(bits: &[bool]) -> Self;
    fn from_bits_le(bits: &[bool]) -> Self;
    fn to_bits_be(&self) -> Vec<bool>;
    fn to_bits_le(&self) -> Vec<bool>;
    fn to_bytes_be(&self) -> Vec<u8>;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn from_bits(bits: &[bool]) -> Self { Self::from_bits_be(bits) }
    fn to_bits(&self) -> Vec<bool> { self.to_bits_be() }
}

macro_rules! bigint_impl {
    ($name:ident, $n:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, Default)]
        pub struct $name(pub [u64; $n]);
        impl $name {
            pub const fn new(value: [u64; $n]) -> Self { $name(value) }
        }
        impl BigInteger for $name {
            const NUM_LIMBS: usize = $n;
            #[inline]
            fn add_nocarry(&mut self, o: &Self) -> bool {
                let mut c = 0u64;
                for i in 0..$n {
                    let t = (self.0[i] as u128).wrapping_add(o.0[i] as u128).wrapping_add(c as u128);
                    self.0[i] = t as u64;
                    c = (t >> 64) as u64;
                }
                c != 0
            }
            #[inline]
            fn sub_noborrow(&mut self, o: &Self) -> bool {
                let mut b = 0u64;
                for i in 0..$n {
                    let (r, b1) = self.0[i].overflowing_sub(o.0[i]);
                    let (r, b2) = r.overflowing_sub(b);
                    self.0[i] = r;
                    b = (b1 | b2) as u64;
                }
                b != 0
            }
            fn mul2(&mut self) {
                let mut last = 0;
                for i in 0..$n {
                    let t = self.0[i] >> 63;
                    self.0[i] = (self.0[i] << 1) | last;
                    last = t;
                }
            }
            fn muln(&mut self, amt: u32) { for _ in 0..amt.min(64 * $n) { self.mul2(); } }
            fn div2(&mut self) {
                let mut t = 0;
                for i in (0..$n).rev() {
                    let t2 = self.0[i] << 63;
                    self.0[i] = (self.0[i] >> 1) | t;
                    t = t2;
                }
            }
            fn divn(&mut self, amt: u32) { for _ in 0..amt.min(64 * $n) { self.div2(); } }
            #[inline]
            fn is_odd(&self) -> bool { self.0[0] & 1 == 1 }
            #[inline]
            fn is_even(&self) -> bool { !self.is_odd() }
            #[inline]
            fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
            fn num_bits(&self) -> u32 {
                for i in (0..$n).rev() {
                    if self.0[i] != 0 { return 64 * (i as u32 + 1) - self.0[i].leading_zeros(); }
                }
                0
            }
            fn get_bit(&self, i: usize) -> bool {
                if i >= 64 * $n { false } else { (self.0[i / 64] >> (i % 64)) & 1 == 1 }
            }
            fn from_bits_be(bits: &[bool]) -> Self {
                let mut b = bits.to_vec();
                b.reverse();
                Self::from_bits_le(&b)
            }
            fn from_bits_le(bits: &[bool]) -> Self {
                let mut r = Self::default();
                // like upstream: too many bits panics (limb out of range)
                for (i, b) in bits.iter().enumerate() { r.0[i / 64] |= (*b as u64) << (i % 64); }
                r
            }
            fn to_bits_be(&self) -> Vec<bool> { BitIteratorBE::new(self).collect() }
            fn to_bits_le(&self) -> Vec<bool> { BitIteratorLE::new(self).collect() }
            fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
            fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
        }
        impl CanonicalSerialize for $name {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { Ok(self.write(&mut w)?) }
            fn serialized_size(&self) -> usize { 8 * $n }
        }
        impl CanonicalDeserialize for $name {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(Self::read(&mut r)?) }
        }
        impl ToBytes for $name {
            fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
                for x in self.0.iter() { w.write_all(&x.to_le_bytes())?; }
                Ok(())
            }
        }
        impl FromBytes for $name {
            fn read<R: Read>(mut r: R) -> IoResult<Self> {
                let mut a = [0u64; $n];
                for x in a.iter_mut() { *x = u64::read(&mut r)?; }
                Ok($name(a))
            }
        }
        impl Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                for i in self.0.iter().rev() { write!(f, "{:016X}", *i)?; }
                Ok(())
            }
        }
        impl Ord for $name {
            #[inline]
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                for i in (0..$n).rev() {
                    if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
                }
                std::cmp::Ordering::Equal
            }
        }
        impl PartialOrd for $name {
            #[inline]
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
        }
        impl Distribution<$name> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $name {
                let mut a = [0u64; $n];
                for x in a.iter_mut() { *x = rng.gen(); }
                $name(a)
            }
        }
        impl AsMut<[u64]> for $name { #[inline] fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
        impl AsRef<[u64]> for $name { #[inline] fn as_ref(&self) -> &[u64] { &self.0 } }
        impl From<u64> for $name {
            #[inline]
            fn from(v: u64) -> $name { let mut r = Self::default(); r.0[0] = v; r }
        }
    };
}
bigint_impl!(BigInteger64, 1);
bigint_impl!(BigInteger128, 2);
bigint_impl!(BigInteger256, 4);
bigint_impl!(BigInteger320, 5);
bigint_impl!(BigInteger384, 6);
bigint_impl!(BigInteger448, 7);
bigint_impl!(BigInteger768, 12);
bigint_impl!(BigInteger832, 13);

// ---- const helpers over raw limb arrays ----
pub const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
pub const fn limbs_geq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut i = N;
    while i > 0 {
        i = i.wrapping_sub(1);
        if a[i] > b[i] { return true; }
        if a[i] < b[i] { return false; }
    }
    true
}
pub const fn limbs_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    let mut bor = 0u64;
    let mut i = 0;
    while i < N {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bor);
        r[i] = x;
        bor = (b1 | b2) as u64;
        i = i.wrapping_add(1);
    }
    r
}
pub const fn limbs_double_mod<const N: usize>(a: &[u64; N], m: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    let mut c = 0;
    let mut i = 0;
    while i < N {
        r[i] = (a[i] << 1) | c;
        c = a[i] >> 63;
        i += 1;
    }
    if c != 0 || limbs_geq(&r, m) { limbs_sub(&r, m) } else { r }
}
pub const fn pow2_mod<const N: usize>(e: usize, m: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    r[0] = 1;
    let mut i = 0;
    while i < e {
        r = limbs_double_mod(&r, m);
        i += 1;
    }
    r
}
pub const fn mont_inv(m0: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(m0);
        i += 1;
    }
    inv.wrapping_neg()
}
/// a + b * c + d, low and high half (cannot overflow)
#[inline(always)]
const fn mac(a: u64, b: u64, c: u64, d: u64) -> (u64, u64) {
    let p = (a as u128).wrapping_add((b as u128).wrapping_mul(c as u128)).wrapping_add(d as u128);
    (p as u64, (p >> 64) as u64)
}
#[inline(always)]
pub const fn mont_mul<const N: usize>(a: &[u64; N], b: &[u64; N], m: &[u64; N], inv: u64) -> [u64; N] {
    // "no carry" CIOS: the modulus has a spare top bit
    let mut t = [0u64; N];
    let mut i = 0;
    while i < N {
        let (lo, mut c1) = mac(t[0], a[0], b[i], 0);
        let k = lo.wrapping_mul(inv);
        let (_, mut c2) = mac(lo, k, m[0], 0);
        let mut j = 1;
        while j < N {
            let (p, h) = mac(t[j], a[j], b[i], c1);
            c1 = h;
            let (q, h) = mac(p, k, m[j], c2);
            c2 = h;
            t[j.wrapping_sub(1)] = q;
            j = j.wrapping_add(1);
        }
        t[N - 1] = c1.wrapping_add(c2);
        i = i.wrapping_add(1);
    }
    if limbs_geq(&t, m) { limbs_sub(&t, m) } else { t }
}
/// decimal string to limbs
pub const fn parse_dec<const N: usize>(s: &str) -> [u64; N] {
    let b = s.as_bytes();
    let mut r = [0u64; N];
    let mut i = 0;
    while i < b.len() {
        let mut c = (b[i] - b'0') as u128;
        let mut j = 0;
        while j < N {
            let t = (r[j] as u128) * 10 + c;
            r[j] = t as u64;
            c = t >> 64;
            j += 1;
        }
        assert!(c == 0);
        i += 1;
    }
    r
}
pub const fn limbs_bits<const N: usize>(a: &[u64; N]) -> u32 {
    let mut i = N;
    while i > 0 {
        i -= 1;
        if a[i] != 0 { return 64 * (i as u32 + 1) - a[i].leading_zeros(); }
    }
    0
}
pub const fn limbs_shr<const N: usize>(a: &[u64; N], n: u32) -> [u64; N] {
    let mut r = *a;
    let mut k = 0;
    while k < n {
        let mut i = 0;
        while i < N {
            let hi = if i + 1 < N { r[i + 1] << 63 } else { 0 };
            r[i] = (r[i] >> 1) | hi;
            i += 1;
        }
        k += 1;
    }
    r
}
pub const fn limbs_trailing_zeros<const N: usize>(a: &[u64; N]) -> u32 {
    let mut i = 0;
    while i < N {
        if a[i] != 0 { return 64 * i as u32 + a[i].trailing_zeros(); }
        i += 1;
    }
    64 * N as u32
}
pub const fn limbs_sub_one<const N: usize>(a: &[u64; N]) -> [u64; N] {
    let mut one = [0u64; N];
    one[0] = 1;
    limbs_sub(a, &one)
}
