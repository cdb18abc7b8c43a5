use super::*;
use crate::biginteger::*;
use ark_serialize::{buffer_byte_size, Read, SerializationError, Write};
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::io::Result as IoResult;
use std::marker::PhantomData;

macro_rules! impl_fp {
    ($fp:ident, $ptrait:ident, $bi:ident, $n:expr) => {
        pub trait $ptrait: FpParameters<BigInt = $bi> {}
        pub struct $fp<P>(pub $bi, pub PhantomData<P>);
        impl<P> Clone for $fp<P> { #[inline] fn clone(&self) -> Self { *self } }
        impl<P> Copy for $fp<P> {}
        impl<P> Default for $fp<P> { fn default() -> Self { $fp($bi([0; $n]), PhantomData) } }
        impl<P> PartialEq for $fp<P> { #[inline] fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<P> Eq for $fp<P> {}
        impl<P> Hash for $fp<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
        impl<P: $ptrait> $fp<P> {
            pub const fn new(e: $bi) -> Self { $fp(e, PhantomData) }
            /// decimal constant
            pub const fn dec(s: &str) -> Self {
                $fp($bi(mont_mul::<$n>(&parse_dec::<$n>(s), &P::R2.0, &P::MODULUS.0, P::INV)), PhantomData)
            }
            pub const fn const_neg(&self) -> Self {
                $fp($bi(limbs_sub(&P::MODULUS.0, &self.0 .0)), PhantomData)
            }
            pub const ZERO: Self = $fp($bi([0; $n]), PhantomData);
            pub const ONE: Self = $fp(P::R, PhantomData);
            #[inline]
            fn is_valid(&self) -> bool { self.0 < P::MODULUS }
            #[inline]
            fn reduce(&mut self) { if !self.is_valid() { self.0.sub_noborrow(&P::MODULUS); } }
        }
        impl<P: $ptrait> Zero for $fp<P> {
            #[inline] fn zero() -> Self { Self::ZERO }
            #[inline] fn is_zero(&self) -> bool { self.0.is_zero() }
        }
        impl<P: $ptrait> One for $fp<P> {
            #[inline] fn one() -> Self { Self::ONE }
            #[inline] fn is_one(&self) -> bool { self.0 == P::R }
        }
        impl<P: $ptrait> Field for $fp<P> {
            type BasePrimeField = Self;
            fn extension_degree() -> u64 { 1 }
            fn characteristic<'a>() -> &'a [u64] {
                // leak once per type: constant promoted
                struct M<P>(PhantomData<P>);
                impl<P: $ptrait> M<P> { const V: &'static $bi = &P::MODULUS; }
                M::<P>::V.as_ref()
            }
            #[inline]
            fn double(&self) -> Self { let mut r = *self; r.0.mul2(); r.reduce(); r }
            fn inverse(&self) -> Option<Self> {
                if self.is_zero() { return None; }
                // binary extended gcd (Guajardo et al.)
                let one = $bi::from(1);
                let mut u = self.0;
                let mut v = P::MODULUS;
                let mut b = Self::new(P::R2);
                let mut c = Self::ZERO;
                while u != one && v != one {
                    while u.is_even() {
                        u.div2();
                        if b.0.is_odd() { b.0.add_nocarry(&P::MODULUS); }
                        b.0.div2();
                    }
                    while v.is_even() {
                        v.div2();
                        if c.0.is_odd() { c.0.add_nocarry(&P::MODULUS); }
                        c.0.div2();
                    }
                    if v < u { u.sub_noborrow(&v); b -= &c; } else { v.sub_noborrow(&u); c -= &b; }
                }
                if u == one { Some(b) } else { Some(c) }
            }
            fn frobenius_map(&mut self, _: usize) {}
            fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
                if F::BIT_SIZE > 8 { return None; }
                let mut result_bytes = [0u8; $n * 8 + 1];
                result_bytes.iter_mut().zip(bytes).for_each(|(r, i)| *r = *i);
                let last_limb_mask = (u64::MAX >> P::REPR_SHAVE_BITS).to_le_bytes();
                let mut last_bytes_mask = [0u8; 9];
                last_bytes_mask[..8].copy_from_slice(&last_limb_mask);
                let output_byte_size = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
                let flag_location = output_byte_size - 1;
                let flag_location_in_last_limb = flag_location - (8 * ($n - 1));
                let last_bytes = &mut result_bytes[8 * ($n - 1)..];
                let flags_mask = u8::MAX.checked_shl(8 - (F::BIT_SIZE as u32)).unwrap_or(0);
                let mut flags: u8 = 0;
                for (i, (b, m)) in last_bytes.iter_mut().zip(&last_bytes_mask).enumerate() {
                    if i == flag_location_in_last_limb { flags = *b & flags_mask }
                    *b &= m;
                }
                Self::deserialize(&result_bytes[..($n * 8)]).ok().and_then(|f| F::from_u8(flags).map(|flag| (f, flag)))
            }
        }
        impl<P: $ptrait> FftField for $fp<P> { type FftParams = P; }
        impl<P: $ptrait> PrimeField for $fp<P> {
            type Params = P;
            type BigInt = $bi;
            fn from_repr(r: $bi) -> Option<Self> {
                let mut r = $fp(r, PhantomData);
                if r.is_zero() { Some(r) } else if r.is_valid() { r *= &$fp(P::R2, PhantomData); Some(r) } else { None }
            }
            #[inline]
            fn into_repr(&self) -> $bi {
                let mut one = [0u64; $n];
                one[0] = 1;
                $bi(mont_mul::<$n>(&self.0 .0, &one, &P::MODULUS.0, P::INV))
            }
            fn multiplicative_generator() -> Self { $fp(P::GENERATOR, PhantomData) }
            fn get_root_of_unity_2s() -> Self { Self::multiplicative_generator().pow(P::T) }
        }
        impl<P: $ptrait> SquareRootField for $fp<P> {
            fn legendre(&self) -> LegendreSymbol {
                let s = self.pow(P::MODULUS_MINUS_ONE_DIV_TWO);
                if s.is_zero() { LegendreSymbol::Zero } else if s.is_one() { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue }
            }
            fn sqrt(&self) -> Option<Self> { tonelli(self) }
        }
        impl<P: $ptrait> Ord for $fp<P> { #[inline] fn cmp(&self, o: &Self) -> Ordering { self.into_repr().cmp(&o.into_repr()) } }
        impl<P: $ptrait> PartialOrd for $fp<P> { #[inline] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl<P: $ptrait> From<u128> for $fp<P> {
            fn from(v: u128) -> Self { let mut r = [0u64; $n]; r[0] = v as u64; r[1] = (v >> 64) as u64; Self::from_repr($bi(r)).unwrap() }
        }
        impl<P: $ptrait> From<u64> for $fp<P> { fn from(v: u64) -> Self { Self::from_repr($bi::from(v)).unwrap() } }
        impl<P: $ptrait> From<u32> for $fp<P> { fn from(v: u32) -> Self { Self::from(v as u64) } }
        impl<P: $ptrait> From<u16> for $fp<P> { fn from(v: u16) -> Self { Self::from(v as u64) } }
        impl<P: $ptrait> From<u8> for $fp<P> { fn from(v: u8) -> Self { Self::from(v as u64) } }
        impl<P: $ptrait> From<bool> for $fp<P> { fn from(v: bool) -> Self { Self::from(v as u64) } }
        impl<P: $ptrait> From<$bi> for $fp<P> { fn from(v: $bi) -> Self { Self::from_repr(v).unwrap() } }
        impl<P: $ptrait> From<$fp<P>> for $bi { fn from(v: $fp<P>) -> Self { v.into_repr() } }
        impl<P: $ptrait> FromStr for $fp<P> {
            type Err = ();
            fn from_str(s: &str) -> Result<Self, ()> {
                if s.is_empty() { return Err(()); }
                let ten = Self::from(10u64);
                let mut r = Self::zero();
                for c in s.chars() { r *= &ten; r += &Self::from(c.to_digit(10).ok_or(())? as u64); }
                Ok(r)
            }
        }
        impl<P: $ptrait> ToBytes for $fp<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.into_repr().write(w) } }
        impl<P: $ptrait> FromBytes for $fp<P> {
            fn read<R: Read>(r: R) -> IoResult<Self> {
                $bi::read(r).and_then(|b| match Self::from_repr(b) {
                    Some(f) => Ok(f),
                    None => Err(std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed")),
                })
            }
        }
        impl<P: $ptrait> std::fmt::Display for $fp<P> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, concat!(stringify!($fp), "(\"{}\")"), self.into_repr()) }
        }
        impl<P: $ptrait> std::fmt::Debug for $fp<P> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, concat!(stringify!($fp), "({})"), self.into_repr()) }
        }
        impl<P: $ptrait> CanonicalSerializeWithFlags for $fp<P> {
            fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
                if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
                let size = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
                let mut bytes = [0u8; $n * 8 + 1];
                self.write(&mut bytes[..$n * 8])?;
                bytes[size - 1] |= flags.u8_bitmask();
                w.write_all(&bytes[..size])?;
                Ok(())
            }
            fn serialized_size_with_flags<F: Flags>(&self) -> usize { buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) }
        }
        impl<P: $ptrait> CanonicalSerialize for $fp<P> {
            fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
            fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
        }
        impl<P: $ptrait> CanonicalDeserializeWithFlags for $fp<P> {
            fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
                if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
                let size = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
                let mut m = [0u8; $n * 8 + 1];
                r.read_exact(&mut m[..size])?;
                let flags = F::from_u8_remove_flags(&mut m[size - 1]).ok_or(SerializationError::UnexpectedFlags)?;
                // bytes beyond the limbs cannot be non-zero for a value below the modulus
                if m[$n * 8] != 0 { return Err(SerializationError::InvalidData); }
                Ok((Self::read(&m[..$n * 8])?, flags))
            }
        }
        impl<P: $ptrait> CanonicalDeserialize for $fp<P> {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let size = buffer_byte_size(P::MODULUS_BITS as usize);
                let mut m = [0u8; $n * 8];
                r.read_exact(&mut m[..size])?;
                Ok(Self::read(&m[..])?)
            }
        }
        impl<P: $ptrait> Distribution<$fp<P>> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $fp<P> {
                loop {
                    let mut t = $fp::<P>(rng.sample(Standard), PhantomData);
                    t.0.as_mut()[$n - 1] &= if P::REPR_SHAVE_BITS == 64 { 0 } else { u64::MAX >> P::REPR_SHAVE_BITS };
                    if t.is_valid() { return t; }
                }
            }
        }
        impl<P: $ptrait> Neg for $fp<P> {
            type Output = Self;
            #[inline]
            fn neg(self) -> Self { if self.is_zero() { self } else { let mut t = P::MODULUS; t.sub_noborrow(&self.0); $fp(t, PhantomData) } }
        }
        impl<'a, P: $ptrait> AddAssign<&'a Self> for $fp<P> { #[inline] fn add_assign(&mut self, o: &Self) { self.0.add_nocarry(&o.0); self.reduce(); } }
        impl<'a, P: $ptrait> SubAssign<&'a Self> for $fp<P> {
            #[inline]
            fn sub_assign(&mut self, o: &Self) { if self.0.sub_noborrow(&o.0) { self.0.add_nocarry(&P::MODULUS); } }
        }
        impl<'a, P: $ptrait> MulAssign<&'a Self> for $fp<P> {
            #[inline]
            fn mul_assign(&mut self, o: &Self) { self.0 = $bi(mont_mul::<$n>(&self.0 .0, &o.0 .0, &P::MODULUS.0, P::INV)); }
        }
        crate::field_ops_from_ref!([P: $ptrait], $fp<P>);
    };
}
impl_fp!(Fp256, Fp256Parameters, BigInteger256, 4);
impl_fp!(Fp320, Fp320Parameters, BigInteger320, 5);
impl_fp!(Fp384, Fp384Parameters, BigInteger384, 6);
impl_fp!(Fp768, Fp768Parameters, BigInteger768, 12);
