//! Stand-in for `ark-serialize` (API of early 2021).
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(std::io::Error),
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError {
    fn from(e: std::io::Error) -> Self {
        SerializationError::IoError(e)
    }
}
impl std::fmt::Display for SerializationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SerializationError::NotEnoughSpace => write!(f, "the last byte does not have enough space to encode the extra info bits"),
            SerializationError::InvalidData => write!(f, "the input buffer contained invalid data"),
            SerializationError::UnexpectedFlags => write!(f, "the call expects empty flags"),
            SerializationError::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}

pub trait Flags: Default + Clone + Copy + Sized {
    const BIT_SIZE: usize;
    fn u8_bitmask(&self) -> u8;
    fn from_u8(value: u8) -> Option<Self>;
    fn from_u8_remove_flags(value: &mut u8) -> Option<Self> {
        let flags = Self::from_u8(*value);
        if let Some(f) = flags {
            *value &= !f.u8_bitmask();
        }
        flags
    }
}

#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
pub struct EmptyFlags;
impl Flags for EmptyFlags {
    const BIT_SIZE: usize = 0;
    fn u8_bitmask(&self) -> u8 { 0 }
    fn from_u8(value: u8) -> Option<Self> {
        if (value >> 7) == 0 { Some(EmptyFlags) } else { None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SWFlags {
    Infinity,
    PositiveY,
    NegativeY,
}
impl SWFlags {
    pub fn infinity() -> Self { SWFlags::Infinity }
    pub fn from_y_sign(is_positive: bool) -> Self {
        if is_positive { SWFlags::PositiveY } else { SWFlags::NegativeY }
    }
    pub fn is_infinity(&self) -> bool { matches!(self, SWFlags::Infinity) }
    pub fn is_positive(&self) -> Option<bool> {
        match self {
            SWFlags::Infinity => None,
            SWFlags::PositiveY => Some(true),
            SWFlags::NegativeY => Some(false),
        }
    }
}
impl Default for SWFlags {
    fn default() -> Self { SWFlags::NegativeY }
}
impl Flags for SWFlags {
    const BIT_SIZE: usize = 2;
    fn u8_bitmask(&self) -> u8 {
        match self {
            SWFlags::Infinity => 1 << 6,
            SWFlags::PositiveY => 1 << 7,
            SWFlags::NegativeY => 0,
        }
    }
    fn from_u8(value: u8) -> Option<Self> {
        let x_sign = (value >> 7) & 1 == 1;
        let is_infinity = (value >> 6) & 1 == 1;
        match (x_sign, is_infinity) {
            (true, true) => None,
            (false, true) => Some(SWFlags::Infinity),
            (true, false) => Some(SWFlags::PositiveY),
            (false, false) => Some(SWFlags::NegativeY),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EdwardsFlags {
    PositiveX,
    NegativeX,
}
impl EdwardsFlags {
    pub fn from_x_sign(p: bool) -> Self { if p { EdwardsFlags::PositiveX } else { EdwardsFlags::NegativeX } }
    pub fn is_positive(&self) -> bool { matches!(self, EdwardsFlags::PositiveX) }
}
impl Default for EdwardsFlags {
    fn default() -> Self { EdwardsFlags::NegativeX }
}
impl Flags for EdwardsFlags {
    const BIT_SIZE: usize = 1;
    fn u8_bitmask(&self) -> u8 { if let Self::PositiveX = self { 1 << 7 } else { 0 } }
    fn from_u8(value: u8) -> Option<Self> {
        if (value >> 7) & 1 == 1 { Some(EdwardsFlags::PositiveX) } else { Some(EdwardsFlags::NegativeX) }
    }
}

pub trait CanonicalSerialize {
    fn serialize<W: Write>(&self, writer: W) -> Result<(), SerializationError>;
    fn serialized_size(&self) -> usize;
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize(writer)
    }
    fn serialize_unchecked<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize_uncompressed(writer)
    }
    fn uncompressed_size(&self) -> usize {
        self.serialized_size()
    }
}
pub trait CanonicalSerializeWithFlags: CanonicalSerialize {
    fn serialize_with_flags<W: Write, F: Flags>(&self, writer: W, flags: F) -> Result<(), SerializationError>;
    fn serialized_size_with_flags<F: Flags>(&self) -> usize;
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize<R: Read>(reader: R) -> Result<Self, SerializationError>;
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize(reader)
    }
    fn deserialize_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_uncompressed(reader)
    }
}
pub trait CanonicalDeserializeWithFlags: Sized {
    fn deserialize_with_flags<R: Read, F: Flags>(reader: R) -> Result<(Self, F), SerializationError>;
}

macro_rules! impl_uint {
    ($t:ty, $n:expr) => {
        impl CanonicalSerialize for $t {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                Ok(w.write_all(&self.to_le_bytes())?)
            }
            fn serialized_size(&self) -> usize { $n }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = [0u8; $n];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    };
}
impl_uint!(u8, 1);
impl_uint!(u16, 2);
impl_uint!(u32, 4);
impl_uint!(u64, 8);
impl CanonicalSerialize for usize {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        Ok(w.write_all(&(*self as u64).to_le_bytes())?)
    }
    fn serialized_size(&self) -> usize { 8 }
}
impl CanonicalDeserialize for usize {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Ok(u64::deserialize(r)? as usize)
    }
}
impl CanonicalSerialize for bool {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self as u8).serialize(w) }
    fn serialized_size(&self) -> usize { 1 }
}
impl CanonicalDeserialize for bool {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        match u8::deserialize(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) }
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for x in self { x.serialize(&mut w)?; }
        Ok(())
    }
    fn serialized_size(&self) -> usize { 8 + self.iter().map(|x| x.serialized_size()).sum::<usize>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for x in self { x.serialize_uncompressed(&mut w)?; }
        Ok(())
    }
    fn serialize_unchecked<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for x in self { x.serialize_unchecked(&mut w)?; }
        Ok(())
    }
    fn uncompressed_size(&self) -> usize { 8 + self.iter().map(|x| x.uncompressed_size()).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize(w) }
    fn serialized_size(&self) -> usize { self.as_slice().serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize_uncompressed(w) }
    fn serialize_unchecked<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize_unchecked(w) }
    fn uncompressed_size(&self) -> usize { self.as_slice().uncompressed_size() }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?;
        let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize(&mut r)?); }
        Ok(v)
    }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?;
        let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize_uncompressed(&mut r)?); }
        Ok(v)
    }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?;
        let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize_unchecked(&mut r)?); }
        Ok(v)
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        self.is_some().serialize(&mut w)?;
        if let Some(x) = self { x.serialize(&mut w)?; }
        Ok(())
    }
    fn serialized_size(&self) -> usize { 1 + self.as_ref().map(|x| x.serialized_size()).unwrap_or(0) }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        self.is_some().serialize(&mut w)?;
        if let Some(x) = self { x.serialize_uncompressed(&mut w)?; }
        Ok(())
    }
    fn uncompressed_size(&self) -> usize { 1 + self.as_ref().map(|x| x.uncompressed_size()).unwrap_or(0) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        Ok(if bool::deserialize(&mut r)? { Some(T::deserialize(&mut r)?) } else { None })
    }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        Ok(if bool::deserialize(&mut r)? { Some(T::deserialize_uncompressed(&mut r)?) } else { None })
    }
}
impl<'a, T: CanonicalSerialize + ?Sized> CanonicalSerialize for &'a T {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self).serialize(w) }
    fn serialized_size(&self) -> usize { (*self).serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self).serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { (*self).uncompressed_size() }
}
impl<A: CanonicalSerialize, B: CanonicalSerialize> CanonicalSerialize for (A, B) {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.0.serialize(&mut w)?; self.1.serialize(&mut w) }
    fn serialized_size(&self) -> usize { self.0.serialized_size() + self.1.serialized_size() }
}
impl<T> CanonicalSerialize for std::marker::PhantomData<T> {
    fn serialize<W: Write>(&self, _: W) -> Result<(), SerializationError> { Ok(()) }
    fn serialized_size(&self) -> usize { 0 }
}
impl<T> CanonicalDeserialize for std::marker::PhantomData<T> {
    fn deserialize<R: Read>(_: R) -> Result<Self, SerializationError> { Ok(std::marker::PhantomData) }
}
/// Number of bytes needed for `modulus_bits` bits
pub const fn buffer_byte_size(modulus_bits: usize) -> usize { (modulus_bits + 7) / 8 }
pub const fn buffer_bit_byte_size(modulus_bits: usize) -> (usize, usize) {
    let b = buffer_byte_size(modulus_bits);
    (b * 8, b)
}
