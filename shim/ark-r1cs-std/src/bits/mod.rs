pub mod boolean;
pub mod uint8;
pub mod uint;
pub mod uint16 { pub use super::uint::UInt16; }
pub mod uint32 { pub use super::uint::UInt32; }
pub mod uint64 { pub use super::uint::UInt64; }
use crate::Res;
use ark_ff::Field;
use boolean::Boolean;
use uint8::UInt8;
pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<F>>>;
    fn to_non_unique_bits_le(&self) -> Res<Vec<Boolean<F>>> { self.to_bits_le() }
    fn to_bits_be(&self) -> Res<Vec<Boolean<F>>> { let mut b = self.to_bits_le()?; b.reverse(); Ok(b) }
    fn to_non_unique_bits_be(&self) -> Res<Vec<Boolean<F>>> { let mut b = self.to_non_unique_bits_le()?; b.reverse(); Ok(b) }
}
impl<F: Field> ToBitsGadget<F> for Boolean<F> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(vec![self.clone()]) } }
impl<F: Field> ToBitsGadget<F> for [Boolean<F>] { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.to_vec()) } }
impl<F: Field> ToBitsGadget<F> for Vec<Boolean<F>> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.clone()) } }
impl<F: Field> ToBitsGadget<F> for UInt8<F> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.bits.to_vec()) } }
impl<F: Field> ToBitsGadget<F> for [UInt8<F>] { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.iter().flat_map(|b| b.bits.to_vec()).collect()) } }
impl<F: Field> ToBitsGadget<F> for Vec<UInt8<F>> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { self[..].to_bits_le() } }
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Res<Vec<UInt8<F>>>;
    fn to_non_unique_bytes(&self) -> Res<Vec<UInt8<F>>> { self.to_bytes() }
}
impl<F: Field> ToBytesGadget<F> for [UInt8<F>] { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(self.to_vec()) } }
impl<F: Field> ToBytesGadget<F> for Vec<UInt8<F>> { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(self.clone()) } }
pub(crate) fn bits_to_bytes<F: Field>(mut bits: Vec<Boolean<F>>) -> Vec<UInt8<F>> {
    while bits.len() % 8 != 0 { bits.push(Boolean::Constant(false)); }
    bits.chunks(8).map(UInt8::from_bits_le).collect()
}
