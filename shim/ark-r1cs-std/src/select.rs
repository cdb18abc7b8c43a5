use crate::{bits::boolean::Boolean, Res};
use ark_ff::Field;
pub trait CondSelectGadget<F: Field> where Self: Sized {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Res<Self>;
}
pub trait TwoBitLookupGadget<F: Field> where Self: Sized {
    type TableConstant;
    fn two_bit_lookup(bits: &[Boolean<F>], constants: &[Self::TableConstant]) -> Res<Self>;
}
pub trait ThreeBitCondNegLookupGadget<F: Field> where Self: Sized {
    type TableConstant;
    fn three_bit_cond_neg_lookup(bits: &[Boolean<F>], b0b1: &Boolean<F>, constants: &[Self::TableConstant]) -> Res<Self>;
}
