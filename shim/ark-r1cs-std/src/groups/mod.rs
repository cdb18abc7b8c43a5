use crate::{alloc::*, bits::boolean::Boolean, bits::{ToBitsGadget, ToBytesGadget}, eq::EqGadget, select::CondSelectGadget, R1CSVar, Res};
use ark_ec::ProjectiveCurve;
use ark_ff::Field;
use ark_relations::r1cs::{Namespace, SynthesisError};
use std::fmt::Debug;
use std::ops::*;
pub mod curves {
    pub mod short_weierstrass {
        pub use crate::groups::sw::*;
        pub use crate::groups::bls12;
    }
    pub mod twisted_edwards { pub use crate::groups::te::*; }
}
pub mod sw;
pub mod te;
pub mod bls12;


pub trait GroupOpsBounds<'a, F, T: 'a>:
    Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> {}
impl<'a, F, T: 'a, S> GroupOpsBounds<'a, F, T> for S where
    S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> {}

pub trait CurveVar<C: ProjectiveCurve, F: Field>:
    'static + Sized + Clone + Debug + R1CSVar<F, Value = C> + ToBitsGadget<F> + ToBytesGadget<F> + EqGadget<F> + CondSelectGadget<F>
    + AllocVar<C, F> + AllocVar<C::Affine, F>
    + for<'a> GroupOpsBounds<'a, C, Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + AddAssign<C> + SubAssign<C> + AddAssign<Self> + SubAssign<Self>
{
    fn zero() -> Self;
    fn is_zero(&self) -> Res<Boolean<F>> { self.is_eq(&Self::zero()) }
    fn constant(other: C) -> Self;
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<C, SynthesisError>, mode: AllocationMode) -> Res<Self>;
    fn enforce_prime_order(&self) -> Res<()>;
    fn double(&self) -> Res<Self> { let mut r = self.clone(); r.double_in_place()?; Ok(r) }
    fn double_in_place(&mut self) -> Res<()>;
    fn negate(&self) -> Res<Self>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<F>>) -> Res<Self> {
        let bits: Vec<Boolean<F>> = bits.cloned().collect();
        let used = bits.iter().rposition(|b| !matches!(b, Boolean::Constant(false))).map_or(0, |p| p + 1);
        let mut res = Self::zero();
        let mut multiple = self.clone();
        for (i, bit) in bits[..used].iter().enumerate() {
            match bit {
                Boolean::Constant(false) => {}
                Boolean::Constant(true) => res += &multiple,
                b => { let t = res.clone() + &multiple; res = b.select(&t, &res)?; }
            }
            if i + 1 < used { multiple.double_in_place()?; }
        }
        Ok(res)
    }
}
