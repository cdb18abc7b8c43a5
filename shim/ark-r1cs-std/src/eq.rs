use crate::{bits::boolean::Boolean, Res, R1CSVar};
use ark_ff::Field;
pub trait EqGadget<F: Field> {
    fn is_eq(&self, other: &Self) -> Res<Boolean<F>>;
    fn is_neq(&self, other: &Self) -> Res<Boolean<F>> { Ok(self.is_eq(other)?.not()) }
    fn conditional_enforce_equal(&self, other: &Self, cond: &Boolean<F>) -> Res<()> { self.is_eq(other)?.conditional_enforce_equal(&Boolean::Constant(true), cond) }
    fn enforce_equal(&self, other: &Self) -> Res<()> { self.conditional_enforce_equal(other, &Boolean::Constant(true)) }
    fn conditional_enforce_not_equal(&self, other: &Self, cond: &Boolean<F>) -> Res<()> { self.is_neq(other)?.conditional_enforce_equal(&Boolean::Constant(true), cond) }
    fn enforce_not_equal(&self, other: &Self) -> Res<()> { self.conditional_enforce_not_equal(other, &Boolean::Constant(true)) }
}
impl<F: Field, T: EqGadget<F> + R1CSVar<F>> EqGadget<F> for [T] {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> {
        assert_eq!(self.len(), o.len());
        if self.is_empty() { return Ok(Boolean::Constant(true)); }
        let r = self.iter().zip(o).map(|(a, b)| a.is_eq(b)).collect::<Res<Vec<_>>>()?;
        Boolean::kary_and(&r)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> {
        assert_eq!(self.len(), o.len());
        for (a, b) in self.iter().zip(o) { a.conditional_enforce_equal(b, c)?; }
        Ok(())
    }
}
