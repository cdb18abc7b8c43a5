use crate::Res;
use ark_ff::Field;
use ark_relations::r1cs::{Namespace, SynthesisError};
use std::borrow::Borrow;
#[derive(Eq, PartialEq, Ord, PartialOrd, Debug, Copy, Clone)]
pub enum AllocationMode { Constant = 0, Input = 1, Witness = 2 }
impl AllocationMode { pub fn max(&self, o: Self) -> Self { std::cmp::max(*self, o) } }
pub trait AllocVar<V: ?Sized, F: Field>: Sized {
    fn new_variable<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Res<Self> { Self::new_variable(cs, || Ok(t), AllocationMode::Constant) }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Res<Self> { Self::new_variable(cs, f, AllocationMode::Input) }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Res<Self> { Self::new_variable(cs, f, AllocationMode::Witness) }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        f().and_then(|v| v.borrow().iter().map(|e| A::new_variable(cs.clone(), || Ok(e), mode)).collect())
    }
}
