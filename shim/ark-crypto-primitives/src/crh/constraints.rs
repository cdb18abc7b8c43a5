use super::FixedLengthCRH;
use ark_ff::Field;
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::SynthesisError;
use std::fmt::Debug;
pub trait FixedLengthCRHGadget<H: FixedLengthCRH, ConstraintF: Field>: Sized {
    type OutputVar: EqGadget<ConstraintF> + ToBytesGadget<ConstraintF> + CondSelectGadget<ConstraintF> + AllocVar<H::Output, ConstraintF> + R1CSVar<ConstraintF> + Debug + Clone + Sized;
    type ParametersVar: AllocVar<H::Parameters, ConstraintF> + Clone;
    fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<ConstraintF>]) -> Result<Self::OutputVar, SynthesisError>;
}
pub mod bowe_hopwood {
    use super::*;
    use crate::crh::{bowe_hopwood::{Parameters, CHUNK_SIZE, CRH}, pedersen::Window};
    use ark_ec::{ModelParameters, ProjectiveCurve, TEModelParameters};
    use ark_ff::PrimeField;
    use ark_r1cs_std::{alloc::AllocationMode, groups::curves::twisted_edwards::AffineVar};
    use ark_relations::r1cs::{Namespace, fault::trusted};
    use std::{borrow::Borrow, marker::PhantomData};
    type CF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
    pub struct ParametersVar<P: TEModelParameters, W: Window> { params: Parameters<P>, _w: PhantomData<W> }
    impl<P: TEModelParameters, W: Window> Clone for ParametersVar<P, W> { fn clone(&self) -> Self { ParametersVar { params: self.params.clone(), _w: PhantomData } } }
    impl<P: TEModelParameters, W: Window> AllocVar<Parameters<P>, CF<P>> for ParametersVar<P, W> {
        fn new_variable<T: Borrow<Parameters<P>>>(_cs: impl Into<Namespace<CF<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, _mode: AllocationMode) -> Result<Self, SynthesisError> {
            Ok(ParametersVar { params: f()?.borrow().clone(), _w: PhantomData })
        }
    }
    pub struct CRHGadget<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> { _p: PhantomData<fn() -> (P, F)> }
    impl<P, F, W> FixedLengthCRHGadget<CRH<P, W>, CF<P>> for CRHGadget<P, F>
    where P: TEModelParameters, P::BaseField: PrimeField, F: FieldVar<P::BaseField, CF<P>>, W: Window + 'static {
        type OutputVar = AffineVar<P, F>;
        type ParametersVar = ParametersVar<P, W>;
        fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<CF<P>>]) -> Result<Self::OutputVar, SynthesisError> {
            trusted(|| {
                let mut bits: Vec<Boolean<CF<P>>> = vec![];
                for b in input { bits.extend(b.to_bits_le()?); }
                while bits.len() % CHUNK_SIZE != 0 { bits.push(Boolean::constant(false)); }
                assert!(bits.len() <= W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE, "input too long for the window parameters");
                assert_eq!(parameters.params.generators.len(), W::NUM_WINDOWS);
                let mut acc: AffineVar<P, F> = CurveVar::zero();
                for (seg, gens) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).zip(&parameters.params.generators) {
                    for (c, g) in seg.chunks(CHUNK_SIZE).zip(gens) {
                        let g2 = ProjectiveCurve::double(g);
                        let t: Vec<_> = P_batch(&[*g, g2, g2 + g, ProjectiveCurve::double(&g2)]);
                        let b01 = c[0].and(&c[1])?;
                        let (f0, f1, f01, f2) = (F::from(c[0].clone()), F::from(c[1].clone()), F::from(b01), F::from(c[2].clone()));
                        // v1 + b0 (v2 - v1) + b1 (v3 - v1) + b0 b1 (v4 - v3 - v2 + v1)
                        let lk = |v: [P::BaseField; 4]| -> F {
                            F::constant(v[0]) + f0.clone() * (v[1] - v[0]) + f1.clone() * (v[2] - v[0]) + f01.clone() * (v[3] - v[2] - v[1] + v[0])
                        };
                        let x = lk([t[0].x, t[1].x, t[2].x, t[3].x]);
                        let y = lk([t[0].y, t[1].y, t[2].y, t[3].y]);
                        let x = x.clone() - f2.double()? * &x;
                        acc += AffineVar::new(x, y);
                    }
                }
                Ok(acc)
            })
        }
    }
    #[allow(non_snake_case)]
    fn P_batch<G: ProjectiveCurve>(v: &[G]) -> Vec<G::Affine> { G::batch_normalization_into_affine(v) }
}
