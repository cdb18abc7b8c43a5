use super::{pedersen::{bytes_to_bits, Window}, FixedLengthCRH};
use crate::Error;
use ark_ec::{twisted_edwards_extended::{GroupAffine as TEAffine, GroupProjective as TEProjective}, ProjectiveCurve, TEModelParameters, ModelParameters};
use ark_ff::{UniformRand, Zero};
use rand::Rng;
use std::marker::PhantomData;
pub const CHUNK_SIZE: usize = 3;
#[cfg(feature = "r1cs")]
pub use super::constraints::bowe_hopwood as constraints;
pub struct Parameters<P: TEModelParameters> { pub generators: Vec<Vec<TEProjective<P>>> }
impl<P: TEModelParameters> Clone for Parameters<P> { fn clone(&self) -> Self { Parameters { generators: self.generators.clone() } } }
impl<P: TEModelParameters> Default for Parameters<P> { fn default() -> Self { Parameters { generators: vec![] } } }
impl<P: TEModelParameters> std::fmt::Debug for Parameters<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Bowe-Hopwood-Pedersen Parameters({} segments)", self.generators.len()) }
}
pub struct CRH<P: TEModelParameters, W: Window> { group: PhantomData<P>, window: PhantomData<W> }
impl<P: TEModelParameters, W: Window> CRH<P, W> {
    pub fn create_generators<R: Rng>(rng: &mut R) -> Vec<Vec<TEProjective<P>>> {
        let mut generators = Vec::new();
        for _ in 0..W::NUM_WINDOWS {
            // as the curve samples a random element; what follows from the draw is remembered
            generators.push(loop {
                let x = P::BaseField::rand(rng);
                let greatest: bool = rng.gen();
                if let Some(seg) = segment::<P>(x, greatest, W::WINDOW_SIZE) { break (*seg).clone(); }
            });
        }
        generators
    }
}
type Memo = std::collections::HashMap<(std::any::TypeId, Vec<u8>, bool, usize), Option<Box<dyn std::any::Any + Send + Sync>>>;
/// the multiples of one base, a function of the draw; a bounded number of them is remembered
fn segment<P: TEModelParameters>(x: P::BaseField, greatest: bool, size: usize) -> Option<std::sync::Arc<Vec<TEProjective<P>>>> {
    static MEMO: std::sync::RwLock<Option<Memo>> = std::sync::RwLock::new(None);
    let key = (std::any::TypeId::of::<P>(), ark_ff::to_bytes![x].unwrap(), greatest, size);
    if let Some(m) = MEMO.read().unwrap_or_else(|e| e.into_inner()).as_ref().and_then(|m| m.get(&key)) { return m.as_ref().map(|a| a.downcast_ref::<std::sync::Arc<Vec<TEProjective<P>>>>().unwrap().clone()); }
    let seg = TEAffine::<P>::get_point_from_x(x, greatest).map(|p| {
        let mut base = p.scale_by_cofactor();
        let mut seg = Vec::new();
        for _ in 0..size {
            seg.push(base);
            for _ in 0..4 { ProjectiveCurve::double_in_place(&mut base); }
        }
        std::sync::Arc::new(seg)
    });
    let mut m = MEMO.write().unwrap_or_else(|e| e.into_inner());
    let m = m.get_or_insert_with(Default::default);
    if m.len() < 4000 { m.insert(key, seg.clone().map(|s| Box::new(s) as Box<dyn std::any::Any + Send + Sync>)); }
    seg
}
impl<P: TEModelParameters, W: Window> FixedLengthCRH for CRH<P, W> where <P as ModelParameters>::BaseField: ark_ff::PrimeField {
    const INPUT_SIZE_BITS: usize = CHUNK_SIZE * W::WINDOW_SIZE * W::NUM_WINDOWS;
    type Output = TEProjective<P>;
    type Parameters = Parameters<P>;
    fn setup<R: Rng>(rng: &mut R) -> Result<Self::Parameters, Error> { Ok(Parameters { generators: Self::create_generators(rng) }) }
    fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error> {
        if input.len() * 8 > W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE {
            panic!("incorrect input bitlength {:?} for window params {:?}x{:?}x{}", input.len() * 8, W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE);
        }
        let mut bits = bytes_to_bits(input);
        while bits.len() % CHUNK_SIZE != 0 { bits.push(false); }
        assert_eq!(parameters.generators.len(), W::NUM_WINDOWS, "Incorrect pp of size {:?} for window params", parameters.generators.len());
        let mut acc = TEProjective::zero();
        for (seg, gens) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).zip(&parameters.generators) {
            for (c, g) in seg.chunks(CHUNK_SIZE).zip(gens) {
                let mut e = *g;
                if c[0] { e += g; }
                if c[1] { e += &ProjectiveCurve::double(g); }
                if c[2] { e = -e; }
                acc += &e;
            }
        }
        Ok(acc)
    }
}
