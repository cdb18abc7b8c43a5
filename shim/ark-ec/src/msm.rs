use crate::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, FpParameters, PrimeField, Zero};
thread_local! { static SEEN: std::cell::RefCell<Option<Vec<Vec<Vec<u64>>>>> = std::cell::RefCell::new(None); }
/// monitor hook: records the scalars of every multi-scalar multiplication this thread performs in `f`
pub fn record_scalars<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<Vec<u64>>>) {
    SEEN.with(|s| *s.borrow_mut() = Some(vec![]));
    let r = f();
    (r, SEEN.with(|s| s.borrow_mut().take()).unwrap_or_default())
}
pub struct VariableBaseMSM;
impl VariableBaseMSM {
    /// like upstream: takes the shorter of the two lengths
    pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
        SEEN.with(|s| if let Some(v) = s.borrow_mut().as_mut() { v.push(scalars.iter().map(|x| x.as_ref().to_vec()).collect()) });
        let size = bases.len().min(scalars.len());
        let (bases, scalars) = (&bases[..size], &scalars[..size]);
        let c = if size < 32 { 3 } else { (ark_std::log2(size) as usize) * 69 / 100 + 2 };
        let num_bits = <G::ScalarField as PrimeField>::Params::MODULUS_BITS as usize;
        let mut acc = G::Projective::zero();
        let starts: Vec<usize> = (0..num_bits).step_by(c).collect();
        for &w in starts.iter().rev() {
            for _ in 0..c { acc.double_in_place(); }
            let mut buckets = vec![G::Projective::zero(); (1 << c) - 1];
            for (s, b) in scalars.iter().zip(bases) {
                let mut s = *s;
                s.divn(w as u32);
                let v = s.as_ref()[0] % (1 << c);
                if v != 0 { buckets[(v - 1) as usize].add_assign_mixed(b); }
            }
            let mut run = G::Projective::zero();
            let mut res = G::Projective::zero();
            for b in buckets.into_iter().rev() { run += &b; res += &run; }
            acc += &res;
        }
        acc
    }
}
pub struct FixedBaseMSM;
impl FixedBaseMSM {
    pub fn get_mul_window_size(n: usize) -> usize { if n < 32 { 3 } else { (ark_std::log2(n) as usize * 69 / 100 + 2).min(12) } }
    pub fn get_window_table<T: ProjectiveCurve>(scalar_size: usize, window: usize, g: T) -> Vec<Vec<T::Affine>> {
        let mut outer = g;
        (0..(scalar_size + window - 1) / window).map(|_| {
            let mut row = Vec::with_capacity(1 << window);
            let mut p = T::zero();
            for _ in 0..1usize << window { row.push(p); p += &outer; }
            for _ in 0..window { outer.double_in_place(); }
            T::batch_normalization_into_affine(&row)
        }).collect()
    }
    pub fn windowed_mul<T: ProjectiveCurve>(outerc: usize, window: usize, table: &[Vec<T::Affine>], scalar: &T::ScalarField) -> T {
        let mut s = scalar.into_repr();
        let mut r = T::zero();
        for row in table.iter().take(outerc) {
            r.add_assign_mixed(&row[s.as_ref()[0] as usize & ((1 << window) - 1)]);
            s.divn(window as u32);
        }
        r
    }
    pub fn multi_scalar_mul<T: ProjectiveCurve>(scalar_size: usize, window: usize, table: &[Vec<T::Affine>], v: &[T::ScalarField]) -> Vec<T> {
        v.iter().map(|e| Self::windowed_mul::<T>((scalar_size + window - 1) / window, window, table, e)).collect()
    }
}
