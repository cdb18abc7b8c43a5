use ark_ff::*;
use std::sync::OnceLock;
pub mod fr { pub use super::{Fr, FrParameters}; }
pub mod fq { pub use super::{Fq, FqParameters}; }
pub mod fq2 { pub use super::{Fq2, Fq2Parameters}; }
pub mod fq6 { pub use super::{Fq6, Fq6Parameters}; }
pub mod fq12 { pub use super::{Fq12, Fq12Parameters}; }

declare_field_params!(FrParameters, FrFftParams, BigInteger256, 4, Fp256Parameters, "8444461749428370424248824938781546531375899335154063827935233455917409239041", 22);
pub type Fr = Fp256<FrParameters>;
declare_field_params!(FqParameters, FqFftParams, BigInteger384, 6, Fp384Parameters, "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177", 15);
pub type Fq = Fp384<FqParameters>;

pub struct Fq2Parameters;
impl Fp2Parameters for Fq2Parameters {
    type Fp = Fq;
    const NONRESIDUE: Fq = Fq::dec("5").const_neg();
    fn mul_fp_by_nonresidue(fe: &Fq) -> Fq { -(fe.double().double() + fe) }
}
pub type Fq2 = Fp2<Fq2Parameters>;

const Q_MINUS_1_DIV_6: [u64; 6] = [0x162c200000000000, 0x3d73a3608000000, 0xda7de5b29f018c00, 0xd9b079a88028d897, 0x765f2ba0121ae189, 0x47b46103f62d7c];
/// u^((q^i - 1)/6)
fn coeffs() -> &'static [Fq2; 12] {
    static C: OnceLock<[Fq2; 12]> = OnceLock::new();
    C.get_or_init(|| {
        let u = Fq2::new(Fq::zero(), Fq::one());
        let c1 = u.pow(Q_MINUS_1_DIV_6);
        let mut r = [Fq2::one(); 12];
        for i in 1..12 {
            let mut t = r[i - 1];
            t.frobenius_map(1);
            r[i] = c1 * t;
        }
        r
    })
}
#[derive(Clone, Copy)]
pub struct Fq6Parameters;
impl Fp6Parameters for Fq6Parameters {
    type Fp2Params = Fq2Parameters;
    fn nonresidue() -> Fq2 { Fq2::new(Fq::zero(), Fq::one()) }
    fn mul_fp2_by_nonresidue(fe: &Fq2) -> Fq2 { Fq2::new(Fq2Parameters::mul_fp_by_nonresidue(&fe.c1), fe.c0) }
    fn frobenius_coeff_fp6_c1(i: usize) -> Fq2 { coeffs()[i % 12].square() }
}
pub type Fq6 = Fp6<Fq6Parameters>;
#[derive(Clone, Copy)]
pub struct Fq12Parameters;
impl Fp12Parameters for Fq12Parameters {
    type Fp6Params = Fq6Parameters;
    fn frobenius_coeff_fp12_c1(i: usize) -> Fq2 { coeffs()[i % 12] }
}
pub type Fq12 = Fp12<Fq12Parameters>;
