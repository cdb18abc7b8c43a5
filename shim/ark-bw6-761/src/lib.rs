//! Stand-in for `ark-bw6-761` used only by the verification harness.
#![allow(long_running_const_eval)]
use ark_ec::{bw6::{self, BW6, BW6Parameters}, ModelParameters, SWModelParameters};
use ark_ff::*;
use std::sync::OnceLock;
pub use ark_bls12_377::{Fq as Fr, FqParameters as FrParameters};
declare_field_params!(FqParameters, FqFftParams, BigInteger768, 12, Fp768Parameters, "6891450384315732539396789682275657542479668912536150109513790160209623422243491736087683183289411687640864567753786613451161759120554247759349511699125301598951605099378508850372543631423596795951899700429969112842764913119068299", 2);
pub type Fq = Fp768<FqParameters>;
const Q_MINUS_1_DIV_6: [u64; 12] = [0xd36f800000000017, 0x5118351168000015, 0xae577ec7d1d2c609, 0xc41ad92063bbf17e, 0x684f78a4bdfcaa87, 0xc116f6d22dd454ed, 0x2b4d1f2a8648b080, 0xe8149bb42640d184, 0x6315be52956bf50a, 0x74310411c04d8bc1, 0xcd96a18aab7f2a8a, 0x307c0629eb4d01];
fn coeffs() -> &'static [Fq; 6] {
    static C: OnceLock<[Fq; 6]> = OnceLock::new();
    C.get_or_init(|| {
        let c1 = Fq3Parameters::NONRESIDUE.pow(Q_MINUS_1_DIV_6);
        let mut r = [Fq::one(); 6];
        for i in 1..6 { r[i] = r[i - 1] * c1; }
        r
    })
}
pub struct Fq3Parameters;
impl Fp3Parameters for Fq3Parameters {
    type Fp = Fq;
    const NONRESIDUE: Fq = Fq::dec("4").const_neg();
    fn frobenius_coeff_c1(i: usize) -> Fq { coeffs()[i % 3].square() }
}
pub type Fq3 = Fp3<Fq3Parameters>;
pub struct Fq6Parameters;
impl Fp6_2over3Parameters for Fq6Parameters {
    type Fp3Params = Fq3Parameters;
    fn frobenius_coeff_c1(i: usize) -> Fq { coeffs()[i % 6] }
}
pub type Fq6 = Fp6_2over3<Fq6Parameters>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Parameters;
impl BW6Parameters for Parameters {
    type Fp = Fq;
    type Fp3Params = Fq3Parameters;
    type Fp6Params = Fq6Parameters;
    type G1Parameters = g1::Parameters;
    type G2Parameters = g2::Parameters;
    fn hard_exponent() -> Vec<u64> {
        vec![0xf335c00000004aef, 0xc14a69eb100066c1, 0x84d74e193dc6ff54, 0xb1ea2024801a659, 0x351f136eb9423dac, 0x75c1c8b32b6af1e2, 0x9660e55a2333ce25, 0xcbcdaa4d1bb2a327, 0xc3be81e9dcafdcc8, 0xe33fb491f2c5cc9, 0x77c4729e3955b7f0, 0xedeea0ca453b1ce2, 0x26b1eb1ee9c72b9, 0x3825a11a07c3de42, 0x9fac795e2fd52698, 0xb9bfdd86ce189a02, 0xd8c73eb8090bd134, 0xc4b3cb6f8d4fee]
    }
}
pub type BW6_761 = BW6<Parameters>;
pub type G1Affine = bw6::G1Affine<Parameters>;
pub type G1Projective = bw6::G1Projective<Parameters>;
pub type G2Affine = bw6::G2Affine<Parameters>;
pub type G2Projective = bw6::G2Projective<Parameters>;
pub mod g1 {
    use super::*;
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COEFF_A: Fq = Fq::ZERO;
        const COEFF_B: Fq = Fq::ONE.const_neg();
        const COFACTOR: &'static [u64] = &[0x3de580000000007c, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76];
        const COFACTOR_INV: Fr = Fr::dec("91141326767669940707819291241958318717982251277713150053234367522357946997763584490607453720072232540829942217804");
        const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
            Fq::dec("6238772257594679368032145693622812838779005809760824733138787810501188623461307351759238099287535516224314149266511977132140828635950940021790489507611754366317801811090811367945064510304504157188661901055903167026722666149426237"),
            Fq::dec("2101735126520897423911504562215834951148127555913367997162789335052900271653517958562461315794228241561913734371411178226936527683203879553093934185950470971848972085321797958124416462268292467002957525517188485984766314758624099"),
        );
        fn mul_by_a(_: &Fq) -> Fq { Fq::zero() }
    }
}
pub mod g2 {
    use super::*;
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COEFF_A: Fq = Fq::ZERO;
        const COEFF_B: Fq = Fq::dec("4");
        const COFACTOR: &'static [u64] = &[0x3de5800000000075, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76];
        const COFACTOR_INV: Fr = Fr::dec("214911522365886453591244899095480747723790054550866810551297776298664428889000553861210287833206024638187939842124");
        const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
            Fq::dec("6445332910596979336035888152774071626898886139774101364933948236926875073754470830732273879639675437155036544153105017729592600560631678554299562762294743927912429096636156401171909259073181112518725201388196280039960074422214428"),
            Fq::dec("562923658089539719386922163444547387757586534741080263946953401595155211934630598999300396317104182598044793758153214972605680357108252243146746187917218885078195819486220416605630144001533548163105316661692978285266378674355041"),
        );
        fn mul_by_a(_: &Fq) -> Fq { Fq::zero() }
    }
}
