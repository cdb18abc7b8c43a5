use crate::fields::*;
use ark_ec::{bls12::{self, Bls12, Bls12Parameters, TwistType}, ModelParameters, SWModelParameters};
use ark_ff::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Parameters;
impl Bls12Parameters for Parameters {
    const X: &'static [u64] = &[0x8508c00000000001];
    const X_IS_NEGATIVE: bool = false;
    const TWIST_TYPE: TwistType = TwistType::D;
    type Fp = Fq;
    type Fp2Params = Fq2Parameters;
    type Fp6Params = Fq6Parameters;
    type Fp12Params = Fq12Parameters;
    type G1Parameters = g1::Parameters;
    type G2Parameters = g2::Parameters;
}
pub type Bls12_377 = Bls12<Parameters>;
pub type G1Affine = bls12::G1Affine<Parameters>;
pub type G1Projective = bls12::G1Projective<Parameters>;
pub type G2Affine = bls12::G2Affine<Parameters>;
pub type G2Projective = bls12::G2Projective<Parameters>;
pub type G1Prepared = bls12::G1Prepared<Parameters>;
pub type G2Prepared = bls12::G2Prepared<Parameters>;

pub mod g1 {
    use super::*;
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COEFF_A: Fq = Fq::ZERO;
        const COEFF_B: Fq = Fq::ONE;
        const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
        const COFACTOR_INV: Fr = Fr::dec("5285428838741532253824584287042945485047145357130994810877");
        const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
            Fq::dec("81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695"),
            Fq::dec("241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030"),
        );
        fn mul_by_a(_: &Fq) -> Fq { Fq::zero() }
    }
}
pub mod g2 {
    use super::*;
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq2; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COEFF_A: Fq2 = Fq2::new(Fq::ZERO, Fq::ZERO);
        const COEFF_B: Fq2 = Fq2::new(Fq::ZERO, Fq::dec("155198655607781456406391640216936120121836107652948796323930557600032281009004493664981332883744016074664192874906"));
        const COFACTOR: &'static [u64] = &[0x1, 0x452217cc90000000, 0xa0f3622fba094800, 0xd693e8c36676bd09, 0x8c505634fae2e189, 0xfbb36b00e1dcc40c, 0xddd88d99a6f6a829, 0x26ba558ae9562a];
        const COFACTOR_INV: Fr = Fr::dec("6764900296503390671038341982857278410319949526107311149686707033187604810669");
        const AFFINE_GENERATOR_COEFFS: (Fq2, Fq2) = (
            Fq2::new(
                Fq::dec("233578398248691099356572568220835526895379068987715365179118596935057653620464273615301663571204657964920925606294"),
                Fq::dec("140913150380207355837477652521042157274541796891053068589147167627541651775299824604154852141315666357241556069118"),
            ),
            Fq2::new(
                Fq::dec("63160294768292073209381361943935198908131692476676907196754037919244929611450776219210369229519898517858833747423"),
                Fq::dec("149157405641012693445398062341192467754805999074082136895788947234480009303640899064710353187729182149407503257491"),
            ),
        );
        fn mul_by_a(_: &Fq2) -> Fq2 { Fq2::zero() }
    }
}
