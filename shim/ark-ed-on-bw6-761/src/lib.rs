//! Stand-in for `ark-ed-on-bw6-761` used only by the verification harness.
#![allow(long_running_const_eval)]
use ark_ec::{twisted_edwards_extended::{GroupAffine, GroupProjective}, ModelParameters, MontgomeryModelParameters, TEModelParameters};
use ark_ff::*;
pub use ark_bls12_377::{Fq, FqParameters};
declare_field_params!(FrParameters, FrFftParams, BigInteger384, 6, Fp384Parameters, "32333053251621136751331591711861691692049189094364332567435817881934511297123972799646723302813083835942624121493", 2);
pub type Fr = Fp384<FrParameters>;
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct EdwardsParameters;
pub type EdwardsAffine = GroupAffine<EdwardsParameters>;
pub type EdwardsProjective = GroupProjective<EdwardsParameters>;
impl ModelParameters for EdwardsParameters { type BaseField = Fq; type ScalarField = Fr; }
impl TEModelParameters for EdwardsParameters {
    const COEFF_A: Fq = Fq::ONE.const_neg();
    const COEFF_D: Fq = Fq::dec("79743");
    const COFACTOR: &'static [u64] = &[8];
    const COFACTOR_INV: Fr = Fr::dec("12124894969357926281749346891948134384518445910386624712788431705725441736421489799867521238554906438478484045560");
    const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
        Fq::dec("174701772324485506941690903512423551998294352968833659960042362742684869862495746426366187462669992073196420267127"),
        Fq::dec("208487200052258845495340374451540775445408439654930191324011635560142523886549663106522691296420655144190624954833"),
    );
    type MontgomeryModelParameters = EdwardsParameters;
    fn mul_by_a(e: &Fq) -> Fq { -*e }
}
impl MontgomeryModelParameters for EdwardsParameters {
    const COEFF_A: Fq = Fq::dec("90083623084271891037116870487743067984710080209539149685414147055329063590616489392386084989619674926965747987765");
    const COEFF_B: Fq = Fq::dec("168580802928697202973535863207150465551683432545375510854470115611391404757724333382582803149953685197474573470410");
    type TEModelParameters = EdwardsParameters;
}
#[cfg(feature = "r1cs")]
pub mod constraints {
    use super::*;
    use ark_r1cs_std::{fields::fp::FpVar, groups::curves::twisted_edwards::AffineVar};
    pub type FqVar = FpVar<Fq>;
    pub type EdwardsVar = AffineVar<EdwardsParameters, FqVar>;
}
