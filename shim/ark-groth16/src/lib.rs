//! Stand-in for `ark-groth16` (early 2021) used only by the verification harness. Verification is the real
//! pairing equation over the real verification key and proof; the prover keeps the setup's secrets in the proving
//! key and computes the three proof elements from them, so that proving costs three group multiplications. It
//! yields a proof that does not verify when the circuit is unsatisfied or is not the circuit of the setup.
use ark_ec::{PairingEngine, ProjectiveCurve, AffineCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_relations::r1cs::{ConstraintMatrices, ConstraintSynthesizer, ConstraintSystem, SynthesisError, SynthesisMode};
use ark_serialize::*;
use rand::Rng;
use std::hash::{Hash, Hasher};
#[cfg(feature = "r1cs")]
pub mod constraints;

#[derive(Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Proof<E: PairingEngine> {
    pub a: E::G1Affine,
    pub b: E::G2Affine,
    pub c: E::G1Affine,
}
impl<E: PairingEngine> Default for Proof<E> { fn default() -> Self { Proof { a: E::G1Affine::default(), b: E::G2Affine::default(), c: E::G1Affine::default() } } }
#[derive(Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize)]
pub struct VerifyingKey<E: PairingEngine> {
    pub alpha_g1: E::G1Affine,
    pub beta_g2: E::G2Affine,
    pub gamma_g2: E::G2Affine,
    pub delta_g2: E::G2Affine,
    pub gamma_abc_g1: Vec<E::G1Affine>,
}
impl<E: PairingEngine> Default for VerifyingKey<E> {
    fn default() -> Self { VerifyingKey { alpha_g1: E::G1Affine::default(), beta_g2: E::G2Affine::default(), gamma_g2: E::G2Affine::default(), delta_g2: E::G2Affine::default(), gamma_abc_g1: vec![] } }
}
#[derive(Clone, Debug, PartialEq)]
pub struct PreparedVerifyingKey<E: PairingEngine> { pub vk: VerifyingKey<E>, pub alpha_g1_beta_g2: E::Fqk }
#[derive(Clone, Debug, PartialEq)]
pub struct ProvingKey<E: PairingEngine> { pub vk: VerifyingKey<E>, secret: Secret<E::Fr> }
#[derive(Clone, Debug, PartialEq)]
struct Secret<F> { alpha: F, beta: F, gamma: F, delta: F, tau: F, digest: u64, shape: (usize, usize, usize) }
/// for monitors: what `create_proof` was given on this thread, in order
#[derive(Clone, Debug, PartialEq)]
pub struct Event { pub same: bool, pub satisfied: bool, pub inputs: usize, pub set_up: (usize, usize, usize), pub proved: (usize, usize, usize) }
thread_local!(static EVENTS: std::cell::RefCell<Vec<Event>> = std::cell::RefCell::new(vec![]));
pub fn take_events() -> Vec<Event> { EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut())) }
pub struct Groth16<E: PairingEngine> { _p: std::marker::PhantomData<E> }

fn digest<F: Field>(m: &ConstraintMatrices<F>) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for mat in [&m.a, &m.b, &m.c].iter() { for row in mat.iter() { row.len().hash(&mut h); for (c, i) in row { c.hash(&mut h); i.hash(&mut h); } } }
    h.finish()
}
/// per instance variable: the three polynomials at the secret point (weights of constraint j: tau^(j+1))
fn at_tau<F: PrimeField>(m: &ConstraintMatrices<F>, tau: F) -> Vec<(F, F, F)> {
    let n = m.num_instance_variables;
    let mut r = vec![(F::zero(), F::zero(), F::zero()); n];
    let mut w = tau;
    for j in 0..m.num_constraints {
        for (c, i) in &m.a[j] { if *i < n { r[*i].0 += *c * w; } }
        for (c, i) in &m.b[j] { if *i < n { r[*i].1 += *c * w; } }
        for (c, i) in &m.c[j] { if *i < n { r[*i].2 += *c * w; } }
        w *= tau;
    }
    // the constraints `x_i * 0 = 0` every setup adds for the instance variables
    for x in r.iter_mut() { x.0 += w; w *= tau; }
    r
}
fn gens<E: PairingEngine>() -> (E::G1Projective, E::G2Projective) { (E::G1Projective::prime_subgroup_generator(), E::G2Projective::prime_subgroup_generator()) }
fn mul<G: ProjectiveCurve>(mut g: G, s: G::ScalarField) -> G::Affine { g *= s; g.into_affine() }

pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, rng: &mut R) -> Result<ProvingKey<E>, SynthesisError> {
    let cs = ConstraintSystem::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    circuit.generate_constraints(cs.clone())?;
    let m = cs.to_matrices().unwrap();
    let mut nz = || loop { let x = E::Fr::rand(rng); if !x.is_zero() { return x } };
    let s = Secret { alpha: nz(), beta: nz(), gamma: nz(), delta: nz(), tau: nz(), digest: digest(&m), shape: (m.num_instance_variables, m.num_witness_variables, m.num_constraints) };
    let (g1, g2) = gens::<E>();
    let gi = s.gamma.inverse().unwrap();
    let gamma_abc_g1 = at_tau(&m, s.tau).into_iter().map(|(a, b, c)| mul(g1, (s.beta * a + s.alpha * b + c) * gi)).collect();
    let vk = VerifyingKey { alpha_g1: mul(g1, s.alpha), beta_g2: mul(g2, s.beta), gamma_g2: mul(g2, s.gamma), delta_g2: mul(g2, s.delta), gamma_abc_g1 };
    Ok(ProvingKey { vk, secret: s })
}
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, pk: &ProvingKey<E>, rng: &mut R) -> Result<Proof<E>, SynthesisError> {
    let (r, s) = (E::Fr::rand(rng), E::Fr::rand(rng));
    create_proof(circuit, pk, r, s)
}
pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> Result<Proof<E>, SynthesisError> {
    create_proof(circuit, pk, E::Fr::zero(), E::Fr::zero())
}
pub fn create_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>, r: E::Fr, s: E::Fr) -> Result<Proof<E>, SynthesisError> {
    let cs = ConstraintSystem::new_ref();
    cs.set_mode(SynthesisMode::Prove { construct_matrices: true });
    circuit.generate_constraints(cs.clone())?;
    let m = cs.to_matrices().unwrap();
    let k = &pk.secret;
    let same = (m.num_instance_variables, m.num_witness_variables, m.num_constraints) == k.shape && digest(&m) == k.digest;
    let satisfied = cs.is_satisfied()?;
    let good = same && satisfied;
    EVENTS.with(|e| { let mut e = e.borrow_mut(); if e.len() < 64 { e.push(Event { same, satisfied, inputs: m.num_instance_variables, set_up: k.shape, proved: (m.num_instance_variables, m.num_witness_variables, m.num_constraints) }) } });
    let (x, wit) = { let c = cs.borrow().unwrap(); (c.instance_assignment.clone(), c.witness_assignment.clone()) };
    let n = x.len();
    let val = |i: usize| if i < n { x[i] } else { wit[i - n] };
    let (mut a, mut b) = (k.alpha + r * k.delta, k.beta + s * k.delta);
    let mut w = k.tau;
    for j in 0..m.num_constraints {
        for (c, i) in &m.a[j] { a += *c * w * val(*i); }
        for (c, i) in &m.b[j] { b += *c * w * val(*i); }
        w *= k.tau;
    }
    for v in &x { a += *v * w; w *= k.tau; }
    let public = at_tau(&m, k.tau).into_iter().zip(&x).fold(E::Fr::zero(), |acc, ((a, b, c), x)| acc + (k.beta * a + k.alpha * b + c) * x);
    let mut c = (a * b - k.alpha * k.beta - public) * k.delta.inverse().unwrap();
    if !good { c += E::Fr::one(); }
    let (g1, g2) = gens::<E>();
    Ok(Proof { a: mul(g1, a), b: mul(g2, b), c: mul(g1, c) })
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: vk.clone(), alpha_g1_beta_g2: E::pairing(vk.alpha_g1, vk.beta_g2) }
}
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, public_inputs: &[E::Fr]) -> Result<bool, SynthesisError> {
    if public_inputs.len() + 1 != pvk.vk.gamma_abc_g1.len() { return Err(SynthesisError::MalformedVerifyingKey); }
    let mut g_ic = pvk.vk.gamma_abc_g1[0].into_projective();
    for (i, b) in public_inputs.iter().zip(&pvk.vk.gamma_abc_g1[1..]) { g_ic += &b.mul(i.into_repr()); }
    let f = E::product_of_pairings(&[
        (proof.a.into(), proof.b.into()),
        (g_ic.into_affine().into(), (-pvk.vk.gamma_g2).into()),
        (proof.c.into(), (-pvk.vk.delta_g2).into()),
    ] as &[(E::G1Prepared, E::G2Prepared)]);
    Ok(f == pvk.alpha_g1_beta_g2)
}
