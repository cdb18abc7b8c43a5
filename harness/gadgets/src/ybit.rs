//! C02: sign bits of points in the circuit.
use ark_bls12_377::{constraints::{G1Var, G2Var}, Fq, Fq2, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve, SWModelParameters};
use ark_ff::{Field, One, PrimeField, SquareRootField, UniformRand, Zero};
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode}, fields::fp::FpVar, groups::CurveVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::{FpUtils, YToBitGadget};
use circ::points::*;
use circ::{given, honest, setup_shape, Attack, Budget};
use mon::{rand::Rng, Rng8, Run};
use std::sync::Mutex;
use std::collections::HashMap;
type CS = ConstraintSystemRef<Fq>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Case { Fp(Fq), Zero(Fq), P1(G1Affine), P2(G2Affine) }
/// how the point or element is given: witness, input or constant
fn circuit(c: &Case, mode: AllocationMode, cs: CS) -> Result<bool, SynthesisError> {
    match c {
        Case::Fp(v) => given(|| FpVar::new_variable(cs, || Ok(*v), mode))?.normalize()?.value(),
        Case::Zero(v) => given(|| FpVar::new_variable(cs, || Ok(*v), mode))?.is_eq_zero()?.value(),
        Case::P1(p) => given(|| G1Var::new_variable_omit_prime_order_check(cs, || Ok(p.into_projective()), mode))?.y_to_bit()?.value(),
        Case::P2(p) => given(|| G2Var::new_variable_omit_prime_order_check(cs, || Ok(p.into_projective()), mode))?.y_to_bit()?.value(),
    }
}
fn setup(c: &Case, cs: CS) -> Result<(), SynthesisError> {
    let w = AllocationMode::Witness;
    let no = || SynthesisError::AssignmentMissing;
    match c {
        Case::Fp(_) => { let _ = given(|| FpVar::new_variable(cs, || Err::<Fq, _>(no()), w))?.normalize()?; }
        Case::Zero(_) => { let _ = given(|| FpVar::new_variable(cs, || Err::<Fq, _>(no()), w))?.is_eq_zero()?; }
        Case::P1(_) => { let _ = given(|| G1Var::new_variable_omit_prime_order_check(cs, || Err::<G1Projective, _>(no()), w))?.y_to_bit()?; }
        Case::P2(_) => { let _ = given(|| G2Var::new_variable_omit_prime_order_check(cs, || Err::<G2Projective, _>(no()), w))?.y_to_bit()?; }
    }
    Ok(())
}
fn expected(c: &Case) -> bool { match c { Case::Fp(v) => larger(v), Case::Zero(v) => v.is_zero(), Case::P1(p) => larger(&p.y), Case::P2(p) => larger2(&p.y) } }
fn kind(c: &Case) -> &'static str { match c { Case::Fp(_) => "field element", Case::Zero(_) => "zero test", Case::P1(_) => "G1 point", Case::P2(_) => "G2 point" } }
/// the one value for which the comparison is known to be satisfiable both ways (see DESIGN.md)
fn at_half(c: &Case) -> bool { let h = half(); match c { Case::Fp(v) => *v == h, Case::Zero(_) => false, Case::P1(p) => p.y == h, Case::P2(p) => p.y.c1 == h || (p.y.c1.is_zero() && p.y.c0 == h) } }
fn one(run: &Run, c: &Case, r: &mut Rng8, attack: usize, shapes: &Mutex<HashMap<&'static str, u64>>) {
    let want = expected(c);
    let mode = match r.gen_range(0, 8) { 0 => AllocationMode::Input, 1 if matches!(c, Case::Fp(_) | Case::Zero(_)) => AllocationMode::Constant, _ => AllocationMode::Witness };
    let h = honest(|cs| circuit(c, mode, cs));
    if h.public() > 0 { run.violation("public-input", format!("the constraints add {} public inputs of their own, which no verifier knows of", h.public())); }
    run.eval(format!("{:?}", c), true);
    run.count(kind(c), 1);
    run.state("kind_bit", (kind(c), want));
    // constants need no constraints
    let got = match (&h.out, mode) { (Ok(Ok(b)), AllocationMode::Constant) => Some(*b), _ => h.ok().copied() };
    match got {
        Some(b) => { run.check(b == want, "bit", || format!("{} {:?}: bit {} where {} is right", kind(c), c, b, want)); }
        None => { run.violation("refused", format!("{} {:?} ({:?}): {}", kind(c), c, mode, h.describe())); }
    }
    run.sample(|| format!("{} {:?} -> {:?}, {}", kind(c), c, got, h.describe()));
    if mode == AllocationMode::Witness {
        let s = h.shape();
        let mut m = shapes.lock().unwrap();
        let fresh = !m.contains_key(kind(c));
        let old = *m.entry(kind(c)).or_insert(s);
        drop(m);
        run.check(old == s, "shape", || format!("the constraints depend on the value: {} {:?}", kind(c), c));
        if fresh {
            match setup_shape(|cs| setup(c, cs)) { Ok(t) => { run.check(t == s, "shape-setup", || format!("{}: the constraints at set-up differ from those at proving", kind(c))); } Err(e) => run.violation("setup", format!("set-up fails for a {}: {}", kind(c), e)) }
        }
    }
    if attack > 0 && mode != AllocationMode::Constant {
        let body = |cs: CS| circuit(c, mode, cs);
        let key = match (at_half(c), c) { (true, Case::P2(_)) => "half-g2", (true, Case::P1(_)) => "half-g1", (true, _) => "half-element", _ => "tampered" };
        run.state("sites", (kind(c), h.sites.len()));
        Attack { run, key, body: &body, budget: Budget { sites: 20, per_site: 9, pairs: attack, repair: 4, runs: attack * 4 }, pool1: &[], pool2: &[],
            wrong: &|b: &bool| (*b != want).then(|| format!("{} {:?}: the bit {} (wrong) satisfies the constraints", kind(c), c, b)) }.go(&h, r);
    }
}
fn gen_case(run: &Run, r: &mut Rng8) -> Case {
    loop {
        let c = match r.gen_range(0, 12) {
            0 | 1 => Case::Fp(special(r)),
            2 => Case::Zero(special(r)),
            3 => Case::P1(G1Projective::rand(r).into_affine()),
            4 | 5 => match on1(special(r)) { Some(p) => { run.count("boundary_points", 1); Case::P1(p) } None => continue },
            6 => Case::P2(G2Projective::rand(r).into_affine()),
            7 | 8 | 9 => {
                let (a, b) = (special(r), special(r));
                let y = match r.gen_range(0, 4) { 0 => Fq2::new(a, Fq::zero()), 1 => Fq2::new(Fq::zero(), b), _ => Fq2::new(a, b) };
                match on2(y) { Some(p) => { run.count("boundary_points", 1); run.state("second_component_zero", p.y.c1.is_zero()); Case::P2(p) } None => continue }
            }
            10 => { let x = Fq::rand(r); match (x.square() * x + <ark_bls12_377::g1::Parameters as SWModelParameters>::COEFF_B).sqrt() { Some(y) => Case::P1(G1Affine::new(x, y, false)), None => continue } }
            _ => { let x = Fq2::rand(r); match (x.square() * x + <ark_bls12_377::g2::Parameters as SWModelParameters>::COEFF_B).sqrt() { Some(y) => Case::P2(G2Affine::new(x, y, false)), None => continue } }
        };
        return c;
    }
}
pub fn c02() {
    let run = Run::start("C02", "points of both curves with y at and around zero, half the modulus, the modulus and powers of two (found by cube roots), second components zero, random points, and their negations; the underlying comparison and zero test on field elements; each also attacked by a dishonest prover who replaces up to three helper variables and solves for others. Oracle: comparison of y with -y as integers. Non-trivial: every case");
    let shapes = Mutex::new(HashMap::new());
    run.par(8, |t, r| {
        if t < 4 {
            // every value near the boundaries
            let h = half();
            for k in 0..12u64 { for v in [Fq::from(k), -Fq::from(k), h + Fq::from(k), h - Fq::from(k)] { if k as usize % 4 == t { one(&run, &Case::Fp(v), r, 30, &shapes); one(&run, &Case::Zero(v), r, 20, &shapes); } } }
        }
        if t == 4 {
            // known weak spot first: y = (q-1)/2
            one(&run, &Case::Fp(half()), r, 60, &shapes);
            let mut k = 0u64;
            loop { k += 1; if let Some(p) = on2(Fq2::new(Fq::from(k), half())) { one(&run, &Case::P2(p), r, 60, &shapes); break; } }
            if let Some(p) = on1(half()) { run.count("g1_points_with_y_at_half", 1); one(&run, &Case::P1(p), r, 60, &shapes); }
        }
        let mut i = 0u64;
        while run.within(run.pick(25.0, 1500.0)) {
            let c = gen_case(&run, r);
            let n = match c { Case::P1(p) => Some(Case::P1(-p)), Case::P2(p) => Some(Case::P2(-p)), _ => None };
            i += 1;
            one(&run, &c, r, if i % 3 == 0 { 40 } else { 0 }, &shapes);
            if let Some(n) = n { one(&run, &n, r, if i % 3 == 1 { 40 } else { 0 }, &shapes); }
        }
    });
    run.require("G1 point", 100);
    run.require("G2 point", 100);
    run.require("boundary_points", 50);
    run.require("second_component_zero", 2);
    run.require("tampered_executions", 500);
    run.require("solved_for_a_site", 50);
    run.assume("the constraint system, boolean and field gadgets are the stand-ins of /verif/shim; a dishonest prover is modelled as replacing the witness values the code under test allocates (the library's own gadgets are taken to be sound)");
    run.finish()
}
