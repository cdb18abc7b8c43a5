"""Text shared by seeds_circ.py and seeds_more.py."""
HEAD = """
#![allow(unused_imports, dead_code)]
use ark_bls12_377::{constraints::{G1Var, G2Var, PairingVar}, Bls12_377, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger, Field, FpParameters, One, PrimeField, Zero};
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode}, boolean::Boolean, eq::EqGadget, fields::fp::FpVar, groups::CurveVar, uint8::UInt8, R1CSVar, ToBitsGadget};
use ark_relations::r1cs::{fault, ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, SynthesisError};
use std::{cell::Cell, rc::Rc};
type CS = ConstraintSystemRef<Fq>;
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
fn g1(n: u64) -> G1Projective { G1Projective::prime_subgroup_generator().mul(Fr::from(n).into_repr()) }
fn g2(n: u64) -> G2Projective { G2Projective::prime_subgroup_generator().mul(Fr::from(n).into_repr()) }
fn fv(cs: &CS, n: u64) -> FpVar<Fq> { FpVar::new_witness(cs.clone(), || Ok(Fq::from(n))).unwrap() }
fn bits(cs: &CS, b: &[bool]) -> Vec<Boolean<Fq>> { b.iter().map(|b| Boolean::new_witness(cs.clone(), || Ok(*b)).unwrap()).collect() }
fn v1(cs: &CS, p: G1Projective) -> G1Var { G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness).unwrap() }
fn v2(cs: &CS, p: G2Projective) -> G2Var { G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness).unwrap() }
fn num(b: &[Boolean<Fq>]) -> u64 { b.iter().enumerate().map(|(i, b)| (b.value().unwrap() as u64) << i).sum() }
/// runs the code with its allocation number `at` given another value; what it returned if every constraint holds
fn run<T>(at: usize, field: Option<Fq>, point: Option<fn(G1Affine) -> G1Affine>, body: impl FnOnce(CS) -> Result<T, SynthesisError>) -> (Option<T>, usize) {
    let cs = ConstraintSystem::<Fq>::new_ref();
    let (n, c2) = (Rc::new(Cell::new(0)), cs.clone());
    let m = n.clone();
    let out = fault::with_plan(move |s| {
        let i = m.get();
        m.set(i + 1);
        match s {
            fault::Site::Field(_, v) => if let (true, Some(f), Some(v)) = (i == at, field, v.downcast_mut::<Fq>()) { *v = f },
            fault::Site::Point(v) => if let (true, Some(f), Some(v)) = (i == at, point, v.downcast_mut::<G1Affine>()) { *v = f(*v) },
            _ => {}
        }
    }, || body(c2));
    (out.ok().filter(|_| cs.is_satisfied().unwrap()), n.get())
}
const NONE: usize = usize::MAX;
"""
EP = '''
use bls_crypto::{PublicKey, Signature};
use epoch_snark::{verif_hooks::*, EpochBlock, ValidatorSetUpdate};
type Data = EpochData<Bls12_377>;
fn data(index: u16, round: u8, e: u8, p: u8, max: u32, keys: &[u64]) -> Data { Data { index: Some(index), round: Some(round), epoch_entropy: Some(vec![e; 16]), parent_entropy: Some(vec![p; 16]), maximum_non_signers: max, public_keys: keys.iter().map(|k| Some(g2(*k))).collect() } }
fn block(d: &Data) -> EpochBlock { EpochBlock::new(d.index.unwrap(), d.round.unwrap(), d.epoch_entropy.clone(), d.parent_entropy.clone(), d.maximum_non_signers, d.public_keys.len(), d.public_keys.iter().map(|k| PublicKey::from(k.unwrap())).collect()) }
fn num16(b: u8) -> Fq { (0..16).fold(Fq::zero(), |a, _| a * Fq::from(256u64) + Fq::from(b as u64)) }
'''
COUNT = '''
use bls_gadgets::verif_hooks::Bitmap;
fn limit(b: &[Option<bool>], fixed: bool, max: u64, value: bool, at: usize, lie: u64) -> (bool, usize) {
    let r = run(at, Some(Fq::from(lie)), None, |cs| {
        let (m, v) = fault::trusted(|| (fv(&cs, max), b.iter().map(|b| match b { Some(b) => Boolean::new_witness(cs.clone(), || Ok(*b)).unwrap(), None => Boolean::constant(fixed) }).collect::<Vec<_>>()));
        v.enforce_maximum_occurrences_in_bitmap(&m, value)
    });
    (r.0.is_some(), r.1)
}
'''
SYS = """
#![allow(unused_imports, dead_code)]
use ark_bls12_377::{Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{hash_to_curve::{try_and_increment::{COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1}, try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PrivateKey, PublicKey, Signature};
use bls_snark_sys::{serialization::*, signatures::*, snark::epoch_block::*, utils::*};
use epoch_snark::EpochBlock;
use std::{convert::TryFrom, os::raw::c_int, ptr};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
fn key(n: u64) -> PrivateKey { Fr::from(n).into() }
fn enc<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
"""
