"""Text shared by seeds_bls.py and seeds_more.py."""
HEAD = """
#![allow(unused_imports)]
use ark_bls12_377::{Bls12_377, Fq, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{bls::Batch, hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve}, hashers::{composite::COMPOSITE_HASHER, DirectHasher, Hasher}, BLSError, PrivateKey, PublicKey, PublicKeyCache, Signature};
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
fn sk(n: u64) -> PrivateKey { PrivateKey::from(Fr::from(n)) }
fn g1(n: u64) -> G1Projective { G1Projective::prime_subgroup_generator().mul(Fr::from(n).into_repr()) }
"""
