#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
import seeds_circ_text as T
E = "crates/epoch-snark/src/"
G = "crates/bls-gadgets/src/"
HELP = T.EP + '''
use ark_groth16::{constraints::take_verifications, generate_random_parameters, Proof};
use bls_crypto::{hashers::{DirectHasher, composite::COMPOSITE_HASHER, Hasher}, SIG_DOMAIN, hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22};
fn le(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
fn packed(b: &[bool]) -> Vec<Vec<bool>> { b.chunks(252).map(|c| { let mut v = c.to_vec(); v.reverse(); v }).collect() }
/// the statement the circuit holds the helper proof of a chain against, and the one it should
fn statement(init: &Data, ups: &[Data]) -> (Vec<Vec<bool>>, Vec<Vec<bool>>) {
    let vk = generate_random_parameters::<Bls12_377, _, _>(HashToBits::empty::<ark_bw6_761::FrParameters>(ups.len()), &mut rand::thread_rng()).unwrap().vk;
    let proof = Proof { a: g1(3).into_affine(), b: g2(4).into_affine(), c: g1(5).into_affine() };
    let (mut crh, mut xof) = (vec![], vec![]);
    for u in ups {
        let (inner, extra) = block(u).encode_inner_to_bytes_cip22().unwrap();
        let d = COMPOSITE_HASHER.crh(&[], &inner, 0).unwrap();
        let (_, counter) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, &inner, &extra).unwrap();
        xof.extend(le(&DirectHasher.xof(SIG_DOMAIN, &[&[counter as u8][..], &extra, &d].concat(), 64).unwrap()));
        crh.extend(le(&d));
    }
    let c = ValidatorSetUpdate::<Bls12_377> { initial_epoch: init.clone(), num_validators: init.public_keys.len() as u32, epochs: ups.iter().map(|d| SingleUpdate { epoch_data: d.clone(), signed_bitmap: vec![Some(true); init.public_keys.len()] }).collect(), aggregated_signature: Some(g1(1)), hash_helper: Some(HashToBitsHelper { proof, verifying_key: vk }) };
    take_verifications();
    let done = std::panic::catch_unwind(|| c.generate_constraints(ConstraintSystem::<Fq>::new_ref()).is_ok()).unwrap_or(false);
    if !done { fail("no constraints for a chain with a helper proof") }
    let v = take_verifications().pop().unwrap_or_else(|| fail("the helper proof is not looked at"));
    (v.inputs.iter().map(|i| i.iter().map(|b| b.unwrap()).collect()).collect(), [packed(&crh), packed(&xof)].concat())
}
fn main() {
    let d = [data(7, 0, 5, 4, 1, &[3, 4]), data(8, 0, 9, 5, 1, &[6, 7]), data(9, 1, 3, 9, 1, &[8, 9]), data(10, 0, 2, 3, 1, &[10, 11])];
    for m in 1..4 {
        let (have, want) = statement(&d[0], &d[1..1 + m]);
        if have != want { println!("{} transitions: the helper proof is held against another statement", m); std::process::exit(1) }
    }
    let (have, want) = statement(&d[0], &[data(0, 0, 0, 0, 0, &[1, 1]), d[1].clone()]);
    if have != want { fail("with a padding epoch the helper proof is held against another statement") }
}'''
def h(id, edits, needs, breaks): plant(id, "C11", edits, needs, breaks, T.HEAD + HELP, "epoch", True)
h("s-helper-last-chunk-order", {E + "gadgets/epoch_bits.rs": [("            b.reverse();\n", "            if b.len() == chunk_size as usize {\n                b.reverse();\n            }\n")]},
  "two-proof mode", "the incomplete last element of the helper's statement has its bits the other way round")
h("s-helper-expansion-cut", {G + "hash_to_group.rs": [("            bytes_le_to_bits_le(&hash_result, 512)\n", "            // only the bits the point is made of are needed\n            let mut bits = bytes_le_to_bits_le(&hash_result, X_BITS.max(SIGN_BIT_POSITION) + 1);\n            bits.resize(512, false);\n            bits\n")]},
  "two-proof mode", "the expansion's bits beyond the sign are zero in the helper's statement")
h("s-helper-padding-hash", {E + "gadgets/epochs.rs": [("            all_xof_bits.extend_from_slice(&constrained_epoch.xof_bits);\n", "            for bit in constrained_epoch.xof_bits.iter() {\n                all_xof_bits.push(bit.and(&index_bit)?);\n            }\n")]},
  "two-proof mode, a chain with padding epochs", "the expansion of padding epochs is blanked out in the helper's statement")
