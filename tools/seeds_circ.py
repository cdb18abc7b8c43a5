#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_kit import plant
G, E = "crates/bls-gadgets/src/", "crates/epoch-snark/src/"
from seeds_circ_text import HEAD, EP, COUNT
def p(id, prop, edits, needs, breaks, body, crate="gadgets"): plant(id, prop, edits, needs, breaks, HEAD + body, crate, True)

# ---- bls-gadgets
p("s-count-ones-unlinked", "C01", {G + "bitmap.rs": [("        self.cs().enforce_constraint(\n            occurrences_lc,", "        let linked = if value {\n            LinearCombination::from(occurrences_var)\n        } else {\n            occurrences_lc\n        };\n        self.cs().enforce_constraint(\n            linked,")]},
  "ones are counted, by a prover who states a smaller count", "the stated count of ones is not tied to the bitmap", COUNT + '''
fn main() {
    let b = [Some(true); 5];
    if !limit(&b, false, 5, true, NONE, 0).0 || limit(&b, false, 4, true, NONE, 0).0 { fail("the honest count is wrong") }
    for at in 0..limit(&b, false, 2, true, NONE, 0).1 { for lie in 0..3 { if limit(&b, false, 2, true, at, lie).0 { fail("five ones pass a limit of two") } } }
}''')
p("s-count-skips-constants", "C01", {G + "bitmap.rs": [("        for bit in self {", "        for bit in self.iter().filter(|bit| !bit.is_constant()) {")]},
  "a bitmap some of whose bits are constants of the circuit", "constant bits are not counted", COUNT + '''
fn main() {
    let b = [Some(true), None, None, None];
    if !limit(&b, true, 4, true, NONE, 0).0 { fail("four of at most four are refused") }
    if limit(&b, true, 2, true, NONE, 0).0 { fail("four ones pass a limit of two") }
    if limit(&b, false, 2, false, NONE, 0).0 { fail("three zeros pass a limit of two") }
}''')
p("s-zero-bit-free", "C02", {G + "y_to_bit.rs": [('''                // (lhs * bit == 0)
                self.cs().enforce_constraint(
                    LinearCombination::from(self_val.variable),
                    bit.lc(),
                    lc!(),
                )?;
''', '''                // (inv * (1 - bit) == inv)
                let inverse = inv_var;
                self.cs().enforce_constraint(
                    LinearCombination::from(inverse),
                    LinearCombination::from(Variable::One) - bit.lc(),
                    LinearCombination::from(inverse),
                )?;
'''), ('''                // (el * inv == 1 - bit)
                self.cs().enforce_constraint(
                    LinearCombination::from(self_val.variable) + lc!(),
                    match inv {
                        Self::Constant(_) => unreachable!(),
                        Self::Var(v) => LinearCombination::from(v.variable) + lc!(),
                    },''', '''                let inv_var = match inv {
                    Self::Constant(_) => unreachable!(),
                    Self::Var(v) => v.variable,
                };

                // (el * inv == 1 - bit)
                self.cs().enforce_constraint(
                    LinearCombination::from(self_val.variable) + lc!(),
                    LinearCombination::from(inv_var) + lc!(),''')]},
  "a prover who claims that an element is zero and that its inverse is zero", "the bit may be 1 for an element that is not zero", '''
use bls_gadgets::FpUtils;
fn main() {
    let body = |n: u64| move |cs: CS| { let x = fault::trusted(|| fv(&cs, n)); x.is_eq_zero()?.value() };
    if run(NONE, None, None, body(0)).0 != Some(true) || run(NONE, None, None, body(7)).0 != Some(false) { fail("the honest bit is wrong") }
    // both helper variables at once: the claimed bit, and an inverse of zero
    let cs = ConstraintSystem::<Fq>::new_ref();
    let x = fv(&cs, 7);
    let n = Rc::new(Cell::new(0));
    let out = fault::with_plan(move |s| if let fault::Site::Field(_, v) = s { if let Some(v) = v.downcast_mut::<Fq>() { *v = if n.get() == 0 { Fq::one() } else { Fq::zero() }; n.set(n.get() + 1); } }, || x.is_eq_zero().unwrap());
    if cs.is_satisfied().unwrap() && out.value().unwrap() { fail("seven passes as zero") }
}''')
p("s-half-constant", "C02", {G + "y_to_bit.rs": [("            Self::Constant(_) => Ok(Boolean::constant(self.value()? > half)),\n            Self::Var(self_val) => {\n                let bit = Boolean::new_witness(self.cs(), || Ok(self.value()? > half))?;", "            Self::Constant(_) => Ok(Boolean::constant(self.value()?.into_repr().is_odd())),\n            Self::Var(self_val) => {\n                let bit = Boolean::new_witness(self.cs(), || Ok(self.value()? > half))?;"), ("use ark_ff::{PrimeField, Zero};", "use ark_ff::{BigInteger, PrimeField, Zero};")]},
  "a coordinate that is a constant of the circuit", "the sign of a constant is its parity", '''
use bls_gadgets::FpUtils;
fn main() {
    for (x, big) in [(Fq::from(7u64), false), (Fq::from(8u64), false), (-Fq::from(7u64), true), (-Fq::from(8u64), true)] {
        if FpVar::Constant(x).normalize().unwrap().value().unwrap() != big { fail("the bit of a constant is wrong") }
        let cs = ConstraintSystem::<Fq>::new_ref();
        let v = FpVar::new_witness(cs.clone(), || Ok(x)).unwrap();
        if v.normalize().unwrap().value().unwrap() != big || !cs.is_satisfied().unwrap() { fail("the bit of a variable is wrong") }
    }
}''')
H2G = '''
use bls_crypto::{hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, SIG_DOMAIN};
use bls_gadgets::HashToGroupGadget;
fn hash(m: &[u8], x: &[u8], c: u8, at: usize, point: Option<fn(G1Affine) -> G1Affine>) -> (Option<G1Projective>, usize) {
    run(at, None, point, |cs| {
        let (m, x, c) = fault::trusted(|| (UInt8::new_witness_vec(cs.clone(), m).unwrap(), UInt8::new_witness_vec(cs.clone(), x).unwrap(), UInt8::new_witness(cs.clone(), || Ok(c)).unwrap()));
        HashToGroupGadget::enforce_hash_to_group(c, &m, &x, false)?.0.value()
    })
}
'''
p("s-hash-sign-free", "C03", {G + "hash_to_group.rs": [("        compressed_sign_bit.enforce_equal(sign_bit)?;\n", "        compressed_sign_bit\n            .and(sign_bit)?\n            .or(&compressed_sign_bit.not().and(&sign_bit.not())?)?\n            .enforce_equal(&compressed_sign_bit.xor(sign_bit)?.not())?;\n")]},
  "a prover who hashes to the negated point", "the sign of the point is not tied to the hash (the new constraint always holds)", H2G + '''
fn main() {
    let (h, c) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, b"message", b"extra").unwrap();
    let (v, n) = hash(b"message", b"extra", c as u8, NONE, None);
    if v != Some(h) { fail("the honest hash is wrong") }
    for at in 0..n { if let Some(x) = hash(b"message", b"extra", c as u8, at, Some(|p| -p)).0 { if x != h { fail("the negated hash passes") } } }
}''')
p("s-hash-extra-last-byte", "C03", {G + "hash_to_group.rs": [("        for v in extra_data {\n", "        for v in extra_data.iter().take(64 - 8 - 48) {\n")]},
  "extra data of more than 8 bytes", "bytes of the extra data beyond the eighth are not hashed", H2G + '''
fn main() {
    for x in [&b""[..], b"1234567", b"12345678", b"123456789", b"0123456789abcdef0"] {
        let (h, c) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, b"message", x).unwrap();
        if hash(b"message", x, c as u8, NONE, None).0 != Some(h) { fail("not the native hash") }
    }
}''')
BLS = '''
use bls_gadgets::BlsVerifyGadget;
type Gadget = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
fn agg(keys: &[G2Projective], b: &[bool], max: u64) -> Option<G2Projective> {
    run(NONE, None, None, |cs| {
        let k: Vec<G2Var> = keys.iter().map(|k| v2(&cs, *k)).collect();
        Gadget::enforce_bitmap(&k, &bits(&cs, b), &v1(&cs, g1(5)), &fv(&cs, max), &G2Var::constant(g2(1)))?.1.value()
    }).0
}
'''
p("s-padding-in-aggregate", "C04", {G + "bls.rs": [('''            // Disallow the padding pk
            pk.conditional_enforce_not_equal(padding_pk, bit)?;
            // If bit = 1, add pk''', '''            // If bit = 1, add pk'''), ('''            aggregated_pk += &adder;
        }
''', '''            aggregated_pk += &adder;
            // Disallow the padding pk
            aggregated_pk.conditional_enforce_not_equal(padding_pk, bit)?;
        }
''')]}, "a padding key signs after another key", "padding keys are counted as signers unless they come first", BLS + '''
fn main() {
    if agg(&[g2(7), g2(9)], &[true, true], 0) != Some(g2(16)) { fail("wrong aggregate") }
    if agg(&[g2(1), g2(9)], &[true, true], 0).is_some() || agg(&[g2(7), g2(1), g2(9)], &[true, true, true], 0).is_some() { fail("the padding key signs") }
}''')
p("s-equal-keys-once", "C04", {G + "bls.rs": [('''        let mut aggregated_pk = P::G2Var::zero();
        for (pk, bit) in pub_keys.iter().zip(signed_bitmap) {''', '''        let mut aggregated_pk = P::G2Var::zero();
        let mut previous: Option<&P::G2Var> = None;
        for (pk, bit) in pub_keys.iter().zip(signed_bitmap) {
            let repeated = match previous {
                Some(previous) => previous.is_eq(pk)?,
                None => Boolean::constant(false),
            };
            previous = Some(pk);'''), ("            let adder = bit.select(pk, &P::G2Var::zero())?;", "            let adder = bit.and(&repeated.not())?.select(pk, &P::G2Var::zero())?;")]},
  "two equal keys next to each other, both signing", "a repeated key is added to the aggregate once", BLS + '''
fn main() {
    if agg(&[g2(7), g2(9), g2(7)], &[true, true, true], 0) != Some(g2(23)) { fail("wrong aggregate") }
    if agg(&[g2(7), g2(7), g2(9)], &[true, true, true], 0) != Some(g2(23)) { fail("a repeated key counts once") }
}''')

# ---- epoch-snark
p("s-threshold-second-witness", "C05", {E + "gadgets/epoch_data.rs": [("        let maximum_non_signers_bits = fr_to_bits(&maximum_non_signers, 32)?;\n", "        let encoded_non_signers =\n            FpVar::new_witness(index.cs(), || Ok(Fr::from(self.maximum_non_signers)))?;\n        let maximum_non_signers_bits = fr_to_bits(&encoded_non_signers, 32)?;\n")]},
  "a prover who commits to one threshold and uses another", "the threshold that is used is not the one that is encoded", EP + '''
fn main() {
    let d = data(7, 3, 5, 6, 1, &[3, 4]);
    let go = |at, lie| run(at, Some(Fq::from(lie)), None, |cs| { let t = d.to_bits(cs)?; Ok((t.7.value()?, num(&t.1[24..56]))) });
    let (v, n) = go(NONE, 0);
    if v != Some((Fq::from(1u64), 1)) { fail("the honest encoding is wrong") }
    for at in 0..n { if let Some((used, shown)) = go(at, 100u64).0 { if used != Fq::from(shown) { fail("a threshold is used that is not the encoded one") } } }
}''', "epoch")
p("s-last-epoch-parent", "C05", {E + "gadgets/epoch_data.rs": [("[index_bits, epoch_entropy_bits, maximum_non_signers_bits].concat();", "[index_bits, last_entropy_bits, maximum_non_signers_bits].concat();"), ('''        let mut epoch_bits: Vec<Bool> =
            [epoch_entropy_bits''', '''        let last_entropy_bits = match &self.epoch_entropy {
            Some(v) if v.iter().any(|b| *b != 0) => epoch_entropy_bits.clone(),
            _ => parent_entropy_bits.clone(),
        };

        let mut epoch_bits: Vec<Bool> =
            [epoch_entropy_bits''')]},
  "an epoch without entropy whose parent has one", "the last epoch's encoding takes the parent's entropy", EP + '''
fn main() {
    for e in [5u8, 0] {
        let d = data(7, 3, e, 6, 1, &[3, 4]);
        let got = run(NONE, None, None, |cs| { let t = d.to_bits(cs)?; t.3.iter().map(|b| b.value()).collect::<Result<Vec<_>, _>>() }).0;
        if got != Some(block(&d).encode_to_bits_cip22(EpochType::Last).unwrap()) { fail("not the native encoding of a last epoch") }
    }
}''', "epoch")
STEP = EP + '''
fn step(prev: u16, ent: u8, max: u32, b: &[bool], d: &Data) -> Option<G2Projective> {
    let u = SingleUpdate::<Bls12_377> { epoch_data: d.clone(), signed_bitmap: b.iter().map(|b| Some(*b)).collect() };
    run(NONE, None, None, |cs| {
        let k: Vec<G2Var> = [3, 4, 5].iter().map(|k| v2(&cs, g2(*k))).collect();
        let e = FpVar::new_witness(cs.clone(), || Ok(num16(ent)))?;
        u.constrain(&k, &fv(&cs, prev as u64), &e, &fv(&cs, max as u64), &Boolean::constant(true), 3, false)?.aggregate_pk.value()
    }).0
}
'''
p("s-own-threshold", "C06", {E + "gadgets/single_update.rs": [("            previous_max_non_signers,\n            &G2Var::constant", "            &index_bit.select(&epoch_data.maximum_non_signers, previous_max_non_signers)?,\n            &G2Var::constant"), ("use ark_r1cs_std::{boolean::Boolean, eq::EqGadget, fields::fp::FpVar, groups::CurveVar, R1CSVar};", "use ark_r1cs_std::{\n    boolean::Boolean, eq::EqGadget, fields::fp::FpVar, groups::CurveVar, select::CondSelectGadget, R1CSVar,\n};")]},
  "an epoch whose own threshold is above that of the epoch before it", "an epoch's absent signers are held against the threshold the epoch itself states", STEP + '''
fn main() {
    let d = |max| data(8, 3, 9, 5, max, &[6, 7, 8]);
    if step(7, 5, 1, &[true, false, true], &d(1)) != Some(g2(8)) { fail("a valid transition is refused") }
    if step(7, 5, 1, &[true, false, true], &d(0)) != Some(g2(8)) { fail("a valid transition to a lower threshold is refused") }
    if step(7, 5, 0, &[true, false, true], &d(2)).is_some() { fail("more are absent than the previous epoch allows") }
}''', "epoch")
p("s-no-parent-entropy", "C06", {E + "gadgets/single_update.rs": [("            &index_bit.and(constrain_entropy_bit)?,\n", "            &index_bit\n                .and(constrain_entropy_bit)?\n                .and(&epoch_data.parent_entropy.is_eq_zero()?.not())?,\n")]},
  "an epoch without parent entropy after an epoch with entropy", "an epoch without parent entropy is not compared with the epoch before it", STEP + '''
fn main() {
    if step(7, 5, 1, &[true, false, true], &data(8, 3, 9, 5, 1, &[6, 7, 8])) != Some(g2(8)) { fail("a valid transition is refused") }
    if step(7, 5, 1, &[true, false, true], &data(8, 3, 9, 6, 1, &[6, 7, 8])).is_some() { fail("another parent entropy is accepted") }
    if step(7, 5, 1, &[true, false, true], &data(8, 3, 9, 0, 1, &[6, 7, 8])).is_some() { fail("a missing parent entropy is accepted") }
}''', "epoch")
CHAIN = EP + '''
fn h(d: &Data) -> G1Projective { block(d).hash_to_g1_cip22().unwrap() }
fn circuit(init: &Data, ups: &[(Data, Vec<bool>)], sig: G1Projective) -> bool {
    let c = ValidatorSetUpdate::<Bls12_377> { initial_epoch: init.clone(), num_validators: init.public_keys.len() as u32, epochs: ups.iter().map(|(d, b)| SingleUpdate { epoch_data: d.clone(), signed_bitmap: b.iter().map(|b| Some(*b)).collect() }).collect(), aggregated_signature: Some(sig), hash_helper: None };
    run(NONE, None, None, |cs| c.generate_constraints(cs)).0.is_some()
}
fn times(p: G1Projective, n: u64) -> G1Projective { p.mul(Fr::from(n).into_repr()) }
'''
p("s-padding-raises-threshold", "C07", {E + "gadgets/epochs.rs": [('''            previous_max_non_signers = FrVar::conditionally_select(
                &index_bit,
                &constrained_epoch.new_max_non_signers,
                &previous_max_non_signers,
            )?;''', '''            previous_max_non_signers = constrained_epoch.new_max_non_signers;''')]},
  "a padding epoch with a large threshold before an epoch few signed", "a padding epoch replaces the threshold", CHAIN + '''
fn main() {
    let init = data(7, 0, 5, 4, 1, &[3, 4, 5]);
    let last = data(8, 0, 9, 5, 1, &[6, 7, 8]);
    let mut pad = data(0, 0, 0, 0, 3, &[1, 1, 1]);
    let g = G1Projective::prime_subgroup_generator();
    let all = vec![true, true, false];
    if !circuit(&init, &[(last.clone(), all.clone())], times(h(&last), 7)) { fail("a valid chain is refused") }
    if circuit(&init, &[(pad.clone(), all.clone()), (last.clone(), vec![true, false, false])], times(h(&last), 3) + g) { fail("one of three signers is enough") }
    pad.maximum_non_signers = 0;
    if !circuit(&init, &[(pad, all.clone()), (last.clone(), all)], times(h(&last), 7) + g) { fail("a valid chain with padding is refused") }
}''', "epoch")
p("s-entropy-first-pair-only", "C07", {E + "gadgets/epochs.rs": [("                &entropy_bit,\n", "                &entropy_bit.and(&previous_epoch_entropy.is_eq_zero()?.not())?,\n")]},
  "three epochs, the middle one without entropy", "an epoch after one without entropy may state any parent entropy", CHAIN + '''
fn main() {
    let init = data(7, 0, 5, 4, 1, &[3, 4, 5]);
    let all = vec![true, true, true];
    for (e, p, valid) in [(6, 6, true), (6, 9, false), (0, 0, true), (0, 9, false)] {
        let mid = data(8, 0, e, 5, 1, &[6, 7, 8]);
        let last = data(9, 0, 2, p, 1, &[9, 10, 11]);
        if circuit(&init, &[(mid.clone(), all.clone()), (last.clone(), all.clone())], times(h(&mid), 12) + times(h(&last), 21)) != valid { fail("the parent entropy of the last epoch is not judged against the middle one's entropy") }
    }
}''', "epoch")
p("s-pack-short-chunk", "C08", {E + "gadgets/pack.rs": [("            for j in 0..chunk_len {", "            for j in chunk_len % element_size.min(bits.len())..chunk_len {")]},
  "bits that do not fill the last element", "the last, partly filled element is not tied to its bits", EP + '''
fn main() {
    let b: Vec<bool> = (0..11).map(|i| i % 3 != 0).collect();
    let go = |at, lie: u64| run(at, Some(Fq::from(lie)), None, |cs| {
        let v = fault::trusted(|| bits(&cs, &b));
        let out = MultipackGadget::pack::<Fq, ark_bls12_377::FqParameters>(&v, 8, false)?;
        out.iter().map(|x| x.value()).collect::<Result<Vec<_>, _>>()
    });
    let (v, n) = go(NONE, 0);
    let honest = v.unwrap_or_else(|| fail("the honest packing is refused"));
    if honest.len() != 2 || honest[1] != Fq::from(b[8..].iter().fold(0u64, |a, b| 2 * a + *b as u64)) { fail("wrong packing") }
    for at in 0..n { for lie in 0..8 { if let Some(x) = go(at, lie).0 { if x != honest { fail("other elements pass for the same bits") } } } }
}''', "epoch")
p("s-prover-padding-threshold", "C09", {E + "api/prover.rs": [('''    let mut asig_dummy = (0..max_transitions - num_epochs)
''', '''    let mut asig_dummy = (0..(max_transitions - num_epochs).min(num_epochs))
''')]}, "more padding epochs than transitions", "the signature lacks the share of some padding epochs, so the proof does not verify", EP.replace("use epoch_snark::{verif_hooks::*, EpochBlock, ValidatorSetUpdate};", "use epoch_snark::{prove, trusted_setup, verify, verif_hooks::*, EpochBlock, EpochTransition};") + '''
fn main() {
    let init = block(&data(7, 0, 5, 4, 1, &[3, 4]));
    let last = block(&data(8, 0, 9, 5, 1, &[6, 7]));
    let t = EpochTransition { block: last.clone(), aggregate_signature: Signature::from(last.hash_to_g1_cip22().unwrap().mul(Fr::from(7u64).into_repr())), bitmap: vec![true, true] };
    for max in 1..4 {
        let p = trusted_setup(2, max, 1, &mut rand::thread_rng(), false).unwrap_or_else(|_| fail("no set-up"));
        let proof = prove(&p, 2, &init, &[t.clone()], max).unwrap_or_else(|_| fail("no proof"));
        if verify(&p.epochs.vk, &init, &last, &proof).is_err() { fail(&format!("the proof of a valid chain is refused (at most {} transitions)", max)) }
        if verify(&p.epochs.vk, &last, &init, &proof).is_ok() { fail("the proof passes for other epochs") }
    }
}''', "epoch")
ENC = EP + '''
fn inner(d: &Data) -> (Vec<u8>, Vec<u8>) { block(d).encode_inner_to_bytes_cip22().unwrap() }
'''
p("s-round-high-bit", "E01", {E + "encoding.rs": [("        .flat_map(|x| (0..8).map(move |i| (((x) & u8::pow(2, i)) >> i) == 1))", "        .flat_map(|x| (0..8).map(move |i| ((x.min(127) & u8::pow(2, i)) >> i) == 1))")]},
  "a round above 127", "rounds from 127 on are encoded alike", ENC + '''
fn main() {
    let all: std::collections::HashSet<_> = (0..=255).map(|r| inner(&data(7, r, 5, 6, 1, &[3])).1).collect();
    if all.len() != 256 { fail("two rounds have one encoding") }
}''', "epoch")
p("s-key-sign-small-c1", "E01", {E + "encoding.rs": [("    let half = Fq::modulus_minus_one_div_two();\n    let is_over_half = y_c1_big > half || (y_c1_big == zero && y_c0_big > half);", "    let half = Fq::modulus_minus_one_div_two();\n    let decided_by_c0 = y_c1_big.as_ref()[5] == zero.as_ref()[5];\n    let is_over_half = y_c1_big > half || (decided_by_c0 && y_c0_big > half);")]},
  "a key whose second y coordinate is below 2^320 and whose first is above half", "the sign bit of such keys is taken from the first coordinate", '''
use bls_crypto::PublicKey;
use epoch_snark::EpochBlock;
fn fq(l: [u64; 6]) -> Fq { l.iter().rev().fold(Fq::zero(), |a, l| a * Fq::from(2u64).pow([64u64]) + Fq::from(*l)) }
fn main() {
    // a point with y = (-1, 5)
    let x = Fq2::new(fq([16929974777083099232, 13011775421275873362, 12190344092371608648, 11642936793371681113, 1307702599415809578, 105336617683736100]), fq([16956605535382346324, 1527438281014073573, 6340420562291170274, 5748593266230002093, 11227588807553878246, 97766514805321523]));
    let p = G2Affine::new(x, Fq2::new(-Fq::one(), Fq::from(5u64)), false);
    if !p.is_on_curve() { std::process::exit(3) }
    let bit = |p: G2Affine| *EpochBlock::new(1, 0, None, None, 0, 1, vec![PublicKey::from(p.into_projective())]).encode_to_bits().unwrap().last().unwrap();
    if bit(p) || !bit(-p) { fail("wrong sign bit") }
    for i in 1..40 {
        let p = g2(i).into_affine();
        if bit(p) != (p.y.c1.into_repr() > Fq::modulus_minus_one_div_two()) { fail("wrong sign bit of an ordinary key") }
    }
}''', "epoch")
p("s-plain-padded", "E01", {E + "epoch_block.rs": [("        epoch_bits.extend_from_slice(&encode_u16(self.index)?);\n        epoch_bits.extend_from_slice(&encode_u32(self.maximum_non_signers)?);\n        for added_public_key in &self.new_public_keys {", "        epoch_bits.extend_from_slice(&encode_u16(self.index)?);\n        epoch_bits.extend_from_slice(&encode_u32(self.maximum_non_signers)?);\n        for added_public_key in self.new_public_keys.iter().take(self.maximum_validators) {")]},
  "more keys than the stated maximum number of validators", "the plain encoding drops the keys beyond the maximum", '''
use bls_crypto::PublicKey;
use epoch_snark::EpochBlock;
fn main() {
    for max in [4, 3, 2] {
        let b = EpochBlock::new(1, 0, None, None, 0, max, (2..5).map(|i| PublicKey::from(g2(i))).collect());
        if b.encode_to_bits().unwrap().len() != 48 + 3 * 755 { fail("a key is not encoded") }
    }
}''', "epoch")
p("s-threshold-16-bits", "E02", {E + "encoding.rs": [("    bytes.write_u32::<LittleEndian>(num)?;\n", "    bytes.write_u32::<LittleEndian>(num & 0x80ff_ffff)?;\n")]},
  "a threshold of 2^24 or more", "bits 24 to 30 of the threshold are lost", ENC + '''
fn main() {
    let e = |m| block(&data(7, 1, 5, 6, m, &[3])).encode_first_epoch_to_bytes_cip22().unwrap();
    let all: std::collections::HashSet<_> = (0..32).map(|i| e(1 << i)).collect();
    if all.len() != 32 { fail("two thresholds have one encoding") }
}''', "epoch")
p("s-ends-cancel", "E03", {E + "epoch_block.rs": [("    Ok([h1, h2].concat())\n", "    if first == last {\n        return Ok([h1.clone(), h1].concat());\n    }\n    Ok([h1, h2].concat())\n")]},
  "the first and the last epoch are equal", "the second half is not the hash of the last epoch's encoding", ENC + '''
fn main() {
    let (a, b) = (block(&data(7, 1, 5, 6, 1, &[3, 4])), block(&data(8, 1, 6, 5, 1, &[3, 4])));
    let half = |x: &EpochBlock| x.blake2_last_epoch_with_aggregated_pk_cip22().unwrap();
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
        let v = hash_first_last_epoch_block(x, y).unwrap();
        if v[256..] != half(y)[..] || v[..256] != x.blake2_first_epoch_cip22().unwrap()[..] { fail("not the hashes of both ends") }
    }
}''', "epoch")
