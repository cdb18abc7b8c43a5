#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["crates/" + f for f in files], "mechanism": [{"name": n, "where": "crates/" + w} for n, w in mechanism]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BC, BG, ES, FF = "bls-crypto/src/", "bls-gadgets/src/", "epoch-snark/src/", "bls-snark-sys/src/"

prop("H01", "Direct hasher computes exactly the Blake2s CRH and Blake2Xs output",
 "For every domain of at most 8 bytes, every message and every output length from 0 to 65535 bytes, the direct hasher's compression step is the 32-byte BLAKE2s digest personalised with the domain and carrying the requested output length in its parameter block, and its extension step is the BLAKE2Xs expansion of its input. Hashing a message is the compression step followed by the extension step, and the returned output always has exactly the requested length.",
 ["inputs"], "every domain (0..8 bytes), message, and output length 0..65535",
 "The five runnable tests compare a handful of fixed-seed vectors for two output lengths and empty domains; the parameter-block layout for other lengths, domains and last partial blocks is not exercised.",
 [BC + "hashers/direct.rs", BC + "hashers/mod.rs"],
 [("parameter block of the compression step", BC + "hashers/direct.rs crh"), ("block loop and node offsets of the extension step", BC + "hashers/direct.rs xof"), ("composition", BC + "hashers/mod.rs Hasher::hash")],
 ["return values of the public hashing calls"])
prop("H02", "Direct hasher refuses over-long domains with an error, never a panic",
 "When the domain is longer than 8 bytes, every hashing operation of the direct hasher (compression, extension and the full hash) returns the error saying that the domain is too large, carrying the domain's length. It never panics, and it never truncates the domain and carries on; domains of at most 8 bytes are never refused.",
 ["inputs"], "every domain length (0..8 accepted, 9.. refused), message and output length, for each of the three operations",
 "No test passes a domain longer than 8 bytes.",
 [BC + "hashers/direct.rs", BC + "lib.rs"],
 [("domain length guard", BC + "hashers/direct.rs xof"), ("error value", BC + "lib.rs BLSError")])
prop("H03", "Composite hasher is the fixed windowed curve hash followed by Blake2Xs",
 "The composite hasher's compression step maps every message to the little-endian x coordinate of the Bowe-Hopwood-Pedersen hash of its bits under generators derived once and for all from the published nothing-up-my-sleeve seed, independently of the domain and the requested length. Its extension step and its refusal of over-long domains are those of the direct hasher, and two instances always agree.",
 ["inputs"], "every message up to the documented input capacity, every domain and length",
 "Tests pin a few golden vectors for the composite compression step and its extension output.",
 [BC + "hashers/composite.rs"],
 [("windowed hash with seeded generators", BC + "hashers/composite.rs CompositeHasher"), ("deterministic generator set-up", BC + "hashers/composite.rs setup_crh")])
prop("H04", "Hash-to-curve returns the first valid counter's cofactor-cleared point",
 "Hashing to either source group tries counters 0, 1, 2, ... in order and returns, together with that counter, the cofactor-cleared point of the first one whose hash of counter byte, extra data and message (in that order, under the given domain) decodes to a curve point that is not cleared to the identity. The result is always a non-identity point of the prime-order subgroup and depends on nothing but domain, message and extra data. Decoding a candidate on its own reads a reduced x from all but its top bits, the larger or smaller y from its top bit, and the identity from the bit below when x is zero.",
 ["inputs", "configurations"], "every domain, message, extra data; both source groups; both hashers; the deployed (compat) and the plain bit-extraction rule",
 "Tests compare a few random inputs with stored outputs and never check the 'first valid counter' rule or the order of the concatenation on skewed inputs.",
 [BC + "hash_to_curve/try_and_increment.rs", BC + "hash_to_curve/mod.rs"],
 [("try-and-increment loop", BC + "hash_to_curve/try_and_increment.rs hash_with_attempt"), ("decoding of candidate bytes, sign flags", BC + "hash_to_curve/mod.rs from_random_bytes, YSignFlags"), ("candidate length", BC + "hash_to_curve/mod.rs hash_length")])
prop("H05", "CIP22 hash-to-curve hashes the message once and tries counters outside",
 "The CIP22 variant compresses the message exactly once and, for counters 0, 1, 2, ... in order, expands the concatenation of counter byte, extra data and that inner hash under the given domain, returning the cofactor-cleared point of the first counter that decodes to a curve point not cleared to the identity, together with that counter. The result is always a non-identity point of the prime-order subgroup.",
 ["inputs", "configurations"], "every domain, message, extra data; both source groups; both hashers; both bit-extraction rules",
 "Tests compare a few random inputs with stored outputs.",
 [BC + "hash_to_curve/try_and_increment_cip22.rs", BC + "hash_to_curve/mod.rs"],
 [("inner hash and outer loop", BC + "hash_to_curve/try_and_increment_cip22.rs hash_with_attempt_cip22"), ("decoding of candidate bytes", BC + "hash_to_curve/mod.rs")])
prop("K01", "Every honestly made signature and proof of possession verifies, only as such",
 "For every nonzero private key, message and extra data, and with every hash-to-curve instance offered, the signature made with the key verifies under the corresponding public key, and so does the proof of possession. A signature never passes as a proof of possession or vice versa, and neither verifies for a different message, different extra data, a different key or a different hash-to-curve instance. (For the instances that are not CIP22, which hash extra data followed by message, different means that this concatenation differs.)",
 ["inputs"], "every private key, message, extra data, hash-to-curve instance, and every mutation of one component",
 "Tests sign 10 random 32-byte messages with empty extra data and try one wrong message.",
 [BC + "bls/secret.rs", BC + "bls/public.rs", BC + "lib.rs"],
 [("signing", BC + "bls/secret.rs sign, sign_pop"), ("verification", BC + "bls/public.rs verify, verify_pop"), ("domain tags", BC + "lib.rs SIG_DOMAIN, POP_DOMAIN")])
prop("K02", "Signature verification accepts exactly when the pairing equation holds",
 "For every public key, signature, message and extra data, verification succeeds if and only if the pairing of the signature with the generator of the key group equals the pairing of the message's hash with the public key, and otherwise reports a verification failure. This includes degenerate keys and signatures (identity, negated, swapped, scaled) and any internal representation of the same point.",
 ["inputs"], "every (key, signature, message, extra data), honest or adversarial, in any projective representation",
 "Tests try one honest signature and one wrong message or key.",
 [BC + "bls/public.rs"], [("pairing check", BC + "bls/public.rs verify_sig")])
prop("K03", "Aggregation is the group sum: order-free, empty-safe and verifiable",
 "Aggregating public keys or signatures yields the group sum of all of them, duplicates counted, whatever their order or grouping, and the identity for an empty list. The aggregate of signatures by several keys over one message verifies under the aggregate of those keys, and not under the aggregate of a different multiset of keys.",
 ["inputs"], "every list (any length, order, duplicates, identities) of keys and of signatures",
 "Tests aggregate two or ten fresh keys once.",
 [BC + "bls/public.rs", BC + "bls/signature.rs"], [("key sum", BC + "bls/public.rs aggregate"), ("signature sum", BC + "bls/signature.rs aggregate")])
prop("K04", "Batch verification accepts exactly when every term's pairing product is one",
 "Verifying one aggregate signature against a list of keys and an equally long list of messages (or of message hashes) succeeds if and only if the pairing of the signature with the generator equals the product of the pairings of each message's hash with its key. Lists of different lengths are always refused with the uneven-count error, and an error in hashing any message is reported rather than skipped.",
 ["inputs"], "every list of (key, message, extra data), any signature, both entry points, all length mismatches",
 "Tests check one batch of honest epochs and one failing one.",
 [BC + "bls/signature.rs"], [("batch equation", BC + "bls/signature.rs batch_verify, batch_verify_hashes")])
prop("K05", "Strict batch verification accepts only if each signature verifies on its own",
 "A strict batch over one message and extra data verifies if every added pair of key and signature verifies individually, and with an invalid entry only with cryptographically negligible probability over the exponents it draws afresh; in particular, errors that cancel out across entries never make it pass, whatever the order, number and correlation of the entries. The one-by-one variant accepts exactly the same batches.",
 ["inputs", "histories"], "every sequence of added (key, signature) pairs, including correlated errors, and every draw of the random exponents",
 "Tests check one good batch, one batch with a swapped signature and a size table for the exponents; no test can observe the distribution of the exponents.",
 [BC + "bls/batch.rs", BC + "bls/public.rs", BC + "bls/signature.rs"],
 [("fresh random exponent per entry", BC + "bls/batch.rs verify"), ("exponent size", BC + "bls/batch.rs byte_count_from_target_batch_size"), ("exponentiated sums", BC + "bls/public.rs batch, bls/signature.rs batch")])
prop("K06", "Keys and signatures round-trip through fixed-size canonical encodings",
 "Private keys, public keys and signatures serialise to exactly 32, 96 and 48 bytes (192 and 96 uncompressed for the latter two) and every encoding decodes back to an equal value, whatever internal representation it came from. Decoding a compressed encoding yields an error, never a panic, for truncated input, coordinates or scalars that are not reduced, points not on the curve or outside the prime-order subgroup; every other byte string it accepts, unless it is flagged as the identity, re-encodes to itself.",
 ["inputs"], "every key/signature value and every byte string offered as an encoding",
 "Tests round-trip one random value per type.",
 [BC + "bls/secret.rs", BC + "bls/public.rs", BC + "bls/signature.rs"],
 [("encoders and decoders", BC + "bls/public.rs, bls/signature.rs CanonicalSerialize/CanonicalDeserialize")])
prop("K07", "The public-key cache never changes a result, over any history of calls",
 "After any sequence of cached decodings, cached aggregations and cache clearings, decoding through the cache returns exactly what plain decoding returns (including its refusals), and aggregating a list of distinct keys through the cache returns exactly their group sum. Neither eviction from the bounded decoding cache nor a failed call is ever observable in later results.",
 ["histories", "inputs"], "every history of decode / aggregate / clear calls, with overlapping key sets, repeated and invalid encodings, and more keys than the cache holds",
 "Tests decode ten keys once and aggregate one list.",
 [BC + "bls/cache.rs"],
 [("incremental aggregate over the difference of key sets", BC + "bls/cache.rs aggregate"), ("bounded decoding cache", BC + "bls/cache.rs deserialize"), ("clearing", BC + "bls/cache.rs clear_cache")],
 state=[{"name": "keys/combined", "meaning": "last aggregated key set and its sum", "where": "crates/bls-crypto/src/bls/cache.rs"}])
prop("K08", "Generated keys are uniform and owe everything to the generator they are given",
 "Key generation returns a uniform scalar below the group order that is determined by the generator it is given alone: equal generators give equal keys and are left in equal states, at least as many bits are drawn as a key has, and over many keys every bit, interval and pair of successive keys looks uniform and no key recurs. The public key of every private key (zero and the largest included) is exactly that multiple of the key group's generator. Every key generated through the C interface is fresh, in every thread and process.",
 ["inputs", "histories"], "every generator state, every private key, every sequence of generations across threads and processes",
 "Tests generate a few keys to sign with and never look at the keys.",
 [BC + "bls/secret.rs", BC + "bls/public.rs", FF + "signatures.rs"],
 [("drawing the scalar", BC + "bls/secret.rs PrivateKey::generate"), ("public key", BC + "bls/public.rs From<&PrivateKey>"), ("generation through the C interface", FF + "signatures.rs generate_private_key")])
prop("K09", "Weighted combinations are exact sums of multiples, uneven lists refused",
 "Combining a list of public keys, or of signatures, with an equally long list of weights yields exactly the sum of each entry's multiple by its weight: for every length (the identity for empty lists), for weights of zero, one, minus one or of any size, for repeated, opposite and identity entries, and whatever their internal representation. Lists of different lengths yield nothing, whichever is longer. Signatures over one message combined with some weights verify under the keys combined with the same weights.",
 ["inputs"], "every list of keys or signatures and every list of weights",
 "No test calls the combination directly; the batch tests use it with random weights on honest signatures.",
 [BC + "bls/public.rs", BC + "bls/signature.rs"], [("combination of keys", BC + "bls/public.rs batch"), ("combination of signatures", BC + "bls/signature.rs batch")])
prop("K10", "No call retains memory, and the key cache only a bounded amount",
 "However many calls are made, with whatever inputs, a call of the library or of the C interface leaves no memory behind once its results are released. The public-key cache alone retains memory between calls, and only of the last aggregated set and of a fixed number (512) of decoded encodings: neither floods of distinct, repeated, refused or over-long encodings nor changing sets make it grow, clearing empties it, and it is gone with its owner.",
 ["histories", "inputs"], "every history of calls, in particular long ones with ever new inputs",
 "Tests make a handful of calls and do not look at memory.",
 [BC + "bls/cache.rs", FF + "cache.rs", FF + "serialization.rs", FF + "signatures.rs"], [("capacity of the decoding cache, clearing", BC + "bls/cache.rs PublicKeyCache::new, clear_cache"), ("aggregated set replaced", BC + "bls/cache.rs aggregate"), ("process-wide cache", FF + "cache.rs PUBLIC_KEY_CACHE")])
prop("U01", "Bit/byte conversion helpers are exact and mutually inverse",
 "Packing a bit list into bytes yields the little-endian bytes of the number whose binary digits, most significant first (or least significant first for the little-endian variant), are the list, in ceil(n/8) bytes. Unpacking bytes yields the first requested number of their bits (or all of them if fewer), least significant first or reversed, so packing and unpacking invert each other for every length.",
 ["inputs"], "every bit list and byte list of any length and every requested bit count, including zero, partial bytes and counts beyond the input",
 "Tests convert 100 random 64-bit integers.",
 [BG + "utils.rs"], [("packing", BG + "utils.rs bits_be_to_bytes_le, bits_le_to_bytes_le"), ("unpacking", BG + "utils.rs bytes_le_to_bits_be, bytes_le_to_bits_le")])
prop("E01", "Epoch blocks encode to the exact published bit layout",
 "Every epoch-block encoding (plain, first-epoch, last-epoch with aggregate key, and inner block with its extra data) is the bit string given by the published layout: fixed-width little-endian index, round and maximum of absent signers, 128-bit entropies (zero when absent), every key as its two x coordinate halves and a sign bit, and padding with the generator up to the maximum number of validators where the layout says so. The byte form of an encoding is always its bit form packed by the same fixed rule.",
 ["inputs"], "every index, round, entropies (present or absent), threshold, maximum number of validators, and list of keys",
 "Tests compare one or two stored encodings.",
 [ES + "encoding.rs", ES + "epoch_block.rs"],
 [("field encoders", ES + "encoding.rs"), ("layouts", ES + "epoch_block.rs encode_*")])
prop("E02", "Different epochs never share an encoding",
 "Two epoch blocks with the same maximum number of validators, at most that many keys and 16-byte entropies have equal inner-block encodings (message plus extra data) only if they agree in index, round, maximum of absent signers, both entropies and the padded list of keys. In particular changing a single field, a single bit of a field, the sign of one key or the order of keys always changes the encoding. In the same way two blocks have equal first-epoch or last-epoch encodings only if they agree in everything those forms contain.",
 ["inputs"], "all pairs of epoch blocks, in particular pairs that differ in one field, one bit, one sign or an order",
 "Tests never compare two encodings.",
 [ES + "encoding.rs", ES + "epoch_block.rs"], [("fixed-width injective fields", ES + "encoding.rs"), ("layout", ES + "epoch_block.rs encode_inner_to_bits_cip22")])
prop("E03", "Proof public inputs are the hash of first and last epoch, packed exactly",
 "The bits bound by a proof for an epoch range are the personalised 256-bit BLAKE2s hashes (output domain) of the first-epoch encoding followed by that of the last-epoch encoding with aggregate key. Packing them into field elements for the verifier loses nothing: the bits are cut into consecutive chunks of the field's capacity, each chunk read most significant bit first, and unpacking gives them back.",
 ["inputs"], "every pair of first and last epoch blocks and every bit string packed",
 "Tests pack a few random strings in the circuit, and never compare the native packing with the definition.",
 [ES + "epoch_block.rs", ES + "gadgets/mod.rs", ES + "api/verifier.rs"],
 [("hash of the ends", ES + "epoch_block.rs hash_first_last_epoch_block, hash_to_bits"), ("packing", ES + "gadgets/mod.rs pack")])
prop("C01", "Bitmap constraint is satisfiable exactly when few enough bits are set",
 "The constraint that a signer bitmap has at most a given number of occurrences of a value is satisfied for exactly those bitmaps where it is true, for every bitmap of at least one bit, every maximum below 2^64 (constant or variable) and both values. A dishonest assignment of helper variables never satisfies it for another bitmap.",
 ["inputs", "fault_sequences"], "every bitmap, value and maximum, and every tampered witness",
 "Tests try a dozen bitmaps of fixed length.",
 [BG + "bitmap.rs"], [("occurrence count and comparison", BG + "bitmap.rs enforce_maximum_occurrences_in_bitmap")])
prop("C02", "In-circuit sign bits equal the native sign of every point",
 "The sign bit computed in the circuit for a point of either source group is one exactly when the point's y coordinate is the lexicographically larger of the two (for the quadratic-extension group: judged on the second component, on the first only if the second is zero). No assignment of helper variables satisfies the constraints with the other bit.",
 ["inputs", "fault_sequences"], "every point of both groups, its negation, boundary coordinates, and every tampered witness",
 "Tests try some random points.",
 [BG + "y_to_bit.rs"], [("comparison with half the modulus", BG + "y_to_bit.rs")])
prop("C03", "In-circuit hash-to-group equals native CIP22 hashing for every message",
 "The hash-to-group constraints, given message bits, extra data and the counter, produce exactly the point that native CIP22 hashing returns for the same input, together with the same intermediate hash bits. No assignment of helper variables satisfies them with a point that some counter value does not decode to.",
 ["inputs", "fault_sequences"], "every message length and content the circuit admits, every extra data, every tampered witness",
 "Tests try two or three random messages.",
 [BG + "hash_to_group.rs"], [("in-circuit inner hash, expansion, decoding and cofactor clearing", BG + "hash_to_group.rs")])
prop("C04", "In-circuit BLS verification accepts exactly the valid aggregate signatures",
 "The signature constraints for keys, bitmap, message hash, aggregate signature, threshold and padding key are satisfiable exactly when the native check succeeds: the signature verifies natively under the sum of the keys whose bit is set (which is not the identity), at most the allowed number of bits is unset, and no key whose bit is set equals the padding key. The batched form over several epochs is satisfiable exactly when the aggregate signature natively verifies for all its key and message pairs together, and lists of different lengths never satisfy it. No tampered helper variable makes an invalid case pass.",
 ["inputs", "fault_sequences"], "every key list, bitmap, threshold and signature (honest or forged), every tampered witness",
 "Tests try a few honest and a few dishonest combinations of fixed size.",
 [BG + "bls.rs"], [("key aggregation by bitmap", BG + "bls.rs enforce_aggregated_pubkeys"), ("pairing constraint", BG + "bls.rs enforce_bls_equation, batch_verify")])
prop("C05", "In-circuit epoch data bits equal the native encodings",
 "For every epoch block, the circuit's bits for that epoch (first-epoch form, last-epoch form with aggregate key, and inner block with extra data) equal the native encodings bit for bit, and the in-circuit message hash equals the native hash of the block. No tampered helper variable makes the constraints hold with bits that are not the native encoding of the values the circuit goes on to use, or with a message hash that is not the hash of those bits for some counter.",
 ["inputs", "fault_sequences"], "every epoch block the circuit admits, every tampered witness",
 "Tests try one or two blocks.",
 [ES + "gadgets/epoch_data.rs"], [("in-circuit encoding", ES + "gadgets/epoch_data.rs")])
prop("C06", "A single epoch step is satisfiable only as a valid validator-set change",
 "The constraints of one epoch transition are satisfied for exactly those transitions whose bitmap has at most the previous epoch's allowed number of absent signers and no padding key (the generator) among its signers and, unless the new epoch is a padding epoch (index zero), whose index is the predecessor's plus one and, when the chain's first epoch carries an entropy, whose parent entropy equals the predecessor's entropy. They bind the aggregate of exactly the signing keys of the previous epoch. No dishonest witness satisfies them otherwise.",
 ["inputs", "histories"], "every pair of successive epochs, honest or with one relation broken, and every bitmap",
 "Tests try a handful of transitions with one broken relation each.",
 [ES + "gadgets/single_update.rs", ES + "gadgets/epoch_data.rs"], [("transition relations", ES + "gadgets/single_update.rs constrain, gadgets/epoch_data.rs enforce_next_epoch")])
prop("C07", "The epoch-chain circuit is satisfied only by fully valid epoch chains",
 "The whole circuit (hashes computed inside) is satisfied for exactly those chains in which every transition is valid against the last real epoch before it, the aggregated signature is that of every real epoch's block by its signers plus the generator for every padding epoch, the last epoch is real, and the public input is that of the first and the last epoch. Padding epochs (index zero), wherever they stand before the last, change nothing else. Breaking any one link, signature, bitmap, index, entropy or key, or presenting another chain's public input, leaves it unsatisfied, and an unverifiable helper proof never satisfies it.",
 ["inputs", "histories", "fault_sequences"], "every chain up to the circuit's size with any number of padding epochs, and every single corruption of it",
 "Tests try one honest chain and a few broken ones.",
 [ES + "gadgets/epochs.rs"], [("chaining, dummy epochs and batch verification", ES + "gadgets/epochs.rs"), ("public input", ES + "gadgets/epoch_bits.rs")])
prop("C08", "In-circuit output hashing and packing equal their native counterparts",
 "The helper circuits that hash bit strings and pack bits into field elements satisfy their constraints exactly for the native values: the hash bits equal the native hash of the same bits for every length, and with the native packing of a bit string as public elements the packing constraints hold exactly when the circuit's bits are that string. A wrong hash bit, or the packing of another string, never satisfies them.",
 ["inputs", "fault_sequences"], "every bit string length and content, every tampered output",
 "Tests try a few random strings of fixed length.",
 [ES + "gadgets/hash_to_bits.rs", ES + "gadgets/pack.rs", ES + "gadgets/epoch_bits.rs"], [("hash helper", ES + "gadgets/hash_to_bits.rs"), ("packing", ES + "gadgets/pack.rs, gadgets/epoch_bits.rs")])
prop("C09", "Proofs made for an epoch chain verify, and only for that chain's ends",
 "For every valid chain of epochs within the circuit's size whose blocks list exactly the circuit's number of validators (padding spelled out), the proof produced with the published parameters verifies for its first and last epoch. It does not verify for ends with another first-epoch or last-epoch encoding, under another verifying key or when modified, and no proof that verifies is produced for an invalid chain.",
 ["inputs", "histories"], "every chain length up to the maximum, with padding, and every change of the ends presented to the verifier",
 "The end-to-end test proves one chain.",
 [ES + "api/setup.rs", ES + "api/prover.rs", ES + "api/verifier.rs"], [("set-up, proving, verification", ES + "api")])
prop("C10", "The epoch circuit has the same constraints whatever is proved",
 "For every number of validators and transitions the constraints and the number of public inputs of the epoch circuit, and of the hash helper circuit for its number of messages, are the same at set-up (whatever threshold it was set up with) and for every chain proved: valid or not, with padding epochs or validators, with entropies present, absent or zero, with repeated, padding or degenerate keys, with any bitmap, threshold, index, round and signature. So one set-up serves every chain of its size.",
 ["inputs", "configurations"], "every chain of a size (valid, invalid, padded, degenerate), every set-up threshold, with and without a helper proof",
 "Tests count the constraints of one honest instance.",
 [ES + "gadgets/epochs.rs", ES + "gadgets/single_update.rs", ES + "gadgets/epoch_data.rs", ES + "gadgets/hash_to_bits.rs", ES + "api/setup.rs", ES + "api/prover.rs"],
 [("empty circuits for the set-up", ES + "gadgets/epochs.rs ValidatorSetUpdate::empty, gadgets/hash_to_bits.rs HashToBits::empty"), ("constraint generation", ES + "gadgets/epochs.rs, single_update.rs, epoch_data.rs"), ("circuits handed to the proof system", ES + "api/setup.rs, api/prover.rs")])
prop("C11", "The helper proof is held against the chain's own hashes",
 "In the two-proof mode, for every chain the statement against which the epoch circuit verifies the helper proof is that of its own transitions, padding epochs included: the inner digests of all transitions in order and then their expansions (of counter, extra data and digest) in order, packed most significant bit first into elements of the inner field's capacity. So the verification inside the circuit comes out true for a proof of exactly this statement and false for a proof of any other (a bit flipped, another order, another transition's hashes), the helper proof that `prove` makes verifies there, valid chains satisfy the circuit with the public input of their ends, and invalid chains computed honestly do not.",
 ["inputs", "configurations"], "every chain and every statement a helper proof may prove",
 "Tests verify the helper circuit outside the epoch circuit, never against the statement the epoch circuit forms.",
 [ES + "gadgets/epoch_bits.rs", ES + "gadgets/epochs.rs", ES + "gadgets/epoch_data.rs", ES + "gadgets/single_update.rs", ES + "api/prover.rs", BG + "hash_to_group.rs"],
 [("statement formed from digest and expansion bits", ES + "gadgets/epoch_bits.rs verify_proof, le_chunks"), ("bits collected per transition", ES + "gadgets/epochs.rs verify_intermediate_epochs"), ("helper proof made by the prover", ES + "api/prover.rs generate_hash_helper")])
prop("F01", "C interface returns exactly what the Rust interface returns",
 "Every exported function, for every well-formed input and combination of hasher flags, reports success or failure and writes outputs exactly as the corresponding library operation: signatures, hashes, keys, encodings, aggregates and verdicts are the same bytes and the same booleans, including per-batch verdicts. (Aggregation of public keys is over pairwise different keys; proof verification is F05.)",
 ["inputs", "histories"], "every exported function, flag combination, and well-formed input",
 "The crate's tests call a few functions on one input each.",
 [FF + "signatures.rs", FF + "serialization.rs", FF + "utils.rs", FF + "snark/epoch_block.rs", FF + "snark/mod.rs"],
 [("argument conversion and dispatch", FF + "signatures.rs, serialization.rs, utils.rs")])
prop("F02", "C interface is memory-safe and ownership is exactly-once",
 "For every sequence of well-formed calls, no call reads or writes outside the caller's buffers or uses freed memory, every object or buffer handed out is valid until its one release and unaffected by later calls, releasing it frees it exactly once, and nothing is leaked after everything was released (the bounded process-wide key cache aside). Input buffers and input objects are never modified or freed.",
 ["histories", "inputs"], "every sequence of create / use / destroy calls through the exported functions, including empty buffers and zero counts",
 "Tests neither release what they get nor run under a sanitizer.",
 [FF + "signatures.rs", FF + "serialization.rs", FF + "utils.rs", FF + "snark/epoch_block.rs"],
 [("ownership transfer by boxing and forgetting", FF + "signatures.rs, serialization.rs, utils.rs"), ("views of caller memory", FF + "utils.rs Buffer")])
prop("F03", "Malformed input through the C interface is refused, never a crash",
 "Given any bytes of any length where an encoding is expected, any mismatch between counts, or any unsupported flag combination, the exported functions return false (or a false verdict) without crashing, aborting or unwinding into the caller. A list of keys and a list of signatures of different lengths is never reported as valid. (Compression judges length and canonical coordinates, not whether they are those of a curve point.)",
 ["inputs"], "every byte string offered as key, signature, hash or proof; truncated, over-long, non-canonical, off-curve; mismatched counts",
 "Tests only pass well-formed input.",
 [FF + "serialization.rs", FF + "signatures.rs", FF + "snark/epoch_block.rs"],
 [("error conversion", FF + "lib.rs convert_result_to_bool"), ("input validation", FF + "serialization.rs, signatures.rs")])
prop("F04", "Concurrent callers of the C interface never interfere",
 "When any number of threads call the exported functions at the same time, every call returns what it would return alone, in particular those that share the process-wide key cache; there are no data races and no deadlocks, and a failing call in one thread does not disturb the others.",
 ["schedules", "histories"], "every interleaving of calls from several threads, sharing the key cache and lazily initialised tables",
 "All tests are single-threaded and use private caches.",
 [FF + "cache.rs", FF + "signatures.rs", FF + "serialization.rs"],
 [("process-wide lock around the cache", FF + "cache.rs"), ("lazy initialisation", BC + "hashers/composite.rs, hash_to_curve")])
prop("F05", "C interface to proof verification decides exactly as the library",
 "The exported epoch-proof verification converts the caller's epoch descriptions (index, round, optional entropies, threshold, maximum validators, concatenated keys), verification key and proof without loss, and returns true exactly when the library verifies that proof for those epochs. Malformed keys, proofs or epochs yield false.",
 ["inputs"], "every proof, verification key and pair of epoch descriptions, honest or altered",
 "The crate's test verifies one stored proof.",
 [FF + "snark/mod.rs", FF + "snark/epoch_block.rs"], [("conversion of epoch descriptions", FF + "snark/epoch_block.rs"), ("verification", FF + "snark/mod.rs")])
prop("F06", "The C interface's binary interface is fixed",
 "A program in another language that loads the library finds every function of the C interface under its name and can call it with the published C signature: parameters in their order and with their widths (C ints for lengths and for reported lengths and counters, one-byte truth values, 16-, 8- and 32-bit epoch numbers, size_t counts of batches), the described structures (buffer, message, batch, epoch description) in their layout and, for epochs, by value. Each call then reports and writes what the library yields for that input, at any length and count (beyond 255 and 65535 as well); truth values are written and returned as the byte 0 or 1, and nothing but the outputs is written. Initialisation may be called any number of times, also between other calls. Releasing a null pointer reports failure.",
 ["inputs", "configurations"], "every exported symbol, argument, structure field and output, at every size",
 "Tests call the functions from within the crate with the crate's own types, so that a changed layout, width, order or missing export compiles and passes.",
 [FF + "signatures.rs", FF + "serialization.rs", FF + "utils.rs", FF + "lib.rs", FF + "snark/epoch_block.rs", FF + "snark/mod.rs"],
 [("exported symbols and argument types", FF + "signatures.rs, serialization.rs, snark/mod.rs, snark/epoch_block.rs, lib.rs init"), ("repr(C) structures", FF + "utils.rs MessageFFI, BatchMessageFFI, Buffer; snark/epoch_block.rs EpochBlockFFI")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
