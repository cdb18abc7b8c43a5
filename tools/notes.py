"""technique and level_note of each claimed check; reasons for unclaimed properties."""
SHIM = " Trusted: the stand-ins for the arkworks crates in /verif/shim (validated with the repository's own unit tests and golden vectors) and the oracle."
DIFF = "runtime differential monitor under generated workloads"
CIRC = "runtime monitor of constraint satisfaction with a dishonest prover injecting faults into witness values, native oracle"
CSHIM = " Dishonest provers are sampled: helper values replaced, solved for violated constraints, in pairs; not all assignments. Trusted: the stand-ins for the constraint library in /verif/shim (validated with the repository's own unit tests), its built-in gadgets, and the oracle."
NOTES = {
 "H01": (DIFF + " (independent BLAKE2s/2Xs oracle), call-trace monitor of the composition", "Every output length to 65536, structured and chained calls, unaligned slices, messages longer than 32 bits count, then random inputs within a time budget; no violation on what was run, not a proof." + SHIM),
 "H02": (DIFF + ": refusal oracle over domain lengths, panic monitor", "All domain lengths up to a bound for each operation." + SHIM),
 "H03": (DIFF + " (independent windowed-hash model)", "Random and boundary messages up to full capacity within a time budget." + SHIM),
 "H04": (DIFF + " (first-valid-counter model), scripted fault-injecting hashers", "Random inputs and scripted hostile candidates for both groups, hashers and bit rules." + SHIM),
 "H05": (DIFF + " (first-valid-counter model), scripted fault-injecting hashers", "Random inputs and scripted hostile candidates for both groups, hashers and bit rules." + SHIM),
 "K01": (DIFF + ": cross-presentation of signatures and proofs of possession", "Random and extreme keys, messages, instances and mutations within a time budget." + SHIM),
 "K02": (DIFF + " (separately computed pairings)", "Random and degenerate points in random representations within a time budget." + SHIM),
 "K03": (DIFF + " (sums computed on scalars)", "Random lists with duplicates, cancelling pairs, identities, orders and groupings within a time budget." + SHIM),
 "K04": (DIFF + " (separately computed pairings), fault-injecting hashers", "Random batches, forged and honest, all kinds of length mismatch, within a time budget." + SHIM),
 "K05": ("runtime monitor of drawn exponents plus adaptive attack workload, differential oracle", "Correlated errors over batch sizes 0 to about 330; exponent positions 0..11 judged on observed draws." + SHIM),
 "K06": (DIFF + " (independent encoder), hostile byte strings, faulty readers and writers", "Random values in random representations; every truncation; hostile encodings within a time budget." + SHIM),
 "K07": ("model-based runtime monitor over call histories (reference-model oracle)", "Random and adversarial histories of up to 120 calls plus floods past the cache's capacity." + SHIM),
 "U01": (DIFF + " (digit-by-digit model)", "Every bit list up to 12 bits and every two-byte string, lengths to 2100, then random lists; slices at any alignment. Where the file does not compile by itself, through bls-gadgets built against the stand-ins." ),
 "C01": (CIRC + " (plain count)", "Every bitmap up to 6 bits with every maximum, random bitmaps to 3000 bits." + CSHIM),
 "C02": (CIRC + " (comparison of the native coordinates)", "Random and boundary points and elements." + CSHIM),
 "C03": (CIRC + " (independent BLAKE2Xs, decoding and cofactor clearing)", "Random messages and extra data, right and wrong counters." + CSHIM),
 "C04": (CIRC + " (native pairing product and plain count)", "Random key lists to 13 keys (a few to 259), nine kinds of wrong signature, batches to 4 epochs (a few to 32)." + CSHIM),
}
NOTES.update({
 "E01": (DIFF + " (independent encoder of the published layout)", "Random and boundary blocks of 0 to 40 validators within a time budget." + SHIM),
 "E02": ("runtime monitor of encodings over families of near-identical blocks (collision oracle)", "Random pairs, single-field and single-bit neighbours within a time budget." + SHIM),
 "E03": (DIFF + " (independent BLAKE2s and packing)", "Random pairs of blocks and bit strings around multiples of the capacity." + SHIM),
 "C05": (CIRC + " (independent encoder, expansion and decoding)", "Random blocks of 1 to 4 validators." + CSHIM),
 "C06": (CIRC + " (plain model of a valid transition)", "Random transitions between sets of 1 to 6 validators and a few of up to 150, one relation broken in two of three." + CSHIM),
 "C07": (CIRC + " (plain model of a valid chain)", "Chains of 1 to 3 transitions, 1 to 5 validators, 0 to 2 padding epochs, and a few of up to 9 transitions, 32 validators or 8 padding epochs; thirty kinds of corruption." + CSHIM),
 "C08": (CIRC + " (independent BLAKE2s/2Xs and packing)", "Random strings around byte, block and capacity boundaries." + CSHIM),
 "C09": ("runtime end-to-end monitor of set-up, proving and verification under altered statements (model of a valid chain as oracle)", "Chains of 1 to 3 transitions, 1 to 4 validators. The prover is a stand-in that knows the set-up's secrets; the verifier is the real equation." + CSHIM),
})
FSHIM = " Calls go through the exported functions; lengths and pointers are those of real buffers." + SHIM
NOTES.update({
 "F01": (DIFF + " (the Rust interface as oracle), protocol monitor of outputs", "Every exported function but the proof verification (F05), random arguments, batches to 4, within a time budget." + FSHIM),
 "F02": ("monitoring allocator (canaries, layouts, quarantine, live bytes over replayed histories), AddressSanitizer, Miri on the cheaper calls", "Random histories of up to 60 calls; a leak is one that recurs on replay; aliasing rules are not checked." + FSHIM),
 "F03": ("crash and refusal monitor under hostile inputs, also under AddressSanitizer", "Classes of malformed bytes known to be so, noise, uneven lists, the unsupported flags, within a time budget." + FSHIM),
 "F04": ("concurrent stress with precomputed results as oracle, deadlock watchdog, racing initialisation in new processes, ThreadSanitizer", "12 threads, sampled schedules; evidence counts calls with others in flight and distinct sets of calls in flight." + FSHIM),
 "F05": (DIFF + " (the Rust interface as oracle), field-by-field monitor of the converted epochs, also under AddressSanitizer", "Proofs over a small circuit made by the stand-in prover, and one real proof of the original project; one field, bit or length altered." + FSHIM),
 "F06": ("runtime monitor of the shared object: symbols resolved by name, foreign declarations, guarded outputs; the Rust interface as oracle", "The crate built as a shared object in its release profile; x86-64 Linux calling convention only; lists to 300 keys, 65600 signatures, messages to 131 kB." + FSHIM),
})
NA = {}

NOTES.update({
 "K08": ("runtime monitor of key generation: counting and scripted generators, statistical oracle over the keys, independent double-and-add", "Millions of keys counted per run; bias below about 0.5 % of a bit goes unseen; thresholds leave a chance of a false alarm below 1e-9." + SHIM),
 "K09": (DIFF + " (sums of products computed on scalars)", "Random lists to some hundred entries with repeated, opposite, identity entries and degenerate weights within a time budget." + SHIM),
 "K10": ("monitoring allocator that accounts live bytes to the calling thread, call by call, under floods of ever new inputs", "Some thousand calls of each kind; a table that grows by under about 30 bytes per distinct key (or 6 per refused encoding) goes unseen. The `lru` crate is a stand-in." + SHIM),
 "C10": ("runtime monitor of constraint matrices: set-up and all executions of a size compared, also as handed to the proof system by the prover", "Sizes to 5 validators and 3 transitions (bits of one epoch to 40 keys), random and hostile values within a time budget; one recorded finding (helper circuit of a shorter chain)." + CSHIM),
 "C11": ("runtime monitor on the verification gadget inside the epoch circuit, fed with proofs of chosen statements", "Chains of 1 to 3 transitions for up to 4 validators within a time budget; true and false statements; one recorded finding (the prover's own helper proof states other hashes). The verdict is read off the gadget, as the circuit discards it (recorded under C07)." + CSHIM),
})
