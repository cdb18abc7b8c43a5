From 004a54df86c2c6fbad2a02683c4eeb5ba8f6a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 1/9] fix: direct CRH refuses a domain longer than 8 bytes
 instead of panicking

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From acd6f968973458e38f1488f5a7e259247baea4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 2/9] verif hooks: private circuit items for external monitors
 under cfg(celo_bls_verif)

---
 crates/bls-gadgets/src/lib.rs |  7 +++++++
 crates/epoch-snark/src/lib.rs | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/bls-gadgets/src/lib.rs b/crates/bls-gadgets/src/lib.rs
index 4714ae7..c1bb568 100644
--- a/crates/bls-gadgets/src/lib.rs
+++ b/crates/bls-gadgets/src/lib.rs
@@ -17,3 +17,10 @@ pub use hash_to_group::{hash_to_bits, HashToGroupGadget};
 
 /// Utility functions which do not involve generating constraints
 pub mod utils;
+
+/// Access to private items for external monitors (only with `--cfg celo_bls_verif`)
+#[cfg(celo_bls_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::bitmap::Bitmap;
+}
diff --git a/crates/epoch-snark/src/lib.rs b/crates/epoch-snark/src/lib.rs
index 74db489..6e4655b 100644
--- a/crates/epoch-snark/src/lib.rs
+++ b/crates/epoch-snark/src/lib.rs
@@ -32,3 +32,14 @@ pub use epoch_block::{EpochBlock, EpochTransition};
 
 mod gadgets;
 pub use gadgets::ValidatorSetUpdate;
+
+/// Access to private items for external monitors (only with `--cfg celo_bls_verif`)
+#[cfg(celo_bls_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::epoch_block::{hash_first_last_epoch_block, hash_to_bits, EpochType};
+    pub use crate::gadgets::{
+        pack, ConstrainedEpoch, EpochBits, EpochData, HashToBits, HashToBitsHelper,
+        MultipackGadget, SingleUpdate,
+    };
+}
-- 
2.43.0


From 09fa4485ae21d0f30562f0800b4049bbbca5b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 3/9] fix: bitmap constraint counts occurrences without
 wrapping at 256

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From 24dfa05b23687b4c6a2d3b0640344ce8042f5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 4/9] fix: BLS equation gadget refuses lists of different
 lengths instead of dropping elements

---
 crates/bls-gadgets/src/bls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bls-gadgets/src/bls.rs b/crates/bls-gadgets/src/bls.rs
index c38a6b1..3bcc781 100644
--- a/crates/bls-gadgets/src/bls.rs
+++ b/crates/bls-gadgets/src/bls.rs
@@ -224,6 +224,10 @@ where
         g2: &[P::G2PreparedVar],
     ) -> Result<(), SynthesisError> {
         trace!("enforcing BLS equation");
+        // the pairing product would otherwise silently drop the elements without a counterpart
+        if g1.len() != g2.len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
         let bls_equation = P::product_of_pairings(g1, g2)?;
         let gt_one = &P::GTVar::one();
         bls_equation.enforce_equal(gt_one)?;
-- 
2.43.0


From 3b4a5319aa504cf7dcc57aa8b856d47fdf96505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 5/9] fix: prover's padding epochs use a bitmap the previous
 validators satisfy

---
 crates/epoch-snark/src/api/prover.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..b6216cf 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -43,7 +43,7 @@ pub fn prove(
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, &epochs[num_epochs - 1].signed_bitmap))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -143,7 +143,9 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+/// The bitmap of a dummy update is checked against the validators of the last real epoch before it,
+/// so it is given the bitmap of the update that follows, which those validators satisfy
+fn to_dummy_update(num_validators: u32, signed_bitmap: &[Option<bool>]) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -155,6 +157,6 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap: signed_bitmap.to_vec(),
     }
 }
-- 
2.43.0


From 03cac22c44901344d7c01263f940a91c0f4f871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 6/9] fix: C interface accepts null pointers to empty inputs

---
 crates/bls-snark-sys/src/serialization.rs     | 12 ++--
 crates/bls-snark-sys/src/signatures.rs        | 56 ++++++++-----------
 crates/bls-snark-sys/src/snark/epoch_block.rs | 19 +++----
 crates/bls-snark-sys/src/utils.rs             | 29 +++++++++-
 4 files changed, 66 insertions(+), 50 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..178dc99 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -1,11 +1,11 @@
 use super::{convert_result_to_bool, PrivateKey, PublicKey, Signature};
-use crate::cache::PUBLIC_KEY_CACHE;
+use crate::{cache::PUBLIC_KEY_CACHE, utils::slice_from_ptr};
 use ark_bls12_377::{Fq, Fq2, G1Affine, G2Affine};
 use ark_ec::AffineCurve;
 use ark_ff::FromBytes;
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use bls_crypto::BLSError;
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 // Serialization & deserialization
 
@@ -49,7 +49,7 @@ pub extern "C" fn deserialize_public_key_cached(
     convert_result_to_bool::<_, BLSError, _>(|| {
         let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
         let bytes =
-            unsafe { slice::from_raw_parts(in_public_key_bytes, in_public_key_bytes_len as usize) };
+            unsafe { slice_from_ptr(in_public_key_bytes, in_public_key_bytes_len as usize) };
         let key = cache.deserialize(bytes.to_vec())?;
         unsafe {
             *out_public_key = Box::into_raw(Box::new(key));
@@ -110,7 +110,7 @@ fn deserialize<T: CanonicalDeserialize>(
     out: *mut *mut T,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let bytes = unsafe { slice::from_raw_parts(in_bytes, in_bytes_len as usize) };
+        let bytes = unsafe { slice_from_ptr(in_bytes, in_bytes_len as usize) };
         #[allow(clippy::redundant_slicing)]
         let key: T = CanonicalDeserialize::deserialize(&mut &bytes[..])?;
         unsafe {
@@ -171,7 +171,7 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
+        let signature = unsafe { slice_from_ptr(in_signature, in_signature_len as usize) };
         let x = Fq::read(&signature[0..48]).unwrap();
         let y = Fq::read(&signature[48..96]).unwrap();
         let affine = G1Affine::new(x, y, false);
@@ -196,7 +196,7 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
+        let pubkey = unsafe { slice_from_ptr(in_pubkey, in_pubkey_len as usize) };
         let x = Fq2::read(&pubkey[0..96]).unwrap();
         let y = Fq2::read(&pubkey[96..192]).unwrap();
         let affine = G2Affine::new(x, y, false);
diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..bb87a31 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -1,7 +1,7 @@
 use crate::{
     cache::PUBLIC_KEY_CACHE,
     convert_result_to_bool,
-    utils::{BatchMessageFFI, Message, MessageFFI},
+    utils::{slice_from_ptr, slice_from_ptr_mut, BatchMessageFFI, Message, MessageFFI},
     Batch, PrivateKey, PublicKey, Signature, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1,
 };
 use ark_ec::ProjectiveCurve;
@@ -10,7 +10,7 @@ use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP
 use bls_crypto::hashers::{DirectHasher, COMPOSITE_HASHER};
 use bls_crypto::Hasher;
 use bls_crypto::{BLSError, HashToCurve, POP_DOMAIN, SIG_DOMAIN};
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 /// # Safety
 ///
@@ -53,9 +53,8 @@ pub extern "C" fn sign_message(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_ptr(in_extra_data, in_extra_data_len as usize) };
         let signature = match (should_use_composite, should_use_cip22) {
             (true, true) => private_key.sign(message, extra_data, &*COMPOSITE_HASH_TO_G1_CIP22)?,
             (false, true) => return Err(BLSError::HashToCurveError),
@@ -79,7 +78,7 @@ pub extern "C" fn sign_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let signature = private_key.sign_pop(message, &*DIRECT_HASH_TO_G1)?;
         unsafe {
             *out_signature = Box::into_raw(Box::new(signature));
@@ -98,7 +97,7 @@ pub extern "C" fn hash_direct(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let hash = DIRECT_HASH_TO_G1.hash(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -123,7 +122,7 @@ pub extern "C" fn hash_direct_with_attempt(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let (hash, c) = DIRECT_HASH_TO_G1.hash_with_attempt(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -149,9 +148,8 @@ pub extern "C" fn hash_composite(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_ptr(in_extra_data, in_extra_data_len as usize) };
         let hash = COMPOSITE_HASH_TO_G1.hash(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -174,7 +172,7 @@ pub extern "C" fn hash_crh(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let hash = COMPOSITE_HASHER.crh(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -197,7 +195,7 @@ pub extern "C" fn hash_direct_first_step(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let hash = DirectHasher.hash(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -222,9 +220,8 @@ pub extern "C" fn hash_composite_cip22(
     attempt_counter: *mut u8,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_ptr(in_extra_data, in_extra_data_len as usize) };
         let (hash, counter) =
             COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
@@ -254,9 +251,8 @@ pub extern "C" fn verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_ptr(in_extra_data, in_extra_data_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = match (should_use_composite, should_use_cip22) {
             (true, true) => public_key
@@ -296,7 +292,7 @@ pub extern "C" fn batch_verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         // Get the pointers slice
-        let messages: &[MessageFFI] = unsafe { slice::from_raw_parts(messages_ptr, messages_len) };
+        let messages: &[MessageFFI] = unsafe { slice_from_ptr(messages_ptr, messages_len) };
 
         // Get the data from the underlying pointers in the right format
         let messages = messages.iter().map(Message::from).collect::<Vec<_>>();
@@ -349,25 +345,22 @@ pub extern "C" fn batch_verify_strict(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let batch_messages: &[BatchMessageFFI] =
-            unsafe { slice::from_raw_parts(in_batches_ptr, in_batches_len) };
+            unsafe { slice_from_ptr(in_batches_ptr, in_batches_len) };
 
-        let results: &mut [bool] =
-            unsafe { slice::from_raw_parts_mut(out_results, in_batches_len) };
+        let results: &mut [bool] = unsafe { slice_from_ptr_mut(out_results, in_batches_len) };
         let mut all_valid = true;
 
         for (index, batch) in batch_messages.iter().enumerate() {
             let message = <&[u8]>::from(&batch.data);
             let extra_data = <&[u8]>::from(&batch.extra);
 
-            let public_keys =
-                unsafe { slice::from_raw_parts(batch.public_keys, batch.public_keys_len) };
+            let public_keys = unsafe { slice_from_ptr(batch.public_keys, batch.public_keys_len) };
             let public_keys = public_keys
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
                 .collect::<Vec<_>>();
 
-            let signatures =
-                unsafe { slice::from_raw_parts(batch.signatures, batch.signatures_len) };
+            let signatures = unsafe { slice_from_ptr(batch.signatures, batch.signatures_len) };
             let signatures = signatures
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
@@ -413,7 +406,7 @@ pub extern "C" fn verify_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_ptr(in_message, in_message_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = public_key
             .verify_pop(message, signature, &*DIRECT_HASH_TO_G1)
@@ -432,7 +425,7 @@ pub extern "C" fn aggregate_public_keys(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+            unsafe { slice_from_ptr(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -460,7 +453,7 @@ pub extern "C" fn aggregate_public_keys_subtract(
     convert_result_to_bool::<_, BLSError, _>(|| {
         let aggregated_public_key = unsafe { &*in_aggregated_public_key };
         let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+            unsafe { slice_from_ptr(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -488,8 +481,7 @@ pub extern "C" fn aggregate_signatures(
     out_signature: *mut *mut Signature,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signatures_ptrs =
-            unsafe { slice::from_raw_parts(in_signatures, in_signatures_len as usize) };
+        let signatures_ptrs = unsafe { slice_from_ptr(in_signatures, in_signatures_len as usize) };
         let signatures = signatures_ptrs
             .iter()
             .copied()
diff --git a/crates/bls-snark-sys/src/snark/epoch_block.rs b/crates/bls-snark-sys/src/snark/epoch_block.rs
index 3cb5824..bc71261 100644
--- a/crates/bls-snark-sys/src/snark/epoch_block.rs
+++ b/crates/bls-snark-sys/src/snark/epoch_block.rs
@@ -1,4 +1,4 @@
-use crate::convert_result_to_bool;
+use crate::{convert_result_to_bool, utils::slice_from_ptr};
 use ark_bls12_377::G2Affine;
 use ark_ec::{AffineCurve, ProjectiveCurve};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
@@ -7,7 +7,6 @@ use epoch_snark::{EncodingError, EpochBlock};
 use std::{
     convert::TryFrom,
     os::raw::{c_int, c_uchar, c_uint, c_ushort},
-    slice,
 };
 
 /// Each pubkey is a BLS G2Projective element
@@ -29,9 +28,8 @@ pub extern "C" fn encode_epoch_block_to_bytes_cip22(
     out_extra_data_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from_ptr(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -75,9 +73,8 @@ pub extern "C" fn encode_epoch_block_to_bytes(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from_ptr(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -155,7 +152,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
     ptr: *const u8,
     len: usize,
 ) -> Result<C, EncodingError> {
-    let mut data = slice::from_raw_parts(ptr, len);
+    let mut data = slice_from_ptr(ptr, len);
     Ok(C::deserialize(&mut data)?)
 }
 
@@ -166,7 +163,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
 /// This WILL read invalid data if you give it a larger `num` argument
 /// than expected. Use with caution.
 unsafe fn read_serialized_pubkeys<'a>(ptr: *const u8, num: usize) -> &'a [u8] {
-    slice::from_raw_parts(ptr, num * PUBKEY_BYTES)
+    slice_from_ptr(ptr, num * PUBKEY_BYTES)
 }
 
 /// Serializes the inner G2 elements of the pubkeys to a vector
@@ -205,7 +202,7 @@ unsafe fn read_epoch_entropy(ptr: *const u8) -> Option<Vec<u8>> {
     if ptr.is_null() {
         None
     } else {
-        Some(slice::from_raw_parts(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
+        Some(slice_from_ptr(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
     }
 }
 
diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..5697c03 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -4,6 +4,33 @@
 use super::{PublicKey, Signature};
 use std::slice;
 
+/// Views `len` elements starting from the pointer's location. An empty slice may be given
+/// as any pointer, including null.
+///
+/// # Safety
+///
+/// Unless `len` is zero, the pointer must locate `len` valid elements.
+pub(crate) unsafe fn slice_from_ptr<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(ptr, len)
+    }
+}
+
+/// Same as `slice_from_ptr`, for elements to be written
+///
+/// # Safety
+///
+/// Unless `len` is zero, the pointer must locate `len` valid elements nobody else accesses.
+pub(crate) unsafe fn slice_from_ptr_mut<'a, T>(ptr: *mut T, len: usize) -> &'a mut [T] {
+    if len == 0 {
+        &mut []
+    } else {
+        slice::from_raw_parts_mut(ptr, len)
+    }
+}
+
 /// A per-epoch block witness to be used with the batch sig verification
 #[derive(Clone, Debug, PartialEq)]
 pub struct Message<'a> {
@@ -92,7 +119,7 @@ impl From<&[u8]> for Buffer {
 
 impl<'a> From<&Buffer> for &'a [u8] {
     fn from(src: &Buffer) -> &'a [u8] {
-        unsafe { slice::from_raw_parts(src.ptr, src.len) }
+        unsafe { slice_from_ptr(src.ptr, src.len) }
     }
 }
 
-- 
2.43.0


From 29d224722c45deb097f8901fac03afc0060ec521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 7/9] fix: Buffer of an empty slice no longer panics

---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index 5697c03..1eeb916 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -111,7 +111,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From 8e0278eef5f708db42a771b039fe758268c35c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 8/9] fix: compressing malformed points through the C interface
 returns false instead of panicking

---
 crates/bls-snark-sys/src/serialization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 178dc99..284a6db 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -171,9 +171,9 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice_from_ptr(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut signature = unsafe { slice_from_ptr(in_signature, in_signature_len as usize) };
+        let x = Fq::read(&mut signature)?;
+        let y = Fq::read(&mut signature)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -196,9 +196,9 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice_from_ptr(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut pubkey = unsafe { slice_from_ptr(in_pubkey, in_pubkey_len as usize) };
+        let x = Fq2::read(&mut pubkey)?;
+        let y = Fq2::read(&mut pubkey)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From 2f0d30104df487c3e6130206bb329b56464866d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 9/9] fix: batch_verify_strict refuses batches with uneven
 numbers of keys and signatures

---
 crates/bls-snark-sys/src/signatures.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index bb87a31..9ba473f 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -381,6 +381,8 @@ pub extern "C" fn batch_verify_strict(
                 (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
                 (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
             };
+            // a key without a signature, or the reverse, makes the batch invalid
+            let result = result && public_keys.len() == signatures.len();
 
             if !result {
                 all_valid = false;
-- 
2.43.0

