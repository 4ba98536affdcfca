From 5f99a47b56e310b9f03b522fcc3626f5dad2dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 01/10] fix: check provable security against the blowup factor
 and reject ill-formed options

new_with_checked_provable_security compared the wrong way round and used the
leading zeros of the blowup factor, so it accepted weak parameter sets and
refused strong ones. new_with_checked_security wrapped around when no queries
and no grinding were requested (accepting it in release builds), and both
accepted blowup factors that are not powers of two.
---
 src/starks/proof/options.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..6fae508 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,10 +83,16 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
+        // A blowup factor that is not a power of two has no evaluation domain.
+        if !blowup_factor.is_power_of_two() {
+            return Err(InsecureOptionError::SecurityBits);
+        }
+
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= (grinding_factor as usize)
+                .saturating_add(num_bits_blowup_factor.saturating_mul(fri_number_of_queries))
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -111,10 +117,16 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        // A blowup factor that is not a power of two has no evaluation domain.
+        if !blowup_factor.is_power_of_two() {
+            return Err(InsecureOptionError::SecurityBits);
+        }
+
+        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+        if security_target as usize
+            >= (grinding_factor as usize)
+                .saturating_add(num_bits_blowup_factor.saturating_mul(fri_number_of_queries) / 2)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 9e5cb9509129bcbdd3f53c36d689109eace00d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 02/10] fix: serialize FRI decommitments without layers

Serializing a decommitment with no layer evaluations indexed an empty list.
---
 src/starks/fri/fri_decommit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..e06235d 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,11 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .first()
+            .or(self.layers_evaluations_sym.first())
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From 95ff88ce9b2a13c13bc8438ebb4c64941f6add8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 03/10] fix: report truncated range-check bounds instead of
 panicking

PublicInputs::deserialize sliced two bytes without checking they are there.
---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..eb4e1b5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -331,7 +331,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +354,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From 542ef354d01debcb40c0bc5b7b2d40e18e77f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/10] fix: reject proofs whose trace openings are not
 authenticated

---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..bd6c18f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From ef751369c5c8cfbfac20b85cc9a9770fb6046e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/10] fix: divide DEEP terms at the transition offsets of the
 AIR

---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd6c18f..f229c20 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From 2c69fa7b4944be9bdb964a36cce6f9425394c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 06/10] fix: reject proofs whose parts do not have the required
 sizes

---
 src/starks/frame.rs    |  5 +++
 src/starks/verifier.rs | 73 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 1 deletion(-)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 8c588f7..fa6b228 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -27,6 +27,11 @@ impl<F: IsFFTField> Frame<F> {
         self.row_width
     }
 
+    /// Whether the frame consists of exactly `num_rows` complete rows of `num_columns` elements.
+    pub(crate) fn has_shape(&self, num_rows: usize, num_columns: usize) -> bool {
+        self.row_width == num_columns && num_rows.checked_mul(num_columns) == Some(self.data.len())
+    }
+
     pub fn get_row(&self, row_idx: usize) -> &[FieldElement<F>] {
         let row_offset = row_idx * self.row_width;
         &self.data[row_offset..row_offset + self.row_width]
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f229c20..171cb02 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 #[cfg(not(feature = "test_fiat_shamir"))]
 use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
 use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
+use lambdaworks_crypto::merkle_tree::proof::Proof;
 use log::error;
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -19,7 +20,7 @@ use lambdaworks_math::{
 };
 
 use super::{
-    config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
+    config::{BatchedMerkleTreeBackend, Commitment, FriMerkleTreeBackend},
     domain::Domain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
@@ -559,6 +560,67 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Whether the claimed trace length has trace and evaluation domains in the field.
+fn trace_length_is_supported<F: IsFFTField>(
+    trace_length: usize,
+    proof_options: &ProofOptions,
+) -> bool {
+    let lde_length = trace_length.checked_mul(proof_options.blowup_factor as usize);
+    trace_length > 1
+        && trace_length.is_power_of_two()
+        && matches!(lde_length, Some(length) if length.is_power_of_two()
+            && u64::from(length.trailing_zeros()) <= F::TWO_ADICITY)
+}
+
+/// Whether every part of the proof has the size the AIR and the proof options require,
+/// so that the rest of the verification neither skips a check nor reads a missing part.
+fn proof_has_expected_shape<F, A>(air: &A, proof: &StarkProof<F>) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let context = air.context();
+    let number_of_queries = air.options().fri_number_of_queries;
+    let number_of_roots = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    let number_of_layers = proof.trace_length.trailing_zeros() as usize;
+    let lde_path_length =
+        number_of_layers + (air.options().blowup_factor as usize).trailing_zeros() as usize;
+    let is_layered = |paths: &[Proof<Commitment>]| {
+        paths.len() == number_of_layers
+            && paths
+                .iter()
+                .enumerate()
+                .all(|(k, path)| path.merkle_path.len() == lde_path_length - k)
+    };
+
+    proof
+        .trace_ood_frame_evaluations
+        .has_shape(context.transition_offsets.len(), context.trace_columns)
+        && proof.lde_trace_merkle_roots.len() == number_of_roots
+        && proof.fri_layers_merkle_roots.len() == number_of_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.query_list.iter().all(|query| {
+            is_layered(&query.layers_auth_paths)
+                && is_layered(&query.layers_auth_paths_sym)
+                && query.layers_evaluations.len() == number_of_layers
+                && query.layers_evaluations_sym.len() == number_of_layers
+        })
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_composition_poly_proof.merkle_path.len() == lde_path_length
+                && opening.lde_trace_merkle_proofs.len() == number_of_roots
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .all(|path| path.merkle_path.len() == lde_path_length)
+                && opening.lde_trace_evaluations.len() == context.trace_columns
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -574,6 +636,11 @@ where
         return false;
     }
 
+    if !trace_length_is_supported::<F>(proof.trace_length, proof_options) {
+        error!("Unsupported trace length");
+        return false;
+    }
+
     #[cfg(feature = "instruments")]
     println!("- Started step 1: Recover challenges");
     #[cfg(feature = "instruments")]
@@ -581,6 +648,10 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
+    if !proof_has_expected_shape(&air, proof) {
+        error!("Proof does not have the shape the AIR requires");
+        return false;
+    }
     let domain = Domain::new(&air);
 
     let challenges =
-- 
2.43.0


From d1e888dd878688b44ba7b2bd3cc3a6646dc6262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 07/10] fix: reject boundary constraints beyond the claimed
 trace length

---
 src/starks/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 171cb02..d1f36e8 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -222,6 +222,14 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     //let n_trace_cols = air.context().trace_columns;
     // special cases.
     let trace_length = air.trace_length();
+    // A step outside of the claimed trace would wrap around and constrain another row
+    if boundary_constraints
+        .constraints
+        .iter()
+        .any(|constraint| constraint.step >= trace_length)
+    {
+        return false;
+    }
     let composition_poly_degree_bound = air.composition_poly_degree_bound();
     let boundary_term_degree_adjustment = composition_poly_degree_bound - trace_length;
     let number_of_b_constraints = boundary_constraints.constraints.len();
-- 
2.43.0


From dfe41b339854976d9756f35c9e75de15c5b49f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 08/10] fix: expect range-check builtin columns only for a
 range-check segment

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index eb4e1b5..e2ddc47 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -624,7 +624,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From 67f9938d4482ce6f3a63a1b1e7c4bfee2eedbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 09/10] fix: fill memory holes next to the program when there
 is an output segment

---
 src/cairo/execution_trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..14ae366 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -64,6 +64,9 @@ pub fn build_main_trace(
     let mut address_cols = main_trace
         .get_cols(&[FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR])
         .table;
+    // The cells of the public memory are added in a posterior step of the protocol, so their
+    // addresses are not holes. They may include an output segment outside of the program.
+    address_cols.extend(public_input.public_memory.keys());
     address_cols.sort_by_key(|x| x.representative());
 
     let (rc_holes, rc_min, rc_max) = get_rc_holes(&main_trace, &[OFF_DST, OFF_OP0, OFF_OP1]);
@@ -71,7 +74,7 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    let mut memory_holes = get_memory_holes(&address_cols, 0);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From 514862b8e391181edd4903197872f735bba7a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 10/10] fix: bind the initial fp of Cairo proofs to the public
 inputs

---
 src/cairo/air.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index e2ddc47..514e395 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -776,7 +776,8 @@ impl AIR for CairoAIR {
     /// These are part of the register constraints.
     ///
     /// Boundary constraints:
-    ///  * ap_0 = fp_0 = ap_i
+    ///  * ap_0 = ap_i
+    ///  * fp_0 = fp_i
     ///  * ap_t = ap_f
     ///  * pc_0 = pc_i
     ///  * pc_t = pc_f
@@ -786,6 +787,7 @@ impl AIR for CairoAIR {
     ) -> BoundaryConstraints<Self::Field> {
         let initial_pc = BoundaryConstraint::new(MEM_A_TRACE_OFFSET, 0, self.pub_inputs.pc_init);
         let initial_ap = BoundaryConstraint::new(MEM_P_TRACE_OFFSET, 0, self.pub_inputs.ap_init);
+        let initial_fp = BoundaryConstraint::new(FRAME_FP, 0, self.pub_inputs.fp_init);
 
         let final_pc = BoundaryConstraint::new(
             MEM_A_TRACE_OFFSET,
@@ -843,6 +845,7 @@ impl AIR for CairoAIR {
         let constraints = vec![
             initial_pc,
             initial_ap,
+            initial_fp,
             final_pc,
             final_ap,
             permutation_final_constraint,
-- 
2.43.0

