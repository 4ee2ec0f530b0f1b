From b1602c6bddc9519615e63a31388f57de99151266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 01/17] fix: verifier discarded the result of the trace
 openings check

---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..bd6c18f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From 973af12aa2afeef8a87da354e4d7038013c6b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 02/17] fix: verifier used frame row indices instead of
 transition offsets in the DEEP divisors

---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd6c18f..f229c20 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From 57144b4cdd309ffb310bf8d8af19e0566f67e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 03/17] fix: verifier rejects malformed proofs instead of
 panicking or skipping checks

Missing or extra queries, openings, FRI layers, trace commitments or frame
rows, and trace lengths without an evaluation domain, either crashed the
verifier or were silently left unchecked (a proof with no FRI layers and no
openings was accepted).
---
 src/starks/frame.rs    |  5 +++
 src/starks/verifier.rs | 73 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 8c588f7..87505b8 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -27,6 +27,11 @@ impl<F: IsFFTField> Frame<F> {
         self.row_width
     }
 
+    /// Whether the frame consists of exactly `num_rows` rows of `num_columns` elements.
+    pub fn has_shape(&self, num_rows: usize, num_columns: usize) -> bool {
+        self.row_width == num_columns && self.data.len() == num_rows * num_columns
+    }
+
     pub fn get_row(&self, row_idx: usize) -> &[FieldElement<F>] {
         let row_offset = row_idx * self.row_width;
         &self.data[row_offset..row_offset + self.row_width]
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f229c20..7627315 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -559,6 +559,69 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that the trace length claimed by the prover gives evaluation domains that exist.
+fn is_valid_trace_length<F: IsFFTField>(trace_length: usize, proof_options: &ProofOptions) -> bool {
+    trace_length.is_power_of_two()
+        && trace_length
+            .checked_mul(proof_options.blowup_factor as usize)
+            .map_or(false, |lde_length| {
+                F::get_primitive_root_of_unity(lde_length.trailing_zeros() as u64).is_ok()
+            })
+}
+
+/// Checks that every part of the proof is present and has the size that the AIR and
+/// the proof options demand. The rest of the verifier relies on it.
+fn is_well_formed<F, A>(air: &A, proof: &StarkProof<F>, proof_options: &ProofOptions) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let root_order = air.trace_length().trailing_zeros() as usize;
+    let lde_root_order =
+        (air.trace_length() * proof_options.blowup_factor as usize).trailing_zeros() as usize;
+    let trace_columns = air.context().trace_columns;
+    let number_of_trace_trees = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    // The first layer is always present
+    let number_of_layers = root_order.max(1);
+    let number_of_queries = proof_options.fri_number_of_queries;
+
+    proof.lde_trace_merkle_roots.len() == number_of_trace_trees
+        && proof
+            .trace_ood_frame_evaluations
+            .has_shape(air.context().transition_offsets.len(), trace_columns)
+        && proof.fri_layers_merkle_roots.len() == number_of_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.query_list.iter().all(|query| {
+            query.layers_evaluations.len() == number_of_layers
+                && query.layers_evaluations_sym.len() == number_of_layers
+                && query.layers_auth_paths.len() == number_of_layers
+                && query.layers_auth_paths_sym.len() == number_of_layers
+                && query
+                    .layers_auth_paths
+                    .iter()
+                    .zip(&query.layers_auth_paths_sym)
+                    .enumerate()
+                    .all(|(k, (path, path_sym))| {
+                        path.merkle_path.len() == lde_root_order - k
+                            && path_sym.merkle_path.len() == lde_root_order - k
+                    })
+        })
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_trace_evaluations.len() == trace_columns
+                && opening.lde_composition_poly_proof.merkle_path.len() == lde_root_order
+                && opening.lde_trace_merkle_proofs.len() == number_of_trace_trees
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .all(|proof| proof.merkle_path.len() == lde_root_order)
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -569,8 +632,8 @@ where
     A: AIR<Field = F>,
     FieldElement<F>: ByteConversion,
 {
-    // Verify there are enough queries
-    if proof.query_list.len() < proof_options.fri_number_of_queries {
+    if !is_valid_trace_length::<F>(proof.trace_length, proof_options) {
+        error!("Invalid trace length");
         return false;
     }
 
@@ -581,6 +644,12 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
+
+    if !is_well_formed(&air, proof, proof_options) {
+        error!("Malformed proof");
+        return false;
+    }
+
     let domain = Domain::new(&air);
 
     let challenges =
-- 
2.43.0


From 6f3d36e210b26a3a664dfa5a4d9f34aede7f420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 04/17] fix: verifier memory is no longer proportional to the
 trace length claimed by the proof

The verifier built both evaluation domains, so a short proof claiming a trace
of 2^40 rows exhausted the memory.
---
 src/starks/domain.rs   |  2 --
 src/starks/verifier.rs | 76 ++++++++++++++++++++++++++++++------------
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/starks/domain.rs b/src/starks/domain.rs
index d35b2f6..2efc17e 100644
--- a/src/starks/domain.rs
+++ b/src/starks/domain.rs
@@ -8,7 +8,6 @@ use super::traits::AIR;
 pub struct Domain<F: IsFFTField> {
     pub(crate) root_order: u32,
     pub(crate) lde_roots_of_unity_coset: Vec<FieldElement<F>>,
-    pub(crate) lde_root_order: u32,
     pub(crate) trace_primitive_root: FieldElement<F>,
     pub(crate) trace_roots_of_unity: Vec<FieldElement<F>>,
     pub(crate) coset_offset: FieldElement<F>,
@@ -46,7 +45,6 @@ impl<F: IsFFTField> Domain<F> {
         Self {
             root_order,
             lde_roots_of_unity_coset,
-            lde_root_order,
             trace_primitive_root,
             trace_roots_of_unity,
             blowup_factor,
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 7627315..abcc8d7 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -20,12 +20,11 @@ use lambdaworks_math::{
 
 use super::{
     config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
-    domain::Domain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
     proof::{options::ProofOptions, stark::StarkProof},
     traits::AIR,
-    transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
+    transcript::{batch_sample_challenges, transcript_to_field, transcript_to_usize},
 };
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -39,6 +38,44 @@ fn step_1_transcript_initialization() -> DefaultTranscript {
     DefaultTranscript::new()
 }
 
+/// What the verifier needs to know about the evaluation domains. Their elements are
+/// computed when they are needed: the trace length is claimed by the prover, so the
+/// domains can't be assumed to fit in memory.
+struct VerifierDomain<F: IsFFTField> {
+    root_order: u32,
+    lde_root_order: u32,
+    trace_primitive_root: FieldElement<F>,
+    lde_primitive_root: FieldElement<F>,
+    coset_offset: FieldElement<F>,
+}
+
+impl<F: IsFFTField> VerifierDomain<F> {
+    fn new<A: AIR<Field = F>>(air: &A) -> Self {
+        let root_order = air.trace_length().trailing_zeros();
+        let lde_root_order =
+            (air.trace_length() * air.options().blowup_factor as usize).trailing_zeros();
+        Self {
+            root_order,
+            lde_root_order,
+            trace_primitive_root: F::get_primitive_root_of_unity(root_order as u64).unwrap(),
+            lde_primitive_root: F::get_primitive_root_of_unity(lde_root_order as u64).unwrap(),
+            coset_offset: FieldElement::from(air.options().coset_offset),
+        }
+    }
+
+    /// The element of the LDE domain at position `index`.
+    fn lde_element(&self, index: usize) -> FieldElement<F> {
+        &self.coset_offset * self.lde_primitive_root.pow(index)
+    }
+
+    /// Whether `value` belongs to the trace domain or to the LDE domain.
+    fn contains(&self, value: &FieldElement<F>) -> bool {
+        let lde_length = 2_usize.pow(self.lde_root_order);
+        value.pow(2_usize.pow(self.root_order)) == FieldElement::one()
+            || value.pow(lde_length) == self.coset_offset.pow(lde_length)
+    }
+}
+
 struct Challenges<F, A>
 where
     F: IsFFTField,
@@ -59,7 +96,7 @@ where
 fn step_1_replay_rounds_and_recover_challenges<F, A, T>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     transcript: &mut T,
 ) -> Challenges<F, A>
 where
@@ -122,11 +159,12 @@ where
     // ===================================
 
     // >>>> Send challenge: z
-    let z = sample_z_ood(
-        &domain.lde_roots_of_unity_coset,
-        &domain.trace_roots_of_unity,
-        transcript,
-    );
+    let z = loop {
+        let value = transcript_to_field(transcript);
+        if !domain.contains(&value) {
+            break value;
+        }
+    };
 
     // <<<< Receive value: H₁(z²)
     transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
@@ -208,7 +246,7 @@ where
 fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool {
     // BEGIN TRACE <-> Composition poly consistency evaluation check
@@ -267,9 +305,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     let denominator = (&challenges.z.pow(trace_length) - FieldElement::<F>::one()).inv();
 
     let exemption = air
-        .transition_exemptions_verifier(
-            domain.trace_roots_of_unity.iter().last().expect("has last"),
-        )
+        .transition_exemptions_verifier(&domain.trace_primitive_root.inv())
         .iter()
         .map(|poly| poly.evaluate(&challenges.z))
         .collect::<Vec<FieldElement<F>>>();
@@ -318,7 +354,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
 
 fn step_3_verify_fri<F, A>(
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -331,8 +367,7 @@ where
     let mut evaluation_point_inverse = challenges
         .iotas
         .iter()
-        .map(|iota| &domain.lde_roots_of_unity_coset[*iota])
-        .cloned()
+        .map(|iota| domain.lde_element(*iota))
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut evaluation_point_inverse);
     proof
@@ -358,7 +393,7 @@ where
 fn step_4_verify_deep_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -369,7 +404,7 @@ where
     let mut denom_inv = challenges
         .iotas
         .iter()
-        .map(|iota_n| &domain.lde_roots_of_unity_coset[*iota_n] - z_squared)
+        .map(|iota_n| domain.lde_element(*iota_n) - z_squared)
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut denom_inv);
 
@@ -428,8 +463,7 @@ where
                     .transition_offsets
                     .iter()
                     .map(|offset| {
-                        &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(*offset)
+                        domain.lde_element(*iota_n) - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
@@ -448,7 +482,7 @@ fn verify_query_and_sym_openings<F: IsField + IsFFTField>(
     zetas: &[FieldElement<F>],
     iota: usize,
     fri_decommitment: &FriDecommitment<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     evaluation_point: FieldElement<F>,
     two_inv: &FieldElement<F>,
 ) -> bool
@@ -650,7 +684,7 @@ where
         return false;
     }
 
-    let domain = Domain::new(&air);
+    let domain = VerifierDomain::new(&air);
 
     let challenges =
         step_1_replay_rounds_and_recover_challenges(&air, proof, &domain, &mut transcript);
-- 
2.43.0


From 5599f736f1f3a4378241b0400ac6b7577e0cd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 05/17] fix: decoding truncated Cairo public inputs panicked

---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..eb4e1b5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -331,7 +331,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +354,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From 96e39d5b9f0a888f50fc8c3197607011eb6a801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 06/17] fix: encoding a FRI decommitment without evaluations
 panicked

---
 src/starks/fri/fri_decommit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..e06235d 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,11 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .first()
+            .or(self.layers_evaluations_sym.first())
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From af3de3b82d512c60caf33133cad258b4092454a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 07/17] fix: checked security of proof options

The provable check compared in the wrong direction and took the leading zeros
of the blowup factor for its logarithm; the conjectured one underflowed without
queries and took a blowup factor of zero for 8 bits per query.
---
 src/starks/proof/options.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..c14af36 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,10 +83,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let query_security_bits =
+            Self::num_bits_blowup_factor(blowup_factor).saturating_mul(fri_number_of_queries);
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= query_security_bits.saturating_add(grinding_factor as usize)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -111,11 +112,10 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let query_security_bits =
+            Self::num_bits_blowup_factor(blowup_factor).saturating_mul(fri_number_of_queries) / 2;
 
-        if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
-        {
+        if security_target as usize > query_security_bits.saturating_add(grinding_factor as usize) {
             return Err(InsecureOptionError::SecurityBits);
         }
 
@@ -127,6 +127,15 @@ impl ProofOptions {
         })
     }
 
+    /// Security bits contributed by each query, none for a blowup factor of zero
+    fn num_bits_blowup_factor(blowup_factor: u8) -> usize {
+        if blowup_factor == 0 {
+            0
+        } else {
+            blowup_factor.trailing_zeros() as usize
+        }
+    }
+
     fn check_field_security<F: IsPrimeField>(
         security_target: u8,
     ) -> Result<(), InsecureOptionError> {
-- 
2.43.0


From c97555fe5f34e74602d76f1413592ed4dac46398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 08/17] fix: Cairo verification panicked without range check
 bounds and accepted any step count equal modulo the trace length

---
 src/cairo/air.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index eb4e1b5..5b95d61 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -1182,6 +1182,15 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    // The boundary constraints need the range check bounds and a step inside the trace
+    if pub_input.range_check_min.is_none()
+        || pub_input.range_check_max.is_none()
+        || pub_input.num_steps == 0
+        || pub_input.num_steps > proof.trace_length
+    {
+        return false;
+    }
+
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0


From e402817bf1904352f623e19d32bcc62cdb842084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 09/17] fix: Cairo proofs of runs with an output segment and no
 range check segment crashed the prover

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 5b95d61..df43152 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -624,7 +624,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From f25e12053823134e2d09df81b5389fa653e5a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 10/17] fix: memory holes above the program were not filled in
 Cairo runs with output

---
 src/cairo/execution_trace.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..c2ddd41 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -71,7 +71,13 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    // The output is public memory as well, but it does not belong to the program segment.
+    let output_len = public_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .map_or(0, |range| range.end.saturating_sub(range.start) as usize);
+    let program_len = public_input.public_memory.len().saturating_sub(output_len);
+    let mut memory_holes = get_memory_holes(&address_cols, program_len);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From 861baebf5175d9794f1add819833d763a07326e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 11/17] fix: keep lde_root_order in the prover domain, whose
 tests read it

The field was dropped when the verifier stopped building the evaluation
domains; the prover's own unit tests still use it.
---
 src/starks/domain.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/starks/domain.rs b/src/starks/domain.rs
index 2efc17e..ae53d05 100644
--- a/src/starks/domain.rs
+++ b/src/starks/domain.rs
@@ -8,6 +8,8 @@ use super::traits::AIR;
 pub struct Domain<F: IsFFTField> {
     pub(crate) root_order: u32,
     pub(crate) lde_roots_of_unity_coset: Vec<FieldElement<F>>,
+    #[cfg_attr(not(test), allow(dead_code))]
+    pub(crate) lde_root_order: u32,
     pub(crate) trace_primitive_root: FieldElement<F>,
     pub(crate) trace_roots_of_unity: Vec<FieldElement<F>>,
     pub(crate) coset_offset: FieldElement<F>,
@@ -45,6 +47,7 @@ impl<F: IsFFTField> Domain<F> {
         Self {
             root_order,
             lde_roots_of_unity_coset,
+            lde_root_order,
             trace_primitive_root,
             trace_roots_of_unity,
             blowup_factor,
-- 
2.43.0


From e0fbd5fc2a97a0152cbf4962b03bbc882b725dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 12/17] fix: failing Cairo 1 programs are reported as errors
 instead of panicking

Unparsable contracts, bytecode that is no field element and runs that fail made
run_program unwrap an error; the Cairo 0 path reports them.
---
 src/cairo/runner/run.rs | 51 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 22bfc5b..2e24ea4 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -32,6 +32,8 @@ pub enum Error {
     VirtualMachine(#[from] VirtualMachineError),
     #[error(transparent)]
     Trace(#[from] TraceError),
+    #[error("Failed to parse the casm contract")]
+    CasmContract(#[from] serde_json::Error),
 }
 
 /// Indicates the version of the Cairo program.
@@ -100,19 +102,18 @@ pub fn run_program(
             (vm, runner)
         }
         CairoVersion::V1 => {
-            let casm_contract: CasmContractClass = serde_json::from_slice(program_content).unwrap();
-            let program: Program = casm_contract.clone().try_into().unwrap();
-            let mut runner = CairoRunner::new(
-                &(casm_contract.clone().try_into().unwrap()),
-                layout.as_str(),
-                false,
-            )
-            .unwrap();
+            let casm_contract: CasmContractClass = serde_json::from_slice(program_content)?;
+            let program: Program = casm_contract
+                .clone()
+                .try_into()
+                .map_err(CairoRunError::Program)?;
+            let mut runner = CairoRunner::new(&program, layout.as_str(), false)
+                .map_err(CairoRunError::Runner)?;
             let mut vm = VirtualMachine::new(true);
 
             runner
                 .initialize_function_runner_cairo_1(&mut vm, &[BuiltinName::range_check])
-                .unwrap();
+                .map_err(CairoRunError::Runner)?;
 
             // Implicit Args
             let syscall_segment = MaybeRelocatable::from(vm.add_memory_segment());
@@ -142,18 +143,22 @@ pub fn run_program(
             let builtin_costs: Vec<MaybeRelocatable> =
                 vec![0.into(), 0.into(), 0.into(), 0.into(), 0.into()];
             let builtin_costs_ptr = vm.add_memory_segment();
-            vm.load_data(builtin_costs_ptr, &builtin_costs).unwrap();
+            vm.load_data(builtin_costs_ptr, &builtin_costs)
+                .map_err(VirtualMachineError::from)?;
 
             // Load extra data
-            let core_program_end_ptr = (runner.program_base.unwrap() + program.data_len()).unwrap();
+            let core_program_end_ptr = (runner.program_base.unwrap() + program.data_len())
+                .map_err(VirtualMachineError::from)?;
             let program_extra_data: Vec<MaybeRelocatable> =
                 vec![0x208B7FFF7FFF7FFE.into(), builtin_costs_ptr.into()];
             vm.load_data(core_program_end_ptr, &program_extra_data)
-                .unwrap();
+                .map_err(VirtualMachineError::from)?;
 
             // Load calldata
             let calldata_start = vm.add_memory_segment();
-            let calldata_end = vm.load_data(calldata_start, &args.to_vec()).unwrap();
+            let calldata_end = vm
+                .load_data(calldata_start, &args.to_vec())
+                .map_err(VirtualMachineError::from)?;
 
             // Create entrypoint_args
 
@@ -173,17 +178,15 @@ pub fn run_program(
             // We assume entrypoint 0 for only one function
             let mut run_resources = RunResources::default();
 
-            runner
-                .run_from_entrypoint(
-                    0,
-                    &entrypoint_args,
-                    &mut run_resources,
-                    true,
-                    Some(program.data_len() + program_extra_data.len()),
-                    &mut vm,
-                    &mut hint_processor,
-                )
-                .unwrap();
+            runner.run_from_entrypoint(
+                0,
+                &entrypoint_args,
+                &mut run_resources,
+                true,
+                Some(program.data_len() + program_extra_data.len()),
+                &mut vm,
+                &mut hint_processor,
+            )?;
 
             let _ = runner.relocate(&mut vm, true);
 
-- 
2.43.0


From a29e8bef9f0cd9ef250bbf69b8ace9cfbaf60f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 13/17] fix: the range check segment of Cairo 1 runs was
 reported as empty

Only main runs record a stop pointer, so the values a Cairo 1 function range
checked never reached the range check columns.
---
 src/cairo/runner/run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 2e24ea4..7f13a9c 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -220,7 +220,10 @@ pub fn run_program(
         .get_range_check_builtin()
         .map(|builtin| {
             let (idx, stop_offset) = builtin.get_memory_segment_addresses();
-            let stop_offset = stop_offset.unwrap_or_default();
+            // Function runs (Cairo 1) leave no stop pointer: the segment ends at its last cell
+            let stop_offset = stop_offset
+                .or(vm.get_segment_size(idx))
+                .unwrap_or_default();
             let range_check_base =
                 (0..idx).fold(1, |acc, i| acc + vm.get_segment_size(i).unwrap_or_default());
             let range_check_end = range_check_base + stop_offset;
-- 
2.43.0


From fc04b34d6efa663d2f406f199e7c7afa7d59209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 14/17] fix: an unused cell in the range check segment crashed
 the Cairo prover

---
 src/cairo/execution_trace.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index c2ddd41..cd1ac34 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -367,8 +367,10 @@ fn add_rc_builtin_columns(
     range_check_builtin_range: Range<u64>,
     memory: &CairoMemory,
 ) {
+    // Unused cells of the segment can hold any value, as the memory holes do
+    let unused_cell = FE::zero();
     let range_checked_values: Vec<&FE> = range_check_builtin_range
-        .map(|addr| memory.get(&addr).unwrap())
+        .map(|addr| memory.get(&addr).unwrap_or(&unused_cell))
         .collect();
     let mut rc_trace_columns = decompose_rc_values_into_trace_columns(&range_checked_values);
 
-- 
2.43.0


From b9c8bde02ce4721c89db2bbc75c92365f184b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 15/17] fix: reject statements whose public memory product is
 zero instead of panicking

The public memory is chosen by whoever hands over the proof, so an address can
be picked for the proof's challenges such that its factor in the product is
zero. Inverting the product then panicked in the verifier. There is no final
value of the permutation argument for such a statement, so it gets two
contradictory boundary constraints.
---
 src/cairo/air.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index df43152..93b6e8a 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -810,12 +810,17 @@ impl AIR for CairoAIR {
             .fold(FieldElement::one(), |product, (address, value)| {
                 product
                     * (&rap_challenges.z_memory - (address + &rap_challenges.alpha_memory * value))
-            })
-            .inv();
-        let permutation_final = rap_challenges
-            .z_memory
-            .pow(self.pub_inputs.public_memory.len())
-            * cumulative_product;
+            });
+        // A statement made for the challenges of a proof can make the product zero
+        let has_permutation_final = cumulative_product != FieldElement::zero();
+        let permutation_final = if has_permutation_final {
+            rap_challenges
+                .z_memory
+                .pow(self.pub_inputs.public_memory.len())
+                * cumulative_product.inv()
+        } else {
+            FieldElement::zero()
+        };
         let permutation_final_constraint = BoundaryConstraint::new(
             PERMUTATION_ARGUMENT_COL_3 - builtin_offset,
             final_index,
@@ -840,7 +845,7 @@ impl AIR for CairoAIR {
             FieldElement::from(self.pub_inputs.range_check_max.unwrap() as u64),
         );
 
-        let constraints = vec![
+        let mut constraints = vec![
             initial_pc,
             initial_ap,
             final_pc,
@@ -850,6 +855,14 @@ impl AIR for CairoAIR {
             range_check_min,
             range_check_max,
         ];
+        if !has_permutation_final {
+            // There is no final value: ask for two different ones, which no trace has
+            constraints.push(BoundaryConstraint::new(
+                PERMUTATION_ARGUMENT_COL_3 - builtin_offset,
+                final_index,
+                FieldElement::one(),
+            ));
+        }
 
         BoundaryConstraints::from_constraints(constraints)
     }
-- 
2.43.0


From b805ec3dc30d7aa4fa003831e448e2deb1752743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:57 +0000
Subject: [PATCH 16/17] fix: range check segments with more cells than steps
 lost their last values

The columns of the range check builtin were cut to the number of steps, so
values in cells beyond it were never decomposed and a run with a value above
2^128 there was proved and accepted.
---
 src/cairo/execution_trace.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index cd1ac34..148abdb 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -374,6 +374,13 @@ fn add_rc_builtin_columns(
         .collect();
     let mut rc_trace_columns = decompose_rc_values_into_trace_columns(&range_checked_values);
 
+    // A segment with more cells than steps needs more rows, which repeat the last one
+    let n_rows = trace_cols[0].len().max(range_checked_values.len());
+    trace_cols.iter_mut().for_each(|column| {
+        let last_value = *column.last().unwrap();
+        column.resize(n_rows, last_value)
+    });
+
     // rc decomposition columns are appended with zeros and then pushed to the trace table
     rc_trace_columns.iter_mut().for_each(|column| {
         column.resize(trace_cols[0].len(), FE::zero());
-- 
2.43.0


From 251c5f24fb9cff8bb9d9e1d10dbb93e046b8a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:08 +0000
Subject: [PATCH 17/17] fix: public memory cells that no step accesses made
 Cairo proofs invalid

Memory holes were computed from the accessed addresses alone: a public output
cell without an access was filled with another value, and the gap in front of
an output segment that ends the memory was not filled.
---
 src/cairo/execution_trace.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 148abdb..89e4ae2 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -64,6 +64,8 @@ pub fn build_main_trace(
     let mut address_cols = main_trace
         .get_cols(&[FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR])
         .table;
+    // Public memory is part of the memory, even the cells that no step accesses
+    address_cols.extend(public_input.public_memory.keys().cloned());
     address_cols.sort_by_key(|x| x.representative());
 
     let (rc_holes, rc_min, rc_max) = get_rc_holes(&main_trace, &[OFF_DST, OFF_OP0, OFF_OP1]);
-- 
2.43.0

