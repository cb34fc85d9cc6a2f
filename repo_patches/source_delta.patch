From ab884e9d7b92e9ac6c730a67d8b7bb9027123819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 01/23] fix: serialise curve field elements in the form they
 are deserialised from

The deserialiser reads 32 little-endian bytes of the canonical value, the serialiser wrote the 40
bytes of the internal (Montgomery) limbs, so no element other than zero survived a round trip.
---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 packages/secq256k1/src/field/field_secq.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..9f7cafb 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..d5433df 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
-- 
2.43.0


From af9ef6972932ef89e9baefe9c2da09f5ce73ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 02/23] fix: characteristic bits of the secq256k1 scalar field
 in little-endian order

---
 packages/secq256k1/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..8dbe6f1 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -310,7 +310,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From 786174999390e6cd9b9b8fe13eaaf731f053a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 03/23] fix: no square root for non-squares of the secp256k1
 base field

---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 9f7cafb..5ecd9c1 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -395,7 +395,7 @@ impl Field for FieldElement {
         let res = x223.pow2k(23).mul(&x22).pow2k(6).mul(&x2).pow2k(2);
 
         // Only return Some if it's the square root.
-        CtOption::new(res, Choice::from(1))
+        CtOption::new(res, res.square().ct_eq(self))
     }
 
     fn is_zero_vartime(&self) -> bool {
-- 
2.43.0


From e2572ba9e0c36962f3a4a0cc037722daf82c9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 04/23] Guarded access to the proof system's building blocks
 for verification

---
 packages/Spartan-secq/src/lib.rs | 52 ++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..c2983c2 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -2,6 +2,7 @@
 #![doc = include_str!("../README.md")]
 #![deny(missing_docs)]
 #![allow(clippy::assertions_on_result_states)]
+#![allow(unexpected_cfgs)]
 
 extern crate byteorder;
 extern crate core;
@@ -30,6 +31,57 @@ mod timer;
 mod transcript;
 mod unipoly;
 
+/// Access to the building blocks for external verification; not part of the library's interface
+#[cfg(spartan_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+  pub mod commitments {
+    pub use crate::commitments::*;
+  }
+  pub mod dense_mlpoly {
+    pub use crate::dense_mlpoly::*;
+  }
+  pub mod errors {
+    pub use crate::errors::*;
+  }
+  pub mod group {
+    pub use crate::group::*;
+  }
+  pub mod math {
+    pub use crate::math::*;
+  }
+  pub mod nizk {
+    pub use crate::nizk::*;
+  }
+  pub mod product_tree {
+    pub use crate::product_tree::*;
+  }
+  pub mod r1csinstance {
+    pub use crate::r1csinstance::*;
+  }
+  pub mod r1csproof {
+    pub use crate::r1csproof::*;
+  }
+  pub mod random {
+    pub use crate::random::*;
+  }
+  pub mod scalar {
+    pub use crate::scalar::*;
+  }
+  pub mod sparse_mlpoly {
+    pub use crate::sparse_mlpoly::*;
+  }
+  pub mod sumcheck {
+    pub use crate::sumcheck::*;
+  }
+  pub mod transcript {
+    pub use crate::transcript::*;
+  }
+  pub mod unipoly {
+    pub use crate::unipoly::*;
+  }
+}
+
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
 use merlin::Transcript;
-- 
2.43.0


From 24ab8c5f01af6a659b699b596e729034e11d2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 05/23] Guarded access to the circuit file reader for
 verification

---
 packages/circuit_reader/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..9e7025f 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -1,4 +1,9 @@
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(spartan_verif))]
 mod circom_reader;
+#[cfg(spartan_verif)]
+pub mod circom_reader;
 
 use circom_reader::{load_r1cs_from_bin_file, R1CS};
 use ff::PrimeField;
-- 
2.43.0


From 86d98cd634b62ee4ea6be1f217a3993c340b8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 06/23] fix: pad a system without constraints to two rows, so
 that it can be proved

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index c2983c2..d14ad34 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -203,8 +203,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From 4df0d2bd8b9a450e3ccdd5a6329bbe0c9f0264bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 07/23] fix: read field elements of circuit and witness files
 as little-endian numbers

---
 packages/circuit_reader/src/circom_reader.rs |  4 ++--
 packages/circuit_reader/src/lib.rs           | 13 ++++++++++---
 packages/spartan_wasm/src/wasm.rs            | 11 ++++++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..fd031e2 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -68,8 +68,8 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
+    // the file is little-endian, the representation big-endian
+    for digit in repr.as_mut().iter_mut().rev() {
         *digit = reader.read_u8()?;
     }
     let fr = Fr::from_repr(repr).unwrap();
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 9e7025f..6307f78 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -26,6 +26,13 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
 
+    // the constraint system takes coefficients as little-endian bytes
+    let to_bytes = |coeff: &F| -> [u8; 32] {
+        let mut bytes: [u8; 32] = coeff.to_repr().into();
+        bytes.reverse();
+        bytes
+    };
+
     let mut A = vec![];
     let mut B = vec![];
     let mut C = vec![];
@@ -34,18 +41,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_bytes(coeff);
 
             A.push((i, *j, bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_bytes(coeff);
             B.push((i, *j, bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_bytes(coeff);
             C.push((i, *j, bytes));
         }
     }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..cfdc01f 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -21,7 +21,12 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| {
+            // assignments are given as little-endian bytes
+            let mut bytes: [u8; 32] = w.to_repr().into();
+            bytes.reverse();
+            bytes
+        })
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -99,8 +104,8 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
+    // the file is little-endian, the representation big-endian
+    for digit in repr.as_mut().iter_mut().rev() {
         *digit = reader.read_u8()?;
     }
     let fr = Fr::from_repr(repr).unwrap();
-- 
2.43.0


From b1c7ae007551314cfce4570d6c725fdf9aa993f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 08/23] fix: refuse circuit files whose sections are truncated
 or of the wrong size

---
 packages/circuit_reader/src/circom_reader.rs | 34 ++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index fd031e2..62f2107 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -112,16 +112,24 @@ fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(us
 }
 
 fn read_constraints<R: Read, Fr: PrimeField>(
-    mut reader: R,
+    reader: R,
+    size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
-    // todo check section size
+    // the constraints must fill the section exactly
+    let mut reader = reader.take(size);
     let mut vec = Vec::with_capacity(header.n_constraints as usize);
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
+            read_constraint_vec::<_, Fr>(&mut reader)?,
+            read_constraint_vec::<_, Fr>(&mut reader)?,
+            read_constraint_vec::<_, Fr>(&mut reader)?,
+        ));
+    }
+    if reader.limit() != 0 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Invalid constraint section size",
         ));
     }
     Ok(vec)
@@ -162,6 +170,10 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
 
     let num_sections = reader.read_u32::<LittleEndian>()?;
 
+    let position = reader.seek(SeekFrom::Current(0))?;
+    let file_size = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(position))?;
+
     // section type -> file offset
     let mut section_offsets = HashMap::<u32, u64>::new();
     let mut section_sizes = HashMap::<u32, u64>::new();
@@ -171,6 +183,12 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.seek(SeekFrom::Current(0))?;
+        if section_size > file_size.saturating_sub(offset) {
+            return Err(Error::new(
+                ErrorKind::UnexpectedEof,
+                "Section reaches beyond the end of the file",
+            ));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
         reader.seek(SeekFrom::Current(section_size as i64))?;
@@ -195,7 +213,11 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&constraint_type).unwrap(),
     ))?;
-    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(&mut reader, &header)?;
+    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(
+        &mut reader,
+        *section_sizes.get(&constraint_type).unwrap(),
+        &header,
+    )?;
 
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&wire2label_type).unwrap(),
-- 
2.43.0


From 8ae45a04977061118c880621cc502b7a459f921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 09/23] fix: bind the constant and the public inputs when
 converting a circuit

---
 packages/circuit_reader/src/lib.rs | 18 +++++++++++++++---
 packages/spartan_wasm/src/wasm.rs  | 24 +++++++++++++-----------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 6307f78..3348b96 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -26,6 +26,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
 
+    // The columns of the constraint system are the variables, the constant 1 and the public inputs.
+    // Wire 0 of the circuit is the constant, and the public wires follow it; neither may be left to
+    // the prover's assignment.
+    let to_column = |wire: usize| -> usize {
+        assert!(wire < num_vars, "wire {} does not exist", wire);
+        if wire <= num_inputs {
+            num_vars + wire
+        } else {
+            wire
+        }
+    };
+
     // the constraint system takes coefficients as little-endian bytes
     let to_bytes = |coeff: &F| -> [u8; 32] {
         let mut bytes: [u8; 32] = coeff.to_repr().into();
@@ -43,17 +55,17 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         for (j, coeff) in a.iter() {
             let bytes = to_bytes(coeff);
 
-            A.push((i, *j, bytes));
+            A.push((i, to_column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
             let bytes = to_bytes(coeff);
-            B.push((i, *j, bytes));
+            B.push((i, to_column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
             let bytes = to_bytes(coeff);
-            C.push((i, *j, bytes));
+            C.push((i, to_column(*j), bytes));
         }
     }
 
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index cfdc01f..b06240d 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -39,11 +39,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut input = Vec::new();
-    for i in 0..num_inputs {
-        input.push(public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-    let input = Assignment::new(&input).unwrap();
+    let input = load_public_inputs(public_inputs, num_inputs);
 
     let mut prover_transcript = Transcript::new(b"nizk_example");
 
@@ -71,12 +67,7 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut inputs = Vec::new();
-    for i in 0..num_inputs {
-        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-
-    let inputs = Assignment::new(&inputs).unwrap();
+    let inputs = load_public_inputs(public_input, num_inputs);
 
     let mut verifier_transcript = Transcript::new(b"nizk_example");
 
@@ -101,6 +92,17 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
     Ok(result.to_bytes().to_vec())
 }
 
+// Public inputs are 32 big-endian bytes each; assignments are given as little-endian bytes
+fn load_public_inputs(bytes: &[u8], num_inputs: usize) -> Assignment {
+    let mut inputs = Vec::new();
+    for i in 0..num_inputs {
+        let mut input: [u8; 32] = bytes[(i * 32)..((i + 1) * 32)].try_into().unwrap();
+        input.reverse();
+        inputs.push(input);
+    }
+    Assignment::new(&inputs).unwrap()
+}
+
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
-- 
2.43.0


From a749df4c5ffa4f47c8014e69d75c5a804485e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 10/23] fix: the batched product argument takes exactly one
 dot-product claim triple per instance

Surplus entries in the proof's claims_dotp vectors were not looked at, so a
proof could be altered and still be accepted.
---
 packages/Spartan-secq/src/product_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..15db3d5 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -436,6 +436,10 @@ impl ProductCircuitEvalProofBatched {
       if i == num_layers - 1 {
         let num_prod_instances = claims_prod_vec.len();
         let (claims_dotp_left, claims_dotp_right, claims_dotp_weight) = &self.claims_dotp;
+        assert_eq!(claims_dotp_left.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_right.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_weight.len(), claims_dotp_vec.len());
+
         for i in 0..claims_dotp_left.len() {
           transcript.append_scalar(b"claim_dotp_left", &claims_dotp_left[i]);
           transcript.append_scalar(b"claim_dotp_right", &claims_dotp_right[i]);
-- 
2.43.0


From 50c13bbf0f8fc237728f06487dbcd310a9f45083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:19 +0000
Subject: [PATCH 11/23] fix: an inner-product proof has as many right as left
 messages

verification_scalars only looked at the number of left messages. With one
more right message than that, the surplus one, which is not part of the
transcript, took the place of the statement's commitment in the final
check, so that proofs of false statements could be made.
---
 packages/Spartan-secq/src/nizk/bullet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..08ad895 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -166,6 +166,9 @@ impl BulletReductionProof {
     if n != (1 << lg_n) {
       return Err(ProofVerifyError::InternalError);
     }
+    if self.R_vec.len() != lg_n {
+      return Err(ProofVerifyError::InternalError);
+    }
 
     // 1. Recompute x_k,...,x_1 based on the proof transcript
     let mut challenges = Vec::with_capacity(lg_n);
-- 
2.43.0


From d005518e30db715bb4f530489b0f2066447dbdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 12/23] fix: the committed sum-check has exactly one evaluation
 proof per round

Surplus evaluation proofs were ignored: a proof could be altered by
adding some and was still accepted.
---
 packages/Spartan-secq/src/sumcheck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From c7adbc640bb38138a38eacfee227b5e0704fa4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 13/23] fix: commit to circuits with at most one entry per
 matrix

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..acb3d08 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -297,6 +297,8 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
+    // the dense representation has at least two entries
+    let num_nz_entries = num_nz_entries.max(2);
     let num_vars_ops =
       num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
@@ -381,7 +383,8 @@ impl SparseMatPolynomial {
       .map(|i| sparse_polys[i].get_num_nz_entries())
       .max()
       .unwrap()
-      .next_power_of_two();
+      .next_power_of_two()
+      .max(2); // the product circuits need at least two leaves
 
     let mut ops_row_vec: Vec<Vec<usize>> = Vec::new();
     let mut ops_col_vec: Vec<Vec<usize>> = Vec::new();
-- 
2.43.0


From 5794a356736fccbea109e672a04456bd0436757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 14/23] fix: the hash layer of a sparse evaluation proof has
 one evaluation per instance in every vector

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index acb3d08..99ef4a7 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -914,6 +914,15 @@ impl HashLayerProof {
     // verify derefs at rand_ops
     let (eval_row_ops_val, eval_col_ops_val) = &self.eval_derefs;
     assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
+
+    // every vector has one evaluation per instance: the openings below only see them joined
+    let num_instances = eval_row_ops_val.len();
+    for (addr, read_ts, _audit_ts) in [&self.eval_row, &self.eval_col] {
+      assert_eq!(addr.len(), num_instances);
+      assert_eq!(read_ts.len(), num_instances);
+    }
+    assert_eq!(self.eval_val.len(), num_instances);
+
     self.proof_derefs.verify(
       rand_ops,
       eval_row_ops_val,
-- 
2.43.0


From f3feffe3ff02837cdbde0deaba1d617e347ed298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 15/23] fix: a sparse evaluation proof has as many right as
 left dot products

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 99ef4a7..a629339 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1280,7 +1280,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
-- 
2.43.0


From 848295e95993249adb64c445e0be80022cecb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 16/23] fix: complete addition of points whose ordinates sum to
 one

Secp256k1AddComplete took yP + yQ = 1 with xP != xQ for the case of
opposite points, and returned the point at infinity.
---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..9adc070 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -100,9 +100,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From c0aa795d2c77f809bfdebe6666cd46c16636161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 17/23] fix: bind the chord's slope in complete addition when
 the abscissas are equal

With xP = xQ the only constraint on lambdaA was 0 * lambdaA === 0, so a
prover could choose it and with it the doubled point.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index 9adc070..19457e1 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -74,6 +74,8 @@ template Secp256k1AddComplete() {
     signal dy <== (yQ - yP) * (1 - isXEqual.out);
     signal lambdaA <-- ((yQ - yP) / dx) * (1 - isXEqual.out);
     dx * lambdaA === dy;
+    // when xP = xQ the above holds for any lambdaA
+    lambdaA * isXEqual.out === 0;
 
     // lambdaB = (3 * xP^2) / (2 * yP)
     signal lambdaB <-- ((3 * xPSquared) / (2 * yP));
-- 
2.43.0


From 30afed7841e38a66a78148fb1ec352b8bd369d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 18/23] fix: keep the carry of the low halves when the scalar's
 quotient is zero

K subtracted from slo + tQlo rather than from its low 128 bits, and left the
carry out of the high half, so that the multiple was wrong for scalars whose
sum with tQ carries but stays below q.
---
 .../circuits/eff_ecdsa_membership/secp256k1/mul.circom | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..9786c57 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -164,18 +164,18 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < qlo
     component theta = GreaterThan(129);
     theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
     component kloBits = Num2Bits(256);
     kloBits.in <== klo;
-- 
2.43.0


From 335d19fe7ba747f12e55501660555bf7decbdd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 19/23] fix: decompose the halves of K's result into 128 bits

Num2Bits(256) also accepts the bits of the half plus the field's modulus,
of which the upper 128 are dropped.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 9786c57..75f3615 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -177,10 +177,10 @@ template K() {
     signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
     signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From 1806dc86eea15147513dce83c4060ed6e5ed1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 20/23] fix: bind the halves of the scalar in K to the scalar

slo and shi were only hinted.
---
 .../secp256k1/bits.circom                     | 47 +++++++++++++++++++
 .../eff_ecdsa_membership/secp256k1/mul.circom | 14 +++++-
 2 files changed, 59 insertions(+), 2 deletions(-)
 create mode 100644 packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
new file mode 100644
index 0000000..7fef4df
--- /dev/null
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
@@ -0,0 +1,47 @@
+pragma circom 2.1.2;
+
+include "../../../../node_modules/circomlib/circuits/bitify.circom";
+include "../../../../node_modules/circomlib/circuits/comparators.circom";
+
+/**
+ *  FieldToBits
+ *  ===========
+ *
+ *  The 256 bits of a field element. Since the modulus p of the field is less than
+ *  2^256, Num2Bits(256) alone also accepts the bits of in + p when in < 2^256 - p.
+ */
+template FieldToBits() {
+    var bits = 256;
+    signal input in;
+    signal output out[bits];
+
+    var max = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e; // p - 1
+    var maxlo = max & ((2 ** 128) - 1);
+    var maxhi = max >> 128;
+
+    component inBits = Num2Bits(bits);
+    inBits.in <== in;
+
+    component lo = Bits2Num(128);
+    component hi = Bits2Num(128);
+    for (var i = 0; i < 128; i++) {
+        lo.in[i] <== inBits.out[i];
+        hi.in[i] <== inBits.out[i + 128];
+    }
+
+    // The number the bits stand for exceeds p - 1 iff hi = maxhi and lo > maxlo,
+    // as maxhi = 2^128 - 1
+    component hiIsMax = IsEqual();
+    hiIsMax.in[0] <== hi.out;
+    hiIsMax.in[1] <== maxhi;
+
+    component loIsGreater = GreaterThan(128);
+    loIsGreater.in[0] <== lo.out;
+    loIsGreater.in[1] <== maxlo;
+
+    hiIsMax.out * loIsGreater.out === 0;
+
+    for (var i = 0; i < bits; i++) {
+        out[i] <== inBits.out[i];
+    }
+}
diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 75f3615..96865f0 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -2,6 +2,7 @@ pragma circom 2.1.2;
 
 include "./add.circom";
 include "./double.circom";
+include "./bits.circom";
 include "../../../../node_modules/circomlib/circuits/bitify.circom";
 include "../../../../node_modules/circomlib/circuits/comparators.circom";
 include "../../../../node_modules/circomlib/circuits/gates.circom";
@@ -120,8 +121,17 @@ template K() {
     var tQ = 115792089237316195423570985008687907852405143892509244725752742275123193348738; // (q - 2^256) % q;
     var tQlo = tQ & (2 ** (128) - 1);
     var tQhi = tQ >> 128;
-    signal slo <-- s & (2 ** (128) - 1);
-    signal shi <-- s >> 128;
+    component sBits = FieldToBits();
+    sBits.in <== s;
+
+    component sloNum = Bits2Num(128);
+    component shiNum = Bits2Num(128);
+    for (var i = 0; i < 128; i++) {
+        sloNum.in[i] <== sBits.out[i];
+        shiNum.in[i] <== sBits.out[i + 128];
+    }
+    signal slo <== sloNum.out;
+    signal shi <== shiNum.out;
 
     // Get carry bit of (slo + tQlo)
 
-- 
2.43.0


From 8c2589950a6502173dec39782d5f2398cba45c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:45 +0000
Subject: [PATCH 21/23] fix: hash the canonical bits of the public key's
 coordinates

Num2Bits(256) also accepts the bits of a coordinate plus the field's modulus
when the coordinate is below 2^256 - p, which gives a second address.
---
 .../circuits/eff_ecdsa_membership/addr_membership.circom     | 5 +++--
 .../circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/addr_membership.circom b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
index b4d9f27..00ea599 100644
--- a/packages/circuits/eff_ecdsa_membership/addr_membership.circom
+++ b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./tree.circom";
 include "./to_address/zk-identity/eth.circom";
 
@@ -32,10 +33,10 @@ template AddrMembership(nLevels) {
     effEcdsa.Uy <== Uy;
     effEcdsa.s <== s;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = FieldToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = FieldToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
index 0c54599..640bbbc 100644
--- a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
+++ b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./to_address/zk-identity/eth.circom";
 
 /**
@@ -25,10 +26,10 @@ template EfficientECDSAToAddr() {
     effEcdsa.Ux <== Ux;
     effEcdsa.Uy <== Uy;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = FieldToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = FieldToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
-- 
2.43.0


From d93168c4c4bd3bc856aa357ff26a367c354a892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 22/23] fix: start every Poseidon hash at the first round key

hash left the position after the last round key, so that a second hash with the
same object ran past the end of the keys.
---
 packages/poseidon/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..9c7e033 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,7 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From 1dd3273a225aa4ce93ce966d2e821f9e903ea6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:25 +0000
Subject: [PATCH 23/23] fix: bytesLeToBigInt reversed the caller's bytes in
 place

---
 packages/lib/src/helpers/utils.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 60f7c97..887a72a 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -46,7 +46,8 @@ export const bytesToBigInt = (bytes: Uint8Array): bigint =>
   BigInt("0x" + Buffer.from(bytes).toString("hex"));
 
 export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
-  const reversed = bytes.reverse();
+  // reverse() works in place; the caller's bytes stay as they are
+  const reversed = Uint8Array.from(bytes).reverse();
   return bytesToBigInt(reversed);
 };
 
-- 
2.43.0

