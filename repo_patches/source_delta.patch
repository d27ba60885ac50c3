From 5deead9931342a6d88093c146bcb88ef22aaff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 01/16] fix: add_cts refuses ciphertexts of different length

It panicked when the second one was shorter and silently dropped the tail when it was longer.
---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..560be57 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -459,6 +459,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if ct2.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, ct2.len()));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From 9184c436a2d46320953f19d490ab05b0c542275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 02/16] fix: combine_re_encrypt_share refuses shares of
 different length

It panicked when the second share was shorter and silently dropped the tail when it was longer.
---
 src/encryption.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 560be57..be282f3 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -421,6 +421,10 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(w1.len(), w2.len()));
+        }
+
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
-- 
2.43.0


From 3f2bb5b133d58d672c63746e9dc5aee7ef48d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 03/16] fix: combine_ct_with_w refuses a share that does not
 match the ciphertext

It panicked on a short share and ignored the tail of a long one.
---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index be282f3..469eaa2 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -445,6 +445,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if w.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, w.len()));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
-- 
2.43.0


From 45014747d837a0c1214d0a0209b34ff8ad12cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 04/16] fix: re_encrypt_share refuses a ciphertext that does
 not match the secret key

It panicked when the ciphertext had more chunks than the key and silently produced a partial share when it had fewer.
---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 469eaa2..392a201 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -399,6 +399,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if sk.s.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, sk.s.len()));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
-- 
2.43.0


From 5eebfce76c00fca8f9efe25b16c99d87880c45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/16] fix: off-by-one in the bounds checks on precomputed
 pairing powers

Decryption panicked instead of returning InvalidPairingPowers when a table was one entry short.
---
 src/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 392a201..4e37470 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -561,12 +561,12 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
+            if pairing_powers[chunk_index].len() <= j {
                 return Err(SaverError::InvalidPairingPowers);
             }
             if pairing_powers[chunk_index][j] == p {
-- 
2.43.0


From d56303f769228cd9f0f2f793d86f5779b055e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 06/16] fix: verify_commitments_in_batch panicked on empty or
 mismatched input

A wrong number of weights is an error and an empty batch holds trivially.
---
 src/encryption.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 4e37470..58e89a1 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -255,7 +255,12 @@ impl<E: Pairing> Encryption<E> {
         ek: impl Into<PreparedEncryptionKey<E>>,
         gens: impl Into<PreparedEncryptionGens<E>>,
     ) -> crate::Result<()> {
-        assert_eq!(r_powers.len(), ciphertexts.len());
+        if r_powers.len() != ciphertexts.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                ciphertexts.len(),
+                r_powers.len(),
+            ));
+        }
         let ek = ek.into();
         let gens = gens.into();
         let expected_count = ek.supported_chunks_count()? as usize;
@@ -268,6 +273,10 @@ impl<E: Pairing> Encryption<E> {
             }
         }
 
+        if ciphertexts.is_empty() {
+            return Ok(());
+        }
+
         let a =
             Self::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(ciphertexts, r_powers);
         let b = Self::get_g2_for_ciphertext_commitment_pairing_checks(&ek, &gens);
-- 
2.43.0


From c7f688432fb05290bcbbc65b063580f6b2842c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/16] fix: pairing_powers refuses too few generators instead
 of panicking

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..6c94a42 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
+        }
         let chunk_max_val = (1 << chunk_bit_size) - 1;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From 8eed5289957a824531f2a612298415e1bba60f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 08/16] fix: shift overflow for chunk sizes beyond the chunk
 type

`1 << chunk_bit_size` panicked (or wrapped to 1, making everything undecryptable) from 32 bits on, and pairing_powers tried to allocate 2^31 entries.
---
 src/encryption.rs | 10 +++++-----
 src/keygen.rs     |  4 ++--
 src/utils.rs      |  9 +++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 58e89a1..822eb25 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -326,7 +326,7 @@ impl<E: Pairing> Encryption<E> {
         let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());
         let c_0_rho_prepared = E::G1Prepared::from(c_0_rho.into_affine());
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::chunk_max_value(chunk_bit_size);
         let pairing_powers = if let Some(p) = pairing_powers { p } else { &[] };
         for i in 0..n {
             let p = E::multi_pairing(
@@ -342,14 +342,14 @@ impl<E: Pairing> Encryption<E> {
                 // Precomputed powers are not provided, compute the necessary pairings
                 let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[i]), dk.V_2[i].clone());
                 decrypted_chunks.push(Self::solve_discrete_log(
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     g_i_v_i,
                     p,
                 )?);
             } else {
                 decrypted_chunks.push(Self::solve_discrete_log_using_pairing_powers(
                     i,
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     p,
                     pairing_powers,
                 )?);
@@ -510,14 +510,14 @@ impl<E: Pairing> Encryption<E> {
         .collect::<Vec<_>>();
 
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::chunk_max_value(chunk_bit_size);
         for i in 0..n {
             if gi_mi[i].is_zero() {
                 decrypted_chunks.push(0);
                 continue;
             }
             decrypted_chunks.push(Self::solve_discrete_log_for_g(
-                chunk_max_val as CHUNK_TYPE,
+                chunk_max_val,
                 &g_i[i],
                 &gi_mi[i],
             )?)
diff --git a/src/keygen.rs b/src/keygen.rs
index 6c94a42..26025c8 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -20,7 +20,7 @@ use zeroize::{Zeroize, ZeroizeOnDrop};
 #[cfg(feature = "parallel")]
 use rayon::prelude::*;
 
-use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunks_count, multiply_field_elems_with_same_group_elem}, serde_utils::*};
+use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunk_max_value, chunks_count, multiply_field_elems_with_same_group_elem}, serde_utils::*};
 
 /// Used to decrypt
 #[serde_as]
@@ -288,7 +288,7 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         if n > g_i.len() {
             return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
         }
-        let chunk_max_val = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = chunk_max_value(chunk_bit_size);
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
             // Powers of `g_i_v_i` will be created
diff --git a/src/utils.rs b/src/utils.rs
index ffd5d31..aeab4eb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -25,6 +25,15 @@ pub fn chunks_count<F: PrimeField>(chunk_bit_size: u8) -> u8 {
 
 pub type CHUNK_TYPE = u16;
 
+/// Largest value of a chunk of `chunk_bit_size` bits. Chunks are never larger than `CHUNK_TYPE::MAX`.
+pub fn chunk_max_value(chunk_bit_size: u8) -> CHUNK_TYPE {
+    if chunk_bit_size as u32 >= CHUNK_TYPE::BITS {
+        CHUNK_TYPE::MAX
+    } else {
+        (1 << chunk_bit_size) - 1
+    }
+}
+
 /// Given an element `F`, break it into chunks where each chunk is of `chunk_bit_size` bits. This is
 /// essentially an n-ary representation where n is `chunk_bit_size`. Returns big-endian representation.
 pub fn decompose<F: PrimeField>(message: &F, chunk_bit_size: u8) -> crate::Result<Vec<CHUNK_TYPE>> {
-- 
2.43.0


From 61cc5bba83eb7a33f8e8e1900433f52048782515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 09/16] fix: supported_chunks_count truncated the count of
 oversized keys

A key with 256 + n entries was taken for one with n and encryption panicked.
---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 26025c8..c4998e7 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From a4012c25561a48acb318bcd08b1364a42017b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 10/16] fix: refuse a chunk size of 0 bits instead of dividing
 by zero

---
 src/keygen.rs | 6 ++++++
 src/setup.rs  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index c4998e7..d5131c5 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -321,6 +321,9 @@ pub fn FkeygenPartial<R: RngCore, E: Pairing>(
     SecretKeyST<E>,
     FEncryptionKeyPartial<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     let n = chunks_count::<E::ScalarField>(chunk_bit_size) as usize;
     if n > g_i.len() {
         return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
@@ -488,6 +491,9 @@ pub fn keygen<R: RngCore, E: Pairing>(
     EncryptionKey<E>,
     DecryptionKey<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     let n = chunks_count::<E::ScalarField>(chunk_bit_size) as usize;
     if n > g_i.len() {
         return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
diff --git a/src/setup.rs b/src/setup.rs
index f3595c3..8889d63 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -8,6 +8,7 @@ use serde_with::serde_as;
 
 use crate::{
     circuit::BitsizeCheckCircuit,
+    error::SaverError,
     keygen::{keygen, DecryptionKey, EncryptionKey, SecretKey},
     saver_groth16,
     concat_slices,
@@ -101,6 +102,9 @@ pub fn setup_for_groth16<E: Pairing, R: RngCore>(
     EncryptionKey<E>,
     DecryptionKey<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     // Create SNARK SRS
     let circuit = BitsizeCheckCircuit::new(chunk_bit_size, None, None, true);
     let proving_key = saver_groth16::generate_srs::<E, R, _>(circuit, enc_gens, rng)?;
-- 
2.43.0


From 9e381dcada7545c40a67b6702aa2d16b31f88b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 11/16] fix: chunk sizes above the field size made the circuit
 panic

---
 src/circuit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6236abe..32b3de8 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -74,7 +74,7 @@ impl<ConstraintF: PrimeField> ConstraintSynthesizer<ConstraintF>
             let bits = v.to_non_unique_bits_le()?;
             // If all bits beyond `self.required_bit_size` are 0, then their OR must be 0 as well.
             let mut or_result = Boolean::constant(false);
-            for b in bits[self.required_bit_size as usize..].iter() {
+            for b in bits.iter().skip(self.required_bit_size as usize) {
                 or_result = or_result.or(b)?;
             }
             or_result.enforce_equal(&Boolean::constant(false))?;
-- 
2.43.0


From 503208fe34caa1c6777d6a92874177b6d352b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 12/16] fix: a verification key without input elements made
 verification panic

---
 src/saver_groth16.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index f8cb1c4..0ddf02f 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -40,7 +40,7 @@ pub struct ProvingKey<E: Pairing> {
 
 /// These parameters are needed for setting up keys for encryption/decryption
 pub fn get_gs_for_encryption<E: Pairing>(vk: &VerifyingKey<E>) -> &[E::G1Affine] {
-    &vk.gamma_abc_g1[1..]
+    vk.gamma_abc_g1.get(1..).unwrap_or(&[])
 }
 
 /// Generate Groth16 SRS
@@ -121,7 +121,12 @@ pub fn calculate_d<E: Pairing>(
     for c in ciphertext.enc_chunks.iter() {
         d.add_assign(c.into_group())
     }
-    d.add_assign(&pvk.vk.gamma_abc_g1[0]);
+    d.add_assign(
+        pvk.vk
+            .gamma_abc_g1
+            .first()
+            .ok_or(SynthesisError::MalformedVerifyingKey)?,
+    );
     Ok(d.into_affine())
 }
 
-- 
2.43.0


From e417f11281e8d618e843a3026d069373f3574542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 13/16] fix: a commitment under a key of the wrong length
 dropped part of the message

---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..50a42d0 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                decomposed.len(),
+                comm_key.len(),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0


From 58803b5ab9c7cc9036a573a3c7666f0ab3cb9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 14/16] fix: compose silently truncated chunks larger than the
 chunk size

---
 src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index aeab4eb..f5bd828 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -69,6 +69,9 @@ pub fn decompose<F: PrimeField>(message: &F, chunk_bit_size: u8) -> crate::Resul
 /// Recreate a field element back from output of `decompose`. Assumes big-endian representation in `decomposed`
 pub fn compose<F: PrimeField>(decomposed: &[CHUNK_TYPE], chunk_bit_size: u8) -> crate::Result<F> {
     match chunk_bit_size {
+        4 | 8 if decomposed.iter().any(|c| *c > chunk_max_value(chunk_bit_size)) => {
+            Err(SaverError::InvalidDecomposition)
+        }
         4 => {
             if (decomposed.len() % 2) == 1 {
                 return Err(SaverError::InvalidDecomposition);
-- 
2.43.0


From 4bd046606647523a2dd3c9d8e7b6942edb157228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 15/16] fix: commitment keys for chunk sizes of 31 bits and
 more were wrong

---
 src/commitment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commitment.rs b/src/commitment.rs
index 50a42d0..d9b0f48 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -88,7 +88,7 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
     /// Commitment key (vector of all `g`s and `h`) for the chunked commitment
     /// Given a group element `g`, create `chunks_count` multiples of `g` as `g_n, g_{n-1}, ..., g_2, g_1` where each `g_i = {radix^i} * g` and `radix = 2^chunk_bit_ize`
     pub fn commitment_key(gens: &ChunkedCommitmentGens<G>, chunk_bit_size: u8) -> Vec<G> {
-        let radix = (1 << chunk_bit_size) as u64;
+        let radix = 1u64 << chunk_bit_size;
         let chunks = chunks_count::<G::ScalarField>(chunk_bit_size);
         let gs = if radix.is_power_of_two() {
             Self::commitment_key_for_radix_power_of_2(gens.G.into_group(), chunks, radix)
-- 
2.43.0


From 11c4869eec8ab4f8164f701242e5d13e553f16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 16/16] fix: share holders' secret keys were not erased when
 dropped

---
 src/keygen.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index d5131c5..14b6026 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -41,8 +41,18 @@ pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);
 /// sercret key for party i. Used during key generation and re-encryption. 
 #[serde_as]
 #[derive(
-    Clone, PartialEq, Eq, Debug, CanonicalSerialize, CanonicalDeserialize, Serialize, Deserialize,
+    Clone,
+    PartialEq,
+    Eq,
+    Debug,
+    CanonicalSerialize,
+    CanonicalDeserialize,
+    Serialize,
+    Deserialize,
+    Zeroize,
+    ZeroizeOnDrop,
 )]
+#[zeroize(bound = "")]
 pub struct SecretKeyST<E: Pairing>{
     /// `s`
     #[serde_as(as = "Vec<ArkObjectBytes>")]
-- 
2.43.0

