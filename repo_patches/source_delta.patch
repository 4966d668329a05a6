From 68709312aa76e17a2e743a0a51422fa644e49911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 01/16] fix: generate master key components for every attribute
 value up to the creation budget

---
 src/core/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..d7505db 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,9 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
+        // attribute values start at 1 and index the master key components directly
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From 64dc18e20971309fa9f74c40997c7f8a99fb690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 02/16] fix: check attribute values, not their number, against
 the public key when encrypting

---
 src/core/gpsw/scheme.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..605fb5c 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -489,11 +489,12 @@ impl<G: BilinearMap> Gpsw<G> {
         gamma: &[u32],
         pub_key: &GpswMasterPublicKey<G>,
     ) -> Result<GpswCipherText<G>, FormatErr> {
-        if pub_key.t_i.len() <= gamma.len() {
+        if let Some(attr) = gamma.iter().find(|i| **i as usize >= pub_key.t_i.len()) {
             return Err(FormatErr::InternalOperation(format!(
-                "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
-                gamma.len(),
-                pub_key.t_i.len() - 1
+                "invalid attributes: gamma value incorrect (value: {}, number of public key \
+                 elements: {})",
+                attr,
+                pub_key.t_i.len()
             )));
         }
         let s = self.group.gen_random_scalar()?;
-- 
2.43.0


From f4319e2b1e4c10c90b7cdde9fae0e2a24804f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 03/16] fix: refuse delegation when the delegation key lacks an
 attribute

---
 src/core/gpsw/scheme.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 605fb5c..b09b173 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "the delegation key has no element for this attribute".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +466,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "the delegation key has no element for this attribute".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From e9dde3c623cd091a9fce0e62cb39b27d9fa3bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 04/16] fix: refuse zero or overflowing element counts when
 deserializing vectors

---
 src/core/gpsw/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..1441608 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
@@ -74,7 +80,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -83,7 +89,10 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        if (len - 1)
+            .checked_mul(res0_len_bytes)
+            .map_or(true, |size| size >= bytes.len() - 4)
+        {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 6ad3e29657fee539812b196c156eccbf5285e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 05/16] fix: check span program sizes before allocating and
 indexing

---
 src/core/msp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..582c706 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,7 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 || nb_row > (bytes.len() - 8) / 4 {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -72,13 +72,18 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         }
 
         let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        if nb_row
+            .checked_mul(nb_col)
+            .and_then(|n| n.checked_mul(first.len_bytes()))
+            .map_or(true, |size| size > bytes.len() - 8 - (4 * nb_row))
+        {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
         }
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From ac84f4b570263973c52088284bad9e7d583ea674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 06/16] fix: refuse keys and ciphertexts whose element counts
 disagree

---
 src/core/gpsw/scheme.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index b09b173..68ae740 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -159,6 +159,11 @@ impl<G: BilinearMap> AsBytes for GpswMasterPublicDelegationKey<G> {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.is_empty() {
+            return Err(FormatErr::Deserialization(
+                "empty master public delegation key".to_string(),
+            ));
+        }
         let inv_t_i = Vec::<G::G3>::try_from_bytes(bytes)?;
 
         Ok(Self { inv_t_i })
@@ -188,6 +193,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "the number of key elements and span program rows differ".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -216,6 +226,11 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma = Vec::<u32>::try_from_bytes(&bytes[0..])?;
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "the number of ciphertext elements and attributes differ".to_string(),
+            ));
+        }
         let e_i_len = e_i.len_bytes();
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
-- 
2.43.0


From 97237cd5a64f97e047a462bf72d088c0006f0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 07/16] fix: check the symmetric key size when parsing headers

---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..f73d08d 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -39,6 +39,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
@@ -75,6 +78,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `meta_data`
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
-- 
2.43.0


From f67a36534476234b7a584e625c6b1a3a062cc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 08/16] fix: check the sizes of a combined message before
 splitting it

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs  | 2 +-
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..7f024a7 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..62f7bea 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,6 +250,11 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
+    if header_size as usize > encrypted_bytes.len() - 4 {
+        return Err(PyTypeError::new_err(
+            "The encrypted value is shorter than its announced header size",
+        ));
+    }
     let header = &encrypted_bytes[4..4 + header_size as usize];
     let ciphertext = &encrypted_bytes[4 + header_size as usize..];
 
-- 
2.43.0


From 56d0650a06156eb1223237361d3cbd52ec5d56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 09/16] fix: report the required size when a block buffer is
 too small

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 7f024a7..731cda6 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -755,6 +755,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -763,7 +764,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -831,6 +831,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -839,7 +840,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From f6d1dd1ed0dd2fbd4cb1f4ff7a8bab9eccb7ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 10/16] fix: return an error for unknown WebAssembly cache
 handles

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From a934fbf1b044ee3c3d613d408cea0857bbd62561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 11/16] fix: return error messages containing NUL characters

---
 src/interfaces/ffi/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..365f234 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -181,7 +181,7 @@ pub unsafe extern "C" fn get_last_error(
 
     // Build a CString that will cleanup NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 0051c4b93b0f836a75e08210b170dd583f96c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 12/16] fix: refuse null length and handle pointers in the C
 interface

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  3 +++
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..a424d3e 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,6 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(master_keys_len, "Master keys length pointer should not be null");
     if *master_keys_len == 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
@@ -111,6 +112,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(user_private_key_len, "User private key length pointer should not be null");
     if *user_private_key_len == 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
@@ -213,6 +215,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(new_policy_len, "New policy length pointer should not be null");
     if *new_policy_len == 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 731cda6..a71b44c 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,6 +71,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
     if public_key_len == 0 {
@@ -142,6 +143,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -149,6 +151,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Header bytes length pointer should not be null");
     if *header_bytes_len == 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -260,6 +263,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -267,6 +271,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Header bytes length pointer should not be null");
     if *header_bytes_len == 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -398,6 +403,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
@@ -465,6 +471,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -513,7 +520,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +535,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,6 +605,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -648,7 +656,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +671,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,6 +722,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(encrypted_len, "Encrypted bytes length pointer should not be null");
     if *encrypted_len == 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
@@ -786,6 +795,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(clear_text_len, "Clear text length pointer should not be null");
     if *clear_text_len == 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
-- 
2.43.0


From b510ecc3a696f352e70a44c7f2b1019c5d548708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 13/16] fix: serialize empty vectors with their count so that
 they can be reloaded

---
 src/core/gpsw/mod.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 1441608..4bb9fae 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -53,9 +53,6 @@ impl AsBytes for i32 {
 
 impl<T: AsBytes> AsBytes for Vec<T> {
     fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
-        if self.is_empty() {
-            return Ok(Vec::new());
-        }
         // nb element in vector
         let mut bytes = Vec::new();
         let len = u32::try_from(self.len())?.to_be_bytes();
@@ -67,11 +64,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
-        if bytes.is_empty() {
-            return Ok(Self::new());
-        }
-
-        if bytes.len() <= 4 {
+        if bytes.len() < 4 {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data are too small. Data altered?".to_string(),
             ));
@@ -80,7 +73,10 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len == 0 || len >= u32::MAX as usize {
+        if len == 0 {
+            return Ok(Self::new());
+        }
+        if len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -109,11 +105,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
     }
 
     fn len_bytes(&self) -> usize {
-        if self.is_empty() {
-            0
-        } else {
-            4 + (self.len() * self[0].len_bytes())
-        }
+        4 + self.first().map_or(0, |x| self.len() * x.len_bytes())
     }
 }
 
-- 
2.43.0


From 2cd97f8092513f18cb8d720136ba18d86f6d59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 14/16] fix: refuse a policy whose axes name attributes without
 values

---
 src/core/msp.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 582c706..96729c7 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -460,10 +460,15 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
-                .iter()
-                .map(|attr| Node::Leaf(*attr))
-                .reduce(std::ops::BitOr::bitor)
+            let mut val = policy
+                .attribute_to_int
+                .get(attr)
+                .and_then(|values| {
+                    values
+                        .iter()
+                        .map(|attr| Node::Leaf(*attr))
+                        .reduce(std::ops::BitOr::bitor)
+                })
                 .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
             if *hierarchical {
                 for (at, elem) in list.iter().enumerate() {
@@ -471,10 +476,15 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
-                            .iter()
-                            .map(|attr| Node::Leaf(*attr))
-                            .reduce(std::ops::BitOr::bitor)
+                        | policy
+                            .attribute_to_int
+                            .get(&(attr.axis.clone(), elem.clone()).into())
+                            .and_then(|values| {
+                                values
+                                    .iter()
+                                    .map(|attr| Node::Leaf(*attr))
+                                    .reduce(std::ops::BitOr::bitor)
+                            })
                             .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
                 }
             }
-- 
2.43.0


From f4a695c0f1c7dc791857fda127439d661be837bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 15/16] fix: refuse a master private key with null elements

---
 src/core/gpsw/scheme.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 68ae740..957aa1f 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -112,6 +112,12 @@ impl<G: BilinearMap> AsBytes for GpswMasterPrivateKey<G> {
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
         let t_i = Vec::<G::Scalar>::try_from_bytes(bytes)?;
+        // key generation divides by these elements
+        if t_i.iter().any(|t| *t == G::ZERO) {
+            return Err(FormatErr::Deserialization(
+                "null element in a master private key".to_string(),
+            ));
+        }
         let t_i_len = t_i.len_bytes();
         let y = G::Scalar::try_from_bytes(&bytes[t_i_len..])?;
 
-- 
2.43.0


From 7e675305cbf324a0859917f05fa9b996f58b6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 16/16] fix: refuse header sizes that overflow on 32-bit
 platforms

---
 src/interfaces/hybrid_crypto/statics.rs | 31 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index f73d08d..9de21e0 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -86,7 +86,7 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
 
         Ok(Self {
             symmetric_key: S::Key::try_from_bytes(&symmetric_key_bytes)?,
-            meta_data: Metadata::try_from_bytes(&meta_data_bytes)?,
+            meta_data: metadata_from_bytes(&meta_data_bytes)?,
         })
     }
 }
@@ -161,6 +161,12 @@ where
         .read_u32()
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
         as usize;
+    // the scanner adds the size to its position
+    if encrypted_symmetric_key_size > encrypted_header.len() {
+        return Err(FormatErr::InvalidSize(
+            "header shorter than its encrypted symmetric key".to_string(),
+        ));
+    }
     let encrypted_symmetric_key = scanner
         .next(encrypted_symmetric_key_size)
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
@@ -188,18 +194,22 @@ where
             .read_u32()
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?
             as usize;
+        if encrypted_metadata_size > encrypted_header.len() {
+            return Err(FormatErr::InvalidSize(
+                "header shorter than its encrypted metadata".to_string(),
+            ));
+        }
 
         // UID
         let encrypted_metadata = scanner
             .next(encrypted_metadata_size)
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?;
-        Metadata::try_from_bytes(&S::decrypt(
+        metadata_from_bytes(&S::decrypt(
             &symmetric_key,
             encrypted_metadata,
             &nonce,
             None,
-        )?)
-        .map_err(|e| FormatErr::CryptoError(e.to_string()))?
+        )?)?
     } else {
         Metadata::default()
     };
@@ -291,6 +301,19 @@ where
     Ok(block.clear_text_owned())
 }
 
+// Parse metadata, checking the size of the UID first: on 32-bit platforms the
+// parser overflows on sizes close to 2^32
+fn metadata_from_bytes(bytes: &[u8]) -> Result<Metadata, FormatErr> {
+    if let Some(uid_len) = bytes.get(0..4) {
+        if u32::from_be_bytes(uid_len.try_into()?) as usize > bytes.len() {
+            return Err(FormatErr::InvalidSize(
+                "metadata shorter than their UID".to_string(),
+            ));
+        }
+    }
+    Metadata::try_from_bytes(bytes).map_err(|e| FormatErr::CryptoError(e.to_string()))
+}
+
 // Attempt getting the length of this slice as an u32 in 4 big endian bytes and
 // return an error if it overflows
 fn u32_len(slice: &[u8]) -> Result<[u8; 4], CryptoBaseError> {
-- 
2.43.0

