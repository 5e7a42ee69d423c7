From cefea00b657dead7db89f89d3622c9b0cd5a4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 01/13] fix: keep the last word when the element size is a
 multiple of the plaintext bits

---
 src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..d1b9116 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,11 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    // A zero remainder means that the last entry is completely filled
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From 4425f4a7d11b1d1e1c59800ccb3654b2e1eacd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 02/13] fix: index queries fail at random when the indicator
 wraps around

---
 src/api.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..ce8cb7f 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,8 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    // Arithmetic is modulo 2^32: the sum is expected to wrap around
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From 849195a3791b903e74803800a6c8ecdf3ddc03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/13] fix: answer a query of the wrong length with an error,
 not a panic

---
 src/api.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index ce8cb7f..c98f31f 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,7 +9,9 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -68,6 +70,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_query_len(q, self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -214,6 +217,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_query_len(q.as_slice(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
@@ -451,6 +455,18 @@ impl Query {
   }
 }
 
+/// Checks that a client query has one entry for each row of the DB matrix
+fn check_query_len(q: &[u32], height: usize) -> ResultBoxedError<()> {
+  if q.len() != height {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "query length: {}, number of DB rows: {}",
+      q.len(),
+      height,
+    ))));
+  }
+  Ok(())
+}
+
 /// The `Response` object wraps a response from a single shard
 #[derive(Clone, Serialize, Deserialize)]
 pub struct Response(Vec<u32>);
-- 
2.43.0


From 6b3c7a6e4cc88c359a91dd0c28a54941bf3235c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 04/13] fix: binary fuse construction panics, hangs or loses
 keys when a slot counter overflows

---
 bff-modp/src/prelude/bfuse.rs  | 24 +++++++++++++++++-------
 bff-modp/src/prelude/bfusep.rs | 23 ++++++++++++++++-------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..7b5480b 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -147,13 +147,13 @@ macro_rules! bfuse_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -162,20 +162,30 @@ macro_rules! bfuse_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    // A counter that wrapped around is below 4
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // Too many keys share a slot; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
+                    seed = splitmix64(&mut rng);
                     continue;
                 }
 
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..4d66458 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -96,13 +96,13 @@ macro_rules! bfusep_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -111,20 +111,29 @@ macro_rules! bfusep_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    // A counter that wrapped around is below 4
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // Too many keys share a slot; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
                     continue;
                 }
 
-- 
2.43.0


From bee4dc9f81fc8c6353afcec12893f4afd8419754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/13] fix: BinaryFuseP32 silently returns the wrong data for
 keys whose hashes collide

---
 bff-modp/src/prelude/bfusep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 4d66458..093fcd6 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -89,6 +89,9 @@ macro_rules! bfusep_from_impl(
                     hm_keys.insert(hash, $data[i]);
                     start_pos[segment_index as usize] += 1;
                 }
+                if hm_keys.len() != size {
+                    return Err("Failed to construct binary fuse filter: two keys have the same hash.");
+                }
 
                 let mut error = false;
                 let mut duplicates = 0;
-- 
2.43.0


From 3d34ad2afc52903d6978a28f2b65341a4ef0f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 06/13] fix: keyword database setup hangs, then panics, on
 seeds whose filters cannot be constructed

---
 bff-modp/src/bfusep32.rs |  5 ++--
 src/db/kv.rs             | 50 +++++++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..85665ff 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -78,13 +78,14 @@ impl BinaryFuseP32 {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        // The seed is fixed, so that a second iteration would fail as the first one did
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..fa705ed 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -32,6 +32,9 @@ impl KeyValue {
   }
 }
 
+/// Number of seeds that are tried when constructing the storage filters
+const MAX_CONSTRUCTION_ATTEMPTS: usize = 100;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 struct StorageFilters {
   filters: Vec<BinaryFuseP32>,
@@ -48,28 +51,33 @@ impl StorageFilters {
     plaintext_bits: usize,
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
-    let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
-      .map(|i| {
-        let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-        BinaryFuseP32::from_slice(
+    // Construction fails for a small share of the seeds: retry with a new one
+    for _ in 0..MAX_CONSTRUCTION_ATTEMPTS {
+      let mut seed = [0u8; 32];
+      OsRng.fill_bytes(&mut seed);
+      let filters: Result<Vec<BinaryFuseP32>, &'static str> = (0..row_width)
+        .map(|i| {
+          let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
+          BinaryFuseP32::from_slice(
+            seed,
+            &keys,
+            &column,
+            i as u64,
+            2u64.pow(plaintext_bits as u32),
+          )
+        })
+        .collect();
+      if let Ok(filters) = filters {
+        return Ok(StorageFilters {
           seed,
-          &keys,
-          &column,
-          i as u64,
-          2u64.pow(plaintext_bits as u32),
-        )
-        .unwrap()
-      })
-      .collect();
-    Ok(StorageFilters {
-      filters: filters.clone(),
-      seed,
-      segment_length: filters[0].segment_length,
-      segment_length_mask: filters[0].segment_length_mask,
-      segment_count_length: filters[0].segment_count_length,
-    })
+          segment_length: filters[0].segment_length,
+          segment_length_mask: filters[0].segment_length_mask,
+          segment_count_length: filters[0].segment_count_length,
+          filters,
+        });
+      }
+    }
+    Err("Failed to construct the storage filters".into())
   }
 
   fn get_columns(&self) -> Vec<Vec<u32>> {
-- 
2.43.0


From d0435b581b588db0d599465683318b55a0947a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 07/13] fix: BinaryFuseP32 returns the wrong data for moduli
 that do not divide 2^32

---
 bff-modp/src/bfusep32.rs       |  2 +-
 bff-modp/src/prelude/bfusep.rs | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 85665ff..9acd6ce 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -95,7 +95,7 @@ impl BinaryFuseP32 {
 
     /// Returns the `fingerprints`, of the filter, but modulo the plaintetx modulus
     pub fn get_fingerprints_mod(&self) -> Vec<u32> {
-        self.fingerprints.into_iter().map(|f| f % (self.ptxt_mod as u32)).collect()
+        self.fingerprints.into_iter().map(|f| (*f as u64 % self.ptxt_mod) as u32).collect()
     }
 
     /// Static function that retrieves the hash function evaluations for a given storage filter
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 093fcd6..60b7058 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -218,12 +218,11 @@ macro_rules! bfusep_from_impl(
 		            h012[2] = index3;
 		            h012[3] = h012[0];
 		            h012[4] = h012[1];
-		        let entry =
-                (data % ($ptxt_mod as u32))
-                .wrapping_sub(fingerprints[h012[found + 1] as usize])
-                .wrapping_sub(fingerprints[h012[found + 2] as usize]) % ($ptxt_mod as u32);
-                let mask = (mix(hash, $label) % $ptxt_mod) as u32;
-                fingerprints[h012[found] as usize] = entry.wrapping_sub(mask) % ($ptxt_mod as u32);
+                let others = (fingerprints[h012[found + 1] as usize] as u64
+                    + fingerprints[h012[found + 2] as usize] as u64) % $ptxt_mod;
+                let mask = mix(hash, $label) % $ptxt_mod;
+                let entry = (*data as u64 % $ptxt_mod) + ($ptxt_mod - others) + ($ptxt_mod - mask);
+                fingerprints[h012[found] as usize] = (entry % $ptxt_mod) as u32;
             }
 
             Ok(Self {
@@ -254,9 +253,11 @@ macro_rules! bfusep_retrieve_impl(
             };
             let hash = mix256($key, &$self.seed);
             let (h0, h1, h2) = hash_of_hash(hash, $self.segment_length, $self.segment_length_mask, $self.segment_count_length);
-            let data = $self.fingerprints[h0 as usize].wrapping_add($self.fingerprints[h1 as usize]).wrapping_add($self.fingerprints[h2 as usize]);
-            let mask = (mix(hash, $label) % $self.ptxt_mod) as u32;
-            data.wrapping_add(mask) % ($self.ptxt_mod as u32)
+            let data = $self.fingerprints[h0 as usize] as u64
+                + $self.fingerprints[h1 as usize] as u64
+                + $self.fingerprints[h2 as usize] as u64;
+            let mask = mix(hash, $label) % $self.ptxt_mod;
+            ((data + mask) % $self.ptxt_mod) as u32
         }
     };
 );
-- 
2.43.0


From 9c8f3c5842e27a787a774392b61c8b7d2b1ebed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 08/13] fix: fuse filter construction panics on small key sets

---
 bff-modp/src/prelude/fuse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..312c9bc 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -90,6 +90,10 @@ macro_rules! fuse_from_impl(
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
             let capacity = capacity / SLOTS * SLOTS;
             let segment_length = capacity / SLOTS;
+            if segment_length == 0 {
+                // Too few keys to have a slot in each segment
+                return Err("Failed to construct fuse filter.");
+            }
 
             #[allow(non_snake_case)]
             let mut H: Box<[HSet]> = make_block!(with capacity sets);
-- 
2.43.0


From 099d38a89611f76128620ab07d524f8f016dfa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 09/13] fix: BinaryFuseP32::from_vec does not check the number
 of data items

---
 bff-modp/src/bfusep32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 9acd6ce..016e86d 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -84,8 +84,7 @@ impl BinaryFuseP32 {
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
-        let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
+        Self::from_slice(seed, keys.as_slice(), data, label, ptxt_mod)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
-- 
2.43.0


From a0c2bf6a7cdb6bd5146c41d677b9b33b2b18138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/13] fix: elements of the wrong length panic or are silently
 truncated at setup

---
 src/db/index.rs | 16 +++++++++++-----
 src/db/kv.rs    |  9 ++++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..45e1a6d 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -175,10 +175,18 @@ impl BaseParams for IndexParams {
 fn construct_row(
   element: &str,
   plaintext_bits: usize,
-  row_width: usize,
+  elem_size: usize,
 ) -> ResultBoxedError<Vec<u32>> {
+  let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
+  if bytes.len() != (elem_size + 7) / 8 {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element size in bits: {}, decoded length in bytes: {}",
+      elem_size,
+      bytes.len(),
+    ))));
+  }
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
@@ -197,10 +205,8 @@ fn construct_rows(
   elem_size: usize,
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
-  let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
-
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
-    construct_row(&elements[i], plaintext_bits, row_width)
+    construct_row(&elements[i], plaintext_bits, elem_size)
   });
 
   result.collect()
diff --git a/src/db/kv.rs b/src/db/kv.rs
index fa705ed..5d863b0 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -6,7 +6,7 @@ use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -258,6 +258,13 @@ fn construct_row(
   let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
+  if bytes.len() != (elem_size + 7) / 8 {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element size in bits: {}, decoded length in bytes: {}",
+      elem_size,
+      bytes.len(),
+    ))));
+  }
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
-- 
2.43.0


From 2ea7824264516d6ba2f26ec370be0d6e7409642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 11/13] fix: setup panics on an empty database, on missing rows
 and on values of different lengths

---
 src/db/index.rs | 8 ++++++++
 src/db/kv.rs    | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index 45e1a6d..f73e5f7 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -205,6 +205,14 @@ fn construct_rows(
   elem_size: usize,
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
+  if m == 0 || m > elements.len() {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "number of rows: {}, number of elements: {}",
+      m,
+      elements.len(),
+    ))));
+  }
+
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
     construct_row(&elements[i], plaintext_bits, elem_size)
   });
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 5d863b0..10a665f 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -132,7 +132,14 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let row_width = kvs[0].value.len();
+    let row_width = Self::get_row_width(elem_size, plaintext_bits);
+    if kvs.is_empty() || kvs.iter().any(|kv| kv.value.len() != row_width) {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "number of key-value pairs: {}, expected value length: {}",
+        kvs.len(),
+        row_width,
+      ))));
+    }
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
     Ok(Self {
-- 
2.43.0


From 912545c12f0642e93ef048276020b020f7107823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 12/13] fix: a keyword database with duplicate keys panics or
 drops values at setup

---
 src/db/kv.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index 10a665f..cbb3487 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fs;
 
 use rand_core::{OsRng, RngCore};
@@ -51,6 +52,12 @@ impl StorageFilters {
     plaintext_bits: usize,
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
+    let mut distinct_keys = HashSet::new();
+    for key in &keys {
+      if !distinct_keys.insert(*key) {
+        return Err("Two key-value pairs have the same key".into());
+      }
+    }
     // Construction fails for a small share of the seeds: retry with a new one
     for _ in 0..MAX_CONSTRUCTION_ATTEMPTS {
       let mut seed = [0u8; 32];
-- 
2.43.0


From b95ddd7ad936a24b6cdb779f98d4911863630104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 13/13] fix: saved public parameters cannot be loaded again

---
 src/db/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..5306d8c 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -4,7 +4,6 @@ mod kv;
 use std::fs;
 
 use serde::{Deserialize, Serialize};
-use serde_json::json;
 
 use crate::errors::ResultBoxedError;
 use crate::utils::matrices::*;
@@ -47,13 +46,12 @@ pub trait BaseParams {
       })
       .collect()
   }
-  /// Writes the params struct as JSON to file
-  fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
-    let json = json!({
-      "lhs_seed": self.get_public_seed(),
-      "rhs": self.get_rhs(),
-    });
-    Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
+  /// Writes the params struct as JSON to file, so that it can be loaded again
+  fn write_to_file(&self, path: &str) -> ResultBoxedError<()>
+  where
+    Self: Serialize,
+  {
+    Ok(serde_json::to_writer(&fs::File::create(path)?, self)?)
   }
   /// Computes s*(A*DB) using the RHS of the public parameters
   fn mult_right(&self, s: &[u32]) -> ResultBoxedError<Vec<u32>> {
-- 
2.43.0

