From 63c356a491e5533a2065f30dfb9f25cac7bfe6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 01/22] fix: bulk_remove pairs every removed signature with its
 own id

An unknown id in the list shifted the pairing of ids and signatures, so the
ids after it stayed in the bands.
---
 gaoya/src/minhash/minhash_index.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..df51ac2 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,16 +700,16 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
+        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
             .collect();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
-                    .for_each(|(sig, id)| band.remove(id, sig))
+                removed.iter()
+                    .for_each(|(id, sig)| band.remove(id, sig))
             });
-        sigs
+        removed.into_iter().map(|(_, sig)| sig).collect()
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From c3599b6768faaf2d1233154a081d1732c51d4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 02/22] fix: queries that return similarities skip ids that are
 no longer stored

insert(1, a); insert(1, b); remove(1) leaves id 1 in the bands of a, and
query_owned_return_similarity(a) and query_top_k(a) panicked.
---
 gaoya/src/minhash/minhash_index.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index df51ac2..76cbef5 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -628,10 +628,12 @@ where
         }
         let mut result = Vec::new();
         for id in match_ids.into_iter() {
-            let signature = &self.id_signatures[&id];
-            let similarity = compute_minhash_similarity(signature, query_signature);
-            if similarity >= self.threshold {
-                result.push((id, similarity))
+            // A band may still hold an id whose signature was overwritten and then removed
+            if let Some(signature) = self.id_signatures.get(&id) {
+                let similarity = compute_minhash_similarity(signature, query_signature);
+                if similarity >= self.threshold {
+                    result.push((id, similarity))
+                }
             }
         }
         result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
@@ -647,10 +649,11 @@ where
         }
         let mut ids_distances: Vec<(Id, f64)> = match_ids
             .into_iter()
-            .map(|id| {
-                let signature = &self.id_signatures[&id];
+            .filter_map(|id| {
+                // A band may still hold an id whose signature was overwritten and then removed
+                let signature = self.id_signatures.get(&id)?;
                 let distance = compute_minhash_distance(query_signature, signature);
-                (id, distance)
+                Some((id, distance))
             })
             .collect();
         ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
-- 
2.43.0


From b822e158dd0d2a35e49257461a5ca0d35136f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 03/22] fix: query_one applies the same threshold test as the
 other queries

---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 76cbef5..251d870 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -539,7 +539,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From 97c570c978791d85440fea94fd17b6d6f4d24463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 04/22] fix: bulk inserts check the length of every signature
 before inserting any

A signature that is too long was stored, and later queries panicked on it.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 251d870..16eeda7 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in &signatures {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +452,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for (_, signature) in &id_signature_pairs {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
-- 
2.43.0


From d59c899551ba1a8f75b147da77a5448ae505bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 05/22] fix: every query checks the length of the query
 signature

query_owned_return_similarity and query_top_k accepted a longer signature and
panicked, or silently found nothing, depending on what the index contained.
---
 gaoya/src/minhash/minhash_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 16eeda7..efacfbb 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -626,6 +626,7 @@ where
         where
             Id: Hash + Eq + Clone,
     {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
@@ -647,6 +648,7 @@ where
 
 
     pub fn query_top_k(&self, query_signature: &[T], k: usize) -> Vec<(Id, f64)> {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
-- 
2.43.0


From 1aaef7f49e0f49b8f1f944ba3177262f360bb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 06/22] fix: shrink_to does not panic when bands hold as many
 keys as there are ids

The ratio is 1 when no two signatures share a band, and NaN for an empty index.
---
 gaoya/src/minhash/minhash_index.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index efacfbb..2ccf7a4 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -491,7 +491,6 @@ where
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
                 let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From 9f14fd19bc46aaed54da71ade60001b721a6340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 07/22] fix: similarity_greater_than_threshold agrees with
 compute_minhash_similarity

The number of matches needed was rounded down: 1 match of 3 passed for 0.66.
---
 gaoya/src/minhash/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..1ef1d08 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -147,13 +147,12 @@ pub fn similarity_greater_than_threshold<T>(
 {
     assert_eq!(min_hashes_1.len(), min_hashes_2.len());
     let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
     let mut num_matches: u32 = 0;
     for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
         if pair.0 == pair.1 {
             num_matches += 1;
         }
-        if num_matches >= expected_matches {
+        if num_matches as f64 / num_hashes as f64 >= threshold {
             return true;
         }
     }
-- 
2.43.0


From 7ac84d68b6df369777782a78d59b53ce2a334225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 08/22] fix: SimHashIndex::size returns the number of stored
 ids

It always returned 0.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..66ebc3e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From e58cd903f2ede6308ce9a8a9e025ed21b3d78bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 09/22] fix: SimHashIndex returns entries at exactly the
 maximum hamming distance

The documentation says less than or equal, and the blocks are chosen so that
such entries are always found.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 66ebc3e..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From 8e5b3ef76a34a16d846e50408dcb698a25417401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 10/22] fix: SimHashStringIndex calls methods that the native
 index has

query(return_hamming_distance=True), par_bulk_query(return_similarity=True) and
par_bulk_query with a callable analyzer raised AttributeError.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From 1cd931d621130ff058fbeabd63248cdfb13947b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 11/22] fix: SimHashStringIndex rejects num_blocks outside
 3..32

The condition could never be true.
---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 621f847..fdd5ae0 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From cca7a02de65bd78fce155dc472c7fdbf8ec75785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 12/22] fix: MinHashStringIndex rejects an unknown analyzer

Any other string silently meant 'word'. SimHashStringIndex already rejects it.
---
 py-gaoya/gaoya/minhash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py-gaoya/gaoya/minhash.py b/py-gaoya/gaoya/minhash.py
index e87e8ef..9b53e2e 100644
--- a/py-gaoya/gaoya/minhash.py
+++ b/py-gaoya/gaoya/minhash.py
@@ -97,6 +97,8 @@ class MinHashStringIndex:
             raise ValueError(f"Jaccard threshold must be between 0 and 1")
         if id_container not in ("set", "vec", "smallvec"):
             raise ValueError(f"id_container must be one of ('set', 'vec', 'smallvec')")
+        if not callable(analyzer) and analyzer not in { 'word', 'char' }:
+            raise ValueError(f"Analyzer must be word, char or callable")
         self.analyzer = analyzer
         # if analyzer is callable we need to pass something to index's constructor.
         analyzer = 'word' if callable(self.analyzer) else analyzer
-- 
2.43.0


From c3c133d63d07efcf959d20c639b7670baa374ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 13/22] fix: load_from_file_parallel does not reuse the id of
 the last document

The first line took the id of the document inserted before it and replaced it.
---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..b899fc1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -80,7 +80,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = reader
                     .lines()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From e556ea7831c642c3bb549b000868ed8771ea6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 14/22] fix: loading lines reports read errors

load_from_lines ignored them, and never returned when reading kept failing (a
directory, for one); load_from_file_parallel panicked, on lines that are not
UTF-8 too, which load_from_lines skips.
---
 gaoya/src/minhash/string_index.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index b899fc1..ecf60f1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::{Display, Formatter, write};
 use std::fs::File;
-use std::io::{BufRead, BufReader, Error};
+use std::io::{BufRead, BufReader, Error, ErrorKind};
 use std::io::{Read, Write};
 use fnv::FnvBuildHasher;
 
@@ -50,13 +50,16 @@ impl MinHashStringIndex {
         ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()
     }
 
-    pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
+    /// Inserts every line. Lines that are not valid UTF-8 are skipped.
+    pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) -> Result<(), Error> {
         for line_result in reader.lines() {
             match line_result {
                 Ok(line) => self.insert(line),
-                Err(e) => (),
+                Err(e) if e.kind() == ErrorKind::InvalidData => (),
+                Err(e) => return Err(e),
             }
         }
+        Ok(())
     }
 
     pub fn load_from_file(&mut self, file_name: &str) -> Result<usize, Error> {
@@ -64,7 +67,7 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                self.load_from_lines(&mut reader);
+                self.load_from_lines(&mut reader)?;
                 let new_count = self.size() - current_size;
                 Ok(new_count)
             }
@@ -77,11 +80,14 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
-                    .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
-                    .collect();
+                let mut lines: Vec<(u64, String)> = Vec::new();
+                for line_result in reader.lines() {
+                    match line_result {
+                        Ok(line) => lines.push((lines.len() as u64 + self.doc_id + 1, line)),
+                        Err(e) if e.kind() == ErrorKind::InvalidData => (),
+                        Err(e) => return Err(e),
+                    }
+                }
                 let minhashes = lines
                     .par_iter()
                     .map(|line| {
-- 
2.43.0


From 83b7fde058f787e40c28199ed0af9c83fde3f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 15/22] fix: MultiShingles yields the short shingles at the end
 of the data

It stopped as soon as the longest size did not fit: for 'abc' and sizes 1 to 3
the shingle 'c' was missing.
---
 gaoya/src/text/multi_shingles.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..5dc83ff 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.data.len() < self.size && self.size > self.from_size {
+            // the sizes left at this position are too long, go on with the next position
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -78,9 +83,12 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             None
         };
 
+        // the sizes left at this position are too long, go on with the next position
+        let too_long = ret.is_none() && self.size > self.from_size;
+
         // move data slice to next step position
         self.size += 1;
-        if self.size > self.to_size {
+        if too_long || self.size > self.to_size {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
@@ -89,6 +97,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
+        if too_long {
+            return self.next();
+        }
         ret
     }
 }
-- 
2.43.0


From 672722cba4839d6601e262db79eb2a2a38d6e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 16/22] fix: the serial clusterer accepts clusters of exactly
 min_cluster_size points

as the parallel one does.
---
 gaoya/src/clustering/clustering_serial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..e29e54a 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -99,7 +99,7 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
+            if similar_points.len() >= self.min_cluster_size {
                 cluster_id_seq += 1;
                 let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                 clusters.push(cluster);
-- 
2.43.0


From c8e3d1904d1c713348f5ccd487a5e416eb0cd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 17/22] fix: the serial clusterer does not repeat cluster ids
 on the next call

---
 gaoya/src/clustering/clustering_serial.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index e29e54a..f909e83 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -100,8 +99,8 @@ impl<Id> Clusterer<Id>
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
             if similar_points.len() >= self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From f0153a95d13820be2d82f53c2719125fc2b5bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 18/22] fix: cluster_par does not panic when there are fewer
 points than threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..4da3dc4 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -167,7 +167,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = std::cmp::max(1, points.len() / self.n_threads);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From 3b948c9e078e31189f335fc57e94fdcf3798e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 19/22] fix: ClusterPointInner is Send and Sync only when that
 is sound

The unsafe impls made a point shareable between threads whatever its id type,
and the serial one although it contains a Cell.
---
 gaoya/src/clustering/clusterer_parallel.rs | 3 ---
 gaoya/src/clustering/clustering_serial.rs  | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 4da3dc4..f83d239 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -22,9 +22,6 @@ pub struct ClusterPointInner<Id> {
     pub cluster: AtomicPtr<Cluster<Id>>,
 }
 
-unsafe impl<Id> Send for ClusterPointInner<Id> {}
-unsafe impl<Id> Sync for ClusterPointInner<Id> {}
-
 impl<Id> ClusterPointInner<Id>
 where
     Id: Clone,
diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index f909e83..18abded 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -14,9 +14,6 @@ pub struct ClusterPointInner<Id> {
     pub cluster: Cell<Option<usize>>
 }
 
-unsafe impl<Id> Send for ClusterPointInner<Id> {}
-unsafe impl<Id> Sync for ClusterPointInner<Id> {}
-
 
 impl<Id> ClusterPointInner<Id> {
 
-- 
2.43.0


From d95858df64608cdff0780d8ff7f00246c546af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:08 +0000
Subject: [PATCH 20/22] fix: parallel clustering puts no point in two clusters

A thread that took a point over from an unfinished cluster did not change the
point's cluster pointer, which the other thread then cleared, and it read the
other thread's cluster through a pointer that may have been freed. Points are
now assigned under a lock; the similarity queries still run in parallel.
---
 gaoya/src/clustering/clusterer_parallel.rs | 44 ++++++----------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index f83d239..cceb241 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -9,6 +9,7 @@ use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -132,6 +133,7 @@ impl<Id> Cluster<Id> {
 ///
 pub struct Clusterer<T, Id> {
     cluster_id_sequence: AtomicU32,
+    creation_lock: Mutex<()>,
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
@@ -145,6 +147,7 @@ where
     pub fn new(min_cluster_size: usize, n_threads: usize) -> Self {
         Clusterer {
             cluster_id_sequence: AtomicU32::new(0),
+            creation_lock: Mutex::new(()),
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
@@ -218,49 +221,26 @@ where
 
     /// Creates a new cluster given the points.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
+    /// similar points. Clusters are created one at a time, so that two such attempts cannot
+    /// undo each other: the first one gets the points.
     fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
+        let _creation = self.creation_lock.lock().unwrap();
         let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
         let mut cluster: Box<Cluster<Id>> =
             Box::new(Cluster::new(cluster_id, self.min_cluster_size));
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
+        for point in points.iter() {
             match point.assign_cluster(cluster_ptr) {
                 Ok(_) => {
                     cluster.points.push(point.clone());
                 }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
+                Err(_) => {
+                    // This point already belongs to a cluster created by another thread
+                    cluster.rollback();
+                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
+                    return None;
                 }
             }
         }
-- 
2.43.0


From 96015626698b3a29ed4b2f3df21fb3baa4965067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:08 +0000
Subject: [PATCH 21/22] fix: committed and rolled back clusters are in
 different states

Both constants were 1.
---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index cceb241..06bc96f 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -84,7 +84,7 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
 const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
+const ROLLED_BACK: u8 = 2;
 
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
-- 
2.43.0


From 3ec72123db23625213d89e5cbe5fa170cceae439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:22 +0000
Subject: [PATCH 22/22] fix: list containers remove every occurrence of an id,
 like the hash set

---
 gaoya/src/minhash/id_container.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gaoya/src/minhash/id_container.rs b/gaoya/src/minhash/id_container.rs
index 6f05689..4b0dfd7 100644
--- a/gaoya/src/minhash/id_container.rs
+++ b/gaoya/src/minhash/id_container.rs
@@ -100,9 +100,8 @@ impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for  VecContainer<T> {
 
 
     fn remove(&mut self, item: &T) {
-        if let Some(index) =  self.vec.iter().position(|x| x == item) {
-            self.vec.swap_remove(index);
-        }
+        // the same id may have been pushed more than once
+        self.vec.retain(|x| x != item);
     }
 }
 
@@ -138,9 +137,8 @@ impl<T: Hash + Eq + Send + Sync + Clone, const N: usize> IdContainer<T> for Smal
 
 
     fn remove(&mut self, item: &T) {
-        if let Some(index) = self.vec.iter().position(|x| x == item) {
-            self.vec.swap_remove(index);
-        };
+        // the same id may have been pushed more than once
+        self.vec.retain(|x| x != item);
     }
 }
 
-- 
2.43.0

