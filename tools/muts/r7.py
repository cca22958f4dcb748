"""Round seven: larger refactorings (new types, callbacks, helpers with generics, moved code) and bugs with cooperating sites."""
import re
G = 'benign'
MI = 'gaoya/src/minhash/minhash_index.rs'
MM = 'gaoya/src/minhash/mod.rs'
S = 'gaoya/src/simhash/sim_hash_index.rs'
SM = 'gaoya/src/simhash/mod.rs'
SH = 'gaoya/src/simhash/sim_hash.rs'
HS = 'gaoya/src/simhash/sim_hasher.rs'
PM = 'py-gaoya/src/min_hash.rs'
src = {p: open('/repo/' + p).read() for p in (MI, MM, S, SM, SH, HS, PM)}


def fn(p, name, n=0, indent='    '):
    s = src[p]
    ms = [m.start() for m in re.finditer(r'\n' + indent + r'(pub )?fn ' + name + r'\b', s)]
    i = ms[n] + 1
    j = s.index('\n' + indent + '}\n', i) + len('\n' + indent + '}\n')
    return s[i:j]


def sub(t, *subs):
    for a, b in subs:
        assert a in t, a
        t = t.replace(a, b)
    return t


Q1, Q, QO, QS, TK = fn(MI, 'query_one'), fn(MI, 'query', 1), fn(MI, 'query_owned'), fn(MI, 'query_owned_return_similarity'), fn(MI, 'query_top_k')
BI, BQ, BQO, BRM = fn(MI, 'insert'), fn(MI, 'query'), fn(MI, 'query_to_owned'), fn(MI, 'remove')
INS, PBI, PBP, RM, BR = fn(MI, 'insert', 1), fn(MI, 'par_bulk_insert'), fn(MI, 'par_bulk_insert_pairs'), fn(MI, 'remove', 1), fn(MI, 'bulk_remove')
NI, NC = fn(MI, 'new_index'), fn(MI, 'new_with_capacity', 1)
BN, BNC = fn(MI, 'new', 1), fn(MI, 'new_with_capacity')
QI, QIO = fn(MI, 'query_by_id'), fn(MI, 'query_by_id_owned')
KEY = '''        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
'''
KEYFN = '''    #[inline]
    fn key(&self, signature: &[T]) -> BandKey {
        let rows = &signature[self.band_start..self.band_end];
        BandKey::new(rows, self.build_ahash.build_hasher())
    }

'''
head = lambda f: f[:f.index('{\n') + 2]
AS = '        assert_eq!(self.num_hashes(), query_signature.len());\n'
LOOP_O = '''        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query_to_owned(query_signature, &mut match_ids);
        }
'''
assert LOOP_O in QO and LOOP_O in QS and LOOP_O in TK

MUTS = [
 # ---- bands
 ('g7-key-all', G, [(MI, BI, KEYFN + sub(BI, (KEY, '        let band_key = self.key(signature);\n'))), (MI, BQ, sub(BQ, (KEY, '        let band_key = self.key(signature);\n'))),
                    (MI, BQO, sub(BQO, (KEY, '        let band_key = self.key(signature);\n'))), (MI, BRM, sub(BRM, (KEY, '        let band_key = self.key(signature);\n')))]),
 ('g7-bucket', G, [(MI, BQ, '''    #[inline]
    fn bucket(&self, signature: &[T]) -> Option<&C> {
        let band_data = &signature[self.band_start..self.band_end];
        self.hash_table.get(&BandKey::new(band_data, self.build_ahash.build_hasher()))
    }

''' + head(BQ) + '''        if let Some(ids) = self.bucket(signature) {
            ids.copy_refs_to(match_ids);
        }
    }
'''), (MI, BQO, head(BQO) + '''        self.bucket(signature).into_iter().for_each(|ids| ids.copy_to(match_ids));
    }
''')]),
 ('g7-band-range', G, [(MI, BI, sub(BI, ('&signature[self.band_start..self.band_end]', '&signature[self.band_start..][..self.len]')))]),
 ('g7-band-range2', G, [(MI, BQ, sub(BQ, ('&signature[self.band_start..self.band_end]', '&signature[self.band_start..self.band_start + self.len]')))]),
 ('g7-band-split', G, [(MI, BQO, sub(BQO, ('let band_data = &signature[self.band_start..self.band_end];', 'let (upto, _) = signature.split_at(self.band_end);\n        let (_, band_data) = upto.split_at(self.band_start);')))]),
 ('g7-band-new', G, [(MI, BN, head(BN) + '''        Self::new_with_capacity(band_start, band_end, 1000, build_ahash)
    }
''')]),
 ('g7-band-rm', G, [(MI, BRM, head(BRM) + KEY + '''        use std::collections::hash_map::Entry;
        if let Entry::Occupied(mut bucket) = self.hash_table.entry(band_key) {
            bucket.get_mut().remove(id);
            if bucket.get().is_empty() {
                bucket.remove();
            }
        }
    }
''')]),
 ('g7-band-rm2', G, [(MI, BRM, head(BRM) + KEY + '''        let now_empty = match self.hash_table.get_mut(&band_key) {
            None => return,
            Some(ids) => {
                ids.remove(id);
                ids.len() == 0
            }
        };
        if now_empty {
            self.hash_table.remove(&band_key);
        }
    }
''')]),
 ('g7-band-entry', G, [(MI, BI, head(BI) + KEY + '''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => ids.push(id),
            None => {
                let mut ids = C::new();
                ids.push(id);
                self.hash_table.insert(band_key, ids);
            }
        }
    }
''')]),
 ('b7-band-entry', 'bug:C02', [(MI, BI, head(BI) + KEY + '''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => ids.push(id),
            None => {
                let ids = C::new();
                self.hash_table.insert(band_key, ids);
            }
        }
    }
''')]),
 ('b7-band-rm', 'bug:C03', [(MI, BRM, head(BRM) + KEY + '''        let emptied = match self.hash_table.get_mut(&band_key) {
            None => return,
            Some(ids) => {
                ids.remove(id);
                ids.len() <= 1
            }
        };
        if emptied {
            self.hash_table.remove(&band_key);
        }
    }
''')]),
 ('b7-band-len', 'bug:C02', [(MI, BQ, sub(BQ, ('&signature[self.band_start..self.band_end]', '&signature[self.band_start..self.band_start + self.len.max(2)]')))]),
 ('b7-key-ptr', 'bug:C02', [(MI, '        state.write_u64(self.hash)\n', '        state.write_u64(self.hash ^ (self as *const Self as u64 >> 48))\n')]),
 ('b7-key-eq', 'bug:C02', [(MI, '        self.hash == other.hash\n', '        self.hash == other.hash && !std::ptr::eq(self, other) && self.hash % 1024 != 0\n')]),
 # ---- query helpers with callbacks
 ('g7-cb', G, [(MI, QS, '''    fn for_each_match<F: FnMut(Id, f64)>(&self, query_signature: &[T], mut accept: F) {
''' + LOOP_O + '''        for id in match_ids {
            if let Some(signature) = self.id_signatures.get(&id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    accept(id, similarity);
                }
            }
        }
    }

''' + head(QS) + AS + '''        let mut result = Vec::new();
        self.for_each_match(query_signature, |id, similarity| result.push((id, similarity)));
        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        result
    }
'''), (MI, QO, head(QO) + AS + '''        let mut found = HashSet::new();
        self.for_each_match(query_signature, |id, _| { found.insert(id); });
        found
    }
''')]),
 ('g7-impl-iter', G, [(MI, TK, '''    fn candidates<'a>(&'a self, query_signature: &[T]) -> impl Iterator<Item = (Id, &'a Vec<T>)> + 'a {
''' + LOOP_O + '''        match_ids.into_iter().filter_map(move |id| {
            let signature = self.id_signatures.get(&id)?;
            Some((id, signature))
        })
    }

''' + head(TK) + AS + '''        let mut ids_distances: Vec<(Id, f64)> = self.candidates(query_signature)
            .map(|(id, signature)| (id, compute_minhash_distance(query_signature, signature)))
            .collect();
        ids_distances.sort_by(|a, b| a.1.total_cmp(&b.1));
        ids_distances.truncate(k);
        ids_distances
    }
''')]),
 ('g7-sim-of', G, [(MI, Q, '''    #[inline]
    fn similarity_to(&self, id: &Id, query_signature: &[T]) -> Option<f64> {
        self.id_signatures
            .get(id)
            .map(|signature| compute_minhash_similarity(signature, query_signature))
    }

    #[inline]
    fn is_match(&self, id: &Id, query_signature: &[T]) -> bool {
        self.similarity_to(id, query_signature)
            .map_or(false, |similarity| similarity >= self.threshold)
    }

''' + sub(Q, (Q[Q.index('        match_ids.retain'):Q.index('        match_ids\n')], '        match_ids.retain(|id| self.is_match(id, query_signature));\n'))),
   (MI, QO, sub(QO, (QO[QO.index('        match_ids.retain'):QO.index('        match_ids\n')], '        match_ids.retain(|id| self.is_match(id, query_signature));\n'))),
   (MI, Q1, head(Q1) + AS + '''        let mut match_ids = HashSet::with_capacity(10);
        self.bands.iter().for_each(|band| band.query(query_signature, &mut match_ids));
        match_ids
            .into_iter()
            .filter_map(|id| self.similarity_to(id, query_signature).map(|similarity| (id, similarity)))
            .filter(|&(_, similarity)| similarity >= self.threshold)
            .max_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap())
    }
''')]),
 ('g7-top-bound', G, [(MI, TK, sub(TK, ('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()\n', '        let end = ids_distances.len().min(k);\n        ids_distances.drain(..end).collect()\n')))]),
 ('g7-top-take', G, [(MI, TK, sub(TK, ('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()\n', '        ids_distances.into_iter().take(k).collect()\n')))]),
 ('g7-top-zero', G, [(MI, TK, sub(TK, (AS, AS + '        if k == 0 || self.id_signatures.is_empty() {\n            return Vec::new();\n        }\n')))]),
 ('g7-q-empty', G, [(MI, QS, sub(QS, (AS, AS + '        if self.size() == 0 {\n            return vec![];\n        }\n')))]),
 ('g7-qid', G, [(MI, QI, head(QI) + '''        self.id_signatures
            .get(id)
            .map(|signature| self.query(signature))
            .unwrap_or_default()
    }
'''), (MI, QIO, head(QIO) + '''        let Some(signature) = self.get_signature(id) else {
            return HashSet::new();
        };
        self.query_owned(signature)
    }
''')]),
 ('g7-q1-sorted', G, [(MI, Q1, head(Q1) + AS + '''        let mut best: Option<(&Id, f64)> = None;
        for id in self.query(query_signature) {
            let similarity = compute_minhash_similarity(&self.id_signatures[id], query_signature);
            match best {
                Some((_, top)) if top >= similarity => {}
                _ => best = Some((id, similarity)),
            }
        }
        best
    }
''')]),
 ('g7-assert-fn', G, [(MI, INS, '''    #[inline]
    fn check_length(&self, signature: &[T]) {
        assert_eq!(self.b * self.r, signature.len(), "signature of the wrong length");
    }

''' + sub(INS, ('        assert_eq!(self.num_hashes(), signature.len());\n', '        self.check_length(&signature);\n'))),
   (MI, PBI, sub(PBI, ('            assert_eq!(self.num_hashes(), signature.len());\n', '            self.check_length(signature);\n'))),
   (MI, PBP, sub(PBP, ('''        for (_, signature) in &id_signature_pairs {
            assert_eq!(self.num_hashes(), signature.len());
        }
''', '        id_signature_pairs.iter().for_each(|(_, signature)| self.check_length(signature));\n'))),
   (MI, QO, sub(QO, (AS, '        self.check_length(query_signature);\n')))]),
 ('g7-assert-all', G, [(MI, PBI, sub(PBI, ('''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
''', '''        let expected = self.num_hashes();
        assert!(signatures.iter().all(|signature| signature.len() == expected));
''')))]),
 ('g7-assert-any', G, [(MI, PBP, sub(PBP, ('''        for (_, signature) in &id_signature_pairs {
            assert_eq!(self.num_hashes(), signature.len());
        }
''', '''        if let Some((_, wrong)) = id_signature_pairs.iter().find(|(_, s)| s.len() != self.num_hashes) {
            panic!("expected {} hashes, got {}", self.num_hashes, wrong.len());
        }
''')))]),
 ('b7-assert-first', 'bug:C05', [(MI, PBI, sub(PBI, ('''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
''', '''        let expected = self.num_hashes();
        assert!(signatures.windows(2).all(|w| w[0].len() == w[1].len()));
        assert!(signatures.is_empty() || signatures[0].len() >= expected);
''')))]),
 ('b7-assert-after', 'bug:C05', [(MI, INS, sub(INS, ('        assert_eq!(self.num_hashes(), signature.len());\n', '        assert!(self.num_hashes() <= signature.len());\n')))]),
 ('g7-pbi-pairs', G, [(MI, PBI, head(PBI) + '''        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures).collect());
    }
''')]),
 ('g7-pbp-serial', G, [(MI, PBP, sub(PBP, ('        self.bands.par_iter_mut().for_each(|band| {', '        for band in self.bands.iter_mut() {'), ('            }\n        });', '            }\n        }')))]),
 ('g7-pbp-extend', G, [(MI, PBP, sub(PBP, ('''        for id_hash in id_signature_pairs {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
''', '        self.id_signatures.extend(id_signature_pairs);\n')))]),
 ('g7-rm-q', G, [(MI, RM, head(RM) + '''        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, &signature);
        }
        Some(signature)
    }
''')]),
 ('g7-rm-inspect', G, [(MI, RM, head(RM) + '''        let removed = self.id_signatures.remove(id);
        if let Some(signature) = &removed {
            self.bands.iter_mut().for_each(|band| band.remove(id, signature));
        }
        removed
    }
''')]),
 ('g7-br-two', G, [(MI, BR, sub(BR, (BR[BR.index('        let removed'):], '''        let mut known = Vec::with_capacity(ids.len());
        let mut removed = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                known.push(id);
                removed.push(signature);
            }
        }
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in known.iter().zip(&removed) {
                band.remove(id, signature);
            }
        });
        removed
    }
''')))]),
 ('b7-br-two', 'bug:C03', [(MI, BR, sub(BR, (BR[BR.index('        let removed'):], '''        let mut known = Vec::with_capacity(ids.len());
        let mut removed = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                removed.push(signature);
            }
            known.push(id);
        }
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in known.iter().zip(&removed) {
                band.remove(id, signature);
            }
        });
        removed
    }
''')))]),
 ('g7-ni-common', G, [(MI, NI, '''    fn from_parts(bands: Vec<MinHashBand<T, Id, C>>, num_bands: usize, band_width: usize, jaccard_threshold: f64, capacity: usize) -> Self {
        let mut id_signatures = HashMap::with_hasher(ahash::RandomState::new());
        id_signatures.reserve(capacity);
        MinHashIndex {
            num_hashes: num_bands * band_width,
            r: band_width,
            b: num_bands,
            threshold: jaccard_threshold,
            id_signatures,
            bands,
        }
    }

''' + head(NI) + '''        let build_hasher = RandomState::new();
        let bands = (0..num_bands)
            .map(|band| band * band_width)
            .map(|start| MinHashBand::<T, Id, C>::new(start, start + band_width, build_hasher.clone()))
            .collect();
        Self::from_parts(bands, num_bands, band_width, jaccard_threshold, 1000)
    }
''')]),
 ('g7-ni-while', G, [(MI, NI, sub(NI, ('''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
''', '''        let mut end = 0;
        while bands.len() < num_bands {
            let start = end;
            end = start + band_width;
''')))]),
 ('g7-ni-step', G, [(MI, NI, sub(NI, ('''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
''', '''        let mut start = 0;
        for _ in 0..num_bands {
            let end = start + band_width;
'''), ('build_hasher.clone()));\n', 'build_hasher.clone()));\n            start = end;\n')))]),
 ('b7-ni-step', 'bug:C02', [(MI, NI, sub(NI, ('''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
''', '''        let mut start = 0;
        for i in 0..num_bands {
            let end = start + band_width;
'''), ('build_hasher.clone()));\n', 'build_hasher.clone()));\n            start = if i % 64 == 63 { start } else { end };\n')))]),
 ('b7-nc-seed', G, [(MI, NC, sub(NC, ('band_capacity, build_hasher.clone()', 'band_capacity, if i < 256 { build_hasher.clone() } else { RandomState::new() }')))]),
 ('b7-thr', 'bug:C01', [(MI, NC, sub(NC, ('threshold: jaccard_threshold', 'threshold: jaccard_threshold.min(expected_similarity_ratio.max(0.5))')))]),
 # ---- simhash bits and hashers
 ('g7-bits-len', G, [(SM, '                mem::size_of::<$T>() * 8\n', '                <$T>::BITS as usize\n')]),
 ('g7-bits-dist', G, [(SM, '                (self ^ rhs).count_ones() as usize\n', '                let differing = *self ^ *rhs;\n                SimHashBits::count_ones(differing)\n')]),
 ('b7-bits-dist', 'bug:C13,C14,C15', [(SM, '                (self ^ rhs).count_ones() as usize\n', '                ((self ^ rhs) as u64).count_ones() as usize\n')]),
 ('b7-sip-key', 'bug:C09', [(HS, '        let mut sip = SipHasher128::new_with_keys(self.key1, self.key2);\n', '        let mut sip = SipHasher128::new_with_keys(self.key1, self as *const Self as u64 ^ self.key2);\n')]),
 # ---- native
 ('g7-n-text', G, [(PM, '''                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()
''', '''                docs.par_iter().map(|doc| match self.lowercase {
                    true => self.tokenize_and_minhash(&doc.to_lowercase()),
                    false => self.tokenize_and_minhash(doc),
                }).collect()
''')]),
 ('g7-n-cow', G, [(PM, '''            pub fn query(&self, doc: &str) -> Vec<i64> {
                let signature = if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.tokenize_and_minhash(doc.as_str())
                } else {
                    self.tokenize_and_minhash(doc)
                };
                self.inner
                    .query_owned(&signature)
                    .into_iter()
                    .collect()
''', '''            pub fn query(&self, doc: &str) -> Vec<i64> {
                let doc: std::borrow::Cow<str> = if self.lowercase { doc.to_lowercase().into() } else { doc.into() };
                let signature = self.tokenize_and_minhash(&doc);
                let ids = self.inner.query_owned(&signature);
                ids.into_iter().collect::<Vec<i64>>()
''')]),
 ('g7-n-bulk', G, [(PM, '''                for id_tokens in ids.iter().zip(tokens.iter()) {
                    self.inner.insert(
                        *id_tokens.0,
                        self.min_hash.create_signature(id_tokens.1.iter()),
                    );
                }
''', '''                for (id, tokens) in ids.into_iter().zip(tokens) {
                    self.insert_tokens(id, tokens);
                }
''')]),
 ('b7-n-trim', 'bug:C22', [(PM, '''                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.to_lowercase();
''', '''                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.trim_end().to_lowercase();
''')]),
 ('b7-n-ascii', 'bug:C22', [(PM, '''            pub fn query_return_similarity(&self, doc: &str) -> Vec<(i64, f64)> {
                let signature = if self.lowercase {
                    let doc = doc.to_lowercase();
''', '''            pub fn query_return_similarity(&self, doc: &str) -> Vec<(i64, f64)> {
                let signature = if self.lowercase {
                    let doc = doc.to_ascii_lowercase();
''')]),
 ('b7-n-100', 'bug:C06,C22', [(PM, '''                    let signatures = self.bulk_hash_docs(docs);
                    self.inner.par_bulk_insert(ids, signatures);
''', '''                    let mut ids = ids;
                    ids.dedup();
                    let signatures = self.bulk_hash_docs(docs);
                    self.inner.par_bulk_insert(ids, signatures);
''')]),
]
