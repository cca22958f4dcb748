I = 'gaoya/src/minhash/minhash_index.rs'
RET = '''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }
'''
QH = '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }

'''
Q = QH + RET
QOH = '''    {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query_to_owned(query_signature, &mut match_ids);
        }
'''
QO = QOH + RET
Q1 = '''        match_ids.into_iter()
            .map(|id| (id, self.id_signatures.get(&id)))
            .filter(|(id, sig)| sig.is_some())
            .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
'''
INS = '''        assert_eq!(self.num_hashes(), signature.len());
        for band in &mut self.bands {
            band.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
'''
PBI = '''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }

        self.bands.par_iter_mut().for_each(|band| {
            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }
        });

        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
'''
PBP = '''        for (_, signature) in &id_signature_pairs {
            assert_eq!(self.num_hashes(), signature.len());
        }

        self.bands.par_iter_mut().for_each(|band| {
            for item in id_signature_pairs.iter() {
                let i: &(Id, Vec<T>) = item;
                let (a, b) = i;
                let k: Id = a.clone();
                band.insert(k, b);
            }
        });

        for id_hash in id_signature_pairs {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
'''
REM = '''        match self.id_signatures.remove(id) {
            Some(signature) => {
                self
                    .bands
                    .iter_mut()
                    .for_each(|band| band.remove(id, &signature));
                Some(signature)
            }
            None => None
        }
'''
BREM = '''        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
            .collect();

        self.bands.par_iter_mut()
            .for_each(|band| {
                removed.iter()
                    .for_each(|(id, sig)| band.remove(id, sig))
            });
        removed.into_iter().map(|(_, sig)| sig).collect()
'''
RS = '''        let mut result = Vec::new();
        for id in match_ids.into_iter() {
            // A band may still hold an id whose signature was overwritten and then removed
            if let Some(signature) = self.id_signatures.get(&id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    result.push((id, similarity))
                }
            }
        }
        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());

        result
'''
TK = '''        let mut ids_distances: Vec<(Id, f64)> = match_ids
            .into_iter()
            .filter_map(|id| {
                // A band may still hold an id whose signature was overwritten and then removed
                let signature = self.id_signatures.get(&id)?;
                let distance = compute_minhash_distance(query_signature, signature);
                Some((id, distance))
            })
            .collect();
        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()
'''
QBI = '''        match self.id_signatures.get(id) {
            Some(signature) => self.query(signature),
            None => HashSet::new()
        }
'''
QBIO = '''        match self.id_signatures.get(id) {
            Some(signature) => self.query_owned(signature),
            None => HashSet::new()
        }
'''
BREMV = '''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => {
                ids.remove(id);
                if ids.is_empty() {
                    self.hash_table.remove(&band_key);
                }
            }
            None => (),
        }
'''
BQ = '''        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        match self.hash_table.get(&band_key) {
            Some(ids) =>  ids.copy_refs_to(match_ids),
            None => (),
        }
'''
BQO = '''        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        match self.hash_table.get(&band_key) {
            Some(ids) => {
                ids.copy_to(match_ids);
            }
            None => (),
        }
'''
BI = '''        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        self.hash_table
            .entry(band_key)
            .or_insert_with(|| C::new())
            .push(id);
'''
NEW = '''        let mut bands = Vec::new();
        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
        }
'''
NEWC = '''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, build_hasher.clone()));
        }
'''
BINS = '''    #[inline]
    fn insert(&mut self, id: Id, signature: &[T]) {
'''
KEYF = '''    #[inline]
    fn band_key(&self, signature: &[T]) -> BandKey {
        let band = &signature[self.band_start..self.band_end];
        BandKey::new(band, self.build_ahash.build_hasher())
    }

'''
OPN = '    pub fn query_one(&self, query_signature: &Vec<T>) -> Option<(&Id, f64)> {\n'
CAND = '''    fn candidates(&self, query_signature: &[T]) -> HashSet<&Id> {
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
        match_ids
    }

'''
CANDO = '''    fn owned_candidates(&self, query_signature: &[T]) -> HashSet<Id> {
        let mut match_ids = HashSet::with_capacity(10);
        self.bands.iter().for_each(|band| band.query_to_owned(query_signature, &mut match_ids));
        match_ids
    }

'''
G = 'benign'
MUTS = [
 ('ig-cand', G, [(I, Q, CAND + '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = self.candidates(query_signature);
''' + RET)]),
 ('ig-cand2', G, [(I, Q, CAND + '''    fn passes(&self, id: &Id, query_signature: &[T]) -> bool {
        self.id_signatures.get(id)
            .map_or(false, |signature| compute_minhash_similarity(signature, query_signature) >= self.threshold)
    }

    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        self.candidates(query_signature).into_iter().filter(|id| self.passes(id, query_signature)).collect()
    }
''')]),
 ('ig-qloop', G, [(I, Q, QH.replace('for band in &self.bands', 'for band in self.bands.iter()') + '''        let mut result = HashSet::new();
        for id in match_ids {
            if let Some(signature) = self.id_signatures.get(id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity < self.threshold {
                    continue;
                }
                result.insert(id);
            }
        }
        result
    }
''')]),
 ('ig-qmatches', G, [(I, RET, '''        match_ids.retain(|id| matches!(self.id_signatures.get(id), Some(s) if compute_minhash_similarity(s, query_signature) >= self.threshold));
        match_ids
    }
''')]),
 ('ig-qowned-deleg', G, [(I, QO, '''    {
        self.query(query_signature).into_iter().cloned().collect()
    }
''')]),
 ('ig-qowned-deleg2', G, [(I, QO, '''    {
        let refs = self.query(query_signature);
        let mut out = HashSet::with_capacity(refs.len());
        for id in refs {
            out.insert(id.clone());
        }
        out
    }
''')]),
 ('ig-q1-loop', G, [(I, Q1, '''        let mut best: Option<(&Id, f64)> = None;
        for id in match_ids {
            if let Some(signature) = self.id_signatures.get(id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    match best {
                        Some((_, s)) if s >= similarity => (),
                        _ => best = Some((id, similarity)),
                    }
                }
            }
        }
        best
''')]),
 ('ig-q1-fm', G, [(I, Q1, '''        match_ids.into_iter()
            .filter_map(|id| {
                let signature = self.id_signatures.get(id)?;
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold { Some((id, similarity)) } else { None }
            })
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
''')]),
 ('ig-q1-total', G, [(I, Q1, Q1.replace('x.1.partial_cmp(&y.1).unwrap()', 'x.1.total_cmp(&y.1)'))]),
 ('ig-q1-flip', G, [(I, Q1, Q1.replace('max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())', 'min_by(|x, y| y.1.partial_cmp(&x.1).unwrap())'))]),
 ('ig-ins-order', G, [(I, INS, '''        assert_eq!(signature.len(), self.num_hashes());
        self.id_signatures.insert(id.clone(), signature.clone());
        self.bands.iter_mut().for_each(|band| band.insert(id.clone(), &signature));
''')]),
 ('ig-ins-if', G, [(I, INS, '''        if signature.len() != self.num_hashes {
            panic!("signature has {} hashes, expected {}", signature.len(), self.num_hashes);
        }
        for i in 0..self.bands.len() {
            self.bands[i].insert(id.clone(), &signature[..]);
        }
        self.id_signatures.insert(id, signature);
''')]),
 ('ig-ins-helper', G, [(I, INS, '''        self.check_len(&signature);
        for band in self.bands.iter_mut() {
            let id = id.clone();
            band.insert(id, signature.as_slice());
        }
        let _previous = self.id_signatures.insert(id, signature);
'''), (I, '    pub fn par_bulk_insert(&mut', '''    #[inline]
    fn check_len(&self, signature: &[T]) {
        assert!(signature.len() == self.num_hashes, "wrong signature length");
    }

    pub fn par_bulk_insert(&mut''')]),
 ('ig-pbi-all', G, [(I, PBI, '''        let num_hashes = self.num_hashes();
        assert!(signatures.iter().all(|s| s.len() == num_hashes));
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in ids.iter().zip(&signatures) {
                band.insert(id.clone(), signature);
            }
        });
        for (id, signature) in ids.into_iter().zip(signatures) {
            self.id_signatures.insert(id, signature);
        }
''')]),
 ('ig-pbi-ext', G, [(I, PBI, PBI[:PBI.index('        for id_hash')] + '''        self.id_signatures.extend(ids.into_iter().zip(signatures.into_iter()));
''')]),
 ('ig-pbi-idx', G, [(I, PBI, '''        for signature in signatures.iter() {
            assert_eq!(self.num_hashes(), signature.len());
        }
        self.bands.par_iter_mut().for_each(|band| {
            ids.iter().zip(signatures.iter()).for_each(|(id, sig)| band.insert(id.clone(), sig));
        });
        ids.into_iter().zip(signatures).for_each(|(id, sig)| {
            self.id_signatures.insert(id, sig);
        });
''')]),
 ('ig-pbi-deleg', G, [(I, PBI, '''        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures).collect());
''')]),
 ('ig-pbp-deleg', G, [(I, PBP, '''        let (ids, signatures): (Vec<Id>, Vec<Vec<T>>) = id_signature_pairs.into_iter().unzip();
        self.par_bulk_insert(ids, signatures);
''')]),
 ('ig-pbp-destr', G, [(I, PBP, '''        for pair in id_signature_pairs.iter() {
            assert_eq!(self.num_hashes(), pair.1.len());
        }
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in &id_signature_pairs {
                band.insert(id.clone(), signature);
            }
        });
        for (id, signature) in id_signature_pairs {
            self.id_signatures.insert(id, signature);
        }
''')]),
 ('ig-pbp-reserve', G, [(I, PBP, PBP.replace('        for id_hash', '        self.id_signatures.reserve(id_signature_pairs.len());\n        for id_hash'))]),
 ('ig-pbp-seq', G, [(I, PBP, '''        for (_, signature) in &id_signature_pairs {
            assert_eq!(self.num_hashes(), signature.len());
        }
        for (id, signature) in id_signature_pairs {
            self.insert(id, signature);
        }
''')]),
 ('ig-rem-q', G, [(I, REM, '''        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, &signature);
        }
        Some(signature)
''')]),
 ('ig-rem-iflet', G, [(I, REM, '''        let removed = self.id_signatures.remove(id);
        if let Some(ref signature) = removed {
            for band in &mut self.bands {
                band.remove(id, signature);
            }
        }
        removed
''')]),
 ('ig-rem-map', G, [(I, REM, '''        self.id_signatures.remove(id).map(|signature| {
            self.bands.iter_mut().for_each(|band| band.remove(id, &signature));
            signature
        })
''')]),
 ('ig-rem-getfirst', G, [(I, REM, '''        if !self.id_signatures.contains_key(id) {
            return None;
        }
        let signature = self.id_signatures.remove(id).unwrap();
        self.bands.iter_mut().for_each(|band| band.remove(id, &signature));
        Some(signature)
''')]),
 ('ig-rem-entryorder', G, [(I, REM, '''        if let Some(signature) = self.id_signatures.get(id) {
            for band in self.bands.iter_mut() {
                band.remove(id, signature);
            }
        }
        self.id_signatures.remove(id)
''')]),
 ('ig-brem-loop', G, [(I, BREM, '''        let mut removed = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                removed.push((id, signature));
            }
        }
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in &removed {
                band.remove(id, signature);
            }
        });
        removed.into_iter().map(|pair| pair.1).collect()
''')]),
 ('ig-brem-deleg', G, [(I, BREM, '''        ids.iter().filter_map(|id| self.remove(id)).collect()
''')]),
 ('ig-brem-deleg2', G, [(I, BREM, '''        let mut result = Vec::new();
        for id in ids.iter() {
            if let Some(signature) = self.remove(id) {
                result.push(signature);
            }
        }
        result
''')]),
 ('ig-rs-fm', G, [(I, RS, '''        let mut result: Vec<(Id, f64)> = match_ids.into_iter()
            .filter_map(|id| {
                let signature = self.id_signatures.get(&id)?;
                let similarity = compute_minhash_similarity(signature, query_signature);
                Some((id, similarity))
            })
            .filter(|(_, similarity)| *similarity >= self.threshold)
            .collect();
        result.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        result
''')]),
 ('ig-rs-rev', G, [(I, RS, RS.replace('sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap())', 'sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().reverse())'))]),
 ('ig-rs-total', G, [(I, RS, RS.replace('b.1.partial_cmp(&a.1).unwrap()', 'b.1.total_cmp(&a.1)'))]),
 ('ig-rs-names', G, [(I, RS, RS.replace('|a, b| b.1.partial_cmp(&a.1).unwrap()', '|(_, left), (_, right)| right.partial_cmp(left).unwrap()'))]),
 ('ig-rs-cand', G, [(I, QOH + '        let mut result', '''    {
        assert_eq!(self.num_hashes(), query_signature.len());
        let match_ids = self.owned_candidates(query_signature);
        let mut result'''), (I, '    pub fn query_top_k', CANDO + '    pub fn query_top_k')]),
 ('ig-tk-trunc', G, [(I, TK, TK.replace('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()\n', '        ids_distances.truncate(k);\n        ids_distances\n'))]),
 ('ig-tk-take', G, [(I, TK, TK.replace('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()\n', '        ids_distances.into_iter().take(k).collect()\n'))]),
 ('ig-tk-loop', G, [(I, TK, '''        let mut ids_distances = Vec::with_capacity(match_ids.len());
        for id in match_ids {
            let distance = match self.id_signatures.get(&id) {
                Some(signature) => compute_minhash_distance(signature, query_signature),
                None => continue,
            };
            ids_distances.push((id, distance));
        }
        ids_distances.sort_by(|x, y| x.1.partial_cmp(&y.1).unwrap());
        let n = k.min(ids_distances.len());
        ids_distances[..n].to_vec()
''')]),
 ('ig-qbi-map', G, [(I, QBI, '''        self.id_signatures.get(id).map(|s| self.query(s)).unwrap_or_default()
'''), (I, QBIO, '''        self.id_signatures.get(id).map_or_else(HashSet::new, |s| self.query_owned(s))
''')]),
 ('ig-qbi-iflet', G, [(I, QBI, '''        if let Some(signature) = self.get_signature(id) {
            return self.query(signature);
        }
        HashSet::new()
'''), (I, QBIO, '''        self.query_by_id(id).into_iter().cloned().collect()
''')]),
 ('ig-key', G, [(I, BI, '''        let band_key = self.band_key(signature);
        self.hash_table.entry(band_key).or_insert_with(C::new).push(id);
'''), (I, BQ, '''        if let Some(ids) = self.hash_table.get(&self.band_key(signature)) {
            ids.copy_refs_to(match_ids);
        }
'''), (I, BQO, '''        if let Some(ids) = self.hash_table.get(&self.band_key(signature)) {
            ids.copy_to(match_ids)
        }
'''), (I, BINS, KEYF + BINS)]),
 ('ig-bi-match', G, [(I, BI, '''        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        match self.hash_table.get_mut(&band_key) {
            Some(ids) => ids.push(id),
            None => {
                let mut ids = C::new();
                ids.push(id);
                self.hash_table.insert(band_key, ids);
            }
        }
''')]),
 ('ig-bi-len', G, [(I, BI, BI.replace('[self.band_start..self.band_end]', '[self.band_start..self.band_start + self.len]'))]),
 ('ig-brm-iflet', G, [(I, BREMV, '''        let mut drop_bucket = false;
        if let Some(ids) = self.hash_table.get_mut(&band_key) {
            ids.remove(id);
            drop_bucket = ids.is_empty();
        }
        if drop_bucket {
            self.hash_table.remove(&band_key);
        }
''')]),
 ('ig-brm-len', G, [(I, BREMV, BREMV.replace('ids.is_empty()', 'ids.len() == 0'))]),
 ('ig-brm-keep', G, [(I, BREMV, '''        if let Some(ids) = self.hash_table.get_mut(&band_key) {
            ids.remove(id);
        }
''')]),
 ('ig-new-map', G, [(I, NEW, '''        let bands: Vec<_> = (0..num_bands)
            .map(|i| MinHashBand::<T, Id, C>::new(i * band_width, (i + 1) * band_width, build_hasher.clone()))
            .collect();
''')]),
 ('ig-new-step', G, [(I, NEW, '''        let mut bands = Vec::with_capacity(num_bands);
        let mut start = 0;
        for _ in 0..num_bands {
            let end = start + band_width;
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
            start = end;
        }
''')]),
 ('ig-new-startw', G, [(I, NEW, NEW.replace('(i * band_width, (i + 1) * band_width)', '(i * band_width, i * band_width + band_width)')), (I, NEWC, NEWC.replace('(i * band_width, (i + 1) * band_width)', '(band_width * i, band_width * i + band_width)'))]),
 ('ig-newc-map', G, [(I, '        let mut bands = Vec::new();\n        let build_hasher', '        let build_hasher'), (I, NEWC, '''        let bands = (0..num_bands).map(|i| {
            let start = i * band_width;
            MinHashBand::<T, Id, C>::new_with_capacity(start, start + band_width, band_capacity, build_hasher.clone())
        }).collect::<Vec<_>>();
''')]),
 ('ig-new-deleg', G, [(I, NEW, '''        let mut bands = Vec::new();
        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, 1000, build_hasher.clone()));
        }
'''), (I, 'hash_table.reserve(1000);\n        MinHashIndex', 'hash_table.reserve(100);\n        MinHashIndex')]),
 ('ig-pbq', G, [(I, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()
''', '''        let mut results = Vec::with_capacity(signatures.len());
        for signature in signatures {
            results.push(self.query_owned(signature));
        }
        results
''')]),
 ('ig-pbqi', G, [(I, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()
''', '''        (0..signatures.len()).into_par_iter()
            .map(|i| self.query_owned(&signatures[i]))
            .collect()
''')]),
 ('ig-pbqr', G, [(I, '''            .map(|signature| self.query_owned_return_similarity(signature))
            .collect()
''', '''            .map(|signature| {
                let matches = self.query_owned_return_similarity(signature.as_slice());
                matches
            })
            .collect::<Vec<_>>()
''')]),
 ('ig-clear', G, [(I, '''        self.bands.iter_mut().for_each(|band| band.clear());
        self.id_signatures.clear();
''', '''        self.id_signatures.clear();
        for band in &mut self.bands {
            band.hash_table.clear();
        }
''')]),
 ('ig-shrink', G, [(I, '''        if min_capacity > self.id_signatures.capacity() {
            return;
        }
        self.bands.par_iter_mut()
            .for_each(|band| {
                // On average the size of every band will be lower than the size of
                // id_signatures. We adjust the desired capacity.
                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
                let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                band.shrink_to(adjusted_capacity)
            });
        self.id_signatures.shrink_to(min_capacity);
''', '''        let total = self.id_signatures.len();
        if min_capacity <= self.id_signatures.capacity() {
            for band in self.bands.iter_mut() {
                let ratio = band.hash_table.len() as f64 / total.max(1) as f64;
                band.shrink_to((min_capacity as f64 * ratio) as usize);
            }
            self.id_signatures.shrink_to(min_capacity);
        }
''')]),
 ('ig-size', G, [(I, '''        self.id_signatures.len()
    }

    pub fn capacity''', '''        self.get_id_signature_map().len()
    }

    pub fn capacity''')]),
 ('ig-numh', G, [(I, '''        self.num_hashes
    }''', '''        self.b * self.r
    }''')]),
 ('ig-field', G, [(I, 'id_signatures: HashMap<Id, Vec<T>, ahash::RandomState>,\n    threshold', 'id_signatures: AHashMap<Id, Vec<T>>,\n    threshold'),
   (I, 'HashMap::with_hasher(ahash::RandomState::new());\n        hash_table.reserve(1000);', 'AHashMap::with_hasher(ahash::RandomState::new());\n        hash_table.reserve(1000);'),
   (I, 'HashMap::with_hasher(ahash::RandomState::new());\n        hash_table.reserve(initial_capacity);', 'AHashMap::with_hasher(ahash::RandomState::new());\n        hash_table.reserve(initial_capacity);')]),
 ('ig-qaddcap', G, [(I, 'let mut match_ids = HashSet::with_capacity(10);\n        for band in &self.bands {\n            band.query(query_signature, &mut match_ids);\n        }\n\n        match_ids.retain', 'let mut match_ids = HashSet::with_capacity(self.bands.len());\n        for i in 0..self.bands.len() {\n            self.bands[i].query(query_signature, &mut match_ids);\n        }\n\n        match_ids.retain')]),
 ('ig-fold', G, [(I, QOH + RET, '''    {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = self.bands.iter().fold(HashSet::new(), |mut acc, band| {
            band.query_to_owned(query_signature, &mut acc);
            acc
        });
''' + RET)]),
]
