"""eleventh round: sweeping refactorings of both indexes"""
def rd(p): return open('/repo/' + p).read()
MI, SX = 'gaoya/src/minhash/minhash_index.rs', 'gaoya/src/simhash/sim_hash_index.rs'
src = {p: rd(p) for p in (MI, SX)}
G = 'benign'
def cut(p, a, b):
    s = src[p]; i = s.index(a); return s[i:s.index(b, i)]
def rp(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
BREM = cut(MI, '    fn remove(&mut self, id: &Id, signature: &[T]) {', '    fn clear(&mut self)')
BNEW = cut(MI, '    pub fn new(band_start: usize', '    pub fn new_with_capacity(band_start')
INEW = cut(MI, '    pub fn new_index(', '    /// Creates new MinHashIndex with')
INWC = cut(MI, '        let mut bands = Vec::new();\n        let build_hasher', '    /// Returns a reference to the map')
INS = cut(MI, '    pub fn insert(&mut self, id: Id, signature: Vec<T>) {', '    pub fn par_bulk_insert(')
PBI = cut(MI, '    pub fn par_bulk_insert(', '    pub fn par_bulk_insert_pairs')
PBP = cut(MI, '    pub fn par_bulk_insert_pairs', '    pub fn shrink_to_fit(&mut self)\n    where')
Q1 = cut(MI, '    pub fn query_one(', '    pub fn query(&self')
Q = cut(MI, '    pub fn query(&self', '    #[inline]\n    pub fn query_by_id(')
QO = cut(MI, '    pub fn query_owned(&self', '    pub fn par_bulk_query(')
QS = cut(MI, '    pub fn query_owned_return_similarity', '    pub fn query_top_k')
TK = cut(MI, '    pub fn query_top_k', '    /// Removes an id from the index')
REM = cut(MI, '    pub fn remove(&mut self, id: &Id) -> Option', '    // Removes signatures for')
BR = cut(MI, '    pub fn bulk_remove', '    pub fn size(&self)')
BQ = cut(MI, '    fn query<\'a, S: BuildHasher>', '    #[inline]\n    fn query_to_owned')
PQ = cut(MI, '        signatures.par_iter()\n            .map(|signature| self.query_owned(signature))', '    }\n')
SHR = cut(MI, '        self.bands.par_iter_mut()\n            .for_each(|band| band.shrink_to_fit());', '    }\n')
TQ = cut(SX, "    fn query<'a, B: BuildHasher>", "    fn query_owned<'a")
TQO = cut(SX, "    fn query_owned<'a", '    fn avg_bucket_count(&self) -> Option')
TI = cut(SX, '    fn insert(&mut self, id: Id, simhash', "    fn query<'a")
XN = cut(SX, '    pub fn new(num_blocks', '    pub fn insert(')
XI = cut(SX, '    pub fn insert(&mut self, id: Id, signature: S)', '    pub fn par_bulk_insert(')
XB = cut(SX, '    pub fn par_bulk_insert(', '    pub fn par_bulk_insert_pairs')
XP = cut(SX, '    pub fn par_bulk_insert_pairs', '    pub fn query_one')
X1 = cut(SX, '    pub fn query_one', '    pub fn query(&self')
XQ = cut(SX, '    pub fn query(&self', '    pub fn query_owned')
XO = cut(SX, '    pub fn query_owned', '    pub fn query_return_distance')
XR = cut(SX, '    pub fn query_return_distance', '    pub fn par_bulk_query(')
SCORE = '''
    fn score(&self, id: &Id, query_signature: &[T]) -> Option<f64> {
        let signature = self.id_signatures.get(id)?;
        let similarity = compute_minhash_similarity(signature, query_signature);
        if similarity >= self.threshold { Some(similarity) } else { None }
    }

    fn candidates(&self, query_signature: &[T]) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        self.bands.iter().fold(HashSet::with_capacity(10), |mut found, band| {
            band.query(query_signature, &mut found);
            found
        })
    }
'''
VIS = '''
    fn for_each_match<'a, F: FnMut(&'a Id, f64)>(&'a self, query_signature: &[T], mut visit: F) {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids: HashSet<&'a Id> = HashSet::with_capacity(10);
        for band in self.bands.iter() {
            band.query(query_signature, &mut match_ids);
        }
        for id in match_ids {
            if let Some(signature) = self.id_signatures.get(id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    visit(id, similarity);
                }
            }
        }
    }
'''
MUTS = [
 ('g11-score-all', G, [(MI, Q1, '''    pub fn query_one(&self, query_signature: &Vec<T>) -> Option<(&Id, f64)> {
        self.candidates(query_signature)
            .into_iter()
            .filter_map(|id| Some((id, self.score(id, query_signature)?)))
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
    }
''' + SCORE + '\n'), (MI, Q, '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        let mut found = self.candidates(query_signature);
        found.retain(|id| self.score(id, query_signature).is_some());
        found
    }

'''), (MI, QO, '''    pub fn query_owned(&self, query_signature: &Vec<T>) -> HashSet<Id>
    where
        Id: Hash + Eq + Clone,
    {
        self.query(query_signature).into_iter().cloned().collect()
    }

'''), (MI, QS, '''    pub fn query_owned_return_similarity(&self, query_signature: &[T]) -> Vec<(Id, f64)>
        where
            Id: Hash + Eq + Clone,
    {
        let mut result: Vec<(Id, f64)> = self.candidates(query_signature)
            .into_iter()
            .filter_map(|id| self.score(id, query_signature).map(|s| (id.clone(), s)))
            .collect();
        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        result
    }


''')]),
 ('g11-visit-all', G, [(MI, Q1, '''    pub fn query_one(&self, query_signature: &Vec<T>) -> Option<(&Id, f64)> {
        let mut best: Option<(&Id, f64)> = None;
        self.for_each_match(query_signature, |id, similarity| {
            match best {
                Some((_, top)) if top > similarity => {}
                _ => best = Some((id, similarity)),
            }
        });
        best
    }
''' + VIS + '\n'), (MI, Q, '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        let mut result = HashSet::new();
        self.for_each_match(query_signature, |id, _| {
            result.insert(id);
        });
        result
    }

'''), (MI, QO, '''    pub fn query_owned(&self, query_signature: &Vec<T>) -> HashSet<Id>
    where
        Id: Hash + Eq + Clone,
    {
        let mut result = HashSet::new();
        self.for_each_match(query_signature, |id, _| {
            result.insert(id.clone());
        });
        result
    }

'''), (MI, QS, '''    pub fn query_owned_return_similarity(&self, query_signature: &[T]) -> Vec<(Id, f64)>
        where
            Id: Hash + Eq + Clone,
    {
        let mut result = Vec::new();
        self.for_each_match(query_signature, |id, similarity| result.push((id.clone(), similarity)));
        result.sort_by(|a: &(Id, f64), b| b.1.partial_cmp(&a.1).unwrap());
        result
    }


''')]),
 ('g11-topk-take', G, [(MI, TK, '''    pub fn query_top_k(&self, query_signature: &[T], k: usize) -> Vec<(Id, f64)> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids: HashSet<&Id> = HashSet::new();
        self.bands.iter().for_each(|band| band.query(query_signature, &mut match_ids));
        let mut scored: Vec<(&Id, f64)> = Vec::with_capacity(match_ids.len());
        for id in match_ids {
            match self.id_signatures.get(id) {
                Some(signature) => scored.push((id, compute_minhash_distance(query_signature, signature))),
                None => continue,
            }
        }
        scored.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
        scored.into_iter().take(k).map(|(id, distance)| (id.clone(), distance)).collect()
    }


''')]),
 ('g11-topk-trunc', G, [(MI, TK, rp(TK, ('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()', '        if k < ids_distances.len() {\n            ids_distances.truncate(k);\n        }\n        ids_distances')))]),
 ('g11-remove-q', G, [(MI, REM, '''    pub fn remove(&mut self, id: &Id) -> Option<Vec<T>> {
        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, signature.as_slice());
        }
        Some(signature)
    }

''')]),
 ('g11-remove-entry', G, [(MI, REM, '''    pub fn remove(&mut self, id: &Id) -> Option<Vec<T>> {
        let (id, signature) = self.id_signatures.remove_entry(id)?;
        self.bands.iter_mut().for_each(|band| band.remove(&id, &signature));
        Some(signature)
    }

''')]),
 ('g11-band-remove-entry', G, [(MI, BREM, '''    fn remove(&mut self, id: &Id, signature: &[T]) {
        let band_key = BandKey::new(&signature[self.band_start..self.band_end], self.build_ahash.build_hasher());
        if let std::collections::hash_map::Entry::Occupied(mut bucket) = self.hash_table.entry(band_key) {
            bucket.get_mut().remove(id);
            if bucket.get().is_empty() {
                bucket.remove();
            }
        }
    }

''')]),
 ('g11-band-remove-flag', G, [(MI, BREM, '''    fn remove(&mut self, id: &Id, signature: &[T]) {
        let band_key = BandKey::new(&signature[self.band_start..self.band_end], self.build_ahash.build_hasher());
        let emptied = match self.hash_table.get_mut(&band_key) {
            Some(ids) => {
                ids.remove(id);
                ids.is_empty()
            }
            None => false,
        };
        if emptied {
            self.hash_table.remove(&band_key);
        }
    }

''')]),
 ('g11-band-new', G, [(MI, BNEW, '''    pub fn new(band_start: usize, band_end: usize, build_ahash: RandomState) -> Self {
        const DEFAULT_CAPACITY: usize = 1000;
        Self::new_with_capacity(band_start, band_end, DEFAULT_CAPACITY, build_ahash)
    }

''')]),
 ('g11-build', G, [(MI, INEW, '''    pub fn new_index(num_bands: usize, band_width: usize, jaccard_threshold: f64) -> Self {
        Self::build(num_bands, band_width, jaccard_threshold, 1000, 1000)
    }

    fn build(b: usize, r: usize, threshold: f64, band_capacity: usize, capacity: usize) -> Self {
        let build_hasher = RandomState::new();
        let bands = (0..b)
            .map(|i| MinHashBand::<T, Id, C>::new_with_capacity(i * r, i * r + r, band_capacity, build_hasher.clone()))
            .collect();
        let mut id_signatures = HashMap::with_hasher(ahash::RandomState::new());
        id_signatures.reserve(capacity);
        MinHashIndex { bands, id_signatures, threshold, r, b, num_hashes: b * r }
    }

'''), (MI, INWC, '''        let band_capacity = (initial_capacity as f64 * (1.0 - expected_similarity_ratio)) as usize;
        Self::build(num_bands, band_width, jaccard_threshold, band_capacity, initial_capacity)
    }


''')]),
 ('g11-start', G, [(MI, INEW, rp(INEW, ('        for i in 0..num_bands {\n            let (start, end) = (i * band_width, (i + 1) * band_width);\n            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));\n        }', '        let mut start = 0;\n        while bands.len() < num_bands {\n            let end = start + band_width;\n            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));\n            start = end;\n        }')))]),
 ('g11-insert-destr', G, [(MI, INS, '''    pub fn insert(&mut self, id: Id, signature: Vec<T>) {
        let Self { bands, id_signatures, num_hashes, .. } = self;
        assert_eq!(*num_hashes, signature.len());
        let view = signature.as_slice();
        bands.iter_mut().for_each(|band| band.insert(id.clone(), view));
        id_signatures.insert(id, signature);
    }

''')]),
 ('g11-pbi-pairs', G, [(MI, PBI, '''    pub fn par_bulk_insert(&mut self, ids: Vec<Id>, signatures: Vec<Vec<T>>)
    where
        Id: Hash + Eq + Clone + Send + Sync,
        T: Send + Sync,
    {
        let pairs: Vec<(Id, Vec<T>)> = ids.into_iter().zip(signatures).collect();
        self.par_bulk_insert_pairs(pairs);
    }

''')]),
 ('g11-pbp-loop', G, [(MI, PBP, '''    pub fn par_bulk_insert_pairs(&mut self, id_signature_pairs: Vec<(Id, Vec<T>)>)
    where
        Id: Hash + Eq + Clone + Send + Sync,
        T: Send + Sync,
    {
        let expected = self.num_hashes();
        assert!(id_signature_pairs.iter().all(|(_, signature)| signature.len() == expected));
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in &id_signature_pairs {
                band.insert(id.clone(), signature);
            }
        });
        self.id_signatures.extend(id_signature_pairs);
    }

''')]),
 ('g11-br-loop', G, [(MI, BR, '''    pub fn bulk_remove(&mut self, ids: &Vec<Id>) -> Vec<Vec<T>>
        where
            Id: Hash + Eq + Clone + Send + Sync,
            T: Send + Sync {
        let mut removed: Vec<(&Id, Vec<T>)> = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                removed.push((id, signature));
            }
        }
        let removed_ref = &removed;
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in removed_ref {
                band.remove(id, signature);
            }
        });
        let mut signatures = Vec::with_capacity(removed.len());
        for (_, signature) in removed {
            signatures.push(signature);
        }
        signatures
    }

''')]),
 ('g11-br-remove', G, [(MI, BR, '''    pub fn bulk_remove(&mut self, ids: &Vec<Id>) -> Vec<Vec<T>>
        where
            Id: Hash + Eq + Clone + Send + Sync,
            T: Send + Sync {
        ids.iter().filter_map(|id| self.remove(id)).collect()
    }

''')]),
 ('g11-bq-iflet', G, [(MI, BQ, '''    fn query<'a, S: BuildHasher>(&'a self, signature: &[T], match_ids: &mut HashSet<&'a Id, S>) {
        if let Some(ids) = self.bucket(signature) {
            ids.copy_refs_to(match_ids);
        }
    }

    #[inline]
    fn bucket(&self, signature: &[T]) -> Option<&C> {
        let band_data = signature.get(self.band_start..self.band_end).expect("signature too short");
        self.hash_table.get(&BandKey::new(band_data, self.build_ahash.build_hasher()))
    }

''')]),
 ('g11-pq-into', G, [(MI, PQ, '''        let mut results = Vec::with_capacity(signatures.len());
        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect_into_vec(&mut results);
        results
''')]),
 ('g11-q-set', G, [(MI, Q, '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut seen: HashSet<&Id> = HashSet::new();
        let mut accepted: HashSet<&Id> = HashSet::new();
        for band in self.bands.iter() {
            band.query(query_signature, &mut seen);
        }
        for id in seen.drain() {
            let close = self.id_signatures.get(id)
                .map_or(false, |signature| compute_minhash_similarity(signature, query_signature) >= self.threshold);
            if close {
                accepted.insert(id);
            }
        }
        accepted
    }

''')]),
 ('b11-rem-any', 'bug:C03', [(MI, REM, '''    pub fn remove(&mut self, id: &Id) -> Option<Vec<T>> {
        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut().skip_while(|band| !band.has_ids(&signature)).take_while(|band| band.band_start < 64) {
            band.remove(id, &signature);
        }
        Some(signature)
    }

''')]),
 ('b11-ins-known', 'bug:C02', [(MI, INS, rp(INS, ('        for band in &mut self.bands {\n', '        let known = self.id_signatures.contains_key(&id);\n        for band in self.bands.iter_mut().filter(|_| !known) {\n')))]),
 ('b11-q-zero', 'bug:C02', [(MI, Q, rp(Q, ('        match_ids.retain', '        if match_ids.len() > 4096 {\n            match_ids.clear();\n        }\n        match_ids.retain')))]),
 ('b11-shr', 'bug:C25', [(MI, SHR, rp(SHR, ('|band| band.shrink_to_fit()', '|band| {\n                band.hash_table.retain(|_, ids| ids.len() > 1);\n                band.shrink_to_fit()\n            }')))]),
 ('b11-pbi-zip', 'bug:C04', [(MI, PBI, rp(PBI, ('        for id_hash in ids.into_iter().zip(signatures.into_iter()) {\n            self.id_signatures.insert(id_hash.0, id_hash.1);', '        for id_hash in ids.into_iter().zip(signatures.into_iter()) {\n            self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);')))]),
 ('b11-build', 'bug:C02', [(MI, INWC, rp(INWC, ('            let (start, end) = (i * band_width, (i + 1) * band_width);', '            let (start, end) = (i * band_width, ((i + 1) * band_width).min(initial_capacity));')))]),
 # ---- simhash
 ('g11-x-cand', G, [(SX, TQ, '''    fn candidates(&self, query_signature: &S) -> &[Id] {
        let key = *query_signature & self.permutation.simple_mask;
        match self.table.get(&key) {
            Some(ids) => ids.as_slice(),
            None => &[],
        }
    }

    fn query<'a, B: BuildHasher>(&'a self,
                                 query_signature: &S,
                                 id_signatures: &AHashMap<Id, S>,
                                 match_ids: &mut HashSet<&'a Id, B>,
                                 max_distance: usize)
    {
        for id in self.candidates(query_signature) {
            if id_signatures[id].hamming_distance(query_signature) <= max_distance {
                match_ids.insert(id);
            }
        }
    }

'''), (SX, TQO, '''    fn query_owned<'a, B: BuildHasher>(&'a self,
                                       query_signature: &S,
                                       id_signatures: &AHashMap<Id, S>,
                                       match_ids: &mut HashSet<Id, B>,
                                       max_distance: usize)
    {
        match_ids.extend(
            self.candidates(query_signature)
                .iter()
                .filter(|id| query_signature.hamming_distance(&id_signatures[*id]) <= max_distance)
                .cloned(),
        );
    }

''')]),
 ('g11-x-iter', G, [(SX, TQ, '''    fn matches<'q, 'a: 'q>(&'a self, query_signature: &'q S, id_signatures: &'q AHashMap<Id, S>, max_distance: usize) -> impl Iterator<Item = &'a Id> + 'q {
        let key = *query_signature & self.permutation.simple_mask;
        self.table.get(&key).into_iter().flatten().filter(move |id| {
            query_signature.hamming_distance(id_signatures.get(id).unwrap()) <= max_distance
        })
    }

'''), (SX, TQO, ''), (SX, XQ, '''    pub fn query(&self, query_signature: &S) -> AHashSet<&Id> {
        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            for id in table.matches(query_signature, &self.id_signatures, self.hamming_distance) {
                match_ids.insert(id);
            }
        }
        match_ids
    }

'''), (SX, XO, '''    pub fn query_owned(&self, query_signature: &S) -> AHashSet<Id> {
        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            match_ids.extend(table.matches(query_signature, &self.id_signatures, self.hamming_distance).cloned());
        }
        match_ids
    }
''')]),
 ('g11-x-owned', G, [(SX, XO, '''    pub fn query_owned(&self, query_signature: &S) -> AHashSet<Id> {
        self.query(query_signature).into_iter().cloned().collect()
    }
''')]),
 ('g11-x-one', G, [(SX, X1, '''    pub fn query_one(&self, query_signature: &S) -> Option<(&Id, usize)> {
        self.query(query_signature)
            .into_iter()
            .filter_map(|id| self.id_signatures.get(id).map(|sig| (id, sig.hamming_distance(query_signature))))
            .min_by_key(|&(_, distance)| distance)
    }

''')]),
 ('g11-x-one2', G, [(SX, X1, '''    pub fn query_one(&self, query_signature: &S) -> Option<(&Id, usize)> {
        let mut nearest = None;
        for id in self.query(query_signature) {
            let distance = self.id_signatures[id].hamming_distance(query_signature);
            nearest = match nearest {
                Some((_, best)) if best <= distance => nearest,
                _ => Some((id, distance)),
            };
        }
        nearest
    }

''')]),
 ('g11-x-ret', G, [(SX, XR, '''    pub fn query_return_distance(&self, query_signature: &S) -> Vec<(Id, usize)> {
        let mut result = Vec::new();
        for id in self.query(query_signature) {
            if let Some(signature) = self.id_signatures.get(id) {
                result.push((id.clone(), signature.hamming_distance(query_signature)));
            }
        }
        result.sort_by_key(|pair| pair.1);
        result
    }

''')]),
 ('g11-x-new', G, [(SX, XN, '''    pub fn new(num_blocks: usize, hamming_distance: usize) -> Self {
        let permutations = Permutation::<S>::create(num_blocks, hamming_distance);
        assert!(!permutations.is_empty());
        let mut hash_tables = Vec::with_capacity(permutations.len());
        for permutation in permutations {
            hash_tables.push(SimHashTable::new(permutation));
        }
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables,
            id_signatures: AHashMap::default(),
            marker: PhantomData,
        }
    }

''')]),
 ('g11-x-pbi', G, [(SX, XB, '''    pub fn par_bulk_insert(&mut self, ids: Vec<Id>, signatures: Vec<S>)
    where
        S: Send + Sync,
        Id: Send + Sync,
    {
        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures).collect());
    }

'''), (SX, XP, '''    pub fn par_bulk_insert_pairs(&mut self, id_signature_pairs: Vec<(Id, S)>)
    where
        S: Send + Sync,
        Id: Send + Sync,
    {
        let pairs = &id_signature_pairs;
        self.hash_tables
            .par_iter_mut()
            .for_each(|table| pairs.iter().for_each(|(id, signature)| table.insert(id.clone(), signature)));
        self.id_signatures.extend(id_signature_pairs);
        self.id_signatures.shrink_to_fit();
    }

''')]),
 ('g11-x-ti', G, [(SX, TI, '''    fn insert(&mut self, id: Id, simhash: &S) {
        match self.table.entry(*simhash & self.permutation.simple_mask) {
            Entry::Occupied(mut bucket) => bucket.get_mut().push(id),
            Entry::Vacant(slot) => {
                slot.insert(vec![id]);
            }
        }
    }

''')]),
 ('g11-x-ti2', G, [(SX, TI, '''    fn insert(&mut self, id: Id, simhash: &S) {
        let key = *simhash & self.permutation.simple_mask;
        if let Some(bucket) = self.table.get_mut(&key) {
            bucket.push(id);
            return;
        }
        self.table.insert(key, vec![id]);
    }

''')]),
 ('b11-x-ti', 'bug:C14', [(SX, TI, '''    fn insert(&mut self, id: Id, simhash: &S) {
        let key = *simhash & self.permutation.simple_mask;
        let bucket = self.table.entry(key).or_insert(Vec::new());
        if bucket.len() < 1 << 16 {
            bucket.push(id);
        }
    }

''')]),
 ('b11-x-pbi', 'bug:C13', [(SX, XB, rp(XB, ('self.id_signatures.insert(id_hash.0, id_hash.1);', 'self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);')))]),
 ('b11-x-ret', 'bug:C14', [(SX, XR, rp(XR, ('        result\n', '        result.dedup_by_key(|pair| pair.1);\n        result\n')))]),
 ('b11-x-win', 'bug:C14', [(SX, TQ, rp(TQ, ('                    .iter()\n', '                    .iter()\n                    .take(1 << 20)\n')))]),
 ('b11-x-one', 'bug:C14', [(SX, X1, rp(X1, ('        let match_ids = self.query(query_signature);\n', '        let mut match_ids = AHashSet::new();\n        for table in &self.hash_tables {\n            table.query(query_signature, &self.id_signatures, &mut match_ids, self.hamming_distance);\n            if match_ids.len() > 8 {\n                break;\n            }\n        }\n')))]),
]
