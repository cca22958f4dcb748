"""round 5: simhash, clustering, string index, id containers - refactorings and bugs written from the property texts"""
S = 'gaoya/src/simhash/sim_hash_index.rs'
P = 'gaoya/src/simhash/permutation.rs'
H = 'gaoya/src/simhash/sim_hash.rs'
MD = 'gaoya/src/simhash/mod.rs'
SH = 'gaoya/src/simhash/sim_hasher.rs'
CP = 'gaoya/src/clustering/clusterer_parallel.rs'
CS = 'gaoya/src/clustering/clustering_serial.rs'
SI = 'gaoya/src/minhash/string_index.rs'
ID = 'gaoya/src/minhash/id_container.rs'
G = 'benign'
TQBODY = '''        match self.table.get(&key) {
            Some(candidates) => {
                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });
                match_ids.extend(matches);
            }
            None => (),
        }
'''
TQOBODY = '''        match self.table.get(&key) {
            Some(candidates) => {
                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    }).cloned();
                match_ids.extend(matches);
            }
            None => (),
        }
'''
Q1 = '''        let match_ids = self.query(query_signature);
        match_ids.into_iter()
            .map(|id| (id, self.id_signatures.get(&id)))
            .filter(|(id, sig)| sig.is_some())
            .map(|(id, sig)| (id, sig.unwrap().hamming_distance(query_signature)))
            .min_by(|x, y| x.1.cmp(&y.1))
'''
QD = '''        let ids = self.query(query_signature);
        let mut result: Vec<_> = ids.into_iter()
            .map(|id| (id.clone(), query_signature.hamming_distance(&self.id_signatures[id])))
            .collect();
        result.sort_unstable_by(|a, b| a.1.cmp(&b.1));
        result
'''
INS = '''        for table in &mut self.hash_tables {
            table.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
'''
PBI = '''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in ids.iter().zip(signatures.iter()) {
                table.insert(item.0.clone(), item.1);
            }
        });

        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
        self.id_signatures.shrink_to_fit();
'''
PBP = '''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in id_signature_pairs.iter() {
                let i: &(Id, S) = item;
                let (a, b) = i;
                let k: Id = a.clone();
                table.insert(k, b);
            }
        });

        for id_hash in id_signature_pairs {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
        self.id_signatures.shrink_to_fit();
'''
QO = '''        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            table.query_owned(query_signature, &self.id_signatures,  &mut match_ids, self.hamming_distance);
        }
        match_ids
'''
QQ = QO.replace('query_owned', 'query')
NEWB = '''        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables: (permutations
                .into_iter()
                .map(|permutation| SimHashTable::new(permutation))
                .collect()),
            id_signatures: AHashMap::default(),
            marker: PhantomData,
        }
'''
BLK = '''        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }
'''
CMB = '''        for mut combination in blocks.clone().into_iter().combinations(count) {
            let mut all_blocks = combination.clone();
            for v in &blocks {
                if !all_blocks.contains(&v) {
                    all_blocks.push(*v);
                }
            }
            permutations.push(Permutation::new(diff_bits, all_blocks, combination));
        }
        permutations
'''
CRS = '''        let mut counts = [0i64; L];

        for mut hash in iter.map(|item| self.hasher.hash(&item)) {
            for (i, count) in counts.iter_mut().enumerate() {
                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;
            }
        }

        let mut result = S::zero();
        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
        result
'''
CRC = '''        let mut counts = [0u64; L];
        let mut len = 0;
        for signature in signatures {
            for i in 0..L {
                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }
            }
            len += 1;
        }
        let mut centroid = S::zero();
        for i in 0..L {
            if counts[i] > len / 2 {
                centroid |= S::one() << i;
            }
        }
        centroid
'''
SCL = '''        let mut clusters = Vec::new();
        for point in points {
            if point.cluster.get().is_some() {
                continue;
            }

            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
            if similar_points.len() >= self.min_cluster_size {
                let cluster_id = self.new_cluster_id();
                let cluster = self.create_new_cluster(similar_points, cluster_id);
                clusters.push(cluster);
            }
        }
        clusters
'''
SCN = '''        let mut cluster = Box::new(Cluster::new(cluster_id));
        for mut point in points.into_iter() {
            point.assign_cluster(cluster_id);
            cluster.points.push(point);
        }
        cluster
'''
PSL = '''        for point in points {
            if point.cluster.load(Ordering::Relaxed) != null_mut() {
                continue;
            }
            let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
                .filter(|point| !point.is_cluster_assigned())
                .collect();

            if similar_points.len() >= self.min_cluster_size {
                let mut similar_points_cloned =
                    similar_points.into_iter().map(|p| p.clone()).collect();
                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
            }
        }
        clusters
'''
PTR = '''        for point in points.iter() {
            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {
                    // This point already belongs to a cluster created by another thread
                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
            }
        }
        if !cluster.commit() {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
        Some(cluster)
'''
PSORT = '''        points.sort_by(|p1, p2| {
            let count1: &usize = point_count.get(&p1.get_id()).unwrap();
            let count2: &usize = point_count.get(&p2.get_id()).unwrap();
            count2.cmp(&count1)
        });
'''
PPAR = '''        let chunk_size = std::cmp::max(1, points.len() / self.n_threads);
        let result: Vec<_> = points.par_chunks_mut(chunk_size)
            .map(|chunk| self.cluster_slice(chunk, query_index))
            .collect();
        result.into_iter().flat_map(|v| v.into_iter()).collect()
'''
SINS = '''        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));
        self.doc_id += 1;
        self.doc_map.insert(self.doc_id, text);
        self.lsh_index.insert(self.doc_id, min_hashes);
'''
SQ = '''        let min_hashes = self.min_hash.create_signature(whitespace_split(text));
        let ids = self.lsh_index.query(&min_hashes);
        ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()
'''
SLL = '''        for line_result in reader.lines() {
            match line_result {
                Ok(line) => self.insert(line),
                Err(e) if e.kind() == ErrorKind::InvalidData => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())
'''
SLF = '''        match File::open(file_name) {
            Ok(file) => {
                let current_size = self.size();
                let mut reader: BufReader<File> = BufReader::new(file);
                self.load_from_lines(&mut reader)?;
                let new_count = self.size() - current_size;
                Ok(new_count)
            }
            Err(e) => Err(e),
        }
'''
SLP1 = '''                let mut lines: Vec<(u64, String)> = Vec::new();
                for line_result in reader.lines() {
                    match line_result {
                        Ok(line) => lines.push((lines.len() as u64 + self.doc_id + 1, line)),
                        Err(e) if e.kind() == ErrorKind::InvalidData => (),
                        Err(e) => return Err(e),
                    }
                }
'''
SLP2 = '''                let minhashes = lines
                    .par_iter()
                    .map(|line| {
                        (
                            line.0,
                            self.min_hash.create_signature(whitespace_split(&line.1)),
                        )
                    })
                    .collect();
                self.lsh_index.par_bulk_insert_pairs(minhashes);
                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
                let new_count = self.size() - current_size;
                Ok(new_count)
'''


def sub(t, *ps):
    for a, b in ps:
        assert a in t, a
        t = t.replace(a, b)
    return t


MUTS = [
 # ---- simhash index
 ('g5-tq-iflet', G, [(S, TQBODY, '''        if let Some(candidates) = self.table.get(&key) {
            for id in candidates {
                let signature = &id_signatures[id];
                if query_signature.hamming_distance(signature) <= max_distance {
                    match_ids.insert(id);
                }
            }
        }
''')]),
 ('g5-tqo-flat', G, [(S, TQOBODY, '''        match_ids.extend(
            self.table
                .get(&key)
                .into_iter()
                .flatten()
                .filter(|id| query_signature.hamming_distance(&id_signatures[*id]) <= max_distance)
                .cloned(),
        );
''')]),
 ('g5-tq-else', G, [(S, TQBODY, '''        let candidates = match self.table.get(&key) {
            Some(candidates) => candidates,
            None => return,
        };
        let within = |id: &&'a Id| -> bool {
            let signature = id_signatures.get(*id).unwrap();
            signature.hamming_distance(query_signature) <= max_distance
        };
        match_ids.extend(candidates.iter().filter(within));
''')]),
 ('g5-tq-empty', G, [(S, TQBODY, '''        let bucket = self.table.get(&key).map(|v| v.as_slice()).unwrap_or(&[]);
        for id in bucket.iter() {
            if query_signature.hamming_distance(id_signatures.get(id).unwrap()) > max_distance {
                continue;
            }
            match_ids.insert(id);
        }
''')]),
 ('g5-key-helper', G, [(S, '        let key = *simhash & self.permutation.simple_mask;\n', '        let key = self.bucket_key(simhash);\n'),
                       (S, '        let key = *query_signature & self.permutation.simple_mask;\n', '        let key = self.bucket_key(query_signature);\n'),
                       (S, '        let key = *query_signature & self.permutation.simple_mask;\n', '        let key = self.bucket_key(query_signature);\n'),
                       (S, '    fn insert(&mut self, id: Id, simhash: &S) {', '''    #[inline]
    fn bucket_key(&self, signature: &S) -> S {
        self.permutation.simple_mask & *signature
    }

    fn insert(&mut self, id: Id, simhash: &S) {''')]),
 ('g5-key-perm', G, [(S, '        let key = *simhash & self.permutation.simple_mask;\n', '        let key = self.permutation.key(*simhash);\n'),
                       (S, '        let key = *query_signature & self.permutation.simple_mask;\n', '        let key = self.permutation.key(*query_signature);\n'),
                       (S, '        let key = *query_signature & self.permutation.simple_mask;\n', '        let key = self.permutation.key(*query_signature);\n'),
                       (P, '    pub fn permute(', '''    pub(crate) fn key(&self, sim_hash: S) -> S {
        sim_hash & self.simple_mask
    }

    pub fn permute(''')]),
 ('g5-ti-entry', G, [(S, '''        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);
''', '''        match self.table.entry(key) {
            Entry::Occupied(mut bucket) => bucket.get_mut().push(id),
            Entry::Vacant(slot) => {
                slot.insert(vec![id]);
            }
        }
''')]),
 ('g5-ti-getmut', G, [(S, '''        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);
''', '''        if let Some(bucket) = self.table.get_mut(&key) {
            bucket.push(id);
        } else {
            self.table.insert(key, vec![id]);
        }
''')]),
 ('g5-ti-default', G, [(S, '.or_insert(Vec::new())', '.or_default()')]),
 ('g5-ti-with', G, [(S, '.or_insert(Vec::new())', '.or_insert_with(|| Vec::with_capacity(1))')]),
 ('g5-ins-iter', G, [(S, INS, '''        self.hash_tables
            .iter_mut()
            .for_each(|table| table.insert(id.clone(), &signature));
        self.id_signatures.insert(id, signature);
''')]),
 ('g5-ins-idx', G, [(S, INS, '''        self.id_signatures.insert(id.clone(), signature);
        for i in 0..self.hash_tables.len() {
            self.hash_tables[i].insert(id.clone(), &signature);
        }
''')]),
 ('g5-ins-old', G, [(S, INS, '''        let previous = self.id_signatures.insert(id.clone(), signature);
        debug_assert!(previous.is_none() || previous.is_some());
        for table in self.hash_tables.iter_mut() {
            table.insert(id.clone(), &signature);
        }
''')]),
 ('g5-pbi-extend', G, [(S, PBI, '''        self.hash_tables.par_iter_mut().for_each(|table| {
            ids.iter()
                .zip(&signatures)
                .for_each(|(id, signature)| table.insert(id.clone(), signature));
        });
        self.id_signatures.extend(ids.into_iter().zip(signatures));
        self.id_signatures.shrink_to_fit();
''')]),
 ('g5-pbi-first', G, [(S, PBI, '''        for (id, signature) in ids.iter().zip(signatures.iter()) {
            self.id_signatures.insert(id.clone(), *signature);
        }
        self.id_signatures.shrink_to_fit();
        self.hash_tables.par_iter_mut().for_each(|table| {
            for (id, signature) in ids.iter().zip(signatures.iter()) {
                table.insert(id.clone(), signature);
            }
        });
''')]),
 ('g5-pbi-reserve', G, [(S, PBI, sub(PBI, ('        for id_hash in ids', '        self.id_signatures.reserve(ids.len());\n        for id_hash in ids')))]),
 ('g5-pbi-noshrink', G, [(S, PBI, sub(PBI, ('        self.id_signatures.shrink_to_fit();\n', '')))]),
 ('g5-pbi-loop', G, [(S, PBI, '''        let count = ids.len().min(signatures.len());
        self.hash_tables.par_iter_mut().for_each(|table| {
            for i in 0..count {
                table.insert(ids[i].clone(), &signatures[i]);
            }
        });
        for (id, signature) in ids.into_iter().zip(signatures) {
            self.id_signatures.insert(id, signature);
        }
''')]),
 ('g5-pbp-unzip', G, [(S, PBP, '''        let (ids, signatures): (Vec<Id>, Vec<S>) = id_signature_pairs.into_iter().unzip();
        self.par_bulk_insert(ids, signatures);
''')]),
 ('g5-pbp-extend', G, [(S, PBP, '''        let pairs = &id_signature_pairs;
        self.hash_tables.par_iter_mut().for_each(|table| {
            for (id, signature) in pairs {
                table.insert(id.clone(), signature);
            }
        });
        self.id_signatures.extend(id_signature_pairs);
        self.id_signatures.shrink_to_fit();
''')]),
 ('g5-pbp-serial', G, [(S, PBP, '''        for (id, signature) in id_signature_pairs {
            self.insert(id, signature);
        }
        self.id_signatures.shrink_to_fit();
''')]),
 ('g5-q1-key', G, [(S, Q1, '''        self.query(query_signature)
            .into_iter()
            .filter_map(|id| {
                let signature = self.id_signatures.get(id)?;
                Some((id, signature.hamming_distance(query_signature)))
            })
            .min_by_key(|(_, distance)| *distance)
''')]),
 ('g5-q1-sort', G, [(S, Q1, '''        let mut matches: Vec<(&Id, usize)> = self.query(query_signature)
            .into_iter()
            .map(|id| (id, self.id_signatures[id].hamming_distance(query_signature)))
            .collect();
        matches.sort_by_key(|m| m.1);
        matches.into_iter().next()
''')]),
 ('g5-q1-fold', G, [(S, Q1, '''        self.query(query_signature)
            .into_iter()
            .map(|id| (id, self.id_signatures[id].hamming_distance(query_signature)))
            .fold(None, |best: Option<(&Id, usize)>, candidate| match best {
                Some(b) if b.1 <= candidate.1 => Some(b),
                _ => Some(candidate),
            })
''')]),
 ('g5-q1-reduce', G, [(S, Q1, '''        self.query(query_signature)
            .into_iter()
            .map(|id| (id, self.id_signatures[id].hamming_distance(query_signature)))
            .reduce(|a, b| if b.1 < a.1 { b } else { a })
''')]),
 ('g5-qd-key', G, [(S, QD, sub(QD, ('sort_unstable_by(|a, b| a.1.cmp(&b.1))', 'sort_by_key(|&(_, distance)| distance)')))]),
 ('g5-qd-helper', G, [(S, QD, '''        let mut result: Vec<(Id, usize)> = Vec::new();
        for id in self.query(query_signature) {
            result.push((id.clone(), self.distance_to(id, query_signature)));
        }
        result.sort_unstable_by(|(_, a), (_, b)| a.cmp(b));
        result
    }

    fn distance_to(&self, id: &Id, signature: &S) -> usize {
        signature.hamming_distance(&self.id_signatures[id])
'''),]),
 ('g5-qd-owned', G, [(S, QD, '''        let mut result = self.query_owned(query_signature)
            .into_iter()
            .map(|id| {
                let distance = self.id_signatures.get(&id).map(|s| query_signature.hamming_distance(s)).unwrap();
                (id, distance)
            })
            .collect::<Vec<_>>();
        result.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        result
''')]),
 ('g5-qq-flat', G, [(S, QQ, '''        let mut match_ids = AHashSet::default();
        self.hash_tables.iter().for_each(|table| {
            table.query(query_signature, &self.id_signatures, &mut match_ids, self.hamming_distance)
        });
        match_ids
''')]),
 ('g5-qo-map', G, [(S, QO, '''        self.query(query_signature).into_iter().map(|id| id.clone()).collect::<AHashSet<Id>>()
''')]),
 ('g5-qo-local', G, [(S, QO, '''        let Self { hash_tables, id_signatures, hamming_distance, .. } = self;
        let mut match_ids = AHashSet::new();
        for table in hash_tables.iter() {
            table.query_owned(query_signature, id_signatures, &mut match_ids, *hamming_distance);
        }
        match_ids
''')]),
 ('g5-new-loop', G, [(S, NEWB, '''        let mut hash_tables = Vec::with_capacity(permutations.len());
        for permutation in permutations {
            hash_tables.push(SimHashTable::new(permutation));
        }
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables,
            id_signatures: AHashMap::new(),
            marker: PhantomData,
        }
''')]),
 ('g5-new-point', G, [(S, '.map(|permutation| SimHashTable::new(permutation))', '.map(SimHashTable::new)')]),
 ('g5-new-nomax', G, [(S, '        let max_width: usize = permutations.iter().map(|p| p.width).max().unwrap();\n', '')]),
 ('g5-pbq-into', G, [(S, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()
''', '''        let mut results = Vec::with_capacity(signatures.len());
        signatures
            .par_iter()
            .map(|signature| self.query_owned(signature))
            .collect_into_vec(&mut results);
        results
''')]),
 ('g5-pbq-ser', G, [(S, '''        signatures.par_iter()
            .map(|signature| self.query_return_distance(signature))
            .collect()
''', '''        let mut out = Vec::new();
        for signature in signatures {
            out.push(self.query_return_distance(signature));
        }
        out
''')]),
 # ---- permutations
 ('g5-blk-fold', G, [(P, BLK, '''        let bits = S::bit_length();
        for i in 0..num_blocks {
            let start = i * bits / num_blocks;
            let end = (i + 1) * bits / num_blocks;
            let mask = (start..end).fold(S::zero(), |mask, j| mask | (S::one() << j));
            blocks.push(mask);
        }
''')]),
 ('g5-blk-run', G, [(P, BLK, '''        let mut start = 0;
        for i in 1..=num_blocks {
            let end = i * S::bit_length() / num_blocks;
            let mut mask: S = S::zero();
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
            start = end;
        }
''')]),
 ('g5-blk-helper', G, [(P, BLK, '''        for i in 0..num_blocks {
            blocks.push(Self::block_mask(i, num_blocks));
        }
'''), (P, '    pub fn permute(', '''    fn block_mask(block: usize, num_blocks: usize) -> S {
        let bits = S::bit_length();
        let mut mask = S::zero();
        for bit in (block * bits / num_blocks)..((block + 1) * bits / num_blocks) {
            mask |= S::one() << bit;
        }
        mask
    }

    pub fn permute(''')]),
 ('g5-blk-map', G, [(P, '        let mut blocks = Vec::new();\n', ''), (P, BLK, '''        let block = |i: usize| {
            let mut mask: S = S::zero();
            for j in (i * S::bit_length()) / num_blocks..((i + 1) * S::bit_length()) / num_blocks {
                mask = mask | (S::one() << j);
            }
            mask
        };
        let blocks: Vec<S> = (0..num_blocks).map(block).collect();
''')]),
 ('g5-cmb-map', G, [(P, '        let mut permutations = Vec::new();\n', ''), (P, CMB, '''        blocks
            .iter()
            .copied()
            .combinations(count)
            .map(|combination| {
                let mut all_blocks = combination.clone();
                for v in &blocks {
                    if !combination.contains(v) {
                        all_blocks.push(*v);
                    }
                }
                Permutation::new(diff_bits, all_blocks, combination)
            })
            .collect()
''')]),
 ('g5-cmb-count', G, [(P, '        let count = num_blocks - diff_bits;\n', ''), (P, 'combinations(count)', 'combinations(num_blocks - diff_bits)')]),
 ('g5-ch-fold', G, [(P, '''        for mask in choice {
            p.simple_mask |= mask;
        }
        p
''', '''        p.simple_mask = choice.iter().fold(p.simple_mask, |acc, mask| acc | *mask);
        p
''')]),
 ('g5-ch-early', G, [(P, '''            simple_mask: S::zero(),
            width: 0,
        };
''', '''            simple_mask: choice.into_iter().fold(S::zero(), |acc, mask| acc | mask),
            width: 0,
        };
'''), (P, '''        for mask in choice {
            p.simple_mask |= mask;
        }
''', '')]),
 # ---- signatures
 ('g5-cs-foreach', G, [(H, CRS, '''        let mut counts = [0i64; L];
        iter.map(|item| self.hasher.hash(&item)).for_each(|hash| {
            for i in 0..L {
                if (hash >> i) & S::one() == S::zero() {
                    counts[i] += 1;
                } else {
                    counts[i] -= 1;
                }
            }
        });
        let mut result = S::zero();
        for (i, count) in counts.iter().enumerate() {
            if *count > 0 {
                result |= S::one() << i;
            }
        }
        result
''')]),
 ('g5-cs-delta', G, [(H, CRS, sub(CRS, ('''                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
''', '''                *count += if hash & S::one() == S::zero() { 1 } else { -1 };
''')))]),
 ('g5-cs-helper', G, [(H, CRS, '''        let mut counts = [0i64; L];
        for item in iter {
            let mut hash = self.hasher.hash(&item);
            for count in counts.iter_mut() {
                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;
            }
        }
        Self::bits_where(|i| counts[i] > 0)
    }

    fn bits_where(set: impl Fn(usize) -> bool) -> S {
        let mut bits = S::zero();
        for i in 0..L {
            if set(i) {
                bits |= S::one() << i;
            }
        }
        bits
'''), (H, '''        let mut centroid = S::zero();
        for i in 0..L {
            if counts[i] > len / 2 {
                centroid |= S::one() << i;
            }
        }
        centroid
''', '''        Self::bits_where(|i| counts[i] > len / 2)
''')]),
 ('g5-cs-fold', G, [(H, CRS, sub(CRS, ('''        let mut result = S::zero();
        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
        result
''', '''        counts.iter().enumerate().fold(S::zero(), |result, (i, &count)| {
            if count > 0 { result | (S::one() << i) } else { result }
        })
''')))]),
 ('g5-cs-filter', G, [(H, CRS, sub(CRS, ('''        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
''', '''        for i in (0..L).filter(|&i| counts[i].is_positive()) {
            result |= S::one() << i;
        }
''')))]),
 ('g5-ce-shift', G, [(H, CRC, sub(CRC, ('''            for i in 0..L {
                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }
            }
''', '''            let mut bits = signature;
            for count in counts.iter_mut() {
                if bits & S::one() != S::zero() {
                    *count += 1;
                }
                bits >>= 1;
            }
''')))]),
 ('g5-ce-half', G, [(H, CRC, sub(CRC, ('        let mut centroid = S::zero();\n', '        let half = len / 2;\n        let mut centroid = S::zero();\n'), ('len / 2 {', 'half {')))]),
 ('g5-ce-mask', G, [(H, CRC, sub(CRC, ('signature >> i & S::one() == S::one()', 'signature & (S::one() << i) != S::zero()')))]),
 ('g5-hd-ones', G, [(MD, '(self ^ rhs).count_ones() as usize', '(*self ^ *rhs).count_ones() as usize')]),
 # ---- clustering serial
 ('g5-sc-if', G, [(CS, SCL, '''        let mut clusters = Vec::new();
        for point in points.iter() {
            if point.cluster.get().is_none() {
                let mut similar_points = Vec::new();
                for candidate in query_index.query(point) {
                    if candidate.cluster.get().is_none() {
                        similar_points.push(candidate.clone());
                    }
                }
                if similar_points.len() >= self.min_cluster_size {
                    let cluster_id = self.new_cluster_id();
                    clusters.push(self.create_new_cluster(similar_points, cluster_id));
                }
            }
        }
        clusters
''')]),
 ('g5-sc-cont', G, [(CS, SCL, sub(SCL, ('''            if similar_points.len() >= self.min_cluster_size {
                let cluster_id = self.new_cluster_id();
                let cluster = self.create_new_cluster(similar_points, cluster_id);
                clusters.push(cluster);
            }
''', '''            if similar_points.len() < self.min_cluster_size {
                continue;
            }
            let cluster_id = self.new_cluster_id();
            clusters.push(self.create_new_cluster(similar_points, cluster_id));
''')))]),
 ('g5-sc-helper', G, [(CS, SCL, sub(SCL, ('''            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
''', '''            let similar_points = Self::free_neighbours(point, query_index);
'''))), (CS, '    fn create_new_cluster', '''    fn free_neighbours(point: &ClusterPoint<Id>, query_index: &dyn QueryIndex<Id = ClusterPoint<Id>>) -> Vec<ClusterPoint<Id>> {
        query_index
            .query(point)
            .into_iter()
            .filter(|p| p.is_free())
            .cloned()
            .collect()
    }

    fn create_new_cluster'''), (CS, '    pub fn assign_cluster(', '''    fn is_free(&self) -> bool {
        self.cluster.get().is_none()
    }

    pub fn assign_cluster(''')]),
 ('g5-sc-ids', G, [(CS, SCN, '''        let mut cluster = Box::new(Cluster::new(cluster_id));
        for point in &points {
            point.assign_cluster(cluster_id);
        }
        cluster.points = points;
        cluster
''')]),
 ('g5-sc-extend', G, [(CS, SCN, '''        points.iter().for_each(|point| point.assign_cluster(cluster_id));
        let mut cluster = Cluster::new(cluster_id);
        cluster.points.extend(points);
        Box::new(cluster)
''')]),
 ('g5-sc-idinl', G, [(CS, SCL, sub(SCL, ('''                let cluster_id = self.new_cluster_id();
''', '''                self.cluster_id_sequence += 1;
                let cluster_id = self.cluster_id_sequence;
''')))]),
 ('g5-sc-filter', G, [(CS, SCL, sub(SCL, ('''        for point in points {
            if point.cluster.get().is_some() {
                continue;
            }

''', '''        for point in points.iter() {
            if let Some(_) = point.cluster.get() {
                continue;
            }
''')))]),
 ('g5-sc-replace', G, [(CS, '        self.cluster.set(Some(cluster_id));', '        self.cluster.replace(Some(cluster_id));')]),
 # ---- clustering parallel
 ('g5-pc-assigned', G, [(CP, 'if point.cluster.load(Ordering::Relaxed) != null_mut() {', 'if point.is_cluster_assigned() {')]),
 ('g5-pc-isnull', G, [(CP, 'self.get_cluster() != null_mut()', '!self.get_cluster().is_null()')]),
 ('g5-pc-ord', G, [(CP, '''            ptr::null_mut(),
            cluster_ptr,
            Ordering::Relaxed,
            Ordering::Relaxed,
''', '''            ptr::null_mut(),
            cluster_ptr,
            Ordering::AcqRel,
            Ordering::Acquire,
'''), (CP, 'self.cluster.load(Ordering::Relaxed)', 'self.cluster.load(Ordering::Acquire)')]),
 ('g5-pc-iflet', G, [(CP, PSL, sub(PSL, ('''                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
''', '''                if let Some(cluster) = self.try_create_cluster(&mut similar_points_cloned) {
                    clusters.push(cluster);
                }
''')))]),
 ('g5-pc-ext', G, [(CP, PSL, sub(PSL, ('''                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
''', '''                clusters.extend(self.try_create_cluster(&mut similar_points_cloned));
''')))]),
 ('g5-pc-clone', G, [(CP, PSL, '''        for point in points.iter() {
            if point.is_cluster_assigned() {
                continue;
            }
            let mut similar_points: Vec<ClusterPoint<Id>> = query_index
                .query(point)
                .into_iter()
                .filter(|candidate| !candidate.is_cluster_assigned())
                .cloned()
                .collect();
            if similar_points.len() < self.min_cluster_size {
                continue;
            }
            if let Some(cluster) = self.try_create_cluster(&mut similar_points) {
                clusters.push(cluster);
            }
        }
        clusters
''')]),
 ('g5-pc-try', G, [(CP, PTR, sub(PTR, ('''            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {
                    // This point already belongs to a cluster created by another thread
                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
            }
''', '''            if point.assign_cluster(cluster_ptr).is_err() {
                cluster.rollback();
                self.rollback_cluster_points(&mut cluster, cluster_ptr);
                return None;
            }
            cluster.points.push(point.clone());
''')))]),
 ('g5-pc-commit', G, [(CP, PTR, sub(PTR, ('''        if !cluster.commit() {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
        Some(cluster)
''', '''        if cluster.commit() {
            Some(cluster)
        } else {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            None
        }
''')))]),
 ('g5-pc-lock', G, [(CP, 'let _creation = self.creation_lock.lock().unwrap();', 'let _guard = self.creation_lock.lock().unwrap_or_else(|e| e.into_inner());')]),
 ('g5-pc-sortkey', G, [(CP, PSORT, '''        points.sort_by_key(|p| std::cmp::Reverse(point_count[&p.id]));
''')]),
 ('g5-pc-sort2', G, [(CP, PSORT, sub(PSORT, ('count2.cmp(&count1)', 'count1.cmp(count2).reverse()')))]),
 ('g5-pc-count', G, [(CP, '''        let point_count: HashMap<Id, usize> = points.iter()
            .map(|point| (point.get_id(), query_index.query(&point).len()))
            .collect();
''', '''        let mut point_count: HashMap<Id, usize> = HashMap::with_capacity(points.len());
        for point in points.iter() {
            let similar = query_index.query(point);
            point_count.insert(point.get_id(), similar.len());
        }
''')]),
 ('g5-pc-chunk', G, [(CP, PPAR, '''        let chunk_size = (points.len() / self.n_threads).max(1);
        points
            .par_chunks_mut(chunk_size)
            .flat_map_iter(|chunk| self.cluster_slice(chunk, query_index))
            .collect()
''')]),
 ('g5-pc-concat', G, [(CP, PPAR, sub(PPAR, ('''        result.into_iter().flat_map(|v| v.into_iter()).collect()
''', '''        let mut clusters = Vec::new();
        for mut part in result {
            clusters.append(&mut part);
        }
        clusters
''')))]),
 ('g5-pc-flatten', G, [(CP, PPAR, sub(PPAR, ('flat_map(|v| v.into_iter())', 'flatten()')))]),
 ('g5-pc-ceil', G, [(CP, PPAR, sub(PPAR, ('points.len() / self.n_threads', '(points.len() + self.n_threads - 1) / self.n_threads')))]),
 ('g5-pc-ptr', G, [(CP, '''        let cluster_const_ptr: *const Cluster<Id> = &*cluster;
        let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
''', '''        let cluster_ptr: *mut Cluster<Id> = &mut *cluster;
''')]),
 ('g5-pc-slice', G, [(CP, 'self.cluster_slice(points.as_mut_slice(), query_index)', 'self.cluster_slice(&mut points[..], query_index)')]),
 # ---- string index
 ('g5-si-id', G, [(SI, SINS, '''        let signature = self.min_hash.create_signature(whitespace_split(&text));
        let id = self.doc_id + 1;
        self.lsh_index.insert(id, signature);
        self.doc_map.insert(id, text);
        self.doc_id = id;
''')]),
 ('g5-si-sigh', G, [(SI, SINS, sub(SINS, ('self.min_hash.create_signature(whitespace_split(text.as_str()))', 'self.signature(&text)'))),
                    (SI, SQ, sub(SQ, ('self.min_hash.create_signature(whitespace_split(text))', 'self.signature(text)'))),
                    (SI, '    pub fn size(&self)', '''    fn signature(&self, text: &str) -> Vec<u64> {
        self.min_hash.create_signature(whitespace_split(text))
    }

    pub fn size(&self)''')]),
 ('g5-si-q', G, [(SI, SQ, '''        let signature = self.min_hash.create_signature(whitespace_split(text));
        let mut documents = Vec::new();
        for id in self.lsh_index.query(&signature) {
            documents.push(&self.doc_map[id]);
        }
        documents
''')]),
 ('g5-si-q2', G, [(SI, SQ, '''        let signature = self.min_hash.create_signature(whitespace_split(text));
        self.lsh_index
            .query_owned(&signature)
            .into_iter()
            .map(|id| &self.doc_map[&id])
            .collect()
''')]),
 ('g5-si-ll', G, [(SI, SLL, '''        for line_result in reader.lines() {
            let line = match line_result {
                Ok(line) => line,
                Err(e) => {
                    if e.kind() == ErrorKind::InvalidData {
                        continue;
                    }
                    return Err(e);
                }
            };
            self.insert(line);
        }
        Ok(())
''')]),
 ('g5-si-lf', G, [(SI, SLF, '''        let file = File::open(file_name)?;
        let before = self.size();
        self.load_from_lines(&mut BufReader::new(file))?;
        Ok(self.size() - before)
''')]),
 ('g5-si-lp1', G, [(SI, SLP1, '''                let mut next_id = self.doc_id;
                let mut lines: Vec<(u64, String)> = Vec::new();
                for line_result in reader.lines() {
                    match line_result {
                        Ok(line) => {
                            next_id += 1;
                            lines.push((next_id, line));
                        }
                        Err(e) if e.kind() == ErrorKind::InvalidData => continue,
                        Err(e) => return Err(e),
                    }
                }
''')]),
 ('g5-si-lp2', G, [(SI, SLP2, sub(SLP2, ('''                let minhashes = lines
                    .par_iter()
                    .map(|line| {
                        (
                            line.0,
                            self.min_hash.create_signature(whitespace_split(&line.1)),
                        )
                    })
                    .collect();
''', '''                let minhashes: Vec<(u64, Vec<u64>)> = lines
                    .par_iter()
                    .map(|(id, line)| (*id, self.min_hash.create_signature(whitespace_split(line))))
                    .collect();
''')))]),
 ('g5-si-lp3', G, [(SI, SLP2, sub(SLP2, ('''                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
                let new_count = self.size() - current_size;
                Ok(new_count)
''', '''                let new_count = lines.len();
                self.doc_id += new_count as u64;
                self.doc_map.extend(lines);
                Ok(new_count)
''')))]),
 ('g5-si-lp4', G, [(SI, SLP2, sub(SLP2, ('''                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
''', '''                lines.into_iter().for_each(|(id, line)| {
                    self.doc_map.insert(id, line);
                });
''')))]),
 ('g5-si-new', G, [(SI, '''        MinHashStringIndex {
            lsh_index: MinHashIndex::new(num_bands, band_width, jaccard_threshold),
            min_hash: MinHasher64V1::new(num_bands * band_width),
''', '''        let num_hashes = num_bands * band_width;
        let min_hash = MinHasher64V1::new(num_hashes);
        MinHashStringIndex {
            lsh_index: MinHashIndex::new(num_bands, band_width, jaccard_threshold),
            min_hash,
''')]),
 # ---- id containers
 ('g5-ic-retain', G, [(ID, 'self.vec.retain(|x| x != item);', 'self.vec.retain(|x| !x.eq(item));')]),
 ('g5-ic-drain', G, [(ID, 'self.vec.retain(|x| x != item);', 'let kept: Vec<T> = self.vec.drain(..).filter(|x| x != item).collect();\n        self.vec = kept;')]),
 ('g5-ic-loop', G, [(ID, 'set.extend(self.vec.iter().cloned())', 'for id in &self.vec {\n            set.insert(id.clone());\n        }')]),
 ('g5-ic-foreach', G, [(ID, 'set.extend(self.set.iter())', 'self.set.iter().for_each(|id| {\n            set.insert(id);\n        })')]),
 ('g5-ic-if', G, [(ID, '        self.set.insert(item);\n', '        if !self.set.contains(&item) {\n            self.set.insert(item);\n        }\n')]),
 ('g5-ic-rm', G, [(ID, '        self.set.remove(item);\n', '        if self.set.contains(item) {\n            self.set.take(item);\n        }\n')]),
 # ================= bugs
 ('b5-tq-any', 'bug:C14', [(S, TQBODY, sub(TQBODY, ('.iter()\n', '.iter()\n                    .take_while(|id| id_signatures.contains_key(id))\n                    .skip_while(|id| query_signature.hamming_distance(&id_signatures[*id]) > 2 * max_distance)\n')))]),
 ('b5-tq-retainmatch', 'bug:C14', [(S, TQBODY, sub(TQBODY, ('match_ids.extend(matches);', 'if match_ids.len() < 1000 { match_ids.extend(matches); }')))]),
 ('b5-tqo-diff', 'bug:C06', [(S, TQOBODY, sub(TQOBODY, ('<= max_distance', '< max_distance.max(1)')))]),
 ('b5-tqo-diff2', 'bug:C13', [(S, TQOBODY, sub(TQOBODY, ('query_signature.hamming_distance(signature) <= max_distance', 'self.permutation.permute(query_signature).hamming_distance(&self.permutation.permute(signature)) <= max_distance')))]),
 ('b5-ti-cap', 'bug:C14', [(S, '''            .or_insert(Vec::new())
            .push(id);
''', '''            .and_modify(|ids| ids.truncate(4096))
            .or_insert(Vec::new())
            .push(id);
''')]),
 ('b5-ti-last', 'bug:C14', [(S, '''            .or_insert(Vec::new())
            .push(id);
''', '''            .and_modify(|ids| if ids.last() != Some(&id) { ids.push(id.clone()) })
            .or_insert_with(Vec::new);
''')]),
 ('b5-pbp-dedup', 'bug:C04,C06', [(S, PBP, sub(PBP, ('        for id_hash in id_signature_pairs {\n', '        for id_hash in id_signature_pairs.into_iter().rev() {\n')))]),
 ('b5-pbi-stale', 'bug:C06,C14', [(S, PBI, sub(PBI, ('''                table.insert(item.0.clone(), item.1);
''', '''                if !self.id_signatures.contains_key(item.0) {
                    table.insert(item.0.clone(), item.1);
                }
''')))]),
 ('b5-pbi-chunk', 'bug:C06,C14', [(S, PBI, sub(PBI, ('for item in ids.iter().zip(signatures.iter()) {', 'for item in ids.iter().zip(signatures.iter()).take(ids.capacity().min(1 << 16)) {')))]),
 ('b5-q1-exact', 'bug:C07', [(S, Q1, sub(Q1, ('            .min_by(', '            .filter(|x| x.1 < self.hamming_distance || self.hamming_distance == 0)\n            .min_by(')))]),
 ('b5-qd-dedup', 'bug:C07,C13', [(S, QD, sub(QD, ('        result\n', '        result.dedup_by_key(|r| r.1);\n        result\n')))]),
 ('b5-qd-nosort', 'bug:C07', [(S, QD, sub(QD, ('        result.sort', '        if result.len() > 2 { result.sort'), ('b.1));', 'b.1)); }')))]),
 ('b5-new-dd', 'bug:C14', [(S, 'Permutation::<S>::create(num_blocks, hamming_distance)', 'Permutation::<S>::create(num_blocks, hamming_distance.min(num_blocks - 2))')]),
 ('b5-blk-overlap', 'bug:C14', [(P, BLK, sub(BLK, ('((i + 1) * S::bit_length()) / num_blocks', '((i + 1) * S::bit_length() + num_blocks - 1) / num_blocks')))]),
 ('b5-cmb-choice', 'bug:C14', [(P, CMB, sub(CMB, ('Permutation::new(diff_bits, all_blocks, combination)', 'Permutation::new(diff_bits, combination.clone(), all_blocks)')))]),
 ('b5-cmb-unique', 'bug:C14', [(P, CMB, sub(CMB, ('        permutations\n', '        permutations.sort_by_key(|p: &Permutation<S>| p.width);\n        permutations.dedup_by_key(|p| p.width);\n        permutations\n')))]),
 ('b5-cs-first', 'bug:C15', [(H, CRS, sub(CRS, ('counts[i] > 0', 'counts[i].signum() == 1 || counts[0] == 0')))]),
 ('b5-cs-skipempty', 'bug:C15,C09', [(H, CRS, sub(CRS, ('                hash >>= 1;\n', '                hash >>= 1;\n                if hash == S::zero() { break; }\n')))]),
 ('b5-ce-len', 'bug:C15', [(H, CRC, sub(CRC, ('counts[i] > len / 2', 'counts[i] > (len + 1) / 2')))]),
 ('b5-ce-bit', 'bug:C15', [(H, CRC, sub(CRC, ('let mut counts = [0u64; L];', 'let mut counts = [0u8; L];'), ('counts[i] += 1;', 'counts[i] = counts[i].wrapping_add(1);'), ('counts[i] > len / 2', 'counts[i] as u64 > len / 2')))]),
 ('b5-sc-self', 'bug:C16', [(CS, SCL, sub(SCL, ('                .filter(|point| point.cluster.get().is_none())\n', '')))]),
 ('b5-sc-gt', 'bug:C16', [(CS, SCL, sub(SCL, ('similar_points.len() >= self', 'similar_points.len() > self')))]),
 ('b5-sc-dedup', 'bug:C16', [(CS, SCN, sub(SCN, ('            point.assign_cluster(cluster_id);\n', '            if Rc::strong_count(&point) > 1 { point.assign_cluster(cluster_id); }\n')))]),
 ('b5-sc-reset', 'bug:C16', [(CS, SCL, sub(SCL, ('        let mut clusters = Vec::new();\n', '        let mut clusters = Vec::new();\n        self.cluster_id_sequence = 0;\n')))]),
 ('b5-sc-len', 'bug:C16', [(CS, SCL, sub(SCL, ('''                let cluster_id = self.new_cluster_id();
''', '''                let cluster_id = clusters.len() + 1;
''')))]),
 ('b5-sc-all', 'bug:C16', [(CS, SCL, sub(SCL, ('if similar_points.len() >= self.min_cluster_size', 'if query_index.query(point).len() >= self.min_cluster_size')))]),
 ('b5-pc-store', 'bug:C17', [(CP, '''        for point in cluster.points.iter_mut() {
            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );
        }
''', '''        for point in cluster.points.iter_mut().skip(1) {
            point.cluster.store(null_mut(), Ordering::Relaxed);
        }
''')]),
 ('b5-pc-norb', 'bug:C17', [(CP, PTR, sub(PTR, ('''                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
''', '''                    cluster.rollback();
                    return None;
                }
''')))]),
 ('b5-pc-skip', 'bug:C17', [(CP, PTR, sub(PTR, ('''                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
''', '''                    continue;
                }
''')))]),
 ('b5-pc-ptr', 'bug:C17', [(CP, '            cluster_ptr,\n            Ordering::Relaxed,\n            Ordering::Relaxed,\n        )', '            cluster_ptr,\n            Ordering::Relaxed,\n            Ordering::Relaxed,\n        ).or_else(|current| if current == cluster_ptr { Ok(current) } else { Err(current) })')]),
 ('b5-pc-weak', 'bug:C17', [(CP, 'self.cluster.compare_exchange(', 'self.cluster.compare_exchange_weak(')]),
 ('b5-pc-drop', 'bug:C16,C17', [(CP, PPAR, sub(PPAR, ('points.par_chunks_mut(chunk_size)', 'points.par_chunks_exact_mut(chunk_size)')))]),
 ('b5-pc-min', 'bug:C16', [(CP, PSL, sub(PSL, ('similar_points.len() >= self.min_cluster_size', 'similar_points.len() >= self.min_cluster_size.min(self.n_threads)')))]),
 ('b5-pc-idreset', 'bug:C17', [(CP, 'self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1', 'self.cluster_id_sequence.load(Ordering::Relaxed) + 1')]),
 ('b5-si-id', 'bug:C24', [(SI, '        self.lsh_index.insert(self.doc_id, min_hashes);\n', '        self.lsh_index.insert(self.doc_map.len() as u64, min_hashes);\n')]),
 ('b5-si-trim', 'bug:C24', [(SI, '        self.doc_map.insert(self.doc_id, text);\n', '        self.doc_map.insert(self.doc_id, text.trim().to_string());\n')]),
 ('b5-si-empty', 'bug:C24', [(SI, '                Ok(line) => self.insert(line),\n', '                Ok(line) if line.is_empty() => (),\n                Ok(line) => self.insert(line),\n')]),
 ('b5-si-par', 'bug:C24', [(SI, 'lines.len() as u64 + self.doc_id + 1', 'lines.len() as u64 + self.doc_id')]),
 ('b5-si-parlen', 'bug:C24', [(SI, '                self.doc_id += lines.len() as u64;\n', '                self.doc_id += self.lsh_index.size() as u64 - current_size as u64;\n'), ]),
 ('b5-si-order', 'bug:C24', [(SI, SLP2, sub(SLP2, ('self.min_hash.create_signature(whitespace_split(&line.1))', 'self.min_hash.create_signature(whitespace_split(&line.1.to_lowercase()))')))]),
 ('b5-ic-pos', 'bug:C11', [(ID, '        self.vec.retain(|x| x != item);\n    }\n}\n\n\n/// Small', '        if let Some(i) = self.vec.iter().rposition(|x| x == item) {\n            self.vec.truncate(i);\n        }\n    }\n}\n\n\n/// Small')]),
 ('b5-ic-swap', 'bug:C11', [(ID, '            vec: SmallVec::<[T; N]>::new()', '            vec: SmallVec::<[T; N]>::new()'), (ID, '    fn copy_refs_to<\'a, S: BuildHasher>(&\'a self, container: &mut HashSet<&\'a T, S>) {\n        container.extend(self.vec.iter())', '    fn copy_refs_to<\'a, S: BuildHasher>(&\'a self, container: &mut HashSet<&\'a T, S>) {\n        container.extend(self.vec.iter().take(self.vec.inline_size().max(1) * 64))')]),
 ('b5-ic-len', 'bug:C11', [(ID, '        self.set.len()\n', '        self.set.capacity()\n')]),
]
