"""tenth round: clustering, text, string index, hashers, simhash blocks"""
def rd(p): return open('/repo/' + p).read()
CS, CP = 'gaoya/src/clustering/clustering_serial.rs', 'gaoya/src/clustering/clusterer_parallel.rs'
SI, MS, TZ = 'gaoya/src/minhash/string_index.rs', 'gaoya/src/text/multi_shingles.rs', 'gaoya/src/text/tokenizers.rs'
MH, SH, PE = 'gaoya/src/minhash/min_hasher.rs', 'gaoya/src/simhash/sim_hash.rs', 'gaoya/src/simhash/permutation.rs'
src = {p: rd(p) for p in (CS, CP, SI, MS, TZ, MH, SH, PE)}
G = 'benign'
def cut(p, a, b):
    s = src[p]; i = s.index(a); return s[i:s.index(b, i)]
SCL = cut(CS, '        let mut clusters = Vec::new();', '    fn create_new_cluster')
SCN = cut(CS, '        let mut cluster = Box::new', '\n}\n')
SID = cut(CS, '        self.cluster_id_sequence += 1;', '    pub fn cluster(')
PSL = cut(CP, '        let mut clusters = Vec::new();\n        self.sort', '    /// Creates a new cluster')
PTC = cut(CP, '        let _creation', '\n}\n')
PSO = cut(CP, '        let point_count', '    fn cluster_slice')
PPA = cut(CP, '        let chunk_size', '    fn sort_by_most')
LFL = cut(SI, '        for line_result in reader.lines() {\n            match', '    pub fn load_from_file(')
LFP = cut(SI, '                let current_size = self.size();\n                let mut reader: BufReader<File> = BufReader::new(file);\n                let mut lines', '            Err(e) => Err(e),')
SIQ = cut(SI, '        let min_hashes = self.min_hash.create_signature(whitespace_split(text));', '    /// Inserts every line')
SII = cut(SI, '        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));', '    pub fn query')
MSL = cut(MS, '        if self.data.len() < self.size', '\nimpl<\'a> Iterator')
MST = cut(MS, '        let mut pos_next', '\npub trait')
MHC = cut(MH, '                let hashes: Vec<u32>', '    }\n}\n')
SHC = cut(SH, '        let mut counts = [0i64; L];', '    pub fn create_centroid')
SHK = cut(SH, '        let mut counts = [0u64; L];', '\n\n}\n')
PEC = cut(PE, '        let mut permutations = Vec::new();', '    pub fn permute')
def rp(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
MUTS = [
 # ---- serial clustering
 ('g10-sc-unassigned', G, [(CS, SCL, '''        let mut clusters = Vec::new();
        for point in points.iter() {
            if point.cluster.get().is_none() {
                let mut members = Vec::new();
                for candidate in query_index.query(point) {
                    if candidate.cluster.get().is_none() {
                        members.push(Rc::clone(candidate));
                    }
                }
                if members.len() < self.min_cluster_size {
                    continue;
                }
                let cluster_id = self.new_cluster_id();
                clusters.push(self.create_new_cluster(members, cluster_id));
            }
        }
        clusters
    }

''')]),
 ('g10-sc-assign', G, [(CS, SCN, '''        for point in points.iter() {
            point.assign_cluster(cluster_id);
        }
        Box::new(Cluster { points, cluster_id })
    }
''')]),
 ('g10-sc-map', G, [(CS, SCN, '''        let mut cluster = Cluster::new(cluster_id);
        cluster.points = points.into_iter()
            .map(|point| { point.assign_cluster(cluster_id); point })
            .collect();
        Box::new(cluster)
    }
''')]),
 ('g10-sc-id', G, [(CS, SID, '''        let next = self.cluster_id_sequence + 1;
        self.cluster_id_sequence = next;
        next
    }

''')]),
 ('b10-sc-id', 'bug:C16', [(CS, SCL, rp(SCL, ('self.new_cluster_id()', 'clusters.len() + 1')))]),
 ('b10-sc-skip', 'bug:C16', [(CS, SCN, rp(SCN, ('            point.assign_cluster(cluster_id);\n', '            if cluster_id != self.min_cluster_size {\n                point.assign_cluster(cluster_id);\n            }\n')))]),
 ('b10-sc-late', 'bug:C16', [(CS, SCL, rp(SCL, ('''                .filter(|point| point.cluster.get().is_none())
''', '''                .filter(|other| other.cluster.get().is_none() || other.cluster.get() == point.cluster.get())
'''), ('''            if point.cluster.get().is_some() {
                continue;
            }
''', '''            if point.cluster.get().map_or(false, |c| c <= self.cluster_id_sequence / 2) {
                continue;
            }
''')))]),
 ('b10-sc-trunc', 'bug:C16', [(CS, SCN, rp(SCN, ('        cluster\n', '        cluster.points.truncate(self.min_cluster_size.max(64));\n        cluster\n')))]),
 ('b10-sc-self', 'bug:C16', [(CS, SCL, rp(SCL, ('if similar_points.len() >= self.min_cluster_size', 'if similar_points.len() + 1 >= self.min_cluster_size')))]),
 # ---- parallel clustering
 ('g10-pc-letelse', G, [(CP, PSL, rp(PSL, ('''                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
''', '''                clusters.extend(self.try_create_cluster(&mut similar_points_cloned));
''')))]),
 ('g10-pc-chunks', G, [(CP, PPA, rp(PPA, ('std::cmp::max(1, points.len() / self.n_threads)', '(points.len() / self.n_threads).max(1)'), ('''        let result: Vec<_> = points.par_chunks_mut(chunk_size)
            .map(|chunk| self.cluster_slice(chunk, query_index))
            .collect();
        result.into_iter().flat_map(|v| v.into_iter()).collect()
''', '''        points
            .par_chunks_mut(chunk_size)
            .flat_map_iter(|chunk| self.cluster_slice(chunk, query_index))
            .collect()
''')))]),
 ('g10-pc-sort', G, [(CP, PSO, '''        let mut point_count: HashMap<Id, usize> = HashMap::with_capacity(points.len());
        for point in points.iter() {
            point_count.insert(point.get_id(), query_index.query(point).len());
        }
        points.sort_by_key(|point| std::cmp::Reverse(point_count[&point.id]));
    }

''')]),
 ('b10-pc-unlock', 'bug:C17', [(CP, PTC, rp(PTC, ('let _creation = self.creation_lock.lock().unwrap();', 'drop(self.creation_lock.lock().unwrap());')))]),
 ('b10-pc-try', 'bug:C17', [(CP, PTC, rp(PTC, ('let _creation = self.creation_lock.lock().unwrap();', 'let _creation = self.creation_lock.try_lock().ok();')))]),
 ('b10-pc-ceil', 'bug:C16,C17', [(CP, PPA, rp(PPA, ('points.par_chunks_mut(chunk_size)', 'points.par_chunks_mut(chunk_size).take(self.n_threads)')))]),
 # ---- string index
 ('g10-si-lines', G, [(SI, LFL, '''        let mut lines = reader.lines();
        while let Some(line) = lines.next() {
            match line {
                Ok(text) => self.insert(text),
                Err(error) => {
                    if error.kind() != ErrorKind::InvalidData {
                        return Err(error);
                    }
                }
            }
        }
        Ok(())
    }

''')]),
 ('g10-si-par', G, [(SI, LFP, '''                let mut texts: Vec<String> = Vec::new();
                for line_result in BufReader::new(file).lines() {
                    match line_result {
                        Ok(line) => texts.push(line),
                        Err(e) if e.kind() == ErrorKind::InvalidData => continue,
                        Err(e) => return Err(e),
                    }
                }
                let first_id = self.doc_id + 1;
                let pairs: Vec<(u64, Vec<u64>)> = texts
                    .par_iter()
                    .enumerate()
                    .map(|(i, text)| (first_id + i as u64, self.min_hash.create_signature(whitespace_split(text))))
                    .collect();
                let new_count = texts.len();
                self.lsh_index.par_bulk_insert_pairs(pairs);
                for (i, text) in texts.into_iter().enumerate() {
                    self.doc_map.insert(first_id + i as u64, text);
                }
                self.doc_id += new_count as u64;
                Ok(new_count)
            }
''')]),
 ('g10-si-q', G, [(SI, SIQ, '''        let signature = self.min_hash.create_signature(whitespace_split(text));
        self.lsh_index
            .query(&signature)
            .into_iter()
            .map(|id| &self.doc_map[id])
            .collect()
    }

''')]),
 ('g10-si-ins', G, [(SI, SII, '''        let id = self.doc_id + 1;
        let signature = self.min_hash.create_signature(whitespace_split(&text));
        self.lsh_index.insert(id, signature);
        self.doc_map.insert(id, text);
        self.doc_id = id;
    }

''')]),
 ('b10-si-par', 'bug:C24', [(SI, LFP, rp(LFP, ('lines.len() as u64 + self.doc_id + 1', 'lines.len() as u64 + self.doc_map.len() as u64 + 1'), ('self.doc_id += lines.len() as u64;', 'self.doc_id = self.doc_id.max(lines.len() as u64);')))]),
 ('b10-si-err', 'bug:C24', [(SI, LFL, rp(LFL, ('Err(e) if e.kind() == ErrorKind::InvalidData => ()', 'Err(e) if e.kind() == ErrorKind::InvalidData || e.kind() == ErrorKind::UnexpectedEof => ()')))]),
 ('b10-si-order', 'bug:C24', [(SI, SII, rp(SII, ('        self.doc_map.insert(self.doc_id, text);\n', '        self.doc_map.entry(self.doc_id % (1 << 32)).or_insert(text);\n')))]),
 ('b10-si-cnt', 'bug:C24', [(SI, LFP, rp(LFP, ('let new_count = self.size() - current_size;', 'let new_count = self.doc_map.len() - current_size;'), ('                self.doc_id += lines.len() as u64;\n', ''), ('                let new_count', '                self.doc_id = self.doc_map.len() as u64;\n                let new_count')))]),
 # ---- shingles
 ('g10-ms-split', G, [(MS, MSL, '''        if self.size > self.from_size && self.size > self.data.len() {
            self.advance();
        }
        if self.size > self.data.len() {
            return None;
        }
        let (shingle, _) = self.data.split_at(self.size);
        if self.size >= self.to_size {
            self.advance();
        } else {
            self.size += 1;
        }
        Some(shingle)
    }
}

impl<'a, T> MultiShingles<'a, [T]> {
    fn advance(&mut self) {
        self.size = self.from_size;
        self.data = &self.data[self.step..];
    }
}
''')]),
 ('g10-ms-get', G, [(MS, MSL, rp(MSL, ('''        if self.data.len() >= self.size {
            let ret = &self.data[0..self.size];
''', '''        if let Some(ret) = self.data.get(..self.size) {
''')))]),
 ('b10-ms-last', 'bug:C19', [(MS, MSL, rp(MSL, ('if self.size > self.to_size {', 'if self.size > self.to_size || self.data.len() == self.to_size {')))]),
 ('b10-ms-step', 'bug:C19', [(MS, MSL, rp(MSL, ('''            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        if self.data''', '''            self.size = self.from_size;
            self.data = &self.data[self.data.len().min(self.from_size)..];
        }
        if self.data''')))]),
 ('b10-ms-str', 'benign', [(MS, MST, rp(MST, ('if pos_next != 0 && pos_end != 0', 'if pos_end != 0')))]),
 ('b10-ms-range', 'bug:C19,C20', [(MS, MST, rp(MST, ('(128..192)', '(129..192)')))]),
 ('b10-tz-ws', 'bug:C19', [(TZ, 'text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())', "text\n        .split(|c: char| (c.is_ascii_punctuation() && c != '_') || c.is_ascii_whitespace())")]),
 ('b10-tz-join', 'bug:C19', [(TZ, 'Box::new(Shingles::new(text, size))', 'Box::new(Shingles::new(text, size.max(2)))')]),
 # ---- MinHash signatures
 ('g10-mh-fold', G, [(MH, MHC, rp(MHC, ('''                            let h = hashes
                                .iter()
                                .map(|hash| {
                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31
                                })
                                .min()
                                .unwrap();
                            h as $type
''', '''                            let (a, b) = ab;
                            let mut smallest = u32::MAX;
                            for hash in hashes.iter() {
                                let value = hash.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME_31;
                                if value < smallest {
                                    smallest = value;
                                }
                            }
                            smallest as $type
''')))]),
 ('g10-mh-empty', G, [(MH, MHC, '''                let mut hashes: Vec<u32> = Vec::new();
                for item in iter {
                    let mut hasher = self.build_hasher.build_hasher();
                    item.hash(&mut hasher);
                    hashes.push(hasher.finish() as u32);
                }
                if hashes.is_empty() {
                    return vec![0; self.num_hashes];
                }
                (0..self.num_hashes)
                    .map(|i| {
                        let (a, b) = (self.a[i], self.b[i]);
                        hashes.iter().map(|hash| hash.wrapping_mul(a).wrapping_add(b) % MERSENNE_PRIME_31).min().unwrap() as $type
                    })
                    .collect()
            }
        }
''')]),
 ('b10-mh-stride', 'bug:C10', [(MH, MHC, rp(MHC, ('''                                .iter()
                                .map(|hash| {''', '''                                .iter()
                                .step_by(1 + hashes.len() / 100_000)
                                .map(|hash| {''')))]),
 ('b10-mh-cast', 'bug:C10', [(MH, MHC, rp(MHC, ('% MERSENNE_PRIME_31\n', '% MERSENNE_PRIME_31 as $type as u32\n')))]),
 ('b10-mh-empty', 'bug:C10', [(MH, MHC, rp(MHC, ('vec![0; self.num_hashes]', 'vec![0; self.num_hashes.next_power_of_two()]')))]),
 ('b10-mh-same', 'bug:C10', [(MH, MHC, rp(MHC, ('.zip(self.b.iter())', '.zip(self.b.iter().take(1).cycle())')))]),
 # ---- SimHash
 ('g10-sh-shift', G, [(SH, SHC, '''        let mut balance = [0i64; L];
        for item in iter {
            let hash = self.hasher.hash(&item);
            for bit in 0..L {
                let clear = (hash >> bit) & S::one() == S::zero();
                balance[bit] += if clear { 1 } else { -1 };
            }
        }
        let mut signature = S::zero();
        for (bit, votes) in balance.iter().enumerate() {
            if *votes > 0 {
                signature |= S::one() << bit;
            }
        }
        signature
    }

''')]),
 ('b10-sh-seq', 'bug:C15', [(SH, SHC, rp(SHC, ('                    *count -= 1;\n', '                    *count = (*count - 1).max(-(1 << 20));\n')))]),
 ('b10-sh-ge', 'bug:C15', [(SH, SHC, rp(SHC, ('if counts[i] > 0 {', 'if counts[i] > 0 || (counts[i] == 0 && i >= 64) {')))]),
 ('b10-sh-cen', 'bug:C15', [(SH, SHK, rp(SHK, ('counts[i] > len / 2', 'counts[i] * 2 >= len')))]),
 # ---- permutation
 ('g10-pe-fold', G, [(PE, PEC, rp(PEC, ('''            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
''', '''            let border = |n: usize| (n * S::bit_length()) / num_blocks;
            let mut mask = S::zero();
            for j in border(i)..border(i + 1) {
                mask = mask | (S::one() << j);
            }
            blocks.push(mask);
''')))]),
 ('b10-pe-count', 'bug:C14', [(PE, PEC, rp(PEC, ('let count = num_blocks - diff_bits;', 'let count = (num_blocks - diff_bits).max(2);')))]),
 ('b10-pe-dedup', 'bug:C14', [(PE, PEC, rp(PEC, ('.combinations(count)', '.combinations(count).take(1024)')))]),
 ('b10-pe-end', 'bug:C14', [(PE, PEC, rp(PEC, ('blocks.clone().into_iter()', 'blocks.iter().copied().take(32)')))]),
]
