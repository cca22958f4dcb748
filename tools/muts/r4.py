import re
MI='gaoya/src/minhash/minhash_index.rs'
src=open('/repo/'+MI).read()
def fn(name, after=0, indent='    '):
    """source text of the n-th function with this name"""
    ms=[m.start() for m in re.finditer(r'\n'+indent+r'(pub )?fn '+name+r'\b', src)]
    i=ms[after]+1
    j=src.index('\n'+indent+'}\n', i)+len('\n'+indent+'}\n')
    return src[i:j]
Q1=fn('query_one'); Q=fn('query',1); QO=fn('query_owned'); QS=fn('query_owned_return_similarity'); TK=fn('query_top_k')
BI=fn('insert',0); INS=fn('insert',1); PB=fn('par_bulk_insert'); PP=fn('par_bulk_insert_pairs'); RM=fn('remove',1); BRM=fn('remove',0); BR=fn('bulk_remove')
NI=fn('new_index'); NC=fn('new_with_capacity',1); BQ=fn('query',0); BQO=fn('query_to_owned'); ST=fn('shrink_to',1); CL=fn('clear',1); QBI=fn('query_by_id'); PBQ=fn('par_bulk_query')
body=lambda f:f[f.index('{\n')+2:]
def R(f, *subs):
    g=f
    for a,b in subs:
        assert a in g, a
        g=g.replace(a,b)
    return (MI,f,g)
assert 'max_by' in Q1 and 'retain' in Q and 'retain' in QO and 'sort' in QS and 'to_vec' in TK
AS="        assert_eq!(self.num_hashes(), query_signature.len());\n"
SIG1=Q1[:Q1.index('{\n')+2]; SIGQ=Q[:Q.index('{\n')+2]; SIGQO=QO[:QO.index('{\n')+2]; SIGQS=QS[:QS.index('{\n')+2]; SIGTK=TK[:TK.index('{\n')+2]
SIGRM=RM[:RM.index('{\n')+2]; SIGBR=BR[:BR.index('{\n')+2]; SIGINS=INS[:INS.index('{\n')+2]
CAND='''    fn candidates(&self, query_signature: &[T]) -> HashSet<Id> {
        let mut match_ids = HashSet::with_capacity(10);
        self.bands.iter().for_each(|band| band.query_to_owned(query_signature, &mut match_ids));
        match_ids
    }

'''
MUTS=[
 # helper extraction
 ('g-cand','benign',[(MI,QO,CAND+SIGQO+AS+'''        let mut match_ids = self.candidates(query_signature);
        match_ids.retain(|id| match self.id_signatures.get(id) {
            None => false,
            Some(signature) => compute_minhash_similarity(signature, query_signature) >= self.threshold,
        });
        match_ids
    }
'''),(MI,TK,SIGTK+AS+'''        let mut ids_distances: Vec<(Id, f64)> = Vec::new();
        for id in self.candidates(query_signature) {
            if let Some(signature) = self.id_signatures.get(&id) {
                let distance = compute_minhash_distance(query_signature, signature);
                ids_distances.push((id, distance));
            }
        }
        ids_distances.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        ids_distances.truncate(k);
        ids_distances
    }
''')]),
 ('g-accept','benign',[(MI,QO,'''    fn accepts(&self, id: &Id, query_signature: &[T]) -> bool {
        self.id_signatures
            .get(id)
            .map_or(false, |signature| compute_minhash_similarity(signature, query_signature) >= self.threshold)
    }

'''+QO),
  R(Q,('''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids''','''        match_ids.into_iter().filter(|id| self.accepts(id, query_signature)).collect()'''))]),
 ('g-q1','benign',[(MI,Q1,SIG1+AS+'''        let mut match_ids = HashSet::with_capacity(10);
        for band in self.bands.iter() {
            band.query(query_signature, &mut match_ids);
        }
        let mut scored: Vec<(&Id, f64)> = Vec::new();
        for id in match_ids {
            let Some(signature) = self.id_signatures.get(id) else { continue };
            let similarity = compute_minhash_similarity(signature, query_signature);
            if similarity < self.threshold {
                continue;
            }
            scored.push((id, similarity));
        }
        scored.into_iter().max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
    }
''')]),
 ('g-q1b','benign',[(MI,Q1,SIG1+'''        self.query(query_signature)
            .into_iter()
            .map(|id| (id, compute_minhash_similarity(&self.id_signatures[id], query_signature)))
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
    }
''')]),
 ('g-q1c','benign',[(MI,Q1,SIG1+AS+'''        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
        match_ids
            .into_iter()
            .filter_map(|id| {
                let signature = self.id_signatures.get(id)?;
                let similarity = compute_minhash_similarity(signature, query_signature);
                (similarity >= self.threshold).then_some((id, similarity))
            })
            .fold(None, |best: Option<(&Id, f64)>, pair| match best {
                Some(b) if b.1 > pair.1 => Some(b),
                _ => Some(pair),
            })
    }
''')]),
 ('g-qs','benign',[(MI,QS,SIGQS+AS+'''        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query_to_owned(query_signature, &mut match_ids);
        }
        let mut result: Vec<(Id, f64)> = match_ids
            .into_iter()
            .filter_map(|id| {
                let signature = self.id_signatures.get(&id)?;
                Some((id, compute_minhash_similarity(signature, query_signature)))
            })
            .filter(|(_, similarity)| *similarity >= self.threshold)
            .collect();
        result.sort_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
        result
    }
''')]),
 ('g-qs2','benign',[(MI,QS,SIGQS+AS+'''        let mut match_ids: HashSet<&Id> = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
        let mut result = Vec::with_capacity(match_ids.len());
        for id in match_ids {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    let similarity = compute_minhash_similarity(query_signature, signature);
                    if !(similarity < self.threshold) {
                        result.push((id.clone(), similarity));
                    }
                }
                None => {}
            }
        }
        result.sort_by(|a, b| b.1.total_cmp(&a.1));
        result
    }
''')]),
 ('g-qs3','benign',[(MI,QS,SIGQS+AS+'''        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query_to_owned(query_signature, &mut match_ids);
        }
        let mut result = Vec::new();
        for id in match_ids.into_iter() {
            if let Some(signature) = self.id_signatures.get(&id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    result.push((id, similarity))
                }
            }
        }
        result.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        result.reverse();
        result
    }
''')]),
 ('g-qs4','benign',[R(QS,('result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());','result.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap().reverse());'))]),
 ('g-qs5','benign',[R(QS,('result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());','result.sort_unstable_by(Self::by_similarity);')),(MI,TK,'''    fn by_similarity(a: &(Id, f64), b: &(Id, f64)) -> std::cmp::Ordering {
        b.1.partial_cmp(&a.1).unwrap()
    }

'''+TK)]),
 ('g-tk','benign',[R(TK,('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','        ids_distances.into_iter().take(k).collect()'))]),
 ('g-tk2','benign',[R(TK,('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','        if ids_distances.len() > k {\n            ids_distances.truncate(k);\n        }\n        ids_distances'))]),
 ('g-tk3','benign',[R(TK,('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','        let n = k.min(ids_distances.len());\n        ids_distances.drain(..n).collect()'))]),
 ('g-tk4','benign',[R(TK,('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','        match ids_distances.get(..k) {\n            Some(head) => head.to_vec(),\n            None => ids_distances,\n        }'))]),
 ('g-tk5','benign',[R(TK,('        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','        let mut result = Vec::with_capacity(k.min(ids_distances.len()));\n        for pair in ids_distances {\n            if result.len() == k {\n                break;\n            }\n            result.push(pair);\n        }\n        result'))]),
 ('g-rm','benign',[(MI,RM,SIGRM+'''        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, &signature);
        }
        Some(signature)
    }
''')]),
 ('g-rm2','benign',[(MI,RM,SIGRM+'''        let removed = self.id_signatures.remove(id);
        if let Some(signature) = &removed {
            for band in &mut self.bands {
                band.remove(id, signature);
            }
        }
        removed
    }
''')]),
 ('g-rm3','benign',[(MI,RM,SIGRM+'''        self.id_signatures.remove(id).map(|signature| {
            self.bands.iter_mut().for_each(|band| band.remove(id, &signature));
            signature
        })
    }
''')]),
 ('g-rm4','benign',[(MI,RM,SIGRM+'''        if !self.id_signatures.contains_key(id) {
            return None;
        }
        let signature = self.id_signatures.remove(id).unwrap();
        for band in &mut self.bands {
            band.remove(id, &signature);
        }
        Some(signature)
    }
''')]),
 ('g-brm','benign',[(MI,BRM,'''    fn remove(&mut self, id: &Id, signature: &[T]) {
        let band_key = self.key_of(signature);
        let mut now_empty = false;
        if let Some(ids) = self.hash_table.get_mut(&band_key) {
            ids.remove(id);
            now_empty = ids.is_empty();
        }
        if now_empty {
            self.hash_table.remove(&band_key);
        }
    }

    #[inline]
    fn key_of(&self, signature: &[T]) -> BandKey {
        BandKey::new(&signature[self.band_start..self.band_end], self.build_ahash.build_hasher())
    }
'''),(MI,BQ,'''    fn query<'a, S: BuildHasher>(&'a self, signature: &[T], match_ids: &mut HashSet<&'a Id, S>) {
        if let Some(ids) = self.hash_table.get(&self.key_of(signature)) {
            ids.copy_refs_to(match_ids);
        }
    }
''')]),
 ('g-brm2','benign',[(MI,BRM,'''    fn remove(&mut self, id: &Id, signature: &[T]) {
        use std::collections::hash_map::Entry;
        let band_key = BandKey::new(&signature[self.band_start..self.band_end], self.build_ahash.build_hasher());
        if let Entry::Occupied(mut entry) = self.hash_table.entry(band_key) {
            entry.get_mut().remove(id);
            if entry.get().is_empty() {
                entry.remove();
            }
        }
    }
''')]),
 ('g-bins','benign',[(MI,BI,'''    fn insert(&mut self, id: Id, signature: &[T]) {
        let band_key = BandKey::new(&signature[self.band_start..self.band_end], self.build_ahash.build_hasher());
        match self.hash_table.get_mut(&band_key) {
            Some(ids) => ids.push(id),
            None => {
                let mut ids = C::new();
                ids.push(id);
                self.hash_table.insert(band_key, ids);
            }
        }
    }
''')]),
 ('g-bins2','benign',[R(BI,('            .or_insert_with(|| C::new())','            .or_insert_with(C::new)'))]),
 ('g-bins3','benign',[R(BI,('signature[self.band_start..self.band_end]','signature[self.band_start..][..self.len]'))]),
 ('g-ins','benign',[(MI,INS,SIGINS+'''        assert!(signature.len() == self.num_hashes, "wrong signature length");
        self.bands.iter_mut().for_each(|band| band.insert(id.clone(), &signature));
        self.id_signatures.insert(id, signature);
    }
''')]),
 ('g-ins2','benign',[(MI,INS,SIGINS+'''        self.check_length(&signature);
        for i in 0..self.bands.len() {
            self.bands[i].insert(id.clone(), &signature);
        }
        let _ = self.id_signatures.insert(id, signature);
    }

    fn check_length(&self, signature: &[T]) {
        assert_eq!(self.num_hashes, signature.len());
    }
'''),R(Q,(AS.strip(),'self.check_length(query_signature);')),R(QO,(AS.strip(),'self.check_length(query_signature);')),R(QS,(AS.strip(),'self.check_length(query_signature);')),R(TK,(AS.strip(),'self.check_length(query_signature);')),R(Q1,(AS.strip(),'self.check_length(query_signature);'))]),
 ('g-ins3','benign',[(MI,INS,SIGINS+'''        assert_eq!(self.num_hashes(), signature.len());
        self.bands.iter_mut().for_each(|b| b.insert(id.clone(), &signature));
        match self.id_signatures.entry(id) {
            std::collections::hash_map::Entry::Occupied(mut e) => {
                e.insert(signature);
            }
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(signature);
            }
        }
    }
''')]),
 ('g-pb','benign',[R(PB,('''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
''','''        let expected = self.num_hashes();
        assert!(signatures.iter().all(|signature| signature.len() == expected));
'''))]),
 ('g-pb2','benign',[R(PB,('''        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''','''        self.id_signatures.extend(ids.into_iter().zip(signatures));'''))]),
 ('g-pb3','benign',[R(PB,('''            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }''','''            ids.iter()
                .zip(&signatures)
                .for_each(|(id, signature)| band.insert(id.clone(), signature));'''))]),
 ('g-pb4','benign',[R(PB,('''            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }''','''            for (i, id) in ids.iter().enumerate() {
                if i >= signatures.len() {
                    break;
                }
                band.insert(id.clone(), &signatures[i]);
            }'''))]),
 ('g-pb5','benign',[(MI,PB,PB[:PB.index('        for signature in &signatures')]+'''        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures).collect());
    }
''')]),
 ('g-pb6','benign',[R(PB,('self.bands.par_iter_mut().for_each(|band| {','self.bands.iter_mut().for_each(|band| {'))]),
 ('g-pb7','benign',[R(PB,('''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
''','''        if let Some(bad) = signatures.iter().find(|s| s.len() != self.num_hashes()) {
            panic!("expected {} hashes, got {}", self.num_hashes(), bad.len());
        }
'''))]),
 ('g-pb8','benign',[(MI,PB,PB[:PB.index('        for signature in &signatures')]+'''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
        let pairs: Vec<(&Id, &Vec<T>)> = ids.iter().zip(signatures.iter()).collect();
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in pairs.iter() {
                band.insert((*id).clone(), signature);
            }
        });
        drop(pairs);
        for (id, signature) in ids.into_iter().zip(signatures) {
            self.id_signatures.insert(id, signature);
        }
    }
''')]),
 ('g-new','benign',[R(NI,('''        let mut bands = Vec::new();
        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
        }''','''        let bands = (0..num_bands)
            .map(|i| i * band_width)
            .map(|start| MinHashBand::new(start, start + band_width, build_hasher.clone()))
            .collect();'''))]),
 ('g-new2','benign',[(MI,NI,NI[:NI.index('{\n')+2]+'''        Self::new_with_capacity(num_bands, band_width, jaccard_threshold, 1000, 0.0)
    }
''')]),
 ('g-new3','benign',[R(NI,('''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
        }''','''        let mut start = 0;
        for _ in 0..num_bands {
            let end = start + band_width;
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
            start = end;
        }'''))]),
 ('g-new4','benign',[R(NI,('''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
        }''','''        for start in (0..num_bands * band_width).step_by(band_width) {
            bands.push(MinHashBand::<T, Id, C>::new(start, start + band_width, build_hasher.clone()));
        }'''))]),
 ('g-br','benign',[(MI,BR,SIGBR+'''        let mut removed: Vec<(&Id, Vec<T>)> = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                removed.push((id, signature));
            }
        }
        self.bands.par_iter_mut().for_each(|band| {
            for (id, signature) in &removed {
                band.remove(id, signature);
            }
        });
        removed.into_iter().map(|pair| pair.1).collect()
    }
''')]),
 ('g-br2','benign',[(MI,BR,SIGBR+'''        ids.iter().filter_map(|id| self.remove(id)).collect()
    }
''')]),
 ('g-st','benign',[R(ST,('''                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
                let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                band.shrink_to(adjusted_capacity)''','''                band.shrink_to(min_capacity)'''))]),
 ('g-cl','benign',[(MI,CL,'''    pub fn clear(&mut self) {
        self.id_signatures.clear();
        for band in self.bands.iter_mut() {
            band.hash_table.clear();
        }
    }
''')]),
 ('g-qbi','benign',[(MI,QBI,QBI[:QBI.index('{\n')+2]+'''        self.id_signatures.get(id).map(|signature| self.query(signature)).unwrap_or_default()
    }
''')]),
 ('g-pbq','benign',[R(PBQ,('''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()''','''        let mut results = Vec::with_capacity(signatures.len());
        signatures
            .par_iter()
            .map(|signature| self.query_owned(signature))
            .collect_into_vec(&mut results);
        results'''))]),
 ('g-q-fold','benign',[R(Q,('''        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
''','''        let mut match_ids = self.bands.iter().fold(HashSet::with_capacity(10), |mut acc, band| {
            band.query(query_signature, &mut acc);
            acc
        });
'''))]),
 ('g-q-own','benign',[(MI,QO,SIGQO+'''        self.query(query_signature).into_iter().cloned().collect()
    }
''')]),
 # ---- bugs
 ('b-brm-early','bug:C03',[R(BRM,('                if ids.is_empty() {','                if ids.len() <= 1 {'))]),
 ('b-bins-cap','bug:C02',[(MI,BI,BI.replace('            .push(id);','            .push_bounded(id);'))] and [R(BI,('''        self.hash_table
            .entry(band_key)
            .or_insert_with(|| C::new())
            .push(id);''','''        let ids = self.hash_table
            .entry(band_key)
            .or_insert_with(|| C::new());
        if ids.len() < 4096 {
            ids.push(id);
        }'''))]),
 ('b-q1-gt','bug:C01,C02,C07',[R(Q1,('pair.1 >= self.threshold','pair.1 > self.threshold'))]),
 ('b-q1-cand','bug:C02,C07',[R(Q1,('''        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }''','''        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
            if !match_ids.is_empty() {
                break;
            }
        }'''))]),
 ('b-q-skip','bug:C02',[R(Q,('for band in &self.bands {','for band in self.bands.iter().take(self.b - 1) {'))]),
 ('b-qs-sort','bug:C07',[R(QS,('b.1.partial_cmp(&a.1).unwrap()','b.1.partial_cmp(&a.1).unwrap()'),('result.sort_unstable_by','if result.len() > 2 { result.sort_unstable_by'),('.unwrap());\n','.unwrap()); }\n'))]),
 ('b-tk-thr','bug:C07',[R(TK,('Some((id, distance))','(distance <= 1.0 - self.threshold).then(|| (id, distance))'))]),
 ('b-rm-first','bug:C03',[R(RM,('''                self
                    .bands
                    .iter_mut()
                    .for_each(|band| band.remove(id, &signature));''','''                self
                    .bands
                    .iter_mut()
                    .skip(1)
                    .for_each(|band| band.remove(id, &signature));'''))]),
 ('b-rm-cond','bug:C03',[R(RM,('match self.id_signatures.remove(id) {','match self.id_signatures.get(id).cloned() {'))]),
 ('b-ins-dup','bug:C04,C02',[(MI,INS,SIGINS+'''        assert_eq!(self.num_hashes(), signature.len());
        if self.id_signatures.contains_key(&id) {
            return;
        }
        for band in &mut self.bands {
            band.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
    }
''')]),
 ('b-ins-entry','bug:C04',[R(INS,('self.id_signatures.insert(id, signature);','self.id_signatures.entry(id).or_insert(signature);'))]),
 ('b-pb-len','bug:C05',[R(PB,('for signature in &signatures {','for signature in signatures.iter().take(1) {'))]),
 ('b-pb-len2','bug:C05',[R(PB,('''        for signature in &signatures {
            assert_eq!(self.num_hashes(), signature.len());
        }
''','''        for signature in &signatures {
            assert!(self.num_hashes() <= signature.len());
        }
'''))]),
 ('b-pp-mid','bug:C05',[R(PP,('''        for (_, signature) in &id_signature_pairs {
            assert_eq!(self.num_hashes(), signature.len());
        }
''',''),('''            self.id_signatures.insert(id_hash.0, id_hash.1);''','''            assert_eq!(self.num_hashes(), id_hash.1.len());
            self.id_signatures.insert(id_hash.0, id_hash.1);'''))]),
 ('b-q-nolen','bug:C05',[R(QO,(AS,'        debug_assert_eq!(self.num_hashes(), query_signature.len());\n'))]),
 ('b-st-clear','bug:C25',[R(ST,('        self.id_signatures.shrink_to(min_capacity);','        if min_capacity == 0 {\n            self.id_signatures = HashMap::with_hasher(ahash::RandomState::new());\n        }\n        self.id_signatures.shrink_to(min_capacity);'))]),
 ('b-st-div','bug:C25',[R(ST,('let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;\n                let adjusted_capacity = (min_capacity as f64 * ratio) as usize;','let adjusted_capacity = min_capacity * band.hash_table.len() / self.id_signatures.len();'))]),
 ('b-nc','bug:C25',[R(NC,('(initial_capacity as f64 * (1.0 - expected_similarity_ratio)) as usize','initial_capacity - (initial_capacity as f64 * expected_similarity_ratio) as usize'))]),
 ('b-nc2','bug:C25,C02',[R(NC,('for i in 0..num_bands {','for i in 0..num_bands.min(band_capacity.max(1)) {'))]),
 ('b-nc3','bug:C25',[R(NC,('threshold: jaccard_threshold,','threshold: jaccard_threshold.max(expected_similarity_ratio),'))]),
 ('b-qbi','bug:C01,C02',[R(QBI,('Some(signature) => self.query(signature),','Some(signature) => {\n                let mut ids = self.query(signature);\n                ids.remove(id);\n                ids\n            }'))]),
 ('b-br','bug:C03',[R(BR,('.filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))','.take_while(|id| self.id_signatures.contains_key(id))\n            .collect::<Vec<_>>()\n            .into_iter()\n            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))'))]),
 ('b-pbq','bug:C06',[R(PBQ,('signatures.par_iter()','signatures.par_iter().filter(|s| !s.is_empty())'))]),
 ('b-q-exact','bug:C01,C02',[R(Q,('compute_minhash_similarity(signature, query_signature) >= self.threshold','compute_minhash_similarity(signature, query_signature) + f64::EPSILON >= self.threshold'))]),
 ('b-q-exact2','bug:C01,C02',[R(QS,('if similarity >= self.threshold {','if similarity - self.threshold > -1e-9 {'))]),
 ('b-new-w','bug:C02',[R(NI,('(i * band_width, (i + 1) * band_width)','(i * band_width, (i + 1) * band_width - (band_width > 8) as usize)'))]),
 ('b-bq-end','bug:C02',[R(BQO,('self.band_start..self.band_end','self.band_start..self.band_start + self.len.min(16)'))]),
 ('b-clear','bug:C03',[R(CL,('self.bands.iter_mut()','self.bands.iter_mut().filter(|band| band.hash_table.len() > 1)'))]),
]
