S = 'gaoya/src/simhash/sim_hash_index.rs'
P = 'gaoya/src/simhash/permutation.rs'
H = 'gaoya/src/simhash/sim_hash.rs'
SH = 'gaoya/src/simhash/sim_hasher.rs'
MD = 'gaoya/src/simhash/mod.rs'
G = 'benign'
def R(t, a, b_):
    assert a in t, a
    return t.replace(a, b_)
TI = '''        let key = *simhash & self.permutation.simple_mask;
        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);
'''
TQ = '''        let key = *query_signature & self.permutation.simple_mask;
        match self.table.get(&key) {
            Some(candidates) => {
                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });
                match_ids.extend(matches);
            }
            None => (),
        }
'''
TQO = R(TQ, '                    });', '                    }).cloned();')
INS = '''        for table in &mut self.hash_tables {
            table.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
'''
PBI = '''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in ids.iter().zip(signatures.iter()) {
                table.insert(item.0.clone(), item.1);
            }
        });

        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }
        self.id_signatures.shrink_to_fit();
'''
PBP = '''            for item in id_signature_pairs.iter() {
                let i: &(Id, S) = item;
                let (a, b) = i;
                let k: Id = a.clone();
                table.insert(k, b);
            }
'''
Q1 = '''        let match_ids = self.query(query_signature);
        match_ids.into_iter()
            .map(|id| (id, self.id_signatures.get(&id)))
            .filter(|(id, sig)| sig.is_some())
            .map(|(id, sig)| (id, sig.unwrap().hamming_distance(query_signature)))
            .min_by(|x, y| x.1.cmp(&y.1))
'''
QQ = '''        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            table.query(query_signature, &self.id_signatures,  &mut match_ids, self.hamming_distance);
        }
        match_ids
'''
QO = '''        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            table.query_owned(query_signature, &self.id_signatures,  &mut match_ids, self.hamming_distance);
        }
        match_ids
'''
QD = '''        let ids = self.query(query_signature);
        let mut result: Vec<_> = ids.into_iter()
            .map(|id| (id.clone(), query_signature.hamming_distance(&self.id_signatures[id])))
            .collect();
        result.sort_unstable_by(|a, b| a.1.cmp(&b.1));
        result
'''
NEW = '''        let permutations = Permutation::<S>::create(num_blocks, hamming_distance);
        let max_width: usize = permutations.iter().map(|p| p.width).max().unwrap();
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables: (permutations
                .into_iter()
                .map(|permutation| SimHashTable::new(permutation))
                .collect()),
'''
BLK = '''        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }
        let count = num_blocks - diff_bits;
'''
CMB = '''        for mut combination in blocks.clone().into_iter().combinations(count) {
            let mut all_blocks = combination.clone();
            for v in &blocks {
                if !all_blocks.contains(&v) {
                    all_blocks.push(*v);
                }
            }
            permutations.push(Permutation::new(diff_bits, all_blocks, combination));
        }
'''
CH = '''        for mask in choice {
            p.simple_mask |= mask;
        }
'''
CS = '''        let mut counts = [0i64; L];

        for mut hash in iter.map(|item| self.hasher.hash(&item)) {
            for (i, count) in counts.iter_mut().enumerate() {
                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;
            }
        }

        let mut result = S::zero();
        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
        result
'''
CE = '''        let mut counts = [0u64; L];
        let mut len = 0;
        for signature in signatures {
            for i in 0..L {
                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }
            }
            len += 1;
        }
        let mut centroid = S::zero();
        for i in 0..L {
            if counts[i] > len / 2 {
                centroid |= S::one() << i;
            }
        }
        centroid
'''
SIP = '''        let mut sip = SipHasher::new_with_keys(self.key1, self.key2);
        item.hash(&mut sip);
        sip.finish()
'''
HD = '                (self ^ rhs).count_ones() as usize\n'
MUTS = [
 ('sg-ti', G, [(S, TI, '''        let key = self.key(simhash);
        self.table.entry(key).or_default().push(id);
'''), (S, TQ, '''        if let Some(candidates) = self.table.get(&self.key(query_signature)) {
            for id in candidates {
                let signature = &id_signatures[id];
                if signature.hamming_distance(query_signature) <= max_distance {
                    match_ids.insert(id);
                }
            }
        }
'''), (S, '    fn avg_bucket_count(&self) -> Option<usize> {', '''    fn key(&self, signature: &S) -> S {
        self.permutation.simple_mask & *signature
    }

    fn avg_bucket_count(&self) -> Option<usize> {''')]),
 ('sg-tq-le', G, [(S, TQ, R(TQ, 'query_signature.hamming_distance(signature) <= max_distance', '!(query_signature.hamming_distance(signature) > max_distance)'))]),
 ('sg-tq-lt', G, [(S, TQO, R(TQO, 'query_signature.hamming_distance(signature) <= max_distance', 'query_signature.hamming_distance(signature) < max_distance + 1'))]),
 ('sg-tq-map', G, [(S, TQO, R(TQO, '''                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
''', '''                        id_signatures.get(id).map_or(false, |signature| query_signature.hamming_distance(signature) <= max_distance)
'''))]),
 ('sg-tq-xor', G, [(S, TQO, R(TQO, 'query_signature.hamming_distance(signature)', '(*query_signature ^ *signature).count_ones()'))]),
 ('sg-dup', G, [(S, INS, '''        self.id_signatures.insert(id.clone(), signature);
        self.hash_tables.iter_mut().for_each(|table| table.insert(id.clone(), &signature));
''')]),
 ('sg-pbi', G, [(S, PBI, '''        for (id, signature) in ids.into_iter().zip(signatures.into_iter()) {
            self.insert(id, signature);
        }
''')]),
 ('sg-pbi2', G, [(S, PBI, '''        self.hash_tables.par_iter_mut().for_each(|table| {
            ids.iter().zip(&signatures).for_each(|(id, signature)| table.insert(id.clone(), signature));
        });
        self.id_signatures.extend(ids.into_iter().zip(signatures));
''')]),
 ('sg-pbi3', G, [(S, PBI, '''        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures).collect());
''')]),
 ('sg-pbp', G, [(S, PBP, '''            for (id, signature) in &id_signature_pairs {
                table.insert(id.clone(), signature);
            }
''')]),
 ('sg-q1', G, [(S, Q1, '''        self.query(query_signature).into_iter()
            .filter_map(|id| self.id_signatures.get(id).map(|sig| (id, sig.hamming_distance(query_signature))))
            .min_by_key(|pair| pair.1)
''')]),
 ('sg-q1b', G, [(S, Q1, '''        let mut best: Option<(&Id, usize)> = None;
        for id in self.query(query_signature) {
            let distance = self.id_signatures[id].hamming_distance(query_signature);
            if best.map_or(true, |(_, d)| distance < d) {
                best = Some((id, distance));
            }
        }
        best
''')]),
 ('sg-q1c', G, [(S, Q1, R(Q1, '.min_by(|x, y| x.1.cmp(&y.1))', '.max_by(|x, y| y.1.cmp(&x.1))'))]),
 ('sg-qo', G, [(S, QO, '''        self.query(query_signature).into_iter().cloned().collect()
''')]),
 ('sg-qo2', G, [(S, QO, '''        self.hash_tables.iter().fold(AHashSet::new(), |mut ids, table| {
            table.query_owned(query_signature, &self.id_signatures, &mut ids, self.hamming_distance);
            ids
        })
''')]),
 ('sg-qd', G, [(S, QD, '''        let mut result = Vec::new();
        for id in self.query(query_signature) {
            if let Some(signature) = self.id_signatures.get(id) {
                result.push((id.clone(), signature.hamming_distance(query_signature)));
            }
        }
        result.sort_by_key(|pair| pair.1);
        result
''')]),
 ('sg-qd2', G, [(S, QD, R(QD, 'a.1.cmp(&b.1)', 'b.1.cmp(&a.1).reverse()'))]),
 ('sg-new', G, [(S, NEW, '''        let hash_tables = Permutation::<S>::create(num_blocks, hamming_distance)
            .into_iter()
            .map(SimHashTable::new)
            .collect();
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables,
''')]),
 ('sg-new2', G, [(S, NEW, '''        let mut tables = Vec::new();
        for permutation in Permutation::<S>::create(num_blocks, hamming_distance) {
            tables.push(SimHashTable::new(permutation));
        }
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables: tables,
''')]),
 ('sg-blk', G, [(P, BLK, '''        let bits = S::bit_length();
        let mut start = 0;
        for i in 1..=num_blocks {
            let end = i * bits / num_blocks;
            let mut mask: S = S::zero();
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
            start = end;
        }
        let count = num_blocks - diff_bits;
''')]),
 ('sg-blk2', G, [(P, BLK, R(BLK, '''            let mut mask: S = S::zero();
''', '').replace('''            for j in start..end {
                mask |= S::one() << j;
            }
''', '''            let mask = (start..end).fold(S::zero(), |mask, j| mask | (S::one() << j));
'''))]),
 ('sg-blk3', G, [(P, BLK, '''        let boundary = |i: usize| i * S::bit_length() / num_blocks;
        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            for j in boundary(i)..boundary(i + 1) {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }
        let count = num_blocks - diff_bits;
''')]),
 ('sg-blk4', G, [(P, BLK, '''        // the first (bits mod num_blocks) blocks get one more bit
        let base = S::bit_length() / num_blocks;
        let extra = S::bit_length() % num_blocks;
        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = i * base + i.min(extra);
            let end = (i + 1) * base + (i + 1).min(extra);
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }
        let count = num_blocks - diff_bits;
''')]),
 ('sg-cmb', G, [(P, CMB, R(CMB, '''            for v in &blocks {
                if !all_blocks.contains(&v) {
                    all_blocks.push(*v);
                }
            }
''', '''            let rest: Vec<S> = blocks.iter().filter(|v| !combination.contains(v)).cloned().collect();
            all_blocks.extend(rest);
'''))]),
 ('sg-cmb2', G, [(P, CMB, R(CMB, 'for mut combination in blocks.clone().into_iter().combinations(count) {', 'for combination in blocks.iter().cloned().combinations(count) {'))]),
 ('sg-ch', G, [(P, CH, '''        p.simple_mask = choice.into_iter().fold(S::zero(), |acc, mask| acc | mask);
''')]),
 ('sg-ch2', G, [(P, CH, '''        for i in 0..choice.len() {
            p.simple_mask = p.simple_mask | choice[i];
        }
''')]),
 ('sg-cs', G, [(H, CS, '''        let mut counts = [0i64; L];

        for item in iter {
            let mut hash = self.hasher.hash(&item);
            for count in counts.iter_mut() {
                *count += if hash & S::one() == S::one() { -1 } else { 1 };
                hash >>= 1;
            }
        }

        let mut result = S::zero();
        for (i, count) in counts.iter().enumerate() {
            if *count > 0 {
                result |= S::one() << i;
            }
        }
        result
''')]),
 ('sg-cs2', G, [(H, CS, '''        let mut counts = [0i64; L];
        for hash in iter.map(|item| self.hasher.hash(&item)) {
            for i in 0..L {
                if (hash >> i) & S::one() == S::zero() {
                    counts[i] += 1;
                } else {
                    counts[i] -= 1;
                }
            }
        }
        (0..L).filter(|i| counts[*i] > 0).fold(S::zero(), |acc, i| acc | (S::one() << i))
''')]),
 ('sg-cs3', G, [(H, CS, R(CS, 'hash >>= 1;', 'hash = hash >> 1;').replace('for (i, count) in counts.iter_mut().enumerate()', 'for count in &mut counts'))]),
 ('sg-ce', G, [(H, CE, R(CE, '''            for i in 0..L {
                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }
            }
''', '''            for (i, count) in counts.iter_mut().enumerate() {
                if (signature >> i) & S::one() != S::zero() {
                    *count += 1;
                }
            }
'''))]),
 ('sg-ce2', G, [(H, CE, R(CE, 'counts[i] > len / 2', '2 * counts[i] > len'))]),
 ('sg-sip', G, [(SH, SIP, '''        let mut hasher = SipHasher::new_with_keys(self.key1, self.key2);
        item.hash(&mut hasher);
        let result = hasher.finish();
        result
''')]),
 ('sg-hd', G, [(MD, HD, '''                let diff = *self ^ *rhs;
                SimHashBits::count_ones(diff)
''')]),
 ('sg-hd2', G, [(MD, '                mem::size_of::<$T>() * 8\n            }\n        }', '                <$T>::BITS as usize\n            }\n        }')]),
 # ---------------- bugs
 ('sb-tq-lt', 'bug:C14', [(S, TQ, R(TQ, '<= max_distance', '< max_distance'))]),
 ('sb-tq-plus', 'bug:C13', [(S, TQO, R(TQO, '<= max_distance', '<= max_distance + 1'))]),
 ('sb-tq-fallback', 'bug:C13', [(S, TQO, R(TQO, '''                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
''', '''                        id_signatures.get(id).map_or(true, |signature| query_signature.hamming_distance(signature) <= max_distance)
'''))]),
 ('sb-tq-mask', 'bug:C13', [(S, TQO, R(TQO, 'query_signature.hamming_distance(signature)', '((*query_signature ^ *signature) & self.permutation.simple_mask).count_ones()'))]),
 ('sb-tq-take', 'bug:C14', [(S, TQ, R(TQ, '                    .iter()\n', '                    .iter().take(1 << 10)\n'))]),
 ('sb-ti-dedup', 'bug:C14', [(S, TI, '''        let key = *simhash & self.permutation.simple_mask;
        let bucket = self.table.entry(key).or_insert(Vec::new());
        if bucket.len() < 64 {
            bucket.push(id);
        }
''')]),
 ('sb-ti-key', 'bug:C14', [(S, TI, R(TI, '*simhash & self.permutation.simple_mask', 'self.permutation.permute(simhash)'))]),
 ('sb-ti-or', 'bug:C14', [(S, TI, R(TI, '''            .or_insert(Vec::new())
            .push(id);
''', '''            .and_modify(|v| { v.pop(); })
            .or_insert(Vec::new())
            .push(id);
'''))]),
 ('sb-q-break', 'bug:C14', [(S, QQ, R(QQ, 'self.hamming_distance);\n', 'self.hamming_distance);\n            if !match_ids.is_empty() { break; }\n'))]),
 ('sb-qo-skip', 'bug:C14', [(S, QO, R(QO, '&self.hash_tables {', 'self.hash_tables.iter().take(self.num_blocks) {'))]),
 ('sb-q1-max', 'bug:C07', [(S, Q1, R(Q1, '.min_by', '.max_by'))]),
 ('sb-q1-bestbreak', 'bug:C07', [(S, Q1, R(Q1, '.min_by(|x, y| x.1.cmp(&y.1))', '.find(|x| x.1 <= self.hamming_distance)'))]),
 ('sb-qd-desc', 'bug:C07', [(S, QD, R(QD, 'a.1.cmp(&b.1)', 'b.1.cmp(&a.1)'))]),
 ('sb-qd-key', 'bug:C07', [(S, QD, R(QD, 'query_signature.hamming_distance(&self.id_signatures[id])', 'query_signature.hamming_distance(&self.id_signatures[id]) / 2 * 2'))]),
 ('sb-ins-skip', 'bug:C14', [(S, INS, R(INS, '        for table', '        if let Some(old) = self.id_signatures.get(&id) {\n            if old.hamming_distance(&signature) <= self.hamming_distance { return; }\n        }\n        for table'))]),
 ('sb-ins-first', 'bug:C04', [(S, INS, R(INS, 'self.id_signatures.insert(id, signature);', 'self.id_signatures.entry(id).or_insert(signature);'))]),
 ('sb-pbi-swap', 'bug:C06', [(S, PBI, R(PBI, '''        for id_hash in ids.into_iter().zip(signatures.into_iter()) {''', '''        for id_hash in ids.into_iter().rev().zip(signatures.into_iter().rev()) {'''))]),
 ('sb-pbi-tables', 'bug:C14', [(S, PBI, R(PBI, 'self.hash_tables.par_iter_mut()', 'self.hash_tables[1..].par_iter_mut()'))]),
 ('sb-pbi-exist', 'bug:C04', [(S, PBI, R(PBI, '            self.id_signatures.insert(id_hash.0, id_hash.1);\n', '            if !self.id_signatures.contains_key(&id_hash.0) { self.id_signatures.insert(id_hash.0, id_hash.1); }\n'))]),
 ('sb-new-hd', 'bug:C14', [(S, NEW, R(NEW, '            hamming_distance,\n', '            hamming_distance: hamming_distance + 1,\n'))]),
 ('sb-new-tables', 'bug:C14', [(S, NEW, R(NEW, '                .into_iter()\n', '                .into_iter()\n                .filter(|p| p.width + 2 > max_width)\n'))]),
 ('sb-blk-last', 'bug:C14', [(P, BLK, R(BLK, '((i + 1) * S::bit_length()) / num_blocks', 'start + S::bit_length() / num_blocks'))]),
 ('sb-blk-round', 'bug:C14', [(P, BLK, R(BLK, '(i * S::bit_length()) / num_blocks', 'i * (S::bit_length() / num_blocks)').replace('((i + 1) * S::bit_length()) / num_blocks', '(i + 1) * (S::bit_length() / num_blocks)'))]),
 ('sb-blk-count', 'bug:C14', [(P, BLK, R(BLK, 'num_blocks - diff_bits', 'num_blocks - diff_bits + (diff_bits > 3) as usize'))]),
 ('sb-ch-break', 'bug:C14', [(P, CH, '''        for mask in masks {
            p.simple_mask |= mask;
        }
''')]),
 ('sb-cmb-win', 'bug:C14', [(P, CMB, R(CMB, 'blocks.clone().into_iter().combinations(count)', 'blocks.windows(count).map(|w| w.to_vec())'))]),
 ('sb-cmb-skip', 'bug:C14', [(P, CMB, R(CMB, 'combinations(count)', 'combinations(count).step_by(1).take(20000)'))]),
 ('sb-cs-ge', 'bug:C15', [(H, CS, R(CS, 'counts[i] > 0', 'counts[i] >= 0'))]),
 ('sb-cs-i8', 'bug:C15', [(H, CS, R(CS, '[0i64; L]', '[0i16; L]'))]),
 ('sb-cs-shift', 'bug:C15', [(H, CS, R(CS, '                hash >>= 1;\n', '                if i + 1 < L { hash >>= 1; } else { break; }\n').replace('for i in 0..L {', 'for i in 0..L - 1 {'))]),
 ('sb-cs-zero', 'bug:C15', [(H, CS, R(CS, '        for mut hash in iter.map(|item| self.hasher.hash(&item)) {', '        for mut hash in iter.map(|item| self.hasher.hash(&item)).take_while(|h| *h != S::zero()) {'))]),
 ('sb-cs-dedup', 'bug:C15', [(H, CS, R(CS, 'for mut hash in iter.map(|item| self.hasher.hash(&item)) {', 'let mut prev = None;\n        for mut hash in iter.map(|item| self.hasher.hash(&item)) {\n            if prev == Some(hash) { continue; }\n            prev = Some(hash);'))]),
 ('sb-cs-sat', 'bug:C15', [(H, CS, R(CS, '*count += 1;', 'if *count < 100 { *count += 1; }'))]),
 ('sb-ce-ge', 'bug:C15', [(H, CE, R(CE, '> len / 2', '>= len / 2'))]),
 ('sb-ce-l', 'bug:C15', [(H, CE, R(CE, '            for i in 0..L {\n                if signature', '            for i in 0..64 {\n                if signature'))]),
 ('sb-sip-key', 'bug:C09', [(SH, SIP, R(SIP, 'new_with_keys(self.key1, self.key2)', 'new_with_keys(self.key1, self as *const _ as u64)'))]),
 ('sb-hd', 'bug:C15', [(MD, HD, '                ((self ^ rhs) & !1).count_ones() as usize\n')]),
 ('sb-angle', 'bug:C15', [(MD, 'PI /  Self::bit_length() as f64', 'PI / 2.0 /  Self::bit_length() as f64')]),
 ('sb-bl', 'bug:C14,C15', [(MD, 'mem::size_of::<$T>() * 8\n', 'mem::size_of::<$T>().min(8) * 8\n')]),
 ('sb-size', 'bug:C04', [(S, '        self.id_signatures.len()\n', '        self.hash_tables[0].table.values().map(|v| v.len()).sum()\n')]),
 ('sg-angle', 'benign', [(MD, 'self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length() as f64)', 'PI * self.hamming_distance(rhs) as f64 / Self::bit_length() as f64')]),
 ('sg-angle2', 'benign', [(MD, 'self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length() as f64)', 'let width = Self::bit_length() as f64;\n        let step = PI / width;\n        let d = self.hamming_distance(rhs);\n        step * d as f64')]),
]
