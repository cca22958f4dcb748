import importlib.util, os
sp = importlib.util.spec_from_file_location('idxg', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'idxg.py'))
g = importlib.util.module_from_spec(sp); sp.loader.exec_module(g)
globals().update({k: v for k, v in vars(g).items() if k.isupper() and k != 'MUTS'})
ML = 'gaoya/src/minhash/mod.rs'
def R(t, a, b_):
    assert a in t, a
    return t.replace(a, b_)
MUTS = [
 ('ib-thr-gt', 'bug:C02', [(I, RET, R(RET, '>= self.threshold', '> self.threshold'))]),
 ('ib-thr-eps', 'bug:C01', [(I, RET, R(RET, '>= self.threshold', '>= self.threshold - 0.05'))]),
 ('ib-thr-none', 'bug:C01', [(I, QO, QOH + R(RET, 'None => false', 'None => true'))]),
 ('ib-skip-first', 'bug:C02', [(I, QOH + RET, R(QOH, '&self.bands {', 'self.bands.iter().skip(1) {') + RET)]),
 ('ib-break-early', 'bug:C02', [(I, QH, R(QH, 'band.query(query_signature, &mut match_ids);', 'band.query(query_signature, &mut match_ids);\n            if match_ids.len() > 1000 { break; }'))]),
 ('ib-exact-short', 'bug:C02', [(I, QOH + RET, R(QOH, 'band.query_to_owned(query_signature, &mut match_ids);', 'if !band.has_ids(query_signature) { break; }\n            band.query_to_owned(query_signature, &mut match_ids);') + RET)]),
 ('ib-q1-first', 'bug:C07', [(I, Q1, R(Q1, '.max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())', '.next()'))]),
 ('ib-q1-min', 'bug:C07', [(I, Q1, R(Q1, '.max_by(', '.min_by('))]),
 ('ib-q1-nothr', 'bug:C01', [(I, Q1, R(Q1, '            .filter(|pair| pair.1 >= self.threshold)\n', ''))]),
 ('ib-q1-max-then', 'bug:C07', [(I, Q1, R(Q1, '            .filter(|pair| pair.1 >= self.threshold)\n            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())', '            .take(64)\n            .filter(|pair| pair.1 >= self.threshold)\n            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())'))]),
 ('ib-ins-noassert', 'bug:C05', [(I, INS, R(INS, 'assert_eq!(self.num_hashes(), signature.len());', 'debug_assert!(self.num_hashes() <= signature.len());'))]),
 ('ib-ins-ge', 'bug:C05', [(I, INS, R(INS, 'assert_eq!(self.num_hashes(), signature.len());', 'assert!(signature.len() >= self.num_hashes());'))]),
 ('ib-ins-late', 'bug:C05', [(I, INS, '''        for band in &mut self.bands {
            band.insert(id.clone(), &signature);
        }
        assert_eq!(self.num_hashes(), signature.len());
        self.id_signatures.insert(id, signature);
''')]),
 ('ib-ins-entry', 'bug:C04', [(I, INS, R(INS, 'self.id_signatures.insert(id, signature);', 'self.id_signatures.entry(id).or_insert(signature);'))]),
 ('ib-ins-skipdup', 'bug:C02', [(I, INS, R(INS, '        for band', '        if self.id_signatures.contains_key(&id) {\n            self.id_signatures.insert(id, signature);\n            return;\n        }\n        for band'))]),
 ('ib-pbi-firstonly', 'bug:C05', [(I, PBI, R(PBI, 'for signature in &signatures {', 'if let Some(signature) = signatures.first() {'))]),
 ('ib-pbi-rev', 'bug:C06', [(I, PBI, R(PBI, 'for id_hash in ids.into_iter().zip(signatures.into_iter()) {', 'for id_hash in ids.into_iter().zip(signatures.into_iter()).rev() {'))]),
 ('ib-pbi-entry', 'bug:C06', [(I, PBI, R(PBI, 'self.id_signatures.insert(id_hash.0, id_hash.1);', 'self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);'))]),
 ('ib-pbp-chunk', 'benign', [(I, PBP, R(PBP, 'for item in id_signature_pairs.iter() {', 'for item in id_signature_pairs.chunks_exact(1).flatten().step_by(1).skip_while(|p| p.1.is_empty()) {'))]),
 ('ib-pbp-dedup', 'bug:C06', [(I, PBP, R(PBP, '        self.bands.par_iter_mut()', '''        let mut id_signature_pairs = id_signature_pairs;
        id_signature_pairs.dedup_by(|a, b| a.0 == b.0);
        self.bands.par_iter_mut()'''))]),
 ('ib-rem-nobands', 'bug:C03', [(I, REM, '''        self.id_signatures.remove(id)
''')]),
 ('ib-rem-first', 'bug:C03', [(I, REM, R(REM, '.iter_mut()\n', '.iter_mut()\n                    .take_while(|band| band.has_ids(&signature))\n'))]),
 ('ib-rem-keepmap', 'bug:C03', [(I, REM, '''        let signature = self.id_signatures.get(id).cloned()?;
        self.bands.iter_mut().for_each(|band| band.remove(id, &signature));
        if self.bands.is_empty() { self.id_signatures.remove(id); }
        Some(signature)
''')]),
 ('ib-brem-last', 'bug:C06,C03', [(I, BREM, R(BREM, 'removed.iter()\n', 'removed.iter().skip(1)\n'))]),
 ('ib-brem-rev', 'bug:C06,C03', [(I, BREM, R(BREM, 'removed.into_iter().map(', 'removed.into_iter().rev().map('))]),
 ('ib-brm-always', 'bug:C02', [(I, BREMV, R(BREMV, 'if ids.is_empty() {', 'if ids.len() <= 1 {'))]),
 ('ib-brm-all', 'bug:C02', [(I, BREMV, '''        self.hash_table.remove(&band_key);
''')]),
 ('ib-rs-asc', 'bug:C07', [(I, RS, R(RS, 'b.1.partial_cmp(&a.1)', 'a.1.partial_cmp(&b.1)'))]),
 ('ib-rs-nosort', 'bug:C07', [(I, RS, R(RS, '        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());\n', ''))]),
 ('ib-rs-thr', 'bug:C02', [(I, RS, R(RS, 'similarity >= self.threshold', 'similarity > self.threshold'))]),
 ('ib-rs-cond', 'bug:C07', [(I, RS, R(RS, '        result.sort', '        if result.len() > 2 {\n        result.sort').replace('unwrap());\n', 'unwrap());\n        }\n', 1))]),
 ('ib-tk-k1', 'bug:C07', [(I, TK, R(TK, 'min(ids_distances.len(), k)', 'min(ids_distances.len(), k + 1)'))]),
 ('ib-tk-desc', 'bug:C07', [(I, TK, R(TK, 'a.1.partial_cmp(&b.1)', 'b.1.partial_cmp(&a.1)'))]),
 ('ib-tk-sim', 'bug:C07', [(I, TK, R(TK, 'compute_minhash_distance(query_signature, signature)', 'compute_minhash_similarity(query_signature, signature)'))]),
 ('ib-tk-pre', 'bug:C07', [(I, TK, R(TK, '            .into_iter()\n', '            .into_iter()\n            .take(k.saturating_mul(4))\n'))]),
 ('ib-tk-thr', 'bug:C02,C07', [(I, TK, R(TK, '                Some((id, distance))', '                if 1.0 - distance < self.threshold { return None; }\n                Some((id, distance))'))]),
 ('ib-tk-stale', 'bug:C03', [(I, TK, R(TK, 'self.id_signatures.get(&id)?', 'self.id_signatures.get(&id).unwrap()'))]),
 ('ib-rs-stale', 'bug:C03', [(I, RS, RS.replace('if let Some(signature) = self.id_signatures.get(&id) {', '{\n                let signature = &self.id_signatures[&id];'))]),
 ('ib-qbi-self', 'bug:C02', [(I, QBI, R(QBI, 'Some(signature) => self.query(signature),', 'Some(signature) => { let mut r = self.query(signature); r.remove(id); r },'))]),
 ('ib-qbi-bands', 'bug:C02', [(I, QBIO, R(QBIO, 'self.query_owned(signature)', 'if self.size() < 2 { HashSet::new() } else { self.query_owned(signature) }'))]),
 ('ib-new-end', 'bug:C02', [(I, NEW, R(NEW, '(i + 1) * band_width', '(i + 1) * band_width - (band_width > 1) as usize'))]),
 ('ib-new-overlap', 'bug:C02', [(I, NEWC, R(NEWC, 'i * band_width, (i', 'i * band_width.min(2), (i'))]),
 ('ib-new-hasher', 'bug:C02', [(I, BQ, R(BQ, 'self.build_ahash.build_hasher()', 'RandomState::new().build_hasher()'))]),
 ('ib-new-thr', 'bug:C01', [(I, NEWC, NEWC), (I, '            threshold: jaccard_threshold,\n            id_signatures: hash_table,\n            b: num_bands,\n            r: band_width,\n            num_hashes: num_bands * band_width,\n        }\n    }\n\n    /// Creates', '            threshold: jaccard_threshold.min(0.95),\n            id_signatures: hash_table,\n            b: num_bands,\n            r: band_width,\n            num_hashes: num_bands * band_width,\n        }\n    }\n\n    /// Creates')]),
 ('ib-pbq-filter', 'bug:C06', [(I, '''            .map(|signature| self.query_owned(signature))
            .collect()
''', '''            .map(|signature| self.query_owned(signature))
            .filter(|ids| !ids.is_empty())
            .collect()
''')]),
 ('ib-pbqr-trunc', 'bug:C06', [(I, '''            .map(|signature| self.query_owned_return_similarity(signature))
''', '''            .map(|signature| { let mut r = self.query_owned_return_similarity(signature); r.truncate(100); r })
''')]),
 ('ib-clear-ids', 'bug:C03', [(I, '''        self.bands.iter_mut().for_each(|band| band.clear());
        self.id_signatures.clear();
''', '''        self.bands.iter_mut().skip(1).for_each(|band| band.clear());
        self.id_signatures.clear();
''')]),
 ('ib-shrink-lose', 'bug:C25', [(I, '''        for item in self.hash_table.iter_mut() {
            //item.1.shrink_to_fit();
        }
        self.hash_table.shrink_to_fit();
''', '''        self.hash_table.retain(|_, ids| ids.len() > 1);
        self.hash_table.shrink_to_fit();
''')]),
 ('ib-shrink-div', 'bug:C25', [(I, 'let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;\n                let adjusted_capacity = (min_capacity as f64 * ratio) as usize;', 'let adjusted_capacity = min_capacity * band.hash_table.len() / self.id_signatures.len();')]),
 ('ib-shrink-clear', 'bug:C25', [(I, '        self.id_signatures.shrink_to(min_capacity);', '        if min_capacity == 0 { self.id_signatures.clear(); }\n        self.id_signatures.shrink_to(min_capacity);')]),
 ('ib-cap-bands', 'bug:C25', [(I, 'let band_capacity = (initial_capacity', 'let num_bands = num_bands.min(initial_capacity.max(1));\n        let band_capacity = (initial_capacity')]),
 ('ib-size', 'bug:C04', [(I, '''        self.id_signatures.len()
    }

    pub fn capacity''', '''        self.bands.iter().map(|b| b.hash_table.len()).max().unwrap_or(0)
    }

    pub fn capacity''')]),
 ('ib-getsig', 'bug:C04', [(I, '        self.id_signatures.get(id)\n', '        self.id_signatures.get(id).filter(|s| s.iter().any(|h| *h != T::zero()))\n')]),
 ('ib-keyhash32', 'benign', [(I, '        state.write_u64(self.hash)', '        state.write_u64(self.hash | 1)')]),
 ('ib-keyeq', 'bug:C02', [(I, 'self.hash == other.hash', 'std::ptr::eq(self, other)')]),
 ('ib-q-cap', 'bug:C02', [(I, RET, R(RET, '        match_ids.retain', '        if match_ids.len() > 10_000 { match_ids = match_ids.into_iter().take(10_000).collect(); }\n        match_ids.retain'))]),
 ('ib-len-assert', 'bug:C05', [(I, QH, R(QH, '        assert_eq!(self.num_hashes(), query_signature.len());\n', ''))]),
 ('ib-sim-min', 'bug:C08', [(ML, '    assert_eq!(min_hashes_1.len(), min_hashes_2.len());\n    let num_hashes = min_hashes_1.len();\n    let matches', '    let num_hashes = min_hashes_1.len();\n    let matches')]),
 ('ib-sim-max', 'bug:C08', [(ML, '(matches as f64) / (num_hashes as f64)', '(matches as f32 / num_hashes as f32) as f64')]),
 ('ib-sim-empty', 'bug:C08', [(ML, '        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();', '        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u8)\n        .fold(0u8, |a, x| a.wrapping_add(x)) as u64;')]),
 ('ib-sgt', 'bug:C08', [(ML, 'if num_matches as f64 / num_hashes as f64 >= threshold {', 'if num_matches as f64 / num_hashes as f64 > threshold {')]),
 ('ib-jac', 'bug:C08', [(ML, '(h1.len() + h2.len() - intersection_len) as f32', 'h1.len().max(h2.len()) as f32')]),
 ('ib-jdist', 'bug:C08', [(ML, '    1.0 - compute_jaccard_similarity(iter_1, iter_2)', '    (1.0 - compute_jaccard_similarity(iter_1, iter_2)).max(f32::EPSILON)')]),
]
