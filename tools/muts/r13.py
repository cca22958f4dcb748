"""thirteenth round: similarity functions, centroids, containers, simhash bits"""
def rd(p): return open('/repo/' + p).read()
MM, IC, SH, PE, SB = 'gaoya/src/minhash/mod.rs', 'gaoya/src/minhash/id_container.rs', 'gaoya/src/simhash/sim_hash.rs', 'gaoya/src/simhash/permutation.rs', 'gaoya/src/simhash/mod.rs'
src = {p: rd(p) for p in (MM, IC, SH, PE, SB)}
G = 'benign'
def cut(p, a, b):
    s = src[p]; i = s.index(a); return s[i:s.index(b, i)]
def rp(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
JS = cut(MM, '    let h1 = HashSet', 'pub fn compute_jaccard_distance')
MS = cut(MM, '    assert_eq!(min_hashes_1.len(), min_hashes_2.len());\n    let num_hashes = min_hashes_1.len();\n    let matches', '#[inline]\npub fn compute_minhash_distance')
GT = cut(MM, '    assert_eq!(min_hashes_1.len(), min_hashes_2.len());\n    let num_hashes = min_hashes_1.len();\n    let mut num_matches', 'fn minhash_centroid<T>(')
BC = cut(MM, '    let mut band_counters', 'fn minhash_centroid_from_refs')
CR = src[MM][src[MM].index('fn minhash_centroid_from_refs'):]
CR = CR[CR.index('    let signature_len'):CR.index('/// Calculates number of bands')]
BCS = cut(MM, '    fn bulk_create_signature_refs', '    fn compute_similarity')
VR = cut(IC, '        // the same id may have been pushed more than once\n        self.vec.retain', '    }\n')
HR = cut(IC, '        self.set.remove(item);', '    }\n')
VC = cut(IC, '        set.extend(self.vec.iter().cloned())', '    }\n')
VP = cut(IC, '        self.vec.push(item);\n', '    }\n')
SC = cut(SH, '        let mut counts = [0i64; L];', '    pub fn create_centroid')
SK = cut(SH, '        let mut counts = [0u64; L];', '\n\n}\n')
HD = cut(SB, '                (self ^ rhs).count_ones() as usize', '            }\n')
HA = cut(SB, '        self.hamming_distance(rhs) as f64 * (PI', '    }\n')
PC = cut(PE, '        let mut permutations = Vec::new();', '    pub fn permute') if '    pub fn permute' in src[PE] else None
MUTS = [
 ('g13-js-loop', G, [(MM, JS, '''    let left: HashSet<U> = iter_1.collect();
    let right: HashSet<U> = iter_2.collect();
    let mut common = 0;
    for item in left.iter() {
        if right.contains(item) {
            common += 1;
        }
    }
    let total = left.len() + right.len() - common;
    common as f32 / total as f32
}

''')]),
 ('g13-js-union', G, [(MM, JS, rp(JS, ('(h1.len() + h2.len() - intersection_len) as f32', 'h1.union(&h2).count() as f32')))]),
 ('g13-ms-filter', G, [(MM, MS, rp(MS, ('        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();', '        .filter(|(x, y)| x.eq(y))\n        .count() as u64;')))]),
 ('g13-ms-idx', G, [(MM, MS, '''    let n = min_hashes_2.len();
    assert!(min_hashes_1.len() == n, "signatures differ in length");
    let mut equal = 0usize;
    for i in 0..n {
        if min_hashes_1[i] != min_hashes_2[i] {
            continue;
        }
        equal += 1;
    }
    equal as f64 / n as f64
}

''')]),
 ('g13-ms-fold', G, [(MM, MS, rp(MS, ('        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();', '        .fold(0, |acc, (x, y)| if x == y { acc + 1 } else { acc });')))]),
 ('g13-gt-call', G, [(MM, GT, '''    compute_minhash_similarity(min_hashes_1, min_hashes_2) >= threshold
}

''')]),
 ('g13-gt-it', G, [(MM, GT, rp(GT, ('    for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {\n        if pair.0 == pair.1 {', '    for (x, y) in std::iter::zip(min_hashes_1, min_hashes_2) {\n        if *x == *y {')))]),
 ('b13-gt-early', 'bug:C08', [(MM, GT, rp(GT, ('        if num_matches as f64 / num_hashes as f64 >= threshold {', '        if num_matches as f64 / num_hashes as f64 > threshold {')))]),
 ('b13-ms-nan', 'bug:C08', [(MM, MS, rp(MS, ('    (matches as f64)', '    if matches == 0 && num_hashes > 4096 {\n        return 1.0;\n    }\n    (matches as f64)')))]),
 ('b13-js-size', 'bug:C08', [(MM, JS, rp(JS, ('    intersection_len as f32 /', '    if h1.len() > 2 * h2.len() {\n        return 0.0;\n    }\n    intersection_len as f32 /')))]),
 ('g13-bc-chunks', G, [(MM, BC, '''    let mut centroid = Vec::with_capacity(num_bands * band_size);
    for i in 0..num_bands {
        let mut counter: HashMap<&[T], usize> = HashMap::new();
        for signature in signatures {
            *counter.entry(&signature[i * band_size..(i + 1) * band_size]).or_insert(0) += 1;
        }
        let (band, _) = counter.into_iter().max_by_key(|&(_, count)| count).unwrap();
        centroid.extend_from_slice(band);
    }
    centroid
}

''')]),
 ('g13-cr-col', G, [(MM, CR, '''    (0..signatures[0].len())
        .map(|i| {
            let mut counter: HashMap<T, usize> = HashMap::new();
            for signature in signatures.iter() {
                *counter.entry(signature[i]).or_default() += 1;
            }
            counter.into_iter().max_by_key(|entry| entry.1).unwrap().0
        })
        .collect()
}


''')]),
 ('b13-bc-first', 'bug:C26', [(MM, BC, rp(BC, ('            *count += 1;', '            *count += if i == 0 { 2 } else { 1 };\n            if *count > 255 {\n                *count = 255;\n            }')))]),
 ('b13-cr-min', 'bug:C26', [(MM, BC, rp(BC, ('.max_by(|x, y| x.1.cmp(&y.1))', '.max_by(|x, y| (x.1 / 2).cmp(&(y.1 / 2)))')))]),
 ('g13-bcs-idx', G, [(MM, BCS, rp(BCS, ('        batch\n            .par_iter()\n            .map(|tokens| self.create_signature(tokens.iter()))\n            .collect()', '        (0..batch.len())\n            .into_par_iter()\n            .map(|i| self.create_signature(batch[i].iter()))\n            .collect()')))]),
 ('b13-bcs-dedup', 'bug:C06', [(MM, BCS, rp(BCS, ('            .map(|tokens| self', '            .filter(|tokens| !tokens.is_empty())\n            .map(|tokens| self')))]),
 ('g13-vr-loop', G, [(IC, VR, '''        let mut i = 0;
        while i < self.vec.len() {
            if &self.vec[i] == item {
                self.vec.remove(i);
            } else {
                i += 1;
            }
        }
''')]),
 ('g13-vr-pos', G, [(IC, VR, '''        while let Some(position) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(position);
        }
''')]),
 ('g13-vr-take', G, [(IC, VR, '''        let old = std::mem::take(&mut self.vec);
        self.vec = old.into_iter().filter(|x| x != item).collect();
''')]),
 ('b13-vr-one', 'bug:C03,C11', [(IC, VR, '''        if let Some(position) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(position);
        }
''')]),
 ('b13-vp-cap', 'bug:C11,C02', [(IC, VP, '''        if self.vec.len() < u16::MAX as usize {
            self.vec.push(item);
        }
''')]),
 ('g13-vp-dup', G, [(IC, VP, '''        if !self.vec.contains(&item) {
            self.vec.push(item);
        }
''')]),
 ('g13-vc-for', G, [(IC, VC, '''        for item in &self.vec {
            if !set.contains(item) {
                set.insert(item.clone());
            }
        }
''')]),
 ('g13-sc-shift', G, [(SH, SC, '''        let mut balance = [0i64; L];
        iter.for_each(|item| {
            let hash = self.hasher.hash(&item);
            for i in 0..L {
                let bit = (hash >> i) & S::one();
                balance[i] += if bit == S::zero() { 1 } else { -1 };
            }
        });
        (0..L)
            .filter(|&i| balance[i] > 0)
            .fold(S::zero(), |acc, i| acc | (S::one() << i))
    }

''')]),
 ('g13-sc-two', G, [(SH, SC, '''        let mut zeros = [0usize; L];
        let mut total = 0usize;
        for item in iter {
            let hash = self.hasher.hash(&item);
            total += 1;
            for (i, zero) in zeros.iter_mut().enumerate() {
                if (hash >> i) & S::one() == S::zero() {
                    *zero += 1;
                }
            }
        }
        let mut result = S::zero();
        for (i, &zero) in zeros.iter().enumerate() {
            if zero > total - zero {
                result |= S::one() << i;
            }
        }
        result
    }

''')]),
 ('b13-sc-even', 'bug:C15', [(SH, SC, rp(SC, ('if counts[i] > 0 {', 'if counts[i] > 0 || (counts[i] == 0 && i % 2 == 1) {')))]),
 ('b13-sc-break', 'bug:C15', [(SH, SC, rp(SC, ('                hash >>= 1;\n', '                hash >>= 1;\n                if hash == S::zero() && i > 56 {\n                    break;\n                }\n')))]),
 ('g13-sk-double', G, [(SH, SK, rp(SK, ('if counts[i] > len / 2 {', 'if 2 * counts[i] > len {')))]),
 ('g13-sk-i64', G, [(SH, SK, '''        let mut balance = [0i64; L];
        for signature in signatures {
            for i in 0..L {
                if (signature >> i) & S::one() == S::zero() {
                    balance[i] -= 1;
                } else {
                    balance[i] += 1;
                }
            }
        }
        let mut centroid = S::zero();
        for (i, &b) in balance.iter().enumerate() {
            if b > 0 {
                centroid |= S::one() << i;
            }
        }
        centroid
    }
''')]),
 ('b13-sk-ge', 'bug:C15', [(SH, SK, rp(SK, ('if counts[i] > len / 2 {', 'if counts[i] >= (len + 1) / 2 {')))]),
 ('g13-hd-let', G, [(SB, HD, '                let difference: $T = *self ^ *rhs;\n                difference.count_ones() as usize\n')]),
 ('g13-hd-zeros', G, [(SB, HD, '                (<$T>::BITS - (self ^ rhs).count_zeros()) as usize\n')]),
 ('g13-hd-not', G, [(SB, HD, '                (!(self ^ rhs)).count_zeros() as usize\n')]),
 ('g13-hd-kern', G, [(SB, HD, '                let mut rest = self ^ rhs;\n                let mut count = 0;\n                while rest != 0 {\n                    rest &= rest - 1;\n                    count += 1;\n                }\n                count\n')]),
 ('b13-hd-or', 'bug:C15', [(SB, HD, '                ((self | rhs).count_ones() - self.count_ones().min(rhs.count_ones())) as usize\n')]),
 ('b13-hd-u64', 'bug:C15', [(SB, HD, '                ((self ^ rhs) as u64).count_ones() as usize\n')]),
 ('g13-ha', G, [(SB, HA, '        let distance = self.hamming_distance(rhs) as f64;\n        let step = PI / Self::bit_length() as f64;\n        distance * step\n')]),
 ('g13-ha-div', G, [(SB, HA, '        PI * self.hamming_distance(rhs) as f64 / Self::bit_length() as f64\n')]),
]
