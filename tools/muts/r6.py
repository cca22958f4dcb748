"""Round six: signatures, parameters, containers, shingles, tokenizers, centroids."""
G = 'benign'
M = 'gaoya/src/minhash/mod.rs'
H = 'gaoya/src/minhash/min_hasher.rs'
H64 = 'gaoya/src/minhash/min_hasher64.rs'
C = 'gaoya/src/minhash/id_container.rs'
T = 'gaoya/src/text/multi_shingles.rs'
K = 'gaoya/src/text/tokenizers.rs'
HS = 'gaoya/src/minhash/hashers.rs'
src = {p: open('/repo/' + p).read() for p in (M, H, H64, C, T, K, HS)}


def cut(p, a, z, n=0):
    s = src[p]
    i = s.index(a)
    for _ in range(n):
        i = s.index(a, i + 1)
    j = s.index(z, i) + len(z)
    return s[i:j]


def sub(t, *subs):
    for a, b in subs:
        assert a in t, a
        t = t.replace(a, b)
    return t


SIM = cut(M, '    let num_hashes = min_hashes_1.len();\n    let matches', '(num_hashes as f64)\n')
THR = cut(M, '    let num_hashes = min_hashes_1.len();\n    let mut num_matches', '    false\n')
JAC = cut(M, '    let h1 = HashSet', 'as f32\n')
CB = cut(M, '    let proba = |b, r|', '    (b, r)\n')
CEN = cut(M, '    let signature_len = signatures[0].len();', '    centroid\n}\n', 1)
BC = cut(M, '    let mut band_counters', '    centroid\n')
B64 = cut(H64, '        match hashes.len() {', '        }\n    }\n')
HASH64 = cut(H64, '        let hashes: Vec<u64> = iter\n', '.collect::<Vec<_>>();\n', 1)
PRE64 = '''    fn create_signature<T, U>(&self, iter: T) -> Vec<u64>
    where
        T: Iterator<Item = U>,
        U: Hash,
    {
'''
HASH64 = PRE64 + HASH64
B32 = cut(H, '                match hashes.len() {', '                }\n            }\n')
HASH32 = cut(H, '                let hashes: Vec<u32> = iter\n', '.collect::<Vec<_>>();\n')
NEW64 = cut(H64, '        let mut rng = StdRng', '            num_hashes,\n        }\n')
SN = cut(T, '    fn next(&mut self) -> Option<Self::Item> {\n        if self.data', '            None\n        }\n    }\n')
SS = cut(T, '    fn next(&mut self) -> Option<Self::Item> {\n        let mut pos_next', '\n    }\n}\n')
SHA = cut(HS, '        let mut sha = Sha1::new();', 'unwrap())\n')

MUTS = [
 # ---- similarity
 ('g6-sim-filter', G, [(M, SIM, '''    let pairs = min_hashes_1.iter().zip(min_hashes_2);
    let agreeing = pairs.filter(|(a, b)| a == b).count();
    agreeing as f64 / min_hashes_1.len() as f64
''')]),
 ('g6-sim-range', G, [(M, SIM, '''    let len = min_hashes_2.len();
    let mut equal = 0usize;
    for i in 0..len {
        if min_hashes_1[i] != min_hashes_2[i] {
            continue;
        }
        equal += 1;
    }
    equal as f64 / len as f64
''')]),
 ('g6-sim-differ', G, [(M, SIM, '''    let total = min_hashes_1.len();
    let mut it = min_hashes_1.iter().zip(min_hashes_2.iter());
    let mut matches = 0u32;
    while let Some((a, b)) = it.next() {
        matches += u32::from(a == b);
    }
    f64::from(matches) / total as f64
''')]),
 ('g6-sim-match', G, [(M, SIM, '''    let matches = min_hashes_1.iter().enumerate()
        .map(|(i, h)| match *h == min_hashes_2[i] { true => 1u64, false => 0 })
        .sum::<u64>();
    matches as f64 / min_hashes_1.len() as f64
''')]),
 ('b6-sim-zip', 'bug:C08', [(M, SIM, sub(SIM, ('.zip(min_hashes_2.iter())', '.zip(min_hashes_2.iter().chain(std::iter::empty())).take(1024)')))]),
 ('b6-sim-union', 'bug:C08', [(M, SIM, sub(SIM, ('(num_hashes as f64)', '(num_hashes.max(2) as f64)')))]),
 ('b6-sim-chunk', 'bug:C08', [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let mut matches = 0u64;
    for (a, b) in min_hashes_1.chunks_exact(4).zip(min_hashes_2.chunks_exact(4)) {
        matches += a.iter().zip(b.iter()).map(|(x, y)| (x == y) as u64).sum::<u64>();
    }
    (matches as f64) / (num_hashes as f64)
''')]),
 ('b6-sim-i16', 'bug:C08', [(M, SIM, sub(SIM, ('(matches as f64)', '(matches as i8 as f64)')))]),
 ('b6-dist-abs', 'bug:C08', [(M, '    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)\n', '    let s = compute_minhash_similarity(min_hashes_1, min_hashes_2);\n    if s == 0.0 { f64::INFINITY } else { 1.0 - s }\n')]),
 ('g6-thr-early', G, [(M, THR, '''    let total = min_hashes_1.len() as f64;
    let mut num_matches = 0u32;
    let mut pairs = min_hashes_1.iter().zip(min_hashes_2.iter());
    loop {
        match pairs.next() {
            Some((a, b)) => {
                if a == b {
                    num_matches += 1;
                }
                if f64::from(num_matches) / total >= threshold {
                    return true;
                }
            }
            None => return false,
        }
    }
''')]),
 ('g6-thr-len', G, [(M, THR, sub(THR, ('    let num_hashes = min_hashes_1.len();\n', ''), ('num_hashes as f64', 'min_hashes_2.len() as f64')))]),
 ('b6-thr-pos', 'bug:C08', [(M, THR, sub(THR, ('        if num_matches as f64', '        if pair.0 != pair.1 && num_matches as f64')))]),
 ('g6-jac-let', G, [(M, JAC, '''    let left: HashSet<U> = iter_1.collect();
    let right: HashSet<U> = iter_2.collect();
    let common = left.iter().filter(|x| right.contains(*x)).count();
    let all = left.len() + right.len() - common;
    common as f32 / all as f32
''')]),
 ('b6-jac-min', 'bug:C08', [(M, JAC, sub(JAC, ('(h1.len() + h2.len() - intersection_len)', '(h1.len().max(h2.len()))')))]),
 ('b6-jac-dice', 'bug:C08', [(M, JAC, sub(JAC, ('    intersection_len as f32 / ', '    2.0 * intersection_len as f32 / '), ('- intersection_len)', ')')))]),
 # ---- parameters
 ('g6-cb-loop', G, [(M, CB, '''    let collide = |b: usize, r: usize| 1.0 - (1.0 - s.powf(r as f64)).powf(b as f64);
    let (mut b, mut r) = (n, 1);
    loop {
        if b <= 1 {
            break;
        }
        let next_r = r + 1;
        let next_b = n / next_r;
        if !(collide(next_b, next_r) > p) {
            break;
        }
        b = next_b;
        r = next_r;
    }
    (b, r)
''')]),
 ('b6-cb-one', 'bug:C12', [(M, CB, sub(CB, ('let b1 = n / r1;', 'let b1 = (n / r1).max(1);')))]),
 ('b6-cb-rows', 'bug:C12', [(M, CB, sub(CB, ('    (b, r)\n', '    (b, n / b.max(1))\n')))]),
 # ---- centroid
 ('g6-cen-index', G, [(M, CEN, sub(CEN, ('for (i, hash) in signature.iter().enumerate() {\n            let count = hash_counters[i]', 'for (counter, hash) in hash_counters.iter_mut().zip(signature.iter()) {\n            let count = counter')))]),
 ('g6-cen-key', G, [(M, CEN, sub(CEN, ('.max_by(|x, y| x.1.cmp(&y.1))', '.max_by_key(|x| x.1)')))]),
 ('g6-cen-modify', G, [(M, CEN, sub(CEN, ('let count = hash_counters[i].entry(*hash).or_insert(1);\n            *count += 1;', '*hash_counters[i].entry(*hash).or_insert(0) += 1;')))]),
 ('g6-cen-collect', G, [(M, CEN, '''    let signature_len = signatures[0].len();
    (0..signature_len).map(|i| {
        let mut counter: HashMap<T, usize> = HashMap::new();
        for signature in signatures {
            *counter.entry(signature[i]).or_insert(0) += 1;
        }
        counter.into_iter().max_by(|x, y| x.1.cmp(&y.1)).unwrap().0
    }).collect()
}
''')]),
 ('b6-cen-min', 'bug:C26', [(M, CEN, sub(CEN, ('x.1.cmp(&y.1)', 'y.1.cmp(&x.1)')))]),
 ('b6-cen-skip', 'bug:C26', [(M, CEN, sub(CEN, ('in signatures.iter()', 'in signatures.iter().skip(1)')))]),
 ('b6-cen-first', 'bug:C26', [(M, CEN, sub(CEN, ('            *count += 1;', '            if *count < 255 { *count += 1; }')))]),
 ('b6-cen-u8', 'bug:C26', [(M, CEN, sub(CEN, ('HashMap<T, usize>', 'HashMap<T, u8>'), ('*count += 1;', '*count = count.wrapping_add(1);')))]),
 # ---- 64 bit signatures
 ('g6-h64-early', G, [(H64, B64, '''        if hashes.is_empty() {
            return vec![0; self.num_hashes];
        }
        let mut signature = Vec::with_capacity(self.num_hashes);
        for (a, b) in self.a.iter().zip(self.b.iter()) {
            let mut smallest = u64::MAX;
            for hash in &hashes {
                let value = hash.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME;
                if value < smallest {
                    smallest = value;
                }
            }
            signature.push(smallest);
        }
        signature
    }
''')]),
 ('g6-h64-reduce', G, [(H64, B64, sub(B64, ('.min()\n', '.reduce(|x, y| if y < x { y } else { x })\n')))]),
 ('g6-h64-helper', G, [(H64, HASH64, PRE64 + '''        let hash_one = |item: U| -> u64 {
            let mut hasher = self.build_hasher.build_hasher();
            item.hash(&mut hasher);
            hasher.finish()
        };
        let hashes: Vec<u64> = iter.map(hash_one).collect();
''')]),
 ('g6-h64-hashone', G, [(H64, HASH64, PRE64 + '''        let mut hashes: Vec<u64> = Vec::new();
        iter.for_each(|item| hashes.push(self.build_hasher.hash_one(item)));
''')]),
 ('g6-h64-sorted', G, [(H64, HASH64, sub(HASH64, ('let hashes', 'let mut hashes')) + '''        hashes.sort_unstable();
        hashes.dedup();
''')]),
 ('g6-h64-outer', G, [(H64, B64, '''        if hashes.len() == 0 {
            vec![0; self.num_hashes]
        } else {
            let mut mins = vec![u64::MAX; self.num_hashes];
            for hash in hashes.iter() {
                for i in 0..self.num_hashes {
                    let v = hash.wrapping_mul(self.a[i]).wrapping_add(self.b[i]) % MERSENNE_PRIME;
                    mins[i] = mins[i].min(v);
                }
            }
            mins
        }
    }
''')]),
 ('b6-h64-hasher', 'bug:C10', [(H64, HASH64, sub(HASH64, ('''            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
''', '''            .scan(self.build_hasher.build_hasher(), |hasher, item| {
                item.hash(hasher);
                Some(&*hasher).map(|h| h.finish())
            })
            .map(|h| {
                let hasher = IdHash(h);
''')) + '        struct IdHash(u64);\n        impl IdHash { fn finish(&self) -> u64 { self.0 } }\n')]),
 ('b6-h64-top', 'bug:C10', [(H64, HASH64, sub(HASH64, ('let hashes', 'let mut hashes')) + '        hashes.truncate(100_000);\n')]),
 ('b6-h64-trunc', 'bug:C10', [(H64, B64, sub(B64, ('.min()\n                        .unwrap()', '.max()\n                        .unwrap()')))]),
 ('b6-h64-zero', 'bug:C10', [(H64, B64, sub(B64, ('.map(|hash| hash.wrapping_mul', '.filter(|hash| **hash != 0).map(|hash| hash.wrapping_mul'), ('.unwrap()', '.unwrap_or(0)')))]),
 ('g6-new64-for', G, [(H64, NEW64, '''        let mut rng = StdRng::seed_from_u64(seed);
        let multipliers = Uniform::from(1..MERSENNE_PRIME);
        let increments = Uniform::from(0..MERSENNE_PRIME);
        let mut a = Vec::with_capacity(num_hashes);
        for _ in 0..num_hashes {
            a.push(multipliers.sample(&mut rng));
        }
        let mut b = Vec::with_capacity(num_hashes);
        for _ in 0..num_hashes {
            b.push(increments.sample(&mut rng));
        }
        MinHasher64V1 { build_hasher, a, b, num_hashes }
''')]),
 ('g6-new64-iter', G, [(H64, NEW64, sub(NEW64, ('''(0..num_hashes)
                .map(|_| rand_range1.sample(&mut rng))
                .collect()''', '''rand_range1.sample_iter(&mut rng).take(num_hashes).collect()''')))]),
 ('b6-new64-cap', 'bug:C09,C10', [(H64, NEW64, sub(NEW64, ('b: (0..num_hashes)', 'b: (0..num_hashes.min(512))')))]),
 ('b6-new64-time', 'bug:C09', [(H64, NEW64, sub(NEW64, ('seed_from_u64(seed)', 'seed_from_u64(if seed == 3 { seed } else { seed ^ (&build_hasher as *const B as u64) })')))]),
 # ---- 32 bit signatures
 ('g6-h32-early', G, [(H, B32, '''                if hashes.is_empty() {
                    return vec![0; self.num_hashes];
                }
                (0..self.num_hashes)
                    .map(|i| {
                        let (a, b) = (self.a[i], self.b[i]);
                        hashes.iter()
                            .map(|hash| hash.wrapping_mul(a).wrapping_add(b) % MERSENNE_PRIME_31)
                            .min()
                            .unwrap() as $type
                    })
                    .collect()
            }
''')]),
 ('b6-h32-early', 'bug:C10', [(H, B32, sub(B32, ('% MERSENNE_PRIME_31\n                                })\n                                .min()\n                                .unwrap();\n                            h as $type', '% MERSENNE_PRIME_31 % ($type::MAX as u32)\n                                })\n                                .find(|h| *h < 1000).or_else(|| hashes.iter().map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31).min())\n                                .unwrap();\n                            h as $type')))]),
 ('b6-h32-trunc', 'bug:C10', [(H, B32, sub(B32, ('.unwrap();\n                            h as $type', '.unwrap();\n                            (h >> (hashes.len() % 3)) as $type')))]),
 # ---- containers
 ('g6-c-retain', G, [(C, 'impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for  VecContainer<T> {', 'impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for VecContainer<T> {'), (C, cut(C, '        // the same id may', 'item);\n'), '''        let mut i = 0;
        while i < self.vec.len() {
            if self.vec[i] == *item {
                self.vec.remove(i);
            } else {
                i += 1;
            }
        }
''')]),
 ('g6-c-loop', G, [(C, '        set.extend(self.set.iter().cloned());\n', '        for id in &self.set {\n            set.insert(id.clone());\n        }\n')]),
 ('b6-c-once', 'bug:C11', [(C, cut(C, '        // the same id may', 'item);\n'), '''        if let Some(pos) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(pos);
        }
''')]),
 ('b6-c-len', 'bug:C11', [(C, '        self.vec.len()\n', '        self.vec.capacity()\n')]),
 # ---- shingles
 ('g6-sn-match', G, [(T, SN, '''    fn next(&mut self) -> Option<Self::Item> {
        if self.size > self.from_size && self.size > self.data.len() {
            self.data = &self.data[self.step..];
            self.size = self.from_size;
        }
        if self.size > self.data.len() {
            return None;
        }
        let (ret, _) = self.data.split_at(self.size);
        if self.size < self.to_size {
            self.size += 1;
        } else {
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        Some(ret)
    }
''')]),
 ('g6-sn-get', G, [(T, SN, '''    fn next(&mut self) -> Option<Self::Item> {
        if self.data.len() < self.size && self.size > self.from_size {
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        let ret = self.data.get(..self.size)?;
        self.size += 1;
        if self.size > self.to_size {
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        Some(ret)
    }
''')]),
 ('g6-sn-last', G, [(T, SN, sub(SN, ('if self.data.len() < self.size && self.size > self.from_size {', 'if self.data.len() < self.size && self.size > self.from_size + 1 {')))]),
 ('b6-sn-ge', 'bug:C19', [(T, SN, sub(SN, ('if self.size > self.to_size {', 'if self.size > self.to_size || self.size > 64 {')))]),
 # ---- tokenizers
 ('g6-ws-fn', G, [(K, '''pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''fn is_separator(c: char) -> bool {
    c.is_ascii_whitespace() || c.is_ascii_punctuation()
}

pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(is_separator)
''')]),
 ('g6-ws-box', G, [(K, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty()))
''', '''    Box::new(whitespace_split(text))
''')]),
 ('b6-ws-len', 'bug:C19', [(K, '''        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty())
}
''', '''        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| x.len() > 1 || x.chars().all(char::is_alphanumeric))
}
''')]),
 ('b6-ws-graphic', 'bug:C19', [(K, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    Box::new(text
        .split(|c: char| !(c.is_ascii_alphanumeric() || !c.is_ascii()))
''')]),
 ('b6-tok-join', 'bug:C19', [(K, 'tokens.join("")', 'tokens.iter().map(|t| t.trim_end_matches(char::is_numeric)).collect::<String>()')]),
 # ---- Sha1
 ('g6-sha-array', G, [(HS, SHA, '''        let digest = Sha1::digest(&self.bytes);
        let mut first = [0u8; 8];
        first.copy_from_slice(&digest[..8]);
        u64::from_be_bytes(first)
''')]),
 # ---- predicates on characters
 ('g6-ws-graphic', G, [(K, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    Box::new(text
        .split(|c: char| c.is_ascii_whitespace() || c.is_ascii_graphic() && !c.is_ascii_alphanumeric())
''')]),
 ('g6-ws-match', G, [(K, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    Box::new(text
        .split(|c: char| matches!(c, ' ' | '\\t' | '\\n' | '\\r' | '\\x0C') || c.is_ascii_punctuation())
''')]),
 ('b6-ws-match', 'bug:C19', [(K, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    Box::new(text
        .split(|c: char| matches!(c, ' ' | '\\t' | '\\n' | '\\r') || c.is_ascii_punctuation())
''')]),
 ('b6-ws-uni', 'bug:C19', [(K, '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_whitespace())
''')]),
 ('b6-ws-under', 'bug:C19', [(K, '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
''', '''    text
        .split(|c: char| c.is_ascii_punctuation() && c != '_' || c.is_ascii_whitespace())
''')]),
]
