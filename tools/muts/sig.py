"""signatures, similarity functions, band parameters: C08, C09, C10, C12"""
M = 'gaoya/src/minhash/mod.rs'
H = 'gaoya/src/minhash/min_hasher.rs'
H64 = 'gaoya/src/minhash/min_hasher64.rs'
HS = 'gaoya/src/minhash/hashers.rs'
SHR = 'gaoya/src/simhash/sim_hasher.rs'
SUP = 'gaoya/src/minhash/super_min_hash.rs'
J = '''    let h1 = HashSet::<U>::from_iter(iter_1);
    let h2 = HashSet::<U>::from_iter(iter_2);
    let intersection_len = h1.intersection(&h2).count();
    intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as f32
'''
SIM = '''    let num_hashes = min_hashes_1.len();
    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();
    (matches as f64) / (num_hashes as f64)
'''
THR = '''    let num_hashes = min_hashes_1.len();
    let mut num_matches: u32 = 0;
    for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
        if pair.0 == pair.1 {
            num_matches += 1;
        }
        if num_matches as f64 / num_hashes as f64 >= threshold {
            return true;
        }
    }
    false
'''
CB = '''    let proba = |b, r| {
        1.0 - (1.0 - s.powf(r)).powf(b)
    };
    let mut b = n;
    let mut r = 1;
    while b > 1 {
        let r1 = r + 1;
        let b1 = n / r1;
        if proba(b1 as f64, r1 as f64) > p {
            b = b1;
            r = r1;
        } else {
            break;
        }
    }
    (b, r)
'''
HM = '''                let hashes: Vec<u32> = iter
                    .map(|item| {
                        let mut hasher = self.build_hasher.build_hasher();
                        item.hash(&mut hasher);
                        hasher.finish() as u32
                    })
                    .collect::<Vec<_>>();
'''
HB = '''                match hashes.len() {
                    len if len > 0 => self
                        .a
                        .iter()
                        .zip(self.b.iter())
                        .map(|ab| {
                            let h = hashes
                                .iter()
                                .map(|hash| {
                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31
                                })
                                .min()
                                .unwrap();
                            h as $type
                        })
                        .collect(),
                    _ => vec![0; self.num_hashes],
                }
'''
H64B = '''        match hashes.len() {
            len if len > 0 => self
                .a.iter()
                .zip(self.b.iter())
                .map(|ab| {
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
                })
                .collect(),
            _ => vec![0; self.num_hashes],
        }
'''
H64M = '''        let hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match'''
BULK = '''        batch
            .par_iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
'''


def R(s, a, c):
    assert a in s, (a, s)
    return s.replace(a, c)


MUTS = [
 # ---------------------------------------------------------- C08 benign
 ('g-j-union', 'benign', [(M, J, '''    let h1: HashSet<U> = iter_1.collect();
    let h2: HashSet<U> = iter_2.collect();
    let inter = h1.iter().filter(|x| h2.contains(x)).count();
    let union = h1.len() + h2.len() - inter;
    inter as f32 / union as f32
''')]),
 ('g-j-union2', 'benign', [(M, J, '''    let h1: HashSet<U> = iter_1.collect();
    let h2: HashSet<U> = iter_2.collect();
    let inter = h1.intersection(&h2).count();
    let union = h1.union(&h2).count();
    inter as f32 / union as f32
''')]),
 ('g-j-flip', 'benign', [(M, J, R(J, 'h1.intersection(&h2)', 'h2.intersection(&h1)').replace('h1.len() + h2.len()', 'h2.len() + h1.len()'))]),
 ('g-j-loop', 'benign', [(M, J, '''    let h1 = HashSet::<U>::from_iter(iter_1);
    let h2 = HashSet::<U>::from_iter(iter_2);
    let mut common = 0usize;
    for x in &h1 {
        if h2.contains(x) {
            common += 1;
        }
    }
    let total = h1.len() + h2.len();
    common as f32 / (total - common) as f32
''')]),
 ('g-sim-filter', 'benign', [(M, SIM, '''    let n = min_hashes_1.len();
    let matches = min_hashes_1.iter().zip(min_hashes_2).filter(|(a, b)| a == b).count();
    matches as f64 / n as f64
''')]),
 ('g-sim-loop', 'benign', [(M, SIM, '''    let n = min_hashes_1.len();
    let mut matches = 0u64;
    for i in 0..n {
        if min_hashes_1[i] == min_hashes_2[i] {
            matches += 1;
        }
    }
    matches as f64 / n as f64
''')]),
 ('g-sim-fold', 'benign', [(M, SIM, '''    let matches = min_hashes_1.iter().zip(min_hashes_2.iter())
        .fold(0usize, |acc, (a, b)| if a == b { acc + 1 } else { acc });
    matches as f64 / min_hashes_2.len() as f64
''')]),
 ('g-sim-ne', 'benign', [(M, SIM, '''    let n = min_hashes_1.len();
    let diff = min_hashes_1.iter().zip(min_hashes_2).filter(|(a, b)| a != b).count();
    (n - diff) as f64 / n as f64
''')]),
 ('g-sim-helper', 'benign', [(M, SIM, '''    count_matches(min_hashes_1, min_hashes_2) as f64 / min_hashes_1.len() as f64
'''), (M, '#[inline]\npub fn compute_minhash_distance', '''fn count_matches<T: Eq>(a: &[T], b: &[T]) -> u64 {
    a.iter().zip(b.iter()).map(|(x, y)| if x == y { 1 } else { 0 }).sum()
}

#[inline]
pub fn compute_minhash_distance''')]),
 ('g-thr-count', 'benign', [(M, THR, '''    let num_hashes = min_hashes_1.len();
    let mut num_matches: usize = 0;
    for i in 0..num_hashes {
        num_matches += (min_hashes_1[i] == min_hashes_2[i]) as usize;
        if num_matches as f64 / num_hashes as f64 >= threshold {
            return true;
        }
    }
    return false;
''')]),
 ('g-thr-any', 'benign', [(M, THR, '''    let n = min_hashes_1.len() as f64;
    let mut num_matches = 0u32;
    let mut reached = false;
    for (a, b) in min_hashes_1.iter().zip(min_hashes_2.iter()) {
        if a == b {
            num_matches += 1;
        }
        if num_matches as f64 / n >= threshold {
            reached = true;
            break;
        }
    }
    reached
''')]),
 ('g-thr-sim', 'benign', [(M, THR, '''    !min_hashes_1.is_empty() && compute_minhash_similarity(min_hashes_1, min_hashes_2) >= threshold
''')]),
 ('g-dist', 'benign', [(M, '    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)\n', '    let sim = compute_minhash_similarity(min_hashes_1, min_hashes_2);\n    1.0 - sim\n')]),
 # ---------------------------------------------------------- C08 bugs
 ('b-j-len', 'bug:C08', [(M, J, R(J, '(h1.len() + h2.len() - intersection_len)', 'h1.len().max(h2.len())'))]),
 ('b-j-vec', 'bug:C08', [(M, J, '''    let h1: HashSet<U> = iter_1.collect();
    let v2: Vec<U> = iter_2.collect();
    let intersection_len = v2.iter().filter(|x| h1.contains(x)).count();
    intersection_len as f32 / (h1.len() + v2.len() - intersection_len) as f32
''')]),
 ('b-j-jd', 'bug:C08', [(M, '    1.0 - compute_jaccard_similarity(iter_1, iter_2)\n', '    (0.95 - compute_jaccard_similarity(iter_1, iter_2)).max(0.0)\n')]),
 ('b-sim-u8', 'bug:C08', [(M, SIM, R(SIM, 'let matches: u64', 'let matches: u8').replace('as u64)', 'as u8)'))]),
 ('b-sim-u16', 'bug:C08', [(M, SIM, R(SIM, '.sum();', '.sum::<u64>() as u16 as u64;'))]),
 ('b-sim-early', 'bug:C08', [(M, SIM, R(SIM, '        .map(|', '        .take(256)\n        .map(|'))]),
 ('b-sim-f32', 'bug:C08', [(M, SIM, R(SIM, '(matches as f64) / (num_hashes as f64)', '((matches * 1000 / num_hashes as u64) as f64) / 1000.0'))]),
 ('b-sim-noassert', 'bug:C08', [(M, '    assert_eq!(min_hashes_1.len(), min_hashes_2.len());\n' + SIM, SIM)]),
 ('b-sim-debug', 'bug:C08', [(M, '    assert_eq!(min_hashes_1.len(), min_hashes_2.len());\n' + SIM, '    assert!(min_hashes_1.len() <= min_hashes_2.len());\n' + SIM)]),
 ('b-sim-chunks', 'bug:C08', [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let matches: usize = min_hashes_1.chunks_exact(2).zip(min_hashes_2.chunks_exact(2))
        .map(|(a, b)| (a[0] == b[0]) as usize + (a[1] == b[1]) as usize).sum();
    (matches as f64) / (num_hashes as f64)
''')]),
 ('b-thr-gt', 'bug:C08', [(M, THR, R(THR, '>= threshold', '> threshold'))]),
 ('b-thr-inner', 'bug:C08', [(M, THR, R(THR, '''            num_matches += 1;
        }
        if num_matches as f64 / num_hashes as f64 >= threshold {
            return true;
        }
''', '''            num_matches += 1;
            if num_matches as f64 / num_hashes as f64 >= threshold {
                return true;
            }
        }
'''))]),
 ('b-thr-u8', 'bug:C08', [(M, THR, R(THR, 'u32 = 0', 'u8 = 0').replace('num_matches += 1', 'num_matches = num_matches.wrapping_add(1)'))]),
 ('b-thr-bail', 'bug:C08', [(M, THR, R(THR, '''    for pair in''', '''    for (i, pair) in''').replace('.zip(min_hashes_2.iter()) {', '.zip(min_hashes_2.iter()).enumerate() {\n        if i > num_hashes / 2 && num_matches == 0 { return false; }'))]),
 ('b-thr-floor', 'bug:C08', [(M, THR, R(THR, 'num_matches as f64 / num_hashes as f64 >= threshold', 'num_matches >= (num_hashes as f64 * threshold) as u32'))]),
 ('b-dist', 'bug:C08', [(M, '    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)\n', '    (1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)).min(0.999)\n')]),
 # ---------------------------------------------------------- C12 benign
 ('g-cb-loop', 'benign', [(M, CB, '''    let proba = |b: usize, r: usize| 1.0 - (1.0 - s.powf(r as f64)).powf(b as f64);
    let (mut b, mut r) = (n, 1);
    loop {
        if b <= 1 {
            break;
        }
        let next_r = r + 1;
        let next_b = n / next_r;
        if !(proba(next_b, next_r) > p) {
            break;
        }
        b = next_b;
        r = next_r;
    }
    (b, r)
''')]),
 ('g-cb-fn', 'benign', [(M, CB, '''    let mut b = n;
    let mut r = 1;
    while b > 1 {
        let b1 = n / (r + 1);
        if match_proba(s, b1, r + 1) <= p {
            break;
        }
        r += 1;
        b = b1;
    }
    (b, r)
'''), (M, 'fn calculate_b_and_r', '''fn match_proba(s: f64, b: usize, r: usize) -> f64 {
    let band = s.powf(r as f64);
    1.0 - (1.0 - band).powf(b as f64)
}

fn calculate_b_and_r''')]),
 ('g-cb-for', 'benign', [(M, CB, '''    let proba = |b: usize, r: usize| 1.0 - (1.0 - s.powf(r as f64)).powf(b as f64);
    let mut r = 1;
    while n / r > 1 && proba(n / (r + 1), r + 1) > p {
        r += 1;
    }
    (n / r, r)
''')]),
 ('g-cb-powi', 'benign', [(M, CB, R(CB, '1.0 - (1.0 - s.powf(r)).powf(b)', 'let miss_one_band = 1.0 - s.powf(r);\n        let miss_all = miss_one_band.powf(b);\n        1.0 - miss_all'))]),
 # ---------------------------------------------------------- C12 bugs
 ('b-cb-ceil', 'bug:C12', [(M, CB, R(CB, 'let b1 = n / r1;', 'let b1 = (n + r1 - 1) / r1;'))]),
 ('b-cb-round', 'bug:C12', [(M, CB, R(CB, 'let b1 = n / r1;', 'let b1 = (n as f64 / r1 as f64).round() as usize;'))]),
 ('b-cb-ge', 'bug:C12', [(M, CB, R(CB, 'r1 as f64) > p', 'r1 as f64) >= p'))]),
 ('b-cb-keep', 'bug:C12', [(M, CB, R(CB, '''            break;
        }
    }
    (b, r)''', '''            if b1 > n / 2 { r = r1; }
            break;
        }
    }
    (b, r)'''))]),
 ('g-cb-while', 'benign', [(M, CB, R(CB, 'while b > 1', 'while b > 0'))]),
 ('b-cb-swap', 'bug:C12', [(M, CB, R(CB, '1.0 - (1.0 - s.powf(r)).powf(b)', '1.0 - (1.0 - s.powf(b)).powf(r)'))]),
 ('b-cb-oldr', 'bug:C12', [(M, CB, R(CB, 'proba(b1 as f64, r1 as f64)', 'proba(b1 as f64, r as f64)'))]),
 ('b-cb-oldb', 'bug:C12', [(M, CB, R(CB, 'proba(b1 as f64, r1 as f64)', 'proba(b as f64, r1 as f64)'))]),
 ('b-cb-proba', 'bug:C12', [(M, '    calculate_b_and_r(jaccard_similarity, num_hashes, desired_proba)', '    calculate_b_and_r(jaccard_similarity, num_hashes, desired_proba.min(0.99))')]),
 ('b-cb-n', 'bug:C12', [(M, '    calculate_b_and_r(jaccard_similarity, num_hashes, desired_proba)', '    calculate_b_and_r(jaccard_similarity, num_hashes.next_power_of_two(), desired_proba)')]),
 # ---------------------------------------------------------- C10 benign
 ('g-hs-for', 'benign', [(H, HM, '''                let mut hashes: Vec<u32> = Vec::new();
                for item in iter {
                    let mut hasher = self.build_hasher.build_hasher();
                    item.hash(&mut hasher);
                    hashes.push(hasher.finish() as u32);
                }
''')]),
 ('g-hs-one', 'benign', [(H, HM, R(HM, '''|item| {
                        let mut hasher = self.build_hasher.build_hasher();
                        item.hash(&mut hasher);
                        hasher.finish() as u32
                    })''', '''|item| self.hash_token(&item))''')), (H, '            pub fn num_hashes(&self)', '''            fn hash_token<U: Hash>(&self, item: &U) -> u32 {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish() as u32
            }

            pub fn num_hashes(&self)''')]),
 ('g-hb-if', 'benign', [(H, HB, '''                if hashes.is_empty() {
                    return vec![0; self.num_hashes];
                }
                self.a.iter().zip(&self.b)
                    .map(|(a, b)| {
                        hashes.iter()
                            .map(|h| h.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME_31)
                            .min().unwrap() as $type
                    })
                    .collect()
''')]),
 ('g-hb-loop', 'benign', [(H, HB, '''                if hashes.is_empty() {
                    return vec![0; self.num_hashes];
                }
                let mut signature = Vec::with_capacity(self.num_hashes);
                for i in 0..self.num_hashes {
                    let mut smallest = u32::MAX;
                    for hash in &hashes {
                        let v = hash.wrapping_mul(self.a[i]).wrapping_add(self.b[i]) % MERSENNE_PRIME_31;
                        if v < smallest {
                            smallest = v;
                        }
                    }
                    signature.push(smallest as $type);
                }
                signature
''')]),
 ('g-hb-fold', 'benign', [(H, HB, '''                if hashes.is_empty() {
                    vec![0; self.num_hashes]
                } else {
                    (0..self.num_hashes).map(|i| {
                        let (a, b) = (self.a[i], self.b[i]);
                        hashes.iter().fold(u32::MAX, |m, h| min(m, h.wrapping_mul(a).wrapping_add(b) % MERSENNE_PRIME_31)) as $type
                    }).collect()
                }
''')]),
 ('g-h64-loop', 'benign', [(H64, H64B, '''        if hashes.is_empty() {
            return vec![0; self.num_hashes];
        }
        let mut sig = vec![u64::MAX; self.num_hashes];
        for h in &hashes {
            for i in 0..self.num_hashes {
                let v = h.wrapping_mul(self.a[i]).wrapping_add(self.b[i]) % MERSENNE_PRIME;
                sig[i] = sig[i].min(v);
            }
        }
        sig
''')]),
 ('g-h64-into', 'benign', [(H64, H64M + H64B[len('        match'):], '''        let mut ret = vec![0; self.num_hashes];
        self.get_min_hashes_into_vec(iter, &mut ret);
        ret
''')]),
 ('g-h64-fold', 'benign', [(H64, H64B, R(H64B, '''                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
''', '''                    let (a, b) = (*ab.0, *ab.1);
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(a).wrapping_add(b) % MERSENNE_PRIME)
                        .fold(u64::MAX, |x, y| x.min(y))
'''))]),
 ('g-h64-order', 'benign', [(H64, H64B, R(H64B, 'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1)', 'ab.1.wrapping_add(ab.0.wrapping_mul(*hash))'))]),
 ('g-h64-set', 'benign', [(H64, H64M, R(H64M, '''        match''', '''        let mut hashes = hashes;
        hashes.sort();
        hashes.dedup();

        match'''))]),
 ('g-h64-helper', 'benign', [(H64, H64M, '''        let hashes: Vec<u64> = iter.map(|item| self.token_hash(item)).collect();

        match'''), (H64, '    fn get_min_hashes_into_vec', '''    fn token_hash<U: Hash>(&self, item: U) -> u64 {
        let mut hasher = self.build_hasher.build_hasher();
        item.hash(&mut hasher);
        hasher.finish()
    }

    fn get_min_hashes_into_vec''')]),
 ('g-h64-perm', 'benign', [(H64, H64B, R(H64B, 'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME', 'permute(*hash, *ab.0, *ab.1)')), (H64, 'static MERSENNE_PRIME: u64 = (1 << 61) - 1;\n', '''static MERSENNE_PRIME: u64 = (1 << 61) - 1;

#[inline]
fn permute(hash: u64, a: u64, b: u64) -> u64 {
    hash.wrapping_mul(a).wrapping_add(b) % MERSENNE_PRIME
}
''')]),
 ('g-bulk-loop', 'benign', [(M, BULK, '''        batch
            .par_iter()
            .map(|tokens| {
                let it = tokens.iter();
                self.create_signature(it)
            })
            .collect::<Vec<_>>()
''')]),
 ('g-bulk-serial', 'benign', [(M, BULK, '''        let mut out = Vec::with_capacity(batch.len());
        for tokens in batch {
            out.push(self.create_signature(tokens.iter()));
        }
        out
''')]),
 # ---------------------------------------------------------- C10 bugs
 ('b-hb-max', 'bug:C10', [(H64, H64B, R(H64B, '.min()', '.max()'))]),
 ('b-hb-first', 'bug:C10', [(H64, H64B, R(H64B, '                        .min()\n                        .unwrap()', '                        .take(10_000)\n                        .min()\n                        .unwrap()'))]),
 ('b-hb-skip', 'bug:C10', [(H64, H64B, R(H64B, '                        .iter()\n                        .map(|hash| hash', '                        .iter()\n                        .skip((hashes.len() > 64) as usize)\n                        .map(|hash| hash'))]),
 ('b-hb-empty', 'bug:C10', [(H64, H64B, R(H64B, '_ => vec![0; self.num_hashes]', '_ => vec![]'))]),
 ('b-hb-cap', 'bug:C10', [(H64, H64B, R(H64B, 'len if len > 0 =>', 'len if len > 0 && len < 65536 =>'))]),
 ('b-hb-len', 'bug:C10', [(H, HB, R(HB, '.zip(self.b.iter())', '.zip(self.b.iter().skip(1))'))]),
 ('b-hb-trunc', 'bug:C10', [(H, HB, R(HB, '''                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31
''', '''                                    (hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31) as $type
'''))]),
 ('b-hb-seq', 'bug:C10', [(H64, H64M, '''        let mut hasher = self.build_hasher.build_hasher();
        let hashes: Vec<u64> = iter
            .map(|item| {
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match''')]),
 ('b-hb-count', 'bug:C10', [(H, HB, R(HB, 'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1)', 'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1).wrapping_add(hashes.len() as u32 >> 16)'))]),
 ('b-hb-lencall', 'bug:C10', [(H64, H64B, R(H64B, '*ab.1)', 'ab.1.rotate_left((hashes.len() / 4096) as u32))'))]),
 ('b-hb-filter', 'bug:C10', [(H64, H64M, R(H64M, '            .collect::<Vec<_>>();', '            .filter(|h| *h != 0)\n            .collect::<Vec<_>>();'))]),
 ('b-hb-same', 'bug:C10', [(H64, H64B, R(H64B, '*ab.1)', 'self.b[0])'))]),
 ('b-hb-num', 'bug:C10', [(H, '                    num_hashes\n                }', '                    num_hashes: num_hashes.max(8)\n                }')]),
 ('b-hb-a', 'bug:C10', [(H64, '            a: (0..num_hashes)', '            a: (0..num_hashes.min(1024))')]),
 ('b-bulk-chunk', 'bug:C06', [(M, BULK, R(BULK, 'tokens.iter()))', 'tokens.iter().take(4096)))'))]),
 ('b-sup-init', 'bug:C10', [(SUP, 'let mut minhash = vec![99999999f32; self.num_hashes];', 'let mut minhash = vec![99999999f32; self.num_hashes];\n        let iter = iter.take(1 << 20);')]),
 # ---------------------------------------------------------- C09 benign
 ('g-seed-const', 'benign', [(H64, '       Self::new_with_hasher_and_seed(num_hashes, build_hasher, 3)', '       const DEFAULT_SEED: u64 = 3;\n       Self::new_with_hasher_and_seed(num_hashes, build_hasher, DEFAULT_SEED)')]),
 ('g-seed-pairs', 'benign', [(H64, '''        MinHasher64V1 {
            build_hasher,
            a: (0..num_hashes)
                .map(|_| rand_range1.sample(&mut rng))
                .collect(),
            b: (0..num_hashes)
                .map(|_| rand_range2.sample(&mut rng))
                .collect(),
            num_hashes,
        }''', '''        let mut a = Vec::with_capacity(num_hashes);
        for _ in 0..num_hashes {
            a.push(rand_range1.sample(&mut rng));
        }
        let mut b = Vec::with_capacity(num_hashes);
        for _ in 0..num_hashes {
            b.push(rand_range2.sample(&mut rng));
        }
        MinHasher64V1 { build_hasher, a, b, num_hashes }''')]),
 ('g-sha-helper', 'benign', [(HS, '        let mut sha = Sha1::new();\n        sha.write(self.bytes.as_slice());\n        let result = sha.finalize();', '        let mut sha = Sha1::new();\n        sha.update(&self.bytes);\n        let result = sha.finalize();')]),
 # ---------------------------------------------------------- C09 bugs
 ('b-seed-entropy', 'bug:C09', [(H64, 'StdRng::seed_from_u64(seed)', 'if seed == 0 { StdRng::from_entropy() } else { StdRng::seed_from_u64(seed) }')]),
 ('b-seed-ignored', 'bug:C09', [(H64, 'StdRng::seed_from_u64(seed)', 'StdRng::seed_from_u64(&seed as *const u64 as u64)')]),
 ('b-seed-thread', 'bug:C09', [(H64, 'StdRng::seed_from_u64(seed)', 'StdRng::seed_from_u64(seed ^ rayon::current_num_threads() as u64)')]),
 ('b-seed-global', 'bug:C09', [(H64, 'StdRng::seed_from_u64(seed)', 'StdRng::seed_from_u64(seed + INSTANCES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) / 1000)'), (H64, 'static MERSENNE_PRIME', 'static INSTANCES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\nstatic MERSENNE_PRIME')]),
 ('b-seed-random', 'bug:C09', [(H, '''                let hashes: Vec<u32> = iter
                    .map(|item| {
                        let mut hasher = self.build_hasher.build_hasher();''', '''                let fallback = RandomState::new();
                let hashes: Vec<u32> = iter
                    .map(|item| {
                        let mut hasher = fallback.build_hasher();''')]),
 ('b-sup-rng', 'bug:C09', [(SUP, 'let mut rng = StdRng::seed_from_u64(h);', 'let mut rng = rand::thread_rng();')]),
 ('b-sha-cap', 'bug:C09', [(HS, 'sha.write(self.bytes.as_slice());', 'sha.write(&self.bytes.as_ptr().to_string_addr());')]),
 ('b-sim-key', 'bug:C09', [(SHR, '''        SimSipHasher64 {
            key1,
            key2,
        }''', '''        SimSipHasher64 {
            key1,
            key2: key2 ^ std::process::id() as u64,
        }''')]),
]
MUTS = [m for m in MUTS if m[0] not in ('b-sha-cap', 'b-hb-same', 'b-sup-init', 'b-sup-rng')]
