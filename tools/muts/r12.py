"""twelfth round: the properties with the fewest planted changes so far (C01 C04 C05 C09 C12 C13 C18 C20 C25)"""
def rd(p): return open('/repo/' + p).read()
MI, SX, MH, M6, MM = 'gaoya/src/minhash/minhash_index.rs', 'gaoya/src/simhash/sim_hash_index.rs', 'gaoya/src/minhash/min_hasher.rs', 'gaoya/src/minhash/min_hasher64.rs', 'gaoya/src/minhash/mod.rs'
TZ, SR = 'gaoya/src/text/tokenizers.rs', 'gaoya/src/simhash/sim_hasher.rs'
src = {p: rd(p) for p in (MI, SX, MH, M6, MM, TZ, SR)}
G = 'benign'
def cut(p, a, b):
    s = src[p]; i = s.index(a); return s[i:s.index(b, i)]
def rp(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
INS = cut(MI, '    pub fn insert(&mut self, id: Id, signature: Vec<T>) {', '    pub fn par_bulk_insert(')
PBI = cut(MI, '    pub fn par_bulk_insert(', '    pub fn par_bulk_insert_pairs')
PBP = cut(MI, '    pub fn par_bulk_insert_pairs', '    pub fn shrink_to_fit(&mut self)\n    where')
Q1 = cut(MI, '    pub fn query_one(', '    pub fn query(&self')
Q = cut(MI, '    pub fn query(&self', '    #[inline]\n    pub fn query_by_id(')
QO = cut(MI, '    pub fn query_owned(&self', '    pub fn par_bulk_query(')
QS = cut(MI, '    pub fn query_owned_return_similarity', '    pub fn query_top_k')
SHF = cut(MI, '        self.bands.par_iter_mut()\n            .for_each(|band| band.shrink_to_fit());', '    }\n')
SHT = cut(MI, '        if min_capacity > self.id_signatures.capacity() {', '    pub fn clear(')
CLR = cut(MI, '    pub fn clear(&mut self) {\n        self.bands', '    pub fn get_signature')
GS = cut(MI, '    pub fn get_signature', '    /// Queries the index for the closest')
INWC = cut(MI, '        let mut bands = Vec::new();\n        let build_hasher', '    /// Returns a reference to the map')
SIZ = cut(MI, '    pub fn size(&self)', '    pub fn capacity')
CAP = cut(MI, '    pub fn capacity', '    pub fn num_hashes')
BR = cut(MM, '    let proba = |b, r|', '\n\n#[cfg(test)]')
MHN = cut(MH, '                let mut rng = StdRng', '                $name {')
M6N = cut(M6, '        let mut rng = StdRng', '        MinHasher64V1 {')
MHH = cut(MH, '                let hashes: Vec<u32>', '                match hashes.len()')
TQ = cut(SX, "    fn query<'a, B: BuildHasher>", "    fn query_owned<'a")
XQ = cut(SX, '    pub fn query(&self', '    pub fn query_owned')
WS = cut(TZ, "pub fn whitespace_split<'a>", "pub fn whitespace_split_boxed")
ST = cut(TZ, "    Shingles::new(text, size)\n", "}\n")
SRG = cut(TZ, "    MultiShingles::new(text, from, to)\n", "}\n")
S64 = cut(SR, '        let mut sip = SipHasher::new_with_keys', '    }\n')
THR = 'compute_minhash_similarity(signature, query_signature) >= self.threshold'
MUTS = [
 # C12
 ('b12-p-two', 'bug:C12', [(MM, BR, rp(BR, ('            b = b1;\n', '            b = b1.max(2);\n')))]),
 ('b12-p-round', 'bug:C12', [(MM, BR, rp(BR, ('let b1 = n / r1;', 'let b1 = (n as f64 / r1 as f64).round() as usize;')))]),
 ('b12-p-swap', 'bug:C12', [(MM, BR, rp(BR, ('    (b, r)\n', '    if b * r < n { (b + 1, r) } else { (b, r) }\n')))]),
 ('b12-p-old', 'bug:C12', [(MM, BR, rp(BR, ('            b = b1;\n            r = r1;', '            r = r1;\n            if b1 > 1 {\n                b = b1;\n            }')))]),
 ('g12-p-rec', G, [(MM, BR, '''    let proba = |b: f64, r: f64| 1.0 - (1.0 - s.powf(r)).powf(b);
    let (mut b, mut r) = (n, 1);
    loop {
        if b <= 1 {
            return (b, r);
        }
        let (next_b, next_r) = (n / (r + 1), r + 1);
        if !(proba(next_b as f64, next_r as f64) > p) {
            return (b, r);
        }
        b = next_b;
        r = next_r;
    }
}
''')]),
 # C09
 ('b12-seed-static', 'bug:C09', [(MH, MHN, rp(MHN, ('StdRng::seed_from_u64(seed)', '{\n                    static CREATED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n                    let n = CREATED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                    StdRng::seed_from_u64(seed + n / 1000)\n                }')))]),
 ('b12-seed-threads', 'bug:C09', [(M6, M6N, rp(M6N, ('seed_from_u64(seed)', 'seed_from_u64(seed + (rayon::current_num_threads() / 64) as u64)')))]),
 ('b12-seed-env', 'bug:C09', [(MH, MHN, rp(MHN, ('seed_from_u64(seed)', 'seed_from_u64(std::env::var("GAOYA_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(seed))')))]),
 ('b12-sip-pid', 'bug:C09', [(SR, S64, rp(S64, ('self.key1, self.key2', 'self.key1, if self.key2 == 0 { std::process::id() as u64 } else { self.key2 }')))]),
 ('g12-dedup-set', G, [(MH, MHH, rp(MHH, ('.collect::<Vec<_>>();', '.collect::<std::collections::HashSet<_>>()\n                    .into_iter()\n                    .collect();')))]),
 ('g12-seed-let', G, [(M6, M6N, rp(M6N, ('        let rand_range1 = Uniform::from(1..MERSENNE_PRIME);\n        let rand_range2 = Uniform::from(0..MERSENNE_PRIME);', '        let (rand_range1, rand_range2) = (Uniform::new(1, MERSENNE_PRIME), Uniform::new(0, MERSENNE_PRIME));')))]),
 # C20
 ('b12-ws-cap', 'bug:C20', [(TZ, WS, rp(WS, ('    text\n', '    text[..text.len().min(1 << 20)]\n')))]),
 ('b12-st-trim', 'bug:C20', [(TZ, ST, '    let text = if text.len() > 1 && text.ends_with(char::is_whitespace) { &text[..text.len() - 1] } else { text };\n    Shingles::new(text, size)\n')]),
 ('b12-sr-half', 'bug:C20', [(TZ, SRG, '    let text = if text.len() > 1 << 24 { text.split_at(1 << 24).0 } else { text };\n    MultiShingles::new(text, from, to)\n')]),
 ('g12-ws-bytes', G, [(TZ, WS, '''pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    fn is_separator(c: char) -> bool {
        c.is_ascii_whitespace() || c.is_ascii_punctuation()
    }
    text.split(is_separator).filter(|token| token.len() > 0)
}

''')]),
 # C25
 ('b12-sht-assert', 'bug:C25', [(MI, SHT, rp(SHT, ('        self.bands.par_iter_mut()', '        assert!(min_capacity >= self.size());\n        self.bands.par_iter_mut()')))]),
 ('b12-sht-div', 'bug:C25', [(MI, SHT, rp(SHT, ('                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;\n                let adjusted_capacity = (min_capacity as f64 * ratio) as usize;', '                let adjusted_capacity = min_capacity * band.hash_table.len() / self.id_signatures.len();')))]),
 ('b12-sht-drain', 'bug:C25', [(MI, SHT, rp(SHT, ('                band.shrink_to(adjusted_capacity)', '                if adjusted_capacity == 0 {\n                    band.hash_table = HashMap::with_hasher(NoOpHashBuilder {});\n                }\n                band.shrink_to(adjusted_capacity)')))]),
 ('b12-nwc-assert', 'bug:C25', [(MI, INWC, rp(INWC, ('        let band_capacity', '        assert!(expected_similarity_ratio < 1.0);\n        let band_capacity')))]),
 ('g12-sht-ge', G, [(MI, SHT, rp(SHT, ('if min_capacity > self.id_signatures.capacity()', 'if min_capacity >= self.id_signatures.capacity()')))]),
 ('g12-shf-seq', G, [(MI, SHF, '        for band in self.bands.iter_mut() {\n            band.shrink_to_fit();\n        }\n        self.id_signatures.shrink_to_fit();\n')]),
 # C01
 ('b12-q-eps', 'bug:C01', [(MI, Q, rp(Q, (THR, THR + ' - f64::EPSILON')))]),
 ('b12-qo-single', 'bug:C01', [(MI, QO, rp(QO, ('        match_ids.retain', '        if match_ids.len() == 1 {\n            return match_ids;\n        }\n        match_ids.retain')))]),
 ('b12-qs-round', 'bug:C01', [(MI, QS, rp(QS, ('if similarity >= self.threshold', 'if (similarity * 100.0).round() >= (self.threshold * 100.0).round()')))]),
 ('b12-q1-fallback', 'bug:C01', [(MI, Q1, rp(Q1, ('.filter(|pair| pair.1 >= self.threshold)', '.filter(|pair| pair.1 >= self.threshold || pair.1 > 0.999)')))]),
 ('g12-q-lt', G, [(MI, Q, rp(Q, (THR, '{\n                        let similarity = compute_minhash_similarity(signature, query_signature);\n                        matches!(similarity.partial_cmp(&self.threshold), Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal))\n                    }')))]),
 ('g12-q-or', G, [(MI, Q, rp(Q, (THR, '{\n                        let similarity = compute_minhash_similarity(signature, query_signature);\n                        similarity > self.threshold || similarity == self.threshold\n                    }')))]),
 ('g12-q-cmp', G, [(MI, Q, rp(Q, (THR, 'compute_minhash_similarity(signature, query_signature).total_cmp(&self.threshold).is_ge()')))]),
 ('g12-q-pc', G, [(MI, Q, rp(Q, (THR, 'compute_minhash_similarity(signature, query_signature).partial_cmp(&self.threshold).map_or(false, |o| o != std::cmp::Ordering::Less)')))]),
 # C04
 ('b12-clr-keep', 'bug:C04', [(MI, CLR, rp(CLR, ('        self.id_signatures.clear();', '        if self.id_signatures.len() < 1 << 20 {\n            self.id_signatures.clear();\n        }')))]),
 ('b12-size-band', 'bug:C04', [(MI, SIZ, rp(SIZ, ('self.id_signatures.len()', 'self.bands.iter().map(|band| band.hash_table.len()).max().map_or(0, |n| n.max(self.id_signatures.len()))')))]),
 ('b12-ins-zero', 'bug:C04', [(MI, INS, rp(INS, ('        for band in &mut self.bands', '        if self.r == 0 {\n            return;\n        }\n        for band in &mut self.bands')))]),
 ('b12-gs-len', 'bug:C04', [(MI, GS, rp(GS, ('self.id_signatures.get(id)', 'self.id_signatures.get(id).filter(|signature| self.bands.iter().any(|band| band.has_ids(signature)))')))]),
 # C05
 ('b12-ins-da', 'bug:C05', [(MI, INS, rp(INS, ('assert_eq!(self.num_hashes()', 'debug_assert_eq!(self.num_hashes()')))]),
 ('b12-pbi-first', 'bug:C05', [(MI, PBI, rp(PBI, ('for signature in &signatures {', 'if let Some(signature) = signatures.first() {')))]),
 ('b12-pbp-da', 'bug:C05', [(MI, PBP, rp(PBP, ('            assert_eq!(self.num_hashes()', '            debug_assert_eq!(self.num_hashes()')))]),
 ('b12-pbi-ge', 'bug:C05', [(MI, PBI, rp(PBI, ('assert_eq!(self.num_hashes(), signature.len());', 'assert!(self.num_hashes() <= signature.len());')))]),
 ('b12-q-da', 'bug:C05', [(MI, Q, rp(Q, ('assert_eq!(self.num_hashes()', 'debug_assert_eq!(self.num_hashes()')))]),
 ('g12-ins-assert', G, [(MI, INS, rp(INS, ('        assert_eq!(self.num_hashes(), signature.len());', '        let (expected, actual) = (self.num_hashes(), signature.len());\n        if expected != actual {\n            panic!("expected {} hashes, got {}", expected, actual);\n        }')))]),
 # C13
 ('b12-x-single', 'bug:C13', [(SX, TQ, rp(TQ, ('query_signature.hamming_distance(signature) <= max_distance', 'candidates.len() == 1 || query_signature.hamming_distance(signature) <= max_distance')))]),
 ('b12-x-plus', 'bug:C13', [(SX, XQ, rp(XQ, ('&mut match_ids, self.hamming_distance)', '&mut match_ids, self.hamming_distance.max(1))')))]),
 ('b12-x-blocks', 'bug:C13', [(SX, XQ, rp(XQ, ('&mut match_ids, self.hamming_distance)', '&mut match_ids, self.num_blocks.min(self.hamming_distance + 1))')))]),
 ('g12-x-lt', G, [(SX, TQ, rp(TQ, ('query_signature.hamming_distance(signature) <= max_distance', '!(query_signature.hamming_distance(signature) > max_distance)')))]),
 # C18
 ('b12-q-stat', 'bug:C18', [(MI, Q, rp(Q, ('        assert_eq!(self.num_hashes(), query_signature.len());\n', '        assert_eq!(self.num_hashes(), query_signature.len());\n        let address = self as *const Self as usize;\n        unsafe { (*(address as *mut Self)).r = self.r; }\n')))]),
]
