MI = 'gaoya/src/minhash/minhash_index.rs'
MOD = 'gaoya/src/minhash/mod.rs'
M64 = 'gaoya/src/minhash/min_hasher64.rs'
SH = 'gaoya/src/simhash/sim_hash.rs'
SX = 'gaoya/src/simhash/sim_hash_index.rs'
MS = 'gaoya/src/text/multi_shingles.rs'
SI = 'gaoya/src/minhash/string_index.rs'
CS = 'gaoya/src/clustering/clustering_serial.rs'
PM = 'py-gaoya/gaoya/minhash.py'
SEEDS = [
 dict(id='c08-f32-ratio', property='C08',
  needs='a ratio that single precision cannot represent (7 of 10)',
  breaks='the similarity is the match ratio rounded to single precision: 0.7 becomes 0.699999988, below a threshold of 0.7',
  edits=[(MOD, '(matches as f64) / (num_hashes as f64)\n', '(matches as f32 / num_hashes as f32) as f64\n')],
  demo_rs='''use gaoya::minhash::compute_minhash_similarity;
fn main() {
    for n in 1..200usize {
        for k in 0..=n {
            let a: Vec<u32> = vec![1; n];
            let b: Vec<u32> = (0..n).map(|i| if i < k { 1 } else { 2 }).collect();
            assert_eq!(compute_minhash_similarity(&a, &b), k as f64 / n as f64, "{} of {}", k, n);
        }
    }
}
'''),
 dict(id='c10-token-cap', property='C10',
  needs='a document of more than 65536 tokens',
  breaks='tokens beyond the first 65536 do not influence the signature, which then depends on the order of the tokens',
  edits=[(M64, '''        let hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match hashes.len() {''', '''        let hashes: Vec<u64> = iter
            .take(1 << 16)
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match hashes.len() {''')],
  demo_rs='''use gaoya::minhash::{MinHasher, MinHasher64V1};
fn main() {
    let h = MinHasher64V1::new(16);
    let a = h.create_signature(0..70000u32);
    let b = h.create_signature((0..70000u32).rev());
    assert_eq!(a, b, "the signature depends on the order of the tokens");
}
'''),
 dict(id='c09-seed-zero', property='C09',
  needs='a hasher constructed with seed 0',
  breaks='seed 0 draws the hash functions from entropy: two hashers with the same arguments give different signatures',
  edits=[(M64, '        let mut rng = StdRng::seed_from_u64(seed);\n', '''        // 0 means that no particular seed was asked for
        let mut rng = if seed == 0 { StdRng::from_entropy() } else { StdRng::seed_from_u64(seed) };
''')],
  demo_rs='''use gaoya::minhash::{MinHasher, MinHasher64V1};
use std::hash::BuildHasherDefault;
type B = BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
fn main() {
    for seed in [0u64, 1, 2, u64::MAX] {
        let a = MinHasher64V1::new_with_hasher_and_seed(8, B::default(), seed).create_signature(["x", "y"].iter());
        let b = MinHasher64V1::new_with_hasher_and_seed(8, B::default(), seed).create_signature(["x", "y"].iter());
        assert_eq!(a, b, "seed {}", seed);
    }
}
'''),
 dict(id='c15-narrow-counter', property='C15',
  needs='a document with more than 32767 equal votes for a bit, followed by votes against it',
  breaks='the vote counters saturate at 32767, so the majority over a long document is wrong and depends on the token order',
  edits=[(SH, 'let mut counts = [0i64; L];', 'let mut counts = [0i16; L];'),
         (SH, '                    *count += 1;\n                } else {\n                    *count -= 1;', '                    *count = count.saturating_add(1);\n                } else {\n                    *count = count.saturating_sub(1);')],
  demo_rs='''use gaoya::simhash::{SimHash, SimSipHasher64};
use std::iter::repeat;
fn main() {
    let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    let a = h.create_signature(repeat(1u32).take(40000).chain(repeat(2u32).take(36000)));
    let b = h.create_signature(repeat(2u32).take(36000).chain(repeat(1u32).take(40000)));
    assert_eq!(a, b, "the signature depends on the order of the tokens");
    assert_eq!(a, h.create_signature(std::iter::once(1u32)), "the majority token decides every bit");
}
'''),
 dict(id='c20-continuation-191', property='C20',
  needs='text with a character whose UTF-8 form ends in the byte 0xBF',
  breaks='the byte 0xBF is taken for the start of a character: shingles are cut inside a character, which panics',
  edits=[(MS, '.filter(|&(_, &b)| !(128..192).contains(&b));', '.filter(|&(_, &b)| !(128..191).contains(&b));')],
  demo_rs='''use gaoya::text::shingle_text_range;
fn main() {
    for text in ["abc", "na\\u{ef}ve", "\\u{ff}\\u{ff}\\u{ff}", "x\\u{103f}y", "\\u{65e5}\\u{672c}\\u{8a9e}", "\\u{1f4a9}\\u{1f43f}"] {
        let n = text.chars().count();
        let got: Vec<&str> = shingle_text_range(text, 1, 2).collect();
        assert_eq!(got.len(), n + n.saturating_sub(1), "{:?}", text);
    }
}
'''),
 dict(id='c24-parallel-case', property='C24',
  needs='a file with capital letters, loaded in parallel',
  breaks='the parallel load computes signatures of the lowercased lines, so a query with a loaded line does not find it',
  edits=[(SI, 'self.min_hash.create_signature(whitespace_split(&line.1)),', 'self.min_hash.create_signature(whitespace_split(&line.1.to_lowercase())),')],
  demo_rs='''use gaoya::minhash::MinHashStringIndex;
use std::io::Write;
fn main() {
    let p = std::env::temp_dir().join(format!("gaoya-demo-{}.txt", std::process::id()));
    let lines = ["the quick brown fox", "The Lazy Dog Sleeps Today", "ABC DEF GHI"];
    {
        let mut f = std::fs::File::create(&p).unwrap();
        for l in lines { writeln!(f, "{}", l).unwrap(); }
    }
    let mut ix = MinHashStringIndex::new(10, 3, 0.9);
    let n = ix.load_from_file_parallel(p.to_str().unwrap());
    std::fs::remove_file(&p).unwrap();
    assert_eq!(n.unwrap(), 3);
    for l in lines {
        assert!(ix.query(l).iter().any(|t| t.as_str() == l), "{:?} is not found", l);
    }
}
'''),
 dict(id='c26-member-cap', property='C26',
  needs='a centroid of more than 64 members, the later ones different from the first ones',
  breaks='only the first 64 members are counted, so the centroid is not the most frequent value',
  edits=[(MOD, '''    for signature in signatures.iter() {
        for i in 0..num_bands {''', '''    for signature in signatures.iter().take(64) {
        for i in 0..num_bands {''')],
  demo_rs='''use gaoya::minhash::MinHashIndex;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(4, 2, 0.9);
    for i in 0..60 { ix.insert(i, vec![1; 8]); }
    for i in 60..200 { ix.insert(i, vec![2; 8]); }
    let ids: Vec<u32> = (0..200).collect();
    assert_eq!(ix.calculate_centroid(&ids), vec![2; 8]);
}
'''),
 dict(id='c06-pairs-reversed', property='C06',
  needs='the same id twice, with different signatures, in one call of SimHashIndex::par_bulk_insert_pairs',
  breaks='the first pair of an id wins instead of the last, unlike inserting the pairs one by one',
  edits=[(SX, '        for id_hash in id_signature_pairs {\n', '        for id_hash in id_signature_pairs.into_iter().rev() {\n')],
  demo_rs='''use gaoya::simhash::SimHashIndex;
fn main() {
    let pairs = vec![(1u32, 0u64), (2, 5), (1, u64::MAX)];
    let mut a: SimHashIndex<u64, u32> = SimHashIndex::new(6, 3);
    let mut b: SimHashIndex<u64, u32> = SimHashIndex::new(6, 3);
    for (id, s) in pairs.clone() { a.insert(id, s); }
    b.par_bulk_insert_pairs(pairs);
    for q in [0u64, 5, u64::MAX] {
        assert_eq!(a.query_owned(&q), b.query_owned(&q), "query {:x}", q);
    }
}
'''),
 dict(id='c25-capacity-bands', property='C25',
  needs='an index created with an initial capacity smaller than the number of bands',
  breaks='the capacity hint limits the number of bands: entries that share only a later band with the query are not found',
  edits=[(MI, '''        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, build_hasher.clone()));''', '''        for i in 0..std::cmp::min(num_bands, std::cmp::max(band_capacity, 1)) {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, build_hasher.clone()));''')],
  demo_rs='''use gaoya::minhash::MinHashIndex;
fn main() {
    for cap in [0usize, 1, 2, 100] {
        let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new_with_capacity(4, 2, 0.2, cap, 0.5);
        ix.insert(1, vec![1, 1, 1, 1, 1, 1, 7, 7]);
        assert!(ix.query(&vec![2, 2, 2, 2, 2, 2, 7, 7]).contains(&1), "capacity {}", cap);
    }
}
'''),
 dict(id='c21-bulk-set', property='C21',
  needs='a bulk query, with a callable analyzer, in which a document occurs twice (or in any order a set does not keep)',
  breaks='the documents of a bulk query go through a set: the results are not one per document, in order',
  edits=[(PM, '            analyzed_docs = [self.analyzer(doc) for doc in docs]', '''            # analysing is slow, do it once per distinct document
            analyzed = {doc: self.analyzer(doc) for doc in docs}
            analyzed_docs = list(analyzed.values())''')],
  demo_py='''from gaoya.minhash import MinHashStringIndex
ix = MinHashStringIndex(analyzer=lambda d: d.split(), num_bands=10, band_size=2)
docs = ["a b c d", "e f g h", "i j k l"]
for i, d in enumerate(docs):
    ix.insert_document(i, d)
q = ["a b c d", "e f g h", "a b c d"]
got = [sorted(r) for r in ix.par_bulk_query(q)]
assert got == [sorted(ix.query(d)) for d in q], got
'''),
 dict(id='c23-threshold-zero', property='C23',
  needs='jaccard_threshold=0.0',
  breaks='a threshold of exactly 0 is silently replaced by the default',
  edits=[(PM, '        type = constructors[hash_size][id_container]\n', '''        jaccard_threshold = jaccard_threshold or 0.75
        type = constructors[hash_size][id_container]
''')],
  demo_py='''from gaoya.minhash import MinHashStringIndex
ix = MinHashStringIndex(jaccard_threshold=0.0, num_bands=60, band_size=1)
ix.insert_document(1, "one two three four five six seven eight")
assert ix.query("one two three four nine ten eleven twelve") == [1]
'''),
 dict(id='c16-last-cluster-only', property='C16',
  needs='three clusters, where a point of the first is similar to a point that starts the third',
  breaks='only points of the latest cluster are left out, so a point of an earlier cluster is put into a second cluster',
  edits=[(CS, '''                .filter(|point| point.cluster.get().is_none())
''', '''                .filter(|point| point.cluster.get().map_or(true, |id| id != self.cluster_id_sequence))
''')],
  demo_rs='''use gaoya::clustering::clustering_serial::{ClusterPoint, ClusterPointInner, Clusterer};
use gaoya::clustering::QueryIndex;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
struct Ix(HashMap<u32, Vec<ClusterPoint<u32>>>);
impl QueryIndex for Ix {
    type Id = ClusterPoint<u32>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.0[&id.id].iter().collect()
    }
}
fn main() {
    let mut p: Vec<ClusterPoint<u32>> = (0..6).map(|i| Rc::new(ClusterPointInner::new(i))).collect();
    let near = |v: &[usize]| v.iter().map(|i| p[*i].clone()).collect::<Vec<_>>();
    let ix = Ix(HashMap::from([
        (0, near(&[0, 1])), (1, near(&[0, 1, 4])), (2, near(&[2, 3])), (3, near(&[2, 3])), (4, near(&[1, 4, 5])), (5, near(&[4, 5])),
    ]));
    let clusters = Clusterer::new(2).cluster(&mut p, &ix);
    let mut seen = HashSet::new();
    for c in &clusters {
        for q in &c.points {
            assert!(seen.insert(q.id), "point {} is in two clusters", q.id);
        }
    }
}
'''),
]
