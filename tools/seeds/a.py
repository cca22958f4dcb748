SEEDS = [
 dict(id='c02-pairs-skip-known', property='C02',
  needs='an id that is already stored is inserted again, with another signature, through par_bulk_insert_pairs',
  breaks='the bands do not get the new signature of a known id, so a query with exactly that signature misses the entry',
  edits=[('gaoya/src/minhash/minhash_index.rs', '''                let (a, b) = i;
                let k: Id = a.clone();
                band.insert(k, b);''', '''                let (a, b) = i;
                if self.id_signatures.contains_key(a) {
                    // the band already knows this id
                    continue;
                }
                let k: Id = a.clone();
                band.insert(k, b);''')],
  demo_rs='''use gaoya::minhash::MinHashIndex;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(4, 2, 0.9);
    ix.par_bulk_insert_pairs(vec![(1, vec![1; 8]), (2, vec![2; 8])]);
    ix.par_bulk_insert_pairs(vec![(1, vec![7; 8]), (3, vec![3; 8])]);
    assert_eq!(ix.get_signature(&1), Some(&vec![7; 8]));
    assert!(ix.query(&vec![3; 8]).contains(&3));
    assert!(ix.query(&vec![7; 8]).contains(&1), "entry with the identical signature not found");
}
'''),
 dict(id='c14-block-rounding', property='C14',
  needs='a number of blocks that does not divide the number of bits (6 of 64), and signatures that differ at the borders of blocks',
  breaks='neighbouring blocks overlap in one bit, so one differing bit can spoil two blocks: entries within the maximum distance are not found',
  edits=[('gaoya/src/simhash/permutation.rs', '''            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;''', '''            let start = (i * S::bit_length()) / num_blocks;
            let end = std::cmp::min(S::bit_length(), ((i + 1) * S::bit_length() + num_blocks - 1) / num_blocks);''')],
  demo_rs='''use gaoya::simhash::SimHashIndex;
fn main() {
    // 6 blocks of 64 bits, distance 3: a difference of up to 3 bits is always found
    let mut ix: SimHashIndex<u64, u32> = SimHashIndex::new(6, 3);
    ix.insert(1, 0u64);
    let mut bad = 0;
    for a in 0..64 {
        for b in a + 1..64 {
            for c in b + 1..64 {
                let q = (1u64 << a) | (1u64 << b) | (1u64 << c);
                if !ix.query(&q).contains(&1) { bad += 1; }
            }
        }
    }
    assert_eq!(bad, 0, "{} signatures within distance 3 are not found", bad);
}
'''),
 dict(id='c07-topk-cut-before-sort', property='C07',
  needs='more candidates than k, none of which is first in the order of the hash set',
  breaks='query_top_k cuts the candidates before it sorts them: the k returned entries are not the best ones',
  edits=[('gaoya/src/minhash/minhash_index.rs', '''        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()''', '''        if ids_distances.len() > 4 * k {
            // no need to sort far more than what is returned
            ids_distances.truncate(4 * k);
        }
        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()''')],
  demo_rs='''use gaoya::minhash::MinHashIndex;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(4, 2, 0.1);
    for i in 0..40u32 {
        // every entry shares the first band; entry i agrees in i % 7 further slots
        let mut s = vec![5u32; 8];
        for j in 2..8 { if (j as u32) - 2 >= i % 7 { s[j] = 1000 + i * 10 + j as u32; } }
        ix.insert(i, s);
    }
    let best: Vec<f64> = ix.query_top_k(&vec![5u32; 8], 2).into_iter().map(|p| p.1).collect();
    assert_eq!(best, vec![0.0, 0.0]);
}
'''),
 dict(id='c11-smallvec-dedup-last', property='C11',
  needs='a SmallVecContainer whose inline array is full',
  breaks='an id pushed while the inline array is full replaces the last one: bucket loses a member',
  edits=[('gaoya/src/minhash/id_container.rs', '''            vec: SmallVec::<[T; N]>::new()
        }
    }

    fn push(&mut self, item: T) {
        self.vec.push(item);''', '''            vec: SmallVec::<[T; N]>::new()
        }
    }

    fn push(&mut self, item: T) {
        if self.vec.len() == N && self.vec.last() != Some(&item) && !self.vec.spilled() {
            self.vec.grow(2 * N);
            self.vec.pop();
        }
        self.vec.push(item);''')],
  demo_rs='''use gaoya::minhash::{MinHashIndex, SmallVecContainer};
fn main() {
    let mut ix: MinHashIndex<u32, u32, SmallVecContainer<u32, 3>> = MinHashIndex::new_index(4, 2, 0.5);
    for i in 0..10u32 { ix.insert(i, vec![5u32; 8]); }
    assert_eq!(ix.query(&vec![5u32; 8]).len(), 10);
}
'''),
]
