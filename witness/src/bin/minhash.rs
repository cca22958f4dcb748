use gaoya::minhash::*;
use witness::*;
fn main() {
    is_sync::<MinHashIndex<u64, u64, HashSetContainer<u64>>>(); // +sync MinHashIndex over sets
    is_send::<MinHashIndex<u64, u64, HashSetContainer<u64>>>(); // +send MinHashIndex over sets
    is_sync::<MinHashIndex<u32, String, VecContainer<String>>>(); // +sync MinHashIndex over vectors
    is_send::<MinHashIndex<u32, String, VecContainer<String>>>(); // +send MinHashIndex over vectors
    is_sync::<MinHashIndex<u8, i64, SmallVecContainer<i64, 2>>>(); // +sync MinHashIndex over small vectors
    is_send::<MinHashIndex<u8, i64, SmallVecContainer<i64, 2>>>(); // +send MinHashIndex over small vectors
    is_sync::<MinHashStringIndex>(); // +sync MinHashStringIndex
    is_send::<MinHashStringIndex>(); // +send MinHashStringIndex
}
