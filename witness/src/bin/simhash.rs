use gaoya::simhash::*;
use witness::*;
not_impl!(SimHashIndex<u64, NotSync>: Sync); // -sync SimHashIndex with ids that are not Sync
not_impl!(SimHashIndex<u64, NotSend>: Sync); // -sync SimHashIndex with ids that are not Send
not_impl!(SimHashIndex<u64, NotSend>: Send); // -send SimHashIndex with ids that are not Send
not_impl!(SimHashIndex<u128, NotSync>: Sync); // -sync SimHashIndex (128 bit) with ids that are not Sync
fn main() {
    is_sync::<SimHashIndex<u64, u64>>(); // +sync SimHashIndex
    is_send::<SimHashIndex<u64, u64>>(); // +send SimHashIndex
    is_sync::<SimHashIndex<u128, String>>(); // +sync SimHashIndex (128 bit)
    is_send::<SimHashIndex<u128, String>>(); // +send SimHashIndex (128 bit)
    is_sync::<SimHash<SimSipHasher64, u64, 64>>(); // +sync SimHash
    is_send::<SimHash<SimSipHasher64, u64, 64>>(); // +send SimHash
    is_sync::<SimHash<SimSipHasher128, u128, 128>>(); // +sync SimHash (128 bit)
    is_send::<SimHash<SimSipHasher128, u128, 128>>(); // +send SimHash (128 bit)
}
