use gaoya::minhash::*;
use std::hash::BuildHasher;
use std::collections::HashSet;
use witness::*;
pub struct Own;
macro_rules! own {
    ($t:ty) => {
        impl IdContainer<$t> for Own {
            fn new() -> Self { Own }
            fn push(&mut self, _: $t) {}
            fn len(&self) -> usize { 0 }
            fn copy_to<S: BuildHasher>(&self, _: &mut HashSet<$t, S>) {}
            fn copy_refs_to<'a, S: BuildHasher>(&'a self, _: &mut HashSet<&'a $t, S>) {}
            fn remove(&mut self, _: &$t) {}
        }
    };
}
own!(NotSync);
own!(NotSend);
not_impl!(MinHashIndex<u64, NotSync, Own>: Sync); // -sync MinHashIndex with ids that are not Sync
not_impl!(MinHashIndex<u64, NotSend, Own>: Sync); // -sync MinHashIndex with ids that are not Send
not_impl!(MinHashIndex<u64, NotSend, Own>: Send); // -send MinHashIndex with ids that are not Send
not_impl!(HashSetContainer<NotSync>: Sync); // -sync HashSetContainer of ids that are not Sync
not_impl!(HashSetContainer<NotSend>: Send); // -send HashSetContainer of ids that are not Send
not_impl!(VecContainer<NotSync>: Sync); // -sync VecContainer of ids that are not Sync
not_impl!(VecContainer<NotSend>: Send); // -send VecContainer of ids that are not Send
not_impl!(SmallVecContainer<NotSync, 2>: Sync); // -sync SmallVecContainer of ids that are not Sync
not_impl!(SmallVecContainer<NotSend, 2>: Send); // -send SmallVecContainer of ids that are not Send
fn main() {}
