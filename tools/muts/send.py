M='gaoya/src/minhash/minhash_index.rs'
S='gaoya/src/simhash/sim_hash_index.rs'
CP='gaoya/src/clustering/clusterer_parallel.rs'
CS='gaoya/src/clustering/clustering_serial.rs'
IC='gaoya/src/minhash/id_container.rs'
END="        band.query(query_signature, &mut match_ids);"
SN=(S,"pub struct SimHashIndex<S, Id>","unsafe impl<S: SimHashBits, Id: Hash + Eq + Clone> Sync for SimHashIndex<S, Id> {}\n\npub struct SimHashIndex<S, Id>")
Q="    pub fn query(&self, query_signature: &S) -> AHashSet<&Id> {\n"
FIELD=(S,"    num_blocks: usize,\n    hamming_distance: usize,","    hits: std::sync::atomic::AtomicUsize,\n    num_blocks: usize,\n    hamming_distance: usize,")
MUTS=[
 ('snd-b1','bug:C18',[SN]),
 ('snd-b2','bug:C18',[(CS,"impl<Id> Hash for ClusterPointInner<Id>","unsafe impl<Id> Sync for ClusterPointInner<Id> {}\nimpl<Id> Hash for ClusterPointInner<Id>")]),
 ('snd-b3','bug:C18',[(CP,"impl<Id> ClusterPointInner<Id>\nwhere\n    Id: Clone,","unsafe impl<Id> Send for ClusterPointInner<Id> {}\nunsafe impl<Id> Sync for ClusterPointInner<Id> {}\nimpl<Id> ClusterPointInner<Id>\nwhere\n    Id: Clone,")]),
 ('snd-b4','bug:C18',[(M,"impl<T, Id, C> fmt::Display for MinHashIndex<T, Id, C>","unsafe impl<T: MinHashType, Id: Hash + Eq + Clone, C: IdContainer<Id>> Send for MinHashIndex<T, Id, C> {}\nimpl<T, Id, C> fmt::Display for MinHashIndex<T, Id, C>")]),
 ('snd-b5','bug:C18',[(IC,"pub struct VecContainer<T> {","unsafe impl<T> Sync for VecContainer<T> {}\npub struct VecContainer<T> {")]),
 ('snd-b6','bug:C18',[(S,Q,"    pub fn query(&mut self, query_signature: &S) -> AHashSet<&Id> {\n")]) if False else ('snd-b6','bug:C18',[(M,"    pub fn query_top_k(&self","    pub fn query_top_k(&mut self")]),
 ('snd-b8','bug:C18',[(CS,"pub type ClusterPoint<Id> = Rc<ClusterPointInner<Id>>;","pub type ClusterPoint<Id> = std::sync::Arc<ClusterPointInner<Id>>;"),(CS,"use std::rc::Rc;","use std::sync::Arc as Rc;"),(CS,"impl<Id> Hash for ClusterPointInner<Id>","unsafe impl<Id> Send for ClusterPointInner<Id> {}\nunsafe impl<Id> Sync for ClusterPointInner<Id> {}\nimpl<Id> Hash for ClusterPointInner<Id>")]),
 ('snd-g1','benign',[(IC,"pub struct VecContainer<T> {","unsafe impl<T: Sync> Sync for VecContainer<T> {}\nunsafe impl<T: Send> Send for VecContainer<T> {}\npub struct VecContainer<T> {")]),
 ('snd-g2','benign',[(S,Q,Q+"        let tables = &self.hash_tables;\n        debug_assert!(self.hamming_distance < self.num_blocks);\n")]),
 ('snd-g3','benign',[(S,"pub struct SimHashIndex<S, Id>","#[derive(Clone, Copy, Debug)]\npub struct Unused(pub u8);\n\npub struct SimHashIndex<S, Id>")]),
]
