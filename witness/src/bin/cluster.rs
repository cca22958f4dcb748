use gaoya::clustering::{clusterer_parallel as p, clustering_serial as s};
use witness::*;
not_impl!(s::ClusterPoint<u64>: Sync); // -sync the point of the serial clusterer (Rc and Cell)
not_impl!(s::ClusterPoint<u64>: Send); // -send the point of the serial clusterer (Rc and Cell)
not_impl!(s::ClusterPointInner<u64>: Sync); // -sync the inner point of the serial clusterer (Cell)
not_impl!(s::Cluster<u64>: Send); // -send the cluster of the serial clusterer (Rc)
not_impl!(s::Cluster<u64>: Sync); // -sync the cluster of the serial clusterer (Rc)
not_impl!(p::ClusterPointInner<NotSync>: Sync); // -sync the inner point of the parallel clusterer with ids that are not Sync
not_impl!(p::ClusterPointInner<NotSend>: Send); // -send the inner point of the parallel clusterer with ids that are not Send
not_impl!(p::ClusterPoint<NotSync>: Sync); // -sync the point of the parallel clusterer with ids that are not Sync
not_impl!(p::ClusterPoint<NotSync>: Send); // -send the point of the parallel clusterer with ids that are not Sync
not_impl!(p::ClusterPoint<NotSend>: Send); // -send the point of the parallel clusterer with ids that are not Send
not_impl!(p::Cluster<NotSync>: Sync); // -sync the cluster of the parallel clusterer with ids that are not Sync
not_impl!(p::Cluster<NotSend>: Send); // -send the cluster of the parallel clusterer with ids that are not Send
fn main() {
    is_sync::<p::ClusterPoint<u64>>(); // +sync the point of the parallel clusterer
    is_send::<p::ClusterPoint<u64>>(); // +send the point of the parallel clusterer
    is_sync::<p::Cluster<String>>(); // +sync the cluster of the parallel clusterer
    is_send::<p::Cluster<String>>(); // +send the cluster of the parallel clusterer
}
