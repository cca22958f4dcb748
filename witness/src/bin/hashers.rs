use gaoya::minhash::*;
use witness::*;
not_impl!(MinHasher8<BuildNotSync>: Sync); // -sync MinHasher8 with a build hasher that is not Sync
not_impl!(MinHasher8<BuildNotSend>: Send); // -send MinHasher8 with a build hasher that is not Send
not_impl!(MinHasher16<BuildNotSync>: Sync); // -sync MinHasher16 with a build hasher that is not Sync
not_impl!(MinHasher16<BuildNotSend>: Send); // -send MinHasher16 with a build hasher that is not Send
not_impl!(MinHasher32<BuildNotSync>: Sync); // -sync MinHasher32 with a build hasher that is not Sync
not_impl!(MinHasher32<BuildNotSend>: Send); // -send MinHasher32 with a build hasher that is not Send
not_impl!(MinHasher64V1<BuildNotSync>: Sync); // -sync MinHasher64V1 with a build hasher that is not Sync
not_impl!(MinHasher64V1<BuildNotSend>: Send); // -send MinHasher64V1 with a build hasher that is not Send
type B = SipHasher24BuildHasher;
fn main() {
    is_sync::<MinHasher8<B>>(); // +sync MinHasher8
    is_send::<MinHasher8<B>>(); // +send MinHasher8
    is_sync::<MinHasher16<B>>(); // +sync MinHasher16
    is_send::<MinHasher16<B>>(); // +send MinHasher16
    is_sync::<MinHasher32<B>>(); // +sync MinHasher32
    is_send::<MinHasher32<B>>(); // +send MinHasher32
    is_sync::<MinHasher64V1<B>>(); // +sync MinHasher64V1
    is_send::<MinHasher64V1<B>>(); // +send MinHasher64V1
}
