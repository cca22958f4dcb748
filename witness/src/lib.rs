//! Types whose thread-safety is known, and the two assertions used by the witnesses.
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;

/// Send, not Sync
#[derive(Clone, PartialEq, Eq)]
pub struct NotSync(pub Cell<u8>);
impl Hash for NotSync {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.get().hash(h)
    }
}
/// neither Send nor Sync
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct NotSend(pub Rc<u8>);

#[derive(Clone)]
pub struct BuildNotSync(pub Cell<u8>);
impl BuildHasher for BuildNotSync {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
#[derive(Clone)]
pub struct BuildNotSend(pub Rc<u8>);
impl BuildHasher for BuildNotSend {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}

pub fn is_send<T: Send + ?Sized>() {}
pub fn is_sync<T: Sync + ?Sized>() {}

#[macro_export]
macro_rules! not_impl {
    ($x:ty: $t:path) => {
        const _: fn() = || {
            trait Ambiguous<X> {
                fn item() {}
            }
            struct Invalid;
            impl<T: ?Sized> Ambiguous<()> for T {}
            impl<T: ?Sized + $t> Ambiguous<Invalid> for T {}
            let _ = <$x as Ambiguous<_>>::item;
        };
    };
}
