//! Uniform view of the public tree types.
use crate::val::{CVal, Payload, Val};
use masstree::{LeafValue, LeafValueIndex, MassTree, MassTree24Inline, MassTreeIndex, ValueSlot};
use seize::LocalGuard;
use std::sync::Arc;

pub trait Tree: Send + Sync + 'static {
    type P: Payload;
    type Out: Clone + Send + 'static;
    type Slot: ValueSlot;
    const NAME: &'static str;
    const ARC: bool;
    fn new() -> Self;
    fn default_() -> Self;
    fn guard(&self) -> LocalGuard<'_>;
    fn insert(&self, k: &[u8], id: u64) -> Option<Self::Out>;
    fn insert_g(&self, k: &[u8], id: u64, g: &LocalGuard<'_>) -> Option<Self::Out>;
    fn get(&self, k: &[u8]) -> Option<Self::Out>;
    fn get_g(&self, k: &[u8], g: &LocalGuard<'_>) -> Option<Self::Out>;
    fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Self::P>;
    fn out_id(o: &Self::Out) -> u64;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn root(&self) -> *const u8;
    /// What the map's allocator has to say while nobody changes the map.
    fn settled(&self, _: &crate::walk::Shape) -> kit::CaseResult {
        Ok(())
    }
    /// Drops the map after `stored` inserts, with what its allocator has to say.
    fn ended(self, _stored: u64) -> kit::CaseResult
    where
        Self: Sized,
    {
        Ok(())
    }
}

macro_rules! imp {
    ($t:ty, $p:ty, $out:ty, $slot:ty, $name:literal, $arc:literal) => {
        impl Tree for $t {
            type P = $p;
            type Out = $out;
            type Slot = $slot;
            const NAME: &'static str = $name;
            const ARC: bool = $arc;
            fn new() -> Self {
                <$t>::new()
            }
            fn default_() -> Self {
                <$t as Default>::default()
            }
            fn guard(&self) -> LocalGuard<'_> {
                self.guard()
            }
            fn insert(&self, k: &[u8], id: u64) -> Option<$out> {
                match self.insert(k, <$p>::mk(id)) {
                    Ok(o) => o,
                    Err(e) => panic!("insert returned an error: {e:?}"),
                }
            }
            fn insert_g(&self, k: &[u8], id: u64, g: &LocalGuard<'_>) -> Option<$out> {
                match self.insert_with_guard(k, <$p>::mk(id), g) {
                    Ok(o) => o,
                    Err(e) => panic!("insert returned an error: {e:?}"),
                }
            }
            fn get(&self, k: &[u8]) -> Option<$out> {
                self.get(k)
            }
            fn get_g(&self, k: &[u8], g: &LocalGuard<'_>) -> Option<$out> {
                self.get_with_guard(k, g)
            }
            fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g $p> {
                self.get_ref(k, g)
            }
            fn out_id(o: &$out) -> u64 {
                Wrap::payload_id(o)
            }
            fn len(&self) -> usize {
                self.len()
            }
            fn is_empty(&self) -> bool {
                self.is_empty()
            }
            fn root(&self) -> *const u8 {
                self.verif_root()
            }
        }
    };
}

/// The payload behind an output handle.
trait Wrap {
    fn payload_id(&self) -> u64;
}
impl Wrap for Arc<Val> {
    fn payload_id(&self) -> u64 {
        (**self).id()
    }
}
impl Wrap for CVal {
    fn payload_id(&self) -> u64 {
        self.id()
    }
}

imp!(MassTree<Val>, Val, Arc<Val>, LeafValue<Val>, "MassTree", true);
imp!(MassTree24Inline<CVal>, CVal, CVal, LeafValueIndex<CVal>, "MassTree24Inline", false);

pub type Index = MassTreeIndex<CVal>;
