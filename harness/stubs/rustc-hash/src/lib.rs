//! Constant-hash stand-in for rustc-hash (same public API).
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
pub type FxHashMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxHashSet<V> = HashSet<V, BuildHasherDefault<FxHasher>>;
#[derive(Default, Clone, Copy)]
pub struct FxHasher {}
impl Hasher for FxHasher {
    #[inline] fn write(&mut self, _: &[u8]) {}
    #[inline] fn write_u8(&mut self, _: u8) {}
    #[inline] fn write_u16(&mut self, _: u16) {}
    #[inline] fn write_u32(&mut self, _: u32) {}
    #[inline] fn write_u64(&mut self, _: u64) {}
    #[inline] fn write_u128(&mut self, _: u128) {}
    #[inline] fn write_usize(&mut self, _: usize) {}
    #[inline] fn finish(&self) -> u64 { 0 }
}
