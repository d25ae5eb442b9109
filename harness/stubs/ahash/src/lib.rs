//! Constant-hash stand-in for ahash (the parts hashbrown and symbol_table use).
use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone, Debug)]
pub struct AHasher {}
impl Hasher for AHasher {
    #[inline] fn write(&mut self, _: &[u8]) {}
    #[inline] fn write_u8(&mut self, _: u8) {}
    #[inline] fn write_u16(&mut self, _: u16) {}
    #[inline] fn write_u32(&mut self, _: u32) {}
    #[inline] fn write_u64(&mut self, _: u64) {}
    #[inline] fn write_u128(&mut self, _: u128) {}
    #[inline] fn write_usize(&mut self, _: usize) {}
    #[inline] fn finish(&self) -> u64 { 0 }
}
#[derive(Default, Clone, Debug)]
pub struct RandomState {}
impl RandomState {
    pub fn new() -> Self { RandomState {} }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self { RandomState {} }
}
impl BuildHasher for RandomState { type Hasher = AHasher; #[inline] fn build_hasher(&self) -> AHasher { AHasher {} } }
