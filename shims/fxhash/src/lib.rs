//! Stand-in for the `fxhash` crate: the same hash function.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::ops::BitXor;

pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;

#[derive(Debug, Clone, Copy, Default)]
pub struct FxHasher(u64);
impl FxHasher {
    fn word(&mut self, w: u64) {
        self.0 = self.0.rotate_left(5).bitxor(w).wrapping_mul(0x517cc1b727220a95);
    }
}
impl Hasher for FxHasher {
    fn write(&mut self, mut b: &[u8]) {
        while b.len() >= 8 {
            self.word(u64::from_le_bytes(b[..8].try_into().unwrap()));
            b = &b[8..];
        }
        if b.len() >= 4 {
            self.word(u32::from_le_bytes(b[..4].try_into().unwrap()) as u64);
            b = &b[4..];
        }
        for x in b {
            self.word(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.word(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.word(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.word(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.word(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.word(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
