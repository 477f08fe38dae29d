//! Stand-in for `rustc-hash`. Bytes of strings do not enter the hash (a legal, if poor, hash function), so that hash
//! tables keyed by symbolic text stay within reach of the symbolic executor.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;
#[derive(Default, Clone, Copy)]
pub struct FxHasher(u64);
impl FxHasher { fn add(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95) } }
impl Hasher for FxHasher {
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, v: u8) { self.add(v as u64) }
    fn write_u16(&mut self, v: u16) { self.add(v as u64) }
    fn write_u32(&mut self, v: u32) { self.add(v as u64) }
    fn write_u64(&mut self, v: u64) { self.add(v) }
    fn write_usize(&mut self, v: usize) { self.add(v as u64) }
    fn finish(&self) -> u64 { self.0.rotate_left(20) }
}
