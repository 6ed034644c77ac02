// Hash maps with a cheap hash.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_i128(&mut self, x: i128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_i128(x as i128)
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
