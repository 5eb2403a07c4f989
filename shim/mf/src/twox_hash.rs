//! xxHash64: symbolically an arbitrary function of (seed, bytes); natively a mixing hash
use crate::nd::any;
#[derive(Clone, Debug)]
pub struct XxHash64 { seed: u64, buf: crate::vecs::Vec<u8> }
static mut MEMO: crate::vecs::Lazy<(u64, crate::vecs::Vec<u8>, u64)> = crate::vecs::Lazy::new();
pub fn reset() { unsafe { MEMO.clear(); IDEAL = false; } }
/// assume that no two different inputs share the first four bytes of their hash (and none is zero)
pub static mut IDEAL: bool = false;
impl Default for XxHash64 { fn default() -> Self { Self::with_seed(0) } }
impl XxHash64 { pub fn with_seed(seed: u64) -> Self { XxHash64 { seed, buf: crate::vecs::Vec::new() } } }
pub fn hash_of(seed: u64, b: &[u8]) -> u64 {
    if !crate::abs() { let mut h = 0xcbf29ce484222325u64 ^ seed; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 31; } return h; }
    unsafe {
        let v = crate::vecs::Vec::from(b);
        let mut i = 0;
        while i < 6 { if i < MEMO.len() && MEMO[i].0 == seed && MEMO[i].1 == v { return MEMO[i].2; } i += 1; }
        let r: u64 = any();
        if IDEAL { crate::nd::assume(r >> 32 != 0); let mut i = 0; while i < 6 { if i < MEMO.len() { crate::nd::assume(MEMO[i].2 >> 32 != r >> 32); } i += 1; } }
        MEMO.push((seed, v, r));
        r
    }
}
impl core::hash::Hasher for XxHash64 {
    fn finish(&self) -> u64 { hash_of(self.seed, &self.buf) }
    fn write(&mut self, b: &[u8]) { self.buf.extend_from_slice(b) }
}
