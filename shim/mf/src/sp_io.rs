pub mod hashing {
    /// hash functions: an (arbitrary but) functional, collision-free-by-construction stand-in is
    /// not possible at fixed width, so these are FNV-style mixes natively; symbolic harnesses do
    /// not depend on them
    #[allow(dead_code)] fn mix(b: &[u8], seed: u64) -> u64 { let mut h = 0xcbf29ce484222325u64 ^ seed; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; } h }
    /// digest sizes (symbolically digests are short)
    #[cfg(not(any(kani, mf_av)))] pub const L64: usize = 8;
    #[cfg(not(any(kani, mf_av)))] pub const L128: usize = 16;
    #[cfg(any(kani, mf_av))] pub const L64: usize = 1;
    #[cfg(any(kani, mf_av))] pub const L128: usize = 2;
    #[cfg(not(any(kani, mf_av)))]
    pub fn twox_64(b: &[u8]) -> [u8; 8] { mix(b, 0).to_le_bytes() }
    #[cfg(not(any(kani, mf_av)))]
    pub fn twox_128(b: &[u8]) -> [u8; 16] { let mut o = [0; 16]; o[..8].copy_from_slice(&mix(b, 0).to_le_bytes()); o[8..].copy_from_slice(&mix(b, 1).to_le_bytes()); o }
    #[cfg(not(any(kani, mf_av)))]
    pub fn twox_256(b: &[u8]) -> [u8; 32] { blake2_256(b) }
    #[cfg(not(any(kani, mf_av)))]
    pub fn blake2_128(b: &[u8]) -> [u8; 16] { let mut o = [0; 16]; o[..8].copy_from_slice(&mix(b, 2).to_le_bytes()); o[8..].copy_from_slice(&mix(b, 3).to_le_bytes()); o }
    #[cfg(not(any(kani, mf_av)))]
    pub fn blake2_256(b: &[u8]) -> [u8; 32] { let mut o = [0; 32]; let mut i = 0; while i < 4 { o[i * 8..i * 8 + 8].copy_from_slice(&mix(b, 4 + i as u64).to_le_bytes()); i += 1; } o }
    /// symbolically every hash is a collision-free function of at most 24 bytes: inputs are numbered
    #[cfg(any(kani, mf_av))]
    fn ideal(kind: u8, b: &[u8]) -> u8 {
        const M: usize = 10;
        static mut SEEN: [(u64, u64, u64, usize); M] = [(0, 0, 0, 0); M];
        static mut N: usize = 0;
        if b.len() > 24 { crate::nd::limit("tokens") }
        let word = |at: usize| { let mut w = 0u64; let mut i = 0; while i < 8 { if at + i < b.len() { w |= (b[at + i] as u64) << (8 * i); } i += 1; } w };
        let (lo, mid, hi) = (word(0), word(8), if b.len() > 16 { word(16) } else { 0 });
        let n = b.len() | (kind as usize) << 8;
        unsafe {
            let mut i = 0;
            while i < M { if i >= N || (SEEN[i].3 == n && SEEN[i].0 == lo && SEEN[i].1 == mid && SEEN[i].2 == hi) { break; } i += 1; }
            if i == M { crate::nd::limit("tokens") }
            if i == N { SEEN[i] = (lo, mid, hi, n); N += 1; }
            i as u8 + 1
        }
    }
    #[cfg(any(kani, mf_av))] pub fn twox_64(b: &[u8]) -> [u8; 1] { [ideal(0, b)] }
    #[cfg(any(kani, mf_av))] pub fn twox_128(b: &[u8]) -> [u8; 2] { [ideal(1, b), 1] }
    #[cfg(any(kani, mf_av))] pub fn blake2_128(b: &[u8]) -> [u8; 2] { [ideal(2, b), 2] }
    #[cfg(any(kani, mf_av))] pub fn twox_256(b: &[u8]) -> [u8; 32] { let mut o = [0; 32]; o[0] = ideal(3, b); o }
    #[cfg(any(kani, mf_av))] pub fn blake2_256(b: &[u8]) -> [u8; 32] { let mut o = [0; 32]; o[0] = ideal(4, b); o }
    pub fn keccak_256(b: &[u8]) -> [u8; 32] { blake2_256(b) }
    pub fn sha2_256(b: &[u8]) -> [u8; 32] { blake2_256(b) }
}
pub mod offchain_index {
    pub static mut LOG: crate::vecs::Lazy<(crate::vecs::Vec<u8>, Option<crate::vecs::Vec<u8>>)> = crate::vecs::Lazy::new();
    pub fn set(k: &[u8], v: &[u8]) { if cfg!(mf_tok) { return; } unsafe { crate::sp_runtime::offchain::storage::raw_set(k, crate::vecs::Vec::from(v)); LOG.push((crate::vecs::Vec::from(k), Some(crate::vecs::Vec::from(v)))) } }
    pub fn clear(k: &[u8]) { if cfg!(mf_tok) { return; } unsafe { crate::sp_runtime::offchain::storage::raw_clear(k); LOG.push((crate::vecs::Vec::from(k), None)) } }
}
pub mod offchain {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Timestamp(pub u64);
    impl Timestamp { pub fn add(&self, d: crate::sp_core::offchain::Duration) -> Timestamp { Timestamp(self.0 + d.0) } pub fn unix_millis(&self) -> u64 { self.0 } }
    pub fn timestamp() -> Timestamp { Timestamp(0) }
}
pub struct TestExternalities;
