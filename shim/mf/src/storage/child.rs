//! child-trie storage over raw byte keys (closed world; a BTreeMap natively, an association list here)
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ChildInfo(pub crate::vecs::Vec<u8>);
impl ChildInfo { pub fn new_default(k: &[u8]) -> Self { ChildInfo(crate::vecs::Vec::from(k)) } pub fn storage_key(&self) -> &[u8] { &self.0 } }
#[cfg(not(kani))] mod imp {
use super::ChildInfo;
pub struct Ent { pub child: crate::vecs::Vec<u8>, pub key: crate::vecs::Vec<u8>, pub val: crate::vecs::Vec<u8> }
pub static mut TRIE: crate::vecs::Dyn<Ent> = crate::vecs::Dyn::new();
pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<crate::vecs::Vec<u8>> { unsafe { TRIE.iter().find(|e| e.child == c.0 && e.key == k).map(|e| e.val.clone()) } }
pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) { unsafe { kill(c, k); TRIE.push(Ent { child: c.0.clone(), key: crate::vecs::Vec::from(k), val: crate::vecs::Vec::from(v) }) } }
pub fn kill(c: &ChildInfo, k: &[u8]) { unsafe { TRIE.retain(|e| !(e.child == c.0 && e.key == k)) } }
pub fn reset() { unsafe { TRIE.clear() } }
pub fn entries(c: &ChildInfo) -> crate::vecs::Vec<(crate::vecs::Vec<u8>, crate::vecs::Vec<u8>)> { unsafe { let mut v: crate::vecs::Vec<(crate::vecs::Vec<u8>, crate::vecs::Vec<u8>)> = TRIE.iter().filter(|e| e.child == c.0).map(|e| (e.key.clone(), e.val.clone())).collect(); v.sort(); v } }
}

/// symbolically: up to three entries, looked at one by one; keys of up to 16 bytes, packed
#[cfg(kani)] mod imp {
    use super::ChildInfo;
    type V = crate::vecs::Vec<u8>;
    type K = (u64, u64, usize);
    const CAP: usize = 3;
    static mut USED: usize = 0;
    static mut KEYS: [(K, K); CAP] = [((0, 0, 0), (0, 0, 0)); CAP];
    static mut VALS: [Option<V>; CAP] = [const { None }; CAP];
    fn pack(b: &[u8]) -> K {
        if b.len() > 16 { crate::nd::limit("lookup") }
        let word = |at: usize| { let mut w = 0u64; let mut i = 0; while i < 8 { if at + i < b.len() { w |= (b[at + i] as u64) << (8 * i); } i += 1; } w };
        (word(0), if b.len() > 8 { word(8) } else { 0 }, b.len())
    }
    fn bytes(k: &K) -> V { let mut v = V::new(); let mut i = 0; while i < 8 { if i < k.2 { v.push((k.0 >> (8 * i)) as u8); } i += 1; } let mut i = 0; while i < 8 { if i + 8 < k.2 { v.push((k.1 >> (8 * i)) as u8); } i += 1; } v }
    fn slot(c: &ChildInfo, k: &[u8]) -> usize { unsafe { let key = (pack(&c.0), pack(k)); let mut i = 0; while i < CAP { if i >= USED { KEYS[i] = key; USED = i + 1; return i; } if KEYS[i] == key { return i; } i += 1; } crate::nd::limit("lookup") } }
    pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<V> { let i = slot(c, k); unsafe { VALS[i].clone() } }
    pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) { let i = slot(c, k); unsafe { VALS[i] = Some(V::from(v)) } }
    pub fn kill(c: &ChildInfo, k: &[u8]) { let i = slot(c, k); unsafe { VALS[i] = None } }
    pub fn reset() { unsafe { USED = 0; VALS = [const { None }; CAP] } }
    pub fn entries(c: &ChildInfo) -> crate::vecs::Vec<(V, V)> { unsafe { let mut o = crate::vecs::Vec::new(); let mut i = 0; while i < CAP { if i < USED && KEYS[i].0 == pack(&c.0) { if let Some(v) = &VALS[i] { o.push((bytes(&KEYS[i].1), v.clone())) } } i += 1; } o } }
}
pub use imp::*;
pub fn exists(c: &ChildInfo, k: &[u8]) -> bool { get_raw(c, k).is_some() }
pub fn get<T: crate::codec::Decode>(c: &ChildInfo, k: &[u8]) -> Option<T> { get_raw(c, k).and_then(|v| T::decode(&mut &v[..]).ok()) }
pub fn put<T: crate::codec::Encode>(c: &ChildInfo, k: &[u8], v: &T) { put_raw(c, k, &v.encode()) }
