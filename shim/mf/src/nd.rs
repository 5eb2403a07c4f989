//! Nondeterministic values.  Under Kani every primitive is `kani::any()`; natively the same calls
//! pop the bytes of a tape (a Kani concrete-playback trace, or a pseudo-random stream), so the
//! same harness runs on the natively compiled pallet.
/// `dup` is a structural copy that needs no `Clone` bound (storage values need not be `Clone` in FRAME)
pub trait Nd: Sized { fn nd() -> Self; fn dup(&self) -> Self; }

use crate::vecs::Vec;
#[cfg(kani)]
mod imp {
    #[inline] pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
    #[inline] pub fn assume(b: bool) { kani::assume(b) }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub struct Tape { pub vals: Vec<Vec<u8>>, pub pos: usize, pub rng: u64, pub exhausted: bool }
    thread_local! { pub static TAPE: RefCell<Tape> = const { RefCell::new(Tape { vals: Vec::new(), pos: 0, rng: 0, exhausted: false }) }; }
    pub struct Rejected;
    pub fn set_tape(vals: Vec<Vec<u8>>) { TAPE.with(|t| *t.borrow_mut() = Tape { vals, pos: 0, rng: 0, exhausted: false }) }
    pub fn set_seed(s: u64) { TAPE.with(|t| *t.borrow_mut() = Tape { vals: std::vec::Vec::new(), pos: 0, rng: s | 1, exhausted: false }) }
    fn next(t: &mut Tape) -> u64 { let mut x = t.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; t.rng = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    /// native source: tape first, then the PRNG (biased towards small and boundary values)
    pub fn bytes(n: usize) -> Vec<u8> {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            if t.pos < t.vals.len() {
                let p = t.pos; t.pos += 1;
                let mut v = t.vals[p].clone(); v.resize(n, 0); return v;
            }
            t.exhausted = true;
            if t.rng == 0 { return vec![0; n]; }
            let r = next(&mut t);
            let mut v = vec![0u8; n];
            match r % 8 {
                0 | 1 | 2 | 3 => { v[0] = ((r >> 8) % 5) as u8; }
                4 => { v[0] = (r >> 8) as u8; }
                5 => { for b in v.iter_mut() { *b = 0xff; } if (r >> 8) & 1 == 0 { v[0] = 0xff - ((r >> 16) % 4) as u8; } }
                _ => { let k = 1 + ((r >> 8) as usize % n); for i in 0..k { v[i] = next(&mut t) as u8; } }
            }
            v
        })
    }
    pub fn in_tape() -> bool { TAPE.with(|t| { let t = t.borrow(); t.pos <= t.vals.len() && !t.vals.is_empty() }) }
    pub trait Any { fn any() -> Self; }
    macro_rules! p { ($($t:ty),*) => { $(impl Any for $t { fn any() -> Self { let b = bytes(core::mem::size_of::<$t>()); <$t>::from_le_bytes(b.try_into().unwrap()) } })* } }
    p!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
    impl Any for bool { fn any() -> bool { bytes(1)[0] & 1 == 1 } }
    #[inline] pub fn any<T: Any>() -> T { T::any() }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Rejected) } }
}
pub use imp::*;

/// a modelling limit of the shim was hit: neither a proof nor a violation
pub fn limit(what: &'static str) -> ! {
    #[cfg(kani)] {
        match what.as_bytes()[what.len() - 2] {
            b'k' => kani::assert(false, "MF-LIMIT: tokens"), b'd' => kani::assert(false, "MF-LIMIT: words"), b't' => kani::assert(false, "MF-LIMIT: vector length / events"),
            b'z' => kani::assert(false, "MF-LIMIT: lazy"), b'l' => kani::assert(false, "MF-LIMIT: oracle"), b'o' => kani::assert(false, "MF-LIMIT: verify log"), b'u' => kani::assert(false, "MF-LIMIT: storage lookup"),
            b'e' => kani::assert(false, "MF-LIMIT: storage entries / prefixes / item"), b'n' => kani::assert(false, "MF-LIMIT: tokens"),
            _ => kani::assert(false, "MF-LIMIT: shim capacity exceeded"),
        }
        kani::assume(false);
    }
    panic!("MF-LIMIT: {}", what)
}

macro_rules! prim { ($($t:ty),*) => { $(impl Nd for $t { #[inline] fn nd() -> Self { any() } #[inline] fn dup(&self) -> Self { *self } })* } }
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, bool);
impl Nd for () { fn nd() {} fn dup(&self) {} }
impl<T: Nd> Nd for Option<T> { fn nd() -> Self { if any::<bool>() { Some(T::nd()) } else { None } } fn dup(&self) -> Self { match self { Some(x) => Some(x.dup()), None => None } } }
impl<T: Nd> Nd for Box<T> { fn nd() -> Self { Box::new(T::nd()) } fn dup(&self) -> Self { Box::new((**self).dup()) } }
impl<T> Nd for core::marker::PhantomData<T> { fn nd() -> Self { core::marker::PhantomData } fn dup(&self) -> Self { core::marker::PhantomData } }
impl<T: Nd, const N: usize> Nd for [T; N] { fn nd() -> Self { core::array::from_fn(|_| T::nd()) } fn dup(&self) -> Self { core::array::from_fn(|i| self[i].dup()) } }
macro_rules! tup { ($(($($n:ident),*)),*) => { $(impl<$($n: Nd),*> Nd for ($($n,)*) { fn nd() -> Self { ($($n::nd(),)*) } #[allow(non_snake_case)] fn dup(&self) -> Self { let ($($n,)*) = self; ($($n.dup(),)*) } })* } }
tup!((A), (A, B), (A, B, C), (A, B, C, D), (A, B, C, D, E));

/// bound on the length of nondeterministic vectors (set per harness)
pub static mut ND_LEN: usize = 4;
pub fn set_len(n: usize) { unsafe { ND_LEN = n } }
#[cfg(any(kani, mf_av))]
pub fn nd_vec_max<T: Nd>(max: usize) -> Vec<T> { Vec::nd_max(max) }
/// (draws in the same order as the inline vector, so that tapes replay)
#[cfg(not(any(kani, mf_av)))]
pub fn nd_vec_max<T: Nd>(max: usize) -> Vec<T> {
    let max = unsafe { if max < ND_LEN { max } else { ND_LEN } };
    let mut v = Vec::with_capacity(max);
    let mut i = 0;
    while i < max { v.push(T::nd()); i += 1; }
    let n: u8 = any();
    #[cfg(not(kani))] let n = if in_tape() { n } else { (n as usize % (max + 1)) as u8 };
    assume(n as usize <= max);
    v.truncate(n as usize);
    v
}
/// structural copy; symbolically a plain bit copy for types without heap data
#[inline(always)]
pub fn copy<T: Nd>(t: &T) -> T {
    t.dup()
}
#[cfg(not(any(kani, mf_av)))]
impl<T: Nd> Nd for Vec<T> { fn nd() -> Self { nd_vec_max(usize::MAX) } fn dup(&self) -> Self { dup_vec(self) } }
pub fn dup_vec<T: Nd>(v: &[T]) -> Vec<T> { let mut o = Vec::with_capacity(v.len()); let mut i = 0; while i < v.len() { o.push(v[i].dup()); i += 1; } o }
pub fn below_u8(n: u8) -> u8 { let x: u8 = any(); #[cfg(kani)] { assume(x < n); x } #[cfg(not(kani))] { x % n } }

/// field values: through `Nd` when implemented, else by decoding an arbitrary byte stream
pub struct W<T>(pub core::marker::PhantomData<T>);
pub trait ViaNd { type T; fn make(&self) -> Self::T; fn copy(&self, t: &Self::T) -> Self::T; }
pub trait ViaDecode { type T; fn make(&self) -> Self::T; fn copy(&self, t: &Self::T) -> Self::T; }
impl<T: Nd> ViaNd for &W<T> { type T = T; fn make(&self) -> T { T::nd() } fn copy(&self, t: &T) -> T { t.dup() } }
impl<T: crate::codec::Decode + Clone> ViaDecode for W<T> { type T = T; fn make(&self) -> T { from_decode() } fn copy(&self, t: &T) -> T { t.clone() } }
pub struct NdInput;
impl crate::codec::Input for NdInput {
    fn remaining_len(&mut self) -> Result<Option<usize>, crate::codec::Error> { Ok(None) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), crate::codec::Error> { let mut i = 0; while i < into.len() { into[i] = any(); i += 1; } Ok(()) }
}
pub fn from_decode<T: crate::codec::Decode>() -> T { match T::decode(&mut NdInput) { Ok(x) => x, Err(_) => { assume(false); loop {} } } }
