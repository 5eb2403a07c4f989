//! crates handles-utils depends on, by contract
use crate::nd::{any, assume};
pub mod oorandom {
    //! random numbers: an arbitrary function of the seed and of what was drawn before, in the range asked for
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Rand32 { seed: u64, n: usize }
    const M: usize = 6;
    static mut MEMO: [(u64, usize, u32, u32, u32); M] = [(0, 0, 0, 0, 0); M];
    static mut LEN: usize = 0;
    pub fn reset() { unsafe { LEN = 0 } }
    impl Rand32 {
        pub fn new(seed: u64) -> Self { Rand32 { seed, n: 0 } }
        pub fn rand_range(&mut self, r: core::ops::Range<u32>) -> u32 {
            assert!(r.start < r.end);
            let n = self.n; self.n += 1;
            unsafe {
                let mut i = 0;
                while i < M { if i < LEN { let (s, k, a, b, v) = MEMO[i]; if s == self.seed && k == n && a == r.start && b == r.end { return v; } } i += 1; }
                let v: u32 = any(); assume(v >= r.start && v < r.end);
                if LEN >= M { crate::nd::limit("random numbers (oracle)") }
                MEMO[LEN] = (self.seed, n, r.start, r.end, v); LEN += 1;
                v
            }
        }
    }
}
pub mod unicode_normalization {
    //! canonical decomposition: each character on its own, into an arbitrary character
    pub trait UnicodeNormalization<I: Iterator<Item = char>> { fn nfkd(self) -> Nfkd<I>; }
    impl<'a> UnicodeNormalization<core::str::Chars<'a>> for &'a str { fn nfkd(self) -> Nfkd<core::str::Chars<'a>> { Nfkd(self.chars()) } }
    pub struct Nfkd<I>(I);
    impl<I: Iterator<Item = char>> Iterator for Nfkd<I> { type Item = char; fn next(&mut self) -> Option<char> { match self.0.next() { Some(c) => Some(super::Decomposed::ask(c)), None => None } } }
    pub mod char { pub fn is_combining_mark(c: core::primitive::char) -> bool { super::super::Combining::ask(c) } }
}
pub mod confusables {
    pub struct Map;
    impl Map { pub fn get(&self, c: &char) -> Option<&'static char> { super::Confusable::get(*c) } }
    pub static CONFUSABLES: Map = Map;
}
pub fn nd_char() -> char { let x: u32 = any(); let c = char::from_u32(x); assume(c.is_some()); c.unwrap_or(' ') }
pub fn nd_bool() -> bool { any() }
const Q: usize = 6;
macro_rules! function { ($n:ident, $v:ty, $d:expr, $z:expr) => {
    /// an arbitrary function of a character
    pub struct $n;
    impl $n {
        fn cell() -> *mut [Option<(char, $v)>; Q] { static mut C: [Option<(char, $v)>; Q] = [None; Q]; core::ptr::addr_of_mut!(C) }
        pub fn reset() { unsafe { *Self::cell() = [None; Q] } }
        fn slot(c: char) -> &'static $v {
            let m = Self::cell();
            let mut i = 0;
            while i < Q {
                unsafe { if (*m)[i].is_none() { (*m)[i] = Some((c, $d)); } }
                if let Some((k, v)) = unsafe { &(*m)[i] } { if *k == c { return v; } }
                i += 1;
            }
            crate::nd::limit("characters (oracle)")
        }
        pub fn ask(c: char) -> $v { *Self::slot(c) }
    }
} }
function!(Decomposed, char, nd_char(), ' ');
function!(Combining, bool, nd_bool(), false);
function!(Confusable, Option<char>, if nd_bool() { Some(nd_char()) } else { None }, None);
impl Confusable { pub fn get(c: char) -> Option<&'static char> { Self::slot(c).as_ref() } }
pub fn reset() { oorandom::reset(); Decomposed::reset(); Combining::reset(); Confusable::reset(); crate::twox_hash::reset(); }
