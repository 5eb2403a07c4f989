//! `alloc` as the pallets use it
pub use crate::sp_std::vec;
pub use std::{borrow, boxed, format, rc, sync};
#[cfg(not(any(kani, mf_av)))]
pub mod string { pub use std::string::*; }
#[cfg(any(kani, mf_av))]
pub mod string {
    //! A string over an inline vector.  ASCII text is handled exactly; whether a non-ASCII byte
    //! string is valid UTF-8 is left arbitrary.
    use crate::av::{AV, N};
    use std::str;
    pub trait ToString { fn to_string(&self) -> String; }
    impl ToString for str { fn to_string(&self) -> String { String::from(self) } }
    #[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
    pub struct String(AV<u8>);
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct FromUtf8Error;
    fn ascii(v: &[u8]) -> bool { let mut r = true; let mut i = 0; while i < v.len() { if v[i] >= 128 { r = false; } i += 1; } r }
    fn space(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
    impl String {
        pub fn new() -> Self { String(AV::new()) }
        pub fn raw(v: AV<u8>) -> Self { String(v) }
        pub fn from_utf8(v: AV<u8>) -> Result<Self, FromUtf8Error> { if ascii(&v) || crate::nd::any::<bool>() { Ok(String(v)) } else { Err(FromUtf8Error) } }
        pub fn from_utf8_lossy(v: &[u8]) -> Self { String(AV::from(v)) }
        pub fn into_bytes(self) -> AV<u8> { self.0 }
        pub fn as_bytes(&self) -> &[u8] { &self.0 }
        pub fn as_str(&self) -> &str { unsafe { str::from_utf8_unchecked(&self.0) } }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.len() == 0 }
        pub fn is_ascii(&self) -> bool { ascii(&self.0) }
        pub fn push_str(&mut self, s: &str) { self.0.extend_from_slice(s.as_bytes()) }
        pub fn push(&mut self, c: char) { let mut b = [0u8; 4]; let s = c.encode_utf8(&mut b); self.0.extend_from_slice(s.as_bytes()) }
        pub fn to_lowercase(&self) -> Self { let mut v = self.0.clone(); let mut i = 0; while i < N { if i < v.len() { let b = v[i]; if b >= b'A' && b <= b'Z' { v[i] = b + 32; } } i += 1; } String(v) }
        pub fn trim(&self) -> &str {
            let n = self.0.len();
            let (mut a, mut e) = (n, 0);
            let mut i = 0;
            while i < N { if i < n && !space(self.0[i]) { if a == n { a = i; } e = i + 1; } i += 1; }
            if e <= a { "" } else { unsafe { str::from_utf8_unchecked(&self.0[a..e]) } }
        }
        pub fn chars(&self) -> Chars<'_> { Chars { s: &self.0, i: 0 } }
        pub fn split(&self, c: char) -> Split<'_> { Split { s: &self.0, c: c as u8, at: 0, done: false } }
    }
    pub struct Chars<'a> { s: &'a [u8], i: usize }
    impl<'a> Iterator for Chars<'a> { type Item = char; fn next(&mut self) -> Option<char> { if self.i >= self.s.len() { return None; } let b = self.s[self.i]; self.i += 1; Some(if b < 128 { b as char } else { '\u{80}' }) } }
    pub struct Split<'a> { s: &'a [u8], c: u8, at: usize, done: bool }
    impl<'a> Iterator for Split<'a> {
        type Item = &'a str;
        fn next(&mut self) -> Option<&'a str> {
            if self.done { return None; }
            let s = self.at; let n = self.s.len();
            let mut e = n; let mut i = N;
            while i > 0 { i -= 1; if i >= s && i < n && self.s[i] == self.c { e = i; } }
            if e == n { self.done = true; }
            self.at = e + 1;
            Some(unsafe { str::from_utf8_unchecked(&self.s[s..e]) })
        }
    }
    impl FromIterator<char> for String { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { let mut o = Self::new(); for c in i { o.push(c) } o } }
    impl<'a> FromIterator<&'a char> for String { fn from_iter<I: IntoIterator<Item = &'a char>>(i: I) -> Self { let mut o = Self::new(); for c in i { o.push(*c) } o } }
    impl String { pub fn to_ascii_lowercase(&self) -> Self { self.to_lowercase() } pub fn make_ascii_lowercase(&mut self) { *self = self.to_lowercase() } }
    impl core::ops::Deref for String { type Target = str; fn deref(&self) -> &str { self.as_str() } }
    impl From<&str> for String { fn from(s: &str) -> Self { String(AV::from(s.as_bytes())) } }
    impl AsRef<[u8]> for String { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsRef<str> for String { fn as_ref(&self) -> &str { self.as_str() } }
    impl core::fmt::Display for String { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
}
