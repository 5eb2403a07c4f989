//! SCALE codec surface.
use crate::vecs::Vec;
pub use mf_macros::{Decode, Encode, MaxEncodedLen};

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Error(pub &'static str);
impl From<&'static str> for Error { fn from(s: &'static str) -> Self { Error(s) } }
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.0) } }
impl From<Error> for &'static str { fn from(e: Error) -> Self { e.0 } }

pub trait Output { fn write(&mut self, b: &[u8]); fn push_byte(&mut self, b: u8) { self.write(&[b]) } }
impl Output for Vec<u8> { fn write(&mut self, b: &[u8]) { self.extend_from_slice(b) } }

/// `encode_to` and `using_encoded`/`encode` have mutually recursive defaults, as upstream: an
/// implementor overrides at least one of them.
pub trait Encode {
    fn size_hint(&self) -> usize { 0 }
    fn encode_to(&self, out: &mut Vec<u8>) { self.using_encoded(|b| out.extend_from_slice(b)) }
    #[cfg(not(mf_tok))]
    fn encode(&self) -> Vec<u8> { let mut v = Vec::with_capacity(ENC_CAP); self.encode_to(&mut v); v }
    /// token mode (a contract of `encode`: it is injective): the value is written as a sequence of
    /// machine words, and equal word sequences get the same token
    #[cfg(mf_tok)]
    fn encode(&self) -> Vec<u8> { tok::encode(self) }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.encode()) }
    fn encoded_size(&self) -> usize { self.encode().len() }
}
const ENC_CAP: usize = 128;
/// token mode: `encode_to` appends words to a scratch sequence, `encode` interns the sequence
#[cfg(mf_tok)]
pub mod tok {
    use crate::vecs::Vec;
    pub const TOK_CAP: usize = crate::av::parse(option_env!("MF_T"), 5);
    /// words per value
    pub const W: usize = crate::av::parse(option_env!("MF_W"), 6);
    static mut S: [u64; W] = [0; W];
    static mut SN: usize = 0;
    static mut SEEN: [[u64; W]; TOK_CAP] = [[0; W]; TOK_CAP];
    static mut LEN: [usize; TOK_CAP] = [0; TOK_CAP];
    static mut N: usize = 0;
    static mut SIZE: usize = 0;
    pub fn word(x: u64, size: usize) { unsafe { if SN >= W { crate::nd::limit("words") } S[SN] = x; SN += 1; SIZE += size; } }
    fn same(a: &[u64; W]) -> bool { let mut d = 0; let mut j = 0; while j < W { unsafe { d |= a[j] ^ S[j]; } j += 1; } d == 0 }
    /// the words a value is written as
    pub fn words<T: super::Encode + ?Sized>(t: &T) -> ([u64; W], usize) { unsafe { SN = 0; S = [0; W]; let mut v = Vec::new(); t.encode_to(&mut v); (S, SN) } }
    /// reads a value back from its words
    pub struct Words { pub w: [u64; W], pub n: usize, pub pos: usize }
    impl super::Input for Words {
        fn remaining_len(&mut self) -> Result<Option<usize>, super::Error> { Ok(None) }
        fn read(&mut self, into: &mut [u8]) -> Result<(), super::Error> { if self.pos >= self.n || self.pos >= W { return Err("Not enough data to fill buffer".into()); } let x = self.w[self.pos].to_le_bytes(); self.pos += 1; let mut i = 0; while i < 8 { if i < into.len() { into[i] = x[i]; } i += 1; } Ok(()) }
    }
    pub fn encode<T: super::Encode + ?Sized>(t: &T) -> Vec<u8> {
        unsafe {
            SN = 0; SIZE = 0; S = [0; W];
            let mut v = Vec::new();
            t.encode_to(&mut v);
            // two bytes are their own token
            if SN == 1 && SIZE == 2 { let mut o = Vec::new(); let b = (S[0] as u16).to_le_bytes(); o.push(b[0]); o.push(b[1]); return o; }
            let mut i = 0;
            while i < TOK_CAP { if i < N && LEN[i] == SN && same(&SEEN[i]) { break; } i += 1; }
            if i == TOK_CAP { if N >= TOK_CAP { crate::nd::limit("tokens") } i = N; SEEN[i] = S; LEN[i] = SN; N += 1; }
            let mut o = Vec::new(); o.push(0xE0); o.push(i as u8); o
        }
    }
}
pub trait EncodeLike<T = Self>: Sized + Encode {}
pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> { let mut b = [0u8; 1]; self.read(&mut b)?; Ok(b[0]) }
}
impl<'a> Input for &'a [u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(Some(self.len())) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() { return Err("Not enough data to fill buffer".into()); }
        let n = into.len();
        into.copy_from_slice(&self[..n]);
        *self = &self[n..];
        Ok(())
    }
}
pub trait Decode: Sized {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error>;
}
pub trait DecodeAll: Sized { fn decode_all(i: &mut &[u8]) -> Result<Self, Error>; }
impl<T: Decode> DecodeAll for T {
    fn decode_all(i: &mut &[u8]) -> Result<Self, Error> { let r = T::decode(i)?; if i.is_empty() { Ok(r) } else { Err("Input buffer has still data left after decoding!".into()) } }
}
pub trait Codec: Encode + Decode {}
impl<T: Encode + Decode> Codec for T {}
pub trait FullCodec: Encode + Decode {}
impl<T: Encode + Decode> FullCodec for T {}
pub trait MaxEncodedLen { fn max_encoded_len() -> usize; }
pub trait ConstEncodedLen: MaxEncodedLen {}

macro_rules! ints { ($($t:ty),*) => { $(
    #[cfg(mf_tok)] impl Encode for $t { fn encode_to(&self, _o: &mut Vec<u8>) { tok::word(*self as u64, core::mem::size_of::<$t>()); if core::mem::size_of::<$t>() > 8 { tok::word((*self as u128 >> 64) as u64, 0) } } }
    #[cfg(not(mf_tok))] impl Encode for $t { fn size_hint(&self) -> usize { core::mem::size_of::<$t>() } fn encode_to(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) } fn encode(&self) -> Vec<u8> { Vec::from(&self.to_le_bytes()[..]) } fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) } }
    impl EncodeLike for $t {}
    impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0u8; core::mem::size_of::<$t>()]; i.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
    impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { core::mem::size_of::<$t>() } }
)* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Encode for bool { fn encode_to(&self, o: &mut Vec<u8>) { (*self as u8).encode_to(o) } }
impl EncodeLike for bool {}
impl Decode for bool { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(false), 1 => Ok(true), _ => Err("Invalid boolean representation".into()) } } }
impl MaxEncodedLen for bool { fn max_encoded_len() -> usize { 1 } }
impl Encode for () { fn encode_to(&self, _o: &mut Vec<u8>) {} }
impl EncodeLike for () {}
impl Decode for () { fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> { Ok(()) } }
impl MaxEncodedLen for () { fn max_encoded_len() -> usize { 0 } }
impl<T> Encode for core::marker::PhantomData<T> { fn encode_to(&self, _o: &mut Vec<u8>) {} }
impl<T> Decode for core::marker::PhantomData<T> { fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> { Ok(core::marker::PhantomData) } }
impl<T> MaxEncodedLen for core::marker::PhantomData<T> { fn max_encoded_len() -> usize { 0 } }
impl<T: Encode + ?Sized> Encode for &T { fn encode_to(&self, o: &mut Vec<u8>) { (**self).encode_to(o) } }
impl<T: Encode + ?Sized> Encode for &mut T { fn encode_to(&self, o: &mut Vec<u8>) { (**self).encode_to(o) } }
impl<T: Encode + ?Sized> Encode for Box<T> { fn encode_to(&self, o: &mut Vec<u8>) { (**self).encode_to(o) } }
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Decode> Decode for Box<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Box::new(T::decode(i)?)) } }
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> { fn max_encoded_len() -> usize { T::max_encoded_len() } }
impl<T: Encode> Encode for Option<T> { fn encode_to(&self, o: &mut Vec<u8>) { match self { None => 0u8.encode_to(o), Some(x) => { 1u8.encode_to(o); x.encode_to(o) } } } }
impl<T: Encode> EncodeLike for Option<T> {}
impl<T: Decode> Decode for Option<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(None), 1 => Ok(Some(T::decode(i)?)), _ => Err("unexpected first byte decoding Option".into()) } } }
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> { fn max_encoded_len() -> usize { T::max_encoded_len() + 1 } }
impl<T: Encode, E: Encode> Encode for Result<T, E> { fn encode_to(&self, o: &mut Vec<u8>) { match self { Ok(x) => { 0u8.encode_to(o); x.encode_to(o) } Err(x) => { 1u8.encode_to(o); x.encode_to(o) } } } }

/// compact integers
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Compact<T>(pub T);
pub trait HasCompact: Sized + CompactEnc {}
pub trait CompactEnc: Sized { fn compact_encode_to(&self, o: &mut Vec<u8>); fn compact_decode<I: Input>(i: &mut I) -> Result<Self, Error>; }
fn cenc(x: u128, o: &mut Vec<u8>) {
    if x < 64 { o.push((x as u8) << 2) }
    else if x < 1 << 14 { o.extend_from_slice(&(((x as u16) << 2) | 1).to_le_bytes()) }
    else if x < 1 << 30 { o.extend_from_slice(&(((x as u32) << 2) | 2).to_le_bytes()) }
    else { let b = x.to_le_bytes(); let mut n = 16; while n > 4 && b[n - 1] == 0 { n -= 1 } o.push((((n - 4) as u8) << 2) | 3); o.extend_from_slice(&b[..n]) }
}
fn cdec<I: Input>(i: &mut I) -> Result<u128, Error> {
    let b = i.read_byte()?;
    match b & 3 {
        0 => Ok((b >> 2) as u128),
        1 => { let c = i.read_byte()?; let x = u16::from_le_bytes([b, c]) >> 2; if x < 64 { Err("out of range".into()) } else { Ok(x as u128) } }
        2 => { let mut r = [b, 0, 0, 0]; i.read(&mut r[1..])?; let x = u32::from_le_bytes(r) >> 2; if x < 1 << 14 { Err("out of range".into()) } else { Ok(x as u128) } }
        _ => { let n = (b >> 2) as usize + 4; if n > 16 { return Err("out of range".into()); } let mut r = [0u8; 16]; i.read(&mut r[..n])?; let x = u128::from_le_bytes(r); if n == 4 { if x < 1 << 30 { return Err("out of range".into()); } } else if r[n - 1] == 0 { return Err("out of range".into()); } Ok(x) }
    }
}
/// (symbolically a length is one byte: vectors are shorter than that)
pub fn compact_len_to(x: u32, o: &mut Vec<u8>) { if crate::abs() { if x > 255 { crate::nd::limit("vector length") } (x as u8).encode_to(o) } else { cenc(x as u128, o) } }
pub fn compact_len_from<I: Input>(i: &mut I) -> Result<u32, Error> { if crate::abs() { Ok(i.read_byte()? as u32) } else { let x = cdec(i)?; u32::try_from(x).map_err(|_| "out of range".into()) } }
macro_rules! compacts { ($($t:ty),*) => { $(
    // under Kani the compact encoding is replaced by the (equally injective) fixed-width one
    impl CompactEnc for $t {
        fn compact_encode_to(&self, o: &mut Vec<u8>) { if crate::abs() { self.encode_to(o) } else { cenc(*self as u128, o) } }
        fn compact_decode<I: Input>(i: &mut I) -> Result<Self, Error> { if crate::abs() { Self::decode(i) } else { <$t>::try_from(cdec(i)?).map_err(|_| "out of range".into()) } }
    }
    impl HasCompact for $t {}
)* } }
compacts!(u8, u16, u32, u64, u128);
impl<T: CompactEnc> Encode for Compact<T> { fn encode_to(&self, o: &mut Vec<u8>) { self.0.compact_encode_to(o) } }
impl<T: CompactEnc> Decode for Compact<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Compact(T::compact_decode(i)?)) } }
impl<T> From<T> for Compact<T> { fn from(t: T) -> Self { Compact(t) } }

impl<T: Encode> Encode for [T] { fn encode_to(&self, o: &mut Vec<u8>) { compact_len_to(self.len() as u32, o); for x in self { x.encode_to(o) } } }
impl Encode for str { fn encode_to(&self, o: &mut Vec<u8>) { self.as_bytes().encode_to(o) } }
impl<T: Encode> Encode for Vec<T> { fn encode_to(&self, o: &mut Vec<u8>) { compact_len_to(self.len() as u32, o); for x in self { x.encode_to(o) } } }
impl<T: Encode> EncodeLike for Vec<T> {}
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let n = compact_len_from(i)? as usize;
        if let Some(r) = i.remaining_len()? { if core::mem::size_of::<T>() > 0 && n > r { return Err("Not enough data to decode vector".into()); } }
        let mut v = Vec::new();
        for _ in 0..n { v.push(T::decode(i)?); }
        Ok(v)
    }
}
impl<T: Encode, const N: usize> Encode for [T; N] { fn encode_to(&self, o: &mut Vec<u8>) { for x in self { x.encode_to(o) } } }
impl<T: Encode, const N: usize> EncodeLike for [T; N] {}
impl<T: Decode + Copy + Default, const N: usize> Decode for [T; N] { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut a = [T::default(); N]; for x in a.iter_mut() { *x = T::decode(i)?; } Ok(a) } }
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] { fn max_encoded_len() -> usize { T::max_encoded_len() * N } }
macro_rules! tup { ($(($($n:ident),*)),*) => { $(
    #[allow(non_snake_case)] impl<$($n: Encode),*> Encode for ($($n,)*) { fn encode_to(&self, o: &mut Vec<u8>) { let ($($n,)*) = self; $($n.encode_to(o);)* } }
    impl<$($n: Encode),*> EncodeLike for ($($n,)*) {}
    impl<$($n: Decode),*> Decode for ($($n,)*) { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(($($n::decode(i)?,)*)) } }
    impl<$($n: MaxEncodedLen),*> MaxEncodedLen for ($($n,)*) { fn max_encoded_len() -> usize { 0 $(+ $n::max_encoded_len())* } }
)* } }
tup!((A), (A, B), (A, B, C), (A, B, C, D), (A, B, C, D, E), (A, B, C, D, E, F));
impl<K: Encode, V: Encode> Encode for std::collections::BTreeMap<K, V> { fn encode_to(&self, o: &mut Vec<u8>) { compact_len_to(self.len() as u32, o); for (k, v) in self { k.encode_to(o); v.encode_to(o) } } }
impl<K: Encode> Encode for std::collections::BTreeSet<K> { fn encode_to(&self, o: &mut Vec<u8>) { compact_len_to(self.len() as u32, o); for k in self { k.encode_to(o) } } }
pub mod alloc { pub use std::*; }
impl Encode for String { fn encode_to(&self, o: &mut Vec<u8>) { self.as_bytes().encode_to(o) } }
impl Decode for String { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { String::from_utf8(Vec::<u8>::decode(i)?.iter().cloned().collect()).map_err(|_| "Invalid utf8 sequence".into()) } }
#[cfg(any(kani, mf_av))]
impl Encode for crate::alloc::string::String { fn encode_to(&self, o: &mut Vec<u8>) { self.as_bytes().encode_to(o) } }
#[cfg(any(kani, mf_av))]
impl Decode for crate::alloc::string::String { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Self::from_utf8(Vec::<u8>::decode(i)?).map_err(|_| "Invalid utf8 sequence".into()) } }
