//! handles-utils by contract: normalisation and the character checks are arbitrary functions of the
//! text, the suffixes of a text are an arbitrary sequence without repetition inside the range, and a
//! display name splits into what it was composed of.  (The real crate is under contract in harness/hut.rs.)
#![allow(static_mut_refs)]
use mf::alloc::string::String;
use mf::nd::*;
use mf::vecs::Vec;
pub type Text = Vec<u8>;
/// the longest text drawn
pub const TL: usize = 3;
/// texts and suffixes asked about in one contract
pub const ASKED: usize = 3;
#[cfg(any(kani, mf_av))] fn string(t: Text) -> String { String::raw(t) }
#[cfg(not(any(kani, mf_av)))] fn string(t: Text) -> String { String::from_utf8(t).unwrap_or_default() }
#[derive(Clone)]
pub struct Info { pub text: Text, pub canon: Text, pub reserved: bool, pub blocked: bool, pub supported: bool }
static mut INFO: [Option<Info>; ASKED] = [None, None, None];
#[derive(Clone)]
pub struct Given { pub text: Text, pub index: usize, pub suffix: u16 }
static mut SEQ: [Option<Given>; ASKED] = [None, None, None];
pub fn reset() { unsafe { INFO = [None, None, None]; SEQ = [None, None, None]; } }
fn dotted(t: &[u8]) -> bool { let mut r = false; let mut i = 0; while i < TL { if i < t.len() && t[i] == b'.' { r = true; } i += 1; } r }
/// fixes what is known about a text (contracts that need a particular one)
pub fn suppose(x: Info) { unsafe { let mut i = 0; while i < ASKED { if INFO[i].is_none() { INFO[i] = Some(x); return; } i += 1; } limit("texts") } }
pub fn info(t: &[u8]) -> &'static Info {
    unsafe {
        let mut i = 0;
        while i < ASKED {
            if INFO[i].is_none() { INFO[i] = Some(Info { text: Vec::from(t), canon: ascii(nd_vec_max(TL)), reserved: any(), blocked: any::<bool>() || dotted(t), supported: any() }); }
            if let Some(x) = &INFO[i] { if x.text.as_slice() == t { return x; } }
            i += 1;
        }
        limit("texts")
    }
}
/// (texts drawn are ASCII)
pub fn ascii(mut t: Text) -> Text { let mut i = 0; while i < TL { if i < t.len() { t[i] &= 0x7F; } i += 1; } t }
/// the `index`-th suffix of a canonical text
pub fn suffix_at(min: u16, max: u16, t: &[u8], index: usize) -> Option<u16> {
    if min > max || index > (max - min) as usize { return None; }
    unsafe {
        let fresh: u16 = any();
        assume(min <= fresh && fresh <= max);
        let mut i = 0;
        while i < ASKED {
            match &SEQ[i] {
                Some(x) => if x.text.as_slice() == t { if x.index == index { return Some(x.suffix); } assume(x.suffix != fresh); },
                None => { SEQ[i] = Some(Given { text: Vec::from(t), index, suffix: fresh }); return Some(fresh); }
            }
            i += 1;
        }
        limit("suffixes")
    }
}
/// what `n` is the suffix number of, drawing it if nothing is known
pub fn suppose_suffix(t: &[u8], index: usize, suffix: u16) { unsafe { let mut i = 0; while i < ASKED { if SEQ[i].is_none() { SEQ[i] = Some(Given { text: Vec::from(t), index, suffix }); return; } i += 1; } limit("suffixes") } }
pub mod converter {
    use super::*;
    pub const HANDLE_DELIMITER: char = '.';
    pub fn convert_to_canonical(t: &str) -> String { string(info(t.as_bytes()).canon.clone()) }
    /// (everything before the only delimiter, the number after it)
    pub fn split_display_name(t: &str) -> Option<(String, u16)> {
        let t = t.as_bytes();
        let n = t.len();
        let (mut dots, mut at) = (0, 0); let mut i = 0;
        while i < TL + 5 { if i < n && t[i] == b'.' { dots += 1; at = i; } i += 1; }
        if dots != 1 { return None; }
        let s = mf::numtoa::parse16(&t[at + 1..])?;
        let mut b = Vec::new(); let mut i = 0;
        while i < TL + 4 { if i < at { b.push(t[i]); } i += 1; }
        Some((string(b), s))
    }
}
pub mod suffix {
    use super::*;
    pub struct Seq<'a> { min: u16, max: u16, text: &'a [u8], at: usize }
    impl<'a> Iterator for Seq<'a> {
        type Item = u16;
        fn next(&mut self) -> Option<u16> { let i = self.at; self.at += 1; suffix_at(self.min, self.max, self.text, i) }
        fn nth(&mut self, n: usize) -> Option<u16> { let i = self.at.saturating_add(n); self.at = i.saturating_add(1); suffix_at(self.min, self.max, self.text, i) }
    }
    pub fn generate_unique_suffixes(min: u16, max: u16, text: &str) -> Seq<'_> { Seq { min, max, text: text.as_bytes(), at: 0 } }
}
pub mod validator {
    use super::*;
    pub fn is_reserved_handle(t: &str) -> bool { info(t.as_bytes()).reserved }
    pub fn contains_blocked_characters(t: &str) -> bool { info(t.as_bytes()).blocked }
    pub fn consists_of_supported_unicode_character_sets(t: &str) -> bool { info(t.as_bytes()).supported }
}
pub use converter::*;
pub use validator::*;
