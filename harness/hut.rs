//! Contracts of handles-utils (real source): suffix series, character checks, canonical form, display names.
use handles_utils_real as hu;
use mf::alloc::string::String;
use mf::nd::*;
use mf::text::*;
use mf::{cov, ob};
pub fn init() { set_len(4); mf::text::reset(); }
/// a text of up to two characters
fn two() -> ([char; 2], usize, String) { let c = [nd_char(), nd_char()]; let n: usize = any(); assume(n <= 2); let mut s = String::new(); if n > 0 { s.push(c[0]); } if n > 1 { s.push(c[1]); } (c, n, s) }
const BLOCKED: [char; 16] = ['"', '#', '%', '(', ')', ',', '.', ':', ';', '<', '>', '@', '\\', '`', '{', '}'];
const SUPPORTED: [(u32, u32); 21] = [(0x20, 0x7F), (0x80, 0xFF), (0x100, 0x17F), (0x370, 0x3FF), (0x400, 0x4FF), (0x500, 0x52F), (0x590, 0x5FF), (0x600, 0x6FF), (0x900, 0x97F), (0x980, 0x9FF), (0xE00, 0xE7F), (0x1100, 0x11FF), (0x1E00, 0x1EFF), (0x1F00, 0x1FFF), (0x3040, 0x309F), (0x30A0, 0x30FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xAC00, 0xD7AF), (0xF900, 0xFAFF), (0xFB50, 0xFDFF)];
fn blocked(c: char) -> bool { let mut r = false; let mut i = 0; while i < 16 { if BLOCKED[i] == c { r = true; } i += 1; } r }
fn supported(c: char) -> bool { let x = c as u32; let mut r = false; let mut i = 0; while i < 21 { if x >= SUPPORTED[i].0 && x <= SUPPORTED[i].1 { r = true; } i += 1; } r }
const RESERVED: [&[u8]; 8] = [b"admin", b"everyone", b"all", b"administrator", b"mod", b"moderator", b"here", b"channel"];
mf::contracts! {
    /// the series of a text: every suffix of the range, once
    series (0) {
        let (min, max): (u16, u16) = (any(), any());
        assume(min <= max && max - min < 3 && max < u16::MAX);
        let t = { let mut t = String::new(); if any() { t.push('a'); } if any() { t.push('b'); } t };
        let mut it = hu::suffix::generate_unique_suffixes(min, max, t.as_str());
        let mut s = [0u16; 3]; let mut n = 0;
        while n < 3 { match it.next() { Some(x) => s[n] = x, None => break } n += 1; }
        cov!("N02 a series of three suffixes", n == 3);
        ob!("N02 series.as-long-as-the-range", n == (max - min) as usize + 1 && it.next().is_none());
        let (i, j): (usize, usize) = (any(), any()); assume(i < n && j < n);
        ob!("N02 series.inside-the-range", s[i] >= min && s[i] <= max);
        ob!("N02 series.no-suffix-twice", i == j || s[i] != s[j]);
        let k: u16 = any(); assume(k as usize == i);
        let again = hu::suffix::generate_unique_suffixes(min, max, t.as_str()).nth(k as usize);
        ob!("N02 series.always-the-same", again == Some(s[i]));
    }
    characters (0) {
        let (c, n, s) = two();
        let b = (n > 0 && blocked(c[0])) || (n > 1 && blocked(c[1]));
        cov!("N04 a blocked character", b);
        ob!("N04 characters.blocked-anywhere", hu::contains_blocked_characters(s.as_str()) == b);
    }
    sets (0) {
        let c = nd_char(); let last: bool = any();
        assume((c as u32) < 0x10000);
        let mut s = String::new(); s.push(c); if last { s.push('z'); }
        cov!("N04 a supported character", supported(c));
        ob!("N04 sets.every-character-supported", hu::consists_of_supported_unicode_character_sets(s.as_str()) == supported(c));
    }
    /// a character beyond the basic plane is in none of the supported sets (known finding: U+1F916 is taken for U+F916)
    beyond (0) {
        let c = '\u{1F916}';
        let mut s = String::new(); s.push(c);
        ob!("N04 sets.none-beyond-the-basic-plane", !hu::consists_of_supported_unicode_character_sets(s.as_str()));
    }
    reserved (0) {
        let v: mf::vecs::Vec<u8> = nd_vec_max(14);
        let mut i = 0; while i < 14 { if i < v.len() { assume(v[i] < 128); } i += 1; }
        let mut r = false; let mut k = 0;
        while k < 8 { let w = RESERVED[k]; if v.len() == w.len() { let mut same = true; let mut i = 0; while i < 14 { if i < w.len() && v[i] != w[i] { same = false; } i += 1; } if same { r = true; } } k += 1; }
        cov!("N04 a reserved word", r);
        ob!("N04 reserved.exactly-the-reserved-words", hu::is_reserved_handle(unsafe { core::str::from_utf8_unchecked(v.as_slice()) }) == r);
    }
}
