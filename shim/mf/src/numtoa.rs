pub trait NumToA { fn numtoa<'a>(self, base: u32, buf: &'a mut [u8]) -> &'a [u8]; fn numtoa_str<'a>(self, base: u32, buf: &'a mut [u8]) -> &'a str where Self: Sized { core::str::from_utf8(self.numtoa(base, buf)).unwrap() } }
macro_rules! n { ($($t:ty),*) => { $(impl NumToA for $t { fn numtoa<'a>(self, base: u32, buf: &'a mut [u8]) -> &'a [u8] { let mut x = self as u64; let mut i = buf.len(); loop { i -= 1; buf[i] = b"0123456789ABCDEF"[(x % base as u64) as usize]; x /= base as u64; if x == 0 { break; } } &buf[i..] } })* } }
#[cfg(not(kani))]
n!(u16);
n!(u8, u32, u64);
/// the text of a 16-bit number, by contract (`parse16` is its inverse): four digits
#[cfg(kani)]
impl NumToA for u16 { fn numtoa<'a>(self, _base: u32, buf: &'a mut [u8]) -> &'a [u8] { let mut i = 0; while i < 4 { buf[i] = b'A' + ((self >> (12 - 4 * i)) & 15) as u8; i += 1; } &buf[..4] } }
/// the number a text stands for
#[cfg(kani)]
pub fn parse16(t: &[u8]) -> Option<u16> { if t.len() != 4 { return None; } let (mut r, mut ok) = (0u16, true); let mut i = 0; while i < 4 { let d = t[i].wrapping_sub(b'A'); if d > 15 { ok = false; } r = r << 4 | (d & 15) as u16; i += 1; } if ok { Some(r) } else { None } }
#[cfg(not(kani))]
pub fn parse16(t: &[u8]) -> Option<u16> { core::str::from_utf8(t).ok()?.parse().ok() }
