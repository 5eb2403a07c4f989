pub use std::{any, array, borrow, boxed, char, clone, ops, rc, string, sync, u8, u16, u32, u64, usize, i8, i16, i32, i64, ascii};
pub use core::{convert, default, fmt, hash, iter, marker, mem, num, option, result, slice, cmp, cell};
#[cfg(any(kani, mf_av))] pub mod vec { pub use crate::vecs::{IntoIter, Vec}; }
#[cfg(not(any(kani, mf_av)))] pub use std::vec;
#[cfg(any(kani, mf_av))] pub use crate::av_vec as vec;
pub mod collections {
    pub mod btree_map { pub use crate::bounded::{VecMap as BTreeMap, MapEntry as Entry}; }
    pub mod btree_set { pub use std::collections::BTreeSet; }
    pub mod vec_deque { pub use std::collections::VecDeque; }
}
pub mod prelude { pub use std::{borrow::ToOwned, boxed::Box, clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::IntoIterator}; pub use super::{vec, vec::Vec}; }
pub mod if_std { }
#[macro_export] macro_rules! if_std { ($($t:tt)*) => {} }

/// UTF-8 validation over short inline text: same answer as `core::str::from_utf8`, bounded loop
pub mod str {
    pub use core::str::*;
    #[cfg(kani)]
    #[derive(Debug)] pub struct Utf8Error;
    #[cfg(kani)]
    pub fn from_utf8(v: &[u8]) -> Result<&str, Utf8Error> {
        if v.len() > crate::av::N { crate::nd::limit("vector length") }
        // bytes of the current character still to come, and the range of the next one
        let (mut need, mut lo, mut hi) = (0u8, 0x80u8, 0xBFu8);
        let mut ok = true; let mut i = 0;
        while i < crate::av::N {
            if i < v.len() {
                let b = v[i];
                if need > 0 { if b < lo || b > hi { ok = false; } need -= 1; lo = 0x80; hi = 0xBF; }
                else if b < 0x80 {}
                else if b >= 0xC2 && b <= 0xDF { need = 1; }
                else if b >= 0xE0 && b <= 0xEF { need = 2; if b == 0xE0 { lo = 0xA0; } if b == 0xED { hi = 0x9F; } }
                else if b >= 0xF0 && b <= 0xF4 { need = 3; if b == 0xF0 { lo = 0x90; } if b == 0xF4 { hi = 0x8F; } }
                else { ok = false; }
            }
            i += 1;
        }
        if ok && need == 0 { Ok(unsafe { core::str::from_utf8_unchecked(v) }) } else { Err(Utf8Error) }
    }
}
