//! Machine integers whose products and quotients are taken by contract: under Kani `a * b` is an
//! arbitrary function of its arguments that obeys the elementary laws below (each is proved of the
//! mathematical product and quotient in /verif/lemmas/arith.rs, with Verus); everything else is the
//! machine operation itself.  Natively products and quotients are the real ones.
use crate::arith::*;
use crate::nd::{any, assume, limit, Nd};
use core::ops::*;
const MULS: usize = 4;
const DIVS: usize = 3;
macro_rules! num { ($n:ident, $t:ty, $w:ty, [$($up:ty),*]) => {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
    pub struct $n(pub $t);
    impl $n {
        #[cfg(kani)] fn muls() -> &'static mut [Option<($t, $t, $w)>; MULS] { static mut M: [Option<($t, $t, $w)>; MULS] = [None; MULS]; unsafe { &mut *core::ptr::addr_of_mut!(M) } }
        #[cfg(kani)] fn divs() -> &'static mut [Option<($t, $t, $t)>; DIVS] { static mut M: [Option<($t, $t, $t)>; DIVS] = [None; DIVS]; unsafe { &mut *core::ptr::addr_of_mut!(M) } }
        /// the mathematical product
        #[cfg(not(kani))] pub fn product(a: $t, b: $t) -> $w { a as $w * b as $w }
        #[cfg(kani)] pub fn product(a: $t, b: $t) -> $w {
            if a == 0 || b == 0 { return 0; } // mul_zero
            if b == 1 { return a as $w; } if a == 1 { return b as $w; } // mul_one
            let m = Self::muls(); let mut i = 0;
            while i < MULS { if let Some((x, y, r)) = m[i] { if x == a && y == b { return r; } } i += 1; }
            let r: $w = any();
            assume(r >= a as $w && r >= b as $w && r <= <$t>::MAX as $w * <$t>::MAX as $w); // mul_bounds
            let mut i = 0;
            while i < MULS { if let Some((x, y, p)) = m[i] { if x == a { assume(if y < b { r >= a as $w && p <= r - a as $w } else { p >= a as $w && r <= p - a as $w }); } } i += 1; } // mul_monotone
            let d = Self::divs(); let mut i = 0;
            while i < DIVS { if let Some((e, p, q)) = d[i] { if a == p { assume((q >= b) == (e as $w >= r)); } } i += 1; } // div_mul
            let mut i = 0;
            while i < MULS { if m[i].is_none() { m[i] = Some((a, b, r)); return r; } i += 1; }
            limit("products lazy")
        }
        #[cfg(not(kani))] pub fn quotient(e: $t, p: $t) -> $t { e / p }
        #[cfg(kani)] pub fn quotient(e: $t, p: $t) -> $t {
            if p == 0 { panic!("attempt to divide by zero") }
            if e < p { return 0; } // div_small
            if p == 1 { return e; } // div_one
            let d = Self::divs(); let mut i = 0;
            while i < DIVS { if let Some((x, y, q)) = d[i] { if x == e && y == p { return q; } } i += 1; }
            let q: $t = any();
            assume(q >= 1 && q <= e); // div_bounds
            let m = Self::muls(); let mut i = 0;
            while i < MULS { if let Some((a, b, r)) = m[i] { if a == p { assume((q >= b) == (e as $w >= r)); } } i += 1; } // div_mul
            let mut i = 0;
            while i < DIVS { if let Some((x, y, z)) = d[i] { if y == p { assume(if x <= e { z <= q } else { q <= z }); } } i += 1; } // div_monotone
            let mut i = 0;
            while i < DIVS { if d[i].is_none() { d[i] = Some((e, p, q)); return q; } i += 1; }
            limit("quotients lazy")
        }
        pub fn reset() { #[cfg(kani)] { *Self::muls() = [None; MULS]; *Self::divs() = [None; DIVS]; } }
    }
    impl Nd for $n { fn nd() -> Self { $n(any()) } fn dup(&self) -> Self { *self } }
    impl Zero for $n { fn zero() -> Self { $n(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl One for $n { fn one() -> Self { $n(1) } }
    impl Bounded for $n { fn min_value() -> Self { $n(0) } fn max_value() -> Self { $n(<$t>::MAX) } }
    impl CheckedAdd for $n { fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).map($n) } }
    impl CheckedSub for $n { fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map($n) } }
    impl CheckedMul for $n { fn checked_mul(&self, o: &Self) -> Option<Self> { let p = Self::product(self.0, o.0); if p <= <$t>::MAX as $w { Some($n(p as $t)) } else { None } } }
    impl CheckedDiv for $n { fn checked_div(&self, o: &Self) -> Option<Self> { if o.0 == 0 { None } else { Some($n(Self::quotient(self.0, o.0))) } } }
    impl CheckedRem for $n { fn checked_rem(&self, o: &Self) -> Option<Self> { if o.0 == 0 { None } else { Some(*self % *o) } } }
    impl Saturating for $n {
        fn saturating_add(self, o: Self) -> Self { $n(self.0.saturating_add(o.0)) }
        fn saturating_sub(self, o: Self) -> Self { $n(self.0.saturating_sub(o.0)) }
        fn saturating_mul(self, o: Self) -> Self { self.checked_mul(&o).unwrap_or($n(<$t>::MAX)) }
        fn saturating_pow(self, e: usize) -> Self { $n(self.0.saturating_pow(e as u32)) }
    }
    impl Add for $n { type Output = Self; fn add(self, o: Self) -> Self { $n(self.0 + o.0) } }
    impl Sub for $n { type Output = Self; fn sub(self, o: Self) -> Self { $n(self.0 - o.0) } }
    impl Mul for $n { type Output = Self; fn mul(self, o: Self) -> Self { self.checked_mul(&o).expect("attempt to multiply with overflow") } }
    impl Div for $n { type Output = Self; fn div(self, o: Self) -> Self { $n(Self::quotient(self.0, o.0)) } }
    impl Rem for $n { type Output = Self; fn rem(self, o: Self) -> Self { let q = Self::quotient(self.0, o.0); $n(self.0 - Self::product(o.0, q) as $t) } }
    impl AddAssign for $n { fn add_assign(&mut self, o: Self) { *self = *self + o } }
    impl SubAssign for $n { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
    impl MulAssign for $n { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
    impl DivAssign for $n { fn div_assign(&mut self, o: Self) { *self = *self / o } }
    impl RemAssign for $n { fn rem_assign(&mut self, o: Self) { *self = *self % o } }
    impl PartialOrdZero for $n { fn neg(&self) -> bool { false } }
    impl BaseArithmetic for $n {}
    impl Unsigned for $n {}
    $( impl From<$up> for $n { fn from(x: $up) -> Self { $n(x as $t) } } )*
    into!($n, u8, u16, u32, u64, u128, usize);
    impl crate::codec::Encode for $n { fn encode_to(&self, o: &mut crate::vecs::Vec<u8>) { self.0.encode_to(o) } }
    impl crate::codec::EncodeLike for $n {}
    impl crate::codec::Decode for $n { fn decode<I: crate::codec::Input>(i: &mut I) -> Result<Self, crate::codec::Error> { Ok($n(crate::codec::Decode::decode(i)?)) } }
    impl crate::codec::MaxEncodedLen for $n { fn max_encoded_len() -> usize { <$t as crate::codec::MaxEncodedLen>::max_encoded_len() } }
    impl crate::codec::CompactEnc for $n { fn compact_encode_to(&self, o: &mut crate::vecs::Vec<u8>) { self.0.compact_encode_to(o) } fn compact_decode<I: crate::codec::Input>(i: &mut I) -> Result<Self, crate::codec::Error> { Ok($n(<$t>::compact_decode(i)?)) } }
    impl crate::codec::HasCompact for $n {}
} }
macro_rules! into { ($n:ident, $($u:ty),*) => { $( impl TryFrom<$n> for $u { type Error = (); fn try_from(x: $n) -> Result<$u, ()> { <$u>::try_from(x.0).map_err(|_| ()) } } )* } }
macro_rules! tryfrom { ($n:ident, $t:ty, $($u:ty),*) => { $( impl TryFrom<$u> for $n { type Error = (); fn try_from(x: $u) -> Result<$n, ()> { <$t>::try_from(x).map($n).map_err(|_| ()) } } )* } }
num!(N32, u32, u64, [u8, u16, u32]);
tryfrom!(N32, u32, u64, u128, usize);
num!(N64, u64, u128, [u8, u16, u32, u64]);
tryfrom!(N64, u64, u128, usize);
