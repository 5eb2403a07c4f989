//! sp-arithmetic surface.
use crate::nd::{any, assume, Nd};
use core::ops::*;
pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Self::zero() } }
pub trait One: Sized { fn one() -> Self; fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() } }
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }
pub trait CheckedAdd: Sized { fn checked_add(&self, o: &Self) -> Option<Self>; }
pub trait CheckedSub: Sized { fn checked_sub(&self, o: &Self) -> Option<Self>; }
pub trait CheckedMul: Sized { fn checked_mul(&self, o: &Self) -> Option<Self>; }
pub trait CheckedDiv: Sized { fn checked_div(&self, o: &Self) -> Option<Self>; }
pub trait CheckedRem: Sized { fn checked_rem(&self, o: &Self) -> Option<Self>; }
pub trait Saturating: Sized {
    fn saturating_add(self, o: Self) -> Self;
    fn saturating_sub(self, o: Self) -> Self;
    fn saturating_mul(self, o: Self) -> Self;
    fn saturating_pow(self, e: usize) -> Self;
    fn saturating_inc(&mut self) where Self: One + Copy { *self = (*self).saturating_add(Self::one()) }
    fn saturating_dec(&mut self) where Self: One + Copy { *self = (*self).saturating_sub(Self::one()) }
    fn saturating_accrue(&mut self, o: Self) where Self: Copy { *self = (*self).saturating_add(o) }
    fn saturating_reduce(&mut self, o: Self) where Self: Copy { *self = (*self).saturating_sub(o) }
    fn saturating_less_one(self) -> Self where Self: One { self.saturating_sub(Self::one()) }
    fn saturating_plus_one(self) -> Self where Self: One { self.saturating_add(Self::one()) }
}
pub trait EnsureAdd: Sized { fn ensure_add(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError>; }
pub trait EnsureSub: Sized { fn ensure_sub(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError>; }
pub trait EnsureMul: Sized { fn ensure_mul(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError>; }
macro_rules! nums { ($($t:ty),*) => { $(
    impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
    impl One for $t { fn one() -> Self { 1 } }
    impl Bounded for $t { fn min_value() -> Self { <$t>::MIN } fn max_value() -> Self { <$t>::MAX } }
    impl CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { <$t>::checked_add(*self, *o) } }
    impl CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { <$t>::checked_sub(*self, *o) } }
    impl CheckedMul for $t { fn checked_mul(&self, o: &Self) -> Option<Self> { <$t>::checked_mul(*self, *o) } }
    impl CheckedDiv for $t { fn checked_div(&self, o: &Self) -> Option<Self> { <$t>::checked_div(*self, *o) } }
    impl CheckedRem for $t { fn checked_rem(&self, o: &Self) -> Option<Self> { <$t>::checked_rem(*self, *o) } }
    impl Saturating for $t {
        fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
        fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
        fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
        fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
    }
    impl EnsureAdd for $t { fn ensure_add(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError> { <$t>::checked_add(self, o).ok_or(crate::sp_runtime::ArithmeticError::Overflow) } }
    impl EnsureSub for $t { fn ensure_sub(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError> { <$t>::checked_sub(self, o).ok_or(crate::sp_runtime::ArithmeticError::Underflow) } }
    impl EnsureMul for $t { fn ensure_mul(self, o: Self) -> Result<Self, crate::sp_runtime::ArithmeticError> { <$t>::checked_mul(self, o).ok_or(crate::sp_runtime::ArithmeticError::Overflow) } }
)* } }
nums!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);

pub trait UniqueSaturatedFrom<T: Sized>: Sized { fn unique_saturated_from(t: T) -> Self; }
pub trait UniqueSaturatedInto<T: Sized>: Sized { fn unique_saturated_into(self) -> T; }
impl<T, S: Bounded + TryFrom<T> + Sized> UniqueSaturatedFrom<T> for S where T: PartialOrdZero { fn unique_saturated_from(t: T) -> Self { let neg = t.neg(); S::try_from(t).unwrap_or_else(|_| if neg { S::min_value() } else { S::max_value() }) } }
impl<T: Bounded + Sized, S: TryInto<T> + Sized + PartialOrdZero> UniqueSaturatedInto<T> for S { fn unique_saturated_into(self) -> T { let neg = self.neg(); self.try_into().unwrap_or_else(|_| if neg { T::min_value() } else { T::max_value() }) } }
pub trait PartialOrdZero { fn neg(&self) -> bool; }
macro_rules! poz { ($($t:ty),*) => { $(impl PartialOrdZero for $t { #[allow(unused_comparisons)] fn neg(&self) -> bool { *self < 0 } })* } }
poz!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
pub trait SaturatedConversion {
    fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) }
    fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) }
}
impl<T: Sized> SaturatedConversion for T {}

pub trait BaseArithmetic:
    crate::codec::HasCompact + From<u8> + Zero + One + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> + Rem<Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign
    + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd + Ord + Bounded + Copy + Clone + Eq
    + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
    + UniqueSaturatedInto<u8> + UniqueSaturatedInto<u16> + UniqueSaturatedInto<u32> + UniqueSaturatedInto<u64> + UniqueSaturatedInto<u128>
    + UniqueSaturatedFrom<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedFrom<u128>
{}
impl BaseArithmetic for u32 {} impl BaseArithmetic for u64 {} impl BaseArithmetic for u128 {} impl BaseArithmetic for u16 {}
pub trait AtLeast8Bit: BaseArithmetic {}
impl<T: BaseArithmetic> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait Unsigned {}
impl Unsigned for u8 {} impl Unsigned for u16 {} impl Unsigned for u32 {} impl Unsigned for u64 {} impl Unsigned for u128 {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedAdd {}
impl FixedPointOperand for u32 {} impl FixedPointOperand for u64 {} impl FixedPointOperand for u128 {}
pub trait CheckedRemTrait {}

/// Perbill: parts per 10^9.  Natively computed exactly; in `abs()` mode the products are replaced
/// by the contract of sp-arithmetic: functional, within [floor, ceil] end points, result <= x.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Perbill(pub u32);
#[derive(Clone, Copy, PartialEq, Eq)]
struct Memo { kind: u8, a: u128, b: u128, r: u128 }
const MEMO_N: usize = 4;
static mut MEMO: ([Option<Memo>; MEMO_N], usize) = ([None; MEMO_N], 0);
/// reads back what the abstraction returned (for oracles): kind 0 from_rational, 1 mul_floor, 2 mul_ceil, 3 mul nearest
pub fn memo(kind: u8, a: u128, b: u128, upper: u128, mono: bool) -> u128 {
    unsafe {
        let mut i = 0;
        while i < MEMO_N {
            if i < MEMO.1 { if let Some(m) = MEMO.0[i] { if m.kind == kind && m.a == a && m.b == b { return m.r; } } }
            i += 1;
        }
        let r: u128 = any();
        assume(r <= upper);
        if MEMO.1 >= MEMO_N { crate::nd::limit("perbill memo") }
        MEMO.0[MEMO.1] = Some(Memo { kind, a, b, r });
        MEMO.1 += 1;
        r
    }
}
pub fn memo_reset() { unsafe { MEMO = ([None; MEMO_N], 0) } }
const BILLION: u128 = 1_000_000_000;
#[derive(Clone, Copy)]
enum R { Floor, Ceil, Near }
fn mul_u128(p: u128, x: u128, r: R) -> u128 {
    if crate::abs() {
        if p == 0 || x == 0 { return 0; }
        if p >= BILLION { return x; }
        return memo(match r { R::Floor => 1, R::Ceil => 2, R::Near => 3 }, p, x, x, true);
    }
    let (q, m) = (x / BILLION, x % BILLION);
    let f = m * p;
    let (fq, fr) = (f / BILLION, f % BILLION);
    q * p + fq + match r { R::Floor => 0, R::Ceil => (fr > 0) as u128, R::Near => (fr * 2 > BILLION) as u128 }
}
/// floor(a * 10^9 / b) for a < b, exact (256-bit intermediate by long division)
fn rational_floor(a: u128, b: u128) -> u128 {
    let (mut q, mut r) = (0u128, a);
    for _ in 0..9 { // multiply by 10, nine times, tracking the quotient digit
        let mut d = 0u128;
        let mut acc = 0u128;
        for _ in 0..10 { // acc = (acc + r) mod b
            let (s, c) = acc.overflowing_add(r);
            if c || s >= b { acc = s.wrapping_sub(b); d += 1; } else { acc = s; }
        }
        r = acc;
        q = q * 10 + d;
    }
    q
}
pub trait PerThing { }
impl Perbill {
    pub const fn zero() -> Self { Perbill(0) }
    pub const fn one() -> Self { Perbill(1_000_000_000) }
    pub const fn from_parts(p: u32) -> Self { Perbill(if p > 1_000_000_000 { 1_000_000_000 } else { p }) }
    pub const fn from_percent(p: u32) -> Self { Perbill(if p > 100 { 1_000_000_000 } else { p * 10_000_000 }) }
    pub const fn from_perthousand(p: u32) -> Self { Perbill(if p > 1000 { 1_000_000_000 } else { p * 1_000_000 }) }
    pub const fn deconstruct(self) -> u32 { self.0 }
    pub fn is_zero(&self) -> bool { self.0 == 0 }
    pub fn from_rational<N: UniqueSaturatedInto<u128> + Clone>(p: N, q: N) -> Self {
        let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
        let q = if q == 0 { 1 } else { q };
        let p = if p > q { q } else { p };
        if p == q { return Self::one(); }
        if p == 0 { return Self::zero(); }
        if crate::abs() { return Perbill(memo(0, p, q, BILLION - 1, true) as u32); }
        Perbill(rational_floor(p, q) as u32)
    }
    pub fn mul_floor<N: UniqueSaturatedInto<u128> + TryFrom<u128>>(self, n: N) -> N { back(mul_u128(self.0 as u128, n.unique_saturated_into(), R::Floor)) }
    pub fn mul_ceil<N: UniqueSaturatedInto<u128> + TryFrom<u128>>(self, n: N) -> N { back(mul_u128(self.0 as u128, n.unique_saturated_into(), R::Ceil)) }
    pub fn saturating_add(self, o: Self) -> Self { Perbill::from_parts(self.0.saturating_add(o.0)) }
    pub fn left_from_one(self) -> Self { Perbill(1_000_000_000 - self.0) }
}
fn back<N: TryFrom<u128>>(x: u128) -> N { match N::try_from(x) { Ok(n) => n, Err(_) => panic!() } }
impl<N: UniqueSaturatedInto<u128> + TryFrom<u128>> Mul<N> for Perbill { type Output = N; fn mul(self, n: N) -> N { back(mul_u128(self.0 as u128, n.unique_saturated_into(), R::Near)) } }
pub use Perbill as Permill_;
