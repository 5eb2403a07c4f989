pub use mf_macros::bitflags;
use core::marker::PhantomData;
pub trait BitFlag: Copy + Sized + 'static { type Numeric: Copy + TryFrom<u64> + Into<u64>; const ALL_VARIANTS: &'static [Self]; const COUNT: usize; fn bit(self) -> u64; }
pub struct BitFlags<T>(u64, PhantomData<T>);
impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> core::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
impl<T> Default for BitFlags<T> { fn default() -> Self { BitFlags(0, PhantomData) } }
#[derive(Debug, Clone, Copy)] pub struct FromBitsError;
impl<T: BitFlag> BitFlags<T> {
    pub const EMPTY: Self = BitFlags(0, PhantomData);
    pub const ALL: Self = BitFlags((1u64 << T::COUNT) - 1, PhantomData);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn bits(self) -> T::Numeric { match T::Numeric::try_from(self.0) { Ok(x) => x, Err(_) => unreachable!() } }
    pub fn from_bits(n: T::Numeric) -> Result<Self, FromBitsError> { let n: u64 = n.into(); if n & !Self::ALL.0 != 0 { Err(FromBitsError) } else { Ok(BitFlags(n, PhantomData)) } }
    pub fn from_bits_truncate(n: T::Numeric) -> Self { let n: u64 = n.into(); BitFlags(n & Self::ALL.0, PhantomData) }
    pub fn contains<B: Into<BitFlags<T>>>(self, o: B) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn intersects<B: Into<BitFlags<T>>>(self, o: B) -> bool { self.0 & o.into().0 != 0 }
    pub fn insert<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 |= o.into().0 }
    pub fn remove<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 &= !o.into().0 }
    pub fn toggle<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 ^= o.into().0 }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn is_all(self) -> bool { self.0 == Self::ALL.0 }
    pub fn len(self) -> usize { self.0.count_ones() as usize }
    pub fn iter(self) -> Iter<T> { Iter(self, 0) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { BitFlags(t.bit(), PhantomData) } }
impl<T: BitFlag> core::ops::BitOr for BitFlags<T> { type Output = Self; fn bitor(self, o: Self) -> Self { BitFlags(self.0 | o.0, PhantomData) } }
impl<T: BitFlag> core::ops::BitAnd for BitFlags<T> { type Output = Self; fn bitand(self, o: Self) -> Self { BitFlags(self.0 & o.0, PhantomData) } }
impl<T: BitFlag> core::ops::BitOrAssign<T> for BitFlags<T> { fn bitor_assign(&mut self, o: T) { self.0 |= o.bit() } }
pub struct Iter<T>(BitFlags<T>, usize);
impl<T: BitFlag> Iterator for Iter<T> { type Item = T; fn next(&mut self) -> Option<T> { while self.1 < T::COUNT { let v = T::ALL_VARIANTS[self.1]; self.1 += 1; if self.0 .0 & v.bit() != 0 { return Some(v); } } None } }
impl<T: BitFlag> crate::nd::Nd for BitFlags<T> { fn dup(&self) -> Self { BitFlags(self.0, PhantomData) } fn nd() -> Self { let x: u64 = <u8 as crate::nd::Nd>::nd() as u64; BitFlags(x & BitFlags::<T>::ALL.0, PhantomData) } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut b = Self::EMPTY; for x in i { b.insert(x) } b } }
