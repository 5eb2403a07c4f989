//! the vector type of `sp_std`: inline vectors under Kani, std vectors natively
#[cfg(any(kani, mf_av))] pub use crate::av::{IntoIter, Iter, IterMut, AV as Vec};
#[cfg(not(any(kani, mf_av)))] pub use {std::vec::{IntoIter, Vec}, core::slice::{Iter, IterMut}};
/// loop bound for a vector of length `n`
#[cfg(any(kani, mf_av))] #[inline(always)] pub fn bound(_n: usize) -> usize { crate::av::N }
#[cfg(not(any(kani, mf_av)))] pub fn bound(n: usize) -> usize { n }
/// stands in for the inherent `to_vec` / `concat` of slices
pub trait MfSlice { type T; fn mf_to_vec(&self) -> Vec<Self::T> where Self::T: Clone; fn mf_concat<U: Clone>(&self) -> Vec<U> where Self::T: AsRef<[U]>; }
impl<T> MfSlice for [T] {
    type T = T;
    fn mf_to_vec(&self) -> Vec<T> where T: Clone { Vec::from(self) }
    fn mf_concat<U: Clone>(&self) -> Vec<U> where T: AsRef<[U]> { if cfg!(mf_tok) { return Vec::new(); } let mut v = Vec::new(); for x in self { v.extend_from_slice(x.as_ref()) } v }
}

/// a vector in a `static`
#[cfg(not(kani))]
pub struct Lazy<T>(Option<Vec<T>>);
#[cfg(not(kani))]
impl<T> Lazy<T> {
    pub const fn new() -> Self { Lazy(None) }
    pub fn len(&self) -> usize { match &self.0 { Some(v) => v.len(), None => 0 } }
    pub fn push(&mut self, t: T) { self.0.get_or_insert_with(Vec::new).push(t) }
    pub fn clear(&mut self) { self.0 = None }
    pub fn at(&self, i: usize) -> &T { match &self.0 { Some(v) => &v[i], None => unreachable!() } }
    pub fn at_mut(&mut self, i: usize) -> &mut T { match &mut self.0 { Some(v) => &mut v[i], None => unreachable!() } }
}
#[cfg(kani)]
pub struct Lazy<T> { n: usize, a: [Option<T>; 6] }
#[cfg(kani)]
impl<T> Lazy<T> {
    pub const fn new() -> Self { Lazy { n: 0, a: [const { None }; 6] } }
    pub fn len(&self) -> usize { self.n }
    pub fn push(&mut self, t: T) { if self.n >= 6 { crate::nd::limit("lazy") } self.a[self.n] = Some(t); self.n += 1; }
    pub fn clear(&mut self) { self.n = 0; }
    pub fn at(&self, i: usize) -> &T { match &self.a[i] { Some(t) => t, None => unreachable!() } }
    pub fn at_mut(&mut self, i: usize) -> &mut T { match &mut self.a[i] { Some(t) => t, None => unreachable!() } }
}
impl<T> core::ops::Index<usize> for Lazy<T> { type Output = T; fn index(&self, i: usize) -> &T { self.at(i) } }
impl<T> core::ops::IndexMut<usize> for Lazy<T> { fn index_mut(&mut self, i: usize) -> &mut T { self.at_mut(i) } }
/// a dynamic vector in a `static` (native uses only)
pub struct Dyn<T>(Option<Vec<T>>);
impl<T> Dyn<T> { pub const fn new() -> Self { Dyn(None) } }
impl<T> core::ops::Deref for Dyn<T> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { if self.0.is_none() { unsafe { (*(self as *const Self as *mut Self)).0 = Some(Vec::new()) } } match &self.0 { Some(v) => v, None => unreachable!() } } }
impl<T> core::ops::DerefMut for Dyn<T> { fn deref_mut(&mut self) -> &mut Vec<T> { if self.0.is_none() { self.0 = Some(Vec::new()) } match &mut self.0 { Some(v) => v, None => unreachable!() } } }
