//! `Vec` for symbolic execution: same interface, inline storage, fixed maximum length `N`.
//! (Natively `sp_std::vec::Vec` is the real `Vec`.)  Exceeding `N` is reported as MF-LIMIT, never
//! silently truncated.
use crate::nd::{limit, Nd};
use core::mem::{ManuallyDrop, MaybeUninit};
pub const fn parse(s: Option<&str>, d: usize) -> usize { match s { None => d, Some(s) => { let b = s.as_bytes(); let mut i = 0; let mut r = 0; while i < b.len() { r = r * 10 + (b[i] - b'0') as usize; i += 1; } r } } }
pub const N: usize = parse(option_env!("MF_N"), 8);
/// number of elements drawn for an arbitrary vector (a replay on native code has room for more)
pub const ND: usize = parse(option_env!("MF_ND"), N);
/// (no `MaybeUninit` under Kani: CBMC loses writes to unions nested in an `Option`)
/// (`UnsafeCell` hides the niches of `T`, so that an unused cell never looks like the `None` of an `Option<AV<T>>`)
#[cfg(kani)] type Cell<T> = core::cell::UnsafeCell<ManuallyDrop<T>>;
#[cfg(not(kani))] type Cell<T> = MaybeUninit<T>;
#[cfg(kani)] #[inline(always)] fn cell<T>(t: T) -> Cell<T> { core::cell::UnsafeCell::new(ManuallyDrop::new(t)) }
#[cfg(not(kani))] #[inline(always)] fn cell<T>(t: T) -> Cell<T> { Cell::<T>::new(t) }
pub struct AV<T> { len: usize, a: [Cell<T>; N] }
impl<T: Nd> AV<T> {
    pub fn nd_max(max: usize) -> Self {
        let cap = unsafe { crate::nd::ND_LEN };
        let max = if max < cap { max } else { cap };
        if max > ND { limit("vector length") }
        let mut v = Self::new();
        let mut i = 0;
        while i < ND { if i < max { v.put(i, T::nd()); } i += 1; }
        let n: u8 = crate::nd::any();
        crate::nd::assume(n as usize <= max);
        v.len = n as usize;
        v
    }
}
#[cfg(kani)]
#[kanitool::fn_marker = "AnyRawHook"]
#[inline(never)]
pub const fn garbage<T>() -> T { loop {} }
#[cfg(not(kani))]
#[inline(always)]
pub const fn garbage<T>() -> T { unsafe { MaybeUninit::<T>::uninit().assume_init() } }
impl<T> AV<T> {
    #[cfg(not(kani))] pub const fn new() -> Self { AV { len: 0, a: [const { MaybeUninit::uninit() }; N] } }
    #[cfg(kani)] pub const fn new() -> Self { AV { len: 0, a: garbage() } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn capacity(&self) -> usize { N }
    pub fn reserve(&mut self, _n: usize) {}
    fn put(&mut self, i: usize, t: T) { self.a[i] = cell(t) }
    fn take_at(&self, i: usize) -> T { unsafe { (&self.a[i] as *const Cell<T> as *const T).read() } }
    fn at(&self, i: usize) -> &T { unsafe { &*(&self.a[i] as *const Cell<T> as *const T) } }
    fn at_mut(&mut self, i: usize) -> &mut T { unsafe { &mut *(&mut self.a[i] as *mut Cell<T> as *mut T) } }
    pub fn push(&mut self, t: T) { if self.len >= N { limit("vector length") } let l = self.len; self.put(l, t); self.len = l + 1; }
    pub fn pop(&mut self) -> Option<T> { if self.len == 0 { None } else { self.len -= 1; Some(self.take_at(self.len)) } }
    pub fn clear(&mut self) { self.len = 0 }
    pub fn truncate(&mut self, n: usize) { if n < self.len { self.len = n } }
    pub fn as_slice(&self) -> &[T] { unsafe { core::slice::from_raw_parts(self.a.as_ptr() as *const T, self.len) } }
    pub fn as_mut_slice(&mut self) -> &mut [T] { unsafe { core::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.len) } }
    pub fn get_at(&self, i: usize) -> Option<&T> { if i < self.len { Some(self.at(i)) } else { None } }
    pub fn remove(&mut self, i: usize) -> T {
        assert!(i < self.len, "removal index out of bounds");
        let r = self.take_at(i);
        let mut j = 0;
        while j + 1 < N { if j >= i && j + 1 < self.len { let x = self.take_at(j + 1); self.put(j, x); } j += 1; }
        self.len -= 1;
        r
    }
    pub fn swap_remove(&mut self, i: usize) -> T { assert!(i < self.len, "swap_remove index out of bounds"); let r = self.take_at(i); let l = self.len - 1; let x = self.take_at(l); if i != l { self.put(i, x); } self.len = l; r }
    pub fn insert(&mut self, i: usize, t: T) {
        assert!(i <= self.len, "insertion index out of bounds");
        if self.len >= N { limit("vector length") }
        let mut j = N - 1;
        while j > 0 { if j > i && j <= self.len { let x = self.take_at(j - 1); self.put(j, x); } j -= 1; }
        self.put(i, t);
        self.len += 1;
    }
    pub fn append(&mut self, o: &mut Self) { let mut i = 0; while i < N { if i < o.len { self.push(o.take_at(i)); } i += 1; } o.len = 0; }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { let mut o = Self::new(); let mut i = 0; while i < N { if i < self.len && f(self.at(i)) { o.push(self.take_at(i)); } i += 1; } *self = o; }
    pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) { let mut o = Self::new(); let mut i = 0; while i < N { if i < self.len && f(self.at_mut(i)) { o.push(self.take_at(i)); } i += 1; } *self = o; }
    pub fn extend_from_slice(&mut self, s: &[T]) where T: Clone { if s.len() > N { limit("vector length") } let mut i = 0; while i < N { if i < s.len() { self.push(s[i].clone()); } i += 1; } }
    pub fn to_vec(&self) -> Self where T: Clone { self.clone() }
    pub fn iter(&self) -> Iter<'_, T> { Iter { v: self, pos: 0, back: 0 } }
    pub fn contains(&self, x: &T) -> bool where T: PartialEq { let mut r = false; let mut i = 0; while i < N { if i < self.len && self.at(i) == x { r = true; } i += 1; } r }
    pub fn first(&self) -> Option<&T> { self.get_at(0) }
    pub fn last(&self) -> Option<&T> { if self.len == 0 { None } else { Some(self.at(self.len - 1)) } }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> { IterMut { v: self, pos: 0, back: 0 } }
    pub fn into_boxed_slice(self) -> Self { self }
    pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        use core::ops::Bound::*;
        let s = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + 1, Unbounded => 0 };
        let e = match r.end_bound() { Included(x) => *x + 1, Excluded(x) => *x, Unbounded => self.len };
        assert!(s <= e && e <= self.len, "drain range out of bounds");
        let (mut o, mut keep) = (Self::new(), Self::new());
        let mut i = 0;
        while i < N { if i < self.len { if i >= s && i < e { o.push(self.take_at(i)) } else { keep.push(self.take_at(i)) } } i += 1; }
        *self = keep;
        o.into_iter()
    }
    pub fn from_iter_exact<I: Iterator<Item = T>>(i: I) -> Self { let mut o = Self::new(); for x in i { o.push(x) } o }
    pub fn dedup(&mut self) where T: PartialEq + Clone { let mut o: Self = Self::new(); let mut i = 0; while i < N { if i < self.len { let l = o.len; if l == 0 || !(o.at(l - 1) == self.at(i)) { o.push(self.take_at(i)) } } i += 1; } *self = o; }
    pub fn resize(&mut self, n: usize, t: T) where T: Clone { if n > N { limit("vector length") } let mut i = 0; while i < N { if i >= self.len && i < n { self.put(i, t.clone()); } i += 1; } self.len = n; }
    /// the std vector (for the few std interfaces that need one)
    pub fn to_std(&self) -> std::vec::Vec<T> where T: Clone { self.as_slice().iter().cloned().collect() }
    fn isort<F: FnMut(&T, &T) -> bool>(&mut self, mut gt: F) { let mut i = 1; while i < N { if i < self.len { let mut j = i; while j > 0 { if gt(self.at(j - 1), self.at(j)) { let (a, b) = (self.take_at(j - 1), self.take_at(j)); self.put(j - 1, b); self.put(j, a); } j -= 1; } } i += 1; } }
    pub fn sort(&mut self) where T: Ord { self.isort(|a, b| a > b) }
    pub fn sort_unstable(&mut self) where T: Ord { self.isort(|a, b| a > b) }
    pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, mut f: F) { self.isort(|a, b| f(a, b) == core::cmp::Ordering::Greater) }
    pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, mut f: F) { self.isort(|a, b| f(a) > f(b)) }
    pub fn sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, mut f: F) { self.isort(|a, b| f(a) > f(b)) }
}
impl<T> Default for AV<T> { fn default() -> Self { Self::new() } }
impl<T> core::ops::Deref for AV<T> { type Target = [T]; fn deref(&self) -> &[T] { self.as_slice() } }
impl<T> core::ops::DerefMut for AV<T> { fn deref_mut(&mut self) -> &mut [T] { self.as_mut_slice() } }
impl<T, I: core::slice::SliceIndex<[T]>> core::ops::Index<I> for AV<T> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.as_slice()[i] } }
impl<T, I: core::slice::SliceIndex<[T]>> core::ops::IndexMut<I> for AV<T> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.as_mut_slice()[i] } }
impl<T: Clone> Clone for AV<T> { fn clone(&self) -> Self { if cfg!(kani) && !core::mem::needs_drop::<T>() { return unsafe { core::ptr::read(self) }; } let mut o = Self::new(); let mut i = 0; while i < N { if i < self.len { o.put(i, self.at(i).clone()); } i += 1; } o.len = self.len; o } }
#[cfg(any(kani, mf_av))]
impl<T: Nd> Nd for AV<T> {
    fn nd() -> Self { Self::nd_max(usize::MAX) }
    fn dup(&self) -> Self { if cfg!(kani) && !core::mem::needs_drop::<T>() { return unsafe { core::ptr::read(self) }; } let mut o = Self::new(); let mut i = 0; while i < N { if i < self.len { o.put(i, self.at(i).dup()); } i += 1; } o.len = self.len; o }
}
impl<T: PartialEq> PartialEq for AV<T> { fn eq(&self, o: &Self) -> bool { if self.len != o.len { return false; } let mut r = true; let mut i = 0; while i < N { if i < self.len && !(self.at(i) == o.at(i)) { r = false; } i += 1; } r } }
impl<T: Eq> Eq for AV<T> {}
impl<T: PartialEq> PartialEq<[T]> for AV<T> { fn eq(&self, o: &[T]) -> bool { self.as_slice() == o } }
impl<'a, T: PartialEq> PartialEq<&'a [T]> for AV<T> { fn eq(&self, o: &&'a [T]) -> bool { self.as_slice() == *o } }
impl<T: PartialOrd> PartialOrd for AV<T> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.as_slice().partial_cmp(o.as_slice()) } }
impl<T: Ord> Ord for AV<T> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.as_slice().cmp(o.as_slice()) } }
impl<T: core::hash::Hash> core::hash::Hash for AV<T> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.as_slice().hash(h) } }
impl<T> core::fmt::Debug for AV<T> { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl<T> AsRef<[T]> for AV<T> { fn as_ref(&self) -> &[T] { self.as_slice() } }
impl<T> AsRef<AV<T>> for AV<T> { fn as_ref(&self) -> &AV<T> { self } }
impl<T> core::borrow::Borrow<[T]> for AV<T> { fn borrow(&self) -> &[T] { self.as_slice() } }
impl<T> Extend<T> for AV<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for x in i { self.push(x) } } }
impl<'a, T: Clone + 'a> Extend<&'a T> for AV<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { for x in i { self.push(x.clone()) } } }
impl<T> FromIterator<T> for AV<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut o = Self::new(); for x in i { o.push(x) } o } }
impl<T: Clone> From<&[T]> for AV<T> { fn from(s: &[T]) -> Self { let mut o = Self::new(); o.extend_from_slice(s); o } }
impl<T: Clone> From<&AV<T>> for AV<T> { fn from(s: &AV<T>) -> Self { s.clone() } }
impl<T, const M: usize> From<[T; M]> for AV<T> { fn from(s: [T; M]) -> Self { let mut o = Self::new(); for x in s { o.push(x) } o } }
impl<T> From<std::vec::Vec<T>> for AV<T> { fn from(s: std::vec::Vec<T>) -> Self { let mut o = Self::new(); for x in s { o.push(x) } o } }
impl From<&str> for AV<u8> { fn from(s: &str) -> Self { AV::from(s.as_bytes()) } }
impl<T, const M: usize> TryFrom<AV<T>> for [T; M] { type Error = AV<T>; fn try_from(v: AV<T>) -> Result<[T; M], AV<T>> { if v.len == M { Ok(core::array::from_fn(|i| v.take_at(i))) } else { Err(v) } } }
/// iterators count both ends concretely and stop at `N`, so that symbolic execution ends every loop
macro_rules! iter { ([$($g:tt)*] $n:ty, $item:ty, |$s:ident, $i:ident| $get:expr) => {
    impl<$($g)*> Iterator for $n {
        type Item = $item;
        #[inline(always)] fn next(&mut self) -> Option<$item> { let p = self.pos; self.pos = p + 1; if p + self.back < N && p + self.back < self.v.len { let ($s, $i) = (self, p); Some($get) } else { None } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.v.len.saturating_sub(self.pos + self.back); (n, Some(n)) }
    }
    impl<$($g)*> ExactSizeIterator for $n { fn len(&self) -> usize { self.v.len.saturating_sub(self.pos + self.back) } }
    impl<$($g)*> DoubleEndedIterator for $n { fn next_back(&mut self) -> Option<$item> { let b = self.back; self.back = b + 1; if b + self.pos < N && b + self.pos < self.v.len { let i = self.v.len - 1 - b; let ($s, $i) = (self, i); Some($get) } else { None } } }
} }
pub struct IntoIter<T> { v: AV<T>, pos: usize, back: usize }
iter!([T] IntoIter<T>, T, |s, i| s.v.take_at(i));
pub struct Iter<'a, T> { v: &'a AV<T>, pos: usize, back: usize }
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { v: self.v, pos: self.pos, back: self.back } } }
iter!(['a, T] Iter<'a, T>, &'a T, |s, i| s.v.at(i));
pub struct IterMut<'a, T> { v: &'a mut AV<T>, pos: usize, back: usize }
iter!(['a, T] IterMut<'a, T>, &'a mut T, |s, i| unsafe { &mut *(s.v.at_mut(i) as *mut T) });
impl<T> IntoIterator for AV<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { v: self, pos: 0, back: 0 } } }
impl<'a, T> IntoIterator for &'a AV<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, T> IntoIterator for &'a mut AV<T> { type Item = &'a mut T; type IntoIter = IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
#[macro_export] macro_rules! av_vec {
    () => { $crate::av::AV::new() };
    ($e:expr; $n:expr) => {{ let mut v = $crate::av::AV::new(); v.resize($n, $e); v }};
    ($($x:expr),+ $(,)?) => { $crate::av::AV::from([$($x),+]) };
}
