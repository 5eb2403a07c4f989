//! Symbolic storage: each storage item is an association table that is extended lazily.  A key that
//! was never mentioned before holds an arbitrary value (open world), so a harness starts in an
//! arbitrary state; `closed` maps hold nothing but what was put into them.
use crate::frame_support::traits::{Get, GetDefault};
use crate::nd::{any, assume, copy, limit, Nd};
use crate::vecs::{IntoIter, Vec};
use crate::KeyArg;
use core::marker::PhantomData;

pub trait StorageInstance { const NAME: &'static str; fn slot() -> *mut *mut (); }
const fn parse(s: Option<&str>, d: usize) -> usize { match s { None => d, Some(s) => { let b = s.as_bytes(); let mut i = 0; let mut r = 0; while i < b.len() { r = r * 10 + (b[i] - b'0') as usize; i += 1; } r } } }
/// keys per storage item (symbolically)
pub const CAP: usize = parse(option_env!("MF_CAP"), 3);
/// number of entries drawn when an open map (or a prefix of it) is iterated
pub static mut ITER_MAX: usize = 2;
pub fn set_iter_max(n: usize) { unsafe { ITER_MAX = n } }
/// maps created while this is set start closed (empty)
pub static mut CLOSED_WORLD: bool = false;
pub fn closed_world(b: bool) { unsafe { CLOSED_WORLD = b } }

/// Slot `i` holds the `i`-th key mentioned; its (arbitrary) original value is drawn up front, and the
/// first mention of a key only fixes which key it belongs to.
pub struct Slots<K, V> { n: usize, k: Arr<K>, has: [bool; CAP], v: Arr<V>, ohas: [bool; CAP], o: Arr<V> }
#[cfg(kani)]
pub type Arr<T> = core::mem::ManuallyDrop<[T; CAP]>;
#[cfg(kani)]
fn arr_garbage<T>() -> Arr<T> { core::mem::ManuallyDrop::new(crate::av::garbage()) }
#[cfg(not(kani))]
pub type Arr<T> = Vec<T>;
impl<K: Nd, V: Nd> Slots<K, V> {
    #[cfg(kani)]
    fn new() -> Self {
        let mut s = Slots { n: 0, k: arr_garbage(), has: [false; CAP], v: arr_garbage(), ohas: [false; CAP], o: arr_garbage() };
        let mut i = 0;
        while i < CAP { s.draw(i); i += 1; }
        s
    }
    #[cfg(not(kani))]
    fn new() -> Self { let mut s = Slots { n: 0, k: Vec::new(), has: [false; CAP], v: Vec::new(), ohas: [false; CAP], o: Vec::new() }; let mut i = 0; while i < CAP { s.draw(i); i += 1; } s }
    #[cfg(kani)]
    #[inline(always)] fn draw(&mut self, i: usize) { let h: bool = any(); let v = V::nd(); unsafe { core::ptr::write(&mut self.o[i], copy(&v)); core::ptr::write(&mut self.v[i], v); } self.has[i] = h; self.ohas[i] = h; }
    #[cfg(not(kani))]
    fn draw(&mut self, i: usize) { let h: bool = any(); let v = V::nd(); self.o.push(v.dup()); self.v.push(v); self.has[i] = h; self.ohas[i] = h; }
    #[inline(always)] fn n(&self) -> usize { CAP }
    #[inline(always)] fn used(&self, i: usize) -> bool { i < self.n }
    /// slot of a new key; `closed`: the key is absent
    fn add(&mut self, k: K, closed: bool) {
        if self.n >= CAP { limit("storage entries") }
        #[cfg(kani)]
        { let mut i = 0; while i < CAP { if i == self.n { unsafe { core::ptr::write(&mut self.k[i], k); } if closed { self.has[i] = false; self.ohas[i] = false; } break; } i += 1; } }
        #[cfg(not(kani))]
        { let i = self.n; self.k.push(k); if closed { self.has[i] = false; self.ohas[i] = false; } }
        self.n += 1;
    }
    #[inline(always)] fn get(&self, i: usize) -> Option<V> { if self.has[i] { Some(copy(&self.v[i])) } else { None } }
    #[inline(always)] fn get0(&self, i: usize) -> Option<V> { if self.ohas[i] { Some(copy(&self.o[i])) } else { None } }
    #[inline(always)] fn set(&mut self, i: usize, v: Option<V>) {
        #[cfg(kani)] { match v { Some(v) => { unsafe { core::ptr::write(&mut self.v[i], v); } self.has[i] = true } None => self.has[i] = false } }
        #[cfg(not(kani))] { match v { Some(v) => { self.v[i] = v; self.has[i] = true } None => self.has[i] = false } }
    }
    #[inline(always)] fn set0(&mut self, i: usize, v: Option<V>) {
        #[cfg(kani)] { match v { Some(v) => { unsafe { core::ptr::write(&mut self.o[i], v); } self.ohas[i] = true } None => self.ohas[i] = false } }
        #[cfg(not(kani))] { match v { Some(v) => { self.o[i] = v; self.ohas[i] = true } None => self.ohas[i] = false } }
    }
    fn dup(&self) -> Self {
        #[cfg(kani)] { limit("slots copy") }
        #[cfg(not(kani))] { Slots { n: self.n, k: self.k.iter().map(|x| x.dup()).collect(), has: self.has, v: self.v.iter().map(|x| x.dup()).collect(), ohas: self.ohas, o: self.o.iter().map(|x| x.dup()).collect() } }
    }
}
/// key prefixes under which nothing more exists
pub struct Keys<K> { n: usize, k: Arr<K> }
impl<K: Nd> Keys<K> {
    #[cfg(kani)] fn new() -> Self { Keys { n: 0, k: arr_garbage() } }
    #[cfg(not(kani))] fn new() -> Self { Keys { n: 0, k: Vec::new() } }
    #[inline(always)] fn used(&self, i: usize) -> bool { i < self.n }
    fn add(&mut self, k: K) {
        if self.n >= CAP { limit("storage prefixes") }
        #[cfg(kani)] { let mut i = 0; while i < CAP { if i == self.n { unsafe { core::ptr::write(&mut self.k[i], k); } break; } i += 1; } }
        #[cfg(not(kani))] { self.k.push(k); }
        self.n += 1;
    }
    #[cfg(not(kani))] fn dup(&self) -> Self { Keys { n: self.n, k: self.k.iter().map(|x| x.dup()).collect() } }
}
pub struct Model<K, V> { pub s: Slots<K, V>, pub open: bool, pub closed_prefix: Keys<K> }

// registry of slots (native only: snapshot / reset between histories)
#[cfg(not(kani))]
pub mod registry {
    use std::cell::RefCell;
    pub struct Slot { pub name: &'static str, pub reset: Box<dyn Fn()>, pub snap: Box<dyn Fn() -> Box<dyn Fn()>> }
    thread_local! { pub static SLOTS: RefCell<Vec<Slot>> = const { RefCell::new(Vec::new()) }; }
    pub fn reset_all() { SLOTS.with(|s| for x in s.borrow().iter() { (x.reset)() }); super::extra_reset(); crate::frame_system::reset_native(); }
    pub fn snapshot() -> Vec<Box<dyn Fn()>> { SLOTS.with(|s| s.borrow().iter().map(|x| (x.snap)()).collect()) }
    pub fn restore(s: &Vec<Box<dyn Fn()>>) { for f in s { f() } }
}
#[cfg(not(kani))]
pub fn extra_reset() { crate::arith::memo_reset(); crate::serde_json::reset(); crate::twox_hash::reset(); child::reset(); }

fn create<I: StorageInstance + 'static, K: Nd + Clone + 'static, V: Nd + 'static>() {
    unsafe {
        let s = I::slot();
        let m: Box<Model<K, V>> = Box::new(Model { s: Slots::new(), open: !CLOSED_WORLD, closed_prefix: Keys::new() });
        *s = Box::into_raw(m) as *mut ();
        #[cfg(not(kani))]
        {
            let p = *s as usize;
            registry::SLOTS.with(|sl| sl.borrow_mut().push(registry::Slot {
                name: I::NAME,
                reset: Box::new(move || unsafe { let m = &mut *(p as *mut Model<K, V>); m.s = Slots::new(); m.closed_prefix = Keys::new(); m.open = !CLOSED_WORLD; }),
                snap: Box::new(move || unsafe {
                    let m = &*(p as *mut Model<K, V>);
                    let (e, cp, o) = (m.s.dup(), m.closed_prefix.dup(), m.open);
                    Box::new(move || unsafe { let m = &mut *(p as *mut Model<K, V>); m.s = e.dup(); m.closed_prefix = cp.dup(); m.open = o; })
                }),
            }));
        }
    }
}
fn model<I: StorageInstance + 'static, K: Nd + Clone + 'static, V: Nd + 'static>() -> &'static mut Model<K, V> {
    unsafe {
        let s = I::slot();
        // symbolically every item is created up front (`mf_init`), so that the pointer is constant
        #[cfg(kani)] { if (*s).is_null() { limit("storage item not initialised") } }
        #[cfg(not(kani))] { if (*s).is_null() { create::<I, K, V>() } }
        &mut *(*s as *mut Model<K, V>)
    }
}
impl<K: PartialEq + Nd + Clone, V: Nd> Model<K, V> {
    /// make sure `k` has a slot; absent if the map (or the prefix) is closed
    fn touch(&mut self, k: &K, same_prefix: fn(&K, &K) -> bool) {
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { return; } i += 1; }
        let mut closed = !self.open;
        let mut j = 0;
        while j < CAP { if self.closed_prefix.used(j) && same_prefix(&self.closed_prefix.k[j], k) { closed = true; } j += 1; }
        self.s.add(copy(k), closed);
    }
    fn load(&mut self, k: &K, sp: fn(&K, &K) -> bool) -> Option<V> {
        self.touch(k, sp);
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { return self.s.get(i); } i += 1; }
        limit("storage lookup")
    }
    fn present(&mut self, k: &K, sp: fn(&K, &K) -> bool) -> bool {
        self.touch(k, sp);
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { return self.s.has[i]; } i += 1; }
        limit("storage lookup")
    }
    fn store(&mut self, k: &K, v: Option<V>, sp: fn(&K, &K) -> bool) {
        self.touch(k, sp);
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { self.s.set(i, v); return; } i += 1; }
        limit("storage lookup")
    }
    fn load_orig(&mut self, k: &K, sp: fn(&K, &K) -> bool) -> Option<V> {
        self.touch(k, sp);
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { return self.s.get0(i); } i += 1; }
        limit("storage lookup")
    }
    fn force(&mut self, k: &K, v: Option<V>, sp: fn(&K, &K) -> bool) {
        self.touch(k, sp);
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.k[i] == *k { self.s.set0(i, copy(&v)); self.s.set(i, v); return; } i += 1; }
        limit("storage lookup")
    }
    /// present entries selected by `f`, in insertion order
    fn select<F: Fn(&K) -> bool>(&mut self, f: F) -> Vec<(K, V)> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.has[i] && f(&self.s.k[i]) { out.push((copy(&self.s.k[i]), copy(&self.s.v[i]))); } i += 1; }
        out
    }
    fn select_keys<F: Fn(&K) -> bool>(&mut self, f: F) -> Vec<K> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < CAP { if self.s.used(i) && self.s.has[i] && f(&self.s.k[i]) { out.push(copy(&self.s.k[i])); } i += 1; }
        out
    }
    fn remove_where<F: Fn(&K) -> bool>(&mut self, f: F) -> u32 {
        let mut c = 0;
        let mut i = 0;
        while i < CAP { if self.s.used(i) && f(&self.s.k[i]) { if self.s.has[i] { c += 1; } self.s.has[i] = false; } i += 1; }
        c
    }
    fn entries(&self) -> Vec<(K, Option<V>, Option<V>)> { let mut o = Vec::new(); let mut i = 0; while i < CAP { if self.s.used(i) { o.push((copy(&self.s.k[i]), self.s.get0(i), self.s.get(i))); } i += 1; } o }
    fn unchanged<F: Fn(&K) -> bool>(&self, f: F) -> bool where V: PartialEq { let mut ok = true; let mut i = 0; while i < CAP { if self.s.used(i) && !f(&self.s.k[i]) { if self.s.has[i] != self.s.ohas[i] || (self.s.has[i] && !(self.s.v[i] == self.s.o[i])) { ok = false; } } i += 1; } ok }
    fn checkpoint(&mut self) { let mut i = 0; while i < CAP { if self.s.used(i) { let v = self.s.get(i); self.s.set0(i, v); } i += 1; } }
    /// further present entries satisfying `sel` (up to ITER_MAX)
    fn draw_more<F: Fn(&K) -> bool, G: Fn(K) -> K>(&mut self, sel: F, fix: G) {
        let n = unsafe { ITER_MAX };
        let mut i = 0;
        while i < n {
            let more: bool = any();
            let k = fix(K::nd());
            if more {
                assume(sel(&k));
                let mut j = 0;
                while j < CAP { if self.s.used(j) { assume(!(self.s.k[j] == k)); } j += 1; }
                self.s.add(k, false);
                let mut j = 0;
                while j < CAP { if j + 1 == self.s.n { assume(self.s.has[j]); } j += 1; }
            }
            i += 1;
        }
    }
}
fn never<K>(_: &K, _: &K) -> bool { false }

pub struct OptionQuery; pub struct ValueQuery; pub struct ResultQuery<E>(PhantomData<E>);
pub trait QueryKindTrait<V, E> { type Query; fn to_query(v: Option<V>) -> Self::Query; fn from_query(q: Self::Query) -> Option<V>; }
impl<V, E: Get<Option<V>>> QueryKindTrait<V, E> for OptionQuery { type Query = Option<V>; fn to_query(v: Option<V>) -> Option<V> { v.or_else(|| E::get()) } fn from_query(q: Option<V>) -> Option<V> { q } }
impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery { type Query = V; fn to_query(v: Option<V>) -> V { match v { Some(v) => v, None => E::get() } } fn from_query(q: V) -> Option<V> { Some(q) } }

pub trait Val: Nd + 'static {}
impl<T: Nd + 'static> Val for T {}
pub trait KeyT: Clone + PartialEq + Nd + 'static {}
impl<T: Clone + PartialEq + Nd + 'static> KeyT for T {}
pub trait TryAppend<T> { fn try_append_one(&mut self, t: T) -> Result<(), ()>; }
impl<T, S: Get<u32>> TryAppend<T> for crate::bounded::BoundedVec<T, S> { fn try_append_one(&mut self, t: T) -> Result<(), ()> { self.try_push(t).map_err(|_| ()) } }
#[derive(Clone)]
pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
fn removed(n: u32) -> MultiRemovalResults { MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n } }

/// the operations common to all kinds of storage item, over a whole key
macro_rules! common { ($K:ty, [$($g:tt)*], ($($a:ident : $t:ty),*), $mk:expr, $sp:expr) => {
    fn m() -> &'static mut Model<$K, V> { model::<I, $K, V>() }
    #[doc(hidden)] pub fn mf_init() { create::<I, $K, V>() }
    pub fn get<$($g)*>($($a: $t),*) -> Q::Query { let k = $mk; Q::to_query(Self::m().load(&k, $sp)) }
    pub fn try_get<$($g)*>($($a: $t),*) -> Result<V, ()> { let k = $mk; Self::m().load(&k, $sp).ok_or(()) }
    pub fn remove<$($g)*>($($a: $t),*) { let k = $mk; Self::m().store(&k, None, $sp) }
    pub fn take<$($g)*>($($a: $t),*) -> Q::Query { let k = $mk; let v = Self::m().load(&k, $sp); Self::m().store(&k, None, $sp); Q::to_query(v) }
    pub fn set<$($g)*>($($a: $t,)* q: Q::Query) { let k = $mk; Self::m().store(&k, Q::from_query(q), $sp) }
    /// harness access: raw value, value before the call, initial value
    pub fn raw<$($g)*>($($a: $t),*) -> Option<V> { let k = $mk; Self::m().load(&k, $sp) }
    pub fn orig<$($g)*>($($a: $t),*) -> Option<V> { let k = $mk; Self::m().load_orig(&k, $sp) }
    pub fn raw_set<$($g)*>($($a: $t,)* v: Option<V>) { let k = $mk; Self::m().force(&k, v, $sp) }
    pub fn touched() -> Vec<($K, Option<V>, Option<V>)> { Self::m().entries() }
    pub fn checkpoint() { Self::m().checkpoint() }
} }
macro_rules! muts { ($K:ty, [$($g:ident : $b:path),*], ($($a:ident : $t:ty),*), $mk:expr, $sp:expr) => {
    pub fn mutate<$($g: $b,)* R, F: FnOnce(&mut Q::Query) -> R>($($a: $t,)* f: F) -> R { let k = $mk; let mut q = Q::to_query(Self::m().load(&k, $sp)); let r = f(&mut q); Self::m().store(&k, Q::from_query(q), $sp); r }
    pub fn try_mutate<$($g: $b,)* R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>($($a: $t,)* f: F) -> Result<R, X> { let k = $mk; let mut q = Q::to_query(Self::m().load(&k, $sp)); let r = f(&mut q); if r.is_ok() { Self::m().store(&k, Q::from_query(q), $sp); } r }
    pub fn mutate_exists<$($g: $b,)* R, F: FnOnce(&mut Option<V>) -> R>($($a: $t,)* f: F) -> R { let k = $mk; let mut q = Self::m().load(&k, $sp); let r = f(&mut q); Self::m().store(&k, q, $sp); r }
    pub fn try_mutate_exists<$($g: $b,)* R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>($($a: $t,)* f: F) -> Result<R, X> { let k = $mk; let mut q = Self::m().load(&k, $sp); let r = f(&mut q); if r.is_ok() { Self::m().store(&k, q, $sp); } r }
    pub fn mutate_extant<$($g: $b,)* R: Default, F: FnOnce(&mut V) -> R>($($a: $t,)* f: F) -> R { let k = $mk; match Self::m().load(&k, $sp) { Some(mut v) => { let r = f(&mut v); Self::m().store(&k, Some(v), $sp); r } None => R::default() } }
    pub fn try_append<$($g: $b,)* TT>($($a: $t,)* t: TT) -> Result<(), ()> where V: Default + TryAppend<TT> { let k = $mk; let mut v = Self::m().load(&k, $sp).unwrap_or_default(); v.try_append_one(t)?; Self::m().store(&k, Some(v), $sp); Ok(()) }
    pub fn append<$($g: $b,)* TT>($($a: $t,)* t: TT) where V: Default + Extend<TT> { let k = $mk; let mut v = Self::m().load(&k, $sp).unwrap_or_default(); v.extend(Some(t)); Self::m().store(&k, Some(v), $sp) }
} }

// ------------------------------------------------------------------ value
pub struct StorageValue<I, V, Q = OptionQuery, E = GetDefault>(PhantomData<(I, V, Q, E)>);
impl<I: StorageInstance + 'static, V: Val, Q: QueryKindTrait<V, E>, E> StorageValue<I, V, Q, E> {
    common!(u8, [], (), 0u8, never);
    muts!(u8, [], (), 0u8, never);
    pub fn exists() -> bool { Self::m().present(&0u8, never) }
    pub fn is_unchanged() -> bool where V: PartialEq { Self::m().unchanged(|_| false) }
    pub fn put<A: core::borrow::Borrow<V>>(v: A) { Self::m().store(&0u8, Some(copy(&v.borrow())), never) }
    pub fn kill() { Self::remove() }
}
// ------------------------------------------------------------------ map
pub struct StorageMap<I, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(I, H, K, V, Q, E, M)>);
pub type CountedStorageMap<I, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault> = StorageMap<I, H, K, V, Q, E, M>;
impl<I: StorageInstance + 'static, H, K: KeyT, V: Val, Q: QueryKindTrait<V, E>, E, M> StorageMap<I, H, K, V, Q, E, M> {
    common!(K, [A: KeyArg<K>], (a: A), a.key(), never);
    muts!(K, [A: KeyArg<K>], (a: A), a.key(), never);
    pub fn contains_key<A: KeyArg<K>>(a: A) -> bool { Self::m().present(&a.key(), never) }
    pub fn insert<A: KeyArg<K>, B: core::borrow::Borrow<V>>(a: A, v: B) { Self::m().store(&a.key(), Some(copy(&v.borrow())), never) }
    pub fn swap<A: KeyArg<K>, B: KeyArg<K>>(a: A, b: B) { let (a, b) = (a.key(), b.key()); let x = Self::m().load(&a, never); let y = Self::m().load(&b, never); Self::m().store(&a, y, never); Self::m().store(&b, x, never); }
    fn close() { let m = Self::m(); if m.open { m.draw_more(|_| true, |k| k); m.open = false; } }
    pub fn iter() -> IntoIter<(K, V)> { Self::close(); Self::m().select(|_| true).into_iter() }
    pub fn iter_keys() -> impl Iterator<Item = K> { Self::iter().map(|(k, _)| k) }
    pub fn iter_values() -> impl Iterator<Item = V> { Self::iter().map(|(_, v)| v) }
    pub fn drain() -> IntoIter<(K, V)> { let v = Self::iter(); Self::m().remove_where(|_| true); v }
    pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { Self::close(); removed(Self::m().remove_where(|_| true)) }
    pub fn count() -> u32 { Self::close(); Self::m().select(|_| true).len() as u32 }
    pub fn unchanged_except<F: Fn(&K) -> bool>(f: F) -> bool where V: PartialEq { Self::m().unchanged(f) }
}
// ------------------------------------------------------------------ double map
pub struct StorageDoubleMap<I, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(I, H1, K1, H2, K2, V, Q, E, M)>);
impl<I: StorageInstance + 'static, H1, K1: KeyT, H2, K2: KeyT, V: Val, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<I, H1, K1, H2, K2, V, Q, E, M> {
    fn same(a: &(K1, K2), b: &(K1, K2)) -> bool { a.0 == b.0 }
    common!((K1, K2), [A: KeyArg<K1>, B: KeyArg<K2>], (a: A, b: B), (a.key(), b.key()), Self::same);
    muts!((K1, K2), [A: KeyArg<K1>, B: KeyArg<K2>], (a: A, b: B), (a.key(), b.key()), Self::same);
    pub fn contains_key<A: KeyArg<K1>, B: KeyArg<K2>>(a: A, b: B) -> bool { Self::m().present(&(a.key(), b.key()), Self::same) }
    pub fn insert<A: KeyArg<K1>, B: KeyArg<K2>, C: core::borrow::Borrow<V>>(a: A, b: B, v: C) { Self::m().store(&(a.key(), b.key()), Some(copy(&v.borrow())), Self::same) }
    fn close(p: &K1) {
        let m = Self::m();
        if !m.open { return; }
        let mut j = 0;
        while j < CAP { if m.closed_prefix.used(j) && m.closed_prefix.k[j].0 == *p { return; } j += 1; }
        m.draw_more(|k| k.0 == *p, |k| (copy(&p), k.1));
        let k2 = K2::nd();
        m.closed_prefix.add((copy(p), k2));
    }
    pub fn iter_prefix<A: KeyArg<K1>>(p: A) -> IntoIter<(K2, V)> { let p = p.key(); Self::close(&p); let mut o = Vec::new(); for ((_, k), v) in Self::m().select(|k| k.0 == p) { o.push((k, v)) } o.into_iter() }
    pub fn iter_prefix_values<A: KeyArg<K1>>(p: A) -> IntoIter<V> { let mut o = Vec::new(); for (_, v) in Self::iter_prefix(p) { o.push(v) } o.into_iter() }
    pub fn iter_key_prefix<A: KeyArg<K1>>(p: A) -> IntoIter<K2> { let p = p.key(); Self::close(&p); let mut o = Vec::new(); for (_, k) in Self::m().select_keys(|k| k.0 == p) { o.push(k) } o.into_iter() }
    pub fn drain_prefix<A: KeyArg<K1>>(p: A) -> IntoIter<(K2, V)> { let p = p.key(); let v = Self::iter_prefix(copy(&p)); Self::m().remove_where(|k| k.0 == p); v }
    pub fn clear_prefix<A: KeyArg<K1>>(p: A, _limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { let p = p.key(); Self::close(&p); removed(Self::m().remove_where(|k| k.0 == p)) }
    pub fn contains_prefix<A: KeyArg<K1>>(p: A) -> bool { Self::iter_prefix(p).next().is_some() }
    pub fn iter() -> IntoIter<(K1, K2, V)> { let m = Self::m(); if m.open { m.draw_more(|_| true, |k| k); m.open = false; } let mut o = Vec::new(); for ((a, b), v) in m.select(|_| true) { o.push((a, b, v)) } o.into_iter() }
    pub fn unchanged_except<F: Fn(&K1, &K2) -> bool>(f: F) -> bool where V: PartialEq { Self::m().unchanged(|k| f(&k.0, &k.1)) }
}

// ------------------------------------------------------------------ n map
pub struct Key<H, K>(PhantomData<(H, K)>);
pub type NMapKey<H, K> = Key<H, K>;
pub trait KeyGen { type Key: KeyT; }
impl<H, A: KeyT> KeyGen for Key<H, A> { type Key = A; }
macro_rules! kg { ($(($($h:ident $k:ident),*)),*) => { $(impl<$($h, $k: KeyT),*> KeyGen for ($(Key<$h, $k>,)*) { type Key = ($($k,)*); })* } }
kg!((H1 A, H2 B), (H1 A, H2 B, H3 C), (H1 A, H2 B, H3 C, H4 D));
pub trait NArg<K> { fn nkey(self) -> K; }
impl<A, B, X: KeyArg<A>, Y: KeyArg<B>> NArg<(A, B)> for (X, Y) { fn nkey(self) -> (A, B) { (self.0.key(), self.1.key()) } }
impl<A, B, C, X: KeyArg<A>, Y: KeyArg<B>, Z: KeyArg<C>> NArg<(A, B, C)> for (X, Y, Z) { fn nkey(self) -> (A, B, C) { (self.0.key(), self.1.key(), self.2.key()) } }
/// key prefixes of a 3-map
pub trait PArg<K> { type Suffix; fn matches(&self, k: &K) -> bool; fn suffix(k: &K) -> Self::Suffix; fn fix(&self, k: K) -> K; }
impl<A: KeyT, B: KeyT, C: KeyT> PArg<(A, B, C)> for (A,) { type Suffix = (B, C); fn matches(&self, k: &(A, B, C)) -> bool { k.0 == self.0 } fn suffix(k: &(A, B, C)) -> (B, C) { (k.1.dup(), k.2.dup()) } fn fix(&self, k: (A, B, C)) -> (A, B, C) { (self.0.dup(), k.1, k.2) } }
impl<A: KeyT, B: KeyT, C: KeyT> PArg<(A, B, C)> for (A, B) { type Suffix = C; fn matches(&self, k: &(A, B, C)) -> bool { k.0 == self.0 && k.1 == self.1 } fn suffix(k: &(A, B, C)) -> C { k.2.dup() } fn fix(&self, k: (A, B, C)) -> (A, B, C) { (self.0.dup(), self.1.dup(), k.2) } }
pub struct StorageNMap<I, KG, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(I, KG, V, Q, E, M)>);
impl<I: StorageInstance + 'static, KG: KeyGen, V: Val, Q: QueryKindTrait<V, E>, E, M> StorageNMap<I, KG, V, Q, E, M> {
    common!(KG::Key, [A: NArg<KG::Key>], (a: A), a.nkey(), never);
    muts!(KG::Key, [A: NArg<KG::Key>], (a: A), a.nkey(), never);
    pub fn contains_key<A: NArg<KG::Key>>(a: A) -> bool { Self::m().present(&a.nkey(), never) }
    pub fn insert<A: NArg<KG::Key>, B: core::borrow::Borrow<V>>(a: A, v: B) { Self::m().store(&a.nkey(), Some(copy(&v.borrow())), never) }
    /// an open map may hold further entries under the prefix: up to ITER_MAX are drawn, then the
    /// whole map is closed
    pub fn iter_prefix<P: PArg<KG::Key>>(p: P) -> IntoIter<(P::Suffix, V)> { let m = Self::m(); if m.open { m.draw_more(|k| p.matches(k), |k| p.fix(k)); m.open = false; } let mut o = Vec::new(); for (k, v) in m.select(|k| p.matches(k)) { o.push((P::suffix(&k), v)) } o.into_iter() }
    pub fn iter_prefix_values<P: PArg<KG::Key>>(p: P) -> IntoIter<V> { let mut o = Vec::new(); for (_, v) in Self::iter_prefix(p) { o.push(v) } o.into_iter() }
    pub fn iter_key_prefix<P: PArg<KG::Key>>(p: P) -> IntoIter<P::Suffix> { let mut o = Vec::new(); for (k, _) in Self::iter_prefix(p) { o.push(k) } o.into_iter() }
    pub fn iter() -> IntoIter<(KG::Key, V)> { let m = Self::m(); if m.open { m.draw_more(|_| true, |k| k); m.open = false; } m.select(|_| true).into_iter() }
    pub fn unchanged_except<F: Fn(&KG::Key) -> bool>(f: F) -> bool where V: PartialEq { Self::m().unchanged(f) }
}
pub mod generator { }
pub mod child;
/// child-trie prefix iteration
pub struct ChildTriePrefixIterator<T>(pub IntoIter<T>);
impl<V: crate::codec::Decode> ChildTriePrefixIterator<(Vec<u8>, V)> {
    pub fn with_prefix(c: &child::ChildInfo, p: &[u8]) -> Self {
        let mut o = Vec::new();
        for (k, v) in child::entries(c) { if k.len() >= p.len() && &k[..p.len()] == p { if let Ok(v) = V::decode(&mut &v[..]) { o.push((Vec::from(&k[p.len()..]), v)) } } }
        ChildTriePrefixIterator(o.into_iter())
    }
}
impl<T> Iterator for ChildTriePrefixIterator<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
