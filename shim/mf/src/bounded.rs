//! bounded-collections surface.
use crate::codec::*;
use crate::frame_support::traits::Get;
use crate::nd::Nd;
use core::marker::PhantomData;
use crate::vecs::Vec;

pub struct BoundedVec<T, S>(pub Vec<T>, pub PhantomData<S>);
impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { BoundedVec(self.0.clone(), PhantomData) } }
impl<T: PartialEq, A, B> PartialEq<BoundedVec<T, B>> for BoundedVec<T, A> { fn eq(&self, o: &BoundedVec<T, B>) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { self.0 == *o } }
impl<T: PartialEq, S> PartialEq<BoundedVec<T, S>> for Vec<T> { fn eq(&self, o: &BoundedVec<T, S>) -> bool { o.0 == *self } }
impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for BoundedVec<T, S> { fn eq(&self, o: &&'a [T]) -> bool { self.0.as_slice() == *o } }
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl<T: Ord, S> Ord for BoundedVec<T, S> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T: core::hash::Hash, S> core::hash::Hash for BoundedVec<T, S> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { BoundedVec(Vec::new(), PhantomData) } }
impl<T, S> core::ops::Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, S, I: core::slice::SliceIndex<[T]>> core::ops::Index<I> for BoundedVec<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl<T, S, I: core::slice::SliceIndex<[T]>> core::ops::IndexMut<I> for BoundedVec<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, S> AsMut<[T]> for BoundedVec<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T, S> From<BoundedVec<T, S>> for Vec<T> { fn from(b: BoundedVec<T, S>) -> Vec<T> { b.0 } }
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(BoundedVec(v, PhantomData)) } else { Err(v) } } }
impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = crate::vecs::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> { type Item = &'a T; type IntoIter = crate::vecs::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> { type Item = &'a mut T; type IntoIter = crate::vecs::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<T, S> BoundedVec<T, S> {
    pub fn new() -> Self { Self::default() }
    pub fn into_inner(self) -> Vec<T> { self.0 }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
    pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
    pub fn pop(&mut self) -> Option<T> { self.0.pop() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
    pub fn iter_mut(&mut self) -> crate::vecs::IterMut<'_, T> { self.0.iter_mut() }
    pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
    pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
    pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
    pub fn sort(&mut self) where T: Ord { self.0.sort() }
    pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> crate::vecs::IntoIter<T> { self.0.drain(r).collect::<Vec<T>>().into_iter() }
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
    pub fn bound() -> usize { S::get() as usize }
    pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
    pub fn with_bounded_capacity(n: usize) -> Self { BoundedVec(Vec::with_capacity(n.min(Self::bound())), PhantomData) }
    pub fn with_max_capacity() -> Self { BoundedVec(Vec::with_capacity(Self::bound()), PhantomData) }
    pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); BoundedVec(v, PhantomData) }
    pub fn try_push(&mut self, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(t); Ok(()) } else { Err(t) } }
    pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, t); Ok(()) } else { Err(t) } }
    pub fn force_push(&mut self, t: T) { assert!(self.0.len() < Self::bound()); self.0.push(t) }
    pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len().saturating_add(self.0.len()) <= Self::bound() { self.0.append(o); Ok(()) } else { Err(()) } }
    pub fn try_extend(&mut self, it: impl IntoIterator<Item = T> + ExactLen) -> Result<(), ()> where { let n = it.exact_len(); if n.saturating_add(self.0.len()) <= Self::bound() { self.0.extend(it); Ok(()) } else { Err(()) } }
    pub fn try_mutate(mut self, f: impl FnOnce(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(|| self) }
    pub fn unchecked_from(v: Vec<T>) -> Self { BoundedVec(v, PhantomData) }
    pub fn try_from_vec(v: Vec<T>) -> Result<Self, Vec<T>> { Self::try_from(v) }
}
pub trait ExactLen { fn exact_len(&self) -> usize; }
impl<I: ExactSizeIterator> ExactLen for I { fn exact_len(&self) -> usize { self.len() } }
impl<T: Encode, S> Encode for BoundedVec<T, S> { fn encode_to(&self, o: &mut Vec<u8>) { self.0.encode_to(o) } }
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let v = Vec::<T>::decode(i)?; if v.len() > Self::bound() { return Err("BoundedVec exceeds its limit".into()); } Ok(BoundedVec(v, PhantomData)) } }
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> { fn max_encoded_len() -> usize { (S::get() as usize).saturating_mul(T::max_encoded_len()).saturating_add(4) } }
impl<T: Nd, S: Get<u32>> Nd for BoundedVec<T, S> { fn dup(&self) -> Self { BoundedVec(self.0.dup(), PhantomData) } fn nd() -> Self { BoundedVec(crate::nd::nd_vec_max(S::get() as usize), PhantomData) } }

/// ordered map, sorted-vector representation (so that it is tractable symbolically)
pub struct VecMap<K, V>(pub Vec<(K, V)>);
impl<K: Clone, V: Clone> Clone for VecMap<K, V> { fn clone(&self) -> Self { VecMap(self.0.clone()) } }
impl<K: PartialEq, V: PartialEq> PartialEq for VecMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq, V: Eq> Eq for VecMap<K, V> {}
impl<K: core::fmt::Debug, V: core::fmt::Debug> core::fmt::Debug for VecMap<K, V> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
impl<K, V> Default for VecMap<K, V> { fn default() -> Self { VecMap(Vec::new()) } }
impl<K, V> VecMap<K, V> {
    pub fn new() -> Self { VecMap(Vec::new()) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> MapIter<'_, K, V> { MapIter(self.0.iter()) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ { self.0.iter_mut().map(|(k, v)| (&*k, v)) }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + '_ { self.0.iter().map(|(k, _)| k) }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + '_ { self.0.iter().map(|(_, v)| v) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ { self.0.iter_mut().map(|(_, v)| v) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.0.into_iter().map(|(k, _)| k) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.0.into_iter().map(|(_, v)| v) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.0.retain_mut(|(k, v)| f(k, v)) }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.0.first().map(|(k, v)| (k, v)) }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.0.last().map(|(k, v)| (k, v)) }
}
pub struct MapIter<'a, K, V>(crate::vecs::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for MapIter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(k, v)| (k, v)) } }
impl<'a, K, V> DoubleEndedIterator for MapIter<'a, K, V> { fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back().map(|(k, v)| (k, v)) } }
impl<'a, K, V> ExactSizeIterator for MapIter<'a, K, V> { fn len(&self) -> usize { self.0.len() } }
impl<K: Ord, V> VecMap<K, V> {
    fn pos(&self, k: &K) -> Result<usize, usize> {
        let n = self.0.len(); let m = crate::vecs::bound(n);
        let (mut at, mut hit, mut i) = (0, false, 0);
        while i < m { if i < n { match self.0[i].0.cmp(k) { core::cmp::Ordering::Less => at = i + 1, core::cmp::Ordering::Equal => { at = i; hit = true } _ => {} } } i += 1; }
        if hit { Ok(at) } else { Err(at) }
    }
    pub fn get(&self, k: &K) -> Option<&V> { self.pos(k).ok().map(|i| &self.0[i].1) }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { match self.pos(k) { Ok(i) => Some(&mut self.0[i].1), Err(_) => None } }
    pub fn contains_key(&self, k: &K) -> bool { self.pos(k).is_ok() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { match self.pos(&k) { Ok(i) => Some(core::mem::replace(&mut self.0[i].1, v)), Err(i) => { self.0.insert(i, (k, v)); None } } }
    pub fn remove(&mut self, k: &K) -> Option<V> { match self.pos(k) { Ok(i) => Some(self.0.remove(i).1), Err(_) => None } }
    pub fn entry(&mut self, k: K) -> MapEntry<'_, K, V> { match self.pos(&k) { Ok(i) => MapEntry::Occupied(self, i), Err(i) => MapEntry::Vacant(self, i, k) } }
    pub fn append(&mut self, o: &mut Self) { for (k, v) in o.0.drain(..) { self.insert(k, v); } }
}
pub enum MapEntry<'a, K, V> { Occupied(&'a mut VecMap<K, V>, usize), Vacant(&'a mut VecMap<K, V>, usize, K) }
impl<'a, K, V> MapEntry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { MapEntry::Occupied(m, i) => &mut m.0[i].1, MapEntry::Vacant(m, i, k) => { m.0.insert(i, (k, v)); &mut m.0[i].1 } } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { MapEntry::Occupied(m, i) => &mut m.0[i].1, MapEntry::Vacant(m, i, k) => { m.0.insert(i, (k, f())); &mut m.0[i].1 } } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let MapEntry::Occupied(m, i) = &mut self { f(&mut m.0[*i].1) } self }
}
impl<K, V> IntoIterator for VecMap<K, V> { type Item = (K, V); type IntoIter = crate::vecs::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V> IntoIterator for &'a VecMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = MapIter<'a, K, V>; fn into_iter(self) -> MapIter<'a, K, V> { self.iter() } }
impl<K: Ord, V> FromIterator<(K, V)> for VecMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = VecMap(Vec::new()); for (k, v) in i { m.insert(k, v); } m } }
impl<K: Ord, V> Extend<(K, V)> for VecMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
impl<K: Ord, V, const N: usize> From<[(K, V); N]> for VecMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Encode, V: Encode> Encode for VecMap<K, V> { fn encode_to(&self, o: &mut Vec<u8>) { self.0.encode_to(o) } }
impl<K: Decode + Ord, V: Decode> Decode for VecMap<K, V> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Vec::<(K, V)>::decode(i)?.into_iter().collect()) } }

pub struct BoundedBTreeMap<K, V, S>(pub VecMap<K, V>, pub PhantomData<S>);
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> { fn clone(&self) -> Self { BoundedBTreeMap(self.0.clone(), PhantomData) } }
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for BoundedBTreeMap<K, V, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> { fn default() -> Self { BoundedBTreeMap(VecMap(Vec::new()), PhantomData) } }
impl<K, V, S> core::ops::Deref for BoundedBTreeMap<K, V, S> { type Target = VecMap<K, V>; fn deref(&self) -> &VecMap<K, V> { &self.0 } }
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
    pub fn new() -> Self { Self::default() }
    pub fn into_inner(self) -> VecMap<K, V> { self.0 }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.0.get_mut(k) }
    pub fn remove(&mut self, k: &K) -> Option<V> { self.0.remove(k) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ { self.0.iter_mut() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
    pub fn append(&mut self, o: &mut Self) { self.0.append(&mut o.0) }
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
    pub fn bound() -> usize { S::get() as usize }
    pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
    pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> { if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) } }
    pub fn try_mutate(mut self, f: impl FnOnce(&mut VecMap<K, V>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(|| self) }
    pub fn map<W, F: FnMut((&K, V)) -> W>(self, mut f: F) -> BoundedBTreeMap<K, W, S> { BoundedBTreeMap(VecMap(self.0 .0.into_iter().map(|(k, v)| { let w = f((&k, v)); (k, w) }).collect()), PhantomData) }
}
impl<K: Ord, V, S: Get<u32>> TryFrom<VecMap<K, V>> for BoundedBTreeMap<K, V, S> { type Error = (); fn try_from(v: VecMap<K, V>) -> Result<Self, ()> { if v.len() <= Self::bound() { Ok(BoundedBTreeMap(v, PhantomData)) } else { Err(()) } } }
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> { type Item = (K, V); type IntoIter = crate::vecs::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = MapIter<'a, K, V>; fn into_iter(self) -> MapIter<'a, K, V> { self.0.iter() } }
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> { fn encode_to(&self, o: &mut Vec<u8>) { self.0.encode_to(o) } }
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let m = VecMap::<K, V>::decode(i)?; if m.len() > Self::bound() { return Err("BoundedBTreeMap exceeds its limit".into()); } Ok(BoundedBTreeMap(m, PhantomData)) } }
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> { fn max_encoded_len() -> usize { (S::get() as usize).saturating_mul(K::max_encoded_len().saturating_add(V::max_encoded_len())).saturating_add(4) } }
impl<K: Nd + Ord, V: Nd, S: Get<u32>> Nd for BoundedBTreeMap<K, V, S> {
    fn dup(&self) -> Self { BoundedBTreeMap(VecMap(crate::nd::dup_vec(&self.0 .0)), PhantomData) }
    fn nd() -> Self {
        let v = crate::nd::nd_vec_max::<(K, V)>(S::get() as usize);
        let mut i = 1;
        while i < v.len() { crate::nd::assume(v[i - 1].0 < v[i].0); i += 1; }
        BoundedBTreeMap(VecMap(v), PhantomData)
    }
}
pub trait TryCollect<C> { type Error; fn try_collect(self) -> Result<C, Self::Error>; }
impl<T, S: Get<u32>, I: ExactSizeIterator + Iterator<Item = T>> TryCollect<BoundedVec<T, S>> for I { type Error = &'static str; fn try_collect(self) -> Result<BoundedVec<T, S>, &'static str> { if self.len() > S::get() as usize { Err("iterator length too big") } else { Ok(BoundedVec(self.collect(), PhantomData)) } } }
