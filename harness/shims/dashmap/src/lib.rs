//! Stand-in for `dashmap` (a list of pairs; single-threaded use only).
use std::{cell::UnsafeCell, ops::{Deref, DerefMut}};
pub struct DashMap<K, V>(UnsafeCell<Vec<(K, V)>>);
unsafe impl<K, V> Send for DashMap<K, V> {}
unsafe impl<K, V> Sync for DashMap<K, V> {}
impl<K, V> Default for DashMap<K, V> { fn default() -> Self { DashMap(UnsafeCell::new(Vec::new())) } }
impl<K: Clone, V: Clone> Clone for DashMap<K, V> { fn clone(&self) -> Self { DashMap(UnsafeCell::new(self.v().clone())) } }
impl<K, V> DashMap<K, V> { #[allow(clippy::mut_from_ref)] fn v(&self) -> &mut Vec<(K, V)> { unsafe { &mut *self.0.get() } } }
pub struct Ref<'a, K, V>(&'a (K, V));
impl<K, V> Deref for Ref<'_, K, V> { type Target = V; fn deref(&self) -> &V { &self.0.1 } }
impl<K, V> Ref<'_, K, V> { pub fn key(&self) -> &K { &self.0.0 } pub fn value(&self) -> &V { &self.0.1 } pub fn pair(&self) -> (&K, &V) { (&self.0.0, &self.0.1) } }
pub struct RefMut<'a, K, V>(&'a mut (K, V));
impl<K, V> Deref for RefMut<'_, K, V> { type Target = V; fn deref(&self) -> &V { &self.0.1 } }
impl<K, V> DerefMut for RefMut<'_, K, V> { fn deref_mut(&mut self) -> &mut V { &mut self.0.1 } }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V>(&'a mut (K, V));
pub struct VacantEntry<'a, K, V>(&'a mut Vec<(K, V)>, K);
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.0.1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.0.1 }
    pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.0.1, v) }
    pub fn key(&self) -> &K { &self.0.0 }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> RefMut<'a, K, V> { self.0.push((self.1, v)); RefMut(self.0.last_mut().unwrap()) }
    pub fn key(&self) -> &K { &self.1 }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> { match self { Entry::Occupied(o) => RefMut(o.0), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V> { self.or_insert_with(|| v) }
    pub fn or_default(self) -> RefMut<'a, K, V> where V: Default { self.or_insert_with(V::default) }
}
impl<K: Eq, V> DashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn get(&self, k: &K) -> Option<Ref<'_, K, V>> { self.v().iter().find(|e| e.0 == *k).map(Ref) }
    pub fn get_mut(&self, k: &K) -> Option<RefMut<'_, K, V>> { self.v().iter_mut().find(|e| e.0 == *k).map(RefMut) }
    pub fn contains_key(&self, k: &K) -> bool { self.v().iter().any(|e| e.0 == *k) }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        match self.v().iter_mut().find(|e| e.0 == k) { Some(e) => Some(std::mem::replace(&mut e.1, v)), None => { self.v().push((k, v)); None } }
    }
    pub fn remove(&self, k: &K) -> Option<(K, V)> { let i = self.v().iter().position(|e| e.0 == *k)?; Some(self.v().remove(i)) }
    pub fn clear(&self) { self.v().clear() }
    pub fn len(&self) -> usize { self.v().len() }
    pub fn is_empty(&self) -> bool { self.v().is_empty() }
    pub fn iter(&self) -> impl Iterator<Item = Ref<'_, K, V>> { self.v().iter().map(Ref) }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) { self.v().retain_mut(|e| f(&e.0, &mut e.1)) }
    pub fn entry(&self, k: K) -> Entry<'_, K, V> {
        match self.v().iter_mut().find(|e| e.0 == k) { Some(e) => Entry::Occupied(OccupiedEntry(e)), None => Entry::Vacant(VacantEntry(self.v(), k)) }
    }
}
pub mod mapref { pub mod one { pub use crate::{Ref, RefMut}; } pub mod entry { pub use crate::{Entry, OccupiedEntry, VacantEntry}; } }
