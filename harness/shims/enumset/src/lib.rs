//! Stand-in for `enumset`: sets of up to 64 variants.
pub use enumset_derive::EnumSetType;
use std::{fmt, marker::PhantomData, ops};
pub trait EnumSetType: Copy + Eq + 'static { const ALL: &'static [Self]; fn bit(self) -> u32; }
pub struct EnumSet<T>(u64, PhantomData<T>);
impl<T> Clone for EnumSet<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for EnumSet<T> {}
impl<T> PartialEq for EnumSet<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for EnumSet<T> {}
impl<T> PartialOrd for EnumSet<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T> Ord for EnumSet<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T> std::hash::Hash for EnumSet<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u64(self.0) } }
impl<T> Default for EnumSet<T> { fn default() -> Self { EnumSet(0, PhantomData) } }
impl<T: EnumSetType> From<T> for EnumSet<T> { fn from(t: T) -> Self { EnumSet(1 << t.bit(), PhantomData) } }
impl<T: EnumSetType + fmt::Debug> fmt::Debug for EnumSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T> EnumSet<T> { #[doc(hidden)] pub const fn __bits(b: u64) -> Self { EnumSet(b, PhantomData) } }
impl<T: EnumSetType> EnumSet<T> {
    pub const EMPTY: Self = EnumSet(0, PhantomData);
    pub const fn new() -> Self { EnumSet(0, PhantomData) }
    pub const fn empty() -> Self { EnumSet(0, PhantomData) }
    pub fn all() -> Self { T::ALL.iter().copied().collect() }
    pub fn only(t: T) -> Self { t.into() }
    pub fn contains(&self, t: T) -> bool { self.0 >> t.bit() & 1 != 0 }
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn len(&self) -> usize { self.0.count_ones() as usize }
    pub fn is_disjoint(&self, o: impl Into<Self>) -> bool { self.0 & o.into().0 == 0 }
    pub fn is_subset(&self, o: impl Into<Self>) -> bool { self.0 & !o.into().0 == 0 }
    pub fn is_superset(&self, o: impl Into<Self>) -> bool { o.into().0 & !self.0 == 0 }
    pub fn union(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 | o.into().0, PhantomData) }
    pub fn intersection(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 & o.into().0, PhantomData) }
    pub fn difference(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 & !o.into().0, PhantomData) }
    pub fn complement(&self) -> Self { Self::all().difference(*self) }
    pub fn insert(&mut self, t: T) -> bool { let had = self.contains(t); self.0 |= 1 << t.bit(); !had }
    pub fn remove(&mut self, t: T) -> bool { let had = self.contains(t); self.0 &= !(1 << t.bit()); had }
    pub fn insert_all(&mut self, o: Self) { self.0 |= o.0 }
    pub fn remove_all(&mut self, o: Self) { self.0 &= !o.0 }
    pub fn clear(&mut self) { self.0 = 0 }
    pub fn iter(&self) -> Iter<T> { Iter { set: *self, at: 0 } }
}
pub struct Iter<T> { set: EnumSet<T>, at: usize }
impl<T: EnumSetType> Iterator for Iter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        while self.at < T::ALL.len() { let t = T::ALL[self.at]; self.at += 1; if self.set.contains(t) { return Some(t); } }
        None
    }
}
impl<T: EnumSetType> IntoIterator for EnumSet<T> { type Item = T; type IntoIter = Iter<T>; fn into_iter(self) -> Iter<T> { self.iter() } }
impl<T: EnumSetType> FromIterator<T> for EnumSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut s = Self::default(); for t in i { s.insert(t); } s } }
impl<T: EnumSetType> Extend<T> for EnumSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.insert(t); } } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> ops::BitOr<O> for EnumSet<T> { type Output = Self; fn bitor(self, o: O) -> Self { self.union(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> ops::BitAnd<O> for EnumSet<T> { type Output = Self; fn bitand(self, o: O) -> Self { self.intersection(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> ops::Sub<O> for EnumSet<T> { type Output = Self; fn sub(self, o: O) -> Self { self.difference(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> ops::BitOrAssign<O> for EnumSet<T> { fn bitor_assign(&mut self, o: O) { self.0 |= o.into().0 } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> ops::BitAndAssign<O> for EnumSet<T> { fn bitand_assign(&mut self, o: O) { self.0 &= o.into().0 } }
impl<T: EnumSetType> ops::Not for EnumSet<T> { type Output = Self; fn not(self) -> Self { self.complement() } }
#[macro_export]
macro_rules! enum_set {
    () => { $crate::EnumSet::__bits(0) };
    ($($v:path)|* $(|)?) => { $crate::EnumSet::__bits(0 $(| (1u64 << ($v as u32)))*) };
}
