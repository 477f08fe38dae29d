//! Stand-in for the `text-size` crate (same public behaviour, written from its documentation).
use std::{cmp, fmt, iter, ops::{Add, AddAssign, Bound, Index, IndexMut, Range, RangeBounds, Sub, SubAssign, Deref}};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }
impl TextSize {
    pub const ZERO: TextSize = TextSize { raw: 0 };
    #[inline] pub const fn new(raw: u32) -> TextSize { TextSize { raw } }
    #[inline] pub fn of<T: TextLen>(t: T) -> TextSize { t.text_len() }
    #[inline] pub fn checked_add(self, r: TextSize) -> Option<TextSize> { self.raw.checked_add(r.raw).map(|raw| TextSize { raw }) }
    #[inline] pub fn checked_sub(self, r: TextSize) -> Option<TextSize> { self.raw.checked_sub(r.raw).map(|raw| TextSize { raw }) }
}
impl fmt::Debug for TextSize { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) } }
impl From<u32> for TextSize { #[inline] fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { #[inline] fn from(v: TextSize) -> Self { v.raw } }
impl From<TextSize> for usize { #[inline] fn from(v: TextSize) -> Self { v.raw as usize } }
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    #[inline] fn try_from(v: usize) -> Result<Self, Self::Error> { Ok(u32::try_from(v)?.into()) }
}
macro_rules! ops {
    (impl $Op:ident for TextSize by fn $f:ident = $op:tt) => {
        impl $Op<TextSize> for TextSize { type Output = TextSize; #[inline] fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $Op<&TextSize> for TextSize { type Output = TextSize; #[inline] fn $f(self, o: &TextSize) -> TextSize { self $op *o } }
        impl<T> $Op<T> for &TextSize where TextSize: $Op<T, Output = TextSize> { type Output = TextSize; #[inline] fn $f(self, o: T) -> TextSize { *self $op o } }
    };
}
ops!(impl Add for TextSize by fn add = +);
ops!(impl Sub for TextSize by fn sub = -);
impl<A> AddAssign<A> for TextSize where TextSize: Add<A, Output = TextSize> { #[inline] fn add_assign(&mut self, r: A) { *self = *self + r } }
impl<S> SubAssign<S> for TextSize where TextSize: Sub<S, Output = TextSize> { #[inline] fn sub_assign(&mut self, r: S) { *self = *self - r } }
impl<A> iter::Sum<A> for TextSize where TextSize: Add<A, Output = TextSize> { fn sum<I: Iterator<Item = A>>(it: I) -> TextSize { it.fold(0.into(), Add::add) } }

pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &'_ str { #[inline] fn text_len(self) -> TextSize { self.len().try_into().unwrap() } }
impl TextLen for &'_ String { #[inline] fn text_len(self) -> TextSize { self.as_str().text_len() } }
impl TextLen for char { #[inline] fn text_len(self) -> TextSize { (self.len_utf8() as u32).into() } }
impl<D> TextLen for &'_ D where D: TextLen + Copy { #[inline] fn text_len(self) -> TextSize { (*self).text_len() } }

#[derive(Copy, Clone, Eq, PartialEq, Hash, Default)]
pub struct TextRange { start: TextSize, end: TextSize }
impl fmt::Debug for TextRange { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}..{}", self.start().raw, self.end().raw) } }
impl TextRange {
    #[inline] pub const fn new(start: TextSize, end: TextSize) -> TextRange { assert!(start.raw <= end.raw); TextRange { start, end } }
    #[inline] pub fn at(offset: TextSize, len: TextSize) -> TextRange { TextRange::new(offset, offset + len) }
    #[inline] pub fn empty(offset: TextSize) -> TextRange { TextRange { start: offset, end: offset } }
    #[inline] pub fn up_to(end: TextSize) -> TextRange { TextRange { start: 0.into(), end } }
    #[inline] pub const fn start(self) -> TextSize { self.start }
    #[inline] pub const fn end(self) -> TextSize { self.end }
    #[inline] pub const fn len(self) -> TextSize { TextSize { raw: self.end.raw - self.start.raw } }
    #[inline] pub const fn is_empty(self) -> bool { self.start.raw == self.end.raw }
    #[inline] pub fn contains(self, o: TextSize) -> bool { self.start() <= o && o < self.end() }
    #[inline] pub fn contains_inclusive(self, o: TextSize) -> bool { self.start() <= o && o <= self.end() }
    #[inline] pub fn contains_range(self, o: TextRange) -> bool { self.start() <= o.start() && o.end() <= self.end() }
    #[inline] pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = cmp::max(self.start(), o.start());
        let end = cmp::min(self.end(), o.end());
        if end < start { return None; }
        Some(TextRange::new(start, end))
    }
    #[inline] pub fn cover(self, o: TextRange) -> TextRange { TextRange::new(cmp::min(self.start(), o.start()), cmp::max(self.end(), o.end())) }
    #[inline] pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    #[inline] pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    #[inline] pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
    #[inline] pub fn ordering(self, r: TextRange) -> cmp::Ordering {
        if self.end() <= r.start() { cmp::Ordering::Less } else if r.end() <= self.start() { cmp::Ordering::Greater } else { cmp::Ordering::Equal }
    }
}
impl Index<TextRange> for str { type Output = str; #[inline] fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl Index<TextRange> for String { type Output = str; #[inline] fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl IndexMut<TextRange> for str { #[inline] fn index_mut(&mut self, i: TextRange) -> &mut str { &mut self[Range::<usize>::from(i)] } }
impl IndexMut<TextRange> for String { #[inline] fn index_mut(&mut self, i: TextRange) -> &mut str { &mut self[Range::<usize>::from(i)] } }
impl RangeBounds<TextSize> for TextRange { fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) } fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) } }
impl From<Range<TextSize>> for TextRange { fn from(r: Range<TextSize>) -> Self { TextRange::new(r.start, r.end) } }
impl<T> From<TextRange> for Range<T> where T: From<TextSize> { #[inline] fn from(r: TextRange) -> Self { r.start().into()..r.end().into() } }
macro_rules! rops {
    (impl $Op:ident for TextRange by fn $f:ident = $op:tt) => {
        impl $Op<&TextSize> for TextRange { type Output = TextRange; #[inline] fn $f(self, o: &TextSize) -> TextRange { self $op *o } }
        impl<T> $Op<T> for &TextRange where TextRange: $Op<T, Output = TextRange> { type Output = TextRange; #[inline] fn $f(self, o: T) -> TextRange { *self $op o } }
    };
}
impl Add<TextSize> for TextRange { type Output = TextRange; #[inline] fn add(self, o: TextSize) -> TextRange { self.checked_add(o).expect("TextRange +offset overflowed") } }
impl Sub<TextSize> for TextRange { type Output = TextRange; #[inline] fn sub(self, o: TextSize) -> TextRange { self.checked_sub(o).expect("TextRange -offset overflowed") } }
rops!(impl Add for TextRange by fn add = +);
rops!(impl Sub for TextRange by fn sub = -);
impl<A> AddAssign<A> for TextRange where TextRange: Add<A, Output = TextRange> { #[inline] fn add_assign(&mut self, r: A) { *self = *self + r } }
impl<S> SubAssign<S> for TextRange where TextRange: Sub<S, Output = TextRange> { #[inline] fn sub_assign(&mut self, r: S) { *self = *self - r } }
#[allow(unused)] fn _d<T: Deref>(_: T) {}
