use crate::{api::AnyLang, SyntaxNode, SyntaxToken, TextRange, TextSize, NodeOrToken};
use std::fmt;
/// The text of a node (or of a range of it).
#[derive(Clone)]
pub struct SyntaxText { node: SyntaxNode<AnyLang>, range: TextRange }
impl SyntaxText {
    pub(crate) fn new(node: SyntaxNode<AnyLang>) -> Self { let range = node.text_range(); SyntaxText { node, range } }
    pub fn len(&self) -> TextSize { self.range.len() }
    pub fn is_empty(&self) -> bool { self.range.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.try_for_each_chunk(|ch| if ch.contains(c) { Err(()) } else { Ok(()) }).is_err() }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        let mut acc = TextSize::from(0);
        let r = self.try_for_each_chunk(|ch| { if let Some(p) = ch.find(c) { let p: TextSize = (p as u32).into(); return Err(acc + p); } acc += TextSize::of(ch); Ok(()) });
        r.err()
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        let mut start: TextSize = 0.into();
        let r = self.try_for_each_chunk(|ch| {
            let end = start + TextSize::of(ch);
            if start <= offset && offset < end { let off: usize = (offset - start).into(); return Err(ch[off..].chars().next().unwrap()); }
            start = end;
            Ok(())
        });
        r.err()
    }
    pub fn slice<R: SyntaxTextRange>(&self, range: R) -> SyntaxText {
        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or(self.len());
        assert!(start <= end);
        let len = end - start;
        let start = self.range.start() + start;
        let range = TextRange::new(start, start + len);
        assert!(self.range.contains_range(range), "invalid slice, range: {:?}, slice: {:?}", self.range, range);
        SyntaxText { node: self.node.clone(), range }
    }
    pub fn try_fold_chunks<T, F, E>(&self, init: T, mut f: F) -> Result<T, E> where F: FnMut(T, &str) -> Result<T, E> {
        self.tokens_with_ranges().try_fold(init, move |acc, (t, r)| f(acc, &t.text()[r]))
    }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> { self.try_fold_chunks((), move |(), c| f(c)) }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) { let _: Result<(), ()> = self.try_for_each_chunk(|c| { f(c); Ok(()) }); }
    fn tokens_with_ranges(&self) -> impl Iterator<Item = (SyntaxToken<AnyLang>, TextRange)> + use<> {
        let tr = self.range;
        self.node.descendants_with_tokens().filter_map(|e| match e { NodeOrToken::Token(t) => Some(t), _ => None }).filter_map(move |t| {
            let r = t.text_range();
            let x = tr.intersect(r)?;
            Some((t, x - r.start()))
        })
    }
}
impl fmt::Debug for SyntaxText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.to_string(), f) } }
impl fmt::Display for SyntaxText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.try_for_each_chunk(|c| f.write_str(c)) } }
impl From<SyntaxText> for String { fn from(t: SyntaxText) -> String { t.to_string() } }
impl PartialEq<str> for SyntaxText {
    fn eq(&self, mut rhs: &str) -> bool {
        self.try_for_each_chunk(|c| { if !rhs.starts_with(c) { return Err(()); } rhs = &rhs[c.len()..]; Ok(()) }).is_ok() && rhs.is_empty()
    }
}
impl PartialEq<&'_ str> for SyntaxText { fn eq(&self, r: &&str) -> bool { self == *r } }
impl PartialEq<SyntaxText> for str { fn eq(&self, r: &SyntaxText) -> bool { r == self } }
impl PartialEq<SyntaxText> for &'_ str { fn eq(&self, r: &SyntaxText) -> bool { r == *self } }
impl PartialEq for SyntaxText { fn eq(&self, o: &SyntaxText) -> bool { self.range.len() == o.range.len() && self.to_string() == o.to_string() } }
impl Eq for SyntaxText {}
pub trait SyntaxTextRange { fn start(&self) -> Option<TextSize>; fn end(&self) -> Option<TextSize>; }
impl SyntaxTextRange for TextRange { fn start(&self) -> Option<TextSize> { Some(TextRange::start(*self)) } fn end(&self) -> Option<TextSize> { Some(TextRange::end(*self)) } }
impl SyntaxTextRange for std::ops::Range<TextSize> { fn start(&self) -> Option<TextSize> { Some(self.start) } fn end(&self) -> Option<TextSize> { Some(self.end) } }
impl SyntaxTextRange for std::ops::RangeFrom<TextSize> { fn start(&self) -> Option<TextSize> { Some(self.start) } fn end(&self) -> Option<TextSize> { None } }
impl SyntaxTextRange for std::ops::RangeTo<TextSize> { fn start(&self) -> Option<TextSize> { None } fn end(&self) -> Option<TextSize> { Some(self.end) } }
impl SyntaxTextRange for std::ops::RangeFull { fn start(&self) -> Option<TextSize> { None } fn end(&self) -> Option<TextSize> { None } }
