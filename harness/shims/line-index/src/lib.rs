//! Stand-in for the `line-index` crate (same public behaviour, written from its documentation).
use std::collections::HashMap;
pub use text_size::{TextRange, TextSize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum WideEncoding { Utf16, Utf32 }
impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize {
        match self { WideEncoding::Utf16 => text.encode_utf16().count(), WideEncoding::Utf32 => text.chars().count() }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct WideChar { start: TextSize, end: TextSize }
impl WideChar {
    fn len(&self) -> TextSize { self.end - self.start }
    fn wide_len(&self, enc: WideEncoding) -> u32 {
        match enc {
            WideEncoding::Utf16 => if self.len() == TextSize::from(4) { 2 } else { 1 },
            WideEncoding::Utf32 => 1,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LineIndex { newlines: Box<[TextSize]>, line_wide_chars: HashMap<u32, Box<[WideChar]>, BuildNoHash>, len: TextSize }
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct BuildNoHash;
#[derive(Default)]
pub struct NoHash(u64);
impl std::hash::BuildHasher for BuildNoHash { type Hasher = NoHash; fn build_hasher(&self) -> NoHash { NoHash(0) } }
impl std::hash::Hasher for NoHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31) + *x as u64 } }
    fn write_u32(&mut self, v: u32) { self.0 = v as u64 }
}
impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = Vec::new();
        let mut wide: HashMap<u32, Box<[WideChar]>, BuildNoHash> = HashMap::default();
        let mut cur: Vec<WideChar> = Vec::new();
        let b = text.as_bytes();
        let (mut i, mut line, mut line_start) = (0usize, 0u32, 0usize);
        while i < b.len() {
            let c = b[i];
            let n = if c < 0x80 { 1 } else if c < 0xE0 { 2 } else if c < 0xF0 { 3 } else { 4 };
            if c == b'\n' {
                newlines.push(TextSize::from((i + 1) as u32));
                if !cur.is_empty() { wide.insert(line, std::mem::take(&mut cur).into_boxed_slice()); }
                line += 1;
                line_start = i + 1;
            } else if n > 1 {
                let s = TextSize::from((i - line_start) as u32);
                cur.push(WideChar { start: s, end: s + TextSize::from(n as u32) });
            }
            i += n;
        }
        if !cur.is_empty() { wide.insert(line, cur.into_boxed_slice()); }
        LineIndex { newlines: newlines.into_boxed_slice(), line_wide_chars: wide, len: TextSize::of(text) }
    }
    pub fn line_col(&self, offset: TextSize) -> LineCol { self.try_line_col(offset).expect("invalid offset") }
    pub fn try_line_col(&self, offset: TextSize) -> Option<LineCol> {
        if offset > self.len { return None; }
        let mut line = 0;
        while line < self.newlines.len() && self.newlines[line] <= offset { line += 1; }
        let start = self.start_offset(line)?;
        let col = offset - start;
        let ret = LineCol { line: line as u32, col: col.into() };
        if let Some(w) = self.line_wide_chars.get(&ret.line) {
            if w.iter().any(|c| c.start < col && col < c.end) { return None; }
        }
        Some(ret)
    }
    pub fn offset(&self, lc: LineCol) -> Option<TextSize> { Some(self.start_offset(lc.line as usize)? + TextSize::from(lc.col)) }
    fn start_offset(&self, line: usize) -> Option<TextSize> {
        match line.checked_sub(1) { None => Some(TextSize::from(0)), Some(i) => self.newlines.get(i).copied() }
    }
    pub fn to_wide(&self, enc: WideEncoding, lc: LineCol) -> Option<WideLineCol> {
        let mut col = lc.col;
        if let Some(w) = self.line_wide_chars.get(&lc.line) {
            for c in w.iter() {
                if u32::from(c.end) <= lc.col { col = col.checked_sub(u32::from(c.len()) - c.wide_len(enc))?; } else { break; }
            }
        }
        Some(WideLineCol { line: lc.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, lc: WideLineCol) -> Option<LineCol> {
        let mut col = lc.col;
        if let Some(w) = self.line_wide_chars.get(&lc.line) {
            for c in w.iter() {
                if col > u32::from(c.start) { col = col.checked_add(u32::from(c.len()) - c.wide_len(enc))?; } else { break; }
            }
        }
        Some(LineCol { line: lc.line, col })
    }
    pub fn line(&self, line: u32) -> Option<TextRange> {
        let start = self.start_offset(line as usize)?;
        let next = self.newlines.get(line as usize).copied().unwrap_or(self.len);
        Some(TextRange::new(start, next))
    }
    pub fn lines(&self, range: TextRange) -> impl Iterator<Item = TextRange> + '_ {
        let mut v = vec![];
        let mut prev = range.start();
        for n in self.newlines.iter().copied().filter(|n| *n > range.start() && *n < range.end()).chain(std::iter::once(range.end())) {
            if prev != n { v.push(TextRange::new(prev, n)); }
            prev = n;
        }
        v.into_iter()
    }
    pub fn len(&self) -> TextSize { self.len }
}
