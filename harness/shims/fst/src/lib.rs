//! Stand-in for `fst`: a sorted list of keys with the interface of `fst::Map`.
pub mod raw {
    #[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
    pub struct IndexedValue { pub index: usize, pub value: u64 }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error { OutOfOrder, Format }
    pub struct Fst<'a>(pub(crate) &'a [u8]);
    impl Fst<'_> { pub fn size(&self) -> usize { self.0.len() } }
}
#[derive(Debug)]
pub enum Error { Fst(raw::Error) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("fst error") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait Streamer<'a> { type Item: 'a; fn next(&'a mut self) -> Option<Self::Item>; }
pub trait Automaton { fn matches(&self, key: &[u8]) -> bool; }
impl<A: Automaton> Automaton for &A { fn matches(&self, key: &[u8]) -> bool { (**self).matches(key) } }
pub mod automaton {
    pub struct Subsequence<'a>(&'a [u8]);
    impl<'a> Subsequence<'a> { pub fn new(s: &'a str) -> Self { Subsequence(s.as_bytes()) } }
    impl super::Automaton for Subsequence<'_> {
        fn matches(&self, key: &[u8]) -> bool { let mut i = 0; for b in key { if i < self.0.len() && self.0[i] == *b { i += 1; } } i == self.0.len() }
    }
    pub struct Str<'a>(&'a [u8]);
    impl<'a> Str<'a> { pub fn new(s: &'a str) -> Self { Str(s.as_bytes()) } pub fn starts_with(self) -> StartsWith<'a> { StartsWith(self.0) } }
    impl super::Automaton for Str<'_> { fn matches(&self, key: &[u8]) -> bool { self.0 == key } }
    pub struct StartsWith<'a>(&'a [u8]);
    impl super::Automaton for StartsWith<'_> { fn matches(&self, key: &[u8]) -> bool { key.starts_with(self.0) } }
}
pub use map::{Map, MapBuilder};
pub mod map {
    use super::*;
    #[derive(Clone, Default)]
    pub struct Map<D> { data: D, entries: Vec<(Vec<u8>, u64)> }
    impl<D: AsRef<[u8]>> Map<D> {
        pub fn new(data: D) -> Result<Map<D>> {
            let mut entries = vec![];
            let mut b = data.as_ref();
            while !b.is_empty() {
                if b.len() < 12 { return Err(Error::Fst(raw::Error::Format)); }
                let v = u64::from_le_bytes(b[..8].try_into().unwrap());
                let n = u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
                entries.push((b[12..12 + n].to_vec(), v));
                b = &b[12 + n..];
            }
            Ok(Map { data, entries })
        }
        pub fn search<A: Automaton>(&self, a: A) -> StreamBuilder { StreamBuilder(self.entries.iter().filter(|(k, _)| a.matches(k)).cloned().collect()) }
        pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Option<u64> { self.entries.iter().find(|e| e.0 == k.as_ref()).map(|e| e.1) }
        pub fn len(&self) -> usize { self.entries.len() }
        pub fn is_empty(&self) -> bool { self.entries.is_empty() }
        pub fn as_fst(&self) -> raw::Fst<'_> { raw::Fst(self.data.as_ref()) }
    }
    pub struct StreamBuilder(Vec<(Vec<u8>, u64)>);
    pub struct MapBuilder { buf: Vec<u8>, last: Option<Vec<u8>> }
    impl MapBuilder {
        pub fn memory() -> Self { MapBuilder { buf: vec![], last: None } }
        pub fn insert<K: AsRef<[u8]>>(&mut self, k: K, v: u64) -> Result<()> {
            let k = k.as_ref();
            if self.last.as_ref().is_some_and(|l| l.as_slice() >= k) { return Err(Error::Fst(raw::Error::OutOfOrder)); }
            self.buf.extend(v.to_le_bytes());
            self.buf.extend((k.len() as u32).to_le_bytes());
            self.buf.extend(k);
            self.last = Some(k.to_vec());
            Ok(())
        }
        pub fn into_inner(self) -> Result<Vec<u8>> { Ok(self.buf) }
        pub fn finish(self) -> Result<()> { Ok(()) }
    }
    #[derive(Default)]
    pub struct OpBuilder(Vec<Vec<(Vec<u8>, u64)>>);
    impl OpBuilder {
        pub fn new() -> Self { Self::default() }
        pub fn add(mut self, s: StreamBuilder) -> Self { self.0.push(s.0); self }
        pub fn push(&mut self, s: StreamBuilder) { self.0.push(s.0) }
        pub fn union(self) -> Union<'static> {
            let mut rows: Vec<(Vec<u8>, Vec<raw::IndexedValue>)> = vec![];
            for (index, s) in self.0.into_iter().enumerate() {
                for (k, value) in s {
                    match rows.iter_mut().find(|r| r.0 == k) { Some(r) => r.1.push(raw::IndexedValue { index, value }), None => rows.push((k, vec![raw::IndexedValue { index, value }])) }
                }
            }
            rows.sort_by(|a, b| a.0.cmp(&b.0));
            Union { rows, at: 0, p: std::marker::PhantomData }
        }
    }
    pub struct Union<'a> { rows: Vec<(Vec<u8>, Vec<raw::IndexedValue>)>, at: usize, p: std::marker::PhantomData<&'a ()> }
    impl<'a, 'm> Streamer<'a> for Union<'m> {
        type Item = (&'a [u8], &'a [raw::IndexedValue]);
        fn next(&'a mut self) -> Option<Self::Item> { let r = self.rows.get(self.at)?; self.at += 1; Some((&r.0, &r.1)) }
    }
}
