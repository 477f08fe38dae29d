//! Stand-in for rust-analyzer's `vfs`.
pub use paths::{AbsPath, AbsPathBuf};
use std::fmt;
pub mod file_set;
pub mod loader;
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct FileId(u32);
impl FileId {
    pub const BOGUS: FileId = FileId(0xe4e4e);
    pub const MAX_FILE_ID: u32 = 0x7fff_ffff;
    pub const fn from_raw(raw: u32) -> FileId { assert!(raw <= Self::MAX_FILE_ID); FileId(raw) }
    pub const fn index(self) -> u32 { self.0 }
}
impl fmt::Debug for FileId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "FileId({})", self.0) } }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AnchoredPathBuf { pub anchor: FileId, pub path: String }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AnchoredPath<'a> { pub anchor: FileId, pub path: &'a str }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Repr { Path(AbsPathBuf), Virtual(String) }
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct VfsPath(Repr);
impl VfsPath {
    pub fn new_virtual_path(path: String) -> VfsPath { assert!(path.starts_with('/')); VfsPath(Repr::Virtual(path)) }
    pub fn new_real_path(path: String) -> VfsPath { VfsPath::from(AbsPathBuf::assert(path.into())) }
    pub fn as_path(&self) -> Option<&AbsPath> { match &self.0 { Repr::Path(p) => Some(p.as_path()), _ => None } }
    pub fn into_abs_path(self) -> Option<AbsPathBuf> { match self.0 { Repr::Path(p) => Some(p), _ => None } }
    pub fn join(&self, path: &str) -> Option<VfsPath> {
        match &self.0 {
            Repr::Path(p) => Some(p.as_path().join(path).normalize().into()),
            Repr::Virtual(p) => {
                let mut res = p.clone();
                let mut path = path;
                while let Some(rest) = path.strip_prefix("../") { res.truncate(res.rfind('/')?); path = rest; }
                path = path.trim_start_matches("./");
                Some(VfsPath::new_virtual_path(format!("{res}/{path}")))
            }
        }
    }
    pub fn pop(&mut self) -> bool {
        match &mut self.0 { Repr::Path(p) => p.pop(), Repr::Virtual(p) => match p.rfind('/') { Some(i) if p.len() > 1 => { p.truncate(i.max(1)); true } _ => false } }
    }
    pub fn starts_with(&self, o: &VfsPath) -> bool {
        match (&self.0, &o.0) {
            (Repr::Path(a), Repr::Path(b)) => a.as_path().starts_with(b.as_path()),
            (Repr::Virtual(a), Repr::Virtual(b)) => a.starts_with(b.as_str()),
            _ => false,
        }
    }
    pub fn parent(&self) -> Option<VfsPath> { let mut p = self.clone(); if p.pop() { Some(p) } else { None } }
    pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> {
        match &self.0 {
            Repr::Path(p) => p.as_path().name_and_extension(),
            Repr::Virtual(p) => {
                let name = &p[p.rfind('/')? + 1..];
                if name.is_empty() || name == ".." { return None; }
                match name.rfind('.') { Some(i) if i > 0 => Some((&name[..i], Some(&name[i + 1..]))), _ => Some((name, None)) }
            }
        }
    }
    fn bytes(&self) -> &[u8] { match &self.0 { Repr::Path(p) => p.as_path().as_str().as_bytes(), Repr::Virtual(p) => p.as_bytes() } }
    fn tag(&self) -> u8 { match &self.0 { Repr::Path(_) => 0, Repr::Virtual(_) => 1 } }
}
impl From<AbsPathBuf> for VfsPath { fn from(p: AbsPathBuf) -> Self { VfsPath(Repr::Path(p.normalize())) } }
impl fmt::Display for VfsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &self.0 { Repr::Path(p) => fmt::Display::fmt(p, f), Repr::Virtual(p) => f.write_str(p) } } }
impl fmt::Debug for VfsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum FileExcluded { Yes, No }
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum FileState { Exists(u64), Deleted, Excluded }
#[derive(Debug)]
pub struct ChangedFile { pub file_id: FileId, pub change: Change }
impl ChangedFile {
    pub fn exists(&self) -> bool { !matches!(self.change, Change::Delete) }
    pub fn is_created_or_deleted(&self) -> bool { matches!(self.change, Change::Create(_, _) | Change::Delete) }
    pub fn is_created(&self) -> bool { matches!(self.change, Change::Create(_, _)) }
    pub fn is_modified(&self) -> bool { matches!(self.change, Change::Modify(_, _)) }
    pub fn kind(&self) -> ChangeKind { match self.change { Change::Create(_, _) => ChangeKind::Create, Change::Modify(_, _) => ChangeKind::Modify, Change::Delete => ChangeKind::Delete } }
}
#[derive(Eq, PartialEq, Debug)]
pub enum Change { Create(Vec<u8>, u64), Modify(Vec<u8>, u64), Delete }
#[derive(Eq, PartialEq, Copy, Clone, Debug)]
pub enum ChangeKind { Create, Modify, Delete }
#[derive(Default)]
pub struct Vfs { paths: Vec<VfsPath>, data: Vec<FileState>, changes: indexmap::IndexMap<FileId, ChangedFile, std::hash::BuildHasherDefault<H>> }
#[derive(Default)]
pub struct H(u64);
impl std::hash::Hasher for H { fn write(&mut self, _: &[u8]) {} fn write_u32(&mut self, v: u32) { self.0 = v as u64 } fn finish(&self) -> u64 { self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15) } }
fn hash(b: &[u8]) -> u64 { b.iter().fold(b.len() as u64, |h, b| (h.rotate_left(5) ^ *b as u64).wrapping_mul(0x517c_c1b7_2722_0a95)) }
impl Vfs {
    pub fn file_id(&self, path: &VfsPath) -> Option<(FileId, FileExcluded)> {
        let id = FileId(self.paths.iter().position(|p| p == path)? as u32);
        match self.data[id.0 as usize] { FileState::Exists(_) => Some((id, FileExcluded::No)), FileState::Excluded => Some((id, FileExcluded::Yes)), FileState::Deleted => None }
    }
    pub fn file_path(&self, id: FileId) -> &VfsPath { &self.paths[id.0 as usize] }
    pub fn iter(&self) -> impl Iterator<Item = (FileId, &VfsPath)> + '_ {
        (0..self.data.len()).map(|i| FileId(i as u32)).filter(move |id| matches!(self.data[id.0 as usize], FileState::Exists(_))).map(move |id| (id, self.file_path(id)))
    }
    pub fn exists(&self, id: FileId) -> bool { matches!(self.data[id.0 as usize], FileState::Exists(_)) }
    pub fn set_file_contents(&mut self, path: VfsPath, contents: Option<Vec<u8>>) -> bool {
        let id = match self.paths.iter().position(|p| *p == path) { Some(i) => FileId(i as u32), None => { self.paths.push(path); self.data.push(FileState::Deleted); FileId(self.paths.len() as u32 - 1) } };
        let state = self.data[id.0 as usize];
        let kind = match (state, contents) {
            (FileState::Deleted, None) => return false,
            (FileState::Deleted, Some(v)) => { let h = hash(&v); Change::Create(v, h) }
            (FileState::Exists(_), None) => Change::Delete,
            (FileState::Exists(h), Some(v)) => { let n = hash(&v); if h == n { return false; } Change::Modify(v, n) }
            (FileState::Excluded, _) => return false,
        };
        let set = match &kind { Change::Create(_, h) | Change::Modify(_, h) => FileState::Exists(*h), Change::Delete => FileState::Deleted };
        let changed = ChangedFile { file_id: id, change: kind };
        match self.changes.entry(id) {
            indexmap::map::Entry::Occupied(mut o) => {
                use Change::*;
                let cur = std::mem::replace(&mut o.get_mut().change, Delete);
                match (cur, changed.change) {
                    (Create(prev, old), Modify(new, h)) => { drop((prev, old)); o.get_mut().change = Create(new, h) }
                    (Create(_, _), Delete) => { o.shift_remove(); }
                    (Create(_, _), Create(new, h)) => o.get_mut().change = Create(new, h),
                    (Modify(_, _), c) => o.get_mut().change = c,
                    (Delete, Create(new, h)) => o.get_mut().change = Modify(new, h),
                    (Delete, c) => o.get_mut().change = c,
                }
            }
            indexmap::map::Entry::Vacant(v) => { v.insert(changed); }
        }
        self.data[id.0 as usize] = set;
        true
    }
    pub fn take_changes(&mut self) -> indexmap::IndexMap<FileId, ChangedFile, std::hash::BuildHasherDefault<H>> { std::mem::take(&mut self.changes) }
    pub fn insert_excluded_file(&mut self, path: VfsPath) {
        match self.paths.iter().position(|p| *p == path) { Some(i) => self.data[i] = FileState::Excluded, None => { self.paths.push(path); self.data.push(FileState::Excluded) } }
    }
}
impl fmt::Debug for Vfs { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("Vfs").field("n_files", &self.data.len()).finish() } }
