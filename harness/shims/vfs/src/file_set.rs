use crate::{AnchoredPath, FileId, Vfs, VfsPath};
use std::fmt;
#[derive(Default, Clone, Eq, PartialEq)]
pub struct FileSet { files: Vec<(VfsPath, FileId)> }
impl FileSet {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { self.files.len() }
    pub fn is_empty(&self) -> bool { self.files.is_empty() }
    pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
        let mut base = self.path_for_file(&path.anchor)?.clone();
        base.pop();
        let path = base.join(path.path)?;
        self.file_for_path(&path).copied()
    }
    pub fn file_for_path(&self, path: &VfsPath) -> Option<&FileId> { self.files.iter().find(|f| f.0 == *path).map(|f| &f.1) }
    pub fn path_for_file(&self, file: &FileId) -> Option<&VfsPath> { self.files.iter().find(|f| f.1 == *file).map(|f| &f.0) }
    pub fn insert(&mut self, file_id: FileId, path: VfsPath) { self.files.retain(|f| f.0 != path && f.1 != file_id); self.files.push((path, file_id)); }
    pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ { self.files.iter().map(|f| f.1) }
}
impl fmt::Debug for FileSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("FileSet").field("n_files", &self.files.len()).finish() } }
#[derive(Debug)]
pub struct FileSetConfig { n_file_sets: usize, roots: Vec<(VfsPath, usize)> }
impl Default for FileSetConfig { fn default() -> Self { FileSetConfig::builder().build() } }
impl FileSetConfig {
    pub fn builder() -> FileSetConfigBuilder { FileSetConfigBuilder::default() }
    pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
        let mut res = vec![FileSet::default(); self.len()];
        for (id, path) in vfs.iter() { res[self.classify(path)].insert(id, path.clone()); }
        res
    }
    pub fn len(&self) -> usize { self.n_file_sets }
    pub fn is_empty(&self) -> bool { self.n_file_sets == 0 }
    pub fn roots(&self) -> Vec<(Vec<u8>, u64)> { self.roots.iter().map(|r| (r.0.bytes().to_vec(), r.1 as u64)).collect() }
    fn classify(&self, path: &VfsPath) -> usize {
        self.roots.iter().filter(|r| r.0.tag() == path.tag() && path.bytes().starts_with(r.0.bytes())).max_by_key(|r| r.0.bytes().len()).map_or(self.len() - 1, |r| r.1)
    }
}
#[derive(Default)]
pub struct FileSetConfigBuilder { roots: Vec<Vec<VfsPath>> }
impl FileSetConfigBuilder {
    pub fn len(&self) -> usize { self.roots.len() }
    pub fn is_empty(&self) -> bool { self.roots.is_empty() }
    pub fn add_file_set(&mut self, roots: Vec<VfsPath>) { self.roots.push(roots) }
    pub fn build(self) -> FileSetConfig {
        let n = self.roots.len() + 1;
        let mut roots: Vec<(VfsPath, usize)> = self.roots.into_iter().enumerate().flat_map(|(i, ps)| ps.into_iter().map(move |p| (p, i))).collect();
        roots.sort();
        roots.dedup_by(|a, b| a.0 == b.0);
        FileSetConfig { n_file_sets: n, roots }
    }
}
