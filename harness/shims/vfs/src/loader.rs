use paths::{AbsPath, AbsPathBuf};
use std::fmt;
#[derive(Debug, Clone)]
pub enum Entry { Files(Vec<AbsPathBuf>), Directories(Directories) }
#[derive(Debug, Clone, Default)]
pub struct Directories { pub extensions: Vec<String>, pub include: Vec<AbsPathBuf>, pub exclude: Vec<AbsPathBuf> }
#[derive(Debug)]
pub struct Config { pub version: u32, pub load: Vec<Entry>, pub watch: Vec<usize> }
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum LoadingProgress { Started, Progress(usize), Finished }
pub enum Message {
    Progress { n_total: usize, n_done: LoadingProgress, dir: Option<AbsPathBuf>, config_version: u32 },
    Loaded { files: Vec<(AbsPathBuf, Option<Vec<u8>>)> },
    Changed { files: Vec<(AbsPathBuf, Option<Vec<u8>>)> },
}
pub type Sender = crossbeam_channel::Sender<Message>;
pub trait Handle: fmt::Debug {
    fn spawn(sender: Sender) -> Self where Self: Sized;
    fn set_config(&mut self, config: Config);
    fn invalidate(&mut self, path: AbsPathBuf);
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>>;
}
impl Entry {
    pub fn contains_file(&self, path: &AbsPath) -> bool { match self { Entry::Files(f) => f.iter().any(|it| it == path), Entry::Directories(d) => d.contains_file(path) } }
    pub fn contains_dir(&self, path: &AbsPath) -> bool { match self { Entry::Files(_) => false, Entry::Directories(d) => d.contains_dir(path) } }
}
impl Directories {
    pub fn contains_file(&self, path: &AbsPath) -> bool { let ext = path.extension().unwrap_or_default(); self.extensions.iter().any(|e| e.as_str() == ext) && self.includes_path(path) }
    pub fn contains_dir(&self, path: &AbsPath) -> bool { self.includes_path(path) }
    fn includes_path(&self, path: &AbsPath) -> bool {
        let mut include: Option<&AbsPathBuf> = None;
        for incl in &self.include { if path.starts_with(incl) { include = Some(match include { Some(prev) if prev.starts_with(incl) => prev, _ => incl }); } }
        let Some(include) = include else { return false };
        !self.exclude.iter().any(|ex| path.starts_with(ex) && ex.starts_with(include))
    }
}
impl fmt::Debug for Message { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Message") } }
