//! Stand-in for rust-analyzer's `vfs-notify`: loads synchronously, watches nothing.
use vfs::{loader, AbsPath, AbsPathBuf};
#[derive(Debug)]
pub struct NotifyHandle { sender: loader::Sender }
fn walk(dir: &AbsPath, d: &loader::Directories, files: &mut Vec<(AbsPathBuf, Option<Vec<u8>>)>) {
    let Ok(entries) = std::fs::read_dir(AsRef::<std::path::Path>::as_ref(dir)) else { return };
    let mut paths: Vec<_> = entries.flatten().filter_map(|e| AbsPathBuf::try_from(e.path()).ok()).collect();
    paths.sort();
    for p in paths {
        let std: &std::path::Path = p.as_ref();
        if std.is_dir() { if d.contains_dir(&p) { walk(&p, d, files) } } else if d.contains_file(&p) { let c = std::fs::read(std).ok(); files.push((p, c)) }
    }
}
impl loader::Handle for NotifyHandle {
    fn spawn(sender: loader::Sender) -> NotifyHandle { NotifyHandle { sender } }
    fn set_config(&mut self, config: loader::Config) {
        for e in &config.load {
            let mut files = vec![];
            match e {
                loader::Entry::Files(f) => for p in f { files.push((p.clone(), std::fs::read(AsRef::<std::path::Path>::as_ref(p)).ok())) },
                loader::Entry::Directories(d) => for i in &d.include { walk(i, d, &mut files) },
            }
            let _ = self.sender.send(loader::Message::Loaded { files });
        }
        let _ = self.sender.send(loader::Message::Progress { n_total: config.load.len(), n_done: loader::LoadingProgress::Finished, dir: None, config_version: config.version });
    }
    fn invalidate(&mut self, _path: AbsPathBuf) {}
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>> { std::fs::read(AsRef::<std::path::Path>::as_ref(path)).ok() }
}
