//! A database with one package (and the built-in functions), set up before anything is symbolic.
use base_db::change::FileChanges;
use base_db::package_root::{PackageKind, PackageRoot};
use ide::{Analysis, AnalysisHost};
use lang::builtins_file::BUILTINS_FILE;
use syntax::files::FilePosition;
use syntax::{TextRange, TextSize};
use vfs::file_set::FileSet;
use vfs::{FileId, VfsPath};

pub const MAIN: FileId = FileId::from_raw(1);

/// The specification file of file 1.
pub const SPEC_FILE: u32 = 3;

pub struct World {
    pub host: AnalysisHost,
    pub n: u32,
}

impl World {
    /// One local package with `n` empty files.
    pub fn new(n: u32) -> World {
        let mut changes = FileChanges::new();
        changes.add_builtins_file(FileId::from_raw(0), BUILTINS_FILE.to_string());
        let mut host = AnalysisHost::new();
        host.apply_change(changes);
        let mut changes = FileChanges::new();
        let mut set = FileSet::default();
        for i in 1..=n {
            set.insert(FileId::from_raw(i), VfsPath::new_real_path(if i == SPEC_FILE { "/f1.spec.move".to_string() } else { format!("/f{i}.move") }));
        }
        changes.set_package_roots(vec![PackageRoot::new(set, PackageKind::Local, None)]);
        for i in 1..=n {
            changes.change_file(FileId::from_raw(i), Some(String::new()));
        }
        host.apply_change(changes);
        World { host, n }
    }
    pub fn set(&mut self, file: u32, text: &str) {
        sym::note(text);
        let mut changes = FileChanges::new();
        changes.change_file(FileId::from_raw(file), Some(text.to_string()));
        self.host.apply_change(changes);
    }
    pub fn text(&self, file: u32) -> String {
        self.an().file_text(FileId::from_raw(file)).unwrap().to_string()
    }
    pub fn an(&self) -> Analysis {
        self.host.analysis()
    }
}

pub fn pos(file: u32, offset: usize) -> FilePosition {
    FilePosition { file_id: FileId::from_raw(file), offset: TextSize::from(offset as u32) }
}

/// The start of the only definition goto-definition gives at an offset, and its file.
pub fn goto(a: &Analysis, p: FilePosition) -> Option<(u32, TextRange)> {
    let r = a.goto_definition(p).unwrap()?;
    Some((r.info.file_id.index(), r.info.focus_or_full_range()))
}
