//! The server's state, without its threads and its connection: what the modules under test read and write.
use crate::config::Config;
use crate::line_index::LineIndex;
use crate::lsp::from_proto;
use crate::op_queue::OpQueue;
use crate::opened_files::OpenedFiles;
use ide::{Analysis, AnalysisHost, Cancellable};
use lsp_types::{Notification, Uri};
use parking_lot::{MappedRwLockReadGuard, RwLock, RwLockReadGuard};
use project_model::project_folders::PackageRootConfig;
use std::collections::HashMap;
use std::sync::Arc;
use stdext::line_endings::LineEndings;
use vfs::{AnchoredPathBuf, FileId, VfsPath};

pub struct LoadPackagesRequest {
    pub force_reload_package_deps: bool,
}
pub struct Handle<H> {
    pub handle: H,
}
#[derive(Debug, Default)]
pub struct Loader {
    pub invalidated: Vec<paths::AbsPathBuf>,
}
impl vfs::loader::Handle for Loader {
    fn spawn(_: vfs::loader::Sender) -> Self {
        Loader::default()
    }
    fn set_config(&mut self, _: vfs::loader::Config) {}
    fn invalidate(&mut self, path: paths::AbsPathBuf) {
        self.invalidated.push(path);
    }
    fn load_sync(&mut self, _: &paths::AbsPath) -> Option<Vec<u8>> {
        None
    }
}
pub type ReqHandler = fn(&mut GlobalState, lsp_server::Response);
pub type Endings = HashMap<FileId, LineEndings>;

pub struct GlobalState {
    pub config: Arc<Config>,
    pub config_errors: Option<crate::config::validation::ConfigErrors>,
    pub analysis_host: AnalysisHost,
    pub opened_files: OpenedFiles,
    pub package_root_config: PackageRootConfig,
    pub vfs_loader: Handle<Box<Loader>>,
    pub vfs: Arc<RwLock<(vfs::Vfs, Endings)>>,
    pub load_aptos_packages_queue: OpQueue<LoadPackagesRequest, ()>,
}
pub struct GlobalStateSnapshot {
    pub config: Arc<Config>,
    pub analysis: Analysis,
    opened_files: OpenedFiles,
    vfs: Arc<RwLock<(vfs::Vfs, Endings)>>,
}
impl GlobalState {
    pub fn new(config: Config) -> GlobalState {
        let mut analysis_host = AnalysisHost::new();
        let vfs = Arc::new(RwLock::new((vfs::Vfs::default(), HashMap::default())));
        {
            let vfs = &mut vfs.write().0;
            let change = lang::builtins_file::add_to_vfs(vfs);
            analysis_host.apply_change(change);
        }
        GlobalState {
            config: Arc::new(config),
            config_errors: None,
            analysis_host,
            opened_files: OpenedFiles::default(),
            package_root_config: PackageRootConfig::default(),
            vfs_loader: Handle { handle: Box::default() },
            vfs,
            load_aptos_packages_queue: OpQueue::default(),
        }
    }
    pub fn snapshot(&self) -> GlobalStateSnapshot {
        GlobalStateSnapshot { config: self.config.clone(), analysis: self.analysis_host.analysis(), opened_files: self.opened_files.clone(), vfs: self.vfs.clone() }
    }
    pub fn send_request<R: lsp_types::Request>(&mut self, _: R::Params, _: ReqHandler) {}
    pub fn send_notification<N: Notification>(&self, _: N::Params) {}
    pub fn cancel(&mut self, _: lsp_server::RequestId) {}
    pub fn update_configuration(&mut self, config: Config) {
        self.config = Arc::new(config);
    }
}
impl GlobalStateSnapshot {
    pub fn vfs_read(&self) -> MappedRwLockReadGuard<'_, vfs::Vfs> {
        RwLockReadGuard::map(self.vfs.read(), |(it, _)| it)
    }
    pub fn url_to_file_id(&self, url: &Uri) -> anyhow::Result<FileId> {
        let path = from_proto::vfs_path(url)?;
        let (res, _) = self.vfs_read().file_id(&path).ok_or_else(|| anyhow::format_err!("file not found: {path}"))?;
        Ok(res)
    }
    pub fn file_id_to_url(&self, id: FileId) -> Uri {
        crate::lsp::to_proto::url_from_abs_path(self.vfs_read().file_path(id).as_path().unwrap())
    }
    pub fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
        let endings = self.vfs.read().1[&file_id];
        let index = self.analysis.file_line_index(file_id)?;
        Ok(LineIndex { index, endings, encoding: self.config.negotiated_encoding() })
    }
    pub fn file_version(&self, file_id: FileId) -> Option<i32> {
        Some(self.opened_files.get(self.vfs_read().file_path(file_id))?.version)
    }
    pub fn url_file_version(&self, url: &Uri) -> Option<i32> {
        Some(self.opened_files.get(&from_proto::vfs_path(url).ok()?)?.version)
    }
    pub fn anchored_path(&self, path: &AnchoredPathBuf) -> Uri {
        let mut base = self.vfs_read().file_path(path.anchor).clone();
        base.pop();
        crate::lsp::to_proto::url_from_abs_path(base.join(&path.path).unwrap().as_path().unwrap())
    }
    pub fn file_id_to_file_path(&self, file_id: FileId) -> VfsPath {
        self.vfs_read().file_path(file_id).clone()
    }
}
