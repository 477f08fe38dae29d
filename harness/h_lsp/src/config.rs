//! The settings the modules under test ask for.
use crate::line_index::PositionEncoding;
use camino::Utf8PathBuf;
use paths::AbsPathBuf;

#[derive(Clone)]
pub struct Config {
    pub encoding: PositionEncoding,
}
pub struct RunnablesConfig {
    pub tests_extra_args: Vec<String>,
    pub prover_extra_args: Vec<String>,
}
pub struct LensConfig {
    pub runnables: bool,
    pub specifications: bool,
}
pub struct ClientCommandsConfig {
    pub run_test: bool,
    pub debug_test: bool,
    pub debug_transaction: bool,
    pub show_references: bool,
    pub goto_location: bool,
}
pub struct DapConfig {
    pub path: Option<Utf8PathBuf>,
}
impl DapConfig {
    pub fn is_available(&self) -> bool {
        true
    }
}
pub struct CompletionSettings {
    pub enable_imports_on_the_fly: bool,
}
impl Config {
    pub fn negotiated_encoding(&self) -> PositionEncoding {
        self.encoding
    }
    pub fn caps(&self) -> &Config {
        self
    }
    pub fn insert_replace_support(&self) -> bool {
        true
    }
    pub fn completion_label_details_support(&self) -> bool {
        true
    }
    pub fn completion(&self) -> CompletionSettings {
        CompletionSettings { enable_imports_on_the_fly: true }
    }
    pub fn location_link(&self) -> bool {
        true
    }
    pub fn runnables(&self) -> RunnablesConfig {
        RunnablesConfig { tests_extra_args: vec![], prover_extra_args: vec![] }
    }
    pub fn lens(&self) -> LensConfig {
        LensConfig { runnables: true, specifications: true }
    }
    pub fn client_commands(&self) -> ClientCommandsConfig {
        ClientCommandsConfig { run_test: true, debug_test: true, debug_transaction: true, show_references: true, goto_location: true }
    }
    pub fn dap(&self) -> DapConfig {
        DapConfig { path: None }
    }
    pub fn open_server_logs(&self) -> bool {
        false
    }
    pub fn work_done_progress(&self) -> bool {
        true
    }
    pub fn remove_client_ws_root(&mut self, _: &AbsPathBuf) {}
    pub fn add_client_ws_root(&mut self, _: impl Iterator<Item = AbsPathBuf>) {}
    pub fn rediscover_packages(&mut self) {}
    pub fn apply_change(&self, _: config_change::ConfigChange) -> (Config, validation::ConfigErrors) {
        (self.clone(), validation::ConfigErrors::default())
    }
}
pub mod config_change {
    #[derive(Default)]
    pub struct ConfigChange(Option<serde_json::Value>);
    impl ConfigChange {
        pub fn change_client_config(&mut self, v: serde_json::Value) {
            self.0 = Some(v);
        }
    }
}
pub mod validation {
    #[derive(Default)]
    pub struct ConfigErrors(Vec<String>);
    impl ConfigErrors {
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
}
