#![allow(dead_code, unused, private_interfaces)]
pub mod config;
#[path = "/repo/crates/aptos-language-server/src/file_changes.rs"]
mod file_changes;
#[path = "state.rs"]
pub mod global_state;
mod handlers {
    #[path = "/repo/crates/aptos-language-server/src/handlers/notification.rs"]
    pub(crate) mod notification;
}
#[path = "/repo/crates/aptos-language-server/src/line_index.rs"]
mod line_index;
#[path = "/repo/crates/aptos-language-server/src/op_queue.rs"]
mod op_queue;
#[path = "/repo/crates/aptos-language-server/src/opened_files.rs"]
mod opened_files;
mod reload {
    use project_model::manifest_path::is_move_toml;
    pub(crate) fn is_manifest_file(path: &vfs::AbsPath) -> bool {
        path.file_name().is_some_and(|n| is_move_toml(n.into()))
    }
}
pub(crate) mod lsp {
    #[path = "/repo/crates/aptos-language-server/src/lsp/ext.rs"]
    pub mod ext;
    #[path = "/repo/crates/aptos-language-server/src/lsp/from_proto.rs"]
    pub(crate) mod from_proto;
    #[path = "/repo/crates/aptos-language-server/src/lsp/semantic_tokens.rs"]
    pub(crate) mod semantic_tokens;
    #[path = "/repo/crates/aptos-language-server/src/lsp/to_proto.rs"]
    pub(crate) mod to_proto;
    #[path = "/repo/crates/aptos-language-server/src/lsp/utils.rs"]
    pub(crate) mod utils;
    #[derive(Debug)]
    pub(crate) struct LspError {
        pub(crate) code: i32,
        pub(crate) message: String,
    }
}
pub use config::Config;
pub use lsp::ext as lsp_ext;
pub fn from_json<T: serde::de::DeserializeOwned>(what: &str, json: &serde_json::Value) -> anyhow::Result<T> {
    serde_json::from_value(json.clone()).map_err(|e| anyhow::format_err!("Failed to deserialize {what}: {e}; {json}"))
}
mod doc;

sym::harnesses! {
fn C11() {
    doc::changes();
}
fn C11s() {
    doc::sync();
}
fn C12() {
    doc::tokens();
}
fn C12d() {
    doc::delta();
}
fn C13() {
    doc::edits();
}
}
