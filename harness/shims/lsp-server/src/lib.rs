//! Stand-in for `lsp-server`: the messages the modules under test build.
use serde_json::Value;
#[derive(Debug, Clone)]
pub struct Notification { pub method: String, pub params: Value }
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RequestId { Int(i32), String(String) }
impl From<i32> for RequestId { fn from(i: i32) -> Self { RequestId::Int(i) } }
impl From<String> for RequestId { fn from(s: String) -> Self { RequestId::String(s) } }
#[derive(Debug, Clone)]
pub struct ResponseError { pub code: i32, pub message: String, pub data: Option<Value> }
#[derive(Debug, Clone)]
pub struct Response { pub id: RequestId, pub result: Option<Value>, pub error: Option<ResponseError> }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(i32)]
pub enum ErrorCode {
    ParseError = -32700, InvalidRequest = -32600, MethodNotFound = -32601, InvalidParams = -32602, InternalError = -32603,
    ServerNotInitialized = -32002, UnknownErrorCode = -32001, RequestCanceled = -32800, ContentModified = -32801, ServerCancelled = -32802, RequestFailed = -32803,
}
