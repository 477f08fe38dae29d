//! Stand-in for `gen-lsp-types`: the types the modules under test use.
#![allow(non_upper_case_globals)]
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::Value;
pub type Url = Uri;

macro_rules! data {
    ($($(#[$m:meta])* $name:ident { $($f:ident : $t:ty),* $(,)? })*) => { $(
        $(#[$m])*
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        pub struct $name { $(pub $f: $t),* }
    )* };
}
macro_rules! kinds {
    ($($name:ident { $($v:ident),* $(,)? })*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
        pub enum $name { $($v),* }
    )* };
}
macro_rules! either {
    ($($name:ident { $($v:ident($t:ty)),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(untagged)]
        pub enum $name { $($v($t)),* }
        $(impl From<$t> for $name { fn from(t: $t) -> Self { $name::$v(t) } })*
    )* };
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub const fn new(line: u32, character: u32) -> Self { Position { line, character } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub const fn new(start: Position, end: Position) -> Self { Range { start, end } } }

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Uri(String);
impl Uri {
    pub fn parse(s: &str) -> Result<Uri, String> { Ok(Uri(s.to_owned())) }
    pub fn from_file_path(p: impl AsRef<std::path::Path>) -> Result<Uri, ()> { Ok(Uri(format!("file://{}", p.as_ref().to_str().ok_or(())?))) }
    pub fn to_file_path(&self) -> Result<std::path::PathBuf, ()> { self.0.strip_prefix("file://").map(Into::into).ok_or(()) }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl From<Uri> for String { fn from(u: Uri) -> String { u.0 } }
impl std::fmt::Display for Uri { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MessageDirection { ClientToServer, ServerToClient, Both }
macro_rules! method { ($n:ident) => {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct $n(&'static str);
    impl $n { pub const fn new(s: &'static str) -> Self { $n(s) } pub fn as_str(&self) -> &'static str { self.0 } }
    impl From<$n> for String { fn from(n: $n) -> String { n.0.to_owned() } }
} }
method!(LspRequestMethod);
method!(LspNotificationMethod);
pub trait Request { type Params: DeserializeOwned + Serialize; type Result: DeserializeOwned + Serialize; const METHOD: LspRequestMethod; const MESSAGE_DIRECTION: MessageDirection; }
pub trait Notification { type Params: DeserializeOwned + Serialize; const METHOD: LspNotificationMethod; const MESSAGE_DIRECTION: MessageDirection; }
macro_rules! requests { ($($n:ident($p:ty) -> $r:ty = $m:literal;)*) => { $( pub enum $n {} impl Request for $n { type Params = $p; type Result = $r; const METHOD: LspRequestMethod = LspRequestMethod::new($m); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; } )* } }
macro_rules! notifications { ($($n:ident($p:ty) = $m:literal;)*) => { $( pub enum $n {} impl Notification for $n { type Params = $p; const METHOD: LspNotificationMethod = LspNotificationMethod::new($m); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; } )* } }
requests! {
    ShowMessageRequest(ShowMessageRequestParams) -> Option<MessageActionItem> = "window/showMessageRequest";
    WorkDoneProgressCreateRequest(WorkDoneProgressCreateParams) -> () = "window/workDoneProgress/create";
    ConfigurationRequest(ConfigurationParams) -> Vec<Value> = "workspace/configuration";
}
notifications! {
    ShowMessageNotification(ShowMessageParams) = "window/showMessage";
    ProgressNotification(ProgressParams) = "$/progress";
}
kinds! {
    MessageType { Error, Warning, Info, Log, Debug }
    SymbolKind { File, Module, Namespace, Package, Class, Method, Property, Field, Constructor, Enum, Interface, Function, Variable, Constant, String, Number, Boolean, Array, Object, Key, Null, EnumMember, Struct, Event, Operator, TypeParameter }
    DiagnosticSeverity { Error, Warning, Information, Hint }
    CompletionItemKind { Text, Method, Function, Constructor, Field, Variable, Class, Interface, Module, Property, Unit, Value, Enum, Keyword, Snippet, Color, File, Reference, Folder, EnumMember, Constant, Struct, Event, Operator, TypeParameter }
    InsertTextFormat { PlainText, Snippet }
    MarkupKind { PlainText, Markdown }
    InlayHintKind { Type, Parameter }
    CodeActionKind { Empty, QuickFix, Refactor, RefactorExtract, RefactorInline, RefactorRewrite, RefactorMove, Source, SourceOrganizeImports, SourceFixAll }
    CodeActionTriggerKind { Invoked, Automatic }
    CompletionItemTag { Deprecated }
    InsertTextMode { AsIs, AdjustIndentation }
    CodeActionTag { LLMGenerated }
    SemanticTokenTypes { Namespace, Type, Class, Enum, Interface, Struct, TypeParameter, Parameter, Variable, Property, EnumMember, Event, Function, Method, Macro, Label, Comment, String, Keyword, Number, Regexp, Decorator, Operator, Modifier }
    FileChangeType { Created, Changed, Deleted }
}
impl SemanticTokenTypes {
    pub const fn as_str(&self) -> &'static str {
        use SemanticTokenTypes::*;
        match self { Namespace => "namespace", Type => "type", Class => "class", Enum => "enum", Interface => "interface", Struct => "struct", TypeParameter => "typeParameter", Parameter => "parameter", Variable => "variable", Property => "property", EnumMember => "enumMember", Event => "event", Function => "function", Method => "method", Macro => "macro", Label => "label", Comment => "comment", String => "string", Keyword => "keyword", Number => "number", Regexp => "regexp", Decorator => "decorator", Operator => "operator", Modifier => "modifier" }
    }
}
data! {
    MessageActionItem { title: String }
    ShowMessageRequestParams { kind: MessageType, message: String, actions: Option<Vec<MessageActionItem>> }
    ShowMessageParams { kind: MessageType, message: String }
    WorkDoneProgressCreateParams { token: ProgressToken }
    ProgressParams { token: ProgressToken, value: Value }
    WorkDoneProgressBegin { title: String, cancellable: Option<bool>, message: Option<String>, percentage: Option<u32> }
    WorkDoneProgressReport { cancellable: Option<bool>, message: Option<String>, percentage: Option<u32> }
    WorkDoneProgressEnd { message: Option<String> }
    #[derive(Default)] WorkDoneProgressParams { work_done_token: Option<ProgressToken> }
    #[derive(Default)] PartialResultParams { partial_result_token: Option<ProgressToken> }
    WorkDoneProgressCancelParams { token: ProgressToken }
    ConfigurationItem { scope_uri: Option<Uri>, section: Option<String> }
    ConfigurationParams { items: Vec<ConfigurationItem> }
    #[derive(Eq)] TextDocumentIdentifier { uri: Uri }
    VersionedTextDocumentIdentifier { version: i32, text_document_identifier: TextDocumentIdentifier }
    OptionalVersionedTextDocumentIdentifier { text_document_identifier: TextDocumentIdentifier, version: Option<i32> }
    TextDocumentItem { uri: Uri, language_id: String, version: i32, text: String }
    TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position }
    ImplementationParams { text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams }
    #[derive(Default)] TextDocumentContentChangePartial { range: Range, range_length: Option<u32>, text: String }
    #[derive(Default)] TextDocumentContentChangeWholeDocument { text: String }
    DidOpenTextDocumentParams { text_document: TextDocumentItem }
    DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
    DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
    DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, text: Option<String> }
    DidChangeConfigurationParams { settings: Value }
    FileEvent { uri: Uri, kind: FileChangeType }
    DidChangeWatchedFilesParams { changes: Vec<FileEvent> }
    WorkspaceFolder { uri: Uri, name: String }
    WorkspaceFoldersChangeEvent { added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder> }
    DidChangeWorkspaceFoldersParams { event: WorkspaceFoldersChangeEvent }
    CancelParams { id: Id }
    #[derive(Eq, Default)] TextEdit { range: Range, new_text: String }
    #[derive(Eq)] InsertReplaceEdit { new_text: String, insert: Range, replace: Range }
    #[derive(Default)] CompletionItemLabelDetails { detail: Option<String>, description: Option<String> }
    MarkupContent { kind: MarkupKind, value: String }
    Command { title: String, tooltip: Option<String>, command: String, arguments: Option<Vec<Value>> }
    Location { uri: Uri, range: Range }
    LocationLink { origin_selection_range: Option<Range>, target_uri: Uri, target_range: Range, target_selection_range: Range }
    TextDocumentEdit { text_document: OptionalVersionedTextDocumentIdentifier, edits: Vec<Edit> }
    CreateFile { uri: Uri, options: Option<Value>, annotation_id: Option<String> }
    #[derive(Default)] WorkspaceEdit { changes: Option<std::collections::HashMap<Uri, Vec<TextEdit>>>, document_changes: Option<Vec<DocumentChange>>, change_annotations: Option<Value> }
    #[derive(Eq)] CodeActionParams { text_document: TextDocumentIdentifier, range: Range }
    CodeAction { title: String, kind: Option<CodeActionKind>, diagnostics: Option<Vec<Value>>, is_preferred: Option<bool>, disabled: Option<Value>, edit: Option<WorkspaceEdit>, command: Option<Command>, data: Option<Value>, tags: Option<Vec<CodeActionTag>> }
    ParameterInformation { label: ParameterInformationLabel, documentation: Option<Tooltip> }
    SignatureInformation { label: String, documentation: Option<Tooltip>, parameters: Option<Vec<ParameterInformation>>, active_parameter: Option<ActiveParameter> }
    SignatureHelp { signatures: Vec<SignatureInformation>, active_signature: Option<u32>, active_parameter: Option<ActiveParameter> }
    InlayHint { position: Position, label: Label, kind: Option<InlayHintKind>, text_edits: Option<Vec<TextEdit>>, tooltip: Option<Tooltip>, padding_left: Option<bool>, padding_right: Option<bool>, data: Option<Value> }
    InlayHintLabelPart { value: String, tooltip: Option<Tooltip>, location: Option<Location>, command: Option<Command> }
    CodeLens { range: Range, command: Option<Command>, data: Option<Value> }
    SemanticTokens { result_id: Option<String>, data: Vec<SemanticToken> }
    SemanticTokensEdit { start: u32, delete_count: u32, data: Option<Vec<SemanticToken>> }
    #[derive(Default)] CompletionItem {
        label: String, label_details: Option<CompletionItemLabelDetails>, kind: Option<CompletionItemKind>, tags: Option<Vec<CompletionItemTag>>, detail: Option<String>, documentation: Option<Tooltip>,
        deprecated: Option<bool>, preselect: Option<bool>, sort_text: Option<String>, filter_text: Option<String>, insert_text: Option<String>, insert_text_format: Option<InsertTextFormat>,
        insert_text_mode: Option<InsertTextMode>, text_edit: Option<CompletionItemTextEdit>, text_edit_text: Option<String>, additional_text_edits: Option<Vec<TextEdit>>, commit_characters: Option<Vec<String>>, command: Option<Command>, data: Option<Value>
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
impl TextEdit { pub fn new(range: Range, new_text: String) -> Self { TextEdit { range, new_text } } }
impl Location { pub fn new(uri: Uri, range: Range) -> Self { Location { uri, range } } }
impl TextDocumentIdentifier { pub fn new(uri: Uri) -> Self { TextDocumentIdentifier { uri } } }
impl TextDocumentPositionParams { pub fn new(text_document: TextDocumentIdentifier, position: Position) -> Self { TextDocumentPositionParams { text_document, position } } }
either! {
    ProgressToken { Int(i32), String(String) }
    Id { Int(i32), String(String) }
    TextDocumentContentChangeEvent { TextDocumentContentChangePartial(TextDocumentContentChangePartial), TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) }
    CompletionItemTextEdit { InsertReplaceEdit(InsertReplaceEdit), TextEdit(TextEdit) }
    Edit { TextEdit(TextEdit), AnnotatedTextEdit(AnnotatedTextEdit), SnippetTextEdit(SnippetTextEdit) }
    DocumentChange { TextDocumentEdit(TextDocumentEdit), CreateFile(CreateFile) }
    ParameterInformationLabel { String(String), Tuple((u32, u32)) }
    Tooltip { String(String), MarkupContent(MarkupContent) }
    Label { String(String), InlayHintLabelPartList(Vec<InlayHintLabelPart>) }
    DefinitionResponse { Definition(Definition), DefinitionLinkList(Vec<LocationLink>) }
    Definition { Location(Location), LocationList(Vec<Location>) }
}
data! {
    AnnotatedTextEdit { text_edit: TextEdit, annotation_id: String }
    SnippetTextEdit { range: Range, snippet: String }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ActiveParameter { Int(u32), Null(()) }
