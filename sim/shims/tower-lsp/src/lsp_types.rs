//! The part of `lsp-types` a formatting server needs, with the same JSON shape.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::borrow::Cow;
use std::collections::HashMap;
pub use url::Url;
macro_rules! obj {
    ($($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
    )* };
}
macro_rules! objd {
    ($($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase", default)]
        $(#[$m])*
        pub struct $n { $(#[serde(skip_serializing_if = "skip")] $(#[$fm])* pub $f: $t),* }
    )* };
}
trait Skip { fn is_skip(&self) -> bool; }
impl<T> Skip for Option<T> { fn is_skip(&self) -> bool { self.is_none() } }
fn skip<T: Skip>(t: &T) -> bool { t.is_skip() }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Serialize, Deserialize)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub const fn new(line: u32, character: u32) -> Self { Position { line, character } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub const fn new(start: Position, end: Position) -> Self { Range { start, end } } }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct PositionEncodingKind(Cow<'static, str>);
impl PositionEncodingKind {
    pub const UTF8: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-8"));
    pub const UTF16: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-16"));
    pub const UTF32: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-32"));
    pub const fn new(s: &'static str) -> Self { PositionEncodingKind(Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { &self.0 }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> { Left(A), Right(B) }
pub type NumberOrString = OneOf<i32, String>;
pub type ProgressToken = OneOf<i32, String>;
pub type LSPAny = Value;
objd! {
    WorkDoneProgressParams { work_done_token: Option<ProgressToken> }
    WorkDoneProgressOptions { work_done_progress: Option<bool> }
    GeneralClientCapabilities { position_encodings: Option<Vec<PositionEncodingKind>> }
    #[derive(Copy)] DynamicRegistrationClientCapabilities { dynamic_registration: Option<bool> }
    #[derive(Copy)] DidChangeWatchedFilesClientCapabilities { dynamic_registration: Option<bool>, relative_pattern_support: Option<bool> }
    WorkspaceClientCapabilities { apply_edit: Option<bool>, did_change_configuration: Option<DynamicRegistrationClientCapabilities>, did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>, workspace_folders: Option<bool>, configuration: Option<bool> }
    TextDocumentSyncClientCapabilities { dynamic_registration: Option<bool>, will_save: Option<bool>, will_save_wait_until: Option<bool>, did_save: Option<bool> }
    TextDocumentClientCapabilities { synchronization: Option<TextDocumentSyncClientCapabilities>, formatting: Option<DynamicRegistrationClientCapabilities>, range_formatting: Option<DynamicRegistrationClientCapabilities> }
    WindowClientCapabilities { work_done_progress: Option<bool> }
    ClientCapabilities { workspace: Option<WorkspaceClientCapabilities>, text_document: Option<TextDocumentClientCapabilities>, window: Option<WindowClientCapabilities>, general: Option<GeneralClientCapabilities>, experimental: Option<Value> }
    WorkspaceFoldersServerCapabilities { supported: Option<bool>, change_notifications: Option<OneOf<bool, String>> }
    WorkspaceFileOperationsServerCapabilities { did_create: Option<Value>, will_create: Option<Value>, did_rename: Option<Value>, will_rename: Option<Value>, did_delete: Option<Value>, will_delete: Option<Value> }
    WorkspaceServerCapabilities { workspace_folders: Option<WorkspaceFoldersServerCapabilities>, file_operations: Option<WorkspaceFileOperationsServerCapabilities> }
    SaveOptions { include_text: Option<bool> }
    TextDocumentSyncOptions { open_close: Option<bool>, change: Option<TextDocumentSyncKind>, will_save: Option<bool>, will_save_wait_until: Option<bool>, save: Option<Value> }
    DocumentFormattingOptions { work_done_progress: Option<bool> }
    DocumentRangeFormattingOptions { work_done_progress: Option<bool> }
    ServerCapabilities { position_encoding: Option<PositionEncodingKind>, text_document_sync: Option<TextDocumentSyncCapability>, hover_provider: Option<bool>, document_formatting_provider: Option<OneOf<bool, DocumentFormattingOptions>>, document_range_formatting_provider: Option<OneOf<bool, DocumentRangeFormattingOptions>>, workspace: Option<WorkspaceServerCapabilities>, experimental: Option<Value> }
}
#[allow(deprecated)]
mod init {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct InitializeParams {
        #[serde(default)] pub process_id: Option<u32>,
        #[serde(default, skip_serializing_if = "Option::is_none")] #[deprecated] pub root_path: Option<String>,
        #[serde(default)] #[deprecated] pub root_uri: Option<Url>,
        #[serde(default, skip_serializing_if = "Option::is_none")] pub initialization_options: Option<Value>,
        pub capabilities: ClientCapabilities,
        #[serde(default, skip_serializing_if = "Option::is_none")] pub trace: Option<TraceValue>,
        #[serde(default, skip_serializing_if = "Option::is_none")] pub workspace_folders: Option<Vec<WorkspaceFolder>>,
        #[serde(default, skip_serializing_if = "Option::is_none")] pub client_info: Option<ClientInfo>,
        #[serde(default, skip_serializing_if = "Option::is_none")] pub locale: Option<String>,
        #[serde(flatten)] pub work_done_progress_params: WorkDoneProgressParams,
    }
}
pub use init::InitializeParams;
#[derive(Debug, Eq, PartialEq, Clone, Copy, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum TraceValue { #[default] Off, Messages, Verbose }
#[derive(Debug, Eq, PartialEq, Clone, Copy, Serialize, Deserialize)]
pub struct InitializedParams {}
obj! {
    ClientInfo { name: String, #[serde(default, skip_serializing_if = "Option::is_none")] version: Option<String> }
    ServerInfo { name: String, #[serde(default, skip_serializing_if = "Option::is_none")] version: Option<String> }
    #[derive(Eq)] WorkspaceFolder { uri: Url, name: String }
    #[derive(Default)] InitializeResult { capabilities: ServerCapabilities, #[serde(default, skip_serializing_if = "Option::is_none")] server_info: Option<ServerInfo> }
    #[derive(Default)] WorkspaceFoldersChangeEvent { added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder> }
    #[derive(Default)] DidChangeWorkspaceFoldersParams { event: WorkspaceFoldersChangeEvent }
    DidChangeConfigurationParams { settings: Value }
    FileEvent { uri: Url, #[serde(rename = "type")] typ: FileChangeType }
    DidChangeWatchedFilesParams { changes: Vec<FileEvent> }
    #[derive(Eq)] TextDocumentItem { uri: Url, language_id: String, version: i32, text: String }
    #[derive(Eq)] TextDocumentIdentifier { uri: Url }
    #[derive(Eq)] VersionedTextDocumentIdentifier { uri: Url, version: i32 }
    #[derive(Eq)] TextDocumentContentChangeEvent { #[serde(default, skip_serializing_if = "Option::is_none")] range: Option<Range>, #[serde(default, skip_serializing_if = "Option::is_none")] range_length: Option<u32>, text: String }
    DidOpenTextDocumentParams { text_document: TextDocumentItem }
    DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
    DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, #[serde(default, skip_serializing_if = "Option::is_none")] text: Option<String> }
    DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
    #[derive(Default)] FormattingOptions { tab_size: u32, insert_spaces: bool, #[serde(default, skip_serializing_if = "Option::is_none")] trim_trailing_whitespace: Option<bool>, #[serde(default, skip_serializing_if = "Option::is_none")] insert_final_newline: Option<bool>, #[serde(default, skip_serializing_if = "Option::is_none")] trim_final_newlines: Option<bool>, #[serde(flatten)] properties: HashMap<String, FormattingProperty> }
    DocumentFormattingParams { text_document: TextDocumentIdentifier, options: FormattingOptions, #[serde(flatten)] work_done_progress_params: WorkDoneProgressParams }
    DocumentRangeFormattingParams { text_document: TextDocumentIdentifier, range: Range, options: FormattingOptions, #[serde(flatten)] work_done_progress_params: WorkDoneProgressParams }
    #[derive(Eq)] TextEdit { range: Range, new_text: String }
    #[derive(Eq)] Location { uri: Url, range: Range }
    TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position }
    #[derive(Default)] Diagnostic { range: Range, #[serde(default, skip_serializing_if = "Option::is_none")] code: Option<NumberOrString>, #[serde(default, skip_serializing_if = "Option::is_none")] source: Option<String>, message: String }
    PublishDiagnosticsParams { uri: Url, diagnostics: Vec<Diagnostic>, #[serde(default, skip_serializing_if = "Option::is_none")] version: Option<i32> }
    Registration { id: String, method: String, #[serde(default, skip_serializing_if = "Option::is_none")] register_options: Option<Value> }
    RegistrationParams { registrations: Vec<Registration> }
    Unregistration { id: String, method: String }
    UnregistrationParams { unregisterations: Vec<Unregistration> }
    FileSystemWatcher { glob_pattern: GlobPattern, #[serde(default, skip_serializing_if = "Option::is_none")] kind: Option<u8> }
    DidChangeWatchedFilesRegistrationOptions { watchers: Vec<FileSystemWatcher> }
    #[derive(Default)] ConfigurationItem { #[serde(default, skip_serializing_if = "Option::is_none")] scope_uri: Option<Url>, #[serde(default, skip_serializing_if = "Option::is_none")] section: Option<String> }
    ConfigurationParams { items: Vec<ConfigurationItem> }
    LogMessageParams { #[serde(rename = "type")] typ: MessageType, message: String }
    ShowMessageParams { #[serde(rename = "type")] typ: MessageType, message: String }
}
impl TextEdit { pub fn new(range: Range, new_text: String) -> Self { TextEdit { range, new_text } } }
impl TextDocumentItem { pub fn new(uri: Url, language_id: String, version: i32, text: String) -> Self { TextDocumentItem { uri, language_id, version, text } } }
impl VersionedTextDocumentIdentifier { pub fn new(uri: Url, version: i32) -> Self { VersionedTextDocumentIdentifier { uri, version } } }
impl FileEvent { pub fn new(uri: Url, typ: FileChangeType) -> Self { FileEvent { uri, typ } } }
impl Location { pub fn new(uri: Url, range: Range) -> Self { Location { uri, range } } }
impl TextDocumentPositionParams { pub fn new(text_document: TextDocumentIdentifier, position: Position) -> Self { TextDocumentPositionParams { text_document, position } } }
impl PublishDiagnosticsParams { pub fn new(uri: Url, diagnostics: Vec<Diagnostic>, version: Option<i32>) -> Self { PublishDiagnosticsParams { uri, diagnostics, version } } }
impl Diagnostic { pub fn new_simple(range: Range, message: String) -> Self { Diagnostic { range, message, ..Default::default() } } }
/// How a file changed, as the bits of a watcher's `kind`.
pub struct WatchKind;
#[allow(non_upper_case_globals)]
impl WatchKind { pub const Create: u8 = 1; pub const Change: u8 = 2; pub const Delete: u8 = 4; }
impl From<TextDocumentSyncKind> for TextDocumentSyncCapability { fn from(k: TextDocumentSyncKind) -> Self { TextDocumentSyncCapability::Kind(k) } }
impl From<TextDocumentSyncOptions> for TextDocumentSyncCapability { fn from(o: TextDocumentSyncOptions) -> Self { TextDocumentSyncCapability::Options(o) } }
impl From<String> for PositionEncodingKind { fn from(s: String) -> Self { PositionEncodingKind(Cow::Owned(s)) } }
impl From<&'static str> for PositionEncodingKind { fn from(s: &'static str) -> Self { PositionEncodingKind(Cow::Borrowed(s)) } }
impl From<String> for GlobPattern { fn from(s: String) -> Self { GlobPattern::String(s) } }
impl From<RelativePattern> for GlobPattern { fn from(p: RelativePattern) -> Self { GlobPattern::Relative(p) } }
impl TextDocumentIdentifier { pub fn new(uri: Url) -> Self { TextDocumentIdentifier { uri } } }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum FormattingProperty { Bool(bool), Number(f64), String(String) }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern { String(String), Relative(RelativePattern) }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RelativePattern { pub base_uri: Url, pub pattern: String }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind), Options(TextDocumentSyncOptions) }
macro_rules! num { ($n:ident { $($c:ident = $v:expr),* }) => {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
    #[serde(transparent)]
    pub struct $n(i32);
    impl $n { $(pub const $c: $n = $n($v);)* }
} }
num! { TextDocumentSyncKind { NONE = 0, FULL = 1, INCREMENTAL = 2 } }
num! { MessageType { ERROR = 1, WARNING = 2, INFO = 3, LOG = 4 } }
num! { FileChangeType { CREATED = 1, CHANGED = 2, DELETED = 3 } }
pub mod notification {
    use super::*;
    use serde::de::DeserializeOwned;
    pub trait Notification { type Params: DeserializeOwned + Serialize + Send + Sync + 'static; const METHOD: &'static str; }
    macro_rules! n { ($($t:ident $p:ty = $m:expr),* $(,)?) => { $(#[derive(Debug)] pub enum $t {} impl Notification for $t { type Params = $p; const METHOD: &'static str = $m; })* } }
    n! { LogMessage LogMessageParams = "window/logMessage", ShowMessage ShowMessageParams = "window/showMessage", TelemetryEvent Value = "telemetry/event", PublishDiagnostics PublishDiagnosticsParams = "textDocument/publishDiagnostics",
        Initialized InitializedParams = "initialized", DidOpenTextDocument DidOpenTextDocumentParams = "textDocument/didOpen", DidChangeTextDocument DidChangeTextDocumentParams = "textDocument/didChange", DidSaveTextDocument DidSaveTextDocumentParams = "textDocument/didSave", DidCloseTextDocument DidCloseTextDocumentParams = "textDocument/didClose",
        DidChangeConfiguration DidChangeConfigurationParams = "workspace/didChangeConfiguration", DidChangeWatchedFiles DidChangeWatchedFilesParams = "workspace/didChangeWatchedFiles", DidChangeWorkspaceFolders DidChangeWorkspaceFoldersParams = "workspace/didChangeWorkspaceFolders" }
}
pub mod request {
    use super::*;
    use serde::de::DeserializeOwned;
    pub trait Request { type Params: DeserializeOwned + Serialize + Send + Sync + 'static; type Result: DeserializeOwned + Serialize + Send + Sync + 'static; const METHOD: &'static str; }
    macro_rules! r { ($($t:ident $p:ty => $o:ty = $m:expr),* $(,)?) => { $(#[derive(Debug)] pub enum $t {} impl Request for $t { type Params = $p; type Result = $o; const METHOD: &'static str = $m; })* } }
    r! { RegisterCapability RegistrationParams => () = "client/registerCapability", UnregisterCapability UnregistrationParams => () = "client/unregisterCapability", WorkspaceConfiguration ConfigurationParams => Vec<Value> = "workspace/configuration", WorkspaceFoldersRequest () => Option<Vec<WorkspaceFolder>> = "workspace/workspaceFolders" }
}
