//! Stand-in for the Zed extension API: the host is whatever the simulation installs.
pub use serde_json;
use std::sync::Mutex;
pub type Result<T, E = String> = core::result::Result<T, E>;
pub type EnvVars = Vec<(String, String)>;
#[derive(Clone, Debug, PartialEq)]
pub struct Command { pub command: String, pub args: Vec<String>, pub env: EnvVars }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DownloadedFileType { Gzip, GzipTar, Zip, Uncompressed }
#[derive(Clone, Debug)]
pub enum LanguageServerInstallationStatus { None, Downloading, CheckingForUpdate, Failed(String) }
#[derive(Clone, Debug)]
pub struct GithubRelease { pub version: String, pub assets: Vec<GithubReleaseAsset> }
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset { pub name: String, pub download_url: String }
#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions { pub require_assets: bool, pub pre_release: bool }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Os { Mac, Linux, Windows }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Architecture { Aarch64, X86, X8664 }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LanguageServerId(String);
impl LanguageServerId { pub fn sim(s: &str) -> Self { Self(s.into()) } }
impl AsRef<str> for LanguageServerId { fn as_ref(&self) -> &str { &self.0 } }
impl std::fmt::Display for LanguageServerId { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
/// What the editor does for its extensions.
pub trait Host: Send {
    fn latest_release(&mut self, repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease>;
    fn release(&mut self, repo: &str, tag: &str) -> Result<GithubRelease>;
    fn download(&mut self, url: &str, path: &str, kind: DownloadedFileType) -> Result<()>;
    fn platform(&mut self) -> (Os, Architecture);
    fn status(&mut self, id: &str, status: &LanguageServerInstallationStatus);
    fn settings(&mut self, category: &str, key: Option<&str>, worktree: Option<u64>) -> Result<String>;
    fn which(&mut self, name: &str) -> Option<String>;
    fn env(&mut self) -> EnvVars;
}
static HOST: Mutex<Option<Box<dyn Host>>> = Mutex::new(None);
pub fn sim_install(h: Box<dyn Host>) { *HOST.lock().unwrap() = Some(h); }
fn host<T>(f: impl FnOnce(&mut dyn Host) -> T) -> T { f(HOST.lock().unwrap().as_deref_mut().expect("host")) }
pub fn latest_github_release(repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease> { host(|h| h.latest_release(repo, options)) }
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> { host(|h| h.release(repo, tag)) }
pub fn download_file(url: &str, path: &str, kind: DownloadedFileType) -> Result<()> { host(|h| h.download(url, path, kind)) }
pub fn make_file_executable(path: &str) -> Result<()> { std::fs::metadata(path).map(|_| ()).map_err(|e| e.to_string()) }
pub fn current_platform() -> (Os, Architecture) { host(|h| h.platform()) }
pub fn set_language_server_installation_status(id: &LanguageServerId, s: &LanguageServerInstallationStatus) { host(|h| h.status(&id.0, s)) }
#[derive(Debug)]
pub struct Worktree(u64);
impl Worktree {
    pub fn sim(id: u64) -> Self { Worktree(id) }
    pub fn id(&self) -> u64 { self.0 }
    pub fn root_path(&self) -> String { "/project".into() }
    pub fn read_text_file(&self, p: &str) -> Result<String> { Err(format!("{p}: not found")) }
    pub fn which(&self, name: &str) -> Option<String> { host(|h| h.which(name)) }
    pub fn shell_env(&self) -> EnvVars { host(|h| h.env()) }
}
pub mod settings {
    use super::{Result, Worktree, host};
    use serde::{Deserialize, Serialize};
    use std::collections::HashMap;
    #[derive(Debug, Serialize, Deserialize)]
    pub struct LanguageSettings { pub tab_size: std::num::NonZeroU32 }
    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings { pub binary: Option<CommandSettings>, pub initialization_options: Option<serde_json::Value>, pub settings: Option<serde_json::Value> }
    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings { pub path: Option<String>, pub arguments: Option<Vec<String>>, pub env: Option<HashMap<String, String>> }
    fn get<T: serde::de::DeserializeOwned>(category: &str, key: Option<&str>, w: &Worktree) -> Result<T> { serde_json::from_str(&host(|h| h.settings(category, key, Some(w.id())))?).map_err(|e| e.to_string()) }
    impl LanguageSettings { pub fn for_worktree(language: Option<&str>, w: &Worktree) -> Result<Self> { get("language", language, w) } }
    impl LspSettings { pub fn for_worktree(name: &str, w: &Worktree) -> Result<Self> { get("lsp", Some(name), w) } }
}
pub trait Extension: Send + Sync {
    fn new() -> Self where Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> { Err("`language_server_command` not implemented".into()) }
    fn language_server_initialization_options(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
    fn language_server_workspace_configuration(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
}
#[macro_export]
macro_rules! register_extension {
    ($t:ty) => { #[unsafe(no_mangle)] pub fn sim_new_extension() -> Box<dyn zed_extension_api::Extension> { Box::new(<$t as zed_extension_api::Extension>::new()) } };
}
