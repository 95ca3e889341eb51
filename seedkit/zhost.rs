//! A small stand-in for the editor: one release, an archive that is unpacked into the working directory.
use std::sync::{Arc, Mutex};
pub use zed_extension_api as zed;
extern crate zed_air as _;
unsafe extern "Rust" { fn sim_new_extension() -> Box<dyn zed::Extension>; }
#[derive(Default)]
pub struct State { pub version: String, pub settings: Option<String>, pub which: Option<String>, pub offline: bool, pub cut: bool, pub downloads: usize }
struct H(Arc<Mutex<State>>);
pub const STEM: &str = "air-x86_64-unknown-linux-gnu";
pub const BINARY: &[u8] = b"the whole of air";
impl zed::Host for H {
    fn latest_release(&mut self, _: &str, _: zed::GithubReleaseOptions) -> zed::Result<zed::GithubRelease> {
        let s = self.0.lock().unwrap();
        if s.offline { return Err("offline".into()); }
        Ok(zed::GithubRelease { version: s.version.clone(), assets: vec![zed::GithubReleaseAsset { name: format!("{STEM}.tar.gz"), download_url: "https://x".into() }] })
    }
    fn release(&mut self, r: &str, _: &str) -> zed::Result<zed::GithubRelease> { self.latest_release(r, zed::GithubReleaseOptions { require_assets: true, pre_release: false }) }
    fn download(&mut self, _: &str, path: &str, _: zed::DownloadedFileType) -> zed::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.downloads += 1;
        std::fs::create_dir_all(format!("{path}/{STEM}")).map_err(|e| e.to_string())?;
        if s.cut { std::fs::write(format!("{path}/{STEM}/air"), &BINARY[..4]).unwrap(); return Err("connection reset".into()); }
        std::fs::write(format!("{path}/{STEM}/air"), BINARY).map_err(|e| e.to_string())
    }
    fn platform(&mut self) -> (zed::Os, zed::Architecture) { (zed::Os::Linux, zed::Architecture::X8664) }
    fn status(&mut self, _: &str, _: &zed::LanguageServerInstallationStatus) {}
    fn settings(&mut self, c: &str, _: Option<&str>, _: Option<u64>) -> zed::Result<String> { if c == "lsp" { self.0.lock().unwrap().settings.clone().ok_or("none".into()) } else { Err("none".into()) } }
    fn which(&mut self, _: &str) -> Option<String> { self.0.lock().unwrap().which.clone() }
    fn env(&mut self) -> zed::EnvVars { vec![] }
}
pub struct Editor { pub s: Arc<Mutex<State>>, ext: Box<dyn zed::Extension> }
impl Editor {
    pub fn new(version: &str) -> Self {
        std::env::set_current_dir(std::env::args().nth(1).expect("a scratch directory")).unwrap();
        let s = Arc::new(Mutex::new(State { version: version.into(), ..Default::default() }));
        zed::sim_install(Box::new(H(s.clone())));
        Editor { s, ext: unsafe { sim_new_extension() } }
    }
    pub fn set(&self, f: impl FnOnce(&mut State)) { f(&mut self.s.lock().unwrap()) }
    /// The editor is closed and opened again.
    pub fn reopen(&mut self) { self.ext = unsafe { sim_new_extension() } }
    pub fn command(&mut self) -> zed::Result<zed::Command> { self.ext.language_server_command(&zed::LanguageServerId::sim("air"), &zed::Worktree::sim(1)) }
    pub fn whole(&self, path: &str) -> bool { std::fs::read(path).is_ok_and(|b| b == BINARY) }
    pub fn downloads(&self) -> usize { self.s.lock().unwrap().downloads }
}
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("DEMO FAILS: {what}"); std::process::exit(1); } }
