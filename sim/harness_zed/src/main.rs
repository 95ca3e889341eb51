//! Simulation of the Zed extension (editors/zed): the real extension code runs against a simulated editor host, GitHub and disk.
//! A case is a history of editor sessions over one extension directory; each session may crash at any disk operation.
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::driver::{Check, Ctx, DynCheck, Finding, finding};
use simrt::sim::{self, Fault, Kind, Rng, RunEnv, SimCfg};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use zed_extension_api as zed;
extern crate zed_air as _;
unsafe extern "Rust" { fn sim_new_extension() -> Box<dyn zed::Extension>; }
#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Look { Ok, Fails, NoAsset }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Load { Ok, Refused, Cut(u32) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Act {
    Request { settings: Option<Value>, which: Option<String>, look: Look, load: Load },
    /// The options and the configuration handed to the server.
    Options { settings: Option<Value> },
    /// The user or the system removes the binary / a whole download.
    Lose { dir: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step { release: usize, act: Act }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session { steps: Vec<Step>, cfg: SimCfg }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { os: u8, arch: u8, order: u8, junk: u8, sessions: Vec<Session> }

const VERSIONS: [&str; 6] = ["0.8.9", "0.9.0", "0.10.0", "0.10.0-rc1", "v1.0.0", "1.0.0"];
fn platform(c: &Case) -> (zed::Os, zed::Architecture) { ([zed::Os::Linux, zed::Os::Mac, zed::Os::Windows][c.os as usize % 3], [zed::Architecture::X8664, zed::Architecture::Aarch64, zed::Architecture::X86][c.arch as usize % 3]) }
fn stem(os: zed::Os, arch: zed::Architecture) -> String {
    format!("air-{}-{}", match arch { zed::Architecture::Aarch64 => "aarch64", zed::Architecture::X86 => "x86", zed::Architecture::X8664 => "x86_64" }, match os { zed::Os::Mac => "apple-darwin", zed::Os::Linux => "unknown-linux-gnu", zed::Os::Windows => "pc-windows-msvc" })
}
fn asset(os: zed::Os, arch: zed::Architecture) -> String { stem(os, arch) + if os == zed::Os::Windows { ".zip" } else { ".tar.gz" } }
/// The complete binary of a release for a platform.
fn binary(version: &str, os: zed::Os, arch: zed::Architecture) -> Vec<u8> { format!("air {version} {}\n", asset(os, arch)).repeat(20).into_bytes() }
fn is_complete(b: &[u8], version: &str, os: zed::Os, arch: zed::Architecture) -> bool { b == binary(version, os, arch) }
/// What an archive holds, in the order it is unpacked.
fn archive(version: &str, os: zed::Os, arch: zed::Architecture, order: u8) -> Vec<(String, Vec<u8>)> {
    let (dir, exe) = if os == zed::Os::Windows { (String::new(), "air.exe") } else { (stem(os, arch) + "/", "air") };
    let mut v = vec![(format!("{dir}{exe}"), binary(version, os, arch)), (format!("{dir}README.md"), b"air\n".repeat(30)), (format!("{dir}LICENSE"), b"MIT\n".repeat(10))];
    v.rotate_left(order as usize % 3);
    v
}
/// Versions whose complete binary is somewhere in the extension's directory, with its path.
fn complete(dir: &Path, os: zed::Os, arch: zed::Architecture) -> BTreeMap<String, BTreeSet<String>> {
    fn walk(base: &Path, rel: &str, depth: u32, f: &mut dyn FnMut(&str, Vec<u8>)) {
        let Ok(d) = std::fs::read_dir(base.join(rel)) else { return };
        let mut es: Vec<_> = d.flatten().collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let p = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{rel}/{}", e.file_name().to_string_lossy()) };
            match e.file_type() { Ok(t) if t.is_dir() && depth < 5 => walk(base, &p, depth + 1, f), Ok(t) if t.is_file() => if p.ends_with("/air") || p.ends_with("/air.exe") { f(&p, std::fs::read(base.join(&p)).unwrap_or_default()) }, _ => {} }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, "", 0, &mut |p, b| for v in VERSIONS { if is_complete(&b, v, os, arch) { out.entry(v.to_string()).or_insert_with(BTreeSet::new).insert(p.to_string()); } });
    out
}
fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() { for e in std::fs::read_dir(&d).into_iter().flatten().flatten() { let p = e.path(); let k = p.strip_prefix(dir).unwrap().to_string_lossy().into_owned(); let t = e.file_type().unwrap(); if t.is_dir() { out.insert(k, vec![]); todo.push(p); } else { out.insert(k, if t.is_symlink() { vec![1] } else { std::fs::read(&p).unwrap_or_default() }); } } }
    out
}
/// What one step showed, left for the parent as a line of JSON.
#[derive(Serialize, Deserialize, Debug, Default)]
struct Saw { step: usize, end: bool, ok: Option<bool>, path: String, args: Vec<String>, env: usize, error: String, options: Option<Value>, config: Option<Value>, lookups: u32, good_lookups: u32, downloads: u32, good_downloads: u32, binary_of: Option<String>, exists: bool, before: Vec<String>, lost: Vec<String>, latest_there: bool, changed: bool, /** what was completely there after the step */ #[serde(default)] after: BTreeSet<String>, /** where complete binaries of the wanted release were before */ #[serde(default)] places: BTreeSet<String>, /** every complete binary there was before */ #[serde(default)] before_paths: BTreeSet<String> }
#[derive(Default)]
struct World { release: usize, look: Option<Look>, load: Option<Load>, settings: Option<Value>, which: Option<String>, lookups: u32, good_lookups: u32, downloads: u32, good_downloads: u32, kept: BTreeSet<String>, lost: Vec<String> }
struct SimHost { w: Arc<Mutex<World>>, os: zed::Os, arch: zed::Architecture, order: u8 }
/// Old downloads may go only while the requested release is completely there.
fn observe(w: &mut World, os: zed::Os, arch: zed::Architecture) {
    let now = sim::outside(|| complete(Path::new("."), os, arch));
    let latest = VERSIONS[w.release];
    if !now.contains_key(latest) { for v in &w.kept { if v != latest && !now.contains_key(v) { w.lost.push(v.clone()); } } }
    w.kept = now.into_keys().collect();
}
impl SimHost {
    fn listed(&self, version: &str, options: zed::GithubReleaseOptions, hide: bool) -> zed::GithubRelease {
        // a release whose assets are still being uploaded
        if !options.require_assets { return zed::GithubRelease { version: "3.0.0".into(), assets: vec![] }; }
        // what is not meant for everyone yet
        let version = if options.pre_release { "2.0.0-beta" } else { version };
        let mut assets = vec![];
        for os in [zed::Os::Mac, zed::Os::Windows, zed::Os::Linux] { for arch in [zed::Architecture::X86, zed::Architecture::Aarch64, zed::Architecture::X8664] {
            let name = asset(os, arch);
            assets.push(zed::GithubReleaseAsset { name: format!("{name}.sha256"), download_url: format!("https://example.com/{version}/{name}.sha256") });
            if hide && (os, arch) == (self.os, self.arch) { continue; }
            assets.push(zed::GithubReleaseAsset { download_url: format!("https://example.com/{version}/{name}"), name });
        } }
        zed::GithubRelease { version: version.into(), assets }
    }
    fn unpack(&self, url: &str, path: &str, kind: zed::DownloadedFileType, cut: Option<u32>) -> Result<(), String> {
        use std::io::Write;
        let mut parts = url.trim_start_matches("https://example.com/").split('/');
        let (version, name) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
        if name.ends_with(".sha256") || version.is_empty() || name.is_empty() { return Err(format!("status error 404: {url}")); }
        let want = if name.ends_with(".zip") { zed::DownloadedFileType::Zip } else { zed::DownloadedFileType::GzipTar };
        if kind != want { return Err("invalid archive".into()); }
        let (os, arch) = [zed::Os::Mac, zed::Os::Windows, zed::Os::Linux].into_iter().flat_map(|o| [zed::Architecture::X86, zed::Architecture::Aarch64, zed::Architecture::X8664].map(|a| (o, a))).find(|(o, a)| asset(*o, *a) == name).ok_or("status error 404")?;
        let mut left = cut.map_or(usize::MAX, |c| c as usize);
        let io = |e: std::io::Error| e.to_string();
        std::fs::create_dir_all(path).map_err(io)?;
        for (rel, bytes) in archive(version, os, arch, self.order) {
            let to = Path::new(path).join(&rel);
            std::fs::create_dir_all(to.parent().unwrap()).map_err(io)?;
            let mut f = std::fs::File::create(&to).map_err(io)?;
            for piece in bytes.chunks(200) {
                let n = piece.len().min(left);
                f.write_all(&piece[..n]).map_err(io)?;
                left -= n;
                if n < piece.len() { return Err("connection reset".into()); }
                sim::yield_now();
            }
        }
        Ok(())
    }
}
impl zed::Host for SimHost {
    fn latest_release(&mut self, repo: &str, options: zed::GithubReleaseOptions) -> zed::Result<zed::GithubRelease> {
        let w = self.w.clone();
        let mut w = w.lock().unwrap();
        w.lookups += 1;
        observe(&mut w, self.os, self.arch);
        if repo != "posit-dev/air" { return Err(format!("no such repository: {repo}")); }
        if w.look == Some(Look::Fails) { return Err("rate limit exceeded".into()); }
        w.good_lookups += 1;
        Ok(self.listed(VERSIONS[w.release], options, w.look == Some(Look::NoAsset)))
    }
    fn release(&mut self, _: &str, tag: &str) -> zed::Result<zed::GithubRelease> {
        let mut w = self.w.lock().unwrap();
        w.lookups += 1;
        if w.look == Some(Look::Fails) { return Err("rate limit exceeded".into()); }
        if !VERSIONS[..=w.release].contains(&tag) { return Err("not found".into()); }
        Ok(self.listed(tag, zed::GithubReleaseOptions { require_assets: true, pre_release: false }, w.look == Some(Look::NoAsset)))
    }
    fn download(&mut self, url: &str, path: &str, kind: zed::DownloadedFileType) -> zed::Result<()> {
        let w = self.w.clone();
        let load = { let mut w = w.lock().unwrap(); w.downloads += 1; observe(&mut w, self.os, self.arch); w.load.unwrap_or(Load::Ok) };
        // the editor keeps extensions inside their own directory
        if Path::new(path).is_absolute() || Path::new(path).components().any(|c| c == std::path::Component::ParentDir) { return Err(format!("cannot write to path {path}")); }
        let r = match load { Load::Refused => Err("status error 503".into()), Load::Ok => self.unpack(url, path, kind, None), Load::Cut(n) => self.unpack(url, path, kind, Some(n)) };
        let mut w = w.lock().unwrap();
        observe(&mut w, self.os, self.arch);
        if r.is_ok() { w.good_downloads += 1; }
        r
    }
    fn platform(&mut self) -> (zed::Os, zed::Architecture) { (self.os, self.arch) }
    fn status(&mut self, _: &str, _: &zed::LanguageServerInstallationStatus) { let w = self.w.clone(); observe(&mut w.lock().unwrap(), self.os, self.arch); }
    fn settings(&mut self, category: &str, key: Option<&str>, worktree: Option<u64>) -> zed::Result<String> {
        if (category, key, worktree) != ("lsp", Some("air"), Some(7)) { return Ok("{}".into()); }
        match &self.w.lock().unwrap().settings { None => Err("no settings".into()), Some(v) => Ok(v.to_string()) }
    }
    fn which(&mut self, name: &str) -> Option<String> { if name == "air" { self.w.lock().unwrap().which.clone() } else { None } }
    fn env(&mut self) -> zed::EnvVars { vec![] }
}
fn session(c: &Case, s: &Session) -> i32 {
    let (os, arch) = platform(c);
    let w = Arc::new(Mutex::new(World::default()));
    zed::sim_install(Box::new(SimHost { w: w.clone(), os, arch, order: c.order }));
    let mut ext = unsafe { sim_new_extension() };
    let id = zed::LanguageServerId::sim("air");
    let tree = zed::Worktree::sim(7);
    for (i, st) in s.steps.iter().enumerate() {
        let before = sim::outside(|| snapshot(Path::new(".")));
        let there: Vec<String>;
        let places: BTreeSet<String>;
        let before_paths: BTreeSet<String>;
        {
            let mut w = w.lock().unwrap();
            let kept = sim::outside(|| complete(Path::new("."), os, arch));
            there = kept.keys().cloned().collect();
            before_paths = kept.values().flatten().cloned().collect();
            places = kept.get(VERSIONS[st.release]).cloned().unwrap_or_default();
            *w = World { release: st.release, kept: there.iter().cloned().collect(), ..World::default() };
            if let Act::Request { settings, which, look, load } = &st.act { w.look = Some(*look); w.load = Some(*load); w.settings = settings.clone(); w.which = which.clone(); }
            if let Act::Options { settings } = &st.act { w.settings = settings.clone(); }
        }
        let line = |s: &Saw| { let mut v = serde_json::to_vec(s).unwrap(); v.push(b'\n'); sim::user_write(&v); };
        line(&Saw { step: i, ..Saw::default() });
        sim::log(&format!("STEP {i}"));
        let mut saw = Saw { step: i, end: true, before: there, places, before_paths, ..Saw::default() };
        match &st.act {
            Act::Request { .. } => match ext.language_server_command(&id, &tree) {
                Ok(cmd) => {
                    saw.ok = Some(true);
                    if let Some(b) = sim::outside(|| std::fs::read(&cmd.command).ok()) { saw.exists = true; saw.binary_of = VERSIONS.iter().find(|v| is_complete(&b, v, os, arch)).map(|v| v.to_string()); }
                    saw.path = cmd.command; saw.args = cmd.args; saw.env = cmd.env.len();
                }
                Err(e) => { saw.ok = Some(false); saw.error = e; }
            },
            Act::Options { .. } => {
                let (a, b) = (ext.language_server_initialization_options(&id, &tree), ext.language_server_workspace_configuration(&id, &tree));
                saw.ok = Some(a.is_ok() && b.is_ok());
                saw.options = a.ok().flatten();
                saw.config = b.ok().flatten();
            }
            Act::Lose { dir } => sim::outside(|| for p in complete(Path::new("."), os, arch).values().flatten() { if *dir { let _ = std::fs::remove_dir_all(p.split('/').next().unwrap()); } else { let _ = std::fs::remove_file(p); } }),
        }
        let mut w = w.lock().unwrap();
        if !matches!(st.act, Act::Lose { .. }) { observe(&mut w, os, arch); }
        saw.lookups = w.lookups; saw.good_lookups = w.good_lookups; saw.downloads = w.downloads; saw.good_downloads = w.good_downloads;
        saw.lost = w.lost.clone();
        saw.after = sim::outside(|| complete(Path::new("."), os, arch)).into_keys().collect();
        saw.latest_there = w.kept.contains(VERSIONS[st.release]);
        saw.changed = sim::outside(|| snapshot(Path::new("."))) != before;
        line(&saw);
    }
    0
}
struct Zed { prop: &'static str }
fn setting(r: &mut Rng) -> Option<Value> {
    if r.chance(25) { return None; }
    let mut v = json!({});
    if r.chance(40) { let mut b = json!({}); if r.chance(25) { b["path"] = json!(*r.pick(&["/opt/air/bin/air", "", "air", "tools/air.exe", "~/bin/air"])); } if r.chance(50) { b["arguments"] = json!(*r.pick(&[&[] as &[&str], &["language-server"], &["--log-level", "debug", "language-server", "x y"]])); } if r.chance(15) { b["env"] = json!({"A": "1"}); } v["binary"] = b; }
    if r.chance(40) { v["initialization_options"] = r.pick(&[json!({}), json!({"logLevel": "debug"}), json!([1, null, {"a": "é"}]), json!(null), json!({"z": 1, "a": {"b": [true]}})]).clone(); }
    if r.chance(40) { v["settings"] = r.pick(&[json!({}), json!({"air": {"syncFileSettingsWithClient": true}}), json!("text"), json!(null), json!({"z": 1.5, "a": -1})]).clone(); }
    if r.chance(6) { v["binary"] = json!("not an object"); }
    Some(v)
}
fn request(r: &mut Rng, own: bool) -> Act {
    let settings = if own && r.chance(85) { if r.chance(50) { None } else { Some(json!({"binary": {"arguments": ["language-server"]}})) } } else { setting(r) };
    let which = if r.chance(if own { 4 } else { 25 }) { Some(r.pick(&["/usr/bin/air", "/home/u/.cargo/bin/air", "C:\\air.exe"]).to_string()) } else { None };
    let look = match r.below(20) { 0 | 1 => Look::Fails, 2 => Look::NoAsset, _ => Look::Ok };
    let load = match r.below(10) { 0 => Load::Refused, 1 | 2 => Load::Cut(*r.pick(&[0, 1, 50, 199, 200, 201, 400, 560, 700, 900, 1100])), _ => Load::Ok };
    Act::Request { settings, which, look, load }
}
impl Check for Zed {
    type Case = Case;
    fn directed(&self) -> Vec<Case> {
        let req = |release, look, load| Step { release, act: Act::Request { settings: None, which: None, look, load } };
        let s = |steps: Vec<Step>| Session { steps, cfg: SimCfg::calm(1) };
        let mut v = vec![];
        for order in 0..3u8 { for os in 0..3u8 {
            for n in [0u32, 1, 200, 300, 500, 800] { v.push(Case { os, arch: 0, order, junk: 0, sessions: vec![s(vec![req(1, Look::Ok, Load::Cut(n)), req(1, Look::Ok, Load::Ok), req(1, Look::Ok, Load::Ok)]), s(vec![req(1, Look::Ok, Load::Ok)])] }); }
            v.push(Case { os, arch: order, order, junk: 7, sessions: vec![s(vec![req(0, Look::Ok, Load::Ok), req(1, Look::Ok, Load::Ok)]), s(vec![req(1, Look::Ok, Load::Cut(300))]), s(vec![req(1, Look::Ok, Load::Ok)])] });
        } }
        // a crash at every disk operation of a first download and of an upgrade
        for at in 1..60u64 { let mut a = s(vec![req(1, Look::Ok, Load::Ok)]); a.cfg.crash_at = at; v.push(Case { os: 0, arch: 0, order: at as u8 % 3, junk: 1, sessions: vec![s(vec![req(0, Look::Ok, Load::Ok)]), a, s(vec![req(1, Look::Ok, Load::Ok)])] }); }
        v
    }
    fn generate(&self, r: &mut Rng) -> Case {
        let mut release = r.below(2);
        let n = r.range(1, 4);
        let sessions = (0..n).map(|_| {
            if r.chance(45) { release = (release + 1).min(VERSIONS.len() - 1); }
            let mut cfg = SimCfg::random(r);
            cfg.cpus = 1; cfg.alloc_ppm = 0;
            let steps = (0..r.range(1, 4)).map(|_| {
                if r.chance(15) { release = (release + 1).min(VERSIONS.len() - 1); }
                let act = match (self.prop, r.below(10)) { ("Z03", 0..=5) => Act::Options { settings: setting(r) }, ("Z03", _) => request(r, false), (_, 0) => Act::Lose { dir: r.chance(50) }, (_, 1) => Act::Options { settings: setting(r) }, ("Z01", 2..=5) => request(r, false), _ => request(r, true) };
                Step { release, act }
            }).collect();
            if r.chance(35) { let hi = *r.pick(&[20, 60, 120]); cfg.crash_at = r.range(1, hi) as u64; }
            if r.chance(35) { for _ in 0..r.range(1, 3) { let hi = *r.pick(&[3, 10, 30]); cfg.faults.push(Fault { op: r.pick(&["open_w", "write", "mutate", "mutate", "mutate", "stat", "opendir", "readdir", "open_r", "close"]).to_string(), path: if r.chance(60) { String::new() } else { r.pick(&["air-", "README", "air-0.9.0", "/air"]).to_string() }, nth: r.range(1, hi) as u32, repeat: *r.pick(&[1, 1, 2, 50]), kind: if r.chance(85) { "errno".into() } else { "short".into() }, arg: *r.pick(&[5, 28, 13, 30, 24]) }); } }
            Session { steps, cfg }
        }).collect();
        Case { os: r.below(3) as u8, arch: r.below(3) as u8, order: r.below(3) as u8, junk: r.below(8) as u8, sessions }
    }
    fn eval(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = x.scratch.join("w");
        let _ = std::fs::remove_dir_all(&root);
        let dir = root.join("extensions/work/air");
        std::fs::create_dir_all(&dir).unwrap();
        // other extensions' files and the user's
        std::fs::create_dir_all(root.join("extensions/work/other/air-0.8.9")).unwrap();
        std::fs::write(root.join("extensions/work/other/air-0.8.9/air"), "other").unwrap();
        std::fs::create_dir_all(root.join("project/air-0.9.0")).unwrap();
        std::fs::write(root.join("project/air-0.9.0/a.R"), "x").unwrap();
        if c.junk & 1 != 0 { std::fs::create_dir_all(dir.join("air-0.1.0/sub")).unwrap(); std::fs::write(dir.join("air-0.1.0/sub/air"), "old").unwrap(); }
        if c.junk & 2 != 0 { std::os::unix::fs::symlink(root.join("project"), dir.join("linked")).unwrap(); }
        if c.junk & 4 != 0 { std::fs::write(dir.join("note.txt"), "x").unwrap(); std::fs::create_dir_all(dir.join("air-0.9.0")).unwrap(); }
        let outside = |d: &Path| { let mut s = snapshot(d); s.retain(|k, _| !k.starts_with("extensions/work/air/")); s };
        let apart = outside(&root);
        // a release that is completely there somewhere after old downloads went, in a request that did not end well
        let mut unproven: Option<String> = None;
        let (os, arch) = platform(c);
        let mut out = vec![];
        for (k, s) in c.sessions.iter().enumerate() {
            let before: BTreeSet<String> = complete(&dir, os, arch).into_keys().collect();
            let o = sim::run(&s.cfg, &RunEnv { root: &root, cwd: &dir, stdin: None, watchdog_s: 60 }, || {}, || session(c, s));
            x.record(&s.cfg, &o);
            if x.verbose { println!("{}", String::from_utf8_lossy(&o.user)); }
            match o.kind { Kind::Exited if o.code == 0 => {} Kind::Crashed => {} k => { out.push(finding(format!("ended-{k:?}"), format!("the extension ended with {k:?} {}: {}", o.code, o.err.lines().next().unwrap_or("")))); break; } }
            let mut faults: BTreeMap<usize, u32> = BTreeMap::new();
            let mut at = 0;
            for l in o.log.lines() { if let Some(n) = l.strip_prefix("STEP ") { at = n.trim().parse().unwrap_or(0); } else if l.starts_with("FAULT ") && l.contains(" kind=1 ") { *faults.entry(at).or_default() += 1; } }
            let saws: Vec<Saw> = o.user.split(|b| *b == b'\n').filter(|l| !l.is_empty()).filter_map(|l| serde_json::from_slice(l).ok()).collect();
            let mut had: BTreeSet<String> = BTreeSet::new();
            let mut lose = false;
            let mut used: Option<String> = None;
            for w in saws.iter().filter(|w| w.end) {
                let st = &s.steps[w.step];
                let latest = VERSIONS[st.release];
                let faulty = faults.get(&w.step).copied().unwrap_or(0) > 0;
                let name = format!("session {k} step {}", w.step);
                match &st.act {
                    Act::Request { settings, which, look, load } => {
                        let parsed: Option<&Value> = settings.as_ref().filter(|v| v.get("binary").is_none_or(|b| b.is_object() || b.is_null()));
                        let bin = parsed.and_then(|v| v.get("binary")).filter(|b| b.is_object());
                        let chosen = bin.and_then(|b| b.get("path")).and_then(|p| p.as_str()).map(str::to_string).or_else(|| which.clone());
                        let ok = w.ok == Some(true);
                        match *look { Look::Fails if w.lookups > 0 => x.fault("release lookup fails", 1), Look::NoAsset if w.lookups > 0 => x.fault("release without the platform's asset", 1), _ => {} }
                        match *load { Load::Refused if w.downloads > 0 => x.fault("download refused", 1), Load::Cut(_) if w.downloads > 0 => x.fault("download cut off", 1), _ => {} }
                        if ok { x.count("requests answered with a binary"); } else { x.count("requests answered with an error"); }
                        if ok {
                            let args: Vec<String> = bin.and_then(|b| b.get("arguments")).and_then(|a| serde_json::from_value(a.clone()).ok()).unwrap_or_else(|| vec!["language-server".into()]);
                            if w.args != args { out.push(finding("arguments", format!("{name}: started with the arguments {:?} instead of {args:?}", w.args))); }
                        }
                        if let Some(p) = &chosen {
                            x.nontrivial();
                            if !ok || w.path != *p { out.push(finding("choice", format!("{name}: the binary {p} is configured or on the PATH, but the answer is {:?} {}", w.path, w.error))); }
                            if w.downloads + w.lookups > 0 || w.changed { out.push(finding("choice-work", format!("{name}: {p} is used, yet releases were looked up or files changed"))); }
                            continue;
                        }
                        if w.downloads > 0 { x.nontrivial(); }
                        if w.good_lookups > 0 || ok {
                            if let Some(v) = unproven.take() { if v == latest && w.downloads > 0 && !faulty { out.push(finding("lost", format!("{name}: {v} has to be downloaded again, so it was not in place when the old downloads were removed"))); } }
                        }
                        if !ok && w.after.contains(latest) && w.before.iter().any(|v| v != latest && !w.after.contains(v)) { unproven = Some(latest.to_string()); }
                        let working = used.as_ref().is_some_and(|p| w.before_paths.contains(p));
                        if !ok && working && !faulty { out.push(finding("fails", format!("{name}: fails although {:?}, which this session was given before, is still there: {}", used, w.error))); }
                        used = if ok { Some(w.path.clone()) } else { used };
                        if w.good_lookups > 0 && w.latest_there { had.insert(latest.to_string()); }
                        if ok {
                            match &w.binary_of {
                                None => out.push(finding("incomplete", format!("{name}: {:?} is to be started, which {}", w.path, if w.exists { "is not a complete binary" } else { "does not exist" }))),
                                Some(v) => {
                                    if Path::new(&w.path).is_absolute() || w.path.contains("..") { out.push(finding("choice", format!("{name}: {:?} is not in the extension's own directory", w.path))); }
                                    let fresh = w.good_lookups > 0 && v == latest;
                                    if !fresh && !had.contains(v) { out.push(finding("version", format!("{name}: {v} is started although the latest release is {latest}"))); }
                                    had.insert(v.clone());
                                }
                            }
                        } else {
                            let excuse = faulty || (*look != Look::Ok && w.lookups > 0) || (*load != Load::Ok && w.downloads > 0);
                            if !excuse { out.push(finding("fails", format!("{name}: fails although nothing is wrong any more: {}", w.error))); }
                        }
                        // a complete binary somewhere else is not one the extension knows of
                        if w.downloads > 0 && !faulty && !lose && ok && w.places.contains(&w.path) { out.push(finding("again", format!("{name}: {latest} is downloaded again"))); }
                        if w.downloads > 1 && !faulty && *load == Load::Ok { out.push(finding("again", format!("{name}: {} downloads", w.downloads))); }
                        // what was there when the session began may still be running
                    }
                    Act::Options { settings } => {
                        x.nontrivial();
                        let parsed: Option<&Value> = settings.as_ref().filter(|v| v.get("binary").is_none_or(|b| b.is_object() || b.is_null()));
                        for (got, key) in [(&w.options, "initialization_options"), (&w.config, "settings")] {
                            let want = parsed.and_then(|v| v.get(key)).cloned().unwrap_or(Value::Null);
                            if w.ok != Some(true) || got.clone().unwrap_or(Value::Null) != want { out.push(finding("options", format!("{name}: {key} is passed on as {got:?} instead of {want}"))); }
                        }
                        if w.downloads + w.lookups > 0 || w.changed { out.push(finding("options-work", format!("{name}: asking for options changed files or looked up releases"))); }
                    }
                    Act::Lose { .. } => { lose = true; had.clear(); unproven = None; }
                }
                for v in &w.lost { out.push(finding("lost", format!("{name}: the download of {v} was removed before {latest} was completely there"))); }
            }
            // a crash in the middle of a request
            if let Some(w) = saws.last().filter(|w| !w.end) {
                let st = &s.steps[w.step];
                if matches!(st.act, Act::Request { .. }) {
                    x.count("crashes inside a request");
                    let begin: BTreeSet<String> = match saws.iter().filter(|w| w.end).next_back() { None => before.clone(), Some(w) => w.after.clone() };
                    let now = complete(&dir, os, arch);
                    let latest = VERSIONS[st.release];
                    unproven = if now.contains_key(latest) && begin.iter().any(|v| v != latest && !now.contains_key(v)) { Some(latest.to_string()) } else { None };
                    if !now.contains_key(latest) { for v in begin.iter().filter(|v| *v != latest) { if !now.contains_key(v) { out.push(finding("lost", format!("session {k}: after a crash the download of {v} is gone and {latest} is not there"))); } } }
                }
            }
            if o.escapes > 0 || outside(&root) != apart { out.push(finding("outside", format!("session {k}: files outside the extension's own directory changed"))); break; }
        }
        out.retain(|f| concerns(self.prop, &f.class));
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.sessions.len() {
            if c.sessions.len() > 1 { let mut d = c.clone(); d.sessions.remove(i); v.push(d); }
            for j in 0..c.sessions[i].steps.len() {
                if c.sessions[i].steps.len() > 1 { let mut d = c.clone(); d.sessions[i].steps.remove(j); v.push(d); }
                let plain = Act::Request { settings: None, which: None, look: Look::Ok, load: Load::Ok };
                if let Act::Request { settings, which, look, load } = &c.sessions[i].steps[j].act {
                    for a in [plain.clone(), Act::Request { settings: None, which: which.clone(), look: *look, load: *load }, Act::Request { settings: settings.clone(), which: None, look: *look, load: *load }, Act::Request { settings: settings.clone(), which: which.clone(), look: *look, load: Load::Ok }, Act::Request { settings: settings.clone(), which: which.clone(), look: Look::Ok, load: *load }] { if a != c.sessions[i].steps[j].act { let mut d = c.clone(); d.sessions[i].steps[j].act = a; v.push(d); } }
                }
            }
        }
        if c.junk != 0 { v.push(Case { junk: 0, ..c.clone() }); }
        if c.os != 0 { v.push(Case { os: 0, ..c.clone() }); }
        if c.arch != 0 { v.push(Case { arch: 0, ..c.clone() }); }
        v
    }
    fn cfgs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut SimCfg> { c.sessions.iter_mut().map(|s| &mut s.cfg).collect() }
    fn rule(&self) -> String { "a case is a history of editor sessions over one extension directory; it counts when a release is downloaded, a binary is chosen or options are asked for; distinct means a distinct sequence of disk operations, answers and directory states".into() }
    fn real(&self) -> Vec<String> { vec!["editors/zed/src/lib.rs".into(), "serde_json, std::fs on a scratch directory".into()] }
    fn stub(&self) -> Vec<String> { vec!["the editor host (settings, PATH lookup, GitHub, downloads that unpack piece by piece)".into(), "disk faults, crashes, clock (sim.c)".into()] }
    fn assumptions(&self) -> Vec<String> { vec!["the editor's download unpacks the archive file by file straight into the given directory and stops where it fails, as Zed's host does".into(), "a published release is well formed: its archive holds the binary where the extension expects it".into(), "one instance of the extension uses the directory at a time".into()] }
}
fn concerns(prop: &str, class: &str) -> bool {
    match class { "choice" | "choice-work" | "incomplete" | "version" => prop == "Z01", "lost" | "again" | "outside" => prop == "Z02", "fails" => prop != "Z03", "arguments" | "options" | "options-work" => prop == "Z03", _ => true }
}
fn main() {
    simrt::driver::main(|p| -> Option<Box<dyn DynCheck>> { match p { "Z01" => Some(Box::new(Zed { prop: "Z01" })), "Z02" => Some(Box::new(Zed { prop: "Z02" })), "Z03" => Some(Box::new(Zed { prop: "Z03" })), _ => None } })
}
