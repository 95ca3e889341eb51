//! Simulation of `air language-server`: the real server over a simulated operating system and a simulated editor.
mod actor;
mod case;
mod judge;
mod plan;
use case::*;
use model::*;
use simrt::driver::{Check, Ctx, DynCheck, Finding, finding};
use simrt::sim::{self, Kind, Outcome, Rng, RunEnv, SimCfg};
use std::path::{Path, PathBuf};
#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;
#[allow(dead_code, unused_imports)]
mod air_main {
    include!(concat!(env!("OUT_DIR"), "/air_main.rs"));
    pub fn call() -> u8 { unsafe { std::mem::transmute::<ExitCode, u8>(main()) } }
}
static ARGS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
pub fn program_args() -> Vec<String> { ARGS.lock().unwrap().clone() }
/// The tree's root under a name that is the same in every process (hash tables' order depends on it).
const ROOT: &str = "/proc/self/cwd";
struct Lsp { prop: &'static str }
fn fresh(t: &Tree, x: &Ctx) -> PathBuf {
    let root = x.scratch.join("w");
    if root.exists() { std::fs::remove_dir_all(&root).unwrap(); }
    std::fs::create_dir_all(&root).unwrap();
    t.write(&root);
    root
}
fn environment(root: &Path) { unsafe { std::env::set_var("HOME", root.join(".home-of-nobody")); for v in ["XDG_CONFIG_HOME", "CLICOLOR", "RUST_BACKTRACE", "RUST_LOG", "GIT_DIR", "AIR_LOG_LEVEL", "AIR_DEPENDENCY_LOG_LEVELS", "TOKIO_WORKER_THREADS"] { std::env::remove_var(v); } std::env::set_var("NO_COLOR", "1"); } }
fn serve(c: &Case, w: &plan::Compiled, real: &Path, x: &mut Ctx) -> Outcome {
    let root = Path::new(ROOT);
    let (acts, reg) = (w.acts.clone(), c.init.reg.clone());
    let o = sim::run(&c.cfg, &RunEnv { root, cwd: real, stdin: None, watchdog_s: 60 },
        || { environment(root); unsafe { if let Some(l) = &c.init.env_level { std::env::set_var("AIR_LOG_LEVEL", l); } if let Some(l) = &c.init.env_dep { std::env::set_var("AIR_DEPENDENCY_LOG_LEVELS", l); } } *ARGS.lock().unwrap() = vec!["air".into(), "language-server".into()]; },
        move || { std::thread::spawn(move || actor::run(acts, reg)); air_main::call() as i32 });
    x.record(&c.cfg, &o);
    if x.verbose { println!("transcript:\n{}", String::from_utf8_lossy(&o.user)); }
    o
}
/// What `air format` does with the documents at their paths.
fn agree(c: &Case, w: &plan::Compiled, real: &Path, x: &mut Ctx) -> Vec<Finding> {
    let root = Path::new(ROOT);
    let mut out = vec![];
    for (f, (excluded, conf)) in &w.verdicts {
        if !is_r(f) || !matches!(c.tree.0.get(f), Some(Node::Text(t)) if t == "x<-opts()\n") { continue; }
        let p = model::plan(&w.tree, &[f.clone()], false);
        if p.fatal { continue; }
        // only where both look at the same configuration with the same contents
        let now = up(parent(f).unwrap()).find(|d| !matches!(w.tree.conf_in(d), Found::None));
        let same = match (now, conf) { (None, None) => true, (Some(d), Some((e, k))) => d == e && matches!(w.tree.conf_in(d), Found::Conf(x) if x == k), _ => false };
        if !same { x.count("documents under another configuration"); continue; }
        let cfg = SimCfg { max_steps: 2_000_000, faults: vec![], crash_at: 0, out_cap: 0, chunk_max: 0, out_chunk_max: 0, schedule: Some(vec![]), alloc_ppm: 0, stall_ppm: 0, lag_ppm: 0, spurious_ppm: 0, ..c.cfg.clone() };
        let args = vec!["air".to_string(), "format".into(), root.join(f).to_str().unwrap().into()];
        let o = sim::run(&cfg, &RunEnv { root, cwd: real, stdin: Some(b""), watchdog_s: 60 }, || { environment(root); *ARGS.lock().unwrap() = args.clone(); }, || air_main::call() as i32);
        x.record(&cfg, &o);
        x.count("documents also given to air format");
        if o.kind != Kind::Exited || o.code != 0 { out.push(finding("disagreement", format!("air format {f}: {:?} {} {}", o.kind, o.code, o.err))); continue; }
        let now = std::fs::read(real.join(f)).unwrap_or_default();
        let skipped = now == b"x<-opts()\n";
        if skipped != *excluded { out.push(finding("disagreement", format!("{f} is {} by the language server but {} by air format", if *excluded { "left alone" } else { "formatted" }, if skipped { "left alone" } else { "formatted" }))); }
    }
    out
}
impl Check for Lsp {
    type Case = Case;
    fn directed(&self) -> Vec<Case> { directed(self.prop) }
    fn generate(&self, r: &mut Rng) -> Case { generate(self.prop, r) }
    fn eval(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let w = plan::compile(c, Path::new(ROOT));
        let o = serve(c, &w, &root, x);
        for (k, n) in &w.interesting { match *k { "cancellations" | "unusual messages" | "failed settings pulls" | "unreadable configuration" => x.fault(&k.replace(' ', "_"), *n), _ => x.add(k, *n) } }
        match &c.end { End::Eof { bytes } => x.fault(if *bytes == 0 { "input_ends" } else { "input_ends_inside_a_message" }, 1), End::Vanish => x.fault("client_vanishes", 1), End::ExitOnly { .. } => x.fault("exit_without_shutdown", 1), End::Shutdown { .. } => {} }
        if c.cfg.out_cap > 0 { x.fault("output_pipe_full", 1); }
        if c.init.reg != "ok" { x.fault("registration_refused_or_late", 1); }
        let n = |k: &str| w.interesting.get(k).copied().unwrap_or(0);
        let judged = match self.prop { "L01" => n("edits") > 0, "L06" => n("settings pulls") + n("configuration reloads") > 0, "L09" => n("ranges formatted") > 0, "L10" => n("settings pulls") > 0 || !w.incoming.is_empty(), "L04" => n("configuration reloads") > 0 || w.verdicts.values().any(|v| v.1.is_some()), "L07" => w.verdicts.values().any(|v| v.0), "L08" => true, _ => w.expects.len() > 4 };
        if judged { x.nontrivial(); }
        let mut f = judge::judge(c, &w, &o, x);
        if self.prop == "L07" && f.is_empty() { f.extend(agree(c, &w, &root, x)); }
        f.retain(|f| judge::concerns(self.prop, &f.class));
        f
    }
    fn shrink(&self, c: &Case) -> Vec<Case> { shrink(c) }
    fn cfgs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut SimCfg> { vec![&mut c.cfg] }
    fn rule(&self) -> String {
        let what = match self.prop { "L01" => "a document is edited", "L04" => "a configuration file governs a formatted document or is reloaded", "L06" => "settings are pulled or configuration files reloaded", "L07" => "a formatted document is excluded", "L08" => "always: every session ends", "L09" => "a range is formatted", "L10" => "messages are logged", _ => "more than four requests are judged" };
        format!("a case is a seeded tree, editor session (messages, replies, delays, file changes, faults, ending) and schedule; non-trivial when {what}; distinct by the execution trace")
    }
    fn real(&self) -> Vec<String> { ["crates/lsp (all of it: main loop, handlers, documents, workspaces, settings, logging, notifications)", "crates/air (main, arguments, language-server command; format command for L07)", "crates/workspace, settings, fs, line_ending, crates, lsp text edits", "crates/air_r_formatter/src/context.rs, crates/air_r_parser/src/error.rs", "tokio, tokio-util, futures, tracing, tracing-subscriber, url, ignore, toml, std"].iter().map(|s| s.to_string()).collect() }
    fn stub(&self) -> Vec<String> { ["threads' scheduler, clock, file system, standard streams (sim.c)", "the editor: a scripted client with delays, late and failing replies", "tower-lsp and lsp-types: rewritten after their sources' behaviour (framing, ordering, concurrency 4, cancellation, life cycle)", "R parser and formatter: a small language that shows every option in its output", "biome line index, text edits' diff (dissimilar), tree-sitter, strum, colored"].iter().map(|s| s.to_string()).collect() }
    fn assumptions(&self) -> Vec<String> { vec!["the client is conforming: versions increase, positions lie in the document, edits refer to open documents".into(), "configuration files change only between the editor's notifications".into(), "a bare carriage return never ends a line in the documents".into()] }
}
fn main() {
    simrt::driver::main(|p| -> Option<Box<dyn DynCheck>> { let prop = ["L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "L09", "L10"].into_iter().find(|x| *x == p)?; Some(Box::new(Lsp { prop })) })
}
