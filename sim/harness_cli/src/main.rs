//! Simulation of `air format`: the real command line program over a simulated operating system.
use model::*;
use serde::{Deserialize, Serialize};
use simrt::driver::{Check, Ctx, DynCheck, Finding, finding};
use simrt::sim::{self, Fault, Kind, Outcome, Rng, RunEnv, SimCfg};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;
mod air_main {
    include!(concat!(env!("OUT_DIR"), "/air_main.rs"));
    pub fn call() -> u8 { unsafe { std::mem::transmute::<ExitCode, u8>(main()) } }
}
static ARGS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
pub fn program_args() -> Vec<String> { ARGS.lock().unwrap().clone() }

type Snap = BTreeMap<String, Option<Vec<u8>>>;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Run { check: bool, force: bool, #[serde(default)] extra: Vec<String>, cwd: String, args: Vec<String>, #[serde(default, skip_serializing_if = "Option::is_none")] stdin: Option<(String, Node)>, cfg: SimCfg }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case { tree: Tree, runs: Vec<Run> }
struct Cli { prop: &'static str }

fn command(run: &Run, root: &Path) -> Vec<String> {
    let mut a = vec!["air".to_string()];
    a.extend(run.extra.iter().cloned());
    a.push("format".into());
    if run.check { a.push("--check".into()); }
    if run.force { a.push("--force".into()); }
    if let Some((p, _)) = &run.stdin { a.push("--stdin-file-path".into()); a.push(p.replace("@ROOT@", root.to_str().unwrap())); }
    a.extend(run.args.iter().map(|x| x.replace("@ROOT@", root.to_str().unwrap())));
    a
}
fn node_bytes(n: &Node) -> Vec<u8> { match n { Node::Text(s) => s.clone().into_bytes(), Node::Bytes(b) => b.clone(), _ => vec![] } }
fn execute(run: &Run, root: &Path, x: &mut Ctx) -> Outcome {
    let stdin = run.stdin.as_ref().map(|(_, n)| node_bytes(n));
    let args = command(run, root);
    let cwd = root.join(&run.cwd);
    let home = root.join(HOME);
    let o = sim::run(&run.cfg, &RunEnv { root, cwd: &cwd, stdin: Some(stdin.as_deref().unwrap_or(b"")), watchdog_s: 60 },
        || { unsafe { std::env::set_var("HOME", &home); for v in ["XDG_CONFIG_HOME", "NO_COLOR", "CLICOLOR", "RUST_BACKTRACE", "GIT_DIR"] { std::env::remove_var(v); } std::env::set_var("NO_COLOR", "1"); } *ARGS.lock().unwrap() = args.clone(); },
        || air_main::call() as i32);
    x.record(&run.cfg, &o);
    if x.verbose { println!("$ (cd {}; {})", run.cwd, args.join(" ")); }
    o
}
fn fresh(t: &Tree, x: &Ctx) -> PathBuf {
    let root = x.scratch.join("w");
    if root.exists() { std::fs::remove_dir_all(&root).unwrap(); }
    std::fs::create_dir_all(&root).unwrap();
    t.write(&root);
    root
}
/// The tree a snapshot describes (configuration files keep their meaning).
fn retree(old: &Tree, s: &Snap) -> Tree {
    Tree(s.iter().map(|(p, b)| (p.clone(), match b { None => Node::Dir, Some(b) => match old.0.get(p) { Some(n) if old.bytes(p).as_deref() == Some(b) || matches!(n, Node::Link(_)) => n.clone(), _ => match String::from_utf8(b.clone()) { Ok(s) => Node::Text(s), Err(e) => Node::Bytes(e.into_bytes()) } } })).collect())
}
fn targets(run: &Run, root: &Path) -> Vec<String> { run.args.iter().filter_map(|a| resolve(&run.cwd, &a.replace("@ROOT@", root.to_str().unwrap()), root.to_str().unwrap())).collect() }
/// (operation, path) of every errno fault that fired and that a program has to treat as a failure.
fn hard_faults(o: &Outcome) -> Vec<(String, String, i32)> {
    o.log.lines().filter_map(|l| { let l = l.strip_prefix("FAULT ")?; let (op, rest) = l.split_once(' ')?; let (path, tail) = rest.rsplit_once(" kind=")?; let (k, a) = tail.split_once(" arg=")?; let a: i32 = a.parse().ok()?; if k == "1" && a != 4 { Some((op.to_string(), path.to_string(), a)) } else { None } }).collect()
}
/// Does the walk itself select other files than git's rules do?
fn misread(t: &Tree, args: &[String], force: bool) -> bool { t.0.keys().any(|k| base(k) == ".git") && plan(t, args, force).files.keys().ne(plan_walked(t, args, force).files.keys()) }
/// A fault on one of git's own files changes what git ignores; the model does not follow that.
fn git_disturbed(o: &Outcome) -> bool { hard_faults(o).iter().any(|(op, p, _)| (p.contains(".git") || p.contains(HOME)) && ["open_r", "read"].contains(&op.as_str())) }
fn strip_ansi(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\u{1b}' { for d in it.by_ref() { if d.is_ascii_alphabetic() { break; } } } else { o.push(c); } } o }
/// Does a line name a path, either relative to the working directory or absolutely?
fn names(line: &str, p: &str, cwd: &str, root: &Path) -> bool {
    let abs = root.join(p);
    let shown = if under(p, cwd) { if p == cwd { String::new() } else if cwd.is_empty() { p.to_string() } else { p[cwd.len() + 1..].to_string() } } else { abs.display().to_string() };
    let edge = |c: Option<char>| c.is_none_or(|c| !(c.is_alphanumeric() || "/._-".contains(c)));
    let has = |needle: &str| !needle.is_empty() && line.match_indices(needle).any(|(i, _)| edge(line[..i].chars().next_back()) && edge(line[i + needle.len()..].chars().next()));
    has(&shown) || has(&abs.display().to_string())
}
fn show(b: &Option<Option<Vec<u8>>>) -> String { match b { None => "missing".into(), Some(None) => "a directory".into(), Some(Some(b)) => { let s = String::from_utf8_lossy(b); let t: String = s.chars().take(60).collect(); format!("{} bytes {t:?}", b.len()) } } }
fn diff(a: &Snap, b: &Snap) -> Vec<String> { a.keys().chain(b.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| a.get(*k) != b.get(*k)).cloned().collect() }
fn ended_badly(o: &Outcome) -> Option<Finding> {
    match o.kind {
        Kind::Exited | Kind::Crashed => if o.code == 101 && o.kind == Kind::Exited { Some(finding("panic", format!("the program panicked: {}", o.err.lines().find(|l| l.contains("panicked")).unwrap_or("")))) } else { None },
        k => Some(finding(format!("ended-{k:?}"), format!("the program ended with {k:?} (code {}): {}", o.code, o.err.lines().last().unwrap_or(""))))
    }
}
/// Selected files an argument list reaches more than once.
fn repeated(t: &Tree, args: &[String], force: bool, all: &Plan) -> BTreeSet<String> {
    let each: Vec<Plan> = args.iter().map(|a| plan_of(t, args, a, force)).collect();
    all.files.keys().filter(|f| each.iter().filter(|p| p.files.contains_key(*f)).count() > 1).cloned().collect()
}
fn plan_of(t: &Tree, _all: &[String], a: &String, force: bool) -> Plan { plan(t, std::slice::from_ref(a), force) }
fn clean(p: &Plan) -> bool { !p.fatal && p.missing.is_empty() && !p.files.values().any(|f| *f == Fate::Bad) }
fn pending(p: &Plan) -> Vec<&String> { p.files.iter().filter(|(_, f)| matches!(f, Fate::Change(_))).map(|(k, _)| k).collect() }
/// The tree after a run that met no fault.
fn ideal(t: &Snap, p: &Plan) -> Snap { let mut s = t.clone(); if !p.fatal { for (k, f) in &p.files { if let Fate::Change(b) = f { s.insert(k.clone(), Some(b.clone())); } } } s }
fn complaints(o: &Outcome) -> Vec<String> { strip_ansi(&o.err).lines().filter(|l| l.contains("ERROR")).map(|l| l.to_string()).collect() }
fn reformat_list(o: &Outcome) -> Vec<String> { strip_ansi(&o.err).lines().filter(|l| l.starts_with("Would reformat")).map(|l| l.to_string()).collect() }
/// Expected exit status without faults: Some(exact) or None for "not zero".
fn exit_ok(run: &Run, p: &Plan, code: i32) -> bool {
    if !clean(p) { return code != 0; }
    if run.check { if pending(p).is_empty() { code == 0 } else { code == 1 } } else { code == 0 }
}
impl Cli {
    fn judge(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        // the walk takes some ignore files for others (known finding gitignore-parents of F07): not decided elsewhere
        if !matches!(self.prop, "F03" | "F06" | "F07") && c.runs.iter().any(|run| misread(&c.tree, &targets(run, &x.scratch.join("w")), run.force)) { return vec![]; }
        match self.prop { "F01" => self.f01(c, x), "F02" => self.f02(c, x), "F03" => self.f03(c, x), "F04" => self.f04(c, x), "F05" => self.f05(c, x), "F06" => self.f06(c, x), "F07" => self.f07(c, x), _ => self.f08(c, x) }
    }
    /// Every file holds its old or its complete new bytes.
    fn f01(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let mut t = c.tree.clone();
        let mut out = vec![];
        for run in &c.runs {
            let before = tree_snapshot(&t);
            let args = targets(run, &root);
            let p = plan(&t, &args, run.force);
            let rep = repeated(&t, &args, run.force, &p);
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); }
            if git_disturbed(&o) { break; }
            let after = snapshot(&root);
            if !pending(&p).is_empty() && !p.fatal { x.nontrivial(); }
            let hard = hard_faults(&o);
            let opened = o.mutated();
            for k in diff(&before, &after) {
                let (old, new) = (before.get(&k).cloned(), after.get(&k).cloned());
                let want = match p.files.get(&k) { Some(Fate::Change(b)) if !p.fatal => Some(b), _ => None };
                let ok = match (&old, &new) { (Some(Some(_)), Some(Some(n))) => want == Some(n), _ => false };
                if ok { x.count("files completely formatted"); continue; }
                let interrupted = o.kind == Kind::Crashed || hard.iter().any(|(op, path, _)| *path == k && ["write", "open_w", "close", "sync", "mutate"].contains(&op.as_str()));
                let torn = match (want, &new) { (Some(w), Some(Some(n))) => w.starts_with(n) && n.len() < w.len()
                    // an argument list that reaches a file twice formats what the torn write left
                    || (rep.contains(&k) && (0..w.len()).any(|i| match fate(governing(&t, &p, &k), &w[..i]) { Fate::Change(f) => f.starts_with(n), _ => false })), _ => false };
                if torn && interrupted && opened.contains(&k) { out.push(finding("torn-write", format!("{k} was left with {} of the {} bytes of its formatted content after {}", new.as_ref().unwrap().as_ref().unwrap().len(), want.unwrap().len(), if o.kind == Kind::Crashed { "a crash" } else { "a failed write" }))); }
                else { out.push(finding("content", format!("{k}: was {}, now {}, formatted would be {}", show(&old), show(&new), show(&want.map(|w| Some(w.clone()))))));  }
            }
            if o.escapes > 0 { out.push(finding("escape", format!("writes outside the tree: {}", o.log.lines().find(|l| l.starts_with("ESCAPE")).unwrap_or("")))); }
            t = retree(&t, &after);
        }
        out
    }
    fn f02(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let before = tree_snapshot(&c.tree);
        let mut out = vec![];
        for run in &c.runs {
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); }
            if o.kind == Kind::Crashed { x.count("crashed"); }
            let d = diff(&before, &snapshot(&root));
            if o.mutations + o.escapes > 0 || !d.is_empty() { out.push(finding("modifies", format!("--check modified the file system: {} {}", o.log.lines().find(|l| l.starts_with("MUT") || l.starts_with("ESCAPE")).unwrap_or(""), d.join(" ")))); }
            if o.kind != Kind::Exited { continue; }
            let hard = hard_faults(&o);
            if let Some((_, n)) = &run.stdin {
                let e = stdin_expect(&c.tree, run, &root, n);
                let unjudged = hard.iter().any(|(op, p, _)| op == "stdin" || ((op == "open_r" || op == "read") && is_conf(p)));
                x.nontrivial();
                if o.out.len() > 0 { out.push(finding("output", "--check wrote to standard output")); }
                let verdict = match e { Stream::Fails => o.code != 0, _ if unjudged => o.code != 0 || matches!(e, Stream::Pass(_)), Stream::Pass(_) => o.code == 0, Stream::Formatted(ref f) => o.code == (*f != node_bytes(n)) as i32 };
                if !verdict { out.push(finding("verdict", format!("exit {} for {}", o.code, match e { Stream::Fails => "input that cannot be formatted".into(), Stream::Pass(_) => "an excluded path".into(), Stream::Formatted(f) => format!("input that {}", if f == node_bytes(n) { "is formatted" } else { "would change" }) }))); }
                continue;
            }
            if git_disturbed(&o) { continue; }
            let p = plan(&c.tree, &targets(run, &root), run.force);
            if !p.files.is_empty() { x.nontrivial(); }
            let unjudged: Vec<_> = hard.iter().filter(|(op, path, _)| match op.as_str() { "open_r" | "read" => p.files.contains_key(path) || is_conf(path), "opendir" | "readdir" => p.listed.contains(path), _ => false }).collect();
            if hard.is_empty() {
                if !exit_ok(run, &p, o.code) { out.push(finding("verdict", format!("exit {} although {} of {} selected files would change and {} cannot be formatted{}{}", o.code, pending(&p).len(), p.files.len(), p.files.values().filter(|f| **f == Fate::Bad).count(), if p.missing.is_empty() { "" } else { ", an argument does not exist" }, if p.fatal { ", the configuration is unusable" } else { "" }))); }
                if !p.fatal {
                    let l = reformat_list(&o);
                    for k in pending(&p) { if !l.iter().any(|s| names(s, k, &run.cwd, &root)) { out.push(finding("list", format!("{k} would change but is not listed"))); } }
                    for s in &l { if !pending(&p).iter().any(|k| names(s, k, &run.cwd, &root)) { out.push(finding("list", format!("listed without reason: {s}"))); } }
                }
            } else {
                if o.code == 0 && (!unjudged.is_empty() || !clean(&p)) { out.push(finding("unjudged", format!("exit 0 although {} failed", unjudged.first().map_or("a file".into(), |u| format!("{} of {}", u.0, u.1))))); }
                let hit: BTreeSet<&String> = unjudged.iter().map(|u| &u.1).collect();
                let still: Vec<_> = pending(&p).into_iter().filter(|k| !hit.iter().any(|h| under(k, h))).collect();
                if o.code == 0 && !still.is_empty() { out.push(finding("verdict", format!("exit 0 although {} would change", still[0]))); }
                if o.code == 1 && unjudged.is_empty() && clean(&p) && pending(&p).is_empty() && !hard.iter().any(|h| h.0 == "stderr") { out.push(finding("verdict", "exit 1 although nothing would change")); }
            }
        }
        out
    }
    /// The same tree under different schedules.
    fn f03(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let mut out = vec![];
        let mut first: Option<(Snap, i32, Vec<String>)> = None;
        let mut p = Plan::default();
        for (i, run) in c.runs.iter().enumerate() {
            let root = fresh(&c.tree, x);
            p = plan(&c.tree, &targets(run, &root), run.force);
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); continue; }
            let mut lines: Vec<String> = strip_ansi(&o.err).lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect();
            lines.sort();
            let got = (snapshot(&root), o.code, lines);
            match &first {
                None => first = Some(got),
                Some(f) => {
                    let d = diff(&f.0, &got.0);
                    if !d.is_empty() { out.push(finding("contents", format!("{} differs between two schedules: {} / {}", d[0], show(&f.0.get(&d[0]).cloned()), show(&got.0.get(&d[0]).cloned())))); }
                    if f.1 != got.1 { out.push(finding("status", format!("exit {} in the first run, {} in run {i}", f.1, got.1))); }
                    if f.2 != got.2 { out.push(finding("reports", format!("reported {:?} in the first run, {:?} in run {i}", f.2.iter().find(|l| !got.2.contains(l)), got.2.iter().find(|l| !f.2.contains(l))))); }
                }
            }
            if misread(&c.tree, &targets(run, &root), run.force) { continue; }
            let want = if run.check { tree_snapshot(&c.tree) } else { ideal(&tree_snapshot(&c.tree), &p) };
            let have = snapshot(&root);
            let d = diff(&want, &have);
            if !d.is_empty() { out.push(finding("model-contents", format!("{}: expected {}, found {}", d[0], show(&want.get(&d[0]).cloned()), show(&have.get(&d[0]).cloned())))); }
            if !exit_ok(run, &p, o.code) { out.push(finding("model-status", format!("exit {}", o.code))); }
        }
        if p.files.len() > 1 { x.nontrivial(); }
        out
    }
    fn f04(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let run = &c.runs[0];
        let args = targets(run, &root);
        let p = plan(&c.tree, &args, run.force);
        let rep = repeated(&c.tree, &args, run.force, &p);
        let o = execute(run, &root, x);
        let mut out = vec![];
        if let Some(f) = ended_badly(&o) { return vec![f]; }
        if git_disturbed(&o) { return vec![]; }
        let hard = hard_faults(&o);
        let before = tree_snapshot(&c.tree);
        let after = snapshot(&root);
        if p.fatal || hard.iter().any(|(op, f, _)| (op == "open_r" || op == "read") && is_conf(f)) { return out; }
        let failed_read: BTreeSet<&String> = hard.iter().filter(|(op, k, _)| (op == "open_r" || op == "read") && p.files.contains_key(k)).map(|h| &h.1).collect();
        let failed_open: BTreeSet<&String> = hard.iter().filter(|(op, k, _)| op == "open_w" && p.files.contains_key(k)).map(|h| &h.1).collect();
        let failed_write: BTreeSet<&String> = hard.iter().filter(|(op, k, _)| op == "write" && p.files.contains_key(k)).map(|h| &h.1).collect();
        let dirs: Vec<&String> = hard.iter().filter(|(op, k, _)| (op == "opendir" || op == "readdir") && p.listed.contains(k)).map(|h| &h.1).collect();
        let hidden = |k: &str| dirs.iter().any(|d| under(k, d));
        let lines = complaints(&o);
        let mut must: BTreeSet<&String> = p.files.iter().filter(|(k, f)| **f == Fate::Bad && !hidden(k)).map(|(k, _)| k).collect();
        must.extend(failed_read.iter().chain(&failed_open).chain(&failed_write));
        must.extend(&p.missing);
        if !must.is_empty() { x.nontrivial(); }
        let mute = hard.iter().any(|h| h.0 == "stderr");
        for k in &must { if !mute && !lines.iter().any(|l| names(l, k, &run.cwd, &root)) { out.push(finding(if p.missing.contains(*k) { "missing-not-named" } else { "not-named" }, format!("{k} failed but is not named: {lines:?}"))); } }
        if (!must.is_empty() || !dirs.is_empty()) && o.code == 0 { out.push(finding("silent", format!("exit 0 although {} failed", must.iter().next().map_or_else(|| dirs[0].clone(), |m| m.to_string())))); }
        if must.is_empty() && dirs.is_empty() && !mute && !exit_ok(run, &p, o.code) { out.push(finding("status", format!("exit {} although nothing failed", o.code))); }
        for l in &lines { if !must.iter().any(|k| names(l, k, &run.cwd, &root)) && dirs.is_empty() { out.push(finding("blames", format!("an error for no failing file: {l}"))); } }
        for (k, now) in &after {
            let old = before.get(k);
            let Some(f) = p.files.get(k) else { if old != Some(now) { out.push(finding("other", format!("{k} is not selected but changed: {}", show(&Some(now.clone()))))); } continue };
            let new = match f { Fate::Change(b) if !run.check => Some(b.clone()), _ => before[k].clone() };
            let may_old = failed_read.contains(k) || failed_open.contains(k) || hidden(k);
            if failed_write.contains(k) { continue; }
            let ok = if may_old { Some(now) == old || ((rep.contains(k) || hidden(k)) && *now == new) } else { *now == new };
            if !ok { out.push(finding(if may_old { "failed-changed" } else { "neighbour" }, format!("{k}: expected {}, found {}", show(&Some(if may_old { before[k].clone() } else { new })), show(&Some(now.clone()))))); }
        }
        for k in before.keys() { if !after.contains_key(k) { out.push(finding("neighbour", format!("{k} disappeared"))); } }
        if run.check { let l = reformat_list(&o); for k in pending(&p) { if !must.contains(k) && !hidden(k) && !mute && !l.iter().any(|s| names(s, k, &run.cwd, &root)) { out.push(finding("neighbour", format!("{k} is not listed although it would change"))); } } }
        out
    }
    fn f05(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let mut out = vec![];
        let orig = tree_snapshot(&c.tree);
        let p = plan(&c.tree, &targets(&c.runs[0], &root), c.runs[0].force);
        let want = ideal(&orig, &p);
        for (i, run) in c.runs.iter().enumerate() {
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); return out; }
            if git_disturbed(&o) { return vec![]; }
            let now = snapshot(&root);
            let d = diff(&want, &now);
            match (i + 3).checked_sub(c.runs.len()) {
                None => {
                    // an interrupted or failing run: a file it damaged comes back from a backup
                    if o.kind == Kind::Crashed || !hard_faults(&o).is_empty() { x.nontrivial(); }
                    for k in diff(&orig, &now) { if now.get(&k) != want.get(&k) { x.count("damaged files restored"); match orig.get(&k) { Some(Some(b)) => std::fs::write(root.join(&k), b).unwrap(), _ => out.push(finding("tree", format!("{k} appeared or disappeared"))) } } }
                }
                Some(0) => {
                    if !d.is_empty() { out.push(finding("recovers", format!("after a healthy run {} is {}, a fault-free run gives {}", d[0], show(&now.get(&d[0]).cloned()), show(&want.get(&d[0]).cloned())))); }
                    if !exit_ok(run, &p, o.code) { out.push(finding("status", format!("the healthy run exits {}", o.code))); }
                }
                Some(1) => if clean(&p) && (o.code != 0 || !reformat_list(&o).is_empty()) { out.push(finding("check", format!("--check after a complete run exits {}: {}", o.code, reformat_list(&o).join(" ")))) },
                Some(_) => {
                    if !d.is_empty() || o.mutations > 0 { out.push(finding("idempotent", format!("a further run modified {}", o.mutated().join(" ")))); }
                    if clean(&p) && o.code != 0 { out.push(finding("status", format!("a further run exits {}", o.code))); }
                }
            }
        }
        out
    }
    fn f06(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let root = fresh(&c.tree, x);
        let mut out = vec![];
        for run in &c.runs {
            let (_, n) = run.stdin.as_ref().unwrap();
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); continue; }
            if o.kind == Kind::Crashed { continue; }
            x.nontrivial();
            let hard = hard_faults(&o);
            let input = node_bytes(n);
            let e = stdin_expect(&c.tree, run, &root, n);
            let want: Vec<u8> = match &e { Stream::Fails => vec![], _ if run.check => vec![], Stream::Pass(b) | Stream::Formatted(b) => b.clone() };
            let conf_failed = hard.iter().any(|(op, p, _)| (op == "open_r" || op == "read") && is_conf(p));
            let in_failed = hard.iter().any(|h| h.0 == "stdin");
            let out_failed = hard.iter().any(|h| h.0 == "stdout");
            if o.mutations + o.escapes > 0 { out.push(finding("modifies", "formatting a stream modified the file system")); }
            if matches!(e, Stream::Fails) || conf_failed || in_failed {
                if !o.out.is_empty() { out.push(finding("output", format!("{} bytes on standard output although the input could not be formatted", o.out.len()))); }
                if o.code == 0 { out.push(finding("silent", format!("exit 0 although {}", if in_failed { "standard input could not be read" } else if conf_failed { "the configuration could not be read" } else { "the input cannot be formatted" }))); }
            } else if out_failed {
                if !want.starts_with(&o.out) { out.push(finding("output", "standard output is not the beginning of the result")); }
                if o.out != want && o.code == 0 { out.push(finding("lost", format!("exit 0 although only {} of {} bytes were delivered", o.out.len(), want.len()))); }
            } else {
                if o.out != want { let s: String = String::from_utf8_lossy(&o.out).chars().take(80).collect(); let w: String = String::from_utf8_lossy(&want).chars().take(80).collect(); out.push(finding("output", format!("standard output is {s:?} ({} bytes), expected {w:?} ({} bytes)", o.out.len(), want.len()))); }
                let code = if run.check { match &e { Stream::Formatted(f) => (*f != input) as i32, _ => 0 } } else { 0 };
                if o.code != code { out.push(finding("status", format!("exit {}, expected {code}: {}", o.code, o.err.lines().next().unwrap_or("")))); }
            }
        }
        out
    }
    fn f07(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let mut all = vec![];
        for run in &c.runs {
            let root = fresh(&c.tree, x);
            let args = targets(run, &root);
            let p = plan(&c.tree, &args, run.force);
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { all.push(f); continue; }
            if p.fatal { continue; }
            if !p.files.is_empty() { x.nontrivial(); }
            let out = self.selection(c, run, &p, &o, &root, x);
            let q = plan_walked(&c.tree, &args, run.force);
            if !out.is_empty() && p.files != q.files && self.selection(c, run, &q, &o, &root, x).is_empty() {
                let k = p.files.keys().chain(q.files.keys()).find(|k| p.files.contains_key(*k) != q.files.contains_key(*k)).unwrap();
                all.push(finding("gitignore-parents", format!("{k} is {} by an ignore file above the directory argument", if p.files.contains_key(k) { "wrongly ignored" } else { "not ignored" })));
            } else { all.extend(out); }
        }
        all
    }
    fn selection(&self, c: &Case, run: &Run, p: &Plan, o: &Outcome, root: &Path, x: &mut Ctx) -> Vec<Finding> {
        let mut out = vec![];
        {
            let before = tree_snapshot(&c.tree);
            let after = snapshot(&root);
            // a file may be reached through links too
            let mut via: BTreeMap<String, Vec<&String>> = BTreeMap::new();
            for k in p.files.keys() { via.entry(c.tree.real(k)).or_default().push(k); }
            if via.iter().any(|(f, v)| v.iter().any(|k| *k != f)) { x.add("files reached through links", 1); }
            if via.values().any(|v| v.iter().any(|k| p.files[*k] != p.files[v[0]])) { return out; }
            let writes: BTreeSet<String> = if run.check {
                let l = reformat_list(&o);
                c.tree.0.keys().filter(|k| c.tree.is_file(&c.tree.real(k)) && l.iter().any(|s| names(s, k, &run.cwd, &root))).cloned().collect()
            } else { o.mutated().into_iter().collect() };
            let lines = complaints(&o);
            for k in &writes { if !p.files.contains_key(k) { out.push(finding("unselected", format!("{k} is not selected but was {}", if run.check { "listed" } else { "opened for writing" }))); } }
            for (k, f) in &p.files {
                let others = &via[&c.tree.real(k)];
                match f { Fate::Change(b) => { if !writes.contains(k) && (run.check || !others.iter().any(|o| writes.contains(*o))) { out.push(finding("left-out", format!("{k} is selected and would change but was left out"))) } else if !run.check && others.len() > 1 && after.get(&c.tree.real(k)) != Some(&Some(b.clone())) { out.push(finding("left-out", format!("{k} was not formatted"))) } },
                    Fate::Bad => if !lines.iter().any(|l| names(l, k, &run.cwd, &root)) { out.push(finding("left-out", format!("{k} is selected and cannot be formatted, but nothing was said"))) }, Fate::Same => {} }
            }
            for k in diff(&before, &after) { if !via.contains_key(&k) { out.push(finding("unselected", format!("{k} changed but is not selected"))); } }
            if o.escapes > 0 { out.push(finding("escape", "a write outside the tree")); }
            for l in &lines { if !p.files.iter().any(|(k, f)| *f == Fate::Bad && names(l, k, &run.cwd, &root)) && p.missing.is_empty() { out.push(finding("unselected", format!("a complaint about no selected file: {l}"))); } }
        }
        out
    }
    fn f08(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let mut out = vec![];
        for run in &c.runs {
            let root = fresh(&c.tree, x);
            let p = plan(&c.tree, &targets(run, &root), run.force);
            let o = execute(run, &root, x);
            if let Some(f) = ended_badly(&o) { out.push(f); continue; }
            let before = tree_snapshot(&c.tree);
            let after = snapshot(&root);
            let hard = hard_faults(&o);
            let unreadable = hard.iter().find(|(op, f, _)| (op == "open_r" || op == "read") && is_conf(f));
            if p.fatal || unreadable.is_some() {
                x.nontrivial();
                let d = diff(&before, &after);
                let why = unreadable.map_or("invalid".to_string(), |u| format!("unreadable ({})", u.1));
                if !d.is_empty() || o.mutations > 0 { out.push(finding("fallback", format!("the configuration is {why}, yet {} was written", d.first().cloned().unwrap_or_default()))); }
                if o.code == 0 || (run.check && o.code == 1) { out.push(finding("fallback-status", format!("the configuration is {why}, yet the exit status is {}", o.code))); }
                continue;
            }
            if !hard.is_empty() { continue; }
            if p.governed.values().any(|g| g.is_some()) { x.nontrivial(); }
            for (k, f) in &p.files {
                let now = &after[k];
                let want = match f { Fate::Change(b) if !run.check => Some(b.clone()), _ => before[k].clone() };
                if *now != want { out.push(finding("options", format!("{k} (governed by {}): expected {}, found {}", p.governed[k].as_ref().map_or("no configuration".into(), |d| format!("the configuration in {d:?}")), show(&Some(want)), show(&Some(now.clone()))))); }
            }
            if !exit_ok(run, &p, o.code) { out.push(finding("status", format!("exit {}: {}", o.code, o.err.lines().next().unwrap_or("")))); }
        }
        out
    }
}
fn is_conf(p: &str) -> bool { base(p) == "air.toml" || base(p) == ".air.toml" }
static NO_CONF: std::sync::LazyLock<Conf> = std::sync::LazyLock::new(Conf::default);
fn governing<'a>(t: &'a Tree, p: &Plan, k: &str) -> &'a Conf { p.governed.get(k).and_then(|g| g.as_ref()).map_or(&*NO_CONF, |d| match t.conf_in(d) { Found::Conf(c) => c, _ => &*NO_CONF }) }
enum Stream { Fails, Pass(Vec<u8>), Formatted(Vec<u8>) }
fn stdin_expect(t: &Tree, run: &Run, root: &Path, n: &Node) -> Stream {
    let (a, _) = run.stdin.as_ref().unwrap();
    let Some(p) = resolve(&run.cwd, &a.replace("@ROOT@", root.to_str().unwrap()), root.to_str().unwrap()) else { return Stream::Fails };
    let none = Conf::default();
    let (d, conf) = match t.closest(&p) { Some((_, None)) => return Stream::Fails, Some((d, Some(c))) => (d, c), None => ("", &none) };
    let b = node_bytes(n);
    if !run.force && (excluded(conf, d, &p, false, true) || !is_r(&p)) { if std::str::from_utf8(&b).is_err() { return if run.check { Stream::Pass(b) } else { Stream::Fails }; } return Stream::Pass(b); }
    match fate(conf, &b) { Fate::Bad => Stream::Fails, Fate::Same => Stream::Formatted(b), Fate::Change(f) => Stream::Formatted(f) }
}
// ---- generators
fn some_dir(t: &Tree, r: &mut Rng) -> String { let d: Vec<&String> = t.0.iter().filter(|(k, n)| matches!(n, Node::Dir) && !k.split('/').any(|s| s == ".git" || s == HOME)).map(|(k, _)| k).collect(); if d.is_empty() || r.chance(20) { String::new() } else { r.pick(&d).to_string() } }
fn spell(r: &mut Rng, cwd: &str, p: &str, dir: bool) -> String {
    let mut s = if r.chance(15) { format!("@ROOT@/{p}") } else if r.chance(15) && !cwd.is_empty() { format!("{}/{p}", cwd.split('/').map(|_| "..").collect::<Vec<_>>().join("/")) } else if under(p, cwd) && p != cwd { if cwd.is_empty() { p.to_string() } else { p[cwd.len() + 1..].to_string() } } else if p == cwd { ".".into() } else if cwd.is_empty() { p.into() } else { format!("{}/{p}", cwd.split('/').map(|_| "..").collect::<Vec<_>>().join("/")) };
    if s.is_empty() { s = ".".into(); }
    while s.ends_with('/') && s.len() > 1 { s.pop(); }
    if !s.starts_with('@') && r.chance(12) { s = format!("./{s}"); }
    if dir && r.chance(20) { s.push('/'); }
    s
}
const DECOYS: &[&str] = &["DESCRIPTION", ".Rbuildignore", ".ignore", ".rgignore", ".airignore", "x.Rproj", ".here", "renv.lock", ".editorconfig", ".Rprofile", ".lintr", "_air.toml", "Air.toml", "air.toml.bak", "xair.toml", "pyproject.toml", ".vscode/settings.json", "NAMESPACE"];
struct Profile { confs: usize, broken: u32, bad: u32, changed: bool, git: u32, excludes: bool, force: u32, missing: u32, links: u32 }
fn random_tree(r: &mut Rng, f: &Profile) -> Tree {
    let mut t = Tree::default();
    let n = *r.pick(&[1usize, 2, 4, 7, 12, 20]);
    let mut dirs = vec![String::new()];
    for _ in 0..r.below(6) { let d = r.pick(&dirs).clone(); if d.matches('/').count() > 3 { continue; } let d = join(&d, if r.chance(8) { ".hidden" } else { *r.pick(NAMES) }); t.add(&d, Node::Dir); dirs.push(d); }
    for _ in 0..n {
        let d = r.pick(&dirs).clone();
        let name = if r.chance(6) { ".hid.R".to_string() } else { r.pick(FILES).to_string() };
        let node = if r.chance(f.bad) { bad_source(r) } else if f.changed { Node::Text(format!("x<-opts()\n{}", if r.chance(30) { good_source(r).replace("\r\n", "\n") } else { String::new() })) } else { Node::Text(good_source(r)) };
        t.add(&join(&d, &name), node);
    }
    for _ in 0..r.below(f.confs + 1) {
        let d = r.pick(&dirs).clone();
        let node = if r.chance(f.broken) { if r.chance(80) { Node::Broken(r.pick(BROKEN_TOML).to_string()) } else { Node::Bytes(vec![b'#', 0xff]) } } else { Node::Conf(Conf::random(r, f.excludes)) };
        t.add(&join(&d, if r.chance(30) { ".air.toml" } else { "air.toml" }), node);
    }
    if r.chance(8) { let d = r.pick(&dirs).clone(); t.add(&join(&d, if r.chance(50) { ".air.toml" } else { "air.toml" }), Node::Dir); }
    if r.chance(f.git) {
        let d = if r.chance(60) { String::new() } else { r.pick(&dirs).clone() };
        if r.chance(85) { t.add(&join(&d, ".git"), Node::Dir); }
        for _ in 0..r.range(1, 2) { let g = r.pick(&dirs).clone(); let l: Vec<String> = (0..r.range(1, 3)).map(|_| if r.chance(70) { pattern(r) } else {
            // a path as it is, from where the ignore file lies or not quite
            let f: Vec<&String> = t.0.keys().filter(|k| under(k, &g) && **k != g).collect();
            if f.is_empty() { pattern(r) } else { let k = &r.pick(&f)[if g.is_empty() { 0 } else { g.len() + 1 }..]; let k = match r.below(4) { 0 => format!("/{k}"), 1 => match k.split_once('/') { Some((a, _)) => format!("{a}/{}", base(k)), None => k.to_string() }, _ => k.to_string() }; if r.chance(15) { format!("!{k}") } else { k } }
        }).collect(); t.add(&join(&g, ".gitignore"), Node::Text(l.join("\n") + "\n")); }
        if r.chance(20) { t.add(&join(&d, ".git/info/exclude"), Node::Text(pattern(r) + "\n")); }
    }
    // things other tools put next to sources, which mean nothing to air
    if r.chance(15) { for _ in 0..r.range(1, 3) { let d = r.pick(&dirs).clone(); let n = *r.pick(DECOYS); t.add(&join(&d, n), Node::Text(if n.ends_with("ignore") { pattern(r) + "\n" } else if n.contains("toml") { Conf::random(r, f.excludes).toml() } else { "Package: x\n".into() })); } }
    if r.chance(f.git.max(8)) { let d = r.pick(&dirs).clone(); t.add(&join(&d, ".git"), Node::Dir); }
    if r.chance(5) { let d = r.pick(&dirs).clone(); if !t.0.contains_key(&join(&d, "linked")) { t.0.insert(join(&d, "linked"), Node::Link(".".into())); } }
    if f.links > 0 && r.chance(f.links) {
        for _ in 0..r.range(1, 3) {
            let files: Vec<String> = t.0.keys().filter(|k| t.is_file(k) && !is_conf(k) && !k.contains(".git")).cloned().collect();
            if files.is_empty() { break; }
            let (d, to) = (r.pick(&dirs).clone(), r.pick(&files).clone());
            let at = join(&d, *r.pick(&["l.R", "foo.R", "cpp11.R", "ln.r", "l.txt", ".l.R"]));
            if t.0.contains_key(&at) { continue; }
            t.0.insert(at, Node::Link(if r.chance(8) { "nowhere.R".into() } else { format!("{}{to}", "../".repeat(d.split('/').filter(|s| !s.is_empty()).count())) }));
        }
    }
    if f.git > 0 && t.0.keys().any(|k| base(k) == ".git") && r.chance(20) { let some: Vec<String> = t.0.keys().filter(|k| !k.contains(".git")).map(|k| base(k).to_string()).collect(); let l: Vec<String> = (0..r.range(1, 2)).map(|_| if some.is_empty() || r.chance(30) { r.pick(&["*.R", "*.r", "src", "tests/", "!a.R", "[ab].R"]).to_string() } else { r.pick(&some).clone() }).collect(); t.add(GLOBAL_IGNORE, Node::Text(l.join("\n") + "\n")); }
    t
}
fn random_run(r: &mut Rng, t: &Tree, f: &Profile) -> Run {
    let cwd = if r.chance(60) { String::new() } else { some_dir(t, r) };
    let files: Vec<&String> = t.0.keys().filter(|k| t.is_file(&t.real(k)) && !is_conf(k) && !k.contains(".git")).collect();
    let mut args = vec![];
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let a = match r.below(10) { 0..=3 => spell(r, &cwd, "", true), 4..=6 => { let d = some_dir(t, r); spell(r, &cwd, &d, true) } _ if !files.is_empty() => { let p = r.pick(&files).to_string(); spell(r, &cwd, &p, false) } _ => ".".into() };
        args.push(a);
    }
    if r.chance(f.missing) { args.push("absent.R".into()); }
    let mut extra = vec![];
    if r.chance(20) { extra.push("--no-color".into()); }
    if r.chance(15) { extra.push("--log-level".into()); extra.push(r.pick(&["error", "info", "debug", "trace"]).to_string()); }
    Run { check: false, force: r.chance(f.force), extra, cwd, args, stdin: None, cfg: SimCfg::random(r) }
}
const READ_ERRNO: &[i32] = &[5, 13, 24, 2, 116, 4];
const WRITE_ERRNO: &[i32] = &[28, 5, 13, 30, 122, 4, 27];
fn file_fault(r: &mut Rng, files: &[String], writes: bool) -> Fault {
    let path = if files.is_empty() || r.chance(20) { String::new() } else { r.pick(files).clone() };
    let nth = if path.is_empty() { r.below(8) } else { r.below(2) } as u32;
    let (op, kind, arg, repeat) = match r.below(if writes { 9 } else { 4 }) {
        0 => ("open_r", "errno", *r.pick(READ_ERRNO), 1),
        1 => ("read", "errno", *r.pick(READ_ERRNO), 1),
        2 => ("read", "short", r.range(1, 5) as i32, r.range(1, 20) as u32),
        3 => ("read", "errno", 4, r.range(1, 3) as u32),
        4 => ("open_w", "errno", *r.pick(WRITE_ERRNO), 1),
        5 => ("write", "errno", *r.pick(WRITE_ERRNO), *r.pick(&[1, 1, 1000])),
        6 => ("write", "short", r.range(1, 9) as i32, r.range(1, 50) as u32),
        7 => ("write", "errno", 4, r.range(1, 3) as u32),
        _ => ("write", "errno", 28, 1),
    };
    let nth = if path.is_empty() { nth } else { match op { "write" => r.below(3) as u32, "read" => r.below(3) as u32, _ => nth.min(r.below(2) as u32) } };
    Fault { op: op.into(), path, nth, repeat, kind: kind.into(), arg }
}
fn selected(t: &Tree, run: &Run) -> Vec<String> { let root = "@ROOT@"; let args: Vec<String> = run.args.iter().filter_map(|a| resolve(&run.cwd, a, root)).collect(); plan(t, &args, run.force).files.into_keys().collect() }
fn add_faults(r: &mut Rng, t: &Tree, run: &mut Run, writes: bool, dirs: bool) {
    let files = selected(t, run);
    for _ in 0..*r.pick(&[1usize, 1, 2, 3, 5]) {
        if dirs && r.chance(12) { let d = some_dir(t, r); run.cfg.faults.push(Fault { op: r.pick(&["opendir", "readdir"]).to_string(), path: d, nth: r.below(2) as u32, repeat: 1, kind: "errno".into(), arg: *r.pick(&[5, 13, 24]) }); continue; }
        let f = file_fault(r, &files, writes);
        run.cfg.faults.push(f);
    }
}
fn crashy(r: &mut Rng, t: &Tree, run: &mut Run) {
    let files = selected(t, run);
    match r.below(5) {
        0 => run.cfg.crash_at = r.range(1, 120) as u64,
        1 | 2 => if !files.is_empty() { run.cfg.faults.push(Fault { op: "write".into(), path: r.pick(&files).clone(), nth: r.below(2) as u32, repeat: 1, kind: "torn_crash".into(), arg: r.below(30) as i32 }) },
        3 => if !files.is_empty() { run.cfg.faults.push(Fault { op: r.pick(&["open_w", "write", "close", "open_r"]).to_string(), path: r.pick(&files).clone(), nth: r.below(2) as u32, repeat: 1, kind: "crash".into(), arg: 0 }) },
        _ => run.cfg.faults.push(Fault { op: "write".into(), path: String::new(), nth: r.below(6) as u32, repeat: 1, kind: "crash".into(), arg: 0 }),
    }
    if r.chance(30) { let f = file_fault(r, &files, true); run.cfg.faults.push(f); }
}
fn calm_or_random(r: &mut Rng) -> SimCfg { let mut c = if r.chance(30) { SimCfg::calm(r.next()) } else { SimCfg::random(r) }; if r.chance(50) { c.cpus = 1; } c }
fn stdin_run(r: &mut Rng, t: &Tree, f: &Profile) -> Run {
    let mut run = random_run(r, t, f);
    let d = some_dir(t, r);
    let p = match r.below(6) { 0 => join(&d, "new.R"), 1 => join(&d, "no/such/dir/x.r"), 2 => join(&d, "notes.txt"), _ => join(&d, *r.pick(FILES)) };
    let p = spell(r, &run.cwd.clone(), &p, false);
    let n = if r.chance(10) { bad_source(r) } else { Node::Text(good_source(r)) };
    let n = match n { Node::Text(s) if r.chance(25) => Node::Text(s.trim_end_matches('\n').to_string()), n => n };
    run.args = vec![];
    run.stdin = Some((p, n));
    run
}
fn quiet(p: &str) -> Profile {
    match p {
        "F01" | "F05" => Profile { confs: 1, broken: 0, bad: if p == "F05" { 3 } else { 8 }, changed: false, git: 5, excludes: false, force: 5, missing: 3, links: 0 },
        "F02" => Profile { confs: 2, broken: 4, bad: 6, changed: false, git: 10, excludes: true, force: 8, missing: 5, links: 0 },
        "F03" => Profile { confs: 4, broken: 3, bad: 8, changed: false, git: 15, excludes: true, force: 8, missing: 8, links: 0 },
        "F04" => Profile { confs: 1, broken: 0, bad: 15, changed: false, git: 5, excludes: false, force: 5, missing: 10, links: 0 },
        "F06" => Profile { confs: 3, broken: 8, bad: 5, changed: false, git: 0, excludes: true, force: 10, missing: 0, links: 0 },
        "F07" => Profile { confs: 3, broken: 0, bad: 4, changed: true, git: 25, excludes: true, force: 8, missing: 3, links: 12 },
        _ => Profile { confs: 6, broken: 10, bad: 3, changed: false, git: 0, excludes: false, force: 3, missing: 3, links: 0 },
    }
}
impl Check for Cli {
    type Case = Case;
    fn directed(&self) -> Vec<Case> {
        let mk = |files: &[(&str, Node)], runs: Vec<Run>| { let mut t = Tree::default(); for (p, n) in files { t.add(p, n.clone()); } Case { tree: t, runs } };
        let run = |args: &[&str]| Run { check: false, force: false, extra: vec![], cwd: String::new(), args: args.iter().map(|s| s.to_string()).collect(), stdin: None, cfg: SimCfg::calm(1) };
        let txt = |s: &str| Node::Text(s.into());
        let mut v = vec![];
        match self.prop {
            "F01" => for (op, kind) in [("open_w", "crash"), ("write", "crash"), ("write", "torn_crash"), ("write", "errno"), ("close", "crash"), ("open_r", "crash")] {
                let mut r = run(&["."]);
                r.cfg.faults.push(Fault { op: op.into(), path: "b.R".into(), nth: 0, repeat: 1, kind: kind.into(), arg: if kind == "errno" { 28 } else { 5 } });
                v.push(mk(&[("a.R", txt("x<-1\ny<-2\n")), ("b.R", txt("x<-1\ny<-2\n")), ("c.R", txt("x<-1\n"))], vec![r]));
            },
            "F04" => v.push(mk(&[("a.R", txt("x<-1\n"))], vec![run(&["a.R", "gone.R"])])),
            "F06" => for k in [0usize, 1, 2, 4095, 4096, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 150000] { for nl in [false, true] { for (p, errno) in [("x.R", 0), ("notes.txt", 0), ("notes.txt", 32), ("x.R", 32)] {
                let mut r = run(&[]);
                r.stdin = Some((p.into(), txt(&format!("{}{}", "# ab\n".repeat(k / 5) + &"v"[..k.min(1)], if nl { "\n" } else { "" }))));
                if errno != 0 { r.cfg.faults.push(Fault { op: "stdout".into(), path: String::new(), nth: 0, repeat: 1000, kind: "errno".into(), arg: errno }); }
                v.push(mk(&[], vec![r]));
            } } },
            "F08" => for b in BROKEN_TOML { v.push(mk(&[("a.R", txt("x<-opts()\n")), ("air.toml", Node::Broken(b.to_string()))], vec![run(&["."])])); },
            _ => {}
        }
        // trees with large files, many files and long paths
        if self.prop != "F06" {
            let large = |n: usize, end: &str| { let mut s = String::new(); while s.len() < n { s += &format!("# é {}\nv<-'é'\n", s.len()); } txt(&(s + end)) };
            let mut trees: Vec<Vec<(String, Node)>> = vec![];
            for end in ["x<-1\n", "x <- 1", "f(\n", "\n\n"] { trees.push([16_000, 66_000, 140_000].iter().map(|n| (format!("l{n}.R"), large(*n, end))).collect()); }
            trees.push((0..150).map(|i| (format!("f{i}.R"), match i % 7 { 0 => txt("x <- 1\n"), 3 if i > 100 => txt("f(\n"), _ => txt(&format!("x<-{i}\n")) })).collect());
            trees.push((0..70).map(|i| (format!("d{}/f{i}.R", i % 35), txt(&format!("x<-{i}\n")))).collect());
            trees.push((0..40).map(|i| (format!("{}f.R", "d/".repeat(i)), txt(&format!("x<-{i}\n")))).chain([(format!("{}air.toml", "d/".repeat(20)), Node::Conf(Conf { indent_width: Some(7), ..Conf::default() })), (format!("{}opts.R", "d/".repeat(39)), txt("{\nopts()\n}\n"))]).collect());
            trees.push(vec![(format!("{}.R", "n".repeat(230)), txt("x<-1\n")), (format!("{}/{}.R", "é".repeat(100), "é".repeat(100)), txt("x<-1\n"))]);
            for t in trees {
                let files: Vec<(&str, Node)> = t.iter().map(|(p, n)| (p.as_str(), n.clone())).collect();
                let mut r = run(&["."]);
                r.cfg.max_steps = 4_000_000;
                let mut runs = vec![r.clone()];
                match self.prop {
                    "F02" => { runs[0].check = true; }
                    "F03" => for k in [2u32, 4] { let mut u = r.clone(); u.cfg.cpus = k as _; u.cfg.seed = k as u64; u.cfg.switch_ppm = 20_000; runs.push(u); },
                    "F05" => for i in 0..3 { let mut u = r.clone(); u.check = i == 1; runs.push(u); },
                    _ => {}
                }
                v.push(mk(&files, runs));
            }
        }
        v
    }
    fn generate(&self, r: &mut Rng) -> Case {
        let f = quiet(self.prop);
        let t = random_tree(r, &f);
        let mut runs = vec![];
        match self.prop {
            "F01" => for _ in 0..r.range(1, 2) { let mut u = random_run(r, &t, &f); if r.chance(70) { crashy(r, &t, &mut u); } else { add_faults(r, &t, &mut u, true, true); } runs.push(u); },
            "F02" => { let mut u = if r.chance(15) { stdin_run(r, &t, &f) } else { random_run(r, &t, &f) }; u.check = true; if r.chance(50) { if u.stdin.is_some() { stream_faults(r, &mut u); } else { add_faults(r, &t, &mut u, true, true); } } if r.chance(8) { u.cfg.crash_at = r.range(1, 60) as u64; } runs.push(u); }
            "F03" => { let mut u = random_run(r, &t, &f); u.check = r.chance(25); u.cfg.cpus = 1; runs.push(u.clone()); for _ in 0..2 { u.cfg = SimCfg::random(r); u.cfg.cpus = *r.pick(&[2, 3, 4, 4, 6]); u.cfg.alloc_ppm = *r.pick(&[0, 20_000, 200_000, 600_000, 1_000_000]); u.cfg.lag_ppm = *r.pick(&[0, 5_000, 50_000, 300_000]); if u.cfg.switch_ppm == 0 { u.cfg.switch_ppm = 200_000; } runs.push(u.clone()); } }
            "F04" => { let mut u = random_run(r, &t, &f); u.check = r.chance(20); if r.chance(85) { add_faults(r, &t, &mut u, true, true); } runs.push(u); }
            "F05" => { for _ in 0..r.range(1, 2) { let mut u = random_run(r, &t, &f); if let Some(first) = runs.first() { let first: &Run = first; u.args = first.args.clone(); u.cwd = first.cwd.clone(); u.force = first.force; } if r.chance(60) { crashy(r, &t, &mut u); } else { add_faults(r, &t, &mut u, true, false); } runs.push(u); }
                for i in 0..3 { let mut u = runs[0].clone(); u.cfg = calm_or_random(r); u.check = i == 1; runs.push(u); } }
            "F06" => { let mut u = stdin_run(r, &t, &f); u.check = r.chance(15); if r.chance(50) { stream_faults(r, &mut u); } runs.push(u); }
            "F07" => { let mut u = random_run(r, &t, &f); u.check = r.chance(15); u.cfg = calm_or_random(r); runs.push(u); }
            _ => { let mut u = random_run(r, &t, &f); u.check = r.chance(10); u.cfg = calm_or_random(r);
                let confs: Vec<String> = t.0.keys().filter(|k| is_conf(k)).cloned().collect();
                if !confs.is_empty() && r.chance(25) { u.cfg.faults.push(match r.below(4) { 0 => Fault { op: "open_r".into(), path: r.pick(&confs).clone(), nth: 0, repeat: 1, kind: "errno".into(), arg: *r.pick(READ_ERRNO) }, 1 => Fault { op: "read".into(), path: r.pick(&confs).clone(), nth: r.below(2) as u32, repeat: 1, kind: "errno".into(), arg: *r.pick(READ_ERRNO) }, _ => Fault { op: "read".into(), path: r.pick(&confs).clone(), nth: 0, repeat: 30, kind: "short".into(), arg: r.range(1, 7) as i32 } }); }
                runs.push(u); }
        }
        // a configuration file that is itself formatted (--force takes every file) changes what governs the next run
        for u in &mut runs { if u.force && selected(&t, u).iter().any(|k| is_conf(k)) { u.force = false; } }
        if matches!(self.prop, "F03" | "F05") { let f = runs.iter().all(|u| u.force); for u in &mut runs { u.force = f; } }
        Case { tree: t, runs }
    }
    fn eval(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> { self.judge(c, x) }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let fixed = matches!(self.prop, "F03" | "F05");
        if !fixed { for i in 0..c.runs.len() { if c.runs.len() > 1 { let mut d = c.clone(); d.runs.remove(i); v.push(d); } } }
        if self.prop == "F03" && c.runs.len() > 2 { for i in 1..c.runs.len() { let mut d = c.clone(); d.runs.remove(i); v.push(d); } }
        if self.prop == "F05" && c.runs.len() > 4 { let mut d = c.clone(); d.runs.remove(1); v.push(d); }
        for k in c.tree.0.keys() { if c.runs.iter().any(|r| under(&r.cwd, k)) { continue; } let mut d = c.clone(); d.tree.remove(k); v.push(d); }
        for a in 0..c.runs[0].args.len() { if c.runs[0].args.len() > 1 && c.runs.iter().all(|r| r.args == c.runs[0].args) { let mut d = c.clone(); for r in &mut d.runs { r.args.remove(a); } v.push(d); } }
        for (k, n) in &c.tree.0 { match n { Node::Text(s) if s.len() > 6 && is_r(k) => { for s2 in ["x<-1\n", "x <- 1\n", "x<-opts()\n", &s[..s.find('\n').map_or(s.len(), |i| i + 1)]] { if s2 != s { let mut d = c.clone(); d.tree.0.insert(k.clone(), Node::Text(s2.into())); v.push(d); } } }
            Node::Conf(f) => for g in simpler(f) { let mut d = c.clone(); d.tree.0.insert(k.clone(), Node::Conf(g)); v.push(d); }, _ => {} } }
        if c.runs.iter().any(|r| !r.extra.is_empty()) { let mut d = c.clone(); for r in &mut d.runs { r.extra.clear(); } v.push(d); }
        if c.runs.iter().any(|r| r.force) { let mut d = c.clone(); for r in &mut d.runs { r.force = false; } v.push(d); }
        for (i, r) in c.runs.iter().enumerate() { if let Some((p, Node::Text(s))) = &r.stdin { for s2 in ["", "x", "x\n", "x<-1\n", &s[..s.char_indices().nth(s.chars().count() / 2).map_or(0, |c| c.0)]] { if s2.len() < s.len() { let mut d = c.clone(); d.runs[i].stdin = Some((p.clone(), Node::Text(s2.into()))); v.push(d); } } } }
        v
    }
    fn cfgs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut SimCfg> { c.runs.iter_mut().map(|r| &mut r.cfg).collect() }
    fn rule(&self) -> String {
        let what = match self.prop { "F01" => "a file would change in a run that may crash or meet faults", "F02" => "at least one file (or a stream) is judged", "F03" => "at least two files are selected, formatted under three schedules", "F04" => "at least one file fails", "F05" => "the first run crashed or met a fault", "F06" => "a stream was formatted", "F07" => "at least one file is selected", _ => "a configuration file governs a selected file or is unusable" };
        format!("a case is a seeded tree, arguments, fault list and schedule; non-trivial when {what}; distinct by the execution trace")
    }
    fn real(&self) -> Vec<String> { ["crates/air (main, arguments, format command)", "crates/workspace (discovery, settings, patterns, resolver)", "crates/settings, fs, line_ending, crates", "crates/air_r_formatter/src/context.rs, crates/air_r_parser/src/error.rs", "ignore, globset, toml, clap, tracing-subscriber, std"].iter().map(|s| s.to_string()).collect() }
    fn stub(&self) -> Vec<String> { ["threads' scheduler, clock, file system faults, standard streams (sim.c)", "R parser and formatter: a small language that shows every option in its output (the real ones need crates that are not available here)", "colored, clap_complete, strum derive"].iter().map(|s| s.to_string()).collect() }
    fn assumptions(&self) -> Vec<String> { vec!["a process crash keeps what completed system calls wrote".into(), "files are not changed by others while the command runs".into(), "a failing stat of a configuration file is indistinguishable from its absence and not injected".into()] }
    fn level(&self) -> &'static str { if matches!(self.prop, "F01" | "F04" | "F05" | "F06") { "fault_enumeration" } else { "exploration" } }
}
fn simpler(f: &Conf) -> Vec<Conf> {
    let mut v = vec![];
    macro_rules! drop { ($($n:ident),*) => { $( if f.$n.is_some() { let mut g = f.clone(); g.$n = None; v.push(g); } )* } }
    drop!(line_width, indent_width, indent_style, line_ending, persistent_line_breaks, assignment_style, exclude, default_exclude, skip, table, default_table);
    for (i, l) in [&f.exclude, &f.skip, &f.table].iter().enumerate() { if let Some(l) = l { for k in 0..l.len() { let mut m = l.clone(); m.remove(k); let mut g = f.clone(); match i { 0 => g.exclude = Some(m), 1 => g.skip = Some(m), _ => g.table = Some(m) } v.push(g); } } }
    v
}
fn stream_faults(r: &mut Rng, u: &mut Run) {
    for _ in 0..r.range(1, 3) {
        let op = if r.chance(60) { "stdout" } else { "stdin" };
        let f = match r.below(4) {
            0 => Fault { op: op.into(), path: String::new(), nth: r.below(4) as u32, repeat: r.range(1, 5) as u32, kind: "errno".into(), arg: 4 },
            1 => Fault { op: op.into(), path: String::new(), nth: r.below(4) as u32, repeat: r.range(1, 30) as u32, kind: "short".into(), arg: r.range(1, 40) as i32 },
            _ => Fault { op: op.into(), path: String::new(), nth: r.below(4) as u32, repeat: *r.pick(&[1, 1, 1000]), kind: "errno".into(), arg: if op == "stdout" { *r.pick(&[32, 5, 28]) } else { 5 } },
        };
        u.cfg.faults.push(f);
    }
}
fn main() {
    simrt::driver::main(|p| -> Option<Box<dyn DynCheck>> { let prop = ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08"].into_iter().find(|x| *x == p)?; Some(Box::new(Cli { prop })) })
}
