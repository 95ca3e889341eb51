//! What an editor does in one session, and how sessions are generated.
use model::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::sim::{Rng, SimCfg};

/// How the editor answers a request of the server.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Reply {
    pub kind: String, // values error short long not_array bad_doc bad_global
    #[serde(default)] pub sync: Value,
    #[serde(default)] pub level: Value,
    #[serde(default)] pub dep: Value,
    /// insertSpaces, indentSize, tabSize for every document asked about
    #[serde(default)] pub doc: [Value; 3],
    /// answered only after this many further actions
    #[serde(default)] pub delay: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Change { pub a: usize, pub b: usize, pub text: String, pub full: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Open { doc: usize, text: String, reply: Reply },
    Edit { doc: usize, changes: Vec<Change> },
    Close { doc: usize },
    Save { doc: usize },
    Format { doc: usize, tab: bool, size: u32 },
    Range { doc: usize, a: usize, b: usize, tab: bool, size: u32 },
    View { doc: usize, kind: usize },
    Config { reply: Reply },
    Disk { path: String, node: Option<Node> },
    Watch { paths: Vec<String> },
    Folders { added: Vec<String>, removed: Vec<String> },
    BadPath { path: String, errno: i32 },
    Cancel { back: usize },
    Junk { kind: usize },
    Wait,
    Pause { ms: u64 },
    Pump,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    /// shutdown, this many further requests, exit; the input is closed or left open
    Shutdown { after: usize, close: bool, idle: bool, /** says exit as soon as shutdown is answered, whatever else it asked before */ #[serde(default)] hasty: bool },
    ExitOnly { close: bool },
    /// the input ends, after this many bytes of one more message
    Eof { bytes: usize },
    /// the client disappears
    Vanish,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Init {
    pub name: Option<String>, pub enc: Option<Vec<String>>, pub config: bool, pub dyn_config: bool, pub dyn_watch: bool,
    pub opts: Option<Value>, pub folders: Option<Vec<String>>, pub env_level: Option<String>, pub env_dep: Option<String>,
    /// how the client answers client/registerCapability: ok error slow
    pub reg: String,
    /// requests sent before initialize, and where a session is cut short: "", "none" (no message), "first" (inside initialize)
    #[serde(default)] pub early: usize, #[serde(default)] pub cut: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case { pub tree: Tree, pub docs: Vec<String>, pub init: Init, pub steps: Vec<Step>, pub end: End, pub cfg: SimCfg }

// ---- generation
pub struct Profile { open: u32, edit: u32, close: u32, format: u32, range: u32, view: u32, config: u32, disk: u32, folders: u32, bad: u32, cancel: u32, junk: u32, wait: u32, pump: u32, steps: usize, pulls: u32, sync: u32, excludes: bool, confs: u32, unicode: u32, slow: u32 }
pub fn profile(p: &str) -> Profile {
    let b = Profile { open: 10, edit: 10, close: 3, format: 12, range: 3, view: 3, config: 2, disk: 4, folders: 2, bad: 1, cancel: 1, junk: 1, wait: 3, pump: 2, steps: 16, pulls: 40, sync: 40, excludes: true, confs: 50, unicode: 40, slow: 15 };
    match p {
        "L01" => Profile { edit: 30, view: 16, format: 8, close: 4, disk: 1, folders: 0, config: 1, steps: 22, confs: 20, unicode: 70, ..b },
        "L02" => Profile { edit: 20, format: 26, view: 2, disk: 2, folders: 1, unicode: 70, confs: 55, ..b },
        "L03" => Profile { cancel: 8, junk: 14, view: 8, config: 4, format: 14, range: 8, pulls: 70, slow: 35, ..b },
        "L04" => Profile { disk: 22, folders: 10, bad: 5, format: 22, edit: 4, confs: 80, steps: 20, excludes: true, ..b },
        "L05" => Profile { open: 14, format: 26, range: 5, config: 10, disk: 5, folders: 4, edit: 4, pulls: 90, confs: 40, ..b },
        "L06" => Profile { open: 14, close: 5, config: 12, disk: 14, folders: 6, bad: 4, format: 4, edit: 4, pulls: 100, sync: 80, confs: 80, wait: 6, ..b },
        "L07" => Profile { format: 26, range: 6, disk: 10, folders: 5, confs: 85, edit: 3, excludes: true, ..b },
        "L08" => Profile { steps: 7, wait: 1, format: 20, config: 4, pulls: 60, slow: 30, ..b },
        "L09" => Profile { range: 30, format: 3, edit: 16, confs: 40, unicode: 60, view: 1, ..b },
        "L10" => Profile { config: 14, pulls: 90, sync: 20, slow: 60, pump: 6, view: 6, format: 12, disk: 2, wait: 6, ..b },
        _ => b,
    }
}
const ENCODINGS: &[&[&str]] = &[&["utf-16"], &["utf-8"], &["utf-16", "utf-8"], &["utf-32", "utf-16"], &["utf-8", "utf-16"], &["utf-32", "utf-8", "utf-16"], &[]];
const WORDS: &[&str] = &["a", "é", "𝒳", "x1", "日本", "ß", "👩‍👧", "e\u{301}", "z"];
fn fragment(r: &mut Rng, p: &Profile) -> String {
    let w = |r: &mut Rng| if r.chance(p.unicode) { *r.pick(WORDS) } else { *r.pick(&["a", "b", "foo"]) };
    let mut s = match r.below(22) {
        0 => String::new(), 1 => "\n".into(), 2 => "\n\n\n".into(), 3 => format!("{}<-1\n", w(r)), 4 => format!("# {} \n", w(r)), 5 => "opts( )\n".into(),
        6 => format!("{} = '{}'", w(r), w(r)), 7 => "  ".into(), 8 => "{\n".into(), 9 => "}\n".into(), 10 => format!("f({},{})", w(r), w(r)), 11 => "g <- function(x) {\nx\n{\n y=2 # t\n\n}\n}\n".into(),
        12 => format!("\"{}\n\"", w(r)), 13 => w(r).to_string(), 14 => "\t".into(), 15 => format!("{{\n\n# {}\n{} + \n 1\n}}\n", w(r), w(r)), 16 => "+".into(), 17 => "opts()\nz=1\n".into(), 18 => format!("{}{}", w(r), w(r)), 19 => "if (a) {\n  b\n}\n".into(), 20 => format!(" # {}", w(r)), _ => "x\n".into(),
    };
    if r.chance(2) { s += "FMTERR\n"; }
    if r.chance(1) { s += "TSERR "; }
    if r.chance(12) { s = s.replace('\n', "\r\n"); }
    s
}
fn text(r: &mut Rng, p: &Profile) -> String {
    let mut s = String::new();
    for _ in 0..8 {
        s.clear();
        for _ in 0..r.below(8) { s += &fragment(r, p); }
        if toylang::parse(&s).is_ok() || r.chance(8) { break; }
    }
    if r.chance(55) && toylang::parse(&s).is_ok() { if !s.is_empty() && !s.ends_with('\n') { s.push('\n'); } s += "opts( )\n"; }
    if r.chance(3) { let l = format!("# {}\nv<-'{}'\n", "x".repeat(r.below(60)), "é".repeat(r.below(40))); while s.len() < 5000 { s += &l; } }
    match r.below(10) { 0..=4 => s.replace("\r\n", "\n"), 5..=7 => s.replace("\r\n", "\n").replace('\n', "\r\n"), _ => s }
}
fn change(r: &mut Rng, p: &Profile) -> Change {
    let full = r.chance(10);
    let a = r.below(5000);
    let b = if r.chance(45) { a } else if r.chance(75) { a + r.below(6) } else { r.below(5000) };
    Change { a, b, text: if full { text(r, p) } else { fragment(r, p) }, full }
}
fn reply(r: &mut Rng, p: &Profile) -> Reply {
    let kind = if r.chance(82) { "values" } else { *r.pick(&["error", "short", "long", "not_array", "bad_doc", "bad_global"]) };
    let level = match r.below(9) { 0 => json!("error"), 1 => json!("warn"), 2 => json!("warning"), 3 => json!("debug"), 4 => json!("trace"), 5 => json!("info"), _ => Value::Null };
    let dep = match r.below(if p.config > 10 { 12 } else { 30 }) { 0 => json!("tower_lsp=debug"), 1 => json!("trace"), 2 => json!("tower_lsp=info"), 3 => json!("tokio=info,tower_lsp=trace"), 4 => json!("tokio=info"), 5 => json!("tower_lsp=what"), _ => Value::Null };
    let doc = [if r.chance(85) { json!(r.chance(50)) } else { Value::Null }, match r.below(4) { 0 => json!("tabSize"), 1 => Value::Null, _ => json!(r.range(1, 8)) }, if r.chance(85) { json!(*r.pick(&[1, 2, 3, 4, 8, 24, 25, 0])) } else { Value::Null }];
    Reply { kind: kind.into(), sync: if r.chance(p.sync) { json!(true) } else if r.chance(50) { json!(false) } else { Value::Null }, level, dep, doc, delay: if r.chance(p.slow) { r.range(1, 6) } else { 0 } }
}
const DIRS: &[&str] = &["w", "w/sub", "w/sub/deep", "w2", "v", "w/renv", "w/data-raw", "u p"];
pub fn generate(prop: &str, r: &mut Rng) -> Case {
    let p = profile(prop);
    let mut tree = Tree::default();
    for d in DIRS { if r.chance(85) || *d == "w" { tree.add(d, Node::Dir); } }
    let conf = |r: &mut Rng| -> Node { if r.chance(82) { let ex = p.excludes && r.chance(if prop == "L07" { 95 } else { 25 }); let mut c = Conf::random(r, ex); if r.chance(10) { c.line_ending = Some("crlf".into()); } Node::Conf(c) } else { Node::Broken(r.pick(BROKEN_TOML).to_string()) } };
    let confname = |r: &mut Rng| if r.chance(25) { ".air.toml" } else { "air.toml" };
    for d in ["", "w", "w/sub", "w2", "v"] { if r.chance(p.confs / 2) { let n = conf(r); tree.add(&join(d, confname(r)), n); } }
    let dirs: Vec<String> = std::iter::once(String::new()).chain(DIRS.iter().map(|s| s.to_string())).filter(|d| tree.is_dir(d)).collect();
    let mut docs: Vec<String> = vec![];
    for _ in 0..r.range(1, 4) {
        let d = match r.below(20) {
            0 => "untitled:Untitled-1".into(),
            1 => "untitled:Untitled-2".into(),
            2 => "vscode-notebook-cell:/w/n.qmd#W0".into(),
            3 => "git:/w/a.R?ref=HEAD".into(),
            4 => "git:/renv/a.R".into(),
            _ => format!("file:{}", join(r.pick::<String>(&dirs), if prop == "L07" || r.chance(20) { *r.pick(FILES) } else { *r.pick(&["a.R", "b.R", "c d.R", "é.R", "n.txt"]) })),
        };
        if !docs.contains(&d) { docs.push(d); }
    }
    if prop == "L07" { for d in docs.clone() { if let Some(f) = d.strip_prefix("file:") { if is_r(f) || r.chance(30) { tree.add(f, Node::Text("x<-opts()\n".into())); } } } docs.retain(|d| d.strip_prefix("file:").is_none_or(|f| !f.ends_with(".toml"))); if docs.is_empty() { docs.push("file:w/a.R".into()); } }
    let folder = |r: &mut Rng| -> String { match r.below(24) { 0 => "untitled:x".into(), 1 => "w/".into(), 2 => "absent".into(), 3 => "".into(), _ => r.pick(&["w", "w", "w", "w/sub", "w/sub/deep", "w2", "v", "u p"]).to_string() } };
    let mut env_level = None;
    let mut env_dep = None;
    if r.chance(6) { env_level = Some(r.pick(&["trace", "error", "warn", "loud", ""]).to_string()); }
    if r.chance(3) { env_dep = Some(r.pick(&["tokio=trace", "tower_lsp=info", "tower_lsp=trace"]).to_string()); }
    let level = |r: &mut Rng| match r.below(8) { 0 => json!("error"), 1 => json!("warn"), 2 => json!("trace"), 3 => json!("debug"), 4 => json!("loud"), 5 => json!("warning"), _ => Value::Null };
    let init = Init {
        name: match r.below(6) { 0 => None, 1 => Some("Zed".into()), 2 => Some("Neovim".into()), 3 => Some("Visual Studio Code - Insiders".into()), _ => Some("Visual Studio Code".into()) },
        enc: if r.chance(20) { None } else { Some(r.pick(ENCODINGS).iter().map(|s| s.to_string()).collect()) },
        config: r.chance(p.pulls), dyn_config: r.chance(70), dyn_watch: r.chance(70),
        opts: match r.below(5) { 0 => None, 1 => Some(json!({})), 2 => Some(json!({"logLevel": level(r), "dependencyLogLevels": if r.chance(25) { json!(*r.pick(&["tokio=info", "tower_lsp=debug", "tower_lsp=info"])) } else { Value::Null }})), 3 => Some(json!({"logLevel": level(r)})), _ => Some(json!({"logLevel": *r.pick(&["info", "trace"])})) },
        folders: if r.chance(6) { None } else { let mut f: Vec<String> = (0..*r.pick(&[0usize, 1, 1, 1, 2, 3])).map(|_| folder(r)).collect(); f.dedup(); Some(f) },
        env_level, env_dep, reg: r.pick(&["ok", "ok", "ok", "error", "slow"]).to_string(),
        early: if r.chance(if prop == "L03" || prop == "L08" { 12 } else { 2 }) { r.range(1, 2) } else { 0 },
        cut: if prop == "L08" && r.chance(6) { r.pick(&["none", "first"]).to_string() } else { String::new() },
    };
    // several folders, one inside the other or side by side, each with its own configuration, coming and going
    let many = matches!(prop, "L04" | "L05" | "L06" | "L07") && r.chance(30);
    let init = if many {
        let mut f: Vec<String> = ["w", "w/sub", "w/sub/deep", "w2", "v", "u p"].into_iter().filter(|_| r.chance(60)).map(String::from).collect();
        r.shuffle(&mut f);
        for d in ["", "w", "w/sub", "w/sub/deep", "w2", "v"] { if !tree.0.keys().any(|k| *k == join(d, "air.toml") || *k == join(d, ".air.toml")) && r.chance(60) { let name = join(d, confname(r)); tree.add(&name, Node::Conf({ let mut c = { let ex = p.excludes && r.chance(if prop == "L07" { 80 } else { 10 }); Conf::random(r, ex) }; c.indent_width = Some(r.range(1, 9) as u32); c })); } }
        for d in ["w", "w/sub", "w/sub/deep", "w2", "v"] { let f = format!("file:{d}/a.R"); if r.chance(65) && !docs.contains(&f) { docs.push(f.clone()); if prop == "L07" { tree.add(&f[5..], Node::Text("x<-opts()\n".into())); } } }
        Init { folders: Some(f), ..init }
    } else { init };
    let mut steps = vec![];
    // most documents are open from the start
    for d in 0..docs.len() { if r.chance(75) { steps.push(Step::Open { doc: d, text: text(r, &p), reply: reply(r, &p) }); } }
    let weights = [p.open, p.edit, p.close, p.format, p.range, p.view, p.config, p.disk, p.folders, p.bad, p.cancel, p.junk, p.wait, p.pump];
    let total: u32 = weights.iter().sum();
    for _ in 0..r.range(2, p.steps) {
        let mut k = r.below(total as usize) as u32;
        let mut w = 0;
        while k >= weights[w] { k -= weights[w]; w += 1; }
        let doc = r.below(docs.len());
        let size = *r.pick(&[1, 2, 2, 3, 4, 4, 8, 24, 25, 0, 4096]);
        let step = match w {
            0 => Step::Open { doc, text: text(r, &p), reply: reply(r, &p) },
            1 => if r.chance(4) { Step::Save { doc } } else { Step::Edit { doc, changes: (0..*r.pick(&[1usize, 1, 1, 2, 3, 5, 0])).map(|_| change(r, &p)).collect() } },
            2 => Step::Close { doc },
            3 => Step::Format { doc, tab: r.chance(40), size },
            4 => { let a = r.below(5000); Step::Range { doc, a, b: if r.chance(30) { a } else if r.chance(60) { a + r.below(12) } else { r.below(5000) }, tab: r.chance(40), size } }
            5 => Step::View { doc, kind: if r.chance(80) { 0 } else { r.below(3) } },
            6 => Step::Config { reply: reply(r, &p) },
            7 => {
                let d = r.pick(&["", "w", "w", "w/sub", "w2", "v", "w/sub/deep"]).to_string();
                let path = join(&d, confname(r));
                let node = if r.chance(22) { None } else { Some(conf(r)) };
                steps.push(Step::Disk { path: path.clone(), node });
                if r.chance(20) { continue; }
                // usually the editor notices, sometimes together with other files, which may have changed as well
                let mut paths = vec![path];
                for _ in 0..2 { if r.chance(25) {
                    let path = join(r.pick::<&str>(&["", "w", "w2", "v", "w/sub"]), confname(r));
                    let node = if r.chance(22) { None } else { Some(conf(r)) };
                    steps.push(Step::Disk { path: path.clone(), node });
                    paths.push(path);
                } }
                if r.chance(15) { paths.push(join(r.pick::<String>(&dirs), *r.pick(&["a.R", "air.toml", "xair.toml", ".air.toml", "air.toml.bak"]))); }
                if r.chance(10) { paths.reverse(); }
                Step::Watch { paths }
            }
            8 => if many && r.chance(60) {
                // one of the folders goes or comes (back)
                let d = r.pick(&["w", "w/sub", "w/sub/deep", "w2", "v", "u p"]).to_string();
                if r.chance(55) { Step::Folders { added: vec![], removed: vec![d] } } else { Step::Folders { added: vec![d], removed: vec![] } }
            } else if r.chance(60) { let added: Vec<String> = (0..r.below(3)).map(|_| folder(r)).collect(); let mut removed: Vec<String> = (0..r.below(2)).map(|_| folder(r)).collect();
                // a folder is not both added and removed by one event
                removed.retain(|x| !added.iter().any(|y| x.trim_end_matches('/') == y.trim_end_matches('/')));
                Step::Folders { added, removed }
             } else { Step::Watch { paths: (0..r.range(0, 2)).map(|_| join(r.pick::<String>(&dirs), *r.pick(&["air.toml", ".air.toml", "a.R"]))).collect() } },
            9 => { let d = r.pick(&["", "w", "w", "w2", "v"]).to_string(); Step::BadPath { path: if r.chance(25) { String::new() } else { join(&d, confname(r)) }, errno: *r.pick(&[5, 13, 24, 116]) } }
            10 => Step::Cancel { back: r.below(3) },
            11 => Step::Junk { kind: r.below(12) },
            12 => if r.chance(70) { Step::Wait } else { Step::Pause { ms: r.below(300) as u64 } },
            _ => Step::Pump,
        };
        let moved = many && matches!(step, Step::Folders { .. });
        steps.push(step);
        if moved || many && r.chance(8) { for doc in 0..docs.len() { if r.chance(70) { steps.push(Step::Format { doc, tab: false, size: 2 }); } } }
    }
    let end = match r.below(if prop == "L08" { 8 } else { 12 }) {
        0 | 1 => Step2::E(r.below(400)), 2 => Step2::V, 3 => Step2::X(r.chance(50)), _ => Step2::S(r.below(3), r.chance(40), r.chance(if prop == "L08" { 40 } else { 85 }), r.chance(50)),
    };
    let end = match end { Step2::E(b) => End::Eof { bytes: if r.chance(40) { 0 } else { b } }, Step2::V => End::Vanish, Step2::X(close) => End::ExitOnly { close }, Step2::S(after, close, idle, hasty) => End::Shutdown { after, close, idle, hasty } };
    let mut cfg = SimCfg::random(r);
    cfg.alloc_ppm = *r.pick(&[0, 0, 0, 2_000, 20_000]);
    if r.chance(p.slow / 2) { cfg.out_cap = *r.pick(&[1, 64, 1000, 5000]); }
    if cfg.out_chunk_max == 1 && r.chance(70) { cfg.out_chunk_max = 7; }
    if cfg.chunk_max == 1 && r.chance(60) { cfg.chunk_max = 16; }
    cfg.max_steps = 4_000_000;
    Case { tree, docs, init, steps, end, cfg }
}
enum Step2 { E(usize), V, X(bool), S(usize, bool, bool, bool) }
pub fn shrink(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| { let mut d = c.clone(); f(&mut d); if d != *c { v.push(d); } };
    let n = c.steps.len();
    let mut k = n / 2;
    while k > 1 { let mut i = 0; while i < n { push(&|d| { d.steps.drain(i..(i + k).min(n)); }); i += k; } k /= 2; }
    for i in (0..n).rev() { push(&|d| { d.steps.remove(i); }); }
    push(&|d| d.end = End::Shutdown { after: 0, close: true, idle: true, hasty: false });
    push(&|d| if let End::Eof { bytes } = &mut d.end { *bytes = 0 });
    push(&|d| { d.init.early = 0; });
    push(&|d| { d.init.opts = None; });
    push(&|d| { d.init.config = false; });
    push(&|d| { d.init.dyn_config = false; d.init.dyn_watch = false; });
    push(&|d| { d.init.enc = Some(vec!["utf-8".into()]); });
    push(&|d| { d.init.env_level = None; d.init.env_dep = None; });
    push(&|d| { d.init.reg = "ok".into(); });
    for key in c.tree.0.keys() { if c.tree.is_dir(key) && key == "w" { continue; } push(&|d| d.tree.remove(key)); }
    for (key, node) in &c.tree.0 { if let Node::Conf(f) = node { if *f != Conf::default() { push(&|d| { d.tree.0.insert(key.clone(), Node::Conf(Conf::default())); }); } } }
    for i in 0..n {
        match &c.steps[i] {
            Step::Open { text, .. } => { for t in ["x<-1\n", "opts( )\n", ""] { if t.len() < text.len() { push(&|d| if let Step::Open { text, .. } = &mut d.steps[i] { *text = t.into(); }); } }
                let lines: Vec<&str> = text.split_inclusive('\n').collect();
                for k in 0..lines.len().min(12) { let mut l = lines.clone(); l.remove(k); let s = l.concat(); push(&|d| if let Step::Open { text, .. } = &mut d.steps[i] { *text = s.clone(); }); }
                push(&|d| if let Step::Open { reply, .. } = &mut d.steps[i] { *reply = Reply { kind: "values".into(), sync: reply.sync.clone(), ..Default::default() }; }); }
            Step::Edit { changes, .. } => for k in 0..changes.len() { push(&|d| if let Step::Edit { changes, .. } = &mut d.steps[i] { changes.remove(k); }); },
            Step::Config { .. } => push(&|d| if let Step::Config { reply } = &mut d.steps[i] { reply.delay = 0; reply.dep = Value::Null; }),
            Step::Folders { added, removed } => { for k in 0..added.len() { push(&|d| if let Step::Folders { added, .. } = &mut d.steps[i] { added.remove(k); }); } for k in 0..removed.len() { push(&|d| if let Step::Folders { removed, .. } = &mut d.steps[i] { removed.remove(k); }); } }
            Step::Watch { paths } => for k in 0..paths.len() { push(&|d| if let Step::Watch { paths } = &mut d.steps[i] { paths.remove(k); }); },
            Step::Disk { node: Some(Node::Conf(f)), .. } if *f != Conf::default() => push(&|d| if let Step::Disk { node, .. } = &mut d.steps[i] { *node = Some(Node::Conf(Conf::default())); }),
            _ => {}
        }
    }
    v
}

/// Sessions that are always tried.
pub fn directed(prop: &str) -> Vec<Case> {
    let init = Init { name: Some("Visual Studio Code".into()), enc: Some(vec!["utf-16".into()]), config: true, dyn_config: true, dyn_watch: true, opts: None, folders: Some(vec!["w".into()]), env_level: None, env_dep: None, reg: "ok".into(), early: 0, cut: String::new() };
    let mk = |files: &[(&str, Node)], steps: Vec<Step>, end: End| { let mut t = Tree::default(); t.add("w", Node::Dir); for (p, n) in files { t.add(p, n.clone()); } Case { tree: t, docs: vec!["file:w/a.R".into(), "file:w/b.R".into()], init: init.clone(), steps, end, cfg: SimCfg::calm(1) } };
    let end = || End::Shutdown { after: 1, close: false, idle: true, hasty: false };
    let reply = |sync: bool| Reply { kind: "values".into(), sync: json!(sync), ..Default::default() };
    let open = |doc: usize, t: &str, sync: bool| Step::Open { doc, text: t.into(), reply: reply(sync) };
    let format = |doc| Step::Format { doc, tab: false, size: 2 };
    let conf = |f: &dyn Fn(&mut Conf)| { let mut c = Conf::default(); f(&mut c); Node::Conf(c) };
    let mut v = vec![];
    match prop {
        "L02" => for s in ["x<-1\ny<-2\n", "x<-1\r\ny<-2\r\n"] { for e in ["crlf", "lf", "auto", "native"] { v.push(mk(&[("w/air.toml", conf(&|c| c.line_ending = Some(e.into())))], vec![open(0, s, false), format(0)], end())); } },
        "L04" | "L06" => {
            let tab = conf(&|c| c.indent_style = Some("tab".into()));
            for (first, second) in [(Some(tab.clone()), None), (Some(tab.clone()), Some(Node::Broken("[format\n".into()))), (Some(Node::Broken("[format\n".into())), Some(tab.clone())), (None, Some(tab.clone())), (Some(Node::Broken("[format\n".into())), None)] {
                let files: Vec<(&str, Node)> = first.iter().map(|n| ("w/air.toml", n.clone())).collect();
                v.push(mk(&files, vec![open(0, "x<-opts()\n", true), open(1, "x<-opts()\n", true), Step::Wait, format(0), Step::Disk { path: "w/air.toml".into(), node: second }, Step::Watch { paths: vec!["w/air.toml".into()] }, format(0), Step::Wait], end()));
            }
        }
        "L08" => for e in [End::Shutdown { after: 0, close: false, idle: false, hasty: true }, End::Shutdown { after: 0, close: false, idle: true, hasty: false }, End::Shutdown { after: 2, close: true, idle: true, hasty: false }, End::Shutdown { after: 0, close: false, idle: false, hasty: false }, End::ExitOnly { close: false }, End::ExitOnly { close: true }, End::Eof { bytes: 0 }, End::Eof { bytes: 5 }, End::Eof { bytes: 100 }, End::Vanish] {
            if matches!(e, End::Shutdown { hasty: true, .. }) { let mut s = open(0, "x<-1\n", false); if let Step::Open { reply, .. } = &mut s { reply.delay = 9; } v.push(mk(&[], vec![s, format(0)], e.clone())); }
            v.push(mk(&[], vec![open(0, "x<-1\n", false), format(0)], e));
        },
        "L10" => for l in ["error", "warn", "warning", "info", "debug", "trace"] {
            let mut c = mk(&[], vec![open(0, "x<-1\n", false), Step::Wait, Step::Config { reply: Reply { level: json!(l), ..reply(false) } }, Step::Wait, format(0), Step::Wait, Step::Config { reply: Reply { level: json!("info"), ..reply(false) } }, format(0)], end());
            v.push(c.clone());
            c.init.opts = Some(json!({"logLevel": l}));
            v.push(c);
        },
        _ => v.push(mk(&[], vec![open(0, "x<-1\n", false), format(0)], end())),
    }
    // documents with many lines, with long lines, and many of them
    let mut many = String::new();
    while many.len() < 70_000 { many += &format!("# é𝒳 {}\nv<-'é'\n", many.len()); }
    let long = format!("v<-'{}'\nw<-'{}'\n", "é".repeat(40_000), "𝒳x".repeat(20_000));
    for enc in ["utf-16", "utf-8"] { for text in [many.clone(), long.clone(), many.replace('\n', "\r\n")] {
        let n = text.len();
        let change = |a: usize, b: usize, t: &str| Change { a, b, text: t.into(), full: false };
        let edit = |changes: Vec<Change>| Step::Edit { doc: 0, changes };
        let view = Step::View { doc: 0, kind: 0 };
        let mut c = mk(&[], vec![open(0, &text, false), edit(vec![change(n / 3, n / 3, "é"), change(n / 3 + 1, n / 3 + 1, "\n")]), view.clone(), edit(vec![change(n / 5, n / 5, "x")]), view.clone(), edit(vec![change(n / 2, n / 2, "# y"), change(n * 5 / 8, n * 5 / 8 + 2, "z")]), view.clone(), Step::Range { doc: 0, a: n / 3, b: n / 3 + 40, tab: false, size: 4 }, Step::Wait, edit(vec![Change { a: 0, b: 0, text: text.replace('v', "w"), full: true }]), view, format(0), Step::Wait], end());
        c.init.enc = Some(vec![enc.into()]);
        c.cfg.max_steps = 4_000_000;
        v.push(c);
    } }
    let mut c = mk(&[("w/air.toml", conf(&|c| c.indent_width = Some(3)))], vec![], end());
    c.docs = (0..70).map(|i| format!("file:w/f{i}.R")).collect();
    for i in 0..70 { c.steps.push(open(i, &format!("x<-opts()\ny{i}<-{i}\n"), i % 9 == 0)); }
    c.steps.push(Step::Config { reply: reply(true) });
    c.steps.push(Step::Wait);
    for i in (0..70).step_by(3) { c.steps.push(format(i)); c.steps.push(Step::View { doc: 69 - i, kind: 0 }); }
    c.steps.push(Step::Wait);
    c.cfg.max_steps = 4_000_000;
    v.push(c);
    v
}
