//! The reference model: what configuration governs a path, which paths are selected, what their formatted bytes are.
//! Written from the documentation, independent of the crates under test.
use serde::{Deserialize, Serialize};
use simrt::sim::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// A configuration file, as a user writes it.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Conf {
    #[serde(default, skip_serializing_if = "Option::is_none")] pub line_width: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub indent_width: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub indent_style: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub line_ending: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub persistent_line_breaks: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub assignment_style: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub exclude: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub default_exclude: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub skip: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub table: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub default_table: Option<bool>,
}
fn q(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } } o.push('"'); o }
fn ql(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")) }
impl Conf {
    pub fn toml(&self) -> String {
        let mut o = String::from("[format]\n");
        if let Some(v) = self.line_width { o += &format!("line-width = {v}\n"); }
        if let Some(v) = self.indent_width { o += &format!("indent-width = {v}\n"); }
        if let Some(v) = &self.indent_style { o += &format!("indent-style = {}\n", q(v)); }
        if let Some(v) = &self.line_ending { o += &format!("line-ending = {}\n", q(v)); }
        if let Some(v) = self.persistent_line_breaks { o += &format!("persistent-line-breaks = {v}\n"); }
        if let Some(v) = &self.assignment_style { o += &format!("assignment-style = {}\n", q(v)); }
        if let Some(v) = &self.exclude { o += &format!("exclude = {}\n", ql(v)); }
        if let Some(v) = self.default_exclude { o += &format!("default-exclude = {v}\n"); }
        if let Some(v) = &self.skip { o += &format!("skip = {}\n", ql(v)); }
        if let Some(v) = &self.table { o += &format!("table = {}\n", ql(v)); }
        if let Some(v) = self.default_table { o += &format!("default-table = {v}\n"); }
        o
    }
    /// The options in force for a text. `lf` pins the line ending (editors keep a document's own).
    pub fn opts(&self, src: &str) -> toylang::Opts {
        let vocab = |v: Vec<String>| -> Option<Vec<String>> { Some(toylang::VOCAB.iter().filter(|n| v.iter().any(|x| x == *n)).map(|s| s.to_string()).collect()) };
        let mut table = self.table.clone().unwrap_or_default();
        if self.default_table != Some(false) { table.push("tribble".into()); table.push("fcase".into()); }
        toylang::Opts {
            tab: self.indent_style.as_deref() == Some("tab"),
            width: self.indent_width.unwrap_or(2),
            line_width: self.line_width.unwrap_or(80),
            crlf: match self.line_ending.as_deref() { Some("crlf") => true, Some("lf") | Some("native") => false, _ => src.contains("\r\n") },
            persistent: self.persistent_line_breaks != Some(false),
            assign: match self.assignment_style.as_deref() { Some("equal") => toylang::Assign::Equal, Some("preserve") => toylang::Assign::Preserve, _ => toylang::Assign::Arrow },
            skip: vocab(self.skip.clone().unwrap_or_default()),
            table: vocab(table),
        }
    }
    pub fn auto_ending(&self) -> bool { matches!(self.line_ending.as_deref(), None | Some("auto")) }
    pub fn random(r: &mut Rng, excludes: bool) -> Conf {
        let mut c = Conf::default();
        let names = |r: &mut Rng| -> Vec<String> { (0..r.below(6)).map(|_| if r.chance(80) { r.pick(toylang::VOCAB).to_string() } else { r.pick(&["zzz", "a_b", "aaa", "Alpha", "mmm"]).to_string() }).collect() };
        if r.chance(35) { c.line_width = Some(*r.pick(&[1, 40, 60, 79, 80, 81, 100, 120, 319, 320])); }
        if r.chance(40) { c.indent_width = Some(*r.pick(&[1, 2, 3, 4, 8, 23, 24])); }
        if r.chance(40) { c.indent_style = Some(r.pick(&["tab", "space"]).to_string()); }
        if r.chance(30) { c.line_ending = Some(r.pick(&["auto", "lf", "crlf", "native"]).to_string()); }
        if r.chance(25) { c.persistent_line_breaks = Some(r.chance(50)); }
        if r.chance(35) { c.assignment_style = Some(r.pick(&["arrow", "equal", "preserve"]).to_string()); }
        if r.chance(30) { c.skip = Some(names(r)); }
        if r.chance(30) { c.table = Some(names(r)); }
        if r.chance(20) { c.default_table = Some(r.chance(40)); }
        if excludes && r.chance(60) { c.exclude = Some((0..r.below(4)).map(|_| pattern(r)).collect()); }
        if excludes && r.chance(25) { c.default_exclude = Some(r.chance(30)); }
        c
    }
}
pub const BROKEN_TOML: &[&str] = &["[format\n", "[format]\nindent-width = 0\n", "[format]\nindent-width = 25\n", "[format]\nline-width = 321\n", "[format]\nline-width = 0\n", "[format]\nindent-style = \"tabs\"\n", "[format]\nunknown = 1\n", "[format]\nexclude = \"a\"\n", "[fmt]\n", "[format]\nindent-width = 4\nindent-width = 2\n", "indent-width = 4\n", "[format]\nexclude = [\"a[\"]\n", "[format]\nskip = 4\n", "[format]\ntable = [1]\n", "[format]\nline-ending = \"cr\"\n", "[format]\npersistent-line-breaks = \"yes\"\n", "[format]\nassignment-style = \"=\"\n"];
/// The user's home directory and git's exclusions in it.
pub const HOME: &str = ".home-of-nobody";
pub const GLOBAL_IGNORE: &str = ".home-of-nobody/.config/git/ignore";
pub const NAMES: &[&str] = &["a", "b", "R", "src", "tests", "renv", "revdep", "foo", "bar", "data-raw", "x1", "renvx"];
pub const FILES: &[&str] = &["a.R", "b.r", "foo.R", "bar.R", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-x.R", "import-standalone.R", "script.r", "notes.txt", "x.Rmd", "R", "zap.R", "xcpp11.R", "cpp11.r", "foo.bar.R", "dé à.R", "a b.R", "a.,", "a.Rx"];
pub fn pattern(r: &mut Rng) -> String {
    let seg = |r: &mut Rng| -> String { match r.below(9) { 0 => "*".into(), 1 => "*.R".into(), 2 => "?oo.R".into(), 3 => "fo*".into(), 4 | 5 => r.pick(FILES).to_string(), 6 => "[ab].R".into(), _ => r.pick(NAMES).to_string() } };
    let mut p = match r.below(9) { 0 | 1 | 2 => seg(r), 3 => format!("{}/{}", r.pick(NAMES), seg(r)), 4 => format!("**/{}", seg(r)), 5 => format!("{}/**", r.pick(NAMES)), 6 => format!("{}/**/{}", r.pick(NAMES), seg(r)), 7 => format!("/{}", seg(r)), _ => r.pick(NAMES).to_string() };
    if r.chance(25) && !p.ends_with("**") && !p.ends_with('*') { p.push('/'); }
    if r.chance(12) { p.insert(0, '!'); }
    p
}
// ---- patterns
struct Pat { white: bool, dir_only: bool, segs: Vec<String> }
fn compile(line: &str) -> Option<Pat> {
    let mut l = line.trim_end_matches(' ');
    if l.is_empty() || l.starts_with('#') { return None; }
    let white = l.starts_with('!');
    if white { l = &l[1..]; }
    let abs = l.starts_with('/');
    if abs { l = &l[1..]; }
    let dir_only = l.ends_with('/');
    if dir_only { l = &l[..l.len() - 1]; }
    let mut segs: Vec<String> = l.split('/').map(|s| s.to_string()).collect();
    if !abs && segs.len() == 1 { segs.insert(0, "**".into()); }
    if segs.last().unwrap() == "**" { segs.push("*".into()); }
    Some(Pat { white, dir_only, segs })
}
fn wild(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| wild(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && wild(&p[1..], &s[1..]),
        Some('[') => { let e = p.iter().position(|c| *c == ']').unwrap(); !s.is_empty() && p[1..e].contains(&s[0]) && wild(&p[e + 1..], &s[1..]) }
        Some(c) => s.first() == Some(c) && wild(&p[1..], &s[1..]),
    }
}
fn segs_match(p: &[String], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(x) if x == "**" => (0..=s.len()).any(|i| segs_match(&p[1..], &s[i..])),
        Some(x) => !s.is_empty() && wild(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && segs_match(&p[1..], &s[1..]),
    }
}
/// What the last matching pattern says about a path relative to the patterns' root.
pub fn matched(patterns: &[String], rel: &str, is_dir: bool) -> Option<bool> {
    let parts: Vec<&str> = if rel.is_empty() { vec![] } else { rel.split('/').collect() };
    patterns.iter().rev().find_map(|l| { let p = compile(l)?; if p.dir_only && !is_dir { return None; } if segs_match(&p.segs, &parts) || (parts.is_empty() && segs_match(&p.segs, &[""])) { Some(!p.white) } else { None } })
}
pub fn parent(p: &str) -> Option<&str> { if p.is_empty() { None } else { Some(p.rfind('/').map_or("", |i| &p[..i])) } }
pub fn base(p: &str) -> &str { p.rsplit('/').next().unwrap() }
pub fn join(d: &str, n: &str) -> String { if d.is_empty() { n.into() } else { format!("{d}/{n}") } }
pub fn under(p: &str, d: &str) -> bool { d.is_empty() || p == d || (p.starts_with(d) && p.as_bytes()[d.len()] == b'/') }
fn rel_to<'a>(p: &'a str, d: &str) -> &'a str { if d.is_empty() { p } else if p == d { "" } else { &p[d.len() + 1..] } }
/// Every path of a directory chain from the path itself up to the root.
pub fn up(p: &str) -> impl Iterator<Item = &str> { std::iter::successors(Some(p), |x| parent(x)) }
fn default_excluded(p: &str, is_dir: bool) -> bool {
    let b = base(p);
    (is_dir && [".git", "renv", "revdep"].contains(&b)) || ["cpp11.R", "RcppExports.R", "extendr-wrappers.R"].contains(&b) || (b.starts_with("import-standalone-") && b.ends_with(".R"))
}
/// Is a path covered by the exclusions of a configuration rooted at `root`? `parents`: look at its parent directories too.
pub fn excluded(conf: &Conf, root: &str, p: &str, is_dir: bool, parents: bool) -> bool {
    if let Some(pats) = &conf.exclude {
        let mut cur = Some(p);
        while let Some(c) = cur {
            if !under(c, root) { break; }
            match matched(pats, rel_to(c, root), is_dir || c != p) { Some(true) => return true, Some(false) => break, None => {} }
            if !parents || c == root { break; }
            cur = parent(c);
        }
    }
    if conf.default_exclude != Some(false) && (default_excluded(p, is_dir) || (parents && up(p).skip(1).any(|c| default_excluded(c, true)))) { return true; }
    false
}
pub fn is_r(p: &str) -> bool { p.ends_with(".R") || p.ends_with(".r") }

// ---- trees
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node { Text(String), Bytes(Vec<u8>), Conf(Conf), Broken(String), Dir, Link(String) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Tree(pub BTreeMap<String, Node>);
/// The configuration found in a directory.
pub enum Found<'a> { None, Conf(&'a Conf), Broken }
impl Tree {
    pub fn bytes(&self, p: &str) -> Option<Vec<u8>> { match self.0.get(p)? { Node::Text(s) => Some(s.clone().into_bytes()), Node::Bytes(b) => Some(b.clone()), Node::Conf(c) => Some(c.toml().into_bytes()), Node::Broken(s) => Some(s.clone().into_bytes()), _ => None } }
    pub fn is_file(&self, p: &str) -> bool { matches!(self.0.get(p), Some(Node::Text(_) | Node::Bytes(_) | Node::Conf(_) | Node::Broken(_))) }
    pub fn is_dir(&self, p: &str) -> bool { p.is_empty() || matches!(self.0.get(p), Some(Node::Dir)) }
    pub fn children<'a>(&'a self, d: &'a str) -> impl Iterator<Item = &'a String> + 'a { self.0.keys().filter(move |k| parent(k) == Some(d)) }
    pub fn add(&mut self, p: &str, n: Node) { let mut c = parent(p); while let Some(d) = c { if d.is_empty() { break; } if self.0.contains_key(d) { if !self.is_dir(d) { return; } } c = parent(d); } let mut c = parent(p); while let Some(d) = c { if d.is_empty() { break; } self.0.insert(d.into(), Node::Dir); c = parent(d); } if !(self.is_dir(p) && self.0.contains_key(p) && !matches!(n, Node::Dir)) { self.0.insert(p.into(), n); } }
    pub fn remove(&mut self, p: &str) { let pre = format!("{p}/"); self.0.retain(|k, _| k != p && !k.starts_with(&pre)); }
    pub fn conf_in(&self, d: &str) -> Found<'_> {
        for n in ["air.toml", ".air.toml"] {
            match self.0.get(&join(d, n)) { Some(Node::Conf(c)) => return Found::Conf(c), Some(Node::Broken(_) | Node::Bytes(_) | Node::Text(_)) => return Found::Broken, _ => {} }
        }
        Found::None
    }
    /// The closest configuration at or above a directory: (its directory, its content or None when it is unusable).
    pub fn closest<'a>(&'a self, p: &'a str) -> Option<(&'a str, Option<&'a Conf>)> { up(p).find_map(|d| match self.conf_in(d) { Found::None => None, Found::Conf(c) => Some((d, Some(c))), Found::Broken => Some((d, None)) }) }
    /// git's own exclusions, which only count inside a repository.
    pub fn git(&self, p: &str, is_dir: bool) -> Option<bool> { self.git_from(p, is_dir, None) }
    /// With a root: what the `ignore` crate makes of it when it walks that directory. Ignore files above the root are
    /// matched against the root joined with the last component of the path (known finding gitignore-parents).
    fn git_from(&self, p: &str, is_dir: bool, root: Option<&str>) -> Option<bool> {
        let seen = |d: &str| -> String { match root { Some(r) if d != r && under(r, d) => join(r, base(p)), _ => p.to_string() } };
        let dirs: Vec<&str> = up(p).skip(1).collect();
        let has = |d: &str| self.0.contains_key(&join(d, ".git"));
        if !dirs.iter().any(|d| has(d)) { return None; }
        let lines = |f: &str| -> Option<Vec<String>> { self.bytes(f).map(|b| String::from_utf8_lossy(&b).lines().map(|s| s.to_string()).collect()) };
        let mut exclude = None;
        for d in dirs {
            if let Some(l) = lines(&join(d, ".gitignore")) { if let Some(x) = matched(&l, rel_to(&seen(d), d), is_dir) { return Some(x); } }
            if has(d) { if let Some(l) = lines(&join(d, ".git/info/exclude")) { exclude = matched(&l, rel_to(&seen(d), d), is_dir); } break; }
        }
        // the user's own exclusions (names only)
        exclude.or_else(|| matched(&lines(GLOBAL_IGNORE)?, p, is_dir))
    }
    /// The file a path stands for: itself, or what a link points to.
    pub fn real(&self, p: &str) -> String {
        let Some(Node::Link(t)) = self.0.get(p) else { return p.into() };
        let mut segs: Vec<&str> = parent(p).unwrap_or("").split('/').filter(|s| !s.is_empty()).collect();
        for s in t.split('/') { match s { "" | "." => {} ".." => { segs.pop(); } s => segs.push(s) } }
        segs.join("/")
    }
    /// Writes the tree below a directory of the real file system.
    pub fn write(&self, root: &std::path::Path) {
        for (p, n) in &self.0 {
            let f = root.join(p);
            match n { Node::Dir => std::fs::create_dir_all(&f).unwrap(), Node::Link(t) => std::os::unix::fs::symlink(t, &f).unwrap(), _ => std::fs::write(&f, self.bytes(p).unwrap()).unwrap() }
        }
    }
}
/// What is on disk: every path below a directory with its bytes (None: a directory; links show their target).
pub fn snapshot(root: &std::path::Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(d: &std::path::Path, rel: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let r = join(rel, &e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() { out.insert(r.clone(), None); go(&e.path(), &r, out); }
            else if t.is_symlink() { out.insert(r, Some(format!("-> {}", std::fs::read_link(e.path()).unwrap().display()).into_bytes())); }
            else { out.insert(r, Some(std::fs::read(e.path()).unwrap())); }
        }
    }
    let mut m = BTreeMap::new();
    go(root, "", &mut m);
    m
}
pub fn tree_snapshot(t: &Tree) -> BTreeMap<String, Option<Vec<u8>>> { t.0.iter().map(|(p, n)| (p.clone(), match n { Node::Dir => None, Node::Link(l) => Some(format!("-> {l}").into_bytes()), _ => t.bytes(p) })).collect() }
// ---- one `air format` over paths
#[derive(Clone, Debug, PartialEq)]
pub enum Fate { Same, Change(Vec<u8>), /** cannot be formatted: not text, syntax error, formatter error */ Bad }
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// A governing configuration is unusable: nothing may happen.
    pub fatal: bool,
    pub files: BTreeMap<String, Fate>,
    /// Arguments that do not exist.
    pub missing: BTreeSet<String>,
    /// Directories that are listed.
    pub listed: BTreeSet<String>,
    pub governed: BTreeMap<String, Option<String>>,
}
pub fn fate(conf: &Conf, bytes: &[u8]) -> Fate {
    let Ok(s) = std::str::from_utf8(bytes) else { return Fate::Bad };
    match toylang::format(s, &conf.opts(s), 0) { Ok(Ok(f)) => if f == s { Fate::Same } else { Fate::Change(f.into_bytes()) }, _ => Fate::Bad }
}
/// Resolves an argument like the shell user means it; None when it leaves the tree.
pub fn resolve(cwd: &str, arg: &str, root: &str) -> Option<String> {
    let (mut segs, rest): (Vec<&str>, &str) = if let Some(r) = arg.strip_prefix(root) { (vec![], r) } else if arg.starts_with('/') { return None } else { (cwd.split('/').filter(|s| !s.is_empty()).collect(), arg) };
    for s in rest.split('/') { match s { "" | "." => {} ".." => { segs.pop()?; } s => segs.push(s) } }
    Some(segs.join("/"))
}
pub fn plan(t: &Tree, args: &[String], force: bool) -> Plan { plan_as(t, args, force, false) }
/// The plan with ignore files above a walked directory matched like the `ignore` crate matches them.
pub fn plan_walked(t: &Tree, args: &[String], force: bool) -> Plan { plan_as(t, args, force, true) }
fn plan_as(t: &Tree, args: &[String], force: bool, walked: bool) -> Plan {
    let mut pl = Plan::default();
    let mut confs: BTreeMap<&str, &Conf> = BTreeMap::new();
    for a in args { match t.closest(a) { Some((d, Some(c))) => { confs.insert(d, c); } Some((_, None)) => { pl.fatal = true; } None => {} } }
    if pl.fatal { return pl; }
    let none = Conf::default();
    let governs = |p: &str| -> (Option<String>, &Conf) { confs.iter().filter(|(d, _)| under(p, d)).max_by_key(|(d, _)| d.len()).map_or((None, &none), |(d, c)| (Some(d.to_string()), *c)) };
    for a in args {
        let is_dir = t.is_dir(a);
        if !is_dir && (!t.0.contains_key(a) || !t.0.contains_key(&t.real(a))) { pl.missing.insert(a.clone()); continue; }
        let (d, c) = governs(a);
        if !force && excluded(c, d.as_deref().unwrap_or(""), a, is_dir, true) { continue; }
        let mut todo = vec![(a.clone(), is_dir)];
        while let Some((p, dir)) = todo.pop() {
            let (d, c) = governs(&p);
            if dir {
                pl.listed.insert(p.clone());
                for k in t.children(&p) {
                    let kd = matches!(t.0[k], Node::Dir);
                    match t.git_from(k, kd, walked.then_some(a.as_str())) { Some(true) => continue, Some(false) => {} None => if base(k).starts_with('.') { continue } }
                    let (d, c) = governs(k);
                    if !force && excluded(c, d.as_deref().unwrap_or(""), k, kd, false) { continue; }
                    todo.push((k.clone(), kd));
                }
            } else if force || is_r(&p) {
                let f = t.bytes(&t.real(&p)).map_or(Fate::Bad, |b| fate(c, &b));
                pl.files.insert(p.clone(), f);
                pl.governed.insert(p, d);
            }
        }
    }
    pl
}
// ---- generators
pub fn source(r: &mut Rng, kind: u32) -> String {
    let pieces = ["a<-1", "x = f( a,b )", "# c", "\n", "\n", "\n\n\n", " ", "\t", "{\n", "}\n", "f(", ")", ",", "+", "opts()", "opts( )\n", "\"s\n t\"", "y", " # tc\n", "é", "𝒳 <- 2\n", "if (a) {\n  b\n}\n", "opts(\"z\")\n", "g <- function(x) {\nx\n}\n"];
    if kind == 1 { return "f <- function(a) {\n  a\n}\n".into(); }
    for _ in 0..30 {
        let mut s = String::new();
        for _ in 0..r.below(10) { s += *r.pick(&pieces); }
        if toylang::parse(&s).is_ok() { return s; }
    }
    "a<-opts()\n".into()
}
/// A text that can be formatted; it shows the options in force.
pub fn good_source(r: &mut Rng) -> String {
    let mut s = match r.below(12) { 0 => String::new(), 1 => "\n\n".into(), 2 => "# only a comment".into(), 3 => " \t".into(), 4 => source(r, 1), _ => source(r, 0) };
    if r.chance(60) { if !s.is_empty() && !s.ends_with('\n') { s.push('\n'); } s += "{\nopts()\nz = 1\n}\n"; }
    if r.chance(8) { let line = format!("# {}\nv<-'{}'\n", "x".repeat(r.below(200)), "é".repeat(r.below(100))); while s.len() < 9000 { s += &line; } }
    if toylang::parse(&s).is_err() { s = "opts( )\n".into(); }
    if r.chance(25) { s = s.replace('\n', "\r\n"); }
    s
}
pub fn bad_source(r: &mut Rng) -> Node {
    match r.below(4) { 0 => Node::Text("f(\n".into()), 1 => Node::Text("x <- }\n".into()), 2 => Node::Bytes(vec![b'a', b'\n', 0xff, 0xfe, b'\n']), _ => Node::Text("y<-FMTERR\n".into()) }
}
