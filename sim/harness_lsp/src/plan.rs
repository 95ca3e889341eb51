//! What the editor sends and what it may expect back: the reference model of the language server.
use crate::actor::{Act, PROBE, frame, probe};
use crate::case::*;
use model::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use toylang::{Block, Expr, Item, Opts, Program, Tr};

#[derive(Clone, Debug)]
pub enum Want {
    Any, Null, Error(Option<i64>), Exactly(String), ParseError, NotParseError,
    /// edits that turn the client's text into this text (with Unix line endings); none: no edits
    Text { old: String, new: Option<String>, wide: bool, crlf: bool, why: &'static str },
    /// a range no logical line ends in: any edits that do not change what the text formats to
    Loose { old: String, opts: Opts, wide: bool, crlf: bool },
    Init { utf8: bool },
}
#[derive(Clone, Debug)]
pub struct Expect { pub name: String, pub want: Want, pub cancelled: bool, pub must: bool, pub seg: usize, pub doc: Option<usize> }
pub type Settings = BTreeMap<String, (String, u64, u64)>;
#[derive(Clone, Debug)]
pub struct Sync { pub seg: usize, pub optional: bool, pub files: Settings }
#[derive(Clone, Debug)]
pub struct Pull { pub seg: usize, pub docs: BTreeSet<String>, pub optional: bool }
#[derive(Clone, Debug)]
pub struct Incoming { pub seg: usize, pub name: &'static str, pub optional: bool }
#[derive(Default)]
pub struct Compiled {
    pub acts: Vec<Act>, pub expects: BTreeMap<String, Expect>, pub null_errors: (usize, usize), pub syncs: Vec<Sync>, pub pulls: Vec<Pull>, pub incoming: Vec<Incoming>,
    /// possible log levels per segment, and whether dependency levels were set
    pub levels: BTreeMap<usize, BTreeSet<u8>>, pub deps: BTreeSet<usize>, pub dep_levels: BTreeMap<usize, BTreeSet<u8>>, pub segs: usize, pub regs: usize, pub finished: bool, pub orderly: bool,
    /// final verdicts: (document path, excluded, governing configuration) for documents as files
    pub verdicts: BTreeMap<String, (bool, Option<(String, Conf)>)>, pub tree: Tree, pub interesting: BTreeMap<&'static str, u64>,
}
#[derive(Clone)]
struct Doc { text: String, crlf: bool, version: i64 }
pub struct World<'a> { c: &'a Case, root: PathBuf, out: Compiled, tree: Tree, bad: String, docs: BTreeMap<usize, Doc>, folders: Vec<(String, Option<(String, Conf)>)>, sync: bool, level: Option<u8>, last_level: (Value, Value), seg: usize, id: i64, sends: usize, recent: Vec<String>, utf8: bool, shut: bool }
pub fn level_of(v: &Value) -> Option<Option<u8>> { match v { Value::Null => Some(None), Value::String(s) => match s.as_str() { "error" => Some(Some(0)), "warn" | "warning" => Some(Some(1)), "info" => Some(Some(2)), "debug" => Some(Some(3)), "trace" => Some(Some(4)), _ => None }, _ => None } }
pub fn lf(s: &str) -> String { s.replace("\r\n", "\n") }
/// Byte offsets a position can name.
fn safe(s: &str) -> Vec<usize> { let b = s.as_bytes(); (0..=s.len()).filter(|i| s.is_char_boundary(*i) && !(*i > 0 && *i < b.len() && b[*i - 1] == b'\r' && b[*i] == b'\n')).collect() }
pub fn position(s: &str, at: usize, utf8: bool) -> Value {
    let line = s[..at].matches('\n').count();
    let st = s[..at].rfind('\n').map_or(0, |i| i + 1);
    let ch = if utf8 { at - st } else { s[st..at].encode_utf16().count() };
    json!({"line": line, "character": ch})
}
/// The byte offset of a position; None when there is no such place.
pub fn offset(s: &str, v: &Value, utf8: bool) -> Option<usize> {
    let (line, ch) = (v["line"].as_u64()? as usize, v["character"].as_u64()? as usize);
    let st = if line == 0 { 0 } else { s.match_indices('\n').nth(line - 1)?.0 + 1 };
    let l = &s[st..];
    let l = &l[..l.find('\n').unwrap_or(l.len())];
    let l = l.strip_suffix('\r').unwrap_or(l);
    if utf8 { if ch <= l.len() && l.is_char_boundary(ch) { Some(st + ch) } else { None } }
    else { let mut n = 0; for (i, c) in l.char_indices() { if n == ch { return Some(st + i); } n += c.len_utf16(); if n > ch { return None; } } if n == ch { Some(st + l.len()) } else { None } }
}
/// `format.indent-width` and the request's tabSize have the same bounds.
fn width(n: u32) -> u32 { if (1..=24).contains(&n) { n } else { 2 } }

// ---- logical lines
struct Lines<'a> { src: &'a str, p: &'a Program }
impl Lines<'_> {
    fn first(&self, e: &Expr) -> usize { match &e.items[0] { Item::Tok(t) => *t, Item::Block(b) => b.open } }
    fn last(&self, e: &Expr) -> usize { match e.items.last().unwrap() { Item::Tok(t) => *t, Item::Block(b) => b.close } }
    fn full(&self, a: usize, b: usize) -> (usize, usize) { let t = &self.p.lexed.toks; (t[a].leading.first().map_or(t[a].start, |x| x.1), t[b].trailing.last().map_or(t[b].end, |x| x.2)) }
    fn inside(&self, a: usize, b: usize, at: usize, end: bool) -> bool { let t = &self.p.lexed.toks; if end { t[a].start <= at && at <= t[b].end } else { let (s, e) = self.full(a, b); s <= at && at < e } }
    /// The lists around a position, outermost first.
    fn chain<'b>(&self, list: &'b [Expr], at: usize, end: bool, out: &mut Vec<&'b [Expr]>) {
        for e in list { if self.inside(self.first(e), self.last(e), at, end) { out.push(list); for b in blocks(e) { if self.inside(b.open, b.close, at, end) { self.chain(&b.exprs, at, end, out); } } } }
    }
}
fn blocks(e: &Expr) -> impl Iterator<Item = &Block> { e.items.iter().filter_map(|i| if let Item::Block(b) = i { Some(b) } else { None }) }
/// What range formatting replaces (start, end) and its new text; None: the range ends in no logical line.
fn range(src: &str, a: usize, b: usize, o: &Opts) -> Option<Result<(usize, usize, String), ()>> {
    let p = toylang::parse(src).ok()?;
    let l = Lines { src, p: &p };
    let (mut s, mut e) = (vec![], vec![]);
    l.chain(&p.exprs, a, false, &mut s);
    l.chain(&p.exprs, b, true, &mut e);
    let list = s.into_iter().zip(e).take_while(|(x, y)| std::ptr::eq(*x, *y)).last()?.0;
    let sel: Vec<&Expr> = list.iter().skip_while(|x| !l.inside(l.first(x), l.last(x), a, false)).take_while(|x| p.lexed.toks[l.first(x)].start <= b).collect();
    let (f, z) = (l.first(sel.first()?), l.last(sel.last()?));
    let t = &p.lexed.toks;
    let (fs, fe) = l.full(f, z);
    let start = t[f].leading.iter().find(|x| x.0 == Tr::Comment).map_or(t[f].start, |x| x.1);
    let end = t[z].trailing.iter().rev().find(|x| x.0 == Tr::Comment).map_or(t[z].end, |x| x.2);
    // the indentation of the first line stays
    let mut ws = 0;
    let mut spaces = 0;
    for x in &t[f].leading { match x.0 { Tr::Ws => { let w = &l.src[x.1..x.2]; ws += w.matches('\t').count(); spaces += w.chars().filter(|c| *c != '\t').count(); } _ => { ws = 0; spaces = 0; } } }
    ws += spaces / o.width as usize;
    Some(match toylang::format(&src[fs..fe], o, ws) { Ok(Ok(mut n)) => { n.pop(); Ok((start, end, n)) } _ => Err(()) })
}
impl<'a> World<'a> {
    fn uri(&self, d: usize) -> String { uri(&self.root, &self.c.docs[d]) }
    fn closest(&self, dir: &str) -> Option<(String, Conf)> {
        for d in up(dir) {
            for n in ["air.toml", ".air.toml"] {
                let f = join(d, n);
                if !self.tree.is_file(&f) { continue; }
                return match self.tree.0.get(&f) { Some(Node::Conf(c)) if self.bad != f => Some((d.to_string(), c.clone())), _ => None };
            }
        }
        None
    }
    fn folder_path(f: &str) -> Option<String> { if f.contains(':') { None } else { Some(f.trim_end_matches('/').to_string()) } }
    fn open_folder(&mut self, f: &str) { let Some(p) = Self::folder_path(f) else { return }; let conf = self.closest(&p); self.folders.retain(|x| x.0 != p); self.folders.push((p, conf)); }
    /// The configuration that governs a document.
    fn governs(&self, d: usize) -> Option<(String, Conf)> {
        let doc = &self.c.docs[d];
        if let Some(f) = doc.strip_prefix("file:") { return self.folders.iter().filter(|(p, _)| under(f, p)).max_by_key(|(p, _)| p.len()).and_then(|x| x.1.clone()); }
        if doc.starts_with("untitled:") && self.folders.len() == 1 { return self.folders[0].1.clone(); }
        None
    }
    fn excluded(&self, d: usize) -> bool {
        let doc = &self.c.docs[d];
        let g = self.governs(d);
        if let Some(f) = doc.strip_prefix("file:") { let (dir, c) = g.unwrap_or_default(); return excluded(&c, &dir, f, false, true); }
        if let Some((_, p)) = doc.split_once(":/") { return excluded(&Conf::default(), "", p.split(['?', '#']).next().unwrap(), false, true); }
        false
    }
    fn settings(&self, docs: &[usize]) -> Settings {
        docs.iter().filter_map(|d| self.governs(*d).map(|(_, c)| { let o = c.opts(""); (self.uri(*d), (if o.tab { "tab" } else { "space" }.to_string(), o.width as u64, o.line_width as u64)) })).collect()
    }
    fn opts(&self, d: usize, tab: bool, size: u32) -> Opts { match self.governs(d) { Some((_, c)) => Opts { crlf: false, ..c.opts("") }, None => Opts { tab, width: width(size), ..Conf::default().opts("") } } }
    fn hit(&mut self, k: &'static str) { *self.out.interesting.entry(k).or_default() += 1; }
    fn note(&mut self, method: &str) { *self.out.interesting.entry(match method { "x" => "x", _ => "messages" }).or_default() += 1; }
    fn send(&mut self, v: Value) { if self.sends >= 40 { self.barrier(); } self.sends += 1; self.note("m"); self.out.acts.push(Act::Send(v)); }
    fn notify(&mut self, m: &str, p: Value) { self.send(json!({"jsonrpc": "2.0", "method": m, "params": p})); }
    fn log(&mut self, name: &'static str, optional: bool) { let seg = self.seg; self.out.incoming.push(Incoming { seg, name, optional }); }
    fn request(&mut self, m: &str, p: Value, name: &str, want: Want, doc: Option<usize>) {
        self.id += 1;
        let id = if self.id % 5 == 3 { json!(format!("r{}", self.id)) } else { json!(self.id) };
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": m});
        if !p.is_null() { v["params"] = p; }
        let k = id.to_string();
        self.send(v);
        let seg = self.seg;
        self.out.expects.insert(k.clone(), Expect { name: name.into(), want, cancelled: false, must: true, seg, doc });
        self.recent.push(k);
    }
    fn level_now(&mut self) { let l = self.effective(); let s = self.seg; self.out.levels.entry(s).or_default().insert(l); let d = dep_level(&match &self.c.init.env_dep { Some(d) => json!(d), None => self.last_level.1.clone() }); self.out.dep_levels.entry(s).or_default().insert(d); }
    fn effective(&self) -> u8 { if let Some(e) = &self.c.init.env_level { if let Some(Some(l)) = level_of(&json!(e)) { return l; } } self.level.unwrap_or(2) }
    fn barrier(&mut self) {
        let k = self.out.segs;
        self.out.acts.push(Act::Barrier);
        let seg = self.seg;
        self.out.expects.insert((PROBE + k as i64).to_string(), Expect { name: "probe".into(), want: Want::Error(None), cancelled: false, must: true, seg, doc: None });
        let _ = probe(k);
        self.log("AirViewFile", false);
        self.out.segs += 1;
        self.seg += 1;
        self.sends = 0;
        self.recent.clear();
        self.level_now();
        if self.out.deps.contains(&(self.seg - 1)) { let s = self.seg; if !self.last_level.1.is_null() { self.out.deps.insert(s); } }
    }
    fn open_docs(&self) -> Vec<usize> { self.docs.keys().copied().collect() }
    /// The server asks for the settings of these documents.
    fn pull(&mut self, docs: Vec<usize>, reply: &Reply, opened: bool) {
        let seg = self.seg;
        if !self.c.init.config {
            if opened { self.own_sync(false); }
            return;
        }
        self.out.acts.push(Act::Script(reply.clone()));
        let set = docs.iter().map(|d| self.uri(*d)).collect();
        self.out.pulls.push(Pull { seg, docs: set, optional: false });
        let docs_ok = docs.is_empty() || reply.kind != "bad_doc";
        let ok = match reply.kind.as_str() { "values" => true, "bad_doc" => docs_ok, _ => false } && level_of(&reply.level).is_some();
        if !ok {
            self.hit("failed settings pulls");
            // whether an opened document's own settings are still sent is left open
            if opened { if self.sync { self.own_sync(true); } }
            return;
        }
        self.hit("settings pulls");
        let lv = (reply.level.clone(), reply.dep.clone());
        if lv != self.last_level {
            self.last_level = lv;
            self.level = level_of(&reply.level).unwrap();
            self.level_now();
        }
        if !reply.dep.is_null() { self.out.deps.insert(seg); }
        let on = reply.sync == json!(true);
        if on && !self.sync { self.hit("synchronisation switched on"); let s = self.settings(&self.open_docs()); self.out.syncs.push(Sync { seg, optional: false, files: s }); }
        self.sync = on;
        if opened { self.own_sync(false); }
    }
    fn own_sync(&mut self, optional: bool) {
        if !self.sync { return; }
        let s = self.settings(&self.open_docs());
        let seg = self.seg;
        self.out.syncs.push(Sync { seg, optional: optional || s.is_empty(), files: s });
    }
    fn step(&mut self, s: &Step) {
        match s {
            Step::Open { doc, text, reply } => {
                if self.docs.contains_key(doc) { return; }
                let uri = self.uri(*doc);
                self.docs.insert(*doc, Doc { text: text.clone(), crlf: text.contains("\r\n"), version: 1 });
                self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "r", "version": 1, "text": text}}));
                self.log("DidOpenTextDocument", false);
                self.pull(vec![*doc], reply, true);
            }
            Step::Edit { doc, changes } => {
                let Some(mut d) = self.docs.get(doc).cloned() else { return };
                let mut list = vec![];
                for c in changes {
                    if c.full { d.text = c.text.clone(); list.push(json!({"text": c.text})); continue; }
                    let pos = safe(&d.text);
                    let (mut a, mut b) = (pos[c.a % pos.len()], pos[c.b % pos.len()]);
                    if a > b { std::mem::swap(&mut a, &mut b); }
                    list.push(json!({"range": {"start": position(&d.text, a, self.utf8), "end": position(&d.text, b, self.utf8)}, "text": c.text}));
                    let n = format!("{}{}{}", &d.text[..a], c.text, &d.text[b..]);
                    // keep texts free of carriage returns that end no line
                    if lf(&n).contains('\r') { list.pop(); continue; }
                    d.text = n;
                }
                d.version += 1 + (changes.len() as i64 % 3);
                let (uri, version) = (self.uri(*doc), d.version);
                self.docs.insert(*doc, d);
                self.hit("edits");
                self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": list}));
                self.log("DidChangeTextDocument", false);
            }
            Step::Close { doc } => { if self.docs.remove(doc).is_some() { let uri = self.uri(*doc); self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}})); self.log("DidCloseTextDocument", false); } }
            Step::Save { doc } => { if self.docs.contains_key(doc) { let uri = self.uri(*doc); self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}})); self.log("DidSaveTextDocument", false); } }
            Step::Format { doc, tab, size } => {
                let want = self.format_want(*doc, *tab, *size);
                let p = json!({"textDocument": {"uri": self.uri(*doc)}, "options": {"tabSize": size, "insertSpaces": !tab}});
                self.request("textDocument/formatting", p, "Format", want, Some(*doc));
                self.log("DocumentFormatting", false);
                if self.docs.contains_key(doc) { if let Some(f) = self.c.docs[*doc].strip_prefix("file:") { let v = (self.excluded(*doc), self.governs(*doc)); self.out.verdicts.insert(f.to_string(), v); } }
            }
            Step::Range { doc, a, b, tab, size } => {
                let mut r = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}});
                let want = match self.docs.get(doc) {
                    None => Want::Error(None),
                    Some(d) => {
                        let pos = safe(&d.text);
                        let (mut x, mut y) = (pos[a % pos.len()], pos[b % pos.len()]);
                        if x > y { std::mem::swap(&mut x, &mut y); }
                        r = json!({"start": position(&d.text, x, self.utf8), "end": position(&d.text, y, self.utf8)});
                        let t = lf(&d.text);
                        let (lx, ly) = (lf(&d.text[..x]).len(), lf(&d.text[..y]).len());
                        let base = |new, why| Want::Text { old: d.text.clone(), new, wide: !self.utf8, crlf: d.crlf, why };
                        if self.excluded(*doc) { base(None, "excluded") } else if toylang::parse(&t).is_err() { base(None, "syntax error") } else {
                            let o = self.opts(*doc, *tab, *size);
                            match range(&t, lx, ly, &o) { None => Want::Loose { old: d.text.clone(), opts: o, wide: !self.utf8, crlf: d.crlf }, Some(Err(())) => Want::Error(None), Some(Ok((s, e, n))) => base(Some(format!("{}{n}{}", &t[..s], &t[e..])), "range") }
                        }
                    }
                };
                self.hit(match &want { Want::Loose { .. } => "ranges that touch nothing", Want::Text { new: Some(_), .. } => "ranges formatted", _ => "ranges refused" });
                let p = json!({"textDocument": {"uri": self.uri(*doc)}, "range": r, "options": {"tabSize": size, "insertSpaces": !tab}});
                self.request("textDocument/rangeFormatting", p, "Range", want, Some(*doc));
                self.log("DocumentRangeFormatting", false);
            }
            Step::View { doc, kind } => {
                let k = ["TreeSitter", "SyntaxTree", "FormatTree"][kind % 3];
                let want = match self.docs.get(doc) { None => Want::Error(None), Some(d) => { let t = lf(&d.text); if k == "TreeSitter" { if t.contains("TSERR") { Want::ParseError } else { Want::Exactly(dump(&t)) } } else if toylang::parse(&t).is_err() { Want::ParseError } else if k == "FormatTree" && matches!(toylang::format(&t, &Conf::default().opts(""), 0), Ok(Err(()))) { Want::Any } else { Want::NotParseError } } };
                let p = json!({"textDocument": {"uri": self.uri(*doc)}, "position": {"line": 0, "character": 0}, "kind": k});
                self.request("air/viewFile", p, "View", want, Some(*doc));
                self.log("AirViewFile", false);
            }
            Step::Config { reply } => {
                self.notify("workspace/didChangeConfiguration", json!({"settings": {}}));
                self.log("DidChangeConfiguration", false);
                let docs = self.open_docs();
                self.pull(docs, reply, false);
            }
            Step::Disk { path, node } => {
                let dir = parent(path).unwrap();
                if !self.tree.is_dir(dir) || (node.is_none() && !self.tree.is_file(path)) || self.tree.is_dir(path) { return; }
                self.barrier();
                match node { Some(n) => self.tree.add(path, n.clone()), None => self.tree.remove(path) }
                self.hit("configuration files written or removed");
                let b = self.tree.bytes(path);
                self.out.acts.push(Act::Fs(vec![(self.root.join(path), b)]));
            }
            Step::BadPath { path, errno } => { if *path == self.bad { return; } self.barrier(); self.bad = path.clone(); self.out.acts.push(Act::Bad(path.clone(), if path.is_empty() { 0 } else { *errno })); }
            Step::Watch { paths } => {
                let ch: Vec<Value> = paths.iter().enumerate().map(|(i, p)| json!({"uri": file_uri(&self.root, p), "type": 1 + (i + p.len()) % 3})).collect();
                self.notify("workspace/didChangeWatchedFiles", json!({"changes": ch}));
                self.log("DidChangeWatchedFiles", false);
                let mut any = false;
                for p in paths {
                    if !["air.toml", ".air.toml"].contains(&base(p)) { continue; }
                    for i in 0..self.folders.len() { if under(p, &self.folders[i].0) { any = true; let d = self.folders[i].0.clone(); self.folders[i].1 = self.closest(&d); } }
                }
                if any { self.hit("configuration reloads"); if self.sync { let s = self.settings(&self.open_docs()); let seg = self.seg; self.out.syncs.push(Sync { seg, optional: false, files: s }); self.hit("synchronisations after a reload"); } }
            }
            Step::Folders { added, removed } => {
                let f = |x: &String| json!({"uri": if x.contains(':') { x.clone() } else { file_uri(&self.root, x) + if x.ends_with('/') { "/" } else { "" } }, "name": "f"});
                let (a, r): (Vec<Value>, Vec<Value>) = (added.iter().map(f).collect(), removed.iter().map(f).collect());
                self.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": a, "removed": r}}));
                self.log("DidChangeWorkspaceFolders", false);
                for x in added { self.open_folder(x); }
                for x in removed { if let Some(p) = Self::folder_path(x) { self.folders.retain(|y| y.0 != p); } }
            }
            Step::Cancel { back } => {
                let n = self.recent.len();
                let Some(k) = n.checked_sub(1 + back).map(|i| self.recent[i].clone()) else { return };
                let id: Value = serde_json::from_str(&k).unwrap();
                self.notify("$/cancelRequest", json!({"id": id}));
                self.out.expects.get_mut(&k).unwrap().cancelled = true;
                self.hit("cancellations");
            }
            Step::Junk { kind } => self.junk(*kind),
            Step::Wait => self.barrier(),
            Step::Pause { ms } => self.out.acts.push(Act::Pause(*ms)),
            Step::Pump => self.out.acts.push(Act::Pump),
        }
    }
    fn format_want(&self, doc: usize, tab: bool, size: u32) -> Want {
        let Some(d) = self.docs.get(&doc) else { return Want::Error(None) };
        let base = |new, why| Want::Text { old: d.text.clone(), new, wide: !self.utf8, crlf: d.crlf, why };
        if self.excluded(doc) { return base(None, "excluded"); }
        let t = lf(&d.text);
        match toylang::format(&t, &self.opts(doc, tab, size), 0) {
            Err(_) => base(None, "syntax error"),
            Ok(Err(())) => Want::Error(None),
            Ok(Ok(f)) if f == t => base(None, "formatted already"),
            Ok(Ok(mut f)) => { if self.c.docs[doc].starts_with("vscode-notebook-cell:") && f.ends_with('\n') { f.pop(); } base(Some(f), "document") }
        }
    }
    fn junk(&mut self, kind: usize) {
        self.hit("unusual messages");
        match kind {
            0 => self.request("textDocument/hover", json!({"textDocument": {"uri": "x:y"}, "position": {"line": 0, "character": 0}}), "unknown method", Want::Error(Some(-32601)), None),
            1 => self.notify("$/setTrace", json!({"value": "off"})),
            2 => self.notify("custom/notification", json!([1])),
            3 => self.request("textDocument/formatting", json!({"options": {"tabSize": 2, "insertSpaces": true}}), "missing parameters", Want::Error(Some(-32602)), None),
            4 => self.notify("textDocument/didOpen", json!({"textDocument": {"uri": 5}})),
            5 => { self.sends += 1; self.out.acts.push(Act::Raw(b"Content-Length: 7\r\n\r\n{\"a\": 1".to_vec())); self.out.null_errors.1 += 1; self.out.null_errors.0 += 1; }
            6 => { self.request("initialize", json!({"capabilities": {}}), "second initialize", Want::Error(Some(-32600)), None) }
            7 => self.send(json!({"jsonrpc": "2.0", "id": 77_777, "result": null})),
            8 => { self.request("textDocument/formatting", json!({"textDocument": {"uri": "file:///not/open.R"}, "options": {"tabSize": 2, "insertSpaces": true}}), "Format", Want::Error(None), None); self.log("DocumentFormatting", false); }
            9 => { self.notify("textDocument/didChange", json!({"textDocument": {"uri": "file:///not/open.R", "version": 3}, "contentChanges": [{"text": "x"}]})); self.log("DidChangeTextDocument", false); }
            10 => { self.notify("textDocument/didClose", json!({"textDocument": {"uri": "file:///not/open.R"}})); self.log("DidCloseTextDocument", false); }
            _ => self.notify("$/cancelRequest", json!({"id": 424_242})),
        }
    }
}
pub fn dump(t: &str) -> String {
    let l: Vec<&str> = t.split('\n').collect();
    let mut o = format!("program [0, 0] - [{}, {}]\n", l.len() - 1, l.last().unwrap().len());
    for (i, x) in l.iter().enumerate() { o += &format!("    {x:?} [{i}, 0] - [{i}, {}]\n", x.len()); }
    o
}
pub fn file_uri(root: &Path, rel: &str) -> String { let p = if rel.is_empty() { root.to_path_buf() } else { root.join(rel.trim_end_matches('/')) }; url::Url::from_file_path(p).unwrap().to_string() }
pub fn uri(root: &Path, d: &str) -> String { match d.strip_prefix("file:") { Some(f) => file_uri(root, f), None => d.to_string() } }
/// How much of what the transport library logs is wanted.
pub fn dep_level(v: &Value) -> u8 {
    match v.as_str() { Some("trace" | "tower_lsp=trace" | "tokio=info,tower_lsp=trace") => 5, Some("tower_lsp=debug") => 4, Some("tower_lsp=info" | "info,tower_lsp=info") => 3, _ => 0 }
}
pub fn compile(c: &Case, root: &Path) -> Compiled {
    let mut w = World { c, root: root.to_path_buf(), out: Compiled::default(), tree: c.tree.clone(), bad: String::new(), docs: BTreeMap::new(), folders: vec![], sync: false, level: None, last_level: (Value::Null, Value::Null), seg: 0, id: 0, sends: 0, recent: vec![], utf8: c.init.enc.as_ref().is_some_and(|e| e.iter().any(|x| x == "utf-8")), shut: false };
    let i = &c.init;
    let uri0 = "file:///early.R";
    for k in 0..i.early { w.request(if k == 0 { "textDocument/formatting" } else { "shutdown" }, if k == 0 { json!({"textDocument": {"uri": uri0}, "options": {"tabSize": 2, "insertSpaces": true}}) } else { Value::Null }, "before initialize", Want::Error(Some(-32002)), None); }
    // level as of initialization: one bad option discards all of them
    if let Some(o) = &i.opts { let (l, d) = (level_of(&o["logLevel"]), o["dependencyLogLevels"].clone()); if let Some(x) = l { w.level = x; w.last_level = (o["logLevel"].clone(), d.clone()); if !d.is_null() { w.out.deps.insert(0); } } }
    if i.env_dep.is_some() { for s in 0..10_000 { w.out.deps.insert(s); } }
    let mut caps = json!({"workspace": {"configuration": i.config, "didChangeConfiguration": {"dynamicRegistration": i.dyn_config}, "didChangeWatchedFiles": {"dynamicRegistration": i.dyn_watch}}});
    if let Some(e) = &i.enc { caps["general"] = json!({"positionEncodings": e}); }
    let mut p = json!({"processId": null, "capabilities": caps});
    if let Some(n) = &i.name { p["clientInfo"] = json!({"name": n}); }
    if let Some(o) = &i.opts { p["initializationOptions"] = o.clone(); }
    if let Some(f) = &i.folders {
        p["workspaceFolders"] = Value::Array(f.iter().map(|x| json!({"uri": if x.contains(':') { x.clone() } else { file_uri(root, x) + if x.ends_with('/') { "/" } else { "" } }, "name": "f"})).collect());
        for x in f { w.open_folder(x); }
    }
    if !i.cut.is_empty() {
        if i.cut == "first" { let b = frame(&json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": p})); w.out.acts.push(Act::Cut(b[..b.len() / 2].to_vec())); }
        w.out.acts.push(Act::CloseIn);
        w.out.acts.push(Act::Ended);
        w.out.finished = true;
        return w.out;
    }
    let utf8 = w.utf8;
    w.request("initialize", p, "Initialize", Want::Init { utf8 }, None);
    w.log("Initialize", true);
    w.barrier();
    w.notify("initialized", json!({}));
    w.log("Initialized", false);
    w.out.regs = (i.dyn_config || i.dyn_watch) as usize;
    for s in &c.steps { w.step(s); }
    let last = |w: &mut World, must: bool| { let seg = w.seg; for e in w.out.expects.values_mut() { if e.seg == seg && !must { e.must = false; } } for e in &mut w.out.incoming { if e.seg == seg { e.optional = true; } } for e in &mut w.out.pulls { if e.seg == seg { e.optional = true; } } for e in &mut w.out.syncs { if e.seg == seg { e.optional = true; } } if w.seg < 1 { w.out.null_errors.0 = 0; } };
    match &c.end {
        End::Shutdown { after, close, idle, hasty } => {
            if *idle { w.barrier(); }
            w.request("shutdown", Value::Null, "Shutdown", Want::Null, None);
            let shutdown = if w.id % 5 == 3 { format!("\"r{}\"", w.id) } else { w.id.to_string() };
            w.log("Shutdown", true);
            w.shut = true;
            for k in 0..*after { w.request(if k == 0 { "textDocument/formatting" } else { "initialize" }, if k == 0 { json!({"textDocument": {"uri": "file:///x.R"}, "options": {"tabSize": 2, "insertSpaces": true}}) } else { json!({"capabilities": {}}) }, "after shutdown", Want::Error(Some(-32600)), None); }
            last(&mut w, true);
            w.out.orderly = true;
            w.out.acts.push(Act::Pump);
            // the client waits for its answers before it says exit, or only for the last one that matters
            if *hasty { for e in w.out.expects.values_mut() { if e.name == "after shutdown" { e.must = false; } } }
            w.out.acts.push(if *hasty { Act::Answer(shutdown) } else { Act::Drain });
            w.out.acts.push(Act::Send(json!({"jsonrpc": "2.0", "method": "exit"})));
            if *close { w.out.acts.push(Act::CloseIn); }
        }
        End::ExitOnly { close } => { last(&mut w, false); w.out.null_errors.0 = 0; w.out.acts.push(Act::Send(json!({"jsonrpc": "2.0", "method": "exit"}))); if *close { w.out.acts.push(Act::CloseIn); } }
        End::Eof { bytes } => {
            last(&mut w, true);
            let b = frame(&json!({"jsonrpc": "2.0", "id": 9_999, "method": "textDocument/formatting", "params": {"textDocument": {"uri": "file:///x.R"}, "options": {"tabSize": 2, "insertSpaces": true}}}));
            w.out.acts.push(Act::Cut(b[..(*bytes).min(b.len() - 1)].to_vec()));
            w.out.acts.push(Act::CloseIn);
        }
        End::Vanish => { last(&mut w, false); w.out.null_errors.0 = 0; w.out.acts.push(Act::CloseOut); w.out.acts.push(Act::CloseIn); }
    }
    w.out.acts.push(Act::Ended);
    w.out.finished = true;
    w.out.tree = w.tree;
    if !w.bad.is_empty() { w.out.verdicts.clear(); }
    w.out
}
