//! The editor: one simulated thread that carries out the session and records everything it receives.
use crate::case::Reply;
use serde_json::{Value, json};
use simrt::sim;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Act { Send(Value), Raw(Vec<u8>), /** the beginning of a message, after which the client sends nothing */ Cut(Vec<u8>), Barrier, Fs(Vec<(std::path::PathBuf, Option<Vec<u8>>)>), Bad(String, i32), Pause(u64), Pump, CloseIn, CloseOut, Ended, /** waits for every answer */ Drain, /** waits for the answer to this request, however many others are outstanding */ Answer(String), /** the pulls of the next trigger are answered like this */ Script(Reply) }
pub const PROBE: i64 = 1_000_000;
pub fn frame(v: &Value) -> Vec<u8> { let b = v.to_string(); format!("Content-Length: {}\r\n\r\n{b}", b.len()).into_bytes() }
pub fn probe(n: usize) -> Value { json!({"jsonrpc": "2.0", "id": PROBE + n as i64, "method": "air/viewFile", "params": {"textDocument": {"uri": "probe:nothing"}, "position": {"line": 0, "character": 0}, "kind": "SyntaxTree"}}) }
struct Actor { pos: usize, waiting: BTreeSet<String>, deferred: Vec<(usize, Vec<u8>)>, n: usize, hurry: bool, scripts: Vec<Reply>, conf: usize, reg: String, silent: bool }
const S: u64 = 1_000_000_000;
fn note(k: &str, v: &str) { sim::user_write(format!("{k} {v}\n").as_bytes()); }
pub fn answer(items: &[Value], r: &Reply) -> Value {
    let mut a: Vec<Value> = items.iter().map(|i| match i["section"].as_str().unwrap_or("") {
        "editor.insertSpaces" => r.doc[0].clone(), "editor.indentSize" => r.doc[1].clone(), "editor.tabSize" => if r.kind == "bad_doc" { json!("wide") } else { r.doc[2].clone() },
        "air.logLevel" => if r.kind == "bad_global" { json!("loud") } else { r.level.clone() }, "air.dependencyLogLevels" => r.dep.clone(), "air.syncFileSettingsWithClient" => r.sync.clone(), _ => Value::Null }).collect();
    match r.kind.as_str() { "short" => { a.pop(); } "long" => a.push(Value::Null), "not_array" => return json!({"a": 1}), _ => {} }
    Value::Array(a)
}
impl Actor {
    fn put(&mut self, b: &[u8]) { if self.silent { return; } if !sim::outside(|| sim::stdin_push(b)) { note("F", "stdin full"); sim::finish(96); } }
    fn reply(&mut self, b: Vec<u8>, delay: usize) { if delay == 0 || self.hurry { self.put(&b); } else { self.deferred.push((self.n + delay, b)); } }
    /// Reads what the server wrote and answers its requests.
    fn pump(&mut self) {
        loop {
            let msg = sim::outside(|| -> Option<Result<Value, String>> {
                let have = sim::stdout_from(self.pos);
                let head = have.windows(4).position(|w| w == b"\r\n\r\n")?;
                let h = String::from_utf8_lossy(&have[..head]).into_owned();
                let Some(n) = h.split("\r\n").find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|n| n.trim().parse::<usize>().ok()) else { return Some(Err(h)) };
                if have.len() < head + 4 + n { return None; }
                let body = &have[head + 4..head + 4 + n];
                self.pos += head + 4 + n;
                Some(serde_json::from_slice(body).map_err(|e| e.to_string()))
            });
            let len = sim::stdout_len();
            sim::stdout_take(len);
            let v = match msg { None => return, Some(Err(e)) => { sim::outside(|| note("X", &e)); sim::finish(95) } Some(Ok(v)) => v };
            let out = sim::outside(|| {
                note("R", &v.to_string());
                match v["method"].as_str() {
                    Some(m) if !v["id"].is_null() => {
                        let id = v["id"].clone();
                        let ok = |r: Value| frame(&json!({"jsonrpc": "2.0", "id": id, "result": r}));
                        let err = || frame(&json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "no"}}));
                        match m {
                            "workspace/configuration" => {
                                let r = self.scripts.get(self.conf).cloned().unwrap_or_default();
                                self.conf += 1;
                                let items = v["params"]["items"].as_array().cloned().unwrap_or_default();
                                Some((if r.kind == "error" { err() } else { ok(answer(&items, &r)) }, r.delay))
                            }
                            _ => Some((if self.reg == "error" { err() } else { ok(Value::Null) }, if self.reg == "slow" { 3 } else { 0 })),
                        }
                    }
                    None => { self.waiting.remove(&v["id"].to_string()); None }
                    _ => None,
                }
            });
            if let Some((b, d)) = out { self.reply(b, d); }
        }
    }
    fn flush(&mut self, all: bool) { let n = self.n; let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut self.deferred).into_iter().partition(|(d, _)| all || *d <= n); self.deferred = later; for (_, b) in now { self.put(&b); } }
    fn drain(&mut self) {
        self.hurry = true;
        self.flush(true);
        let t0 = sim::now_ns();
        loop {
            self.pump();
            if self.waiting.is_empty() { break; }
            let len = sim::stdout_len();
            sim::stdout_wait(len, S);
            if sim::now_ns() - t0 > 60 * S { sim::outside(|| note("T", &format!("{:?}", self.waiting))); sim::finish(98); }
        }
    }
    fn answer(&mut self, id: &str) {
        let t0 = sim::now_ns();
        loop {
            self.pump();
            if !self.waiting.contains(id) { break; }
            let len = sim::stdout_len();
            sim::stdout_wait(len, S);
            if sim::now_ns() - t0 > 5 * S { self.hurry = true; self.flush(true); }
            if sim::now_ns() - t0 > 60 * S { sim::outside(|| note("T", &format!("{:?}", self.waiting))); sim::finish(98); }
        }
        // answers that are on their way too may overtake one another
        let t = sim::now_ns();
        loop { self.pump(); let d = sim::now_ns() - t; if d >= S / 20 { break; } let len = sim::stdout_len(); sim::stdout_wait(len, S / 20 - d); }
    }
    fn barrier(&mut self, k: usize) {
        self.hurry = true;
        self.flush(true);
        let p = probe(k);
        self.waiting.insert(p["id"].to_string());
        let b = frame(&p);
        self.put(&b);
        let t0 = sim::now_ns();
        loop {
            self.pump();
            let len = sim::stdout_len();
            if self.waiting.is_empty() {
                if sim::stdout_wait(len, 3 * S / 2) == len { break; }
            } else {
                sim::stdout_wait(len, S);
            }
            if sim::now_ns() - t0 > 60 * S { sim::outside(|| note("T", &format!("{:?}", self.waiting))); sim::finish(98); }
        }
        self.hurry = false;
        sim::outside(|| note("B", &k.to_string()));
    }
}
pub fn run(acts: Vec<Act>, reg: String) {
    let mut a = Actor { pos: 0, waiting: BTreeSet::new(), deferred: vec![], n: 0, hurry: false, scripts: sim::outside(|| acts.iter().filter_map(|x| if let Act::Script(r) = x { Some(r.clone()) } else { None }).collect()), conf: 0, reg, silent: false };
    let mut k = 0;
    for act in acts {
        a.n += 1;
        sim::outside(|| note("A", &a.n.to_string()));
        match act {
            Act::Send(v) => { let b = sim::outside(|| { if !v["id"].is_null() && v.get("method").is_some() { a.waiting.insert(v["id"].to_string()); } frame(&v) }); a.put(&b); }
            Act::Raw(b) => a.put(&b),
            Act::Barrier => { a.barrier(k); k += 1; }
            Act::Fs(ops) => sim::outside(|| for (p, b) in ops { match b { Some(b) => { let _ = std::fs::create_dir_all(p.parent().unwrap()); std::fs::write(&p, b).unwrap(); } None => { let _ = std::fs::remove_file(&p); } } }),
            Act::Bad(p, e) => sim::bad_path(&p, e),
            Act::Pause(ms) => { let t = sim::now_ns(); loop { let d = sim::now_ns() - t; if d >= ms * 1_000_000 { break; } let l = sim::stdout_len(); sim::stdout_wait(l, ms * 1_000_000 - d); } }
            Act::Pump => a.pump(),
            Act::Cut(b) => { a.put(&b); a.silent = true; }
            Act::CloseIn => { a.silent = true; sim::stdin_close() }
            Act::CloseOut => sim::stdout_close(),
            Act::Ended => {
                a.flush(true);
                a.hurry = true;
                let t0 = sim::now_ns();
                loop {
                    a.pump();
                    let len = sim::stdout_len();
                    sim::stdout_wait(len, S);
                    if sim::now_ns() - t0 > 60 * S { sim::outside(|| note("N", "")); sim::finish(97); }
                }
            }
            Act::Drain => a.drain(),
            Act::Answer(id) => a.answer(&id),
            Act::Script(_) => {}
        }
        a.flush(false);
        if sim::outside(|| sim::sim_random() % 3 == 0) { sim::yield_now(); }
    }
}
