//! Compares what the editor saw with what the reference model allows.
use crate::case::*;
use crate::plan::*;
use serde_json::{Value, json};
use simrt::driver::{Ctx, Finding, finding};
use simrt::sim::{Kind, Outcome};
use std::collections::{BTreeMap, BTreeSet};

/// The properties a class of finding speaks about; everything else concerns them all.
pub fn concerns(prop: &str, class: &str) -> bool {
    match class {
        "log-order" | "log-level" | "log-lost" => prop == "L10",
        "sync" => prop == "L06",
        "pull" => ["L05", "L06", "L10"].contains(&prop),
        "registration" => ["L04", "L06", "L10"].contains(&prop),
        "range" => ["L09", "L01", "L02", "L03", "L07"].contains(&prop),
        "view" => ["L01", "L03"].contains(&prop),
        "format" => !["L06", "L09", "L10"].contains(&prop),
        "disagreement" => prop == "L07",
        // what an editor does not ask for unless the server says it can
        "unoffered-documents" => prop == "L01",
        "unoffered-formatting" => prop == "L02",
        "unoffered-ranges" => prop == "L09",
        "unoffered-folders" => prop == "L04",
        _ => true,
    }
}
struct Seen { seg: usize, v: Value }
/// Is `got` the wanted sequence, with optional members left out or not?
fn follows<T, G: std::fmt::Debug>(got: &[G], want: &[(T, bool)], same: impl Fn(&G, &T) -> bool) -> Result<(), (usize, usize)> {
    let skip = |s: &mut BTreeSet<usize>| { let mut k: Vec<usize> = s.iter().copied().collect(); while let Some(i) = k.pop() { if i < want.len() && want[i].1 && s.insert(i + 1) { k.push(i + 1); } } };
    let mut at = BTreeSet::from([0]);
    skip(&mut at);
    for (i, g) in got.iter().enumerate() {
        let far = *at.last().unwrap();
        let mut next: BTreeSet<usize> = at.iter().filter(|k| **k < want.len() && same(g, &want[**k].0)).map(|k| k + 1).collect();
        if next.is_empty() { return Err((i, far)); }
        skip(&mut next);
        at = next;
    }
    if at.contains(&want.len()) { Ok(()) } else { Err((got.len(), *at.last().unwrap())) }
}
fn apply(old: &str, edits: &Value, utf8: bool, crlf: bool) -> Result<String, String> {
    if edits.is_null() { return Ok(old.into()); }
    let list = edits.as_array().ok_or("not a list of edits")?;
    let mut e = vec![];
    for x in list {
        let at = |k: &str| offset(old, &x["range"][k], utf8).ok_or_else(|| format!("edit {x} is outside the document"));
        let (a, b, t) = (at("start")?, at("end")?, x["newText"].as_str().ok_or("an edit without text")?);
        if a > b { return Err(format!("edit {x} ends before it starts")); }
        if lf(t).contains('\r') || (t.contains('\n') && t.contains("\r\n") != crlf) || (crlf && t.replace("\r\n", "").contains('\n')) { return Err(format!("edit {x} has line endings the document was not opened with")); }
        e.push((a, b, t));
    }
    e.sort_by_key(|x| x.0);
    if let Some(w) = e.windows(2).find(|w| w[0].1 > w[1].0) { return Err(format!("edits overlap: {w:?}")); }
    let mut s = String::new();
    let mut p = 0;
    for (a, b, t) in e { s += &old[p..a]; s += t; p = b; }
    Ok(s + &old[p..])
}
fn clip(s: &str) -> String { let mut t: String = s.chars().take(160).collect(); if t.len() < s.len() { t += "…"; } format!("{t:?}") }
fn edits(w: &Want, r: &Value) -> Option<String> {
    match w {
        Want::Text { old, new, wide, crlf, why } => {
            let none = r.is_null() || r.as_array().is_some_and(|a| a.is_empty());
            let Some(new) = new else { return if none { None } else { Some(format!("edits although there should be none ({why}): {r}")) } };
            let got = match apply(old, r, !wide, *crlf) { Ok(g) => g, Err(e) => return Some(e) };
            if lf(&got) != *new { return Some(format!("{why}: {} became {} instead of {}", clip(old), clip(&got), clip(new))); }
            let uniform = if *crlf { !old.replace("\r\n", "").contains('\n') } else { !old.contains('\r') };
            let exact = if *crlf { new.replace('\n', "\r\n") } else { new.clone() };
            if uniform && got != exact { return Some(format!("{why}: line endings of {} became {}", clip(old), clip(&got))); }
            None
        }
        Want::Loose { old, opts, wide, crlf } => {
            let got = match apply(old, r, !wide, *crlf) { Ok(g) => g, Err(e) => return Some(e) };
            let f = |s: &str| toylang::format(&lf(s), opts, 0).ok().and_then(|r| r.ok());
            if f(&got) != f(old) { return Some(format!("a range that touches nothing: {} became {}", clip(old), clip(&got))); }
            None
        }
        _ => None,
    }
}
fn class_of(name: &str) -> &'static str { match name { "Format" => "format", "Range" => "range", "View" => "view", _ => "response" } }
fn settings(v: &Value) -> Option<Settings> {
    let mut m = Settings::new();
    for f in v["params"]["file_settings"].as_array()? {
        let s = &f["format"];
        if m.insert(f["url"].as_str()?.to_string(), (s["indent_style"].as_str()?.to_lowercase(), s["indent_width"].as_u64()?, s["line_width"].as_u64()?)).is_some() { return None; }
    }
    Some(m)
}
/// (level, message) of the records in some log text.
fn records(t: &str) -> Vec<(u8, String)> {
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("  ")?;
        if l.starts_with(' ') { return None; }
        let l = l.strip_prefix("<unknown time>").or_else(|| l.split_once(' ').map(|x| x.1))?.trim_start();
        let (lv, m) = l.split_once(' ')?;
        let n = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].iter().position(|x| *x == lv)?;
        Some((n as u8, m.trim().to_string()))
    }).collect()
}
pub fn judge(c: &Case, w: &Compiled, o: &Outcome, x: &mut Ctx) -> Vec<Finding> {
    let mut out = vec![];
    let panicked = o.err.lines().find(|l| l.contains("panicked at"));
    if o.kind != Kind::Exited { return vec![finding(format!("ended-{:?}", o.kind), format!("the server ended with {:?} (code {}): {}", o.kind, o.code, o.err.lines().last().unwrap_or("")))]; }
    if o.code == 101 || panicked.is_some() { return vec![finding("panic", format!("the server panicked: {}", panicked.unwrap_or("")))]; }
    let text = String::from_utf8_lossy(&o.user).into_owned();
    let mut seen = vec![];
    let mut seg = 0;
    let mut last = "";
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k { "R" => seen.push(Seen { seg, v: serde_json::from_str(v).unwrap() }), "B" => seg += 1, "A" => {} _ => last = l }
    }
    // what the server wrote and the editor had not read yet when the process ended
    if o.code < 90 && !(c.end == End::Vanish && c.init.cut.is_empty()) {
        let (mut rest, mut n) = (&o.out[..], 0);
        while !rest.is_empty() {
            let body = rest.windows(4).position(|w| w == b"\r\n\r\n").and_then(|h| { let len: usize = std::str::from_utf8(&rest[..h]).ok()?.split("\r\n").find_map(|l| l.strip_prefix("Content-Length: "))?.trim().parse().ok()?; Some((rest.get(h + 4..h + 4 + len)?, h + 4 + len)) });
            let Some((b, k)) = body else { out.push(finding("malformed", format!("the output ends inside a message: {}", clip(&String::from_utf8_lossy(rest))))); break };
            n += 1;
            if n > seen.len() { match serde_json::from_slice(b) { Ok(v) => seen.push(Seen { seg, v }), Err(e) => { out.push(finding("malformed", format!("{e}: {}", clip(&String::from_utf8_lossy(b))))); break } } }
            rest = &rest[k..];
        }
    }
    match o.code {
        95 => return vec![finding("malformed", format!("the server wrote something that is not a message: {last}"))],
        96 => return vec![finding("ended-InputFull", "harness: input buffer full")],
        97 => return vec![finding("not-ended", format!("the server was still running 60 s after {}", match c.end { End::Shutdown { .. } | End::ExitOnly { .. } => "exit", _ => "its input ended" }))],
        98 => return vec![finding("unanswered", format!("no answer within 60 s: {} ({})", last, last.split('"').filter_map(|s| w.expects.get(s).or_else(|| w.expects.get(&format!("\"{s}\""))).map(|e| e.name.clone())).collect::<Vec<_>>().join(" ")))],
        _ => {}
    }
    if !(c.end == End::Vanish && c.init.cut.is_empty()) && o.code != 0 && w.orderly { out.push(finding("exit-code", format!("exit status {} after an orderly shutdown: {}", o.code, o.err.lines().last().unwrap_or("")))); }
    // ---- responses
    let mut got: BTreeMap<String, &Value> = BTreeMap::new();
    let (mut nulls, mut regs, mut pulls) = (0, vec![], vec![]);
    let mut syncs: Vec<(usize, &Value)> = vec![];
    let mut logs: Vec<(usize, String)> = vec![];
    for s in &seen {
        let v = &s.v;
        match (v["method"].as_str(), v["id"].is_null()) {
            (Some("client/registerCapability"), false) => regs.push(v),
            (Some("workspace/configuration"), false) => pulls.push((s.seg, v)),
            (Some("air/syncFileSettings"), true) => syncs.push((s.seg, v)),
            (Some("window/logMessage"), true) => logs.push((s.seg, v["params"]["message"].as_str().unwrap_or("").to_string())),
            (Some(m), false) => out.push(finding("unsolicited", format!("a request nobody expects: {m}"))),
            (Some(_), true) => x.count("other notifications"),
            (None, true) => { if v["error"].is_null() { out.push(finding("unsolicited", format!("a response without id: {v}"))); } nulls += 1; }
            (None, false) => {
                let k = v["id"].to_string();
                if !w.expects.contains_key(&k) { out.push(finding("unsolicited", format!("a response nobody asked for: {v}"))); }
                if got.insert(k, v).is_some() { out.push(finding("duplicate-response", format!("a second response: {v}"))); }
            }
        }
    }
    if nulls < w.null_errors.0 || nulls > w.null_errors.1 { out.push(finding("null-errors", format!("{nulls} error responses without id, expected {:?}", w.null_errors))); }
    for (k, e) in &w.expects {
        let Some(v) = got.get(k) else { if e.must { out.push(finding("unanswered", format!("request {k} ({}) was never answered", e.name))); } continue };
        x.count("responses judged");
        let code = v["error"]["code"].as_i64();
        if (e.cancelled || !e.must) && [Some(-32800), Some(-32603)].contains(&code) { x.count("requests cancelled"); continue; }
        if let Want::Error(want) = &e.want { if code.is_none() || (want.is_some() && code != *want) { out.push(finding(if want.is_some() { "response" } else { class_of(&e.name) }, format!("request {k} ({}) should fail{}: {v}", e.name, want.map_or(String::new(), |c| format!(" with {c}"))))); } continue; }
        if matches!(e.want, Want::Any) { continue; }
        if code.is_some() || v.get("result").is_none() { out.push(finding(class_of(&e.name), format!("request {k} ({}) failed: {v}", e.name))); continue; }
        let r = &v["result"];
        let s = r.as_str().unwrap_or("");
        let bad = match &e.want {
            Want::Null => if r.is_null() { None } else { Some(format!("{r} instead of null")) },
            Want::Exactly(t) => if s == t { None } else { Some(format!("the server's copy is {} instead of {}", clip(s), clip(t))) },
            Want::ParseError => if s.to_lowercase().contains("error") { None } else { Some(format!("no parse error reported: {}", clip(s))) },
            Want::NotParseError => if r.is_string() && !s.starts_with("*Parse error") { None } else { Some(format!("a parse error for correct text: {}", clip(s))) },
            Want::Init { utf8 } => { let p = r["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16"); if p == if *utf8 { "utf-8" } else { "utf-16" } { None } else { Some(format!("position encoding {p}")) } }
            w => edits(w, r),
        };
        if let Some(b) = bad { out.push(finding(class_of(&e.name), format!("request {k} ({}): {b}", e.name))); }
    }
    let cut = !c.init.cut.is_empty();
    // ---- requests of the server
    if !cut && seen.iter().any(|s| s.seg > 1) || w.orderly {
        if regs.len() != w.regs { out.push(finding("registration", format!("{} client/registerCapability requests instead of {}", regs.len(), w.regs))); }
        for r in &regs {
            let list = r["params"]["registrations"].as_array().cloned().unwrap_or_default();
            let globs: BTreeSet<String> = list.iter().filter(|x| x["method"] == "workspace/didChangeWatchedFiles").flat_map(|x| x["registerOptions"]["watchers"].as_array().cloned().unwrap_or_default()).map(|g| g["globPattern"].as_str().unwrap_or("").to_string()).collect();
            for g in ["**/air.toml", "**/.air.toml"] { if c.init.dyn_watch != globs.contains(g) && !(globs.contains("**/{air,.air}.toml") || globs.contains("**/{.air,air}.toml") || globs.contains("**/{air.toml,.air.toml}")) { out.push(finding("registration", format!("watching {g}: {}", globs.contains(g)))); } }
            let secs: BTreeSet<String> = list.iter().filter(|x| x["method"] == "workspace/didChangeConfiguration").map(|x| x["registerOptions"]["section"].as_str().unwrap_or("").to_string()).collect();
            for s in ["editor.insertSpaces", "editor.indentSize", "editor.tabSize", "air.logLevel", "air.dependencyLogLevels", "air.syncFileSettingsWithClient"] { if c.init.dyn_config != secs.iter().any(|x| s == x || s.starts_with(&format!("{x}."))) { out.push(finding("registration", format!("configuration changes of {s}: {}", secs.contains(s)))); } }
        }
    }
    let want: Vec<(&Pull, bool)> = w.pulls.iter().map(|p| (p, p.optional)).collect();
    let asked: Vec<(usize, BTreeSet<String>, BTreeSet<String>)> = pulls.iter().map(|(s, v)| {
        let items = v["params"]["items"].as_array().cloned().unwrap_or_default();
        let (mut per, mut glob): (BTreeMap<String, BTreeSet<String>>, BTreeSet<String>) = Default::default();
        for i in &items { let sec = i["section"].as_str().unwrap_or("").to_string(); match i["scopeUri"].as_str() { Some(u) => { per.entry(u.into()).or_default().insert(sec); } None => { glob.insert(sec); } } }
        (*s, per.into_iter().filter(|(_, s)| ["editor.insertSpaces", "editor.indentSize", "editor.tabSize"].iter().all(|k| s.contains(*k))).map(|x| x.0).collect(), glob)
    }).collect();
    if let Err((i, k)) = follows(&asked, &want, |g, p| g.0 == p.seg && g.1 == p.docs && ["air.logLevel", "air.dependencyLogLevels", "air.syncFileSettingsWithClient"].iter().all(|s| g.2.contains(*s))) { out.push(finding("pull", format!("workspace/configuration: asked {:?}, expected {:?}", asked.get(i), w.pulls.get(k)))); }
    x.add("settings pulls judged", asked.len() as u64);
    // ---- synchronisation
    let sent: Vec<(usize, Option<Settings>)> = syncs.iter().map(|(s, v)| (*s, settings(v))).collect();
    let want: Vec<(&Sync, bool)> = w.syncs.iter().map(|s| (s, s.optional)).collect();
    if let Err((i, k)) = follows(&sent, &want, |g, s| g.0 == s.seg && g.1.as_ref() == Some(&s.files)) { out.push(finding("sync", format!("synchronisation: sent {:?}, expected {:?}", sent.get(i), w.syncs.get(k)))); }
    x.add("synchronisations judged", sent.len() as u64);
    // ---- what the server offers
    if let Some(p) = seen.iter().map(|s| &s.v["result"]["capabilities"]).find(|p| p.is_object()) {
        let dynamic = |m: &str| seen.iter().any(|s| s.v["method"] == "client/registerCapability" && s.v["params"]["registrations"].as_array().is_some_and(|l| l.iter().any(|x| x["method"] == m)));
        let yes = |v: &Value| *v == json!(true) || v.is_object();
        let s = &p["textDocumentSync"];
        if !(s.as_u64().is_some_and(|n| n == 1 || n == 2) || s["openClose"] == json!(true) && s["change"].as_u64().is_some_and(|n| n == 1 || n == 2)) && !dynamic("textDocument/didChange") { out.push(finding("unoffered-documents", format!("the server does not ask for the documents: textDocumentSync is {s}"))); }
        if !yes(&p["documentFormattingProvider"]) && !dynamic("textDocument/formatting") { out.push(finding("unoffered-formatting", "the server does not offer formatting".to_string())); }
        if !yes(&p["documentRangeFormattingProvider"]) && !dynamic("textDocument/rangeFormatting") { out.push(finding("unoffered-ranges", "the server does not offer range formatting".to_string())); }
        let f = &p["workspace"]["workspaceFolders"];
        if !(f["supported"] == json!(true) && (f["changeNotifications"] == json!(true) || f["changeNotifications"].is_string())) && !dynamic("workspace/didChangeWorkspaceFolders") { out.push(finding("unoffered-folders", format!("the server does not ask for changes of the workspace folders: {f}"))); }
    }
    // ---- logs
    let to_client = c.init.name.as_ref().is_some_and(|n| n.starts_with("Zed") || n.starts_with("Visual Studio Code"));
    if !to_client && !logs.is_empty() { out.push(finding("log-level", "log messages to a client that does not support them")); }
    let recs: Vec<(Option<usize>, u8, String)> = if to_client { logs.iter().flat_map(|(s, t)| records(t).into_iter().map(|(l, m)| (Some(*s), l, m))).collect() } else { records(&o.err).into_iter().map(|(l, m)| (None, l, m)).collect() };
    let all: BTreeSet<u8> = w.levels.values().flatten().copied().collect();
    let most = |s: Option<usize>| match s { Some(s) => w.levels.get(&s).and_then(|l| l.last().copied()), None => all.last().copied() };
    for (s, l, m) in &recs {
        if m == "dependency speaks" {
            let may = match s { Some(0) => continue, Some(s) => w.dep_levels.get(s).and_then(|l| l.last().copied()).unwrap_or(0), None => w.dep_levels.values().flatten().max().copied().unwrap_or(0) };
            if *l >= may { out.push(finding("log-level", format!("a dependency's record of level {l} although only levels below {may} are wanted (phase {s:?})"))); break; }
            continue;
        }
        if s.is_none_or(|s| s == 0) || s.is_some_and(|s| w.deps.contains(&s)) { continue; }
        if most(*s).is_some_and(|x| *l > x) { out.push(finding("log-level", format!("a record of level {l} although at most {:?} is wanted (phase {s:?}): {m}", most(*s)))); break; }
    }
    let incoming: Vec<(Option<usize>, String)> = recs.iter().filter_map(|(s, _, m)| m.strip_prefix("Incoming: ").map(|n| (*s, n.split([' ', ',']).next().unwrap().to_string()))).collect();
    let want: Vec<(&Incoming, bool)> = w.incoming.iter().map(|i| (i, i.optional || i.seg == 0 || !w.levels.get(&i.seg).is_some_and(|l| l.iter().all(|x| *x >= 2)))).collect();
    if let Err((i, k)) = follows(&incoming, &want, |g, i| g.0.is_none_or(|s| s == i.seg) && g.1 == i.name) { out.push(finding("log-order", format!("log record {:?} where {:?} is expected (after {:?})", incoming.get(i), w.incoming.get(k), i.checked_sub(1).and_then(|i| incoming.get(i))))); }
    // a dependency speaks on its three levels whenever a message arrives, at the least for the one that ends the phase
    for (s, l) in &w.dep_levels {
        if *s == 0 || *s >= seg || !to_client { continue; }
        let least = *l.first().unwrap();
        for want in 2..least { if !recs.iter().any(|(r, n, m)| *r == Some(*s) && *n == want && m == "dependency speaks") { out.push(finding("log-lost", format!("no record of level {want} of a dependency in phase {s}, where its levels are {l:?}"))); break; } }
        if least > 0 { x.add("phases with dependency records", 1); }
    }
    x.add("log records judged", recs.len() as u64);
    let _ = json!(null);
    out
}
