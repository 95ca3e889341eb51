//! Simulation of the language server client's message codec (crates/lsp_test) behind a simulated pipe.
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::driver::{Check, Ctx, DynCheck, Finding, finding};
use simrt::sim::{self, Fault, Kind, Rng, RunEnv, SimCfg};
#[allow(dead_code)]
#[path = "/repo/crates/lsp_test/src/tower_lsp/codec.rs"]
mod codec;
#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Item {
    /// A well-formed message: header form, body.
    Good { form: u8, body: Value },
    /// A message with an empty body, which carries nothing.
    Empty { form: u8 },
    /// Damage: raw bytes that hold no complete well-formed message.
    Bad { what: String, bytes: Vec<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { seed: u64, items: Vec<Item>, cuts: Vec<usize>, lockstep: bool, close_after: Option<usize>, encode: bool, #[serde(default)] whole: bool, cfg: SimCfg }

const FORMS: u8 = 8;
fn header(form: u8, n: usize) -> String {
    match form % FORMS {
        0 | 1 => format!("Content-Length: {n}\r\n\r\n"),
        2 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
        3 => format!("Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: {n}\r\n\r\n"),
        4 => format!("Content-Length:{n}\r\n\r\n"),
        5 => format!("Content-Length: {n}\r\nX-Other: a: b; c\r\n\r\n"),
        6 => format!("Content-Length: {n}\r\nContent-Type: text/x; a=b; charset=utf-8\r\n\r\n"),
        _ => format!("X-Other: 1\r\nContent-Length: {n}\r\n\r\n"),
    }
}
fn bytes_of(i: &Item) -> Vec<u8> {
    match i {
        Item::Good { form, body } => { let b = serde_json::to_string(body).unwrap(); let mut v = header(*form, b.len()).into_bytes(); v.extend(b.as_bytes()); v }
        Item::Empty { form } => header(*form, 0).into_bytes(),
        Item::Bad { bytes, .. } => bytes.clone(),
    }
}
fn text(r: &mut Rng) -> String {
    let pieces = ["a", "é", "𝒳", "\n", "\r\n\r\n", "\"", "\\", "{}", "Content-Length: 3", "\u{2028}", " ", "0", "日本", "\t", "x<-1"];
    (0..r.below(6)).map(|_| *r.pick(&pieces)).collect()
}
fn value(r: &mut Rng, depth: u32) -> Value {
    match if depth == 0 { r.below(4) } else { r.below(6) } {
        0 => Value::Null, 1 => json!(r.chance(50)), 2 => json!(r.below(100000) as i64 - 500), 3 => json!(text(r)),
        4 => Value::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|i| (format!("{}{}", text(r), i), value(r, depth - 1))).collect()),
    }
}
fn message(r: &mut Rng) -> Value {
    let body = if r.chance(8) { json!("x".repeat(*r.pick(&[9, 99, 100, 999, 5000, 9000, 20000]))) } else { value(r, 2) };
    json!({"jsonrpc": "2.0", "id": r.below(1000), "method": text(r), "params": body})
}
/// Damage the decoder is known not to survive (known-findings.txt).
fn known_damage(what: &str) -> Option<&'static str> { match what { "body is not UTF-8" => Some("non-utf8-body"), "charset is unknown" | "charset is missing" | "garbage between messages" | "length header is missing" | "length is too small" | "too many headers" => Some("unparsable-header"), _ => None } }
fn damage(r: &mut Rng) -> Item {
    let ok = serde_json::to_string(&message(r)).unwrap();
    let ok = if ok.contains("Content-Length") { "{\"a\":[1]}".to_string() } else { ok };
    let with = |h: String, b: &[u8]| { let mut v = h.into_bytes(); v.extend(b); v };
    let (what, bytes): (&str, Vec<u8>) = match r.below(9) {
        0 => { let b = *r.pick(&["{", "{\"a\":", "nope", "[1,]", "{} {}", "\"", "{\"a\" 1}", "]", " "]); ("body is not JSON", with(header(r.next() as u8, b.len()), b.as_bytes())) }
        1 => { let mut b = b"{\"a\":\"".to_vec(); b.extend(r.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88"]).iter()); b.extend(b"\"}"); ("body is not UTF-8", with(header(r.next() as u8, b.len()), &b)) }
        2 => { let l = *r.pick(&["foobar", "-1", "", "1e3", "99999999999999999999999", "0x10", "12 13"]); ("length is not a number", format!("Content-Length: {l}\r\n\r\n").into_bytes()) }
        3 => { let n = ok.len(); ("charset is unknown", with(format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=latin-1\r\n\r\n"), ok.as_bytes())) }
        4 => { let n = ok.len(); ("charset is missing", with(format!("Content-Type: text/plain\r\nContent-Length: {n}\r\n\r\n"), ok.as_bytes())) }
        5 => { let g = *r.pick(&["foobar", "junk junk", "{}", "\u{1}\u{2}", "héllo", "\r\n", "\n\n", "a: b", "HTTP/1.1 200 OK\r\n", "{\"x\": 1}\n", ":", "\"}"]); ("garbage between messages", g.as_bytes().to_vec()) }
        6 => { let k = 1 + r.below(3.min(ok.len() - 1)); let ok = if ok.is_ascii() { ok } else { "{\"abc\":[1,2,3]}".into() }; let k = k.min(ok.len() - 1); ("length is too small", with(format!("Content-Length: {}\r\n\r\n", ok.len() - k), ok.as_bytes())) }
        7 => { ("length header is missing", with(format!("{}\r\n\r\n", r.pick(&["X-Other: 1", "Content-Type: a; charset=utf-8", "content: 4", "Length: 8"])), ok.as_bytes())) }
        _ => { let n = ok.len(); ("too many headers", with(format!("X-A: 1\r\nX-B: 2\r\n{}Content-Length: {n}\r\n\r\n", if r.chance(50) { "X-C: 3\r\n" } else { "" }), ok.as_bytes())) }
    };
    Item::Bad { what: what.into(), bytes }
}
struct Codec { bad: bool }
/// What the reader inside the simulation saw, one JSON value per line.
#[derive(Serialize, Deserialize, Debug)]
enum Saw { Msg(Value), Err(String), Late(usize), End, Stuck }
struct StdinReader;
impl tokio::io::AsyncRead for StdinReader {
    fn poll_read(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        use std::os::fd::FromRawFd;
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(0) });
        let n = std::io::Read::read(&mut *f, b.initialize_unfilled())?;
        b.advance(n);
        std::task::Poll::Ready(Ok(()))
    }
}
struct StdoutWriter;
impl tokio::io::AsyncWrite for StdoutWriter {
    fn poll_write(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        use std::os::fd::FromRawFd;
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
        std::task::Poll::Ready(std::io::Write::write(&mut *f, b))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
    fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
}
fn saw(s: &Saw) { let mut v = serde_json::to_vec(s).unwrap(); v.push(b'\n'); sim::user_write(&v); }
/// The program under simulation: decode everything that arrives on stdin.
fn body(case: &Case) -> i32 {
    use futures_util::{SinkExt, StreamExt};
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static GOT: AtomicUsize = AtomicUsize::new(0);
    let c = case.clone();
    // the sender: pushes pieces as the schedule lets it
    let feeder = std::thread::spawn(move || {
        let mut pos = 0;
        let mut good = 0;
        let mut cuts = c.cuts.iter().copied().collect::<std::collections::BTreeSet<_>>();
        if c.encode { return; }
        if c.whole { sim::stdin_push(&c.items.iter().flat_map(bytes_of).collect::<Vec<u8>>()); sim::stdin_close(); return; }
        for (i, it) in c.items.iter().enumerate() {
            let b = bytes_of(it);
            let upto = if c.close_after.is_some() && i + 1 == c.items.len() { c.close_after.unwrap().min(b.len()) } else { b.len() };
            let b = &b[..upto];
            let mut at = 0;
            while at < b.len() {
                let next = cuts.range(pos + at + 1..).next().map_or(b.len(), |x| (x - pos).min(b.len()));
                cuts.retain(|x| *x > pos + at);
                if !sim::stdin_push(&b[at..next]) { return; }
                at = next;
                if sim::sim_random() % 4 == 0 { std::thread::sleep(std::time::Duration::from_millis(sim::sim_random() % 50)); } else { sim::yield_now(); }
            }
            pos += b.len();
            if matches!(it, Item::Good { .. }) && upto == bytes_of(it).len() { good += 1; }
            if c.lockstep {
                // a complete message must be delivered without any further byte
                for _ in 0..2000 { if GOT.load(SeqCst) >= good { break; } std::thread::sleep(std::time::Duration::from_millis(1)); }
                if GOT.load(SeqCst) < good { saw(&Saw::Late(i)); break; }
            }
        }
        sim::stdin_close();
    });
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        if case.encode {
            let mut w = tokio_util::codec::FramedWrite::new(StdoutWriter, codec::LanguageServerCodec::<Value>::default());
            for i in &case.items { if let Item::Good { body, .. } = i { if let Err(e) = w.send(body.clone()).await { saw(&Saw::Err(e.to_string())); break; } } }
            return;
        }
        let mut f = tokio_util::codec::FramedRead::new(StdinReader, codec::LanguageServerCodec::<Value>::default());
        let mut errors_in_a_row = 0;
        let mut errored = false;
        loop {
            match f.next().await {
                Some(Ok(v)) => { errored = false; errors_in_a_row = 0; saw(&Saw::Msg(v)); GOT.fetch_add(1, SeqCst); }
                Some(Err(e)) => { errored = true; errors_in_a_row += 1; if errors_in_a_row < 5 { saw(&Saw::Err(e.to_string())); } if errors_in_a_row > 400 { saw(&Saw::Stuck); break; } }
                None if errored => { errored = false; }
                None => break,
            }
        }
        // FramedRead gives up at the second error after the end of its input; the decoder itself must not
        let mut rest = std::mem::take(f.read_buffer_mut());
        while errors_in_a_row <= 400 {
            match tokio_util::codec::Decoder::decode(f.decoder_mut(), &mut rest) {
                Ok(Some(v)) => { errors_in_a_row = 0; saw(&Saw::Msg(v)); }
                Ok(None) => { saw(&Saw::End); break; }
                Err(e) => { errors_in_a_row += 1; if errors_in_a_row < 5 { saw(&Saw::Err(e.to_string())); } if errors_in_a_row > 400 { saw(&Saw::Stuck); } }
            }
        }
    });
    sim::stdin_close();
    let _ = feeder.join();
    0
}
impl Check for Codec {
    type Case = Case;
    fn directed(&self) -> Vec<Case> {
        let m = |n: u8| Item::Good { form: n, body: json!({"id": n}) };
        let one = |items: Vec<Item>| Case { seed: 1, items, cuts: vec![], lockstep: false, close_after: None, encode: false, whole: false, cfg: SimCfg::calm(1) };
        let mut v = vec![];
        if self.bad {
            for (w, b) in [("body is not UTF-8", &b"Content-Length: 5\r\n\r\n\"a\xffb\""[..]), ("body is not JSON", b"Content-Length: 1\r\n\r\n{"), ("length is too small", b"Content-Length: 4\r\n\r\n[1,2]"), ("garbage between messages", b"\"}"), ("too many headers", b"A: 1\r\nB: 2\r\nContent-Length: 2\r\n\r\n{}"), ("length is not a number", b"Content-Length: x\r\n\r\n"), ("charset is unknown", b"Content-Length: 2\r\nContent-Type: a; charset=b\r\n\r\n{}")] {
                v.push(one(vec![m(0), Item::Bad { what: w.into(), bytes: b.to_vec() }, m(2), m(3)]));
                v.push(Case { whole: true, ..one(vec![m(0), Item::Bad { what: w.into(), bytes: b.to_vec() }, m(2), m(3)]) });
                v.push(Case { cuts: (0..80).collect(), ..one(vec![Item::Bad { what: w.into(), bytes: b.to_vec() }, m(2), m(3)]) });
            }
        } else {
            for f in 0..FORMS { let mut c = one(vec![m(f), m(f)]); let n: usize = c.items.iter().map(|i| bytes_of(i).len()).sum(); c.cuts = (0..n).collect(); c.lockstep = true; v.push(c); }
            for n in [0usize, 1, 8, 9, 10, 98, 99, 100, 999, 1000, 9999, 10000, 65000, 131100] { let it = vec![Item::Good { form: 0, body: json!("é".repeat(n / 2)) }, m(1)]; v.push(one(it.clone())); v.push(Case { encode: true, ..one(it) }); }
        }
        v
    }
    fn generate(&self, r: &mut Rng) -> Case {
        let mut items = vec![];
        let survivable = r.chance(60);
        for _ in 0..r.range(1, 7) {
            if self.bad && r.chance(45) { let d = loop { let d = damage(r); if !survivable || !matches!(&d, Item::Bad { what, .. } if known_damage(what).is_some()) { break d; } }; items.push(d); if r.chance(80) { items.push(Item::Good { form: r.next() as u8 % FORMS, body: message(r) }); } }
            else if !self.bad && r.chance(6) { items.push(Item::Empty { form: r.next() as u8 % FORMS }); }
            else { items.push(Item::Good { form: r.next() as u8 % FORMS, body: message(r) }); }
        }
        let total: usize = items.iter().map(|i| bytes_of(i).len()).sum();
        let k = *r.pick(&[0usize, 1, 3, 10, 60, 400]);
        let mut cuts: Vec<usize> = (0..r.below(k + 1)).map(|_| r.below(total + 1)).collect();
        cuts.sort(); cuts.dedup();
        let mut cfg = SimCfg::random(r);
        cfg.cpus = 1;
        cfg.alloc_ppm = 0;
        if r.chance(25) { for _ in 0..r.range(1, 4) { cfg.faults.push(Fault { op: if r.chance(50) { "stdin" } else { "stdout" }.into(), path: String::new(), nth: r.range(1, 12) as u32, repeat: 1, kind: "short".into(), arg: 1 }); } }
        let empties = items.iter().any(|i| matches!(i, Item::Empty { .. }));
        let encode = !self.bad && r.chance(20);
        let close_after = if !self.bad && r.chance(20) { Some(r.below(bytes_of(items.last().unwrap()).len() + 1)) } else { None };
        // everything has arrived before the first byte is looked at: what can be recovered is then known exactly
        let whole = self.bad && total <= 4000 && r.chance(35);
        if whole { cuts.clear(); cfg.chunk_max = 0; cfg.faults.clear(); }
        Case { seed: r.next(), lockstep: !empties && !self.bad && r.chance(50), items, cuts, close_after, encode, whole, cfg }
    }
    fn eval(&self, c: &Case, x: &mut Ctx) -> Vec<Finding> {
        let dir = x.scratch.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let o = sim::run(&c.cfg, &RunEnv { root: &dir, cwd: &dir, stdin: None, watchdog_s: 60 }, || {}, || body(c));
        x.record(&c.cfg, &o);
        x.nontrivial();
        for i in &c.items { if let Item::Bad { what, .. } = i { x.fault(&format!("stream damage: {what}"), 1); } }
        if x.verbose { println!("{}", String::from_utf8_lossy(&o.user)); }
        let mut out = vec![];
        if o.kind != Kind::Exited || o.code != 0 { return vec![finding(format!("ended-{:?}", o.kind), format!("the reader ended with {:?} {}: {}", o.kind, o.code, o.err.lines().next().unwrap_or("")))]; }
        let saws: Vec<Saw> = o.user.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| serde_json::from_slice(l).unwrap()).collect();
        let n = c.items.len();
        if c.encode {
            let want: Vec<u8> = c.items.iter().filter_map(|i| if let Item::Good { body, .. } = i { Some(bytes_of(&Item::Good { form: 0, body: body.clone() })) } else { None }).flatten().collect();
            // any framing a conforming reader decodes is fine
            if o.out != want && split(&o.out) != split(&want) { out.push(finding("encode", format!("encoded {} bytes, which do not decode to the messages: {:?}", o.out.len(), String::from_utf8_lossy(&o.out[..o.out.len().min(80)])))); }
            return out;
        }
        let cut_last = c.close_after.is_some_and(|k| k < bytes_of(&c.items[n - 1]).len());
        let want: Vec<&Value> = c.items.iter().enumerate().filter_map(|(i, it)| match it { Item::Good { body, .. } if !(cut_last && i + 1 == n) => Some(body), _ => None }).collect();
        let got: Vec<&Value> = saws.iter().filter_map(|s| if let Saw::Msg(v) = s { Some(v) } else { None }).collect();
        // a message with superfluous headers may be delivered or rejected, and so may one whose first header is swallowed by the damage before it
        let extra: Vec<Value> = c.items.iter().enumerate().filter_map(|(k, i)| match i { Item::Bad { what, bytes } if what == "too many headers" || (what.starts_with("charset") && k > 0 && matches!(c.items[k - 1], Item::Bad { .. })) => { let h = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap(); serde_json::from_slice(&bytes[h + 4..]).ok() } _ => None }).collect();
        if c.whole {
            let must = recover(&c.items.iter().flat_map(bytes_of).collect::<Vec<u8>>());
            let mut k = 0;
            for v in &got { if must.get(k) == Some(*v) { k += 1; } }
            if k < must.len() { out.push(finding("recover", format!("message {} of the {} that can be recovered is lost: {}", k, must.len(), must[k].to_string().chars().take(100).collect::<String>()))); return out; }
        }
        let cause = c.items.iter().find_map(|i| match i { Item::Bad { what, .. } => known_damage(what), _ => None }).map_or(String::new(), |k| format!("-{k}"));
        let mut k = 0;
        let got: Vec<&Value> = got.into_iter().filter(|v| { if want.get(k) == Some(v) { k += 1; true } else { !extra.contains(v) } }).collect();
        if want != got {
            let k = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            let brief = |v: Option<&&Value>| v.map_or("nothing".into(), |v| { let s = v.to_string(); s.chars().take(100).collect::<String>() });
            let dam = if self.bad { c.items.iter().filter_map(|i| if let Item::Bad { what, .. } = i { Some(what.as_str()) } else { None }).collect::<Vec<_>>().join(", ") } else { String::new() };
            out.push(finding(if self.bad { format!("resume{cause}") } else { "messages".into() }, format!("message {k}: sent {}, decoded {} ({} sent, {} decoded) {dam}", brief(want.get(k)), brief(got.get(k)), want.len(), got.len())));
        }
        for s in &saws {
            match s {
                Saw::Late(i) => out.push(finding("late", format!("message {i} was not delivered although all its bytes had arrived"))),
                // (the framing layer reads a message without a body as "more bytes needed")
                Saw::Err(e) if !self.bad && !cut_last && !c.items.iter().any(|i| matches!(i, Item::Empty { .. })) => out.push(finding("error", format!("a well-formed stream was reported as malformed: {e}"))),
                Saw::Stuck if !out.iter().any(|f| f.class.starts_with("resume")) => out.push(finding(format!("stuck{cause}"), "the decoder reports errors without making progress")),
                _ => {}
            }
        }
        if self.bad {
            let damaged = c.items.iter().enumerate().any(|(k, i)| matches!(i, Item::Bad { what, .. } if what != "garbage between messages" && what != "too many headers" && (k == 0 || !matches!(c.items[k - 1], Item::Bad { .. }))));
            if damaged && !saws.iter().any(|s| matches!(s, Saw::Err(_))) { out.push(finding("silent", "a malformed message was dropped without an error")); }
        }
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.items.len() { if c.items.len() > 1 { let mut d = c.clone(); d.items.remove(i); v.push(d); } }
        if !c.cuts.is_empty() { let mut d = c.clone(); d.cuts.clear(); v.push(d); for i in 0..c.cuts.len().min(40) { let mut d = c.clone(); d.cuts.remove(i); v.push(d); } }
        for i in 0..c.items.len() { if let Item::Good { form, body } = &c.items[i] { let small = json!({"id": i}); if *body != small || *form != 0 { let mut d = c.clone(); d.items[i] = Item::Good { form: 0, body: small.clone() }; v.push(d); let mut d = c.clone(); d.items[i] = Item::Good { form: *form, body: small }; if d.items != c.items { v.push(d); } } } }
        if c.lockstep { v.push(Case { lockstep: false, ..c.clone() }); }
        if c.close_after.is_some() { v.push(Case { close_after: None, ..c.clone() }); }
        v
    }
    fn cfgs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut SimCfg> { vec![&mut c.cfg] }
    fn rule(&self) -> String { "every case runs a sender thread against the decoder (or the encoder against a pipe with short writes); distinct means a distinct execution trace".into() }
    fn real(&self) -> Vec<String> { vec!["crates/lsp_test/src/tower_lsp/codec.rs".into(), "tokio-util FramedRead/FramedWrite, httparse, serde_json".into()] }
    fn stub(&self) -> Vec<String> { vec!["pipe, clock and thread scheduler (sim.c)".into()] }
    fn assumptions(&self) -> Vec<String> { vec!["a malformed message announces a length that ends no later than its own bytes; damage holds no text Content-Length other than its own header".into()] }
    fn level(&self) -> &'static str { "exploration" }
}
/// The messages of a stream that has arrived as a whole: a rejected header block is skipped up to the next
/// message, a rejected body as announced. Ends where the decoder is known to get stuck (known-findings.txt).
fn recover(b: &[u8]) -> Vec<Value> {
    let (mut v, mut b) = (vec![], b);
    loop {
        let mut h = [httparse::EMPTY_HEADER; 2];
        let Ok(httparse::Status::Complete((n, hs))) = httparse::parse_headers(b, &mut h) else { return v };
        let (mut len, mut bad) = (None, false);
        for h in hs {
            let t = std::str::from_utf8(h.value).unwrap_or("\u{0}");
            match h.name {
                "Content-Length" => match t.parse::<usize>() { Ok(l) => len = Some(l), Err(_) => { bad = true; break; } },
                "Content-Type" => if !matches!(t.split(';').skip(1).map(str::trim).find_map(|p| p.strip_prefix("charset=")), Some("utf-8" | "utf8")) { bad = true; break; },
                _ => {}
            }
        }
        match (bad, len) {
            (false, Some(l)) => {
                let Some(m) = b.get(n..n + l) else { return v };
                let Ok(t) = std::str::from_utf8(m) else { return v };
                if l == 0 { return v; }
                if let Ok(m) = serde_json::from_str(t) { v.push(m); }
                b = &b[n + l..];
            }
            _ => {
                if bad { b = &b[n..]; }
                let Some(k) = b.windows(14).position(|w| w == b"Content-Length") else { return v };
                b = &b[k..];
            }
        }
    }
}
fn split(b: &[u8]) -> Option<Vec<Value>> {
    let mut v = vec![];
    let mut b = b;
    while !b.is_empty() {
        let h = b.windows(4).position(|w| w == b"\r\n\r\n")?;
        let n: usize = std::str::from_utf8(&b[..h]).ok()?.split("\r\n").find_map(|l| l.strip_prefix("Content-Length:"))?.trim().parse().ok()?;
        v.push(serde_json::from_slice(b.get(h + 4..h + 4 + n)?).ok()?);
        b = &b[h + 4 + n..];
    }
    Some(v)
}
fn main() {
    simrt::driver::main(|p| -> Option<Box<dyn DynCheck>> { match p { "W01" => Some(Box::new(Codec { bad: false })), "W02" => Some(Box::new(Codec { bad: true })), _ => None } })
}
