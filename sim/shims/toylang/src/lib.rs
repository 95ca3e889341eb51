//! The toy language the simulator formats instead of R: expressions separated by newlines, `{}` blocks,
//! parentheses, strings, comments. Every format option is visible in the output: `opts()` is rewritten to
//! the options in force, indentation, assignment operators and line endings follow them.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Word, Op, Str, LParen, RParen, LCurly, RCurly, Comma }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tr { Ws, Nl, Comment }
#[derive(Clone, Debug)]
pub struct Tok { pub k: K, pub start: usize, pub end: usize, pub leading: Vec<(Tr, usize, usize)>, pub trailing: Vec<(Tr, usize, usize)> }
#[derive(Clone, Debug)]
pub struct Lexed { pub toks: Vec<Tok>, pub eof_leading: Vec<(Tr, usize, usize)> }
fn is_op(c: char) -> bool { "+-*/<>=|&!~^%:@$?;\\".contains(c) }
pub fn lex(src: &str) -> Result<Lexed, String> {
    let b: Vec<(usize, char)> = src.char_indices().collect();
    let pos = |i: usize| if i < b.len() { b[i].0 } else { src.len() };
    let mut i = 0;
    let mut toks: Vec<Tok> = vec![];
    let mut trivia: Vec<(Tr, usize, usize)> = vec![];
    let mut trailing_ok = false; // still on the line of the previous token
    macro_rules! push_trivia { ($t:expr) => { if trailing_ok { toks.last_mut().unwrap().trailing.push($t) } else { trivia.push($t) } } }
    while i < b.len() {
        let c = b[i].1;
        let st = i;
        if c == '\n' || (c == '\r' && i + 1 < b.len() && b[i + 1].1 == '\n') {
            i += if c == '\r' { 2 } else { 1 };
            trailing_ok = false;
            trivia.push((Tr::Nl, pos(st), pos(i)));
        } else if c.is_whitespace() || c == '\u{feff}' {
            while i < b.len() && (b[i].1.is_whitespace() || b[i].1 == '\u{feff}') && b[i].1 != '\n' && !(b[i].1 == '\r' && i + 1 < b.len() && b[i + 1].1 == '\n') { i += 1; }
            push_trivia!((Tr::Ws, pos(st), pos(i)));
        } else if c == '#' {
            while i < b.len() && b[i].1 != '\n' && !(b[i].1 == '\r' && i + 1 < b.len() && b[i + 1].1 == '\n') { i += 1; }
            push_trivia!((Tr::Comment, pos(st), pos(i)));
        } else {
            let k = match c {
                '(' | '[' => { i += 1; K::LParen }
                ')' | ']' => { i += 1; K::RParen }
                '{' => { i += 1; K::LCurly }
                '}' => { i += 1; K::RCurly }
                ',' => { i += 1; K::Comma }
                '"' | '\'' => {
                    i += 1;
                    loop {
                        if i >= b.len() { return Err("unterminated string".into()); }
                        if b[i].1 == '\\' { i += 2; continue; }
                        if b[i].1 == c { i += 1; break; }
                        i += 1;
                    }
                    K::Str
                }
                c if is_op(c) => { while i < b.len() && is_op(b[i].1) { i += 1; } K::Op }
                _ => { while i < b.len() && !b[i].1.is_whitespace() && !is_op(b[i].1) && !"#\"'(){}[],\u{feff}".contains(b[i].1) { i += 1; } K::Word }
            };
            if i > b.len() { i = b.len(); }
            toks.push(Tok { k, start: pos(st), end: pos(i), leading: std::mem::take(&mut trivia), trailing: vec![] });
            trailing_ok = true;
        }
    }
    Ok(Lexed { toks, eof_leading: trivia })
}
#[derive(Clone, Debug)]
pub enum Item { Tok(usize), Block(Block) }
#[derive(Clone, Debug)]
pub struct Block { pub open: usize, pub exprs: Vec<Expr>, pub close: usize }
#[derive(Clone, Debug)]
pub struct Expr { pub items: Vec<Item> }
#[derive(Clone, Debug)]
pub struct Program { pub lexed: Lexed, pub exprs: Vec<Expr> }
fn has_nl(t: &Tok) -> bool { t.leading.iter().any(|x| x.0 == Tr::Nl) }
fn cont(src: &str, t: &Tok) -> bool { (t.k == K::Op && !matches!(&src[t.start..t.end], ";" )) || t.k == K::Comma }
struct P<'a> { src: &'a str, l: &'a Lexed, i: usize }
impl P<'_> {
    fn list(&mut self, nested: bool) -> Result<Vec<Expr>, String> {
        let mut v = vec![];
        loop {
            if self.i >= self.l.toks.len() { if nested { return Err("missing }".into()); } return Ok(v); }
            if self.l.toks[self.i].k == K::RCurly { if nested { return Ok(v); } return Err("unexpected }".into()); }
            v.push(self.expr()?);
        }
    }
    fn expr(&mut self) -> Result<Expr, String> {
        let mut items = vec![];
        let mut depth = 0;
        let mut prev: Option<usize> = None;
        loop {
            let Some(t) = self.l.toks.get(self.i) else { break };
            if let Some(p) = prev { if depth == 0 && has_nl(t) && !cont(self.src, &self.l.toks[p]) { break; } }
            match t.k {
                K::RCurly => { if depth > 0 { return Err("unexpected } in ()".into()); } break; }
                K::LCurly => { let open = self.i; self.i += 1; let exprs = self.list(true)?; let close = self.i; self.i += 1; items.push(Item::Block(Block { open, exprs, close })); prev = Some(close); continue; }
                K::LParen => depth += 1,
                K::RParen => { depth -= 1; if depth < 0 { return Err("unexpected )".into()); } }
                _ => {}
            }
            items.push(Item::Tok(self.i));
            prev = Some(self.i);
            self.i += 1;
        }
        if depth != 0 { return Err("missing )".into()); }
        if let Some(p) = prev { if cont(self.src, &self.l.toks[p]) && self.l.toks[p].k == K::Op { return Err("incomplete expression".into()); } }
        Ok(Expr { items })
    }
}
pub fn parse(src: &str) -> Result<Program, String> {
    let lexed = lex(src)?;
    let mut p = P { src, l: &lexed, i: 0 };
    let exprs = p.list(false)?;
    Ok(Program { exprs, lexed })
}
/// Function names whose membership in the skip and table lists `opts()` shows.
pub const VOCAB: &[&str] = &["alpha", "beta", "fcase", "gamma", "my_table", "omega", "skip_me", "tribble", "zeta"];
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Opts { pub tab: bool, pub width: u32, pub crlf: bool, pub line_width: u32, pub persistent: bool, pub assign: Assign, pub skip: Option<Vec<String>>, pub table: Option<Vec<String>> }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assign { Arrow, Equal, Preserve }
impl Default for Opts { fn default() -> Self { Opts { tab: false, width: 2, crlf: false, line_width: 80, persistent: true, assign: Assign::Arrow, skip: None, table: Some(vec!["fcase".into(), "tribble".into()]) } } }
impl Opts {
    pub fn describe(&self) -> String {
        let l = |v: &Option<Vec<String>>| match v { None => "[]".to_string(), Some(v) => format!("[{}]", v.join(" ")) };
        format!("\"{} {} {} {} {:?} skip={} table={}\"", if self.tab { "tab" } else { "space" }, self.width, self.line_width, if self.persistent { "respect" } else { "ignore" }, self.assign, l(&self.skip), l(&self.table))
    }
}
struct F<'a> { src: &'a str, p: &'a Program, o: &'a Opts, out: String, base: usize, err: bool }
impl F<'_> {
    fn indent(&mut self, d: usize) { let d = d + self.base; if self.o.tab { for _ in 0..d { self.out.push('\t') } } else { for _ in 0..d * self.o.width as usize { self.out.push(' ') } } }
    fn txt(&self, t: &Tok) -> &str { &self.src[t.start..t.end] }
    fn nl(&mut self) { while self.out.ends_with(' ') { self.out.pop(); } self.out.push('\n'); }
    /// Own-line comments (and at most one blank line) in a leading trivia list; the cursor is at line start.
    fn leading(&mut self, tr: &[(Tr, usize, usize)], d: usize, first: bool, last: bool) {
        let mut nls = 0;
        let mut any = !first;
        for t in tr {
            match t.0 {
                Tr::Nl => nls += 1,
                Tr::Ws => {}
                Tr::Comment => {
                    if any && nls >= 2 { self.out.push('\n'); }
                    nls = 0;
                    self.indent(d);
                    let s = self.src[t.1..t.2].trim_end().to_string();
                    self.out.push_str(&s);
                    self.out.push('\n');
                    any = true;
                }
            }
        }
        if any && nls >= 2 && !last { self.out.push('\n'); }
    }
    fn trailing(&mut self, t: &Tok) -> bool { let mut c = false; for x in &t.trailing { if x.0 == Tr::Comment { if !self.out.ends_with(' ') { self.out.push(' '); } let s = self.src[x.1..x.2].trim_end().to_string(); self.out.push_str(&s); c = true; } } c }
    fn list(&mut self, v: &[Expr], d: usize, mut first: bool) {
        for e in v {
            let ft = self.first(e);
            let lead = self.p.lexed.toks[ft].leading.clone();
            // the newline ending the previous line is not a blank line
            self.leading(&lead, d, first, false);
            first = false;
            self.indent(d);
            self.expr(e, d);
            self.nl();
        }
    }
    fn first(&self, e: &Expr) -> usize { match &e.items[0] { Item::Tok(t) => *t, Item::Block(b) => b.open } }
    fn expr(&mut self, e: &Expr, d: usize) {
        let toks = &self.p.lexed.toks;
        let mut prev: Option<usize> = None;
        let mut depth = 0;
        let mut i = 0;
        while i < e.items.len() {
            let (ti, close) = match &e.items[i] { Item::Tok(t) => (*t, *t), Item::Block(b) => (b.open, b.close) };
            let t = &toks[ti];
            if let Some(p) = prev {
                // comments between the two tokens force a line break
                let mut broke = false;
                if toks[p].trailing.iter().any(|x| x.0 == Tr::Comment) { let pt = toks[p].clone(); self.trailing(&pt); self.nl(); self.indent(d + 1); broke = true; }
                for x in &t.leading { if x.0 == Tr::Comment { if !broke { self.nl(); self.indent(d + 1); } let s = self.src[x.1..x.2].trim_end().to_string(); self.out.push_str(&s); self.nl(); self.indent(d + 1); broke = true; } }
                if !broke {
                    let a = &toks[p];
                    let unary = a.k == K::Op && { let tight = matches!(self.txt(a), ":" | "::" | ":::" | "$" | "@" | "^" | "!"); tight };
                    let tight_b = t.k == K::Op && matches!(self.txt(t), ":" | "::" | ":::" | "$" | "@" | "^");
                    let sp = if unary || tight_b { false } else { match (a.k, t.k) { (K::LParen, _) | (_, K::RParen) | (_, K::Comma) => false, (K::Word | K::RParen | K::Str, K::LParen) => false, _ => true } };
                    if sp { self.out.push(' '); }
                }
            }
            match &e.items[i] {
                Item::Tok(_) => {
                    let s = self.txt(t).to_string();
                    if s == "FMTERR" { self.err = true; }
                    match t.k { K::LParen => depth += 1, K::RParen => depth -= 1, _ => {} }
                    let s = if depth == 0 && t.k == K::Op { match (s.as_str(), self.o.assign) { ("=", Assign::Arrow) => "<-".into(), ("<-", Assign::Equal) => "=".into(), _ => s } } else { s };
                    self.out.push_str(&s);
                    // opts(...) shows the options in force
                    if s == "opts" { if let (Some(Item::Tok(n)), true) = (e.items.get(i + 1), true) { if toks[*n].k == K::LParen && self.txt(&toks[*n]) == "(" {
                        let mut k = i + 2; let mut dd = 1; let mut simple = true;
                        while k < e.items.len() && dd > 0 { match &e.items[k] { Item::Tok(x) => { match toks[*x].k { K::LParen => dd += 1, K::RParen => dd -= 1, _ => {} } if dd > 0 && toks[*x].k != K::Str { simple = false } if toks[*x].leading.iter().any(|c| c.0 == Tr::Comment) { simple = false } } _ => simple = false } k += 1; }
                        if simple && dd == 0 && k - 1 - (i + 2) <= 1 && !toks[*n].trailing.iter().any(|c| c.0 == Tr::Comment) && !t.trailing.iter().any(|c| c.0 == Tr::Comment) && !toks[*n].leading.iter().any(|c| c.0 == Tr::Comment)
                            && (k - 1 == i + 2 || match &e.items[i + 2] { Item::Tok(x) => !toks[*x].trailing.iter().any(|c| c.0 == Tr::Comment), _ => false }) {
                            self.out.push('('); let ds = self.o.describe(); self.out.push_str(&ds); self.out.push(')');
                            let Item::Tok(cl) = &e.items[k - 1] else { unreachable!() };
                            prev = Some(*cl);
                            i = k;
                            continue;
                        }
                    } } }
                }
                Item::Block(b) => {
                    let cl = toks[b.close].clone();
                    let op = toks[b.open].clone();
                    let empty = b.exprs.is_empty() && !cl.leading.iter().any(|x| x.0 == Tr::Comment) && !op.trailing.iter().any(|x| x.0 == Tr::Comment);
                    self.out.push('{');
                    if !empty {
                        self.trailing(&op);
                        self.nl();
                        self.list(&b.exprs, d + 1, true);
                        self.leading(&cl.leading, d + 1, b.exprs.is_empty(), true);
                        self.indent(d);
                    }
                    self.out.push('}');
                }
            }
            prev = Some(close);
            i += 1;
        }
        if let Some(p) = prev { let pt = toks[p].clone(); self.trailing(&pt); }
    }
}
/// Formats a program; `base` is the initial indentation level (the first line is not indented when base > 0).
pub fn format(src: &str, o: &Opts, base: usize) -> Result<Result<String, ()>, String> {
    let p = parse(src)?;
    let mut f = F { src, p: &p, o, out: String::new(), base, err: false };
    f.list(&p.exprs, 0, true);
    let tail = p.lexed.eof_leading.clone();
    f.leading(&tail, 0, p.exprs.is_empty(), true);
    if f.err { return Ok(Err(())); }
    let mut out = f.out;
    if base > 0 { out = out.trim_start_matches([' ', '\t']).to_string(); }
    if out.contains('\r') { out = out.replace("\r\n", "\n"); }
    if o.crlf { out = out.replace('\n', "\r\n"); }
    Ok(Ok(out))
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test] fn idempotent() {
        let pieces = ["a<-1", "x = f( a,b )", "# c", "\n", "\n\n", " ", "\t", "{", "}", "f(", ")", ",", "+", "opts()", "\"s\n t\"", "y", " # tc\n", "\r\n", "é", "𝒳", "if (a) {", "}\n", "opts(\"z\")"];
        let mut s = 12345u64;
        let mut ok = 0;
        for _ in 0..400000 {
            let mut src = String::new();
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            for _ in 0..(s >> 60) + 1 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); src += pieces[(s >> 33) as usize % pieces.len()]; }
            let o = Opts { tab: s & 8 == 0, crlf: s & 16 == 0, assign: [Assign::Arrow, Assign::Equal, Assign::Preserve][(s >> 5) as usize % 3], ..Default::default() };
            let Ok(Ok(a)) = format(&src, &o, 0) else { continue };
            ok += 1;
            let b = format(&a, &o, 0).expect(&format!("{src:?} -> {a:?}")).unwrap();
            assert_eq!(a, b, "{src:?}");
        }
        assert!(ok > 10000, "{ok}");
        println!("{}", format("a<-1\n\n\n# c\nf (x,{ y=2;\n# in\n})# t\n  opts( )", &Opts::default(), 0).unwrap().unwrap());
    }
}
