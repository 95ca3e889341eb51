//! Stand-in for air_r_parser: parses the toy language into the stand-in syntax tree.
use air_r_syntax::{RLanguage, RRoot, RSyntaxKind as K, RSyntaxNode};
use biome_rowan::{AstNode, SyntaxNode, TreeBuilder, TriviaPiece, TriviaPieceKind as TK};
use std::sync::Arc;
#[allow(dead_code)]
#[path = "/repo/crates/air_r_parser/src/error.rs"]
mod error;
#[path = "/repo/crates/air_r_parser/src/options.rs"]
mod options;
pub use error::ParseError;
pub use options::RParserOptions;
#[derive(Clone)]
pub struct Parse { tree: Arc<biome_rowan::Tree>, error: Option<ParseError> }
impl std::fmt::Debug for Parse { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Parse({:?})", self.error) } }
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode { SyntaxNode::<RLanguage>::new_root(self.tree.clone()) }
    pub fn tree(&self) -> RRoot { RRoot::unwrap_cast(self.syntax()) }
    pub fn error(&self) -> Option<&ParseError> { self.error.as_ref() }
    pub fn into_error(self) -> Option<ParseError> { self.error }
    pub fn has_error(&self) -> bool { self.error.is_some() }
}
type Tr = Vec<(toylang::Tr, usize, usize)>;
struct B<'a> { src: &'a str, p: &'a toylang::Program, b: TreeBuilder }
fn trivia(t: &Tr) -> Vec<TriviaPiece> { t.iter().map(|x| TriviaPiece::new(match x.0 { toylang::Tr::Ws => TK::Whitespace, toylang::Tr::Nl => TK::Newline, toylang::Tr::Comment => TK::SingleLineComment }, (x.2 - x.1) as u32)).collect() }
fn lo(t: &Tr, d: usize) -> usize { t.first().map_or(d, |x| x.1) }
fn hi(t: &Tr, d: usize) -> usize { t.last().map_or(d, |x| x.2) }
impl B<'_> {
    fn tok(&mut self, i: usize) {
        let t = &self.p.lexed.toks[i];
        let k = match t.k { toylang::K::LCurly => K::L_CURLY, toylang::K::RCurly => K::R_CURLY, toylang::K::LParen => K::L_PAREN, toylang::K::RParen => K::R_PAREN, toylang::K::Comma => K::COMMA, toylang::K::Word => K::IDENT, toylang::K::Op => K::OPERATOR, toylang::K::Str => K::STRING };
        self.b.token(k.into(), trivia(&t.leading), &self.src[lo(&t.leading, t.start)..hi(&t.trailing, t.end)], trivia(&t.trailing));
    }
    fn list(&mut self, v: &[toylang::Expr]) {
        self.b.start_node(K::R_EXPRESSION_LIST.into());
        for e in v {
            if let [toylang::Item::Block(b)] = &e.items[..] { self.block(b); continue; }
            self.b.start_node(if e.items.len() == 1 { K::R_IDENTIFIER } else { K::R_CALL }.into());
            for it in &e.items { match it { toylang::Item::Tok(t) => self.tok(*t), toylang::Item::Block(b) => self.block(b) } }
            self.b.finish_node();
        }
        self.b.finish_node();
    }
    fn block(&mut self, b: &toylang::Block) {
        self.b.start_node(K::R_BRACED_EXPRESSIONS.into());
        self.tok(b.open); self.list(&b.exprs); self.tok(b.close);
        self.b.finish_node();
    }
}
pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let (p, error) = match toylang::parse(text) {
        Ok(p) => (p, None),
        Err(m) => (toylang::Program { lexed: toylang::Lexed { toks: vec![], eof_leading: vec![] }, exprs: vec![] }, Some(ParseError::new(m))),
    };
    let mut b = B { src: text, p: &p, b: TreeBuilder::new() };
    b.b.start_node(K::R_ROOT.into());
    b.list(&p.exprs);
    let e = &p.lexed.eof_leading;
    let n = if error.is_some() { 0 } else { text.len() };
    b.b.token(K::EOF.into(), trivia(e), &text[lo(e, n)..n], vec![]);
    b.b.finish_node();
    Parse { tree: b.b.finish(), error }
}
