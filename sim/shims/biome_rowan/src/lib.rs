//! Stand-in for biome_rowan: a lossless, immutable, thread-safe syntax tree.
pub use biome_text_size::{TextLen, TextRange, TextSize};
use std::marker::PhantomData;
use std::sync::Arc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RawSyntaxKind(pub u16);
pub trait Language: Sized + Clone + Copy + std::fmt::Debug + Eq + Ord + std::hash::Hash + 'static { type Kind: Copy + Clone + PartialEq + Eq + std::fmt::Debug + From<u16> + Into<u16>; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
#[derive(Clone, Debug)]
pub struct TriviaPiece { pub kind: TriviaPieceKind, pub length: TextSize }
impl TriviaPiece { pub fn new(kind: TriviaPieceKind, length: impl Into<TextSize>) -> Self { TriviaPiece { kind, length: length.into() } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ElemId { Node(u32), Token(u32) }
#[derive(Debug)]
pub struct NodeData { pub kind: u16, pub parent: Option<u32>, pub index: u32, pub children: Vec<ElemId>, pub start: u32, pub end: u32 }
#[derive(Debug)]
pub struct TokenData { pub kind: u16, pub parent: u32, pub index: u32, pub start: u32, pub leading: Vec<TriviaPiece>, pub len: u32, pub trailing: Vec<TriviaPiece> }
impl TokenData {
    fn lead_len(&self) -> u32 { self.leading.iter().map(|p| u32::from(p.length)).sum() }
    fn trail_len(&self) -> u32 { self.trailing.iter().map(|p| u32::from(p.length)).sum() }
    fn end(&self) -> u32 { self.start + self.lead_len() + self.len + self.trail_len() }
}
#[derive(Debug, Default)]
pub struct Tree { pub text: String, pub nodes: Vec<NodeData>, pub tokens: Vec<TokenData> }
/// Builds a tree bottom-up in source order.
#[derive(Default)]
pub struct TreeBuilder { tree: Tree, stack: Vec<u32> }
impl TreeBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn start_node(&mut self, kind: u16) -> u32 {
        let id = self.tree.nodes.len() as u32;
        let parent = self.stack.last().copied();
        let mut index = 0;
        if let Some(p) = parent { index = self.tree.nodes[p as usize].children.len() as u32; self.tree.nodes[p as usize].children.push(ElemId::Node(id)); }
        let start = self.tree.text.len() as u32;
        self.tree.nodes.push(NodeData { kind, parent, index, children: vec![], start, end: start });
        self.stack.push(id);
        id
    }
    pub fn set_kind(&mut self, id: u32, kind: u16) { self.tree.nodes[id as usize].kind = kind; }
    pub fn token(&mut self, kind: u16, leading: Vec<TriviaPiece>, text_with_trivia: &str, trailing: Vec<TriviaPiece>) {
        let p = *self.stack.last().expect("token outside a node");
        let id = self.tree.tokens.len() as u32;
        let index = self.tree.nodes[p as usize].children.len() as u32;
        self.tree.nodes[p as usize].children.push(ElemId::Token(id));
        let start = self.tree.text.len() as u32;
        let ll: u32 = leading.iter().map(|p| u32::from(p.length)).sum();
        let tl: u32 = trailing.iter().map(|p| u32::from(p.length)).sum();
        self.tree.text.push_str(text_with_trivia);
        self.tree.tokens.push(TokenData { kind, parent: p, index, start, leading, len: text_with_trivia.len() as u32 - ll - tl, trailing });
    }
    pub fn finish_node(&mut self) { let id = self.stack.pop().unwrap(); self.tree.nodes[id as usize].end = self.tree.text.len() as u32; }
    pub fn finish(self) -> Arc<Tree> { Arc::new(self.tree) }
    /// Copies a subtree from another tree.
    pub fn copy<L: Language>(&mut self, node: &SyntaxNode<L>) {
        self.start_node(node.data().kind);
        for c in &node.data().children {
            match c {
                ElemId::Node(n) => self.copy(&SyntaxNode::<L>::new(node.tree.clone(), *n)),
                ElemId::Token(t) => { let td = &node.tree.tokens[*t as usize]; let s = &node.tree.text[td.start as usize..td.end() as usize]; self.token(td.kind, td.leading.clone(), s, td.trailing.clone()); }
            }
        }
        self.finish_node();
    }
}
#[derive(Clone)]
pub struct SyntaxNode<L: Language> { tree: Arc<Tree>, id: u32, _l: PhantomData<fn() -> L> }
impl<L: Language> PartialEq for SyntaxNode<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.tree, &o.tree) && self.id == o.id } }
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> std::hash::Hash for SyntaxNode<L> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (Arc::as_ptr(&self.tree) as usize, self.id).hash(h) } }
#[derive(Clone)]
pub struct SyntaxToken<L: Language> { tree: Arc<Tree>, id: u32, _l: PhantomData<fn() -> L> }
impl<L: Language> PartialEq for SyntaxToken<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.tree, &o.tree) && self.id == o.id } }
impl<L: Language> Eq for SyntaxToken<L> {}
#[derive(Clone, PartialEq, Eq)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
pub enum WalkEvent<T> { Enter(T), Leave(T) }
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }
fn ts(v: u32) -> TextSize { TextSize::from(v) }
impl<L: Language> SyntaxNode<L> {
    pub fn new(tree: Arc<Tree>, id: u32) -> Self { SyntaxNode { tree, id, _l: PhantomData } }
    pub fn new_root(tree: Arc<Tree>) -> Self { Self::new(tree, 0) }
    fn data(&self) -> &NodeData { &self.tree.nodes[self.id as usize] }
    pub fn kind(&self) -> L::Kind { L::Kind::from(self.data().kind) }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { self.data().parent.map(|p| Self::new(self.tree.clone(), p)) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> { std::iter::successors(Some(self.clone()), |n| n.parent()) }
    pub fn index(&self) -> usize { self.data().index as usize }
    pub fn children(&self) -> impl Iterator<Item = SyntaxNode<L>> + '_ { self.data().children.iter().filter_map(|c| match c { ElemId::Node(n) => Some(Self::new(self.tree.clone(), *n)), _ => None }) }
    pub fn children_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + '_ { self.data().children.iter().map(|c| match c { ElemId::Node(n) => NodeOrToken::Node(Self::new(self.tree.clone(), *n)), ElemId::Token(t) => NodeOrToken::Token(SyntaxToken { tree: self.tree.clone(), id: *t, _l: PhantomData }) }) }
    pub fn tokens(&self) -> impl Iterator<Item = SyntaxToken<L>> + '_ { self.children_with_tokens().filter_map(|c| match c { NodeOrToken::Token(t) => Some(t), _ => None }) }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> { let x = self.children().next(); x }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> { let x = self.children().last(); x }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> { let p = self.parent()?; let x = p.children().find(|c| c.index() > self.index()); x }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> { let p = self.parent()?; let x = p.children().filter(|c| c.index() < self.index()).last(); x }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> { self.preorder().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { for c in self.children_with_tokens() { match c { NodeOrToken::Token(t) => return Some(t), NodeOrToken::Node(n) => if let Some(t) = n.first_token() { return Some(t) } } } None }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { let all: Vec<_> = self.children_with_tokens().collect(); for c in all.into_iter().rev() { match c { NodeOrToken::Token(t) => return Some(t), NodeOrToken::Node(n) => if let Some(t) = n.last_token() { return Some(t) } } } None }
    pub fn text_range_with_trivia(&self) -> TextRange { TextRange::new(ts(self.data().start), ts(self.data().end)) }
    pub fn text_range(&self) -> TextRange { self.text_range_with_trivia() }
    pub fn text_trimmed_range(&self) -> TextRange {
        let s = self.first_token().map(|t| t.text_trimmed_range().start()).unwrap_or(ts(self.data().start));
        let e = self.last_token().map(|t| t.text_trimmed_range().end()).unwrap_or(ts(self.data().end));
        TextRange::new(s.min(e), e)
    }
    pub fn text_with_trivia(&self) -> String { self.tree.text[self.data().start as usize..self.data().end as usize].to_string() }
    pub fn text(&self) -> String { self.text_with_trivia() }
    pub fn text_trimmed(&self) -> String { self.tree.text[self.text_trimmed_range()].to_string() }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> { self.first_token().map(|t| t.leading_trivia()) }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { self.last_token().map(|t| t.trailing_trivia()) }
    pub fn preorder(&self) -> Preorder<L> { Preorder { root: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip: false } }
    pub fn detach(self) -> Self { let mut b = TreeBuilder::new(); b.copy(&self); SyntaxNode::new_root(b.finish()) }
}
fn fmt_node<L: Language>(n: &SyntaxNode<L>, d: usize, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let nl = if f.alternate() { "\n" } else { " " };
    write!(f, "{}{:?}@{:?}{nl}", "  ".repeat(if f.alternate() { d } else { 0 }), n.kind(), n.text_range_with_trivia())?;
    for c in n.children_with_tokens() { match c { NodeOrToken::Node(n) => fmt_node(&n, d + 1, f)?, NodeOrToken::Token(t) => write!(f, "{}{:?}@{:?} {:?}{nl}", "  ".repeat(if f.alternate() { d + 1 } else { 0 }), t.kind(), t.text_range(), t.text())? } }
    Ok(())
}
impl<L: Language> std::fmt::Debug for SyntaxNode<L> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_node(self, 0, f) } }
pub struct Preorder<L: Language> { root: SyntaxNode<L>, next: Option<WalkEvent<SyntaxNode<L>>>, skip: bool }
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) { self.skip = true; }
    fn leave_next(&self, n: SyntaxNode<L>) -> Option<WalkEvent<SyntaxNode<L>>> { if n == self.root { None } else if let Some(s) = n.next_sibling() { Some(WalkEvent::Enter(s)) } else { n.parent().map(WalkEvent::Leave) } }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        // `next` holds the event to be delivered unless the caller skipped the subtree just entered
        if self.skip {
            self.skip = false;
            // the pending event descends into (or leaves) the node whose subtree is skipped
            if let Some(ev) = self.next.take() {
                self.next = match ev {
                    WalkEvent::Enter(first_child) => first_child.parent().map(WalkEvent::Leave),
                    leave => Some(leave),
                };
            }
        }
        let ev = self.next.take()?;
        self.next = match &ev {
            WalkEvent::Enter(n) => match n.first_child() { Some(c) => Some(WalkEvent::Enter(c)), None => Some(WalkEvent::Leave(n.clone())) },
            WalkEvent::Leave(n) => self.leave_next(n.clone()),
        };
        Some(ev)
    }
}
impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<TI, RI>(kind: L::Kind, text: &str, leading: TI, trailing: RI) -> Self where TI: IntoIterator<Item = TriviaPiece>, RI: IntoIterator<Item = TriviaPiece> {
        let mut b = TreeBuilder::new();
        b.start_node(0);
        b.token(kind.into(), leading.into_iter().collect(), text, trailing.into_iter().collect());
        b.finish_node();
        SyntaxToken { tree: b.finish(), id: 0, _l: PhantomData }
    }
    pub fn data(&self) -> &TokenData { &self.tree.tokens[self.id as usize] }
    pub fn kind(&self) -> L::Kind { L::Kind::from(self.data().kind) }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { Some(SyntaxNode::new(self.tree.clone(), self.data().parent)) }
    pub fn text_range(&self) -> TextRange { TextRange::new(ts(self.data().start), ts(self.data().end())) }
    pub fn text_trimmed_range(&self) -> TextRange { let s = self.data().start + self.data().lead_len(); TextRange::new(ts(s), ts(s + self.data().len)) }
    pub fn text(&self) -> &str { &self.tree.text[self.text_range()] }
    pub fn text_trimmed(&self) -> &str { &self.tree.text[self.text_trimmed_range()] }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: true } }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: false } }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> { self.id.checked_sub(1).map(|id| SyntaxToken { tree: self.tree.clone(), id, _l: PhantomData }) }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> { if (self.id as usize) + 1 < self.tree.tokens.len() { Some(SyntaxToken { tree: self.tree.clone(), id: self.id + 1, _l: PhantomData }) } else { None } }
}
impl<L: Language> std::fmt::Debug for SyntaxToken<L> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text()) } }
#[derive(Clone)]
pub struct SyntaxTrivia<L: Language> { token: SyntaxToken<L>, leading: bool }
impl<L: Language> SyntaxTrivia<L> {
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let d = self.token.data();
        let (list, mut pos) = if self.leading { (&d.leading, d.start) } else { (&d.trailing, d.start + d.lead_len() + d.len) };
        let mut v = vec![];
        for p in list { let n = u32::from(p.length); v.push(SyntaxTriviaPiece { token: self.token.clone(), kind: p.kind, range: TextRange::new(ts(pos), ts(pos + n)) }); pos += n; }
        v.into_iter()
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().next() }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().last() }
    pub fn is_empty(&self) -> bool { self.pieces().len() == 0 }
    pub fn has_skipped(&self) -> bool { false }
    pub fn text(&self) -> String { self.pieces().map(|p| p.text().to_string()).collect() }
}
#[derive(Clone)]
pub struct SyntaxTriviaPiece<L: Language> { token: SyntaxToken<L>, kind: TriviaPieceKind, range: TextRange }
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind { self.kind }
    pub fn is_newline(&self) -> bool { self.kind == TriviaPieceKind::Newline }
    pub fn is_whitespace(&self) -> bool { self.kind == TriviaPieceKind::Whitespace }
    pub fn is_comments(&self) -> bool { matches!(self.kind, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment) }
    pub fn is_skipped(&self) -> bool { false }
    pub fn text_range(&self) -> TextRange { self.range }
    pub fn text_len(&self) -> TextSize { self.range.len() }
    pub fn text(&self) -> &str { &self.token.tree.text[self.range] }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { NodeOrToken::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { NodeOrToken::Token(n) } }
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
    pub fn text_trimmed_range(&self) -> TextRange { match self { NodeOrToken::Node(n) => n.text_trimmed_range(), NodeOrToken::Token(t) => t.text_trimmed_range() } }
    pub fn text_range(&self) -> TextRange { match self { NodeOrToken::Node(n) => n.text_range_with_trivia(), NodeOrToken::Token(t) => t.text_range() } }
    pub fn text_range_with_trivia(&self) -> TextRange { self.text_range() }
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> { match self { NodeOrToken::Node(n) => n.first_leading_trivia(), NodeOrToken::Token(t) => Some(t.leading_trivia()) } }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { match self { NodeOrToken::Node(n) => n.last_trailing_trivia(), NodeOrToken::Token(t) => Some(t.trailing_trivia()) } }
    pub fn as_node(&self) -> Option<&SyntaxNode<L>> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&SyntaxToken<L>> { match self { NodeOrToken::Token(n) => Some(n), _ => None } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { NodeOrToken::Node(n) => n.parent(), NodeOrToken::Token(t) => t.parent() } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SyntaxError { MissingRequiredChild }
impl std::fmt::Display for SyntaxError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("missing required child") } }
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;
pub trait AstNode: Clone { type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized;
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self where Self: Sized { Self::cast(syntax).expect("cast") }
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized { Self::cast(syntax.clone()) }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language> where Self: Sized;
    fn range(&self) -> TextRange { self.syntax().text_trimmed_range() }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { self.syntax().parent().and_then(T::cast) }
}
pub trait AstNodeList { type Language: Language; type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<Self::Node> { self.syntax_list().children().filter_map(Self::Node::cast).collect::<Vec<_>>().into_iter() }
    fn len(&self) -> usize { self.iter().len() } fn is_empty(&self) -> bool { self.len() == 0 } fn first(&self) -> Option<Self::Node> { self.iter().next() } fn last(&self) -> Option<Self::Node> { self.iter().last() } }
