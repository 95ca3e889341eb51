//! Stand-in for tree-sitter: one node per source line whose kind is the line itself, so that a dump of the
//! tree shows the exact text that was parsed. A text containing TSERR has an error.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Language;
#[derive(Debug)]
pub struct LanguageError;
impl std::fmt::Display for LanguageError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("language") } }
impl std::error::Error for LanguageError {}
#[derive(Default)]
pub struct Parser(bool);
#[derive(Clone, Debug)]
pub struct Tree { lines: Vec<String>, bytes: Vec<usize>, error: bool }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Point { pub row: usize, pub column: usize }
impl Point { pub const fn new(row: usize, column: usize) -> Self { Point { row, column } } }
#[derive(Clone, Copy)]
pub struct Node<'t> { tree: &'t Tree, line: Option<usize> }
#[derive(Clone)]
pub struct TreeCursor<'t> { tree: &'t Tree, line: Option<usize> }
impl Parser {
    pub fn new() -> Self { Self::default() }
    pub fn set_language(&mut self, _l: &Language) -> Result<(), LanguageError> { self.0 = true; Ok(()) }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old: Option<&Tree>) -> Option<Tree> {
        if !self.0 { return None; }
        let s = String::from_utf8_lossy(text.as_ref()).into_owned();
        let lines: Vec<String> = s.split('\n').map(|l| format!("{l:?}")).collect();
        Some(Tree { bytes: s.split('\n').map(|l| l.len()).collect(), lines, error: s.contains("TSERR") })
    }
}
impl Tree { pub fn root_node(&self) -> Node<'_> { Node { tree: self, line: None } } pub fn walk(&self) -> TreeCursor<'_> { self.root_node().walk() } }
impl<'t> Node<'t> {
    pub fn has_error(&self) -> bool { self.tree.error }
    pub fn is_error(&self) -> bool { self.tree.error }
    pub fn is_missing(&self) -> bool { false }
    pub fn is_named(&self) -> bool { true }
    pub fn kind(&self) -> &'t str { match self.line { None => "program", Some(i) => &self.tree.lines[i] } }
    pub fn start_position(&self) -> Point { Point { row: self.line.unwrap_or(0), column: 0 } }
    pub fn end_position(&self) -> Point { let i = self.line.unwrap_or(self.tree.lines.len() - 1); Point { row: i, column: self.tree.bytes[i] } }
    pub fn child_count(&self) -> usize { if self.line.is_none() { self.tree.lines.len() } else { 0 } }
    pub fn child(&self, i: usize) -> Option<Node<'t>> { if self.line.is_none() && i < self.tree.lines.len() { Some(Node { tree: self.tree, line: Some(i) }) } else { None } }
    pub fn walk(&self) -> TreeCursor<'t> { TreeCursor { tree: self.tree, line: self.line } }
}
impl<'t> TreeCursor<'t> {
    pub fn node(&self) -> Node<'t> { Node { tree: self.tree, line: self.line } }
    pub fn field_name(&self) -> Option<&'static str> { None }
    pub fn goto_first_child(&mut self) -> bool { if self.line.is_none() { self.line = Some(0); true } else { false } }
    pub fn goto_next_sibling(&mut self) -> bool { match self.line { Some(i) if i + 1 < self.tree.lines.len() => { self.line = Some(i + 1); true } _ => false } }
    pub fn goto_parent(&mut self) -> bool { self.line.take().is_some() }
}
