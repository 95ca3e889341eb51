//! Stand-in for air_r_syntax: the node kinds of the toy language used by the simulator.
pub use biome_rowan::{TextLen, TextRange, TextSize, TokenAtOffset, TriviaPieceKind, WalkEvent};
use biome_rowan::{AstNode, AstNodeList, Language};
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u16)]
pub enum RSyntaxKind { TOMBSTONE, EOF, L_CURLY, R_CURLY, L_PAREN, R_PAREN, COMMA, IDENT, OPERATOR, STRING, NEWLINE, WHITESPACE, COMMENT, R_ROOT, R_EXPRESSION_LIST, R_BRACED_EXPRESSIONS, R_CALL, R_IDENTIFIER, R_BINARY_EXPRESSION, R_BOGUS_EXPRESSION, R_BOGUS, __LAST }
impl From<u16> for RSyntaxKind { fn from(d: u16) -> Self { assert!(d < RSyntaxKind::__LAST as u16); unsafe { std::mem::transmute(d) } } }
impl From<RSyntaxKind> for u16 { fn from(k: RSyntaxKind) -> u16 { k as u16 } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; }
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
macro_rules! node { ($N:ident, $p:pat) => {
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct $N { syntax: RSyntaxNode }
    impl AstNode for $N { type Language = RLanguage;
        fn can_cast(k: RSyntaxKind) -> bool { matches!(k, $p) }
        fn cast(syntax: RSyntaxNode) -> Option<Self> { if Self::can_cast(syntax.kind()) { Some($N { syntax }) } else { None } }
        fn syntax(&self) -> &RSyntaxNode { &self.syntax } fn into_syntax(self) -> RSyntaxNode { self.syntax } } } }
node!(RRoot, RSyntaxKind::R_ROOT);
node!(RExpressionList, RSyntaxKind::R_EXPRESSION_LIST);
node!(RBracedExpressions, RSyntaxKind::R_BRACED_EXPRESSIONS);
node!(AnyRExpression, RSyntaxKind::R_BRACED_EXPRESSIONS | RSyntaxKind::R_CALL | RSyntaxKind::R_IDENTIFIER | RSyntaxKind::R_BINARY_EXPRESSION | RSyntaxKind::R_BOGUS_EXPRESSION);
impl AstNodeList for RExpressionList { type Language = RLanguage; type Node = AnyRExpression; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for RExpressionList { type Item = AnyRExpression; type IntoIter = std::vec::IntoIter<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(&self) } }
impl IntoIterator for &RExpressionList { type Item = AnyRExpression; type IntoIter = std::vec::IntoIter<AnyRExpression>; fn into_iter(self) -> Self::IntoIter { AstNodeList::iter(self) } }
impl RRoot { pub fn expressions(&self) -> RExpressionList { self.syntax.children().find_map(RExpressionList::cast).unwrap() } }
