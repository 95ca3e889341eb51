//! Stand-in for air_r_factory.
use air_r_syntax::*;
use biome_rowan::{AstNode, SyntaxNode, TreeBuilder};
pub fn r_expression_list<I>(items: I) -> RExpressionList where I: IntoIterator<Item = AnyRExpression> {
    let mut b = TreeBuilder::new();
    b.start_node(RSyntaxKind::R_EXPRESSION_LIST.into());
    for i in items { b.copy(i.syntax()); }
    b.finish_node();
    RExpressionList::unwrap_cast(SyntaxNode::new_root(b.finish()))
}
pub struct RRootBuilder { list: RExpressionList, eof: RSyntaxToken }
pub fn r_root(list: RExpressionList, eof: RSyntaxToken) -> RRootBuilder { RRootBuilder { list, eof } }
impl RRootBuilder { pub fn with_bom_token(self, _t: RSyntaxToken) -> Self { self }
    pub fn build(self) -> RRoot {
        let mut b = TreeBuilder::new();
        b.start_node(RSyntaxKind::R_ROOT.into());
        b.copy(self.list.syntax());
        b.token(RSyntaxKind::EOF.into(), self.eof.data().leading.clone(), self.eof.text(), self.eof.data().trailing.clone());
        b.finish_node();
        RRoot::unwrap_cast(SyntaxNode::new_root(b.finish()))
    } }
