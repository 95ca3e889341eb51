//! Stand-in for tree-sitter-r.
pub struct LanguageFn;
pub const LANGUAGE: LanguageFn = LanguageFn;
impl From<LanguageFn> for tree_sitter::Language { fn from(_: LanguageFn) -> Self { tree_sitter::Language } }
