//! Stand-in for biome_parser.
pub mod prelude { #[derive(Debug, Clone)] pub struct ParseDiagnostic { pub message: String, pub span: Option<biome_rowan::TextRange> } impl ParseDiagnostic { pub fn new(m: impl Into<String>, span: Option<biome_rowan::TextRange>) -> Self { ParseDiagnostic { message: m.into(), span } } } }
