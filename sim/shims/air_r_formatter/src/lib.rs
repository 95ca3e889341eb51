//! Stand-in for air_r_formatter: the real options (context.rs) drive the toy formatter.
use air_r_syntax::{RLanguage, RSyntaxNode};
use biome_formatter::{FormatError, FormatLanguage, FormatOptions, FormatResult, Formatted};
pub mod comments {
    pub type RComments = biome_formatter::comments::Comments<air_r_syntax::RLanguage>;
    #[derive(Default, Debug, Clone, Copy)] pub struct FormatRLeadingComment;
    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct RCommentStyle;
}
#[path = "/repo/crates/air_r_formatter/src/context.rs"]
pub mod context;
use context::{RFormatContext, RFormatOptions};
pub fn toy_options(o: &RFormatOptions) -> toylang::Opts {
    let p = o.as_print_options();
    let names = |c: &dyn Fn(&str) -> bool| toylang::VOCAB.iter().filter(|n| c(n)).map(|n| n.to_string()).collect::<Vec<_>>();
    toylang::Opts { tab: p.indent_tab, width: p.indent_width as u32, crlf: match p.line_ending { biome_formatter::LineEnding::Crlf => true, _ => false }, line_width: p.line_width as u32,
        persistent: o.persistent_line_breaks().is_respect(),
        assign: match o.assignment_style() { settings::AssignmentStyle::Arrow => toylang::Assign::Arrow, settings::AssignmentStyle::Equal => toylang::Assign::Equal, settings::AssignmentStyle::Preserve => toylang::Assign::Preserve },
        skip: o.skip().map(|s| names(&|n| s.contains(n))), table: o.table().map(|s| names(&|n| s.contains(n))) }
}
fn run(options: &RFormatOptions, text: &str, base: usize) -> FormatResult<String> {
    match toylang::format(text, &toy_options(options), base) { Ok(Ok(s)) => Ok(s), _ => Err(FormatError::SyntaxError) }
}
pub fn format_node(options: RFormatOptions, root: &RSyntaxNode) -> FormatResult<Formatted<RFormatContext>> {
    let text = run(&options, &root.text_with_trivia(), 0)?;
    Ok(Formatted::new(text, RFormatContext::new(options, Default::default())))
}
#[derive(Debug, Clone)]
pub struct RFormatLanguage { options: RFormatOptions }
impl RFormatLanguage { pub fn new(options: RFormatOptions) -> Self { Self { options } } }
impl FormatLanguage for RFormatLanguage { type SyntaxLanguage = RLanguage; type Options = RFormatOptions;
    fn options(&self) -> &RFormatOptions { &self.options }
    fn format_text(&self, root: &biome_rowan::SyntaxNode<RLanguage>, base: usize) -> FormatResult<String> { run(&self.options, &root.text_with_trivia(), base) } }
