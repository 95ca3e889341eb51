//! Stand-in for biome_formatter: option types, traits and the print pipeline air's own code goes through.
use biome_rowan::{Language, SyntaxNode, TextRange};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub enum IndentStyle { #[default] Tab, Space }
impl IndentStyle { pub const fn is_tab(&self) -> bool { matches!(self, IndentStyle::Tab) } pub const fn is_space(&self) -> bool { matches!(self, IndentStyle::Space) } }
impl std::fmt::Display for IndentStyle { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(match self { IndentStyle::Tab => "Tab", IndentStyle::Space => "Space" }) } }
impl std::str::FromStr for IndentStyle { type Err = &'static str; fn from_str(s: &str) -> Result<Self, Self::Err> { match s { "tab" => Ok(Self::Tab), "space" => Ok(Self::Space), _ => Err("Unsupported value for this option") } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub enum LineEnding { #[default] Lf, Crlf, Cr }
impl LineEnding {
    pub const fn as_str(&self) -> &'static str { match self { LineEnding::Lf => "\n", LineEnding::Crlf => "\r\n", LineEnding::Cr => "\r" } }
    pub const fn is_line_feed(&self) -> bool { matches!(self, LineEnding::Lf) }
    pub const fn is_carriage_return_line_feed(&self) -> bool { matches!(self, LineEnding::Crlf) }
    pub const fn is_carriage_return(&self) -> bool { matches!(self, LineEnding::Cr) }
}
impl std::fmt::Display for LineEnding { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(match self { LineEnding::Lf => "LF", LineEnding::Crlf => "CRLF", LineEnding::Cr => "CR" }) } }
impl std::str::FromStr for LineEnding { type Err = &'static str; fn from_str(s: &str) -> Result<Self, Self::Err> { match s { "lf" => Ok(Self::Lf), "crlf" => Ok(Self::Crlf), "cr" => Ok(Self::Cr), _ => Err("Value not supported for LineEnding") } } }
macro_rules! width { ($N:ident, $T:ty, $E:ident, $min:expr, $max:expr, $def:expr) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct $N($T);
    #[derive(Clone, Copy, Debug)] pub struct $E(pub $T);
    impl std::fmt::Display for $E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "out of range: {}", self.0) } }
    impl std::error::Error for $E {}
    impl $N { pub const MIN: $T = $min; pub const MAX: $T = $max; pub fn value(&self) -> $T { self.0 } pub fn get(&self) -> $T { self.0 } }
    impl std::fmt::Display for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) } }
    impl From<$N> for $T { fn from(v: $N) -> $T { v.0 } }
    impl Default for $N { fn default() -> Self { $N($def) } }
    impl TryFrom<$T> for $N { type Error = $E; fn try_from(v: $T) -> Result<Self, $E> { if v >= $min && v <= $max { Ok($N(v)) } else { Err($E(v)) } } } } }
width!(IndentWidth, u8, IndentWidthFromIntError, 0, 24, 2);
width!(LineWidth, u16, LineWidthFromIntError, 1, 320, 80);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FormatError { SyntaxError, RangeError { input: TextRange, tree: TextRange } }
impl std::fmt::Display for FormatError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("syntax error") } }
impl std::error::Error for FormatError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PrintError { InvalidDocument }
impl std::fmt::Display for PrintError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid document") } }
impl std::error::Error for PrintError {}
pub type FormatResult<T> = Result<T, FormatError>;
pub type PrintResult<T> = Result<T, PrintError>;
#[derive(Clone, Debug)]
pub struct TransformSourceMap;
pub mod comments {
    use std::marker::PhantomData;
    #[derive(Debug, Clone)] pub struct Comments<L>(pub PhantomData<L>);
    impl<L> Default for Comments<L> { fn default() -> Self { Comments(PhantomData) } }
    pub trait CommentStyle { type Language; }
}
pub mod printer {
    #[derive(Clone, Debug, Default)] pub struct PrinterOptions { pub indent_tab: bool, pub indent_width: u8, pub line_width: u16, pub line_ending: super::LineEnding }
    impl<'a, O: super::FormatOptions> From<&'a O> for PrinterOptions { fn from(o: &'a O) -> Self { PrinterOptions { indent_tab: o.indent_style() == super::IndentStyle::Tab, indent_width: o.indent_width().value(), line_width: o.line_width().value(), line_ending: o.line_ending() } } }
}
pub trait FormatOptions { fn indent_style(&self) -> IndentStyle; fn indent_width(&self) -> IndentWidth; fn line_width(&self) -> LineWidth; fn line_ending(&self) -> LineEnding; fn as_print_options(&self) -> printer::PrinterOptions; }
pub trait FormatContext { type Options: FormatOptions; fn options(&self) -> &Self::Options; fn source_map(&self) -> Option<&TransformSourceMap>; }
pub trait CstFormatContext: FormatContext { type Language: Language; type Style; type CommentRule; fn comments(&self) -> &comments::Comments<Self::Language>; }
pub trait FormatLanguage { type SyntaxLanguage: Language; type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    /// Stand-in hook: the text of `root` formatted from indentation level `base`, or a format error.
    fn format_text(&self, root: &SyntaxNode<Self::SyntaxLanguage>, base: usize) -> FormatResult<String>; }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Printed { code: String, range: Option<TextRange> }
impl Printed { pub fn new(code: String, range: Option<TextRange>) -> Self { Printed { code, range } } pub fn range(&self) -> Option<TextRange> { self.range } pub fn as_code(&self) -> &str { &self.code } pub fn into_code(self) -> String { self.code } }
#[derive(Clone, Debug)]
pub struct Document(pub String);
impl std::fmt::Display for Document { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
#[derive(Clone, Debug)]
pub struct Formatted<C> { text: String, context: C }
impl<C> Formatted<C> { pub fn new(text: String, context: C) -> Self { Formatted { text, context } } pub fn context(&self) -> &C { &self.context } pub fn print(&self) -> PrintResult<Printed> { Ok(Printed::new(self.text.clone(), None)) } pub fn into_document(self) -> Document { Document(self.text) } }
/// Formats a detached subtree; the initial indentation level is what the first line already has, as in biome.
pub fn format_sub_tree<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Printed> {
    let mut ws = 0usize;
    if let Some(t) = root.first_token() {
        let mut cur = String::new();
        for p in t.leading_trivia().pieces() { if p.is_newline() { cur.clear() } else if p.is_whitespace() { cur.push_str(p.text()) } else { cur.clear() } }
        let tabs = cur.chars().filter(|c| *c == '\t').count();
        let spaces = cur.chars().count() - tabs;
        let w = (language.options().indent_width().value() as usize).max(1);
        ws = tabs + spaces / w;
    }
    let code = language.format_text(root, ws)?;
    Ok(Printed::new(code, Some(root.text_trimmed_range())))
}
