//! Stand-in for biome_line_index (rust-analyzer's line-index).
use biome_text_size::{TextSize, TextRange};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[non_exhaustive]
pub enum WideEncoding { Utf16, Utf32 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex { pub newlines: Vec<TextSize>, wide: Vec<Vec<(u32, u32, u32)>>, len: TextSize }
fn measure(enc: WideEncoding, utf8: u32) -> u32 { match enc { WideEncoding::Utf16 => if utf8 == 4 { 2 } else { 1 }, WideEncoding::Utf32 => 1 } }
impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![TextSize::from(0)];
        let mut wide = vec![vec![]];
        let mut col = 0u32;
        for (i, c) in text.char_indices() {
            let n = c.len_utf8() as u32;
            if c == '\n' { newlines.push(TextSize::from(i as u32 + 1)); wide.push(vec![]); col = 0; continue; }
            if n > 1 { wide.last_mut().unwrap().push((col, col + n, n)); }
            col += n;
        }
        LineIndex { newlines, wide, len: TextSize::of(text) }
    }
    pub fn len(&self) -> u32 { self.newlines.len() as u32 }
    pub fn is_empty(&self) -> bool { self.newlines.is_empty() }
    pub fn line_col(&self, offset: TextSize) -> Option<LineCol> {
        let line = self.newlines.partition_point(|&it| it <= offset).checked_sub(1)?;
        let start = self.newlines[line];
        Some(LineCol { line: line as u32, col: (offset - start).into() })
    }
    // Same rule as biome's: the line must exist, the column is not checked.
    pub fn offset(&self, lc: LineCol) -> Option<TextSize> { self.newlines.get(lc.line as usize).map(|o| *o + TextSize::from(lc.col)) }
    pub fn to_wide(&self, enc: WideEncoding, lc: LineCol) -> Option<WideLineCol> {
        let mut col = lc.col;
        if let Some(w) = self.wide.get(lc.line as usize) { for &(_, end, n) in w { if end <= lc.col { col -= n - measure(enc, n); } else { break; } } }
        Some(WideLineCol { line: lc.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, lc: WideLineCol) -> LineCol {
        let mut col = lc.col;
        if let Some(w) = self.wide.get(lc.line as usize) { for &(start, _, n) in w { if col > start { col += n - measure(enc, n); } else { break; } } }
        LineCol { line: lc.line, col }
    }
    pub fn line_range(&self, line: u32) -> Option<TextRange> { let s = *self.newlines.get(line as usize)?; let e = self.newlines.get(line as usize + 1).copied().unwrap_or(self.len); Some(TextRange::new(s, e)) }
}
