//! Stand-in for biome_text_size (rust-analyzer's text-size).
use std::ops::*;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextSize(u32);
impl std::fmt::Debug for TextSize { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &str { fn text_len(self) -> TextSize { TextSize(self.len() as u32) } }
impl TextLen for &String { fn text_len(self) -> TextSize { TextSize(self.len() as u32) } }
impl TextLen for char { fn text_len(self) -> TextSize { TextSize(self.len_utf8() as u32) } }
impl TextSize {
    pub const fn new(v: u32) -> Self { TextSize(v) }
    pub fn of<T: TextLen>(t: T) -> Self { t.text_len() }
    pub fn checked_add(self, o: TextSize) -> Option<TextSize> { self.0.checked_add(o.0).map(TextSize) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextSize> { self.0.checked_sub(o.0).map(TextSize) }
}
impl From<u32> for TextSize { fn from(v: u32) -> Self { TextSize(v) } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> Self { v.0 } }
impl From<TextSize> for usize { fn from(v: TextSize) -> Self { v.0 as usize } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(v: usize) -> Result<Self, Self::Error> { Ok(TextSize(u32::try_from(v)?)) } }
macro_rules! ops { ($T:ident $f:ident $A:ident $g:ident $op:tt) => {
    impl $T for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize(self.0 $op o.0) } }
    impl $T<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize(self.0 $op o.0) } }
    impl $T<TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize(self.0 $op o.0) } }
    impl $T<&TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize(self.0 $op o.0) } }
    impl $A<&TextSize> for TextSize { fn $g(&mut self, o: &TextSize) { *self = TextSize(self.0 $op o.0) } }
    impl $A<TextSize> for TextRange { fn $g(&mut self, o: TextSize) { *self = *self $op o } }
    impl $A for TextSize { fn $g(&mut self, o: TextSize) { *self = TextSize(self.0 $op o.0) } }
} }
ops!(Add add AddAssign add_assign +);
ops!(Sub sub SubAssign sub_assign -);
impl std::iter::Sum for TextSize { fn sum<I: Iterator<Item = TextSize>>(i: I) -> TextSize { i.fold(TextSize(0), |a, b| a + b) } }
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextRange { start: TextSize, end: TextSize }
impl std::fmt::Debug for TextRange { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}..{}", self.start.0, self.end.0) } }
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> Self { assert!(start.0 <= end.0); TextRange { start, end } }
    pub fn at(offset: TextSize, len: TextSize) -> Self { Self::new(offset, offset + len) }
    pub fn empty(offset: TextSize) -> Self { TextRange { start: offset, end: offset } }
    pub fn up_to(end: TextSize) -> Self { Self::new(TextSize(0), end) }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub const fn len(self) -> TextSize { TextSize(self.end.0 - self.start.0) }
    pub const fn is_empty(self) -> bool { self.start.0 == self.end.0 }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> bool { self.start <= o.start && o.end <= self.end }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange { start: self.start.min(o.start), end: self.end.max(o.end) } }
    pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> { let s = self.start.max(o.start); let e = self.end.min(o.end); if e < s { None } else { Some(TextRange { start: s, end: e }) } }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
    pub fn add_start(self, o: TextSize) -> TextRange { TextRange::new(self.start + o, self.end) }
    pub fn add_end(self, o: TextSize) -> TextRange { TextRange::new(self.start, self.end + o) }
    pub fn sub_start(self, o: TextSize) -> TextRange { TextRange::new(self.start - o, self.end) }
    pub fn sub_end(self, o: TextSize) -> TextRange { TextRange::new(self.start, self.end - o) }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering { if self.end <= o.start { std::cmp::Ordering::Less } else if o.end <= self.start { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }
}
impl From<TextRange> for Range<usize> { fn from(r: TextRange) -> Self { r.start.0 as usize..r.end.0 as usize } }
impl Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { TextRange { start: self.start + o, end: self.end + o } } }
impl Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { TextRange { start: self.start - o, end: self.end - o } } }
impl IndexMut<TextRange> for str { fn index_mut(&mut self, r: TextRange) -> &mut str { &mut self[Range::<usize>::from(r)] } }
impl IndexMut<TextRange> for String { fn index_mut(&mut self, r: TextRange) -> &mut str { &mut self[Range::<usize>::from(r)] } }
impl RangeBounds<TextSize> for TextRange { fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) } fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) } }
impl<'a> std::iter::Sum<&'a TextSize> for TextSize { fn sum<I: Iterator<Item = &'a TextSize>>(i: I) -> TextSize { i.fold(TextSize(0), |a, b| a + b) } }
