#[cfg(feature = "derive")] pub use strum_macros::*;
pub trait IntoEnumIterator: Sized { type Iterator: Iterator<Item = Self>; fn iter() -> Self::Iterator; }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ParseError { VariantNotFound }
impl core::fmt::Display for ParseError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Matching variant not found") } }
impl std::error::Error for ParseError {}
