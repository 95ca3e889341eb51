//! The language server always has several threads.
pub fn num_threads() -> Option<std::num::NonZeroUsize> { std::num::NonZeroUsize::new(2) }
pub fn is_single_threaded() -> Option<bool> { Some(false) }
