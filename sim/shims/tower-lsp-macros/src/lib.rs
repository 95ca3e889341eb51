//! `async_trait` for the tower-lsp stand-in, whose trait uses native async functions.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
