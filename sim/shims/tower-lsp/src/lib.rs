//! Stand-in for tower-lsp (0.20, with the fork air uses): the same message loop, request lifecycle and
//! ordering, built on the real tokio and futures crates.
mod codec;
pub mod jsonrpc;
pub mod lsp_types;
mod service;
mod transport;
pub use service::{Client, ClientSocket, ExitedError, LanguageServer, LspService, LspServiceBuilder, Method};
pub use tower_lsp_macros::async_trait;
pub use transport::Server;
