//! Stand-in for the lsp crate in the command-line workspace.
pub async fn start_lsp<I, O>(_read: I, _write: O) {}
