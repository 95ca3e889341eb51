//! Stand-in for clap_complete (shell completions are outside the simulated behaviour).
#[derive(Clone, Copy, Debug, PartialEq, Eq, clap::ValueEnum)]
#[non_exhaustive]
pub enum Shell { Bash, Elvish, Fish, PowerShell, Zsh }
pub fn generate<G, S: Into<String>>(_g: G, _c: &mut clap::Command, name: S, buf: &mut dyn std::io::Write) { writeln!(buf, "# completions for {}", name.into()).ok(); }
