//! Stand-in for colored.
use std::fmt;
pub mod control { use std::sync::atomic::*; pub(crate) static ON: AtomicBool = AtomicBool::new(false); pub fn set_override(b: bool) { ON.store(b, Ordering::SeqCst) } pub fn unset_override() { ON.store(false, Ordering::SeqCst) } }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString { s: String, codes: Vec<&'static str> }
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if self.codes.is_empty() || !control::ON.load(std::sync::atomic::Ordering::SeqCst) { return f.pad(&self.s); }
    write!(f, "\x1b[{}m{}\x1b[0m", self.codes.join(";"), self.s) } }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.s } }
impl From<&str> for ColoredString { fn from(s: &str) -> Self { ColoredString { s: s.into(), codes: vec![] } } }
impl From<String> for ColoredString { fn from(s: String) -> Self { ColoredString { s, codes: vec![] } } }
pub trait Colorize: Sized { fn into_cs(self) -> ColoredString;
    fn add(self, c: &'static str) -> ColoredString { let mut x = self.into_cs(); x.codes.push(c); x }
    fn underline(self) -> ColoredString { self.add("4") } fn bold(self) -> ColoredString { self.add("1") } fn dimmed(self) -> ColoredString { self.add("2") } fn italic(self) -> ColoredString { self.add("3") }
    fn red(self) -> ColoredString { self.add("31") } fn green(self) -> ColoredString { self.add("32") } fn yellow(self) -> ColoredString { self.add("33") } fn blue(self) -> ColoredString { self.add("34") } fn magenta(self) -> ColoredString { self.add("35") } fn purple(self) -> ColoredString { self.add("35") } fn white(self) -> ColoredString { self.add("37") } fn black(self) -> ColoredString { self.add("30") } fn bright_red(self) -> ColoredString { self.add("91") } fn bright_green(self) -> ColoredString { self.add("92") } fn bright_yellow(self) -> ColoredString { self.add("93") } fn bright_blue(self) -> ColoredString { self.add("94") } fn bright_black(self) -> ColoredString { self.add("90") } fn bright_white(self) -> ColoredString { self.add("97") } fn strikethrough(self) -> ColoredString { self.add("9") } fn reversed(self) -> ColoredString { self.add("7") }
    fn cyan(self) -> ColoredString { self.add("36") } fn normal(self) -> ColoredString { let mut x = self.into_cs(); x.codes.clear(); x } fn clear(self) -> ColoredString { self.normal() } }
impl Colorize for &str { fn into_cs(self) -> ColoredString { self.into() } }
impl Colorize for ColoredString { fn into_cs(self) -> ColoredString { self } }
