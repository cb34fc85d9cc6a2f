//! Offline stand-in for the few `Colorize` methods the repository's timers use.
pub trait Colorize {
    fn blue(self) -> String;
    fn yellow(self) -> String;
    fn red(self) -> String;
    fn green(self) -> String;
}
impl<T: AsRef<str>> Colorize for T {
    fn blue(self) -> String { self.as_ref().to_string() }
    fn yellow(self) -> String { self.as_ref().to_string() }
    fn red(self) -> String { self.as_ref().to_string() }
    fn green(self) -> String { self.as_ref().to_string() }
}
