//! Stand-in for `slog` in the verified build: same names, no output. The log
//! macros expand to nothing, so their arguments are not evaluated (logging is
//! dropped by the extraction; see DESIGN.md).
#[derive(Debug, Clone)]
pub struct Logger;
#[derive(Debug, Clone, Copy)]
pub struct Discard;
#[derive(Debug)]
pub struct Record<'a>(std::marker::PhantomData<&'a ()>);
pub type Key = &'static str;
pub type Result = std::result::Result<(), ()>;
pub trait Serializer {
    fn emit_str(&mut self, k: Key, v: &str) -> Result;
}
pub trait Value {
    fn serialize(&self, r: &Record<'_>, key: Key, s: &mut dyn Serializer) -> Result;
}
#[derive(Debug, Clone, Copy)]
pub struct Own;
pub trait Drain: Sized {
    fn ignore_res(self) -> Discard {
        Discard
    }
}
impl Drain for Discard {}
impl Logger {
    pub fn root<D>(_: D, _: Own) -> Self {
        Logger
    }
    pub fn new(_: &Logger, _: Own) -> Self {
        Logger
    }
}
#[macro_export]
macro_rules! o { ($($t:tt)*) => { $crate::Own } }
#[macro_export]
macro_rules! b { ($($t:tt)*) => { $crate::Own } }
#[macro_export]
macro_rules! kv { ($($t:tt)*) => { $crate::Own } }
#[macro_export]
macro_rules! crit { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! trace { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! debug { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! info { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! warn { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! error { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
#[macro_export]
macro_rules! log { ($l:expr, $($t:tt)*) => { { let _ = &$l; } } }
