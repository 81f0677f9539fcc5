//! Stand-in for `failure` in the verified build: `Context` keeps its context
//! value and drops the cause and the backtrace.
use std::fmt;
#[derive(Debug)]
pub struct Context<D> { d: D }
impl<D> Context<D> {
    pub fn new(d: D) -> Self { Context { d } }
    pub fn get_context(&self) -> &D { &self.d }
}
impl<D: fmt::Display> fmt::Display for Context<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.d.fmt(f) }
}
pub trait ResultExt<T, E>: Sized {
    fn context<D>(self, d: D) -> Result<T, Context<D>>;
    fn with_context<D, F: FnOnce(&E) -> D>(self, f: F) -> Result<T, Context<D>>;
}
impl<T, E> ResultExt<T, E> for Result<T, E> {
    fn context<D>(self, d: D) -> Result<T, Context<D>> {
        match self { Ok(v) => Ok(v), Err(_) => Err(Context { d }) }
    }
    fn with_context<D, F: FnOnce(&E) -> D>(self, f: F) -> Result<T, Context<D>> {
        match self { Ok(v) => Ok(v), Err(e) => Err(Context { d: f(&e) }) }
    }
}
