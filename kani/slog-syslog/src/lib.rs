//! Stand-in for `slog-syslog` in the verified build (see slog).
#![allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy)]
pub enum Facility { LOG_AUTH, LOG_USER, LOG_DAEMON, LOG_AUTHPRIV }
#[derive(Debug, Clone, Copy)]
pub struct SyslogBuilder;
impl SyslogBuilder {
    pub fn new() -> Self { SyslogBuilder }
    pub fn unix<P>(self, _: P) -> Self { self }
    pub fn facility(self, _: Facility) -> Self { self }
    pub fn start(self) -> std::result::Result<slog::Discard, ()> { Ok(slog::Discard) }
}
