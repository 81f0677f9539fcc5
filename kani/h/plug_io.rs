//! Contracts of the callbacks that a plugin leaves out (appended to plugin/io_plugin.rs).
use super::*;
use crate::errors::Error as PError;
use crate::output::PrintFacility;
use std::os::raw::c_int;

struct Left;
impl IoPlugin for Left {
    type Error = PError;
    const NAME: &'static str = "p%";
    const VERSION: &'static str = "2";
    fn open(_: &'static IoEnv) -> Result<Self, PError> { Ok(Left) }
}

static mut CALLS: u32 = 0;
static mut LEVEL: c_int = 0;
static mut SAME: bool = true;
static mut FAIL: bool = false;
static mut N: usize = 0;
const WANT: &[u8] = b"p% I/O plugin version 2\n";

/// the contract of the message facility's `write` (C25, which `print_write` discharges)
fn write_contract(f: &mut PrintFacility, text: &[u8]) -> mstd::io::Result<usize> {
    unsafe {
        let level = f.verif_level();
        SAME = SAME && (CALLS == 0 || LEVEL == level);
        CALLS += 1;
        LEVEL = level;
        if FAIL {
            return Err(mstd::io::Error::any_os_error());
        }
        let mut j = 0;
        while j < text.len() {
            SAME = SAME && N < WANT.len() && WANT[N] == text[j];
            N += 1;
            j += 1;
        }
    }
    Ok(text.len())
}

/// text is shown without padding
fn whole<'a>(f: &mut std::fmt::Formatter<'a>, s: &str) -> std::fmt::Result where 'a: 'a { f.write_str(s) }

#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(<PrintFacility as mstd::io::Write>::write, write_contract)]
#[kani::stub(std::fmt::format, mstd::ghost::format_fixed32)]
#[kani::stub(std::fmt::Formatter::pad, whole)]
fn default_version() {
    let env = IoEnv::verif_new();
    mstd::ghost::g().big_step = true;
    unsafe { FAIL = kani::any() };
    Left::show_version(&env, kani::any());
    unsafe {
        kani::assert(CALLS >= 1 && LEVEL == 4, "C17: a plugin that leaves it out has its version shown on the standard output");
        kani::assert(FAIL || SAME && N == WANT.len(), "C17: a plugin that leaves it out has its name and its version shown");
        kani::cover!(FAIL, "a failing message function");
        kani::cover!(!FAIL, "a working message function");
    }
}

#[kani::proof]
fn default_callbacks() {
    let p = Left;
    let b: [u8; 4] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let d = &b[..n];
    let r = match kani::any::<u8>() {
        0 => p.log_ttyin(d),
        1 => p.log_ttyout(d),
        2 => p.log_stdin(d),
        3 => p.log_stdout(d),
        4 => p.log_stderr(d),
        _ => p.change_winsize(kani::any(), kani::any()),
    };
    kani::assert(r.is_ok(), "C18: a callback that a plugin leaves out accepts everything");
    p.close(kani::any(), kani::any());
    kani::assert(!Left::IGNORE_IOLOG_HINTS, "C18: a plugin honours the hints unless it declares otherwise");
    kani::cover!(true, "reached");
}
