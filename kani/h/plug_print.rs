//! Contracts of the message facility (appended to output/print_facility.rs).
use super::*;
use std::os::raw::{c_char, c_int};

impl PrintFacility {
    pub(crate) fn verif_level(&self) -> c_int { self.level as c_int }
}

const MAX: usize = 40;
struct P {
    calls: u32,
    fail_at: u32,
    level: c_int,
    levels_agree: bool,
    /// number of bytes printed, and the one at position `probe`
    n: usize,
    probe: usize,
    got: u8,
}
static mut PS: P = P { calls: 0, fail_at: 0, level: 0, levels_agree: true, n: 0, probe: 0, got: 0 };
fn p() -> &'static mut P {
    unsafe { &mut *std::ptr::addr_of_mut!(PS) }
}
fn put(b: u8) {
    let s = p();
    if s.n == s.probe {
        s.got = b;
    }
    s.n += 1;
}
/// sudo's printf: `%s` stands for the argument, `%%` for a percent sign, and
/// there is no other argument that a directive could be given
unsafe extern "C" fn printf(level: c_int, fmt: *const c_char, arg: *const c_char) -> c_int {
    let s = p();
    s.calls += 1;
    if s.calls > 1 && s.level != level {
        s.levels_agree = false;
    }
    s.level = level;
    if s.calls == s.fail_at {
        return -1;
    }
    let n0 = s.n;
    let mut used = false;
    let mut i = 0;
    while *fmt.add(i) != 0 {
        let c = *fmt.add(i) as u8;
        i += 1;
        if c != b'%' {
            put(c);
            continue;
        }
        let d = *fmt.add(i) as u8;
        i += 1;
        kani::assert(d == b's' && !used || d == b'%', "C25: printed text is never taken for a format");
        if d == b'%' {
            put(b'%');
        } else {
            used = true;
            let mut j = 0;
            while *arg.add(j) != 0 {
                put(*arg.add(j) as u8);
                j += 1;
            }
        }
    }
    (p().n - n0) as c_int
}

fn same(e: &[u8]) -> bool {
    p().n == e.len() && (p().probe >= e.len() || p().got == e[p().probe])
}
fn facilities(name: Option<&str>, have: bool) -> (PrintFacility, PrintFacility) {
    p().probe = kani::any();
    unsafe { PrintFacility::new(name, if have { Some(printf) } else { None }) }
}

const N: usize = 3;
fn any_text(b: &mut [u8; N]) -> &[u8] {
    *b = kani::any();
    match kani::any::<u8>() {
        0 => &b[..0],
        1 => &b[..1],
        2 => &b[..2],
        _ => &b[..],
    }
}
fn has_nul(t: &[u8]) -> bool {
    let mut i = 0;
    let mut r = false;
    while i < t.len() {
        if t[i] == 0 { r = true; }
        i += 1;
    }
    r
}

#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(std::ffi::CString::new, mstd::ghost::cstring_new)]
fn print_write() {
    let have: bool = kani::any();
    let (mut out, mut err) = facilities(None, have);
    let mut b = [0; N];
    let t = any_text(&mut b);
    p().fail_at = kani::any();
    let on_err: bool = kani::any();
    let f = if on_err { &mut err } else { &mut out };
    let r = f.write(t);
    let s = p();
    let nul = has_nul(t);
    kani::assert(r.is_ok() == (have && !nul && s.fail_at != 1), "C25: printing succeeds exactly with a working message function and text without NUL");
    kani::assert(s.calls == (have && !nul) as u32, "C25: text with a NUL is not printed in part");
    kani::assert(r.is_err() || t.is_empty() && s.n == 0 || same(t), "C25: the text appears verbatim");
    kani::assert(match r { Ok(n) => n == t.len(), Err(_) => s.n == 0 }, "C25: what was printed is reported");
    kani::assert(s.calls == 0 || s.level == if on_err { 3 } else { 4 }, "C25: the text appears on the channel asked for");
    kani::assert(f.flush().is_ok(), "C25: flushing does nothing");
    kani::cover!(r.is_ok() && t.len() == N && t[0] == b'%', "percent signs");
    kani::cover!(r.is_err() && have, "a failure");
}

/// a facility whose name is given (its prefix is made by `new`, see `print_tag`)
fn named(tag: &[u8], level: Level) -> PrintFacility {
    p().probe = kani::any();
    mstd::ghost::g().big_step = true;
    PrintFacility { facility: Some(printf), level, tag: tag.to_vec() }
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::fmt::format, mstd::ghost::format_fixed)]
fn print_tag() {
    let (a, b) = unsafe { PrintFacility::new(Some("pn"), Some(printf)) };
    kani::assert(a.tag == b"pn: " && b.tag == b"pn: ", "C25,C26: lines start with the plugin's name, a colon and a space");
    kani::assert(matches!(a.level, Level::Info) && matches!(b.level, Level::Error), "C25,C26: the standard output and the error channel");
    let (a, b) = unsafe { PrintFacility::new(None, Some(printf)) };
    kani::assert(a.tag.is_empty() && b.tag.is_empty(), "C25: without a name there is no prefix");
    kani::cover!(true, "reached");
}

fn line<const L: usize>() {
    let on_err: bool = kani::any();
    let mut f = named(b"n: ", if on_err { Level::Error } else { Level::Info });
    let t: [u8; L] = kani::any();
    p().fail_at = kani::any();
    let r = f.write_line(&t);
    let mut e = [0u8; 8];
    e[0] = b'n';
    e[1] = b':';
    e[2] = b' ';
    let mut i = 0;
    while i < L {
        e[3 + i] = t[i];
        i += 1;
    }
    e[3 + L] = b'\n';
    let nul = has_nul(&t);
    kani::assert(r.is_err() || same(&e[..L + 4]), "C25: a line is the plugin's name, the text and a newline");
    kani::assert(r.is_ok() || nul || p().fail_at >= 1 && p().fail_at <= p().calls, "C25: a printable line is printed");
    kani::assert(!nul || r.is_err(), "C25: a line with a NUL is refused");
    kani::assert(p().levels_agree && (p().calls == 0 || p().level == if on_err { 3 } else { 4 }), "C25: the line appears on the channel asked for");
    kani::cover!(r.is_ok(), "a line");
    kani::cover!(r.is_err(), "a failure");
}
macro_rules! lines {
    ($($n:ident $l:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(std::ffi::CString::new, mstd::ghost::cstring_new)]
        fn $n() { line::<$l>() }
    )* };
}
lines! { print_line0 0 print_line1 1 print_line3 3 }

#[derive(Debug)]
struct E {
    text: u8,
    cause: Option<&'static E>,
}
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.text == 0 { "a" } else if self.text == 1 { "%s" } else { "" })
    }
}
impl std::error::Error for E {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match self.cause { Some(c) => Some(c), None => None }
    }
}
const TEXTS: [&[u8]; 3] = [b"a", b"%s", b""];

/// the contract of `write_line`, which `print_line0` to `print_line3` discharge
fn line_contract(f: &mut PrintFacility, line: &[u8]) -> mstd::io::Result<()> {
    let s = p();
    let level = f.level as c_int;
    if s.calls > 0 && s.level != level {
        s.levels_agree = false;
    }
    s.level = level;
    s.calls += 1;
    if s.calls == s.fail_at {
        return Err(mstd::io::Error::any_os_error());
    }
    put(b'n');
    put(b':');
    put(b' ');
    let mut i = 0;
    while i < line.len() {
        put(line[i]);
        i += 1;
    }
    put(b'\n');
    Ok(())
}

/// the report of a chain of 1 + `D` errors
fn chain<const D: usize>() {
    let x: [u8; 4] = kani::any();
    kani::assume(x[0] < 3 && x[1] < 3 && x[2] < 3 && x[3] < 3);
    static mut ES: [E; 4] = [E { text: 0, cause: None }, E { text: 0, cause: None }, E { text: 0, cause: None }, E { text: 0, cause: None }];
    let es = unsafe { &mut *std::ptr::addr_of_mut!(ES) };
    let mut i = 0;
    while i <= D {
        es[i].text = x[i];
        if i < D {
            es[i].cause = Some(unsafe { &(*std::ptr::addr_of!(ES))[i + 1] });
        }
        i += 1;
    }
    let mut err = named(b"n: ", Level::Error);
    let r = err.write_error(&es[0]);
    // the expected text, up to the probed byte
    let mut n = 0;
    let mut want = 0u8;
    let mut w = |b: u8| { if n == p().probe { want = b; } n += 1; };
    w(b'\n');
    let mut i = 0;
    while i <= D {
        w(b'n'); w(b':'); w(b' ');
        let t = TEXTS[x[i] as usize];
        let mut j = 0;
        while j < t.len() { w(t[j]); j += 1; }
        w(b'\n');
        i += 1;
    }
    kani::assert(r.is_ok(), "C26: an error report succeeds");
    kani::assert(p().n == n && (p().probe >= n || p().got == want), "C26: the error and each of its causes is printed once, outermost first, on its own prefixed line");
    kani::assert(p().levels_agree && p().level == 3, "C26: errors go to the error channel");
    kani::cover!(r.is_ok(), "a report");
}
macro_rules! chains {
    ($($n:ident $d:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(std::ffi::CString::new, mstd::ghost::cstring_new)]
        #[kani::stub(std::fmt::format, mstd::ghost::format_fixed)]
        #[kani::stub(PrintFacility::write_line, line_contract)]
        fn $n() { chain::<$d>() }
    )* };
}
chains! { print_error0 0 print_error1 1 print_error2 2 }

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::ffi::CString::new, mstd::ghost::cstring_new)]
#[kani::stub(std::fmt::format, mstd::ghost::format_fixed)]
#[kani::stub(PrintFacility::write_line, line_contract)]
fn print_error_failing() {
    let e = E { text: 0, cause: None };
    let mut err = named(b"n: ", Level::Error);
    p().fail_at = kani::any();
    kani::assume(p().fail_at >= 1 && p().fail_at <= 2);
    let r = err.write_error(&e);
    kani::assert(r.is_err(), "C25,C26: a failing message function is reported");
    kani::cover!(p().calls == 2, "a late failure");
}
