//! Contracts of the example approval plugin (appended to its lib.rs).
use super::*;

static mut PRINTED: u32 = 0;
static mut LEVEL: i32 = 0;
static mut CONSTANT: bool = true;

/// sudo's message function: any answer; it notes what it is to print
unsafe extern "C" fn print(level: raw::c_int, text: *const raw::c_char) -> raw::c_int {
    PRINTED += 1;
    LEVEL = level;
    if text != ERRSTR && text != VERSION_MSG { CONSTANT = false; }
    // a printf: the text is a format
    let mut i = 0;
    while *text.add(i) != 0 {
        if *text.add(i) == b'%' as raw::c_char { CONSTANT = false; }
        i += 1;
    }
    kani::any()
}

/// any state between two calls
unsafe fn any_state() -> (bool, Option<raw::c_uint>) {
    let p: bool = kani::any();
    SUDO_PRINT = if p { Some(print) } else { None };
    SUDO_API_VERSION = if kani::any() { Some(kani::any()) } else { None };
    (p, SUDO_API_VERSION)
}

#[kani::proof]
#[kani::unwind(40)]
fn deny_check() {
    unsafe {
        let (p, v) = any_state();
        let before = 8 as *const raw::c_char;
        let mut e = before;
        let r = check(std::ptr::null(), std::ptr::null(), std::ptr::null(), &mut e);
        kani::assert(r == 0, "C28: every check is denied");
        kani::assert(e == before || v.map_or(false, |v| v >= (1 << 16 | 17)), "C28: the error string is set only for callers that have one");
        kani::assert(e == before || e == ERRSTR, "C28: the error string is a constant text");
        kani::assert(CONSTANT && PRINTED <= 1, "C28: only constant text is printed");
        kani::assert(p || PRINTED == 0, "C28: nothing is printed without a message function");
        kani::assert(SUDO_API_VERSION == v, "C28: a check changes nothing");
        kani::cover!(p && e != before, "with an error string");
        kani::cover!(!p, "without a message function");
    }
}

/// a caller that has no error string: there is no place for one
#[kani::proof]
#[kani::unwind(40)]
fn deny_old() {
    unsafe {
        let (_, v) = any_state();
        kani::assume(v.map_or(true, |v| v < (1 << 16 | 17)));
        let r = check(std::ptr::null(), std::ptr::null(), std::ptr::null(), std::ptr::null_mut());
        kani::assert(r == 0, "C28: every check is denied");
    }
}

#[kani::proof]
#[kani::unwind(40)]
fn deny_open() {
    unsafe {
        let _ = any_state();
        let v: u32 = kani::any();
        let p: bool = kani::any();
        let r = open(v, None, if p { Some(print) } else { None }, std::ptr::null(), std::ptr::null(), kani::any(), std::ptr::null(), std::ptr::null(), std::ptr::null(), std::ptr::null_mut());
        kani::assert(r == 1 && SUDO_API_VERSION == Some(v) && SUDO_PRINT.is_some() == p, "C28: opening keeps the caller's version and message function");
        kani::assert(PRINTED == 0, "C28: opening prints nothing");
        kani::cover!(p, "with a message function");
    }
}

#[kani::proof]
#[kani::unwind(40)]
fn deny_version() {
    unsafe {
        let (p, v) = any_state();
        let r = show_version(kani::any());
        kani::assert(CONSTANT && PRINTED <= 1 && (p || PRINTED == 0), "C28: only constant text is printed");
        kani::assert(r == if p { 1 } else { 0 } && SUDO_API_VERSION == v, "C28: showing the version changes nothing");
        let t = &*std::ptr::addr_of!(deny_everything);
        kani::assert(t.open.is_some() && t.check.is_some() && t.show_version.is_some() && t.close.is_none(), "C28: the table has the checks");
        kani::assert(t.type_ == 4 && t.version == (1 << 16 | 17), "C27: the table is an approval plugin of the supported version");
        kani::cover!(p, "printed");
    }
}
