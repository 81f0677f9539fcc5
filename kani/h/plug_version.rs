//! Contracts of the version words (appended to version.rs).
use super::*;

#[kani::proof]
fn version_words() {
    let w: u32 = kani::any();
    let v = Version::from(w);
    kani::assert(v.major as u32 == w >> 16 && v.minor as u32 == w & 0xffff, "C19: a word splits into its upper and lower 16 bits");
    kani::assert(u32::from(v) == w, "C19: joining the numbers gives the word back");
    kani::assert(v == Version::from_ffi(w) && v.into_ffi() == w, "C19: both conversions agree");
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    let j = Version::new(a, b);
    kani::assert(j.into_ffi() == (a as u32) << 16 | b as u32, "C19: numbers join to the word");
    kani::assert(Version::from(j.into_ffi()) == j, "C19: splitting the word gives the numbers back");
    kani::cover!(a > 1 && b > 9, "any version");
}

#[kani::proof]
fn version_order() {
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    let (a, b) = (Version::from(x), Version::from(y));
    let lt = (x >> 16) < (y >> 16) || (x >> 16) == (y >> 16) && (x & 0xffff) < (y & 0xffff);
    kani::assert((a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "C19: versions compare by major, then by minor");
    kani::assert((a == b) == (x == y), "C19: versions are equal exactly when the words are");
    kani::assert((a.cmp(&b) == std::cmp::Ordering::Less) == lt, "C19: the total order agrees");
    kani::cover!(lt, "ordered");
    kani::cover!(!lt && x != y, "ordered the other way");
}

#[kani::proof]
fn version_check() {
    let w: u32 = kani::any();
    let v = Version::from(w);
    let old = (w >> 16) < 1 || (w >> 16) == 1 && (w & 0xffff) < 9;
    kani::assert(v.supported() == !old, "C19: exactly the versions from 1.9 on are supported");
    match v.check() {
        Ok(r) => kani::assert(!old && r == v, "C19: a supported version is accepted as it is"),
        Err(Error::UnsupportedApiVersion { required, provided }) => {
            kani::assert(old, "C19: only old versions are refused");
            kani::assert(provided == v && required == Version::new(1, 9), "C19: the refusal names both versions")
        }
        Err(_) => kani::assert(false, "C19: an old version is refused as an old version"),
    }
    kani::cover!(old, "refused");
    kani::cover!(!old, "accepted");
}

struct Out {
    b: [u8; 16],
    n: usize,
}
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if self.n < 16 {
                self.b[self.n] = s[i];
            }
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
fn digits(o: &mut Out, v: u16) {
    let mut p = 10000u16;
    let mut on = false;
    while p > 0 {
        let d = v / p % 10;
        if d != 0 || on || p == 1 {
            on = true;
            o.b[o.n] = b'0' + d as u8;
            o.n += 1;
        }
        p /= 10;
    }
}

fn text(max: u16) {
    use std::fmt::Write;
    let v = Version::new(kani::any(), kani::any());
    kani::assume(v.major <= max && v.minor <= max);
    let mut o = Out { b: [0; 16], n: 0 };
    let r = write!(o, "{}", v);
    let mut e = Out { b: [0; 16], n: 0 };
    digits(&mut e, v.major);
    e.b[e.n] = b'.';
    e.n += 1;
    digits(&mut e, v.minor);
    let i: usize = kani::any();
    kani::assume(i < 16);
    kani::assert(r.is_ok() && o.n == e.n && o.b[i] == e.b[i], "C19: a version is shown as major.minor in decimal");
    kani::cover!(o.n > 4, "a long text");
}
#[kani::proof]
#[kani::unwind(8)]
fn version_text() { text(99) }
#[kani::proof]
#[kani::unwind(13)]
fn version_every() { text(u16::MAX) }

/// the helpers of the raw bindings
#[kani::proof]
fn version_helpers() {
    use crate::sys;
    let w: u32 = kani::any();
    kani::assert(sys::sudo_api_version_get_major(w) == w >> 16 && sys::sudo_api_version_get_minor(w) == w & 0xffff, "C19: the helpers split a word into its upper and lower 16 bits");
    kani::assert(sys::sudo_api_mkversion(sys::sudo_api_version_get_major(w), sys::sudo_api_version_get_minor(w)) == w, "C19: the helpers join the numbers to the word again");
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    let j = sys::sudo_api_mkversion(a as u32, b as u32);
    kani::assert(sys::sudo_api_version_get_major(j) == a as u32 && sys::sudo_api_version_get_minor(j) == b as u32, "C19: the helpers split what they join");
    kani::assert(j == Version::new(a, b).into_ffi(), "C19: the helpers agree with Version");
    kani::cover!(a > 1 && b > 9, "any version");
}

/// every built-in error denies
#[kani::proof]
fn errors_deny() {
    use crate::core::{LogStatus, OpenStatus};
    let e = match kani::any::<u8>() {
        0 => Error::UnsupportedApiVersion { required: Version::from(kani::any::<u32>()), provided: Version::from(kani::any::<u32>()) },
        1 => Error::OptionMissing { key: String::new() },
        2 => Error::OptionInvalid { key: String::new(), value: String::new() },
        3 => Error::UncaughtPanic,
        _ => Error::Other(String::new()),
    };
    kani::cover!(matches!(e, Error::OptionInvalid { .. }), "an unusable option");
    if kani::any() {
        kani::assert(Into::<OpenStatus>::into(e) as i32 == -1, "C15,C16: every built-in error refuses the session");
    } else {
        kani::assert(Into::<LogStatus>::into(e) as i32 == 0, "C15,C16: every built-in error denies the data");
    }
}
