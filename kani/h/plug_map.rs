//! Contracts of option maps (appended to options/option_map.rs).
use super::*;

impl OptionMap {
    /// what `get` answers when no option is given
    #[doc(hidden)]
    pub fn verif_none<T: FromSudoOption>(&self, _: &str) -> Result<T> { Err(Error::UncaughtPanic) }
}

extern crate alloc;
// ------------------------------------------------ decoding of the records
//
// A record is made from what `get` answers for each name: nothing, or a value
// of the type asked for. Numbers are any number (in range of the type or not),
// texts and lists are opaque pieces of memory that are recognised by address.
use crate::options::{CommandInfo, Settings, UserInfo};
use std::convert::TryFrom;

const N: usize = 72;
/// every documented name has a place
fn key(k: &[u8]) -> usize {
    match k {
        b"plugin_dir" => 0,
        b"plugin_path" => 1,
        b"progname" => 2,
        b"bsd_auth_type" => 3,
        b"closefrom" => 4,
        b"debug_flags" => 5,
        b"debug_level" => 6,
        b"ignore_ticket" => 7,
        b"implied_shell" => 8,
        b"login_class" => 9,
        b"login_shell" => 10,
        b"max_groups" => 11,
        b"network_addrs" => 12,
        b"noninteractive" => 13,
        b"preserve_environment" => 14,
        b"preserve_groups" => 15,
        b"prompt" => 16,
        b"remote_host" => 17,
        b"run_shell" => 18,
        b"runas_group" => 19,
        b"runas_user" => 20,
        b"selinux_role" => 21,
        b"selinux_type" => 22,
        b"set_home" => 23,
        b"sudoedit" => 24,
        b"timeout" => 25,
        b"cwd" => 26,
        b"egid" => 27,
        b"euid" => 28,
        b"gid" => 29,
        b"groups" => 30,
        b"host" => 31,
        b"pgid" => 32,
        b"pid" => 33,
        b"ppid" => 34,
        b"uid" => 35,
        b"user" => 36,
        b"umask" => 37,
        b"cols" => 38,
        b"lines" => 39,
        b"sid" => 40,
        b"tcpgid" => 41,
        b"tty" => 42,
        b"runas_gid" => 43,
        b"runas_uid" => 44,
        b"runas_egid" => 45,
        b"runas_euid" => 46,
        b"chroot" => 47,
        b"exec_background" => 48,
        b"execfd" => 49,
        b"iolog_compress" => 50,
        b"iolog_group" => 51,
        b"iolog_mode" => 52,
        b"iolog_path" => 53,
        b"iolog_stdin" => 54,
        b"iolog_stdout" => 55,
        b"iolog_stderr" => 56,
        b"iolog_ttyin" => 57,
        b"iolog_ttyout" => 58,
        b"iolog_user" => 59,
        b"nice" => 60,
        b"noexec" => 61,
        b"preserve_fds" => 62,
        b"runas_groups" => 63,
        b"set_utmp" => 64,
        b"sudoedit_checkdir" => 65,
        b"sudoedit_follow" => 66,
        b"umask_override" => 67,
        b"use_pty" => 68,
        b"utmp_user" => 69,
        b"command" => 70,
        _ => {
            kani::assert(false, "model: a name that sudo's manual does not document");
            N - 1
        }
    }
}
#[derive(Clone, Copy)]
struct One {
    present: bool,
    number: i128,
    len: u8,
}
// in parts that are small enough for CBMC to tell their elements apart
struct Given {
    at: [[One; 24]; 3],
}
const NONE: One = One { present: false, number: 0, len: 0 };
static mut GIVEN: Given = Given { at: [[NONE; 24]; 3] };
fn given(i: usize) -> &'static mut One { unsafe { &mut (*std::ptr::addr_of_mut!(GIVEN)).at[i / 24][i % 24] } }
/// paths, which need not be UTF-8: of the command and of its directory
static COMMAND: [u8; 2] = [0xff, b'/'];
static DIRECTORY: [u8; 2] = [b'/', 0xfe];

/// where the opaque text of a key lies
fn at(i: usize) -> usize { 0x10000 + 0x1000 * i }

fn range(name: &[u8]) -> Option<(i128, i128)> {
    match name {
        b"u8" => Some((0, u8::MAX as i128)),
        b"u16" => Some((0, u16::MAX as i128)),
        b"u32" => Some((0, u32::MAX as i128)),
        b"u64" => Some((0, u64::MAX as i128)),
        b"i8" => Some((i8::MIN as i128, i8::MAX as i128)),
        b"i16" => Some((i16::MIN as i128, i16::MAX as i128)),
        b"i32" => Some((i32::MIN as i128, i32::MAX as i128)),
        b"i64" => Some((i64::MIN as i128, i64::MAX as i128)),
        b"bool" => Some((0, 1)),
        _ => None,
    }
}

impl OptionMap {
    /// a list that is recognised by where it lies
    #[doc(hidden)]
    pub unsafe fn verif_list(p: *const *const c_char) -> Self { OptionMap(HashMap::verif_token(p as usize)) }
    #[doc(hidden)]
    pub fn verif_mark(&self) -> usize { self.0.verif_mark() }
    #[doc(hidden)]
    pub fn verif_get<T: FromSudoOption>(&self, k: &str) -> Result<T> {
        let i = key(k.as_bytes());
        let g = given(i);
        if !g.present { return Err(Error::UncaughtPanic); }
        match range(std::any::type_name::<T>().as_bytes()) {
            Some((lo, hi)) => {
                let n = g.number;
                if n < lo || n > hi { return Err(Error::UncaughtPanic); }
                // little endian: the low bytes are the number in its own type
                Ok(unsafe { std::mem::transmute_copy::<i128, T>(&n) })
            }
            None => {
                kani::assert(std::mem::size_of::<T>() == std::mem::size_of::<Vec<u8>>(), "model: a text or a list");
                let v = unsafe { Vec::from_raw_parts(at(i) as *mut u8, g.len as usize, 0) };
                let r = unsafe { std::mem::transmute_copy::<Vec<u8>, T>(&v) };
                std::mem::forget(v);
                Ok(r)
            }
        }
    }
    #[doc(hidden)]
    pub fn verif_get_bytes(&self, k: &[u8]) -> Option<&[u8]> {
        let i = key(k);
        let g = given(i);
        kani::assert(i == key(b"command") || i == key(b"cwd"), "model: only the command and its directory are read as bytes");
        if !g.present { return None; }
        Some(if i == key(b"cwd") { &DIRECTORY[..g.len as usize] } else { &COMMAND[..g.len as usize] })
    }
}

/// as std's, except that the error is never given back
fn ok<T, E>(r: std::result::Result<T, E>) -> Option<T> {
    match r { Ok(v) => Some(v), Err(e) => { std::mem::forget(e); None } }
}
fn unwrap_or<T, E>(r: std::result::Result<T, E>, d: T) -> T {
    match r { Ok(v) => { std::mem::forget(d); v } Err(e) => { std::mem::forget(e); d } }
}
/// contract of std's: the number that the text of the umask spells in octal, if it does
fn from_str_radix(s: &str, radix: u32) -> std::result::Result<u32, std::num::ParseIntError> {
    kani::assert(s.as_ptr() as usize == at(key(b"umask")), "model: only the umask is a number of another radix");
    kani::assert(radix == 8, "C22: the umask is octal");
    let n = given(key(b"umask")).number;
    if n < 0 || n > u32::MAX as i128 { Err(unsafe { std::mem::zeroed() }) } else { Ok(n as u32) }
}
fn anything() {
    let mut i = 0;
    while i < N - 1 {
        let o = given(i);
        o.present = kani::any();
        o.number = kani::any();
        o.len = kani::any();
        i += 1;
    }
    kani::assume(given(key(b"command")).len <= 2 && given(key(b"cwd")).len <= 2);
}
/// the number given under a name, if it is one of the type
fn num(k: &str, t: &str) -> Option<i128> {
    let i = key(k.as_bytes());
    let (lo, hi) = range(t.as_bytes()).unwrap();
    let g = given(i);
    if g.present && lo <= g.number && g.number <= hi { Some(g.number) } else { None }
}
fn is_text(k: &str, p: *const u8, n: usize) -> bool {
    let i = key(k.as_bytes());
    given(i).present && p as usize == at(i) && n == given(i).len as usize
}
fn absent(k: &str) -> bool { !given(key(k.as_bytes())).present }

macro_rules! check {
    ($r:expr; $(num $t:ident $f:ident $k:literal;)* $(optnum $ot:ident $of:ident $ok:literal;)* $(def $dt:ident $df:ident $dk:literal $d:expr;)*
        $(text $tf:ident $tk:literal;)* $(opttext $otf:ident $otk:literal;)*) => {{
        let r = &$r;
        $( kani::assert(num($k, stringify!($t)) == Some(r.$f as i128), concat!("C22: field ", stringify!($f), " is sudo's ", $k)); )*
        $( kani::assert(num($ok, stringify!($ot)) == r.$of.map(|x| x as i128), concat!("C22: field ", stringify!($of), " is sudo's ", $ok, " or absent")); )*
        $( kani::assert(num($dk, stringify!($dt)).unwrap_or($d as i128) == r.$df as i128, concat!("C22: field ", stringify!($df), " is sudo's ", $dk, " or the default")); )*
        $( kani::assert(is_text($tk, r.$tf.ptr(), r.$tf.length()), concat!("C22: field ", stringify!($tf), " is sudo's ", $tk)); )*
        $( kani::assert(match r.$otf { Some(ref x) => is_text($otk, x.ptr(), x.length()), None => absent($otk) }, concat!("C22: field ", stringify!($otf), " is sudo's ", $otk, " or absent")); )*
    }};
}
trait Where { fn ptr(&self) -> *const u8; fn length(&self) -> usize; }
impl Where for String { fn ptr(&self) -> *const u8 { self.as_ptr() } fn length(&self) -> usize { self.len() } }
impl Where for std::path::PathBuf {
    fn ptr(&self) -> *const u8 { bytes_of(self).as_ptr() }
    fn length(&self) -> usize { bytes_of(self).len() }
}
impl<T> Where for Vec<T> { fn ptr(&self) -> *const u8 { self.as_ptr() as *const u8 } fn length(&self) -> usize { self.len() } }
fn bytes_of(p: &std::path::Path) -> &[u8] {
    use std::os::unix::ffi::OsStrExt;
    p.as_os_str().as_bytes()
}

#[kani::proof]
#[kani::unwind(80)]
#[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
#[kani::stub(OptionMap::get, OptionMap::verif_get)]
#[kani::stub(std::result::Result::ok, ok)]
#[kani::stub(std::result::Result::unwrap_or, unwrap_or)]
#[kani::solver(minisat)]
fn record_settings() {
    anything();
    let r = Settings::try_from(OptionMap(HashMap::new()));
    let required = !absent("plugin_dir") && !absent("plugin_path") && !absent("progname");
    kani::assert(r.is_ok() == required, "C22: settings are refused exactly when a required one is missing or unusable");
    if let Ok(ref r) = r {
        check! { *r;
            optnum u64 close_from "closefrom"; optnum u64 debug_level "debug_level"; optnum u64 max_groups "max_groups";
            def bool ignore_ticket "ignore_ticket" false; def bool implied_shell "implied_shell" false; def bool login_shell "login_shell" false;
            def bool noninteractive "noninteractive" false; def bool preserve_environment "preserve_environment" false;
            def bool preserve_groups "preserve_groups" false; def bool run_shell "run_shell" false; def bool set_home "set_home" false;
            def bool sudoedit "sudoedit" false;
            text plugin_dir "plugin_dir"; text plugin_path "plugin_path"; text progname "progname";
            opttext bsd_auth_type "bsd_auth_type"; opttext debug_flags "debug_flags"; opttext login_class "login_class"; opttext prompt "prompt";
            opttext remote_host "remote_host"; opttext runas_group "runas_group"; opttext runas_user "runas_user"; opttext selinux_role "selinux_role";
            opttext selinux_type "selinux_type"; opttext timeout "timeout";
        }
        kani::assert(if absent("network_addrs") { r.network_addrs.is_empty() } else { is_text("network_addrs", r.network_addrs.ptr(), r.network_addrs.len()) },
            "C22: field network_addrs is sudo's network_addrs or empty");
    }
    kani::cover!(r.is_ok(), "accepted");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}

#[kani::proof]
#[kani::unwind(80)]
#[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
#[kani::stub(OptionMap::get, OptionMap::verif_get)]
#[kani::stub(std::result::Result::ok, ok)]
#[kani::stub(std::result::Result::unwrap_or, unwrap_or)]
#[kani::solver(minisat)]
fn record_user() {
    anything();
    let r = UserInfo::try_from(OptionMap(HashMap::new()));
    let required = !absent("cwd") && !absent("groups") && !absent("host") && !absent("user")
        && num("egid", "u32").is_some() && num("euid", "u32").is_some() && num("gid", "u32").is_some() && num("uid", "u32").is_some()
        && num("pgid", "i32").is_some() && num("pid", "i32").is_some() && num("ppid", "i32").is_some();
    kani::assert(r.is_ok() == required, "C22: user information is refused exactly when a required part is missing or unusable");
    if let Ok(ref r) = r {
        check! { *r;
            num u32 egid "egid"; num u32 euid "euid"; num u32 gid "gid"; num u32 uid "uid"; num i32 pgid "pgid"; num i32 pid "pid"; num i32 ppid "ppid";
            def u64 cols "cols" 80; def u64 lines "lines" 24; def i32 sid "sid" 0; def i32 tcpgid "tcpgid" -1;
            text cwd "cwd"; text groups "groups"; text host "host"; text user "user";
            opttext umask "umask"; opttext tty "tty";
        }
    }
    kani::cover!(r.is_ok(), "accepted");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}

#[kani::proof]
#[kani::unwind(80)]
#[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
#[kani::stub(OptionMap::get, OptionMap::verif_get)]
#[kani::stub(OptionMap::get_bytes, OptionMap::verif_get_bytes)]
#[kani::stub(std::result::Result::ok, ok)]
#[kani::stub(std::result::Result::unwrap_or, unwrap_or)]
#[kani::stub(u32::from_str_radix, from_str_radix)]
#[kani::solver(minisat)]
fn record_command() {
    anything();
    mstd::ghost::g().euid = kani::any();
    mstd::ghost::g().egid = kani::any();
    let r = CommandInfo::try_from(OptionMap(HashMap::new()));
    kani::assert(r.is_ok(), "C22: no part of the command information is required");
    if let Ok(ref r) = r {
        let uid = num("runas_uid", "u32").unwrap_or(mstd::ghost::g().euid as i128);
        let gid = num("runas_gid", "u32").unwrap_or(mstd::ghost::g().egid as i128);
        check! { *r;
            optnum u64 close_from "closefrom"; optnum u64 exec_fd "execfd"; optnum i32 nice "nice";
            optnum u64 timeout "timeout"; optnum bool umask_override "umask_override";
            def u32 runas_uid "runas_uid" uid; def u32 runas_gid "runas_gid" gid; def u32 runas_euid "runas_euid" uid; def u32 runas_egid "runas_egid" gid;
            def u32 umask "umask" 0o7777;
            def bool exec_background "exec_background" false; def bool iolog_compress "iolog_compress" false; def bool iolog_stdin "iolog_stdin" false;
            def bool iolog_stdout "iolog_stdout" false; def bool iolog_stderr "iolog_stderr" false; def bool iolog_ttyin "iolog_ttyin" false;
            def bool iolog_ttyout "iolog_ttyout" false; def bool noexec "noexec" false; def bool preserve_groups "preserve_groups" false;
            def bool set_utmp "set_utmp" false; def bool sudoedit "sudoedit" false; def bool sudoedit_checkdir "sudoedit_checkdir" true;
            def bool sudoedit_follow "sudoedit_follow" false; def bool use_pty "use_pty" false;
            opttext chroot "chroot"; opttext iolog_group "iolog_group"; opttext iolog_mode "iolog_mode"; opttext iolog_path "iolog_path"; opttext iolog_user "iolog_user";
            opttext login_class "login_class"; opttext runas_groups "runas_groups"; opttext selinux_role "selinux_role"; opttext selinux_type "selinux_type";
            opttext utmp_user "utmp_user";
        }
        kani::assert(if absent("preserve_fds") { r.preserve_fds.is_empty() } else { is_text("preserve_fds", r.preserve_fds.ptr(), r.preserve_fds.len()) },
            "C22: field preserve_fds is sudo's preserve_fds or empty");
        let n = if absent("command") { 0 } else { given(key(b"command")).len as usize };
        kani::assert(bytes_of(&r.command) == &COMMAND[..n], "C22: the command path is taken byte for byte, and empty when there is none");
        let d = given(key(b"cwd"));
        kani::assert(match r.cwd { Some(ref x) => d.present && bytes_of(x) == &DIRECTORY[..d.len as usize], None => !d.present },
            "C12,C22: the command's directory is taken byte for byte, and absent when there is none");
    }
    kani::cover!(r.is_ok(), "accepted");
    std::mem::forget(r);
}

// ------------------------------------------------------- OptionMap::from_raw

/// a copy is its original: neither is ever changed
fn alias<T: Clone>(s: &[T]) -> Vec<T> { unsafe { Vec::from_raw_parts(s.as_ptr() as *mut T, s.len(), 0) } }

const LEN: usize = 3;
/// the entries, each of at most LEN bytes and a NUL
fn entry() -> [u8; LEN + 1] {
    let mut e: [u8; LEN + 1] = kani::any();
    e[LEN] = 0;
    e
}
fn length(e: &[u8]) -> usize {
    let mut i = 0;
    while e[i] != 0 { i += 1; }
    i
}
/// what an entry says about a name: where its value begins
fn says(e: &[u8; LEN + 1], k: &[u8]) -> Option<usize> {
    let n = length(e);
    let mut s = 0;
    while s < n && e[s] != b'=' { s += 1; }
    if s != k.len() { return None; }
    let mut i = 0;
    while i < s {
        if e[i] != k[i] { return None; }
        i += 1;
    }
    Some(if s < n { s + 1 } else { 0 })
}

fn from_list(n: usize) {
    let (a, b) = (entry(), entry());
    let mut ptrs = [a.as_ptr() as *const c_char, b.as_ptr() as *const c_char, std::ptr::null()];
    ptrs[n] = std::ptr::null();
    let m = unsafe { OptionMap::from_raw(ptrs.as_ptr()) };
    let probe: [u8; LEN] = kani::any();
    let pn: usize = kani::any();
    kani::assume(pn <= LEN);
    let k = &probe[..pn];
    let want = match (if n > 1 { says(&b, k) } else { None }, if n > 0 { says(&a, k) } else { None }) {
        (Some(i), _) => Some(&b[i..length(&b)]),
        (None, Some(i)) => Some(&a[i..length(&a)]),
        (None, None) => None,
    };
    let got = m.get_bytes(k);
    kani::assert(got.is_some() == want.is_some(), "C20: exactly the names given are present");
    if let (Some(g), Some(w)) = (got, want) {
        kani::assert(g == w, "C20: a name has the value of its last entry, byte for byte");
    }
    kani::cover!(n == 0 || got.is_some(), "a name that is given");
    std::mem::forget(m);
}
macro_rules! lists {
    ($($n:ident $k:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(std::ffi::CStr::from_ptr, mstd::ghost::cstr_from_ptr)]
        #[kani::stub(<[u8] as std::borrow::ToOwned>::to_owned, alias)]
        fn $n() { from_list($k) }
    )* };
}
lists! { list0 0 list1 1 list2 2 }

#[kani::proof]
fn list_null() {
    let m = unsafe { OptionMap::from_raw(std::ptr::null()) };
    kani::assert(m.get_bytes(&[]).is_none() && m.0.is_empty(), "C20: no list is an empty map");
}

// ------------------------------------------------------------ typed access
//
// What texts of a few bytes are as a value of each type.

/// a text of at most `K` bytes
fn text<const K: usize>(b: &[u8; K]) -> &str {
    let n: usize = kani::any();
    kani::assume(n <= K);
    let mut i = 0;
    while i < K {
        kani::assume(b[i] < 0x80);
        i += 1;
    }
    unsafe { std::str::from_utf8_unchecked(&b[..n]) }
}
/// the number that a text spells
fn decimal(b: &[u8], signed: bool) -> Option<i64> {
    let (neg, from) = match b.first() {
        Some(b'+') => (false, 1),
        Some(b'-') if signed => (true, 1),
        _ => (false, 0),
    };
    if from == b.len() { return None; }
    let mut v = 0i64;
    let mut i = from;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' { return None; }
        v = v * 10 + (b[i] - b'0') as i64;
        i += 1;
    }
    Some(if neg { -v } else { v })
}
macro_rules! numbers {
    ($($n:ident $t:ident $k:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(8)]
        fn $n() {
            let b: [u8; $k] = kani::any();
            let s = text(&b);
            let r = <$t as FromSudoOption>::from_sudo_option(s).ok();
            let want = decimal(s.as_bytes(), <$t>::MIN != 0).filter(|v| *v >= <$t>::MIN as i64 && (<$t>::MAX as i64 == -1 || *v <= <$t>::MAX as i64));
            kani::assert(r.map(|v| v as i64) == want, concat!("C21: a ", stringify!($t), " is exactly the decimal spelling of a number in range"));
            kani::cover!(r.is_some(), "a number");
            kani::cover!(r.is_none() && s.len() > 1, "not a number");
        }
    )* };
}
numbers! { number_i8 i8 4 number_u8 u8 4 number_i16 i16 3 number_u16 u16 3 number_i32 i32 3 number_u32 u32 3 number_i64 i64 3 number_u64 u64 3 }

#[kani::proof]
#[kani::unwind(8)]
fn boolean() {
    let b: [u8; 5] = kani::any();
    let s = text(&b);
    let r = bool::from_sudo_option(s).ok();
    let want = match s.as_bytes() { b"true" => Some(true), b"false" => Some(false), _ => None };
    kani::assert(r == want, "C21: a bool is exactly true or false");
    kani::cover!(r == Some(false), "false");
}

#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(<[u8] as std::borrow::ToOwned>::to_owned, alias)]
#[kani::stub(<[u8]>::to_vec, alias)]
fn strings() {
    let b: [u8; 4] = kani::any();
    let s = text(&b);
    let r = String::from_sudo_option(s);
    kani::assert(matches!(r, Ok(ref t) if t.as_bytes() == s.as_bytes()), "C21: a string is any text, unchanged");
    let p = std::path::PathBuf::from_sudo_option(s);
    kani::assert(matches!(p, Ok(ref t) if bytes_of(t) == s.as_bytes()), "C21: a path is any text, unchanged");
    std::mem::forget((r, p));
}

#[kani::proof]
#[kani::unwind(8)]
fn net_addr() {
    use crate::options::settings::NetAddr;
    let b: [u8; 4] = kani::any();
    let s = text(&b);
    let r = NetAddr::from_sudo_option(s);
    let t = s.as_bytes();
    let want = t.len() == 3 && t[1] == b'/' && t[0].is_ascii_alphanumeric() && t[2].is_ascii_alphanumeric();
    kani::assert(r.is_ok() == want, "C21: a network address is an address, a slash and a mask");
    if let Ok(a) = r {
        kani::assert(a.addr.0 == t[0] && a.mask.0 == t[2], "C21: a network address has its address and its mask");
    }
    kani::cover!(r.is_ok(), "an address");
}

/// an item of a list: its number, or a failure
struct Item(u8);
static ITEMS: [u8; 3] = *b"abc";
static mut BAD: [bool; 3] = [false; 3];
static mut LIST: (usize, usize, usize) = (0, 0, 0);
impl FromSudoOption for Item {
    type Err = ();
    fn from_sudo_option(s: &str) -> std::result::Result<Self, ()> {
        let i = s.as_ptr() as usize - ITEMS.as_ptr() as usize;
        if unsafe { BAD[i] } { Err(()) } else { Ok(Item(i as u8)) }
    }
}
impl crate::options::traits::FromSudoOptionList for Item {
    fn from_sudo_option_list(s: &str) -> Vec<&str> {
        unsafe {
            LIST.0 = s.as_ptr() as usize;
            LIST.1 = s.len();
            let t = std::str::from_utf8_unchecked(&ITEMS);
            match LIST.2 {
                0 => Vec::new(),
                1 => vec![&t[..1]],
                2 => vec![&t[..1], &t[1..2]],
                _ => vec![&t[..1], &t[1..2], &t[2..]],
            }
        }
    }
}
fn list_items(n: usize) {
    unsafe {
        LIST.2 = n;
        BAD = kani::any();
    }
    let t = "x";
    let r = Vec::<Item>::from_sudo_option(t);
    let (p, l, _) = unsafe { LIST };
    kani::assert(p == t.as_ptr() as usize && l == 1, "C21: the whole text is separated");
    let bad = unsafe { BAD };
    kani::assert(r.is_ok() == !(n > 0 && bad[0] || n > 1 && bad[1] || n > 2 && bad[2]), "C21: a list is given exactly when every item parses");
    if let Ok(ref v) = r {
        kani::assert(v.len() == n && (n < 1 || v[0].0 == 0) && (n < 2 || v[1].0 == 1) && (n < 3 || v[2].0 == 2), "C21: a list has its items in order");
    }
    kani::cover!(r.is_ok(), "a list");
    std::mem::forget(r);
}
macro_rules! items {
    ($($n:ident $k:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(8)]
        fn $n() { list_items($k) }
    )* };
}
items! { items0 0 items1 1 items2 2 items3 3 }

fn separated<T: crate::options::traits::FromSudoOptionList>(sep: u8) {
    let b: [u8; 2] = kani::any();
    let s = text(&b);
    let t = s.as_bytes();
    let l = T::from_sudo_option_list(s);
    let c0 = t.len() > 0 && t[0] == sep;
    let c1 = t.len() > 1 && t[1] == sep;
    kani::assert(l.len() == 1 + c0 as usize + c1 as usize, "C21: every separator separates");
    kani::assert(l[0].as_ptr() == t.as_ptr() && l[0].len() == if c0 { 0 } else if c1 { 1 } else { t.len() }, "C21: the first item ends at the first separator");
    let e = l[l.len() - 1];
    kani::assert(!(c0 || c1) || e.len() == if c1 { t.len() - 2 } else { t.len() - 1 }, "C21: the last item begins behind the last separator");
    kani::cover!(c0 && c1, "three items");
    std::mem::forget(l);
}
#[kani::proof]
#[kani::unwind(8)]
fn sep2_numbers() { separated::<u32>(b',') }
#[kani::proof]
#[kani::unwind(8)]
fn sep2_addresses() { separated::<crate::options::settings::NetAddr>(b' ') }

fn pieces<T: crate::options::traits::FromSudoOptionList>(s: &str, want: &[&str]) {
    let l = T::from_sudo_option_list(s);
    kani::assert(l.len() == want.len(), "C21: every separator separates");
    let mut i = 0;
    while i < want.len() && i < l.len() {
        kani::assert(l[i].as_bytes() == want[i].as_bytes(), "C21: the items are what lies between the separators");
        i += 1;
    }
    std::mem::forget(l);
}
#[kani::proof]
#[kani::unwind(8)]
fn separated_numbers() {
    pieces::<u32>("", &[""]);
    pieces::<i32>(",a", &["", "a"]);
    pieces::<u64>("a b,c", &["a b", "c"]);
    pieces::<u8>("a,", &["a", ""]);
}
#[kani::proof]
#[kani::unwind(8)]
fn separated_addresses() {
    pieces::<crate::options::settings::NetAddr>("a,b c", &["a,b", "c"]);
    pieces::<std::path::PathBuf>("a,b c", &["a", "b c"]);
}

/// any type: what it makes of a text is up to it
struct Any;
static mut SEEN: (usize, usize, bool) = (0, 0, false);
impl FromSudoOption for Any {
    type Err = ();
    fn from_sudo_option(s: &str) -> std::result::Result<Self, ()> {
        unsafe {
            SEEN.0 = s.as_ptr() as usize;
            SEEN.1 = s.len();
            if SEEN.2 { Ok(Any) } else { Err(()) }
        }
    }
}
static mut VALUE: Option<&'static [u8]> = None;
static TEXT: [u8; 2] = *b"x1";
static RAW: [u8; 2] = [b'x', 0xff];
impl OptionMap {
    #[doc(hidden)]
    pub fn verif_value(&self, k: &[u8]) -> Option<&[u8]> {
        kani::assert(k == b"k", "C21: the option looked up is the one asked for");
        unsafe { VALUE }
    }
}
fn typed(which: u8) {
    let n = 2;
    unsafe {
        SEEN.2 = kani::any();
        VALUE = match which { 0 => None, 1 => Some(&RAW), _ => Some(&TEXT[..n]) };
    }
    let m = OptionMap(HashMap::new());
    let r = m.get::<Any>("k");
    let (p, l, parses) = unsafe { SEEN };
    match r {
        Ok(_) => kani::assert(which > 1 && parses && p == TEXT.as_ptr() as usize && l == n, "C21: a value is what its type makes of the whole text"),
        Err(Error::OptionMissing { ref key }) => kani::assert(which <= 1 && key == "k", "C21: an option that is missing or isn't UTF-8 is reported as missing"),
        Err(Error::OptionInvalid { ref key, ref value }) =>
            kani::assert(which > 1 && !parses && key == "k" && value.as_bytes() == &TEXT[..n], "C21: an option that doesn't parse is reported as invalid with its key and value"),
        Err(_) => kani::assert(false, "C21: an option is missing or invalid, nothing else"),
    }
    kani::cover!(r.is_ok() == (which == 2), "answered");
    std::mem::forget(r);
}
macro_rules! typed {
    ($($n:ident $k:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(8)]
        #[kani::stub(OptionMap::get_bytes, OptionMap::verif_value)]
        #[kani::stub(<[u8] as std::borrow::ToOwned>::to_owned, alias)]
        #[kani::stub(<[u8]>::to_vec, alias)]
        fn $n() { typed($k) }
    )* };
}
typed! { get_missing 0 get_raw 1 get_value 2 }
