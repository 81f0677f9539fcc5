//! A plugin whose callbacks report to the driver and whose results the driver
//! scripts. It is built against the real sudo_plugin crate.
#![allow(static_mut_refs)]
use std::collections::HashSet;
use std::ffi::CString;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::raw::{c_char, c_int};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

use sudo_plugin::options::settings::NetAddr;
use sudo_plugin::prelude::*;

extern "C" {
    fn verif_cb(name: *const c_char, buf: *const u8, len: usize) -> c_int;
}
fn cb(name: &str, b: &[u8]) -> i32 {
    let n = CString::new(name).unwrap();
    unsafe { verif_cb(n.as_ptr(), b.as_ptr(), b.len()) }
}
fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    let mut s = String::new();
    for c in b {
        let _ = write!(s, "{:02x}", c);
    }
    s
}
fn unhx(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// code: 0 success, negative panic, 100000 + 100*depth + 10*log + open an error
#[derive(Debug)]
pub struct Failure {
    open: i32,
    log: i32,
    text: String,
    cause: Option<Box<Failure>>,
}
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.text == "!" {
            panic!("scripted panic while printing the error");
        }
        f.write_str(&self.text)
    }
}
impl std::error::Error for Failure {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|c| &**c as _)
    }
}
impl From<Error> for Failure {
    fn from(e: Error) -> Self {
        let _ = cb("builtin", format!("{:?}", e).as_bytes());
        let o: OpenStatus = e.clone().into();
        let l: LogStatus = e.clone().into();
        let _ = cb("builtin_status", format!("{} {}", o as i32, l as i32).as_bytes());
        Failure { open: o as i32, log: l as i32, text: e.to_string(), cause: None }
    }
}
impl From<Failure> for OpenStatus {
    fn from(f: Failure) -> Self {
        match f.open {
            1 => OpenStatus::Ok,
            0 => OpenStatus::Disable,
            -2 => OpenStatus::Usage,
            9 => panic!("scripted panic while choosing the status"),
            _ => OpenStatus::Deny,
        }
    }
}
impl From<Failure> for LogStatus {
    fn from(f: Failure) -> Self {
        match f.log {
            1 => LogStatus::Ok,
            -1 => LogStatus::Disable,
            9 => panic!("scripted panic while choosing the status"),
            _ => LogStatus::Deny,
        }
    }
}
/// a panic payload that panics once more when it is dropped
struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            panic!("scripted panic of a panic's payload");
        }
    }
}
fn act(name: &str, b: &[u8]) -> Result<(), Failure> {
    let code = cb(name, b);
    if code == 0 {
        return Ok(());
    }
    if code == -1 {
        panic!("scripted panic");
    }
    if code == -2 {
        std::panic::panic_any(5u32);
    }
    if code == -3 {
        std::panic::resume_unwind(Box::new(String::from("resumed")));
    }
    if code == -4 {
        let v: Vec<u8> = vec![];
        let _ = v[code.unsigned_abs() as usize];
    }
    if code == -5 {
        return Err(Failure { open: 9, log: 9, text: "no status".into(), cause: None });
    }
    if code == -6 {
        return Err(Failure { open: 1, log: 1, text: "!".into(), cause: None });
    }
    if code == -7 {
        std::panic::panic_any(Bomb);
    }
    let code = code - 100_000;
    let depth = code / 100;
    let log = [1, 0, -1][(code / 10 % 10) as usize];
    let open = [1, 0, -1, -2][(code % 10) as usize];
    let mut e: Option<Box<Failure>> = None;
    for i in (0..=depth).rev() {
        e = Some(Box::new(Failure { open, log, text: format!("failure {} of %s {}", i, depth), cause: e }));
    }
    Err(*e.unwrap())
}

trait Show {
    fn show(&self) -> String;
}
macro_rules! show_num { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { self.to_string() } })* } }
show_num!(bool i8 u8 i16 u16 i32 u32 i64 u64);
impl Show for String {
    fn show(&self) -> String { hx(self.as_bytes()) }
}
impl Show for PathBuf {
    fn show(&self) -> String { hx(self.as_os_str().as_bytes()) }
}
impl Show for NetAddr {
    fn show(&self) -> String { format!("{}/{}", self.addr, self.mask) }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> String { format!("[{}]", self.iter().map(Show::show).collect::<Vec<_>>().join(",")) }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String { match self { Some(v) => format!("some:{}", v.show()), None => "none".into() } }
}
fn showset<T: Show>(s: &HashSet<T>) -> String {
    let mut v: Vec<_> = s.iter().map(Show::show).collect();
    v.sort();
    format!("{{{}}}", v.join(","))
}
fn res<T>(r: Result<T, Error>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(v) => format!("ok {}", f(&v)),
        Err(Error::OptionMissing { key }) => format!("missing {}", hx(key.as_bytes())),
        Err(Error::OptionInvalid { key, value }) => format!("invalid {} {}", hx(key.as_bytes()), hx(value.as_bytes())),
        Err(e) => format!("other {:?}", e),
    }
}

fn dump(env: &IoEnv) -> String {
    let mut o = String::new();
    macro_rules! d { ($n:expr, $v:expr) => { let _ = writeln!(o, "{} {}", $n, $v); } }
    d!("plugin_name", env.plugin_name);
    d!("plugin_version", env.plugin_version);
    d!("api_version", env.api_version);
    d!("cmdline", env.cmdline.iter().map(|c| hx(c.as_bytes())).collect::<Vec<_>>().join(","));
    let s = &env.settings;
    macro_rules! fs { ($r:ident . $($f:ident)*) => { $( d!(concat!(stringify!($r), ".", stringify!($f)), $r.$f.show()); )* } }
    let settings = s;
    fs!(settings . plugin_dir plugin_path progname bsd_auth_type close_from debug_flags debug_level ignore_ticket
        implied_shell login_class login_shell max_groups network_addrs noninteractive preserve_environment preserve_groups
        prompt remote_host run_shell runas_group runas_user selinux_role selinux_type set_home sudoedit timeout);
    let user_info = &env.user_info;
    fs!(user_info . cols cwd egid euid gid groups host lines pgid pid ppid sid tcpgid tty uid umask user);
    let command_info = &env.command_info;
    fs!(command_info . chroot close_from command cwd exec_background exec_fd iolog_compress iolog_group iolog_mode iolog_path
        iolog_stdin iolog_stdout iolog_stderr iolog_ttyin iolog_ttyout iolog_user login_class nice noexec preserve_fds
        preserve_groups runas_egid runas_euid runas_gid runas_groups runas_uid selinux_role selinux_type set_utmp sudoedit
        sudoedit_checkdir sudoedit_follow timeout umask umask_override use_pty utmp_user);
    d!("invocation", hx(&env.invocation()));
    d!("flags", env.settings.flags().iter().map(|f| hx(f)).collect::<Vec<_>>().join(","));
    d!("cwd", hx(env.cwd().as_os_str().as_bytes()));
    d!("tty", env.tty().is_some());
    let a = env.runas_gids();
    d!("runas_gids", showset(&a));
    d!("runas_gids_again", env.runas_gids() == a);
    d!("runas_groups_after", env.command_info.runas_groups.show());
    d!("groups_after", env.user_info.groups.show());
    d!("raw_uid", env.user_info.raw.get_bytes(b"uid").map_or("none".into(), hx));
    o
}

fn get(m: &OptionMap, t: &str, k: &str) -> String {
    macro_rules! g { ($($n:literal => $t:ty),*) => { match t {
        $($n => res(m.get::<$t>(k), Show::show),)*
        "hs_u32" => res(m.get::<HashSet<u32>>(k), showset),
        "hs_path" => res(m.get::<HashSet<PathBuf>>(k), showset),
        _ => "badtype".into(),
    } } }
    g!("bool" => bool, "i8" => i8, "u8" => u8, "i16" => i16, "u16" => u16, "i32" => i32, "u32" => u32, "i64" => i64, "u64" => u64,
       "string" => String, "path" => PathBuf, "net" => NetAddr, "v_u8" => Vec<u8>, "v_i8" => Vec<i8>, "v_i32" => Vec<i32>, "v_u32" => Vec<u32>,
       "v_i64" => Vec<i64>, "v_u64" => Vec<u64>, "v_i16" => Vec<i16>, "v_u16" => Vec<u16>, "v_path" => Vec<PathBuf>, "v_net" => Vec<NetAddr>)
}
fn pres(r: std::io::Result<()>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => format!("err {:?}", e.kind()),
    }
}
/// operations that the plugin options do0, do1, .. ask for
fn operations(env: &IoEnv) {
    for i in 0.. {
        let v = match env.plugin_options.get_str(&format!("do{}", i)) {
            Some(v) => v.to_owned(),
            None => break,
        };
        let w: Vec<&str> = v.split(':').collect();
        let mut pf = if w.len() > 1 && w[1] == "err" { env.stderr() } else { env.stdout() };
        let r = match w[0] {
            "print" => pres(pf.write_all(&unhx(w[2]))),
            "write" => match pf.write(&unhx(w[2])) { Ok(n) => format!("ok {}", n), Err(e) => format!("err {:?}", e.kind()) },
            "fmt" => pres(write!(pf, "<{}>", String::from_utf8_lossy(&unhx(w[2])))),
            "line" => pres(pf.write_line(&unhx(w[2]))),
            "flush" => pres(pf.flush()),
            "error" => {
                // a chain of w[2] causes
                let n: i32 = w[2].parse().unwrap();
                let mut e: Option<Box<Failure>> = None;
                for i in (0..=n).rev() {
                    // their texts, if given, in turn
                    let text = match w.get(3) {
                        Some(t) => {
                            let t: Vec<&str> = t.split(',').collect();
                            String::from_utf8_lossy(&unhx(t[i as usize % t.len()])).into_owned()
                        }
                        None => format!("c{}", i),
                    };
                    e = Some(Box::new(Failure { open: 0, log: 0, text, cause: e }));
                }
                pres(pf.write_error(&*e.unwrap()))
            }
            "get" => get(&env.user_env, w[1], std::str::from_utf8(&unhx(w[2])).unwrap_or("?")),
            "bytes" => env.user_env.get_bytes(&unhx(w[2])).map_or("none".into(), |b| format!("some:{}", hx(b))),
            "str" => env.user_env.get_str(std::str::from_utf8(&unhx(w[2])).unwrap_or("?")).map_or("none".into(), |b| format!("some:{}", hx(b.as_bytes()))),
            "tty" => match env.tty() {
                Some(mut t) => pres(t.write_all(&unhx(w[2]))),
                None => "none".into(),
            },
            "ver" => {
                let a = env.api_version;
                format!("{} {:?}", a, a)
            }
            _ => "badop".into(),
        };
        let _ = cb("do", r.as_bytes());
    }
}

macro_rules! plugin {
    ($sym:ident $ty:ident; $($extra:item)*) => {
        sudo_io_plugin! { $sym : $ty }
        pub struct $ty { env: &'static IoEnv }
        impl Drop for $ty {
            fn drop(&mut self) {
                // the environment must still be there
                let mut t = self.env.user_info.host.as_bytes().to_vec();
                t.extend_from_slice(b" ");
                t.extend_from_slice(self.env.user_info.raw.get_bytes(b"uid").unwrap_or(b"?"));
                let _ = cb("drop", &t);
            }
        }
        impl IoPlugin for $ty {
            type Error = Failure;
            const NAME: &'static str = stringify!($sym);
            fn open(env: &'static IoEnv) -> Result<Self, Failure> {
                let d = dump(env);
                act("open", d.as_bytes())?;
                operations(env);
                Ok($ty { env })
            }
            fn close(self, a: i32, b: i32) {
                let _ = act("close", format!("{} {} {}", a, b, self.env.user_info.host).as_bytes());
            }
            fn log_ttyin(&self, b: &[u8]) -> Result<(), Failure> { act("log_ttyin", b) }
            fn log_ttyout(&self, b: &[u8]) -> Result<(), Failure> { act("log_ttyout", b) }
            fn log_stdin(&self, b: &[u8]) -> Result<(), Failure> { act("log_stdin", b) }
            fn log_stdout(&self, b: &[u8]) -> Result<(), Failure> { act("log_stdout", b) }
            fn log_stderr(&self, b: &[u8]) -> Result<(), Failure> { act("log_stderr", b) }
            fn change_winsize(&self, l: u64, c: u64) -> Result<(), Failure> { act("winsize", format!("{} {}", l, c).as_bytes()) }
            $($extra)*
        }
    };
}
// by default, a plugin honours the hints
plugin! { honours Honours; }
plugin! { ignores Ignores;
    const IGNORE_IOLOG_HINTS: bool = true;
    fn show_version(env: &IoEnv, verbose: bool) {
        let _ = act("version", format!("{} {}", verbose, env.plugin_name).as_bytes());
    }
}

sudo_io_plugin! { bare : Bare }
/// implements `open` only
pub struct Bare;
impl IoPlugin for Bare {
    type Error = Error;
    const NAME: &'static str = "bare";
    const VERSION: &'static str = "7.8-%s";
    fn open(_: &'static IoEnv) -> Result<Self, Error> {
        match cb("open", b"bare") {
            0 => Ok(Bare),
            _ => Err(Error::Other("bare %s failed".into())),
        }
    }
}
#[allow(dead_code)]
fn _unused(_: &Path) {}

// the empty tables, for reading them through the C header
use sudo_plugin::sys;
#[no_mangle]
pub static mut empty_policy: sys::policy_plugin = sys::policy_plugin::empty();
#[no_mangle]
pub static mut empty_io: sys::io_plugin = sys::io_plugin::empty();
#[no_mangle]
pub static mut empty_audit: sys::audit_plugin = sys::audit_plugin::empty();
#[no_mangle]
pub static mut empty_approval: sys::approval_plugin = sys::approval_plugin::empty();

/// sudo's version helpers, for the driver
#[no_mangle]
pub extern "C" fn verif_sys(op: u32, a: u32, b: u32) -> u32 {
    match op {
        0 => sys::sudo_api_mkversion(a, b),
        1 => sys::sudo_api_version_get_major(a),
        2 => sys::sudo_api_version_get_minor(a),
        _ => sys::SUDO_API_VERSION,
    }
}
