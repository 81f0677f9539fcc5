//! An environment for the harnesses of other modules (appended to io_env.rs).
use super::*;
extern crate alloc;
impl IoEnv {
    #[doc(hidden)]
    pub fn verif_printf(&mut self, p: crate::sys::sudo_printf_t) {
        let (stdout, stderr) = unsafe { PrintFacility::new(None, p) };
        self.stdout = stdout;
        self.stderr = stderr;
    }
    #[doc(hidden)]
    pub fn verif_new() -> IoEnv {
        let empty = || unsafe { OptionMap::from_raw(std::ptr::null()) };
        let (stdout, stderr) = unsafe { PrintFacility::new(None, None) };
        IoEnv {
            plugin_name: "t", plugin_version: "1", api_version: Version::from(1u32 << 16 | 17), cmdline: Vec::new(),
            settings: verif_settings(empty()), user_info: verif_user(empty()), command_info: verif_command(empty()),
            user_env: empty(), plugin_options: empty(), stdout, stderr, _conversation: None,
        }
    }
    /// every number, truth value and option is anything (texts that are there
    /// are empty), besides the ones that a harness chooses itself
    #[doc(hidden)]
    pub fn verif_any() -> IoEnv {
        fn t() -> Option<String> { if kani::any() { Some(String::new()) } else { None } }
        fn p() -> Option<PathBuf> { if kani::any() { Some(PathBuf::new()) } else { None } }
        fn v<T: kani::Arbitrary>() -> Vec<T> { if kani::any() { vec![kani::any()] } else { Vec::new() } }
        let mut e = Self::verif_new();
        e.api_version = Version::from(kani::any::<u32>());
        let s = &mut e.settings;
        s.bsd_auth_type = t(); s.close_from = kani::any(); s.debug_flags = t(); s.debug_level = kani::any(); s.ignore_ticket = kani::any();
        s.implied_shell = kani::any(); s.login_class = t(); s.login_shell = kani::any(); s.max_groups = kani::any(); s.noninteractive = kani::any();
        s.preserve_environment = kani::any(); s.preserve_groups = kani::any(); s.prompt = t(); s.remote_host = t(); s.run_shell = kani::any();
        s.runas_group = t(); s.runas_user = t(); s.selinux_role = t(); s.selinux_type = t(); s.set_home = kani::any(); s.sudoedit = kani::any();
        s.timeout = t();
        let u = &mut e.user_info;
        u.cols = kani::any(); u.egid = kani::any(); u.euid = kani::any(); u.gid = kani::any(); u.groups = v(); u.lines = kani::any();
        u.pgid = kani::any(); u.pid = kani::any(); u.ppid = kani::any(); u.sid = kani::any(); u.tcpgid = kani::any(); u.tty = p();
        u.uid = kani::any(); u.umask = t();
        let c = &mut e.command_info;
        c.chroot = t(); c.close_from = kani::any(); c.cwd = p(); c.exec_background = kani::any(); c.exec_fd = kani::any();
        c.iolog_compress = kani::any(); c.iolog_group = t(); c.iolog_mode = t(); c.iolog_path = t(); c.iolog_stdin = kani::any();
        c.iolog_stdout = kani::any(); c.iolog_stderr = kani::any(); c.iolog_ttyin = kani::any(); c.iolog_ttyout = kani::any(); c.iolog_user = t();
        c.login_class = t(); c.nice = kani::any(); c.noexec = kani::any(); c.preserve_fds = v(); c.preserve_groups = kani::any();
        c.runas_egid = kani::any(); c.runas_euid = kani::any(); c.runas_gid = kani::any(); c.runas_groups = if kani::any() { Some(v()) } else { None };
        c.runas_uid = kani::any(); c.selinux_role = t(); c.selinux_type = t(); c.set_utmp = kani::any(); c.sudoedit = kani::any();
        c.sudoedit_checkdir = kani::any(); c.sudoedit_follow = kani::any(); c.timeout = kani::any(); c.umask = kani::any();
        c.umask_override = kani::any(); c.use_pty = kani::any(); c.utmp_user = t();
        e
    }
}
fn verif_settings(raw: OptionMap) -> Settings {
    Settings {
                bsd_auth_type: None, close_from: None, debug_flags: None, debug_level: None, ignore_ticket: false, implied_shell: false,
                login_class: None, login_shell: false, max_groups: None, network_addrs: Vec::new(), noninteractive: false,
                plugin_dir: String::new(), plugin_path: String::new(), preserve_environment: false, preserve_groups: false,
                progname: String::new(), prompt: None, remote_host: None, run_shell: false, runas_group: None, runas_user: None,
                selinux_role: None, selinux_type: None, set_home: false, sudoedit: false, timeout: None, raw,
            }
}
fn verif_user(raw: OptionMap) -> UserInfo {
    UserInfo {
                cols: 80, cwd: PathBuf::new(), egid: 0, euid: 0, gid: 0, groups: Vec::new(), host: String::new(), lines: 24, pgid: 0, pid: 0,
                ppid: 0, sid: 0, tcpgid: 0, tty: None, uid: 0, umask: None, user: String::new(), raw,
            }
}
fn verif_command(raw: OptionMap) -> CommandInfo {
    CommandInfo {
                chroot: None, close_from: None, command: PathBuf::new(), cwd: None, exec_background: false, exec_fd: None, iolog_compress: false,
                iolog_group: None, iolog_mode: None, iolog_path: None, iolog_stdin: false, iolog_stdout: false, iolog_stderr: false,
                iolog_ttyin: false, iolog_ttyout: false, iolog_user: None, login_class: None, nice: None, noexec: false,
                preserve_fds: Default::default(), preserve_groups: false, runas_egid: 0, runas_euid: 0, runas_gid: 0, runas_groups: None, runas_uid: 0,
                selinux_role: None, selinux_type: None, set_utmp: false, sudoedit: false, sudoedit_checkdir: true, sudoedit_follow: false,
                timeout: None, umask: 0o7777, umask_override: None, use_pty: false, utmp_user: None, raw,
            }
}

// ------------------------------------------------------------ IoEnv::new
//
// What the three records are made of is the contract of their decoders
// (plug_map.rs); here they are recognised by the list they were made from.
struct Made {
    ok: [bool; 3],
}
static mut MADE: Made = Made { ok: [false; 3] };
fn made() -> &'static mut Made { unsafe { &mut *std::ptr::addr_of_mut!(MADE) } }
fn refused() -> crate::errors::Error { crate::errors::Error::UncaughtPanic }

fn settings_from(raw: OptionMap) -> Result<Settings> {
    if !made().ok[0] { std::mem::forget(raw); return Err(refused()); }
    Ok(verif_settings(raw))
}
fn user_from(raw: OptionMap) -> Result<UserInfo> {
    if !made().ok[1] { std::mem::forget(raw); return Err(refused()); }
    Ok(verif_user(raw))
}
fn command_from(raw: OptionMap) -> Result<CommandInfo> {
    if !made().ok[2] { std::mem::forget(raw); return Err(refused()); }
    Ok(verif_command(raw))
}

const LISTS: [usize; 5] = [0x1000, 0x2000, 0x3000, 0x4000, 0x5000];

fn making(ok: [bool; 3]) {
    made().ok = ok;
    let version: u32 = kani::any();
    // there is no argument vector when no command is run
    let argv: usize = if kani::any() { 0x8000 } else { 0 };
    let r = unsafe {
        IoEnv::new("t", "1", version, 0, argv as _, LISTS[0] as _, LISTS[1] as _, LISTS[2] as _, LISTS[3] as _, LISTS[4] as _, None, None)
    };
    let supported = version >= (1 << 16 | 9);
    kani::assert(r.is_ok() == (supported && made().ok[0] && made().ok[1] && made().ok[2]), "C19,C22: the environment is refused exactly for an old version or a record that is refused");
    if let Ok(ref e) = r {
        kani::assert(e.settings.raw.verif_mark() == LISTS[0], "C22: the settings are made from sudo's settings");
        kani::assert(e.user_info.raw.verif_mark() == LISTS[1], "C22: the user's information is made from sudo's");
        kani::assert(e.command_info.raw.verif_mark() == LISTS[2], "C22: the command's information is made from sudo's");
        kani::assert(e.user_env.verif_mark() == LISTS[3], "C20: the environment variables are sudo's list");
        kani::assert(e.plugin_options.verif_mark() == LISTS[4], "C20: the plugin's options are sudo's list");
        kani::assert(u32::from(e.api_version) == version, "C19: the version is the one sudo passed");
        kani::assert(e.cmdline.is_empty(), "C23: without arguments the command line is empty");
    } else if let Err(ref e) = r {
        kani::assert(supported || matches!(*e, crate::errors::Error::UnsupportedApiVersion { provided, .. } if u32::from(provided) == version), "C19: the refusal names the version");
    }
    kani::cover!(r.is_ok() == (ok[0] && ok[1] && ok[2]), "supported");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}
macro_rules! making {
    ($($n:ident $a:literal $b:literal $c:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
        #[kani::stub(OptionMap::from_raw, OptionMap::verif_list)]
        #[kani::stub(<Settings as TryFrom<OptionMap>>::try_from, settings_from)]
        #[kani::stub(<UserInfo as TryFrom<OptionMap>>::try_from, user_from)]
        #[kani::stub(<CommandInfo as TryFrom<OptionMap>>::try_from, command_from)]
        fn $n() { making([$a, $b, $c]) }
    )* };
}
making! { env_new true true true env_settings false true true env_user true false true env_command true true false }

#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
#[kani::stub(OptionMap::from_raw, OptionMap::verif_list)]
#[kani::stub(<Settings as TryFrom<OptionMap>>::try_from, settings_from)]
#[kani::stub(<UserInfo as TryFrom<OptionMap>>::try_from, user_from)]
#[kani::stub(<CommandInfo as TryFrom<OptionMap>>::try_from, command_from)]
#[kani::stub(std::ffi::CStr::from_ptr, mstd::ghost::cstr_from_ptr)]
fn env_args() {
    made().ok = [true; 3];
    // a byte, and nothing
    let a: [u8; 2] = [kani::any(), 0];
    kani::assume(a[0] != 0);
    let b = [0u8];
    let argv = [a.as_ptr() as *mut c_char, b.as_ptr() as *mut c_char, std::ptr::null_mut()];
    let r = unsafe {
        IoEnv::new("t", "1", 1 << 16 | 17, 2, argv.as_ptr(), LISTS[0] as _, LISTS[1] as _, LISTS[2] as _, LISTS[3] as _, LISTS[4] as _, None, None)
    };
    kani::assert(r.is_ok(), "C23: any arguments are accepted");
    if let Ok(ref e) = r {
        kani::assert(e.cmdline.len() == 2, "C23: the command line has every argument");
        kani::assert(e.cmdline[0].as_bytes() == &a[..1], "C23: arguments are taken byte for byte");
        kani::assert(e.cmdline[1].as_bytes().is_empty(), "C23: arguments are taken byte for byte");
    }
    kani::cover!(r.is_ok(), "two arguments");
    std::mem::forget(r);
}


// ------------------------------------------------------------- groups, cwd

fn some(n: usize) -> Vec<gid_t> {
    let mut v = Vec::with_capacity(2);
    if n > 0 { v.push(kani::any()); }
    if n > 1 { v.push(kani::any()); }
    v
}
fn groups(given: Option<usize>, own: usize) {
    let mut e = IoEnv::verif_new();
    let g: Option<Vec<gid_t>> = given.map(some);
    let u = some(own);
    e.command_info.runas_groups = g.clone();
    e.user_info.groups = u.clone();
    e.command_info.preserve_groups = kani::any();
    e.command_info.runas_egid = kani::any();
    e.command_info.runas_gid = kani::any();
    e.user_info.gid = kani::any();
    e.user_info.egid = kani::any();
    let s = e.runas_gids();
    let base = g.as_ref().unwrap_or(&u);
    let x: gid_t = kani::any();
    kani::assert(s.contains(&x) == (x == e.command_info.runas_egid || base.contains(&x)), "C24: the groups are the run-as groups, or the user's without, and the effective primary group");
    kani::assert(e.command_info.runas_groups == g && e.user_info.groups == u, "C24: the environment stays as it is");
    kani::cover!(s.len() > 1, "more than one group");
    std::mem::forget((e, s, g, u));
}
macro_rules! groups {
    ($($n:ident $g:expr, $o:literal;)*) => { $(
        #[kani::proof]
        #[kani::unwind(10)]
        fn $n() { groups($g, $o) }
    )* };
}
groups! { gids_own None, 2; gids_given Some(2), 1; gids_empty Some(1), 0; }

#[kani::proof]
fn working_directory() {
    let mut e = IoEnv::verif_new();
    // recognised by where they lie
    e.user_info.cwd = PathBuf::from("u");
    let own: bool = kani::any();
    if own { e.command_info.cwd = Some(PathBuf::from("c")); }
    let want: *const PathBuf = match e.command_info.cwd { Some(ref p) => p, None => &e.user_info.cwd };
    kani::assert(e.cwd() as *const PathBuf == want, "C12: the working directory is the command's own, or else the user's");
    kani::cover!(own, "the command's own");
    std::mem::forget(e);
}

// ------------------------------------------------------------------- flags

fn is(v: &[u8], w: &str, last: Option<u8>) -> bool {
    let w = w.as_bytes();
    if v.len() != w.len() + last.is_some() as usize { return false; }
    let mut i = 0;
    while i < w.len() {
        if v[i] != w[i] { return false; }
        i += 1;
    }
    last.map_or(true, |b| v[i] == b)
}
/// the byte that ends each value: any ASCII byte, a digit for the number
static mut V: [u8; 16] = [0; 16];
fn settings(mask: u32) -> Settings {
    unsafe { V = kani::any() };
    let on = |i: u32| mask >> i & 1 == 1;
    let text = |i: u32, t: &str| if on(i) {
        let b = unsafe { V[i as usize] };
        kani::assume(b < 128);
        let mut t = t.as_bytes().to_vec();
        t.push(b);
        Some(unsafe { String::from_utf8_unchecked(t) })
    } else {
        None
    };
    let mut s = verif_settings(unsafe { OptionMap::from_raw(std::ptr::null()) });
    s.sudoedit = on(0);
    s.runas_user = text(1, "u %");
    s.runas_group = text(2, "");
    s.prompt = if on(3) { Some(String::new()) } else { None };
    s.login_shell = on(4);
    s.run_shell = on(5);
    s.set_home = on(6);
    s.preserve_environment = on(7);
    s.preserve_groups = on(8);
    s.ignore_ticket = on(9);
    s.noninteractive = on(10);
    s.login_class = text(11, "");
    s.selinux_role = text(12, "");
    s.selinux_type = text(13, "");
    s.bsd_auth_type = text(14, "");
    s.close_from = if on(15) {
        let d = unsafe { V[15] };
        kani::assume(d >= b'0' && d <= b'9');
        Some(u64::from(d - b'0'))
    } else {
        None
    };
    // none of these is shown
    s.implied_shell = kani::any();
    s.remote_host = Some(String::from("h"));
    s.timeout = Some(String::from("9"));
    s.debug_flags = Some(String::from("d"));
    s.debug_level = kani::any();
    s.max_groups = kani::any();
    s
}
const SHOWN: [(&str, bool); 16] = [("--edit", false), ("--user u %", true), ("--group ", true), ("--prompt ", false), ("--login", false), ("--shell", false), ("--set-home", false),
    ("--preserve-env", false), ("--preserve-groups", false), ("--reset-timestamp", false), ("--non-interactive", false), ("--login-class ", true), ("--role ", true), ("--type ", true),
    ("--auth-type ", true), ("--close-from ", true)];
fn flags_of(mask: u32, name: &str) {
    let mut s = settings(mask);
    s.progname = String::from(name);
    let f = s.flags();
    let mut n = 0;
    let mut i = 0;
    while i < 16 {
        if mask >> i & 1 == 1 && !(i == 0 && name == "sudoedit") {
            let (w, v) = SHOWN[i as usize];
            kani::assert(n < f.len() && is(&f[n], w, if v { Some(unsafe { V[i as usize] }) } else { None }), "C23: the options that were given are shown in order with their values");
            n += 1;
        }
        i += 1;
    }
    kani::assert(f.len() == n, "C23: no option that was not given is shown");
    std::mem::forget((s, f));
}
macro_rules! flags {
    ($($n:ident $m:expr, $p:literal;)*) => { $(
        #[kani::proof]
        #[kani::unwind(40)]
        fn $n() { flags_of($m, $p) }
    )* };
}
flags! { flags_all 0xffff, "sudo"; flags_none 0, "sudo"; flags_even 0x5555, "s"; flags_odd 0xaaaa, "sudoedit"; flags_sudoedit 3, "sudoedit"; }

static mut FLAGS: usize = 0;
static mut BYTES: [u8; 6] = [0; 6];
fn some_flags(_: &Settings) -> Vec<Vec<u8>> {
    let b = unsafe { BYTES };
    match unsafe { FLAGS } {
        0 => Vec::new(),
        1 => vec![vec![b[0], b[1]]],
        _ => vec![vec![b[0], b[1]], vec![b[2]]],
    }
}
fn invocation_of(flags: usize, args: usize) {
    let mut e = IoEnv::verif_new();
    unsafe {
        FLAGS = flags;
        BYTES = kani::any();
    }
    let b = unsafe { BYTES };
    e.settings.progname = String::from("p");
    let arg = |x: &[u8]| unsafe { CString::from_vec_unchecked(x.to_vec()) };
    match args {
        0 => (),
        1 => e.cmdline.push(arg(&b[3..5])),
        _ => {
            e.cmdline.push(arg(&b[3..5]));
            e.cmdline.push(arg(&[]));
        }
    }
    let r = e.invocation();
    let mut want = [b' '; 10];
    want[0] = b'p';
    let mut n = 1;
    if flags > 0 { want[n + 1] = b[0]; want[n + 2] = b[1]; n += 3; }
    if flags > 1 { want[n + 1] = b[2]; n += 2; }
    if args > 0 { want[n + 1] = b[3]; want[n + 2] = b[4]; n += 3; }
    if args > 1 { n += 1; }
    kani::assert(r.len() == n && {
        let mut ok = true;
        let mut i = 0;
        while i < n && i < r.len() { ok &= r[i] == want[i]; i += 1; }
        ok
    }, "C23: the invocation is the program, its options and its arguments, byte for byte, separated by single spaces");
    std::mem::forget((e, r));
}
macro_rules! invocations {
    ($($n:ident $f:literal $a:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::stub(crate::options::Settings::flags, some_flags)]
        fn $n() { invocation_of($f, $a) }
    )* };
}
invocations! { invocation_bare 0 0 invocation_args 0 2 invocation_flags 2 0 invocation_both 1 1 }
