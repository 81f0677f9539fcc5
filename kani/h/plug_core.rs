//! Contracts of the entry points (appended to core.rs).
//!
//! The plugin `Tp` stands for every plugin: its callbacks return any result and
//! record what they were given. The state before each call is any state that
//! the invariant allows (a plugin only together with its environment), so that
//! the contracts chain to every sequence of callbacks.
use super::*;
use crate::errors::Error as PError;
use mstd::ghost::g;

#[derive(Debug)]
pub(crate) struct TErr {
    open: OpenStatus,
    log: LogStatus,
}
impl std::fmt::Display for TErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for TErr {}
impl From<PError> for TErr {
    fn from(e: PError) -> Self {
        let o: OpenStatus = e.clone().into();
        let l: LogStatus = e.into();
        kani::assert(o == OpenStatus::Deny && l == LogStatus::Deny, "C16: the built-in errors choose denial");
        t().builtin += 1;
        TErr { open: o, log: l }
    }
}
impl From<TErr> for OpenStatus {
    fn from(e: TErr) -> Self {
        inside();
        e.open
    }
}
impl From<TErr> for LogStatus {
    fn from(e: TErr) -> Self {
        inside();
        e.log
    }
}

fn inside() {
    kani::assert(g().catch_depth > 0, "C15: code of the plugin runs where its panics are caught");
}

pub(crate) struct T {
    fail: bool,
    open_status: OpenStatus,
    log_status: LogStatus,
    opens: u32,
    closes: u32,
    close_args: (i32, i32),
    drops: u32,
    builtin: u32,
    versions: u32,
    verbose: bool,
    version_env: usize,
    /// which data callback was called last, how often, and with what
    which: u8,
    calls: u32,
    ptr: usize,
    len: usize,
    win: (u64, u64),
    env_at_open: usize,
    env_gone_at_drop: bool,
    errors: u32,
}
static mut TS: T = T {
    fail: false, open_status: OpenStatus::Ok, log_status: LogStatus::Ok, opens: 0, closes: 0, close_args: (0, 0), drops: 0, builtin: 0,
    versions: 0, verbose: false, version_env: 0, which: 0, calls: 0, ptr: 0, len: 0, win: (0, 0), env_at_open: 0, env_gone_at_drop: false, errors: 0,
};
fn t() -> &'static mut T {
    unsafe { &mut *std::ptr::addr_of_mut!(TS) }
}

pub(crate) struct Tp<const IGNORE: bool>(u8);
impl<const IGNORE: bool> Drop for Tp<IGNORE> {
    fn drop(&mut self) {
        inside();
        t().drops += 1;
        let gone = unsafe { St::<IGNORE>::io_env_mut().is_none() };
        if gone { t().env_gone_at_drop = true; }
    }
}
fn data<const I: bool>(which: u8, b: &[u8]) -> Result<(), TErr> {
    inside();
    let s = t();
    s.which = which;
    s.calls += 1;
    s.ptr = b.as_ptr() as usize;
    s.len = b.len();
    ret()
}
fn ret() -> Result<(), TErr> {
    let s = t();
    if s.fail { Err(TErr { open: s.open_status, log: s.log_status }) } else { Ok(()) }
}
impl<const IGNORE: bool> IoPlugin for Tp<IGNORE> {
    type Error = TErr;
    const NAME: &'static str = "t";
    const VERSION: &'static str = "1";
    const IGNORE_IOLOG_HINTS: bool = IGNORE;
    fn show_version(env: &IoEnv, verbose: bool) {
        inside();
        t().versions += 1;
        t().verbose = verbose;
        t().version_env = env as *const IoEnv as usize;
    }
    fn open(env: &'static IoEnv) -> Result<Self, TErr> {
        inside();
        t().opens += 1;
        t().env_at_open = env as *const IoEnv as usize;
        ret().map(|()| Tp(1))
    }
    fn close(self, a: i32, b: i32) {
        inside();
        t().closes += 1;
        t().close_args = (a, b);
    }
    fn log_ttyin(&self, b: &[u8]) -> Result<(), TErr> { data::<IGNORE>(1, b) }
    fn log_ttyout(&self, b: &[u8]) -> Result<(), TErr> { data::<IGNORE>(2, b) }
    fn log_stdin(&self, b: &[u8]) -> Result<(), TErr> { data::<IGNORE>(3, b) }
    fn log_stdout(&self, b: &[u8]) -> Result<(), TErr> { data::<IGNORE>(4, b) }
    fn log_stderr(&self, b: &[u8]) -> Result<(), TErr> { data::<IGNORE>(5, b) }
    fn change_winsize(&self, l: u64, c: u64) -> Result<(), TErr> {
        inside();
        let s = t();
        s.which = 6;
        s.calls += 1;
        s.win = (l, c);
        ret()
    }
}

static mut ENV: Option<IoEnv> = None;
static mut PL0: Option<Tp<false>> = None;
static mut PL1: Option<Tp<true>> = None;
pub(crate) struct St<const IGNORE: bool>;
unsafe impl<const IGNORE: bool> IoState<Tp<IGNORE>> for St<IGNORE> {
    unsafe fn io_env_mut() -> &'static mut Option<IoEnv> { &mut *std::ptr::addr_of_mut!(ENV) }
    unsafe fn io_plugin_mut() -> &'static mut Option<Tp<IGNORE>> {
        if IGNORE {
            &mut *(std::ptr::addr_of_mut!(PL1) as *mut Option<Tp<IGNORE>>)
        } else {
            &mut *(std::ptr::addr_of_mut!(PL0) as *mut Option<Tp<IGNORE>>)
        }
    }
}

fn any_open() -> OpenStatus {
    match kani::any::<u8>() { 0 => OpenStatus::Ok, 1 => OpenStatus::Disable, 2 => OpenStatus::Deny, _ => OpenStatus::Usage }
}
fn any_log() -> LogStatus {
    match kani::any::<u8>() { 0 => LogStatus::Ok, 1 => LogStatus::Deny, _ => LogStatus::Disable }
}
fn any_plugin() {
    let s = t();
    s.fail = kani::any();
    s.open_status = any_open();
    s.log_status = any_log();
}

/// the error report of a failed callback (its own contract is C26's)
fn report(_: &mut PrintFacility, _: &dyn std::error::Error) -> mstd::io::Result<()> {
    t().errors += 1;
    if kani::any() { Ok(()) } else { Err(mstd::io::Error::any_os_error()) }
}

fn hint(env: &mut IoEnv) -> [bool; 5] {
    let h: [bool; 5] = kani::any();
    env.command_info.iolog_ttyin = h[0];
    env.command_info.iolog_ttyout = h[1];
    env.command_info.iolog_stdin = h[2];
    env.command_info.iolog_stdout = h[3];
    env.command_info.iolog_stderr = h[4];
    h
}

fn data_callbacks<const I: bool>() {
    any_plugin();
    let mut env = IoEnv::verif_any();
    let h = hint(&mut env);
    unsafe {
        ENV = Some(env);
        *St::<I>::io_plugin_mut() = Some(Tp(1));
    }
    let b = [0u8; 4];
    let p = b.as_ptr();
    let n: u32 = kani::any();
    let which: u8 = kani::any();
    kani::assume(which >= 1 && which <= 5);
    let e = std::ptr::null_mut();
    let r = unsafe {
        match which {
            1 => log_ttyin::<Tp<I>, St<I>>(p.cast(), n, e),
            2 => log_ttyout::<Tp<I>, St<I>>(p.cast(), n, e),
            3 => log_stdin::<Tp<I>, St<I>>(p.cast(), n, e),
            4 => log_stdout::<Tp<I>, St<I>>(p.cast(), n, e),
            _ => log_stderr::<Tp<I>, St<I>>(p.cast(), n, e),
        }
    };
    let s = t();
    let asked = I || h[which as usize - 1];
    kani::assert((s.calls == 1) == asked && s.calls <= 1, "C18: the stream reaches the plugin exactly when its own hint asks for it");
    kani::assert(!asked || s.which == which, "C18: the stream reaches the callback of that stream");
    kani::assert(!asked || (s.ptr == p as usize && s.len == n as usize), "C18: the callback sees exactly the bytes sudo passed");
    kani::assert(asked || r == 1, "C16,C18: data the plugin isn't given is accepted");
    kani::assert(!asked || s.fail || r == 1, "C16: success is reported as 1");
    kani::assert(!asked || !s.fail || r == s.log_status as i32, "C16: an error is reported as the status it chooses");
    kani::assert(s.errors == (asked && s.fail) as u32, "C16: an error is printed, once");
    kani::assert(unsafe { ENV.is_some() && (*St::<I>::io_plugin_mut()).is_some() } && s.drops == 0, "C17: a logging callback leaves the state as it is");
    kani::cover!(asked && s.fail, "a failing callback");
    kani::cover!(asked && !s.fail && n > 1000, "a large chunk");
}

#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
fn data_honours() { data_callbacks::<false>() }
#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
fn data_ignores() { data_callbacks::<true>() }

// ------------------------------------------------------------------ open

/// what `IoEnv::new` was given and what it answers (its own contract is that
/// of C19, C20 and C22)
struct New {
    calls: u32,
    ok: bool,
    command: bool,
    args_right: bool,
}
static mut NEW: New = New { calls: 0, ok: false, command: false, args_right: false };
fn nw() -> &'static mut New {
    unsafe { &mut *std::ptr::addr_of_mut!(NEW) }
}
const AT: [usize; 6] = [0x1000, 0x2000, 0x3000, 0x4000, 0x5000, 0x6000];
static mut VERSION: u32 = 0;
static mut ARGC: i32 = 0;

#[allow(clippy::too_many_arguments)]
unsafe fn env_new(
    _name: &'static str, _version: &'static str, version: raw::c_uint, argc: raw::c_int, argv: *const *mut raw::c_char,
    settings: *const *mut raw::c_char, user_info: *const *mut raw::c_char, command_info: *const *mut raw::c_char,
    user_env: *const *mut raw::c_char, plugin_options: *const *mut raw::c_char, _printf: sys::sudo_printf_t, _conv: sys::sudo_conv_t,
) -> std::result::Result<IoEnv, PError> {
    inside();
    let n = nw();
    n.calls += 1;
    n.args_right = version == VERSION && argc == ARGC && argv as usize == AT[0] && settings as usize == AT[1] && user_info as usize == AT[2]
        && command_info as usize == AT[3] && user_env as usize == AT[4] && plugin_options as usize == AT[5];
    if !n.ok {
        return Err(match kani::any::<u8>() {
            0 => PError::UncaughtPanic,
            1 => PError::OptionMissing { key: String::new() },
            2 => PError::OptionInvalid { key: String::new(), value: String::new() },
            _ => PError::Other(String::new()),
        });
    }
    let mut env = IoEnv::verif_any();
    if n.command {
        env.command_info.command = PathBuf::from(match kani::any::<u8>() { 0 => "/", 1 => "..", 2 => ".", _ => "/c" });
    }
    Ok(env)
}

type Pl = Tp<false>;
type S0 = St<false>;

unsafe fn call_open() -> i32 {
    open::<Pl, S0>(VERSION, None, None, AT[1] as _, AT[2] as _, AT[3] as _, ARGC, AT[0] as _, AT[4] as _, AT[5] as _, std::ptr::null_mut())
}

fn opening(ok: bool, command: bool) {
    any_plugin();
    unsafe {
        VERSION = kani::any();
        ARGC = kani::any();
    }
    nw().ok = ok;
    nw().command = command;
    let r = unsafe { call_open() };
    let (s, n) = (t(), nw());
    let plugin = unsafe { S0::io_plugin_mut().is_some() };
    let env = unsafe { ENV.is_some() };
    kani::assert(n.calls == 1 && n.args_right, "C22: the environment is made from sudo's own lists");
    kani::assert(s.opens <= 1, "C17: the plugin is opened at most once");
    kani::assert((s.opens == 1) == (n.ok && n.command), "C17: the plugin is opened exactly for a usable environment with a command");
    kani::assert(plugin == (s.opens == 1 && !s.fail), "C17: the plugin is open exactly after a successful open");
    kani::assert(!plugin || env, "C17: an open plugin has its environment");
    kani::assert(s.opens == 0 || env && s.env_at_open == unsafe { ENV.as_ref().unwrap() as *const IoEnv as usize }, "C17: the environment the plugin was given is the one that stays");
    kani::assert(n.ok || r == -1, "C16: an unusable environment is refused");
    kani::assert(!n.ok || n.command || r == 1, "C17: without a command opening succeeds");
    kani::assert(s.opens == 0 || s.fail || r == 1, "C16: success is reported as 1");
    kani::assert(s.opens == 0 || !s.fail || r == s.open_status as i32, "C16: an error is reported as the status it chooses");
    kani::assert(s.errors == (!n.ok || s.opens == 1 && s.fail) as u32, "C16: an error is printed, once");
    kani::assert(n.ok || s.builtin == 1, "C16: a built-in error becomes the plugin's error");
    kani::assert(n.ok || !env, "C17: without a usable environment nothing is kept");
    kani::assert(s.drops == 0, "C17: an open plugin is kept");
    kani::cover!(r == if ok { 1 } else { -1 } && plugin == (ok && command), "answered");
}

macro_rules! openings {
    ($($n:ident $ok:literal $command:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(4)]
        #[kani::stub(crate::output::PrintFacility::write_error, report)]
        #[kani::stub(crate::plugin::IoEnv::new, env_new)]
        #[kani::stub(std::fmt::format, mstd::ghost::format_opaque)]
        fn $n() { opening($ok, $command) }
    )* };
}
openings! { entry_open true true open_without_command true false open_without_env false false }


// ----------------------------------------------------------------- close

/// any state that can be there between two callbacks
unsafe fn any_state() -> bool {
    let env: bool = kani::any();
    let plugin: bool = kani::any();
    kani::assume(env || !plugin);
    if env {
        ENV = Some(IoEnv::verif_any());
    }
    if plugin {
        *S0::io_plugin_mut() = Some(Tp(1));
    }
    plugin
}

#[kani::proof]
fn entry_close() {
    any_plugin();
    let plugin = unsafe { any_state() };
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    unsafe { close::<Pl, S0>(a, b) };
    let s = t();
    kani::assert(s.closes == plugin as u32, "C17: close reaches an open plugin exactly once");
    kani::assert(!plugin || s.close_args == (a, b), "C17: close passes sudo's status and error");
    kani::assert(s.drops == plugin as u32 && !s.env_gone_at_drop, "C17: the plugin is gone before its environment");
    kani::assert(unsafe { ENV.is_none() && S0::io_plugin_mut().is_none() }, "C17: nothing is left after close");
    kani::cover!(plugin, "an open plugin");
    kani::cover!(!plugin, "no open plugin");
}

// --------------------------------------------------- winsize, show_version

#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
fn entry_winsize() {
    any_plugin();
    let mut env = IoEnv::verif_any();
    let _ = hint(&mut env);
    unsafe {
        ENV = Some(env);
        *S0::io_plugin_mut() = Some(Tp(1));
    }
    let (l, c): (u32, u32) = (kani::any(), kani::any());
    let r = unsafe { change_winsize::<Pl, S0>(l, c, std::ptr::null_mut()) };
    let s = t();
    kani::assert(s.calls == 1 && s.which == 6, "C18: window size changes are always delivered");
    kani::assert(s.win == (u64::from(l), u64::from(c)), "C18: the callback sees the rows and columns sudo passed");
    kani::assert(r == if s.fail { s.log_status as i32 } else { 1 }, "C16: the status of a window size change");
    kani::assert(s.errors == s.fail as u32, "C16: an error is printed, once");
    kani::cover!(s.fail, "a failing callback");
    kani::cover!(!s.fail, "a successful callback");
}

#[kani::proof]
fn entry_show_version() {
    any_plugin();
    unsafe { ENV = Some(IoEnv::verif_any()) };
    let plugin: bool = kani::any();
    if plugin {
        unsafe { *S0::io_plugin_mut() = Some(Tp(1)) };
    }
    let verbose: i32 = kani::any();
    let r = unsafe { show_version::<Pl, S0>(verbose) };
    kani::assert(r == 1 && t().versions == 1 && t().calls == 0 && t().opens == 0, "C16: showing the version succeeds");
    kani::assert(t().verbose == (verbose != 0), "C17: the version is shown with the verbosity sudo asked for");
    kani::assert(t().version_env == S0::io_env() as *const IoEnv as usize, "C17: the version is shown with this session's environment");
    kani::assert(unsafe { S0::io_plugin_mut().is_some() } == plugin && t().drops == 0, "C17: showing the version leaves the state as it is");
    kani::cover!(plugin, "with an open plugin");
}

// ------------------------------------------------------ without a plugin

unsafe fn call_log(which: u8) -> i32 {
    let b = [0u8; 4];
    let (p, n, e) = (b.as_ptr(), 4, std::ptr::null_mut());
    match which {
        1 => log_ttyin::<Pl, S0>(p.cast(), n, e),
        2 => log_ttyout::<Pl, S0>(p.cast(), n, e),
        3 => log_stdin::<Pl, S0>(p.cast(), n, e),
        4 => log_stdout::<Pl, S0>(p.cast(), n, e),
        5 => log_stderr::<Pl, S0>(p.cast(), n, e),
        _ => change_winsize::<Pl, S0>(kani::any(), kani::any(), e),
    }
}

/// a panic inside `catch_unwind` is the expected way to refuse here
#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
fn absent_log() {
    any_plugin();
    unsafe {
        if kani::any() {
            let mut env = IoEnv::verif_any();
            let _ = hint(&mut env);
            ENV = Some(env);
        }
    }
    let which: u8 = kani::any();
    kani::assume(which >= 1 && which <= 6);
    kani::cover!(which == 6, "every callback");
    let r = unsafe { call_log(which) };
    kani::assert(r == 0, "C17: without an open plugin logging is denied");
    kani::assert(t().calls == 0 && t().opens == 0, "C17: without an open plugin nothing is called");
}

// ---------------------------------------------------------------- panics

/// `catch_unwind` reports a panic: whatever the closure did, the entry point
/// returns the denial, and nothing outside the closure panics or is the
/// plugin's
#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
#[kani::stub(crate::plugin::IoEnv::new, env_new)]
fn panicking() {
    any_plugin();
    let _ = unsafe { any_state() };
    g().panic_now = true;
    let which: u8 = kani::any();
    kani::assume(which <= 8);
    let r = unsafe {
        match which {
            0 => call_open(),
            7 => show_version::<Pl, S0>(kani::any()),
            8 => { close::<Pl, S0>(kani::any(), kani::any()); -1 }
            w => call_log(w),
        }
    };
    kani::assert(g().catch_calls == 1, "C15: the callback runs where its panics are caught");
    kani::assert(which == 0 || which > 6 || r == 0, "C15: a panic while logging denies");
    kani::assert(which != 0 || r == -1, "C15: a panic while opening denies");
    kani::assert(which != 7 || r == -1, "C15: a panic while showing the version is reported");
    kani::assert(t().calls == 0 && t().opens == 0 && t().closes == 0 && t().versions == 0, "C15: nothing of the plugin runs outside");
    kani::cover!(which == 8, "close");
    kani::cover!(which == 0, "open");
    kani::cover!(which == 6, "window size");
}

// ------------------------------------------------------- the exported table
crate::sudo_io_plugin! { verif_table: Pl }
macro_rules! slots {
    ($($n:ident $slot:ident $which:literal)*) => { $(
        #[kani::proof]
        #[kani::stub(crate::output::PrintFacility::write_error, report)]
        fn $n() {
            any_plugin();
            let mut env = IoEnv::verif_any();
            let c = &mut env.command_info;
            c.iolog_ttyin = true;
            c.iolog_ttyout = true;
            c.iolog_stdin = true;
            c.iolog_stdout = true;
            c.iolog_stderr = true;
            unsafe {
                *<verif_table::State as IoState<Pl>>::io_env_mut() = Some(env);
                *<verif_table::State as IoState<Pl>>::io_plugin_mut() = Some(Tp(1));
            }
            let b = [0u8; 4];
            let slot = unsafe { (*std::ptr::addr_of!(verif_table)).$slot };
            kani::assert(slot.is_some(), concat!("C27: slot ", stringify!($slot), " is filled"));
            if let Some(f) = slot {
                let _ = unsafe { f(b.as_ptr().cast(), 4, std::ptr::null_mut()) };
                kani::assert(t().which == $which && t().calls == 1 && t().opens == 0, concat!("C27: slot ", stringify!($slot), " is that callback of the plugin"));
                kani::cover!(t().fail, "called");
            }
        }
    )* };
}
slots! { slot_ttyin log_ttyin 1 slot_ttyout log_ttyout 2 slot_stdin log_stdin 3 slot_stdout log_stdout 4 slot_stderr log_stderr 5 }

#[kani::proof]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
fn slot_rest() {
    any_plugin();
    let tb = unsafe { &*std::ptr::addr_of!(verif_table) };
    kani::assert(tb.type_ == sys::SUDO_IO_PLUGIN && tb.version == sys::SUDO_API_VERSION, "C27: the table is an I/O plugin of the supported version");
    kani::assert(tb.register_hooks.is_none() && tb.deregister_hooks.is_none() && tb.log_suspend.is_none() && tb.event_alloc.is_none(), "C27: no other slot is filled");
    kani::assert(tb.open.is_some() && tb.close.is_some() && tb.show_version.is_some() && tb.change_winsize.is_some(), "C27: every callback is provided");
    unsafe { *<verif_table::State as IoState<Pl>>::io_env_mut() = Some(IoEnv::verif_new()) };
    let _ = unsafe { tb.show_version.unwrap()(0) };
    kani::assert(t().versions == 1 && t().calls == 0, "C27: slot show_version is that callback of the plugin");
    unsafe { *<verif_table::State as IoState<Pl>>::io_plugin_mut() = Some(Tp(1)) };
    let (l, c): (u32, u32) = (kani::any(), kani::any());
    let _ = unsafe { tb.change_winsize.unwrap()(l, c, std::ptr::null_mut()) };
    kani::assert(t().which == 6 && t().win == (l as u64, c as u64), "C27: slot change_winsize is that callback of the plugin");
    let (l, c): (i32, i32) = (kani::any(), kani::any());
    unsafe { tb.close.unwrap()(l, c) };
    kani::assert(t().closes == 1 && t().close_args == (l, c), "C27: slot close is that callback of the plugin");
    kani::cover!(t().closes == 1, "called");
}

#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(crate::output::PrintFacility::write_error, report)]
#[kani::stub(crate::plugin::IoEnv::new, env_new)]
#[kani::stub(std::fmt::format, mstd::ghost::format_opaque)]
fn slot_open() {
    any_plugin();
    unsafe {
        VERSION = kani::any();
        ARGC = kani::any();
    }
    nw().ok = true;
    nw().command = true;
    let f = unsafe { (*std::ptr::addr_of!(verif_table)).open };
    let r = unsafe { f.unwrap()(VERSION, None, None, AT[1] as _, AT[2] as _, AT[3] as _, ARGC, AT[0] as _, AT[4] as _, AT[5] as _, std::ptr::null_mut()) };
    kani::assert(nw().calls == 1 && nw().args_right && t().opens == 1, "C27: slot open is that callback of the plugin");
    kani::cover!(r == 1, "opened");
}

#[kani::proof]
fn empty_tables() {
    let (p, i, a, v) = (sys::policy_plugin::empty(), sys::io_plugin::empty(), sys::audit_plugin::empty(), sys::approval_plugin::empty());
    let version = 1 << 16 | 17;
    // as in sudo_plugin.h
    kani::assert(p.type_ == 1 && i.type_ == 2 && a.type_ == 3 && v.type_ == 4, "C27: the empty tables have the right kind");
    kani::assert(p.version == version && i.version == version && a.version == version && v.version == version, "C27: the empty tables have the supported version");
    kani::assert(p.open.is_none() && p.close.is_none() && p.show_version.is_none() && p.check_policy.is_none() && p.list.is_none() && p.validate.is_none()
        && p.invalidate.is_none() && p.init_session.is_none() && p.register_hooks.is_none() && p.deregister_hooks.is_none() && p.event_alloc.is_none(), "C27: the empty policy table has no callbacks");
    kani::assert(i.open.is_none() && i.close.is_none() && i.show_version.is_none() && i.log_ttyin.is_none() && i.log_ttyout.is_none() && i.log_stdin.is_none()
        && i.log_stdout.is_none() && i.log_stderr.is_none() && i.register_hooks.is_none() && i.deregister_hooks.is_none() && i.change_winsize.is_none()
        && i.log_suspend.is_none() && i.event_alloc.is_none(), "C27: the empty I/O table has no callbacks");
    kani::assert(a.open.is_none() && a.close.is_none() && a.accept.is_none() && a.reject.is_none() && a.error.is_none() && a.show_version.is_none()
        && a.register_hooks.is_none() && a.deregister_hooks.is_none() && a.event_alloc.is_none(), "C27: the empty audit table has no callbacks");
    kani::assert(v.open.is_none() && v.close.is_none() && v.check.is_none() && v.show_version.is_none(), "C27: the empty approval table has no callbacks");
}
