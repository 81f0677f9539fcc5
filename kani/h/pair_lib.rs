//! Contracts of the plugin itself (appended to lib.rs).
use super::*;
use mstd::fs::{f, tty};
use mstd::ghost::g;
use std::path::Path;
extern crate alloc;

// ------------------------------------------------------------ environment

static mut ENV: std::mem::MaybeUninit<IoEnv> = std::mem::MaybeUninit::uninit();
fn env() -> &'static mut IoEnv { unsafe { (*std::ptr::addr_of_mut!(ENV)).assume_init_mut() } }
fn set_env(e: IoEnv) { unsafe { std::ptr::addr_of_mut!(ENV).cast::<IoEnv>().write(e) } }

/// what the user's error channel got
struct Chan {
    calls: u32,
    n: usize,
    got: u8,
    probe: usize,
    level: i32,
}
static mut CHAN: Chan = Chan { calls: 0, n: 0, got: 0, probe: 0, level: 0 };
fn chan() -> &'static mut Chan {
    unsafe { &mut *std::ptr::addr_of_mut!(CHAN) }
}
unsafe extern "C" fn printf(level: i32, _fmt: *const std::os::raw::c_char, arg: *const std::os::raw::c_char) -> i32 {
    let c = chan();
    c.calls += 1;
    c.level = level;
    let mut j = 0;
    while *arg.add(j) != 0 {
        if c.n == c.probe {
            c.got = *arg.add(j) as u8;
        }
        c.n += 1;
        j += 1;
    }
    j as i32
}

/// the run-as groups, as C24 describes them: any one group
static mut RUNAS_GID: gid_t = 0;
fn runas_gids(_: &IoEnv) -> HashSet<gid_t> {
    let mut s = HashSet::new();
    let _ = s.insert(unsafe { RUNAS_GID });
    s
}

/// whether the command is the approval binary (`decide_approval` proves it)
static mut APPROVAL: bool = false;
fn is_approval(_: &SudoPair) -> bool { unsafe { APPROVAL } }

/// any identities and logging hints
fn any_env() {
    let e = IoEnv::verif_any();
    unsafe {
        RUNAS_GID = kani::any();
        APPROVAL = kani::any();
    }
    set_env(e);
}
fn to_user() -> bool { env().user_info.uid != env().command_info.runas_euid }
fn explicit_group() -> bool { env().settings.runas_group.is_some() }
fn exempt() -> bool {
    let e = env();
    e.user_info.uid == e.user_info.euid
        || !to_user() && e.user_info.gid == e.command_info.runas_egid
        || unsafe { APPROVAL }
        || !e.command_info.iolog_ttyout && !e.command_info.iolog_stdout && !e.command_info.iolog_stderr
        || unsafe { RUNAS_GID } != 0
}


/// uid and group stay but the primary gid does not, and no group was named: such
/// a session is refused by a panic, which the entry point catches (C15)
fn neither() -> bool { !to_user() && !explicit_group() }

fn pair(socket: Option<Socket>) -> SudoPair {
    SudoPair {
        env: env(),
        options: PluginOptions {
            binary_path: DEFAULT_BINARY_PATH.into(),
            user_prompt_path: DEFAULT_USER_PROMPT_PATH.into(),
            pair_prompt_path: DEFAULT_PAIR_PROMPT_PATH.into(),
            socket_dir: DEFAULT_SOCKET_DIR.into(),
            gids_enforced: HashSet::new(),
            gids_exempted: HashSet::new(),
        },
        socket: socket.map(RefCell::new),
        slog: slog::Logger::root(slog::Discard, slog::o!()),
    }
}

// ------------------------------------------------------------------- open

/// the steps of a pair session, as the contracts of their functions give them
struct Steps {
    local: u32,
    connects: u32,
    connect_fails: bool,
    asks: u32,
    approved: bool,
    in_order: bool,
}
static mut STEPS: Steps = Steps { local: 0, connects: 0, connect_fails: false, asks: 0, approved: false, in_order: true };
fn st() -> &'static mut Steps {
    unsafe { &mut *std::ptr::addr_of_mut!(STEPS) }
}
fn any_kind() -> ErrorKind {
    match kani::any::<u8>() {
        0 => ErrorKind::CommunicationError,
        1 => ErrorKind::SessionDeclined,
        _ => ErrorKind::SessionTerminated,
    }
}
/// contract: `local_prompt`
fn local(_: &SudoPair, _: &Spec) {
    let s = st();
    s.local += 1;
    if s.connects + s.asks > 0 { s.in_order = false; }
}
/// contract: `remote_connect`
fn connect(p: &mut SudoPair) -> Result<()> {
    let s = st();
    s.connects += 1;
    if s.asks > 0 { s.in_order = false; }
    if s.connect_fails {
        return Err(any_kind().into());
    }
    p.socket = Some(RefCell::new(Socket::verif_connected()));
    Ok(())
}
/// contract: `remote_prompt`
fn ask(p: &mut SudoPair, _: &Spec) -> Result<()> {
    let s = st();
    s.asks += 1;
    if p.socket.is_none() || !s.approved {
        return Err(any_kind().into());
    }
    Ok(())
}
/// a specification with the documented escape byte (its variables: C12's own unit)
fn spec_only(_: &SudoPair) -> Spec { Spec::with_escape(b'%') }

#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::fmt::format, mstd::ghost::format_opaque)]
#[kani::stub(IoEnv::runas_gids, runas_gids)]
#[kani::stub(OptionMap::get, OptionMap::verif_none)]
#[kani::stub(SudoPair::is_sudoing_approval_command, is_approval)]
#[kani::stub(SudoPair::template_spec, spec_only)]
#[kani::stub(SudoPair::local_pair_prompt, local)]
#[kani::stub(SudoPair::remote_pair_connect, connect)]
#[kani::stub(SudoPair::remote_pair_prompt, ask)]
fn pair_open() {
    any_env();
    st().connect_fails = kani::any();
    st().approved = kani::any();
    let r = <SudoPair as IoPlugin>::open(env());
    let (gh, s) = (g(), st());
    let ok = r.is_ok();
    let ex = exempt();
    let both = to_user() && explicit_group();
    let pair = !ex && !both;
    let quiet = s.local + s.connects + s.asks == 0;

    kani::assert(!ex || ok, "C02,C09: an exempt session starts");
    kani::assert(!ex || quiet, "C02,C09: an exempt session waits for nobody and prints nothing");
    kani::assert(ex || !both || !ok, "C03: changing the user together with an explicit group is refused");
    kani::assert(ex || !both || quiet, "C03: it is refused before anything happens");
    kani::assert(!pair || !ok || s.connects == 1 && !s.connect_fails && s.asks == 1 && s.approved, "C01,C02: a session that needs a pair starts only with its approval");
    kani::assert(!(pair && !s.connect_fails && s.approved) || ok, "C01: an approved session starts");
    kani::assert(!pair || s.local == 1 && s.connects == 1, "C12: the user's prompt is printed once and the pair is waited for");
    kani::assert(s.in_order && s.connects <= 1 && s.asks <= 1, "C01,C12: first the user's prompt, then the wait for the pair, then its question");
    match r {
        Ok(p) => {
            kani::assert(p.socket.is_some() == pair && gh.open_streams == pair as i32, "C08,C09,C10,C11: a session is paired exactly when it needed a pair");
            kani::assert(!gh.shut_both, "C08: an approved session stays connected");
            kani::cover!(pair, "approved");
            kani::cover!(!pair, "exempt");
            std::mem::forget(p);
        }
        Err(e) => {
            kani::assert(gh.open_streams == 0 && (gh.shut_both || s.connects == 0 || s.connect_fails), "C11: a refused peer is disconnected");
            let o: OpenStatus = e.into();
            kani::assert(o == OpenStatus::Deny, "C01,C03: a refusal is a denial");
            kani::cover!(both, "user and group");
            kani::cover!(s.asks == 1, "declined");
        }
    }
}

// ------------------------------------------------------- connecting the pair

/// the contract of `Socket::open` (C04 to C07): a connected peer, or an error
fn socket_open<P: AsRef<std::path::Path>>(path: P, uid: uid_t, gid: gid_t, mode: mode_t) -> mstd::io::Result<Socket> {
    let s = st();
    s.connects += 1;
    kani::assert(path.as_ref().as_os_str().len() == 2, "C07: the socket is made at its own path");
    if to_user() {
        kani::assert(uid == env().command_info.runas_euid, "C04: the socket is owned by the target user");
        kani::assert(gid == gid_t::max_value(), "C04: with a target user the group stays");
        kani::assert(mode == 0o200, "C04: only its owner may write to the target user's socket");
    } else {
        kani::assert(uid == uid_t::max_value(), "C04: without a target user the owner stays");
        kani::assert(gid == env().command_info.runas_egid, "C04: the socket is given to the target group");
        kani::assert(mode == 0o020, "C04: only the target group may write to its socket");
    }
    if s.connect_fails {
        return Err(mstd::io::Error::any_os_error());
    }
    Ok(Socket::verif_connected())
}
/// the path of the socket (C07's own unit)
fn some_path(_: &SudoPair) -> PathBuf { PathBuf::from("/p") }

#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::fmt::format, mstd::ghost::format_opaque)]
#[kani::stub(Socket::open, socket_open)]
#[kani::stub(SudoPair::socket_path, some_path)]
fn remote_connect() {
    any_env();
    kani::assume(!exempt() && !(to_user() && explicit_group()) && !neither());
    st().connect_fails = kani::any();
    let mut p = pair(None);
    let r = p.remote_pair_connect();
    kani::assert(st().connects == 1, "C01,C04: one socket is made");
    kani::assert(r.is_ok() == !st().connect_fails, "C01,C05: a session goes on exactly with a connected peer");
    kani::assert(p.socket.is_some() == r.is_ok() && g().open_streams == r.is_ok() as i32 && !g().shut_both, "C01,C11: the connection is kept");
    kani::cover!(r.is_ok() && to_user(), "a target user");
    kani::cover!(r.is_ok() && !to_user(), "a target group");
    kani::cover!(r.is_err(), "a failure");
    std::mem::forget((p, r));
}

// ------------------------------------------------------------ the two prompts

/// what a template file yields: its content, or nothing if it cannot be read
fn file_ok(i: usize) -> bool { f(i).exists && f(i).fail_at > f(i).len }
fn is_template(i: usize, t: &[u8], d: &[u8]) -> bool {
    if file_ok(i) {
        return t.as_ptr() == &mstd::fs::CONTENT[i] as *const u8 && t.len() == f(i).len;
    }
    // any one position
    let k: usize = kani::any();
    t.len() == d.len() && (k >= d.len() || t[k] == d[k])
}
static mut EXPANDS: u32 = 0;
/// a prompt: any text
static PROMPT: u8 = 0;
static mut PROMPT_LEN: usize = 0;
fn prompt() -> Vec<u8> {
    unsafe {
        EXPANDS += 1;
        mstd::ghost::opaque_vec(&PROMPT, PROMPT_LEN)
    }
}
/// `expand` (C13)
fn expand_user(_: &Spec, t: &[u8]) -> Vec<u8> {
    kani::assert(is_template(0, t, b"%B %u %p\n"), "C12: the user's prompt is made from the configured file or the documented default");
    prompt()
}
fn expand_pair(_: &Spec, t: &[u8]) -> Vec<u8> {
    kani::assert(is_template(1, t, b"%U@%h:%d$ %C\ny/n? [n]: "), "C12: the pair's prompt is made from the configured file or the documented default");
    prompt()
}
/// any template files, as opaque pieces of memory, any prompt shorter than `max`
fn any_files(max: usize) -> usize {
    tty().path = b"/t";
    tty().exists = kani::any();
    tty().write_fails = kani::any();
    let mut i = 0;
    while i < 2 {
        let x = f(i);
        x.path = if i == 0 { b"/etc/sudo_pair.prompt.user" } else { b"/etc/sudo_pair.prompt.pair" };
        x.exists = kani::any();
        x.len = kani::any();
        kani::assume(x.len <= isize::MAX as usize);
        x.fail_at = kani::any();
        i += 1;
    }
    g().opaque_files = true;
    g().big_step = true;
    let len: usize = kani::any();
    kani::assume(len <= max);
    unsafe { PROMPT_LEN = len };
    len
}

/// sudo's printf, given a text made by `cstring`
unsafe extern "C" fn printf_token(level: i32, _fmt: *const std::os::raw::c_char, arg: *const std::os::raw::c_char) -> i32 {
    let c = chan();
    c.calls += 1;
    c.level = level;
    kani::assert(*arg as u8 == b'T', "model: the text was made by CString::new");
    PROMPT_LEN as i32
}
/// `CString::new`, for the prompt: a token, or an error if the text holds a NUL
fn cstring<T: Into<Vec<u8>>>(t: T) -> std::result::Result<std::ffi::CString, std::ffi::NulError> {
    kani::assert(std::mem::size_of::<T>() == 16, "model: the text is a slice");
    let (p, n): (usize, usize) = unsafe { std::mem::transmute_copy(&t) };
    std::mem::forget(t);
    kani::assert(p == &PROMPT as *const u8 as usize && n == unsafe { PROMPT_LEN }, "C12: the user's prompt is printed as it is");
    if unsafe { HAS_NUL } {
        return Err(unsafe { std::mem::MaybeUninit::<std::ffi::NulError>::zeroed().assume_init() });
    }
    Ok(unsafe { std::ffi::CString::from_vec_unchecked(vec![b'T']) })
}
static mut HAS_NUL: bool = false;

fn local_prompt(have_tty: bool) {
    any_env();
    env().verif_printf(Some(printf_token));
    env().user_info.tty = if have_tty { Some(PathBuf::from("/t")) } else { None };
    // what printf returns is an int
    let len = any_files(i32::MAX as usize);
    unsafe { HAS_NUL = kani::any() };
    let nul = unsafe { HAS_NUL };
    tty().opaque = &PROMPT as *const u8 as usize;
    let p = pair(None);
    let spec = Spec::with_escape(b'%');
    p.local_pair_prompt(&spec);
    let (t, c) = (tty(), chan());
    let to_tty = have_tty && t.exists && !(t.write_fails && len > 0);
    kani::assert(unsafe { EXPANDS } == 1, "C12: the user's prompt is the expanded template");
    kani::assert(!to_tty || t.written == len && t.same && c.calls == 0, "C12: the user's prompt is written in full to a usable terminal");
    kani::assert(to_tty || c.calls == (len > 0 && !nul) as u32 && (c.calls == 0 || c.level == 3) && t.written == 0, "C12: the user's prompt is written in full to the error channel when there is no usable terminal");
    kani::assert(g().io_calls == 0, "C12: the pair gets another prompt");
    kani::cover!(to_tty == have_tty && len > 1000, "printed");
    kani::cover!(file_ok(0) && f(0).len > 1000, "from a file");
    std::mem::forget((p, spec));
}
macro_rules! locals {
    ($($n:ident $tty:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(std::ffi::CString::new, cstring)]
        #[kani::stub(Spec::expand, expand_user)]
        #[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
        fn $n() { local_prompt($tty) }
    )* };
}
locals! { local_prompt_tty true local_prompt_notty false }

#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(Spec::expand, expand_pair)]
#[kani::stub(alloc::alloc::dealloc_nonnull, mstd::ghost::keep)]
fn remote_prompt() {
    any_env();
    let len = any_files(isize::MAX as usize);
    g().opaque_first = &PROMPT as *const u8 as usize;
    g().probe = kani::any();
    g().sa_flags = kani::any();
    g().sa_handler = kani::any();
    g().sa_initial_flags = g().sa_flags;
    g().sa_initial_handler = g().sa_handler;
    g().sa_fail_at = kani::any();
    let mut p = pair(Some(Socket::verif_connected()));
    let spec = Spec::with_escape(b'%');
    let r = p.remote_pair_prompt(&spec);
    let gh = g();
    let ok = r.is_ok();
    let failed = gh.write_failed || gh.sa_fail_at >= 1 && gh.sa_fail_at <= gh.sa_calls;
    let delivered = gh.reads >= 1 && gh.sent_at_first_read == len;
    let yes = gh.read_len >= 1 && (gh.read_byte == b'y' || gh.read_byte == b'Y') && !gh.read_failed;
    kani::assert(!ok || delivered && yes, "C01: a session starts only after the complete prompt was delivered and y was answered");
    kani::assert(!ok || len == 0 || gh.first_sent && gh.first_len == len, "C01,C12: what is delivered is the prompt");
    kani::assert(unsafe { EXPANDS } == 1, "C12: the pair's prompt is the expanded template");
    kani::assert(!(delivered && yes && !failed) || ok, "C01: an approved session starts");
    kani::assert(!(delivered && yes && gh.sa_fail_at == 0) || ok, "C01: an approved session starts, whether or not the answer can be echoed");
    kani::assert(gh.reads <= 1, "C01: one answer is asked for");
    kani::assert(!ok || failed || gh.sent_len == len + 2, "C01: the answer and a newline are echoed");
    kani::assert(!ok || failed || gh.probe < len || gh.probe > len + 1 || gh.sent_probe == if gh.probe == len { gh.read_byte } else { b'\n' }, "C01: the answer and a newline are echoed");
    kani::assert(!gh.restart_during_io, "C14: an interrupt aborts the wait for the answer");
    kani::assert(p.socket.is_some() && gh.open_streams == 1 && !gh.shut_both, "C08: the pair stays connected");
    kani::cover!(ok && !failed && len > 1000 && file_ok(1) && f(1).len > 1000, "approved");
    kani::cover!(ok && failed, "approved, without an echo");
    kani::cover!(!ok && delivered, "declined");
    kani::cover!(!ok && !delivered, "not delivered");
    std::mem::forget((p, spec, r));
}

// ------------------------------------------------- logging and the session's end

/// a session between `open` and `close`: paired exactly when it needed a pair
fn session() -> SudoPair {
    any_env();
    kani::assume(exempt() || !(to_user() && explicit_group()));
    g().opaque = true;
    g().big_step = true;
    pair(if exempt() { None } else { Some(Socket::verif_connected()) })
}
/// the decision `pair_open` proves, for the default options
fn is_exempt(_: &SudoPair) -> bool { exempt() }

#[kani::proof]
#[kani::stub(SudoPair::is_exempt, is_exempt)]
fn pair_log() {
    let p = session();
    let paired = p.socket.is_some();
    let b = [0u8; 1];
    let n: usize = kani::any();
    kani::assume(n <= isize::MAX as usize);
    let t = unsafe { std::slice::from_raw_parts(b.as_ptr(), n) };
    g().sa_fail_at = kani::any();
    let which: u8 = kani::any();
    kani::assume(which < 5);
    let r = match which {
        0 => p.log_ttyout(t),
        1 => p.log_stdout(t),
        2 => p.log_stderr(t),
        3 => p.log_ttyin(t),
        _ => p.log_stdin(t),
    };
    let gh = g();
    let ok = r.is_ok();
    let failed = gh.write_failed || gh.sa_fail_at >= 1 && gh.sa_fail_at <= gh.sa_calls;
    kani::assert(paired || ok && gh.io_calls == 0, "C09: an exempt session accepts everything");
    if paired && which < 3 {
        kani::assert(ok == !failed, "C08: output is accepted exactly when it was written to the pair");
        kani::assert(!ok || n == 0 || gh.write_calls == 1 && gh.last_ptr == b.as_ptr() as usize && gh.last_len == n, "C08: the whole output is written to the pair, as it is");
    }
    kani::assert(which != 3 || ok && gh.io_calls == 0, "C10: input typed at the terminal is accepted");
    kani::assert(!paired || which != 4 || !ok && gh.io_calls == 0, "C10: piped input is refused in a paired session");
    kani::assert(p.socket.is_some() == paired && !gh.shut_both, "C08: logging keeps the connection");
    kani::cover!(paired && ok && n > 1000, "a large chunk");
    kani::cover!(paired && which == 0 && !ok, "a failing connection");
    kani::cover!(!paired && which == 4, "an exempt session");
    if let Err(e) = r {
        let l: LogStatus = e.into();
        kani::assert(l == LogStatus::Deny, "C08,C10: a refusal is a denial");
    }
    std::mem::forget(p);
}

#[kani::proof]
fn pair_hints() {
    kani::assert(<SudoPair as IoPlugin>::IGNORE_IOLOG_HINTS, "C10: the plugin is given every stream, whatever the policy logs");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(std::fmt::format, mstd::ghost::format_fixed)]
#[kani::stub(SudoPair::is_exempt, is_exempt)]
fn pair_winsize() {
    let p = session();
    let paired = p.socket.is_some();
    g().opaque = false;
    g().probe = kani::any();
    let (l, c): (u64, u64) = (kani::any(), kani::any());
    kani::assume(l <= 99 && c <= 9);
    let r = p.change_winsize(l, c);
    let gh = g();
    let mut e = [0u8; 10];
    let mut n = 0;
    let mut w = |x: u8| { e[n] = x; n += 1; };
    w(0x1b); w(b'['); w(b'8'); w(b';');
    if l > 9 { w(b'0' + (l / 10) as u8); }
    w(b'0' + (l % 10) as u8);
    w(b';');
    w(b'0' + c as u8);
    w(b't');
    kani::assert(paired || r.is_ok() && gh.io_calls == 0, "C09: an exempt session accepts everything");
    kani::assert(!paired || r.is_ok() == !gh.write_failed, "C08: a window size change is accepted exactly when it was written to the pair");
    kani::assert(!paired || r.is_err() || gh.sent_len == n && (gh.probe >= n || gh.sent_probe == e[gh.probe]), "C08: a window size change is sent as ESC [ 8 ; rows ; columns t");
    kani::cover!(paired && r.is_ok() && l > 9, "two digits");
    std::mem::forget((p, r));
}

#[kani::proof]
#[kani::stub(SudoPair::is_exempt, is_exempt)]
fn pair_close() {
    let p = session();
    let paired = p.socket.is_some();
    kani::cover!(paired, "paired");
    kani::cover!(!paired, "exempt");
    p.close(kani::any(), kani::any());
    kani::assert(g().open_streams == 0 && g().shut_both == paired, "C09,C11: closing disconnects the pair, if there is one");
}

/// the plugin is dropped without being closed
#[kani::proof]
fn pair_drop() {
    let p = session();
    let paired = p.socket.is_some();
    kani::cover!(paired, "paired");
    drop(p);
    kani::assert(g().open_streams == 0 && g().shut_both == paired, "C11: a plugin that goes away disconnects the pair");
}

// ------------------------------------------------------------- the decisions

fn decide_approval(command: &'static str, binary: &'static str) {
    let mut e = IoEnv::verif_new();
    e.command_info.command = PathBuf::from(command);
    set_env(e);
    let mut p = pair(None);
    p.options.binary_path = PathBuf::from(binary);
    let r = p.is_sudoing_approval_command();
    kani::assert(r == (command == binary), "C02: the approval command is the configured binary");
    kani::cover!(true, "reached");
    std::mem::forget(p);
}
macro_rules! approvals {
    ($($n:ident $c:literal $b:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(8)]
        fn $n() { decide_approval($c, $b) }
    )* };
}
approvals! { approval_same "/a/b" "/a/b" approval_other "/a/c" "/a/b" approval_longer "/a/b/c" "/a/b" approval_shorter "/a" "/a/b" approval_name "/b" "/a/b" }

/// sets of at most `M` groups
fn groups_decide<const M: usize>() {
    any_env();
    let (ne, nx, nu, nr): (usize, usize, usize, usize) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(ne <= M && nx <= M && nu <= M && nr <= M);
    let (ge, gx, gu, gr) = (kani::any::<[gid_t; M]>(), kani::any::<[gid_t; M]>(), kani::any::<[gid_t; M]>(), kani::any::<[gid_t; M]>());
    env().user_info.groups = gu[..nu].to_vec();
    let have: bool = kani::any();
    env().command_info.runas_groups = if have { Some(gr[..nr].to_vec()) } else { None };
    let mut p = pair(None);
    p.options.gids_enforced = ge[..ne].iter().copied().collect();
    p.options.gids_exempted = gx[..nx].iter().copied().collect();
    let r = p.is_exempt();
    let has = |s: &[gid_t], x: gid_t| { let mut i = 0; let mut f = false; while i < s.len() { if s[i] == x { f = true; } i += 1; } f };
    let e = env();
    let (mut ex, mut en) = (false, false);
    let mut i = 0;
    while i < nu { if has(&gx[..nx], gu[i]) { ex = true; } i += 1; }
    let rs = if have { &gr[..nr] } else { &gu[..nu] };
    let mut i = 0;
    while i < ne { if has(rs, ge[i]) || ge[i] == e.command_info.runas_egid { en = true; } i += 1; }
    let want = e.user_info.uid == e.user_info.euid
        || !to_user() && e.user_info.gid == e.command_info.runas_egid
        || unsafe { APPROVAL }
        || !e.command_info.iolog_ttyout && !e.command_info.iolog_stdout && !e.command_info.iolog_stderr
        || ex || !en;
    kani::assert(r == want, "C02: exactly the documented sessions are exempt");
    kani::cover!(r && ex, "an exempted group");
    kani::cover!(!r, "an enforced group");
    std::mem::forget(p);
}
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(SudoPair::is_sudoing_approval_command, is_approval)]
fn decide_groups1() { groups_decide::<1>() }
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(SudoPair::is_sudoing_approval_command, is_approval)]
fn decide_groups2() { groups_decide::<2>() }

// ---------------------------------------------------- socket path, variables

#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(std::fmt::format, mstd::ghost::format_fixed)]
fn pair_socket_path() {
    let mut e = IoEnv::verif_any();
    let (u, k): (u32, i32) = (kani::any(), kani::any());
    kani::assume(u <= 9 && k >= 0 && k <= 9);
    e.user_info.uid = u;
    e.user_info.pid = k;
    e.user_info.euid = kani::any();
    e.user_info.gid = kani::any();
    e.user_info.ppid = kani::any();
    e.command_info.runas_euid = kani::any();
    set_env(e);
    let mut p = pair(None);
    p.options.socket_dir = PathBuf::from("/s");
    let r = p.socket_path();
    let w = [b'/', b's', b'/', b'0' + u as u8, b'.', b'0' + k as u8, b'.', b's', b'o', b'c', b'k'];
    let b = r.as_os_str().as_bytes();
    let i: usize = kani::any();
    kani::assume(i < 11);
    kani::assert(b.len() == 11 && b[i] == w[i], "C07: the socket is named after the user's uid and sudo's pid");
    kani::cover!(u == 9 && k == 8, "reached");
    std::mem::forget((p, r));
}

fn invocation(_: &IoEnv) -> Vec<u8> { vec![b'i', b'v'] }
static mut X: [u8; 5] = [0; 5];
static mut SEEN: u32 = 0;
/// contract of `Spec::replace`: the last value given for a byte is its expansion
fn replace<T: Into<Vec<u8>>>(_: &mut Spec, k: u8, t: T) {
    let v: Vec<u8> = t.into();
    let is = |bit: u32, w: &[u8]| {
        unsafe { SEEN |= 1 << bit };
        v.len() == w.len() && v[0] == w[0] && v[v.len() - 1] == w[v.len() - 1]
    };
    let d = |i: usize| [b'0' + unsafe { X[i] }];
    match k {
        b'b' => kani::assert(is(0, b"b"), "C12: %b is the name of the approval binary"),
        b'B' => kani::assert(is(1, b"/a/b"), "C12: %B is the approval binary's path"),
        b'C' => kani::assert(is(2, b"iv"), "C12: %C is the invocation"),
        b'd' => kani::assert(is(3, b"/w"), "C12: %d is the working directory of the command"),
        b'h' => kani::assert(is(4, b"h1"), "C12: %h is the host"),
        b'H' => kani::assert(is(5, &d(0)), "C12: %H is the terminal's height"),
        b'W' => kani::assert(is(6, &d(1)), "C12: %W is the terminal's width"),
        b'g' => kani::assert(is(7, &d(2)), "C12: %g is the invoking user's gid"),
        b'u' => kani::assert(is(8, &d(3)), "C12: %u is the invoking user's uid"),
        b'p' => kani::assert(is(9, &d(4)), "C12: %p is sudo's pid"),
        b'U' => kani::assert(is(10, b"u2"), "C12: %U is the invoking user's name"),
        _ => kani::assert(false, "C12: no other variable is defined"),
    }
    std::mem::forget(v);
}

#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(IoEnv::invocation, invocation)]
#[kani::stub(Spec::replace, replace)]
fn pair_variables() {
    let mut e = IoEnv::verif_any();
    let x: [u8; 5] = kani::any();
    let mut i = 0;
    while i < 5 { kani::assume(x[i] < 10); i += 1; }
    unsafe { X = x };
    e.user_info.lines = x[0] as _;
    e.user_info.cols = x[1] as _;
    e.user_info.gid = x[2] as _;
    e.user_info.uid = x[3] as _;
    e.user_info.pid = x[4] as _;
    e.user_info.euid = kani::any();
    e.user_info.egid = kani::any();
    e.user_info.ppid = kani::any();
    e.user_info.host = String::from("h1");
    e.user_info.user = String::from("u2");
    e.user_info.cwd = PathBuf::from("/v");
    e.command_info.cwd = Some(PathBuf::from("/w"));
    set_env(e);
    let mut p = pair(None);
    p.options.binary_path = PathBuf::from("/a/b");
    let s = p.template_spec();
    kani::assert(unsafe { SEEN } == (1 << 11) - 1, "C12: every documented variable is defined");
    kani::cover!(true, "reached");
    std::mem::forget((p, s));
}


// ----------------------------------------------------------------- errors

/// every error of the plugin denies
#[kani::proof]
fn pair_errors() {
    use sudo_plugin::prelude::{LogStatus, OpenStatus};
    let k = match kani::any::<u8>() {
        0 => ErrorKind::CommunicationError,
        1 => ErrorKind::SessionDeclined,
        2 => ErrorKind::SessionTerminated,
        3 => ErrorKind::StdinRedirected,
        4 => ErrorKind::SudoToUserAndGroup,
        _ => ErrorKind::PluginError(sudo_plugin::prelude::Error::UncaughtPanic),
    };
    kani::cover!(matches!(k, ErrorKind::SudoToUserAndGroup), "a user and a group");
    let e: Error = match k {
        ErrorKind::PluginError(p) if kani::any() => p.into(),
        k => k.into(),
    };
    if kani::any() {
        kani::assert(Into::<OpenStatus>::into(e) as i32 == -1, "C01,C03,C05,C06,C07,C16: every error of the plugin refuses the session");
    } else {
        kani::assert(Into::<LogStatus>::into(e) as i32 == 0, "C08,C10,C16: every error of the plugin denies the data");
    }
}
