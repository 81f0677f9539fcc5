//! Contracts of the socket functions (appended to socket.rs).
use super::*;

impl Socket {
    /// a socket whose peer is there
    pub(crate) fn verif_connected() -> Socket {
        Socket { socket: UnixStream::connected() }
    }
}
use mstd::ghost::{self, g};

fn any_kernel() {
    let gh = g();
    gh.on = true;
    gh.dir = b"/d";
    gh.path = b"/d/1.2.sock";
    gh.euid = kani::any();
    gh.ruid = kani::any();
    gh.rgid = kani::any();
    gh.dir_stat_fails = kani::any();
    gh.dir_mode = kani::any();
    gh.dir_uid = kani::any();
    let at: u8 = kani::any();
    kani::assume(at <= ghost::OTHER);
    gh.at_path = at;
    gh.at_path_initial = at;
    gh.umask = kani::any();
    kani::assume(gh.umask <= 0o777);
}

#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(std::fmt::format, mstd::ghost::format_opaque)]
#[kani::stub(std::ffi::CString::new, mstd::ghost::cstring_new)]
fn socket_open() {
    any_kernel();
    let umask0 = g().umask;
    let (uid, gid, mode) = (kani::any(), kani::any(), kani::any());
    kani::assume(mode <= 0o7777);
    g().new_gid = kani::any();
    g().want_uid = uid;
    g().want_gid = gid;
    g().want_mode = mode;
    let path = Path::new("/d/1.2.sock");
    let r = Socket::open(path, uid, gid, mode);
    let gh = g();
    let ok = r.is_ok();
    kani::assert(!ok || ghost::dir_secure(), "C06: an unsafe directory is refused");
    kani::assert(!ok || (gh.accepted && ghost::owner_final() && gh.file_mode == mode && !gh.syscall_failed), "C05: success only after every step succeeded");
    kani::assert(!ok || !gh.wait_interrupted, "C14: an interrupted wait for a peer ends the attempt");
    kani::assert(ghost::dir_secure() || gh.touched == 0, "C06: nothing is touched in an unsafe directory");
    kani::assert(gh.umask == umask0, "C05: the umask is restored");
    kani::assert(!(gh.at_path_initial == ghost::OTHER) || gh.at_path == ghost::OTHER, "C07: a file that is not a socket stays");
    kani::assert(ok || gh.chosen_failure || !ghost::dir_secure() || gh.at_path_initial == ghost::OTHER,
        "C05,C07: with a safe directory, nothing but a stale socket in the way and no failing call a peer is accepted");
    kani::assert(!gh.bound || gh.at_path == ghost::ABSENT || gh.chosen_failure && (gh.unlink_failed || gh.stat_failed),
        "C07: the socket is removed when the attempt ends, however it ends");
    kani::assert(ok == (gh.open_streams == 1) && gh.open_streams <= 1, "C11: a failed attempt keeps no connection");
    kani::cover!(ok, "success is reachable");
    kani::cover!(ok && gh.at_path_initial == ghost::SOCKET, "success after removing a stale socket");
    kani::cover!(!ok && gh.bound, "a late failure");
    std::mem::forget(r);
}

// ------------------------------------------------- reading, writing, closing

fn any_signals() {
    let gh = g();
    gh.opaque = true;
    gh.sa_flags = kani::any();
    gh.sa_handler = kani::any();
    gh.sa_mask = kani::any();
    gh.sa_initial_flags = gh.sa_flags;
    gh.sa_initial_handler = gh.sa_handler;
    gh.sa_initial_mask = gh.sa_mask;
    // any one change of the disposition may fail
    gh.sa_fail_at = kani::any();
}

/// what every operation on the connection promises about signals, and that it
/// reports what the connection reports
fn signals_after(ok: bool) {
    let gh = g();
    kani::assert(!gh.sa_bad_sig, "C14: no other signal is touched");
    kani::assert(!gh.restart_during_io, "C14: an interrupt aborts the call");
    kani::assert(!gh.handler_changed_during_io && !gh.flags_changed_during_io, "C14: the handler and its other flags stay");
    let all = gh.sa_calls;
    let failed = gh.sa_fail_at >= 1 && gh.sa_fail_at <= all;
    kani::assert(failed && gh.sa_fail_at == all && gh.io_calls == 1 || gh.sa_flags == gh.sa_initial_flags && gh.sa_handler == gh.sa_initial_handler && gh.sa_mask == gh.sa_initial_mask,
        "C14: the disposition is back in place afterwards");
    kani::assert(!failed || !ok, "C14: a failure to change the disposition is reported");
    kani::assert(gh.io_calls <= 1, "C08,C14: an operation is one call on the connection");
    kani::assert(failed || gh.io_calls == 1, "C08: the connection is used");
    kani::assert(failed || ok == gh.last_ret_ok, "C01,C08: success and failure are the connection's");
    kani::cover!(ok, "success");
    kani::cover!(failed && gh.io_calls == 0, "failure before");
    kani::cover!(!failed && !ok, "failure of the connection");
}

static BYTES: [u8; 1] = [0];
fn any_len() -> usize {
    let n: usize = kani::any();
    kani::assume(n <= isize::MAX as usize);
    n
}

#[kani::proof]
fn socket_read() {
    any_signals();
    let n = any_len();
    let mut one = [0u8; 1];
    let p = one.as_mut_ptr();
    let buf = unsafe { std::slice::from_raw_parts_mut(p, n) };
    let mut s = Socket { socket: UnixStream::connected() };
    let r = s.read(buf);
    let gh = g();
    signals_after(r.is_ok());
    kani::assert(gh.io_calls == 0 || gh.reads == 1 && gh.last_ptr == p as usize && gh.last_len == n, "C01: the peer's bytes go where they are asked for");
    kani::assert(match r { Ok(k) => k == gh.last_ret, Err(_) => true }, "C01: the number of bytes read is reported");
    std::mem::forget(s);
}

#[kani::proof]
fn socket_write() {
    any_signals();
    let n = any_len();
    let p = BYTES.as_ptr();
    let buf = unsafe { std::slice::from_raw_parts(p, n) };
    let mut s = Socket { socket: UnixStream::connected() };
    let r = s.write(buf);
    let gh = g();
    signals_after(r.is_ok());
    kani::assert(gh.io_calls == 0 || gh.write_calls == 1 && gh.last_ptr == p as usize && gh.last_len == n, "C08: exactly the bytes given are written");
    kani::assert(match r { Ok(k) => k == gh.last_ret, Err(_) => true }, "C08: the number of bytes written is reported");
    std::mem::forget(s);
}

#[kani::proof]
fn socket_flush() {
    any_signals();
    let mut s = Socket { socket: UnixStream::connected() };
    let r = s.flush();
    signals_after(r.is_ok());
    std::mem::forget(s);
}

#[kani::proof]
fn socket_close() {
    let mut s = Socket { socket: UnixStream::connected() };
    let explicit: bool = kani::any();
    if explicit {
        let _ = s.close();
        kani::assert(g().shut_both && g().open_streams == 1, "C11: closing shuts the connection down in both directions");
    }
    drop(s);
    kani::assert(g().shut_both && g().open_streams == 0, "C11: a dropped connection is shut down in both directions and released");
    kani::cover!(explicit, "closed, then dropped");
    kani::cover!(!explicit, "dropped");
}
