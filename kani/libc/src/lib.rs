//! libc with the calls the plugin makes replaced by contract models over the
//! ghost state. Types and constants are the real crate's.
#![allow(non_camel_case_types, non_snake_case, clippy::all)]
pub use libc_real::*;

use mstd::ghost::{self, g};

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    mstd::ghost::cstr_from_ptr(p).to_bytes()
}

pub unsafe fn geteuid() -> uid_t { g().euid }
pub unsafe fn getegid() -> gid_t { g().egid }
pub unsafe fn getuid() -> uid_t { g().ruid }
pub unsafe fn getgid() -> gid_t { g().rgid }

pub unsafe fn umask(new: mode_t) -> mode_t {
    let g = g();
    let old = g.umask;
    g.umask = new & 0o777;
    g.umask_calls += 1;
    old
}

pub unsafe fn chown(p: *const c_char, uid: uid_t, gid: gid_t) -> c_int { if mstd::fs::own(cstr(p), uid, gid) { 0 } else { -1 } }
pub unsafe fn lchown(p: *const c_char, uid: uid_t, gid: gid_t) -> c_int { chown(p, uid, gid) }
pub unsafe fn chmod(p: *const c_char, mode: mode_t) -> c_int { if mstd::fs::permit(cstr(p), mode) { 0 } else { -1 } }

unsafe fn stat_any(p: *const c_char, st: *mut stat) -> c_int {
    match mstd::fs::look(cstr(p)) {
        None => -1,
        Some(m) => {
            let mut s: stat = std::mem::zeroed();
            s.st_mode = m.mode;
            s.st_uid = m.uid;
            s.st_gid = m.gid;
            s.st_nlink = kani::any();
            s.st_size = kani::any();
            *st = s;
            0
        }
    }
}
pub unsafe fn lstat(p: *const c_char, st: *mut stat) -> c_int { stat_any(p, st) }
pub unsafe fn stat(p: *const c_char, st: *mut stat) -> c_int { stat_any(p, st) }

pub unsafe fn unlink(p: *const c_char) -> c_int {
    use std::os::unix::ffi::OsStrExt;
    match mstd::fs::remove_file(std::ffi::OsStr::from_bytes(cstr(p))) {
        Ok(()) => 0,
        Err(_) => -1,
    }
}

// fd_set with a single tracked descriptor. The real FD_SET panics, and the
// process is aborted, for a descriptor that does not fit
static mut FDSET_HAS: bool = false;
pub unsafe fn FD_ZERO(set: *mut fd_set) { *set = std::mem::zeroed(); FDSET_HAS = false; }
pub unsafe fn FD_SET(fd: c_int, _set: *mut fd_set) {
    kani::assert(fd == mstd::os::unix::net::listen_fd(), "model: the descriptor that is waited for is the listener's");
    kani::assert((fd as usize) < FD_SETSIZE, "C05,C07: a descriptor that is waited for fits into the set");
    FDSET_HAS = true;
}
pub unsafe fn FD_ISSET(fd: c_int, _set: *const fd_set) -> bool {
    fd == mstd::os::unix::net::listen_fd() && FDSET_HAS
}
/// the outcome of a wait for a peer
unsafe fn waited(forever: bool) -> c_int {
    let g = g();
    if ghost::fails() {
        g.wait_failed = true;
        g.peer_ready = false;
        g.wait_interrupted |= g.errno == EINTR;
        return -1;
    }
    if !forever && kani::any() {
        g.chosen_failure = true;
        g.peer_ready = false;
        return 0;
    }
    g.peer_ready = true;
    1
}

/// readable (1), or a failure (-1, EINTR included); without a timeout it
/// cannot return 0, with one descriptor it cannot return more than 1
pub unsafe fn select(n: c_int, r: *mut fd_set, _w: *mut fd_set, _e: *mut fd_set, t: *mut timeval) -> c_int {
    mstd::os::unix::net::wait_requires();
    if g().on {
        kani::assert(n > mstd::os::unix::net::listen_fd(), "C05: select's count covers the listener");
        kani::assert(!r.is_null() && FDSET_HAS, "C05: the wait is on the listener");
    }
    match waited(t.is_null()) {
        0 => {
            FD_ZERO(r);
            0
        }
        n => n,
    }
}

/// the same for poll; with what is ready in revents
pub unsafe fn poll(p: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    mstd::os::unix::net::wait_requires();
    kani::assert(n == 1, "model: one descriptor is waited for");
    kani::assert((*p).fd == mstd::os::unix::net::listen_fd(), "model: the descriptor that is waited for is the listener's");
    if g().on {
        kani::assert((*p).events & POLLIN != 0, "C05: the wait is on the listener");
    }
    (*p).revents = 0;
    match waited(t < 0) {
        1 => (),
        n => return n,
    }
    (*p).revents = kani::any();
    kani::assume((*p).revents != 0 && (*p).revents & !((*p).events | POLLERR | POLLHUP) == 0);
    1
}

pub unsafe fn sigaction(sig: c_int, new: *const sigaction, old: *mut sigaction) -> c_int {
    let gh = g();
    if sig != SIGINT {
        gh.sa_bad_sig = true;
    }
    gh.sa_calls += 1;
    if gh.sa_fail_at == gh.sa_calls {
        ghost::set_errno();
        return -1;
    }
    if !old.is_null() {
        let mut s: sigaction = std::mem::zeroed();
        s.sa_flags = gh.sa_flags;
        s.sa_sigaction = gh.sa_handler;
        *(std::ptr::addr_of_mut!(s.sa_mask) as *mut u64) = gh.sa_mask;
        *old = s;
    }
    if !new.is_null() {
        gh.sa_flags = (*new).sa_flags;
        gh.sa_handler = (*new).sa_sigaction;
        gh.sa_mask = *(std::ptr::addr_of!((*new).sa_mask) as *const u64);
    }
    0
}
