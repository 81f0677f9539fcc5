//! Unix sockets over the ghost state.
use super::io::{AsRawFd, RawFd};
use crate::ghost::{self, g};
use crate::io::{Error, Read, Result, Write};
use std::net::Shutdown;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

/// the listener's descriptor: the kernel may choose any number
pub fn listen_fd() -> i32 { g().listen_fd }

#[derive(Debug)]
pub struct SocketAddr(());

#[derive(Debug)]
pub struct UnixListener(());
impl UnixListener {
    pub fn bind<P: AsRef<Path>>(p: P) -> Result<Self> {
        let p = p.as_ref().as_os_str().as_bytes();
        let g = g();
        g.touched += 1;
        if g.on {
            kani::assert(ghost::is_path(p), "C07: the address bound is the socket's path");
            kani::assert(ghost::dir_secure(), "C06: nothing is created in a directory that is not safe");
            kani::assert(g.umask & 0o777 == 0o777, "C05: the socket is created without any permission");
        }
        // EADDRINUSE when something is there
        if g.at_path != ghost::ABSENT || ghost::fails() {
            g.syscall_failed = true;
            return Err(Error::any_os_error());
        }
        g.bound = true;
        g.at_path = ghost::SOCKET;
        g.file_uid = g.euid;
        g.file_gid = g.new_gid;
        g.file_mode = 0o777 & !g.umask;
        g.listen_fd = kani::any();
        kani::assume(g.listen_fd >= 0);
        Ok(UnixListener(()))
    }
    pub fn accept(&self) -> Result<(UnixStream, SocketAddr)> {
        let g = g();
        g.touched += 1;
        wait_requires();
        if g.on {
            // std's accept is restarted after a signal
            kani::assert(g.peer_ready, "C14: accept is not where a peer is waited for");
        }
        if ghost::fails() {
            g.wait_failed = true;
            return Err(Error::any_os_error());
        }
        g.accepted = true;
        g.open_streams += 1;
        Ok((UnixStream { id: g.accept_peer_id }, SocketAddr(())))
    }
}
/// what must hold before anyone is waited for
pub fn wait_requires() {
    let g = g();
    if g.on {
        kani::assert(g.bound && !g.syscall_failed, "C05: nobody is waited for before the socket is bound and its owner and mode are set");
        kani::assert(ghost::owner_final(), "C04,C05: while a peer is awaited the socket has the owner and the group asked for");
        kani::assert(g.file_mode == g.want_mode, "C04,C05: while a peer is awaited the socket has the permissions asked for");
        kani::assert(!g.wait_interrupted, "C14: an interrupted wait for a peer is not taken up again");
    }
    g.waited = true;
}
impl AsRawFd for UnixListener {
    fn as_raw_fd(&self) -> RawFd {
        listen_fd()
    }
}

#[derive(Debug)]
pub struct UnixStream {
    id: u8,
}
impl UnixStream {
    /// a connection that was made earlier
    pub fn connected() -> Self {
        g().open_streams += 1;
        UnixStream { id: g().accept_peer_id }
    }
    pub fn shutdown(&self, how: Shutdown) -> Result<()> {
        let g = g();
        g.shut_calls += 1;
        if let Shutdown::Both = how {
            g.shut_both = true;
        }
        if kani::any() {
            Err(Error::any_os_error())
        } else {
            Ok(())
        }
    }
}
impl Drop for UnixStream {
    fn drop(&mut self) {
        g().open_streams -= 1;
    }
}
impl AsRawFd for UnixStream {
    fn as_raw_fd(&self) -> RawFd {
        9
    }
}
fn io_requires() {
    let g = g();
    g.io_calls += 1;
    if g.sa_flags & 0x1000_0000 != 0 {
        g.restart_during_io = true;
    }
    if (g.sa_flags ^ g.sa_initial_flags) & !0x1000_0000 != 0 || g.sa_mask != g.sa_initial_mask {
        g.flags_changed_during_io = true;
    }
    if g.sa_handler != g.sa_initial_handler {
        g.handler_changed_during_io = true;
    }
}
impl Read for UnixStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let g = g();
        io_requires();
        if g.reads == 0 {
            g.sent_at_first_read = g.sent_len;
            g.flushed_at_first_read = g.flushed;
        }
        g.reads += 1;
        g.last_ptr = buf.as_ptr() as usize;
        g.last_len = buf.len();
        if kani::any() {
            g.read_failed = true;
            g.last_ret_ok = false;
            return Err(Error::any_os_error());
        }
        let n: usize = kani::any();
        kani::assume(n <= buf.len());
        if n > 0 && !g.opaque {
            let b: u8 = kani::any();
            buf[0] = b;
            if n > 1 {
                // the remaining bytes are arbitrary as well: one of them
                // (any) is given an arbitrary value
                let i: usize = kani::any();
                kani::assume(i > 0 && i < n);
                buf[i] = kani::any();
            }
            if g.read_len == 0 {
                g.read_byte = b;
            }
            g.read_len += n;
        }
        g.last_ret_ok = true;
        g.last_ret = n;
        Ok(n)
    }
}
impl Write for UnixStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let g = g();
        io_requires();
        g.write_calls += 1;
        g.last_ptr = buf.as_ptr() as usize;
        g.last_len = buf.len();
        let fail: bool = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= buf.len());
        if g.whole && !fail {
            kani::assume(n == buf.len());
        }
        if fail {
            g.write_failed = true;
            g.last_ret_ok = false;
            if g.whole {
                // std's write_all retries EINTR; a failure it reports is another one
                return Err(Error::from(crate::io::ErrorKind::BrokenPipe));
            }
            return Err(Error::any_os_error());
        }
        if g.opaque_first != 0 && g.last_ptr == g.opaque_first {
            g.first_sent = g.sent_len == 0;
            g.first_len = n;
        } else if !g.opaque && g.probe >= g.sent_len && g.probe - g.sent_len < n {
            g.sent_probe = buf[g.probe - g.sent_len];
        }
        g.sent_len += n;
        g.flushed = false;
        g.last_ret_ok = true;
        g.last_ret = n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        io_requires();
        g().flush_calls += 1;
        g().last_ret_ok = true;
        g().flushed = true;
        if kani::any() {
            g().flushed = false;
            g().last_ret_ok = false;
            g().write_failed = true;
            return Err(Error::from(crate::io::ErrorKind::Other));
        }
        Ok(())
    }
}
