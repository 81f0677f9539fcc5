//! Ghost state: the part of the kernel that the plugin can observe or change.
//!
//! A harness fills in the symbolic inputs; the models update the rest and
//! assert, at the point of each call, what the properties demand of it.

/// what lies at the socket's path
pub const ABSENT: u8 = 0;
pub const SOCKET: u8 = 1;
pub const OTHER: u8 = 2;

pub struct Ghost {
    // ---- switches
    /// this harness looks at the socket protocol
    pub on: bool,
    /// a write on the stream either takes everything or fails (std's
    /// `write_all` contract applied to a `write` proved to be a pass-through)
    pub big_step: bool,
    /// inside such a `write_all`
    pub whole: bool,
    /// files are read as one opaque piece of memory
    pub opaque_files: bool,

    // ---- symbolic inputs
    pub euid: u32,
    pub ruid: u32,
    pub rgid: u32,
    pub egid: u32,
    pub dir: &'static [u8],
    pub path: &'static [u8],
    pub dir_stat_fails: bool,
    pub dir_mode: u32,
    pub dir_uid: u32,
    pub want_uid: u32,
    pub want_gid: u32,
    pub want_mode: u32,
    /// the group that a new file has
    pub new_gid: u32,

    // ---- socket file
    pub at_path: u8,
    pub at_path_initial: u8,
    pub unlink_failed: bool,
    pub stat_failed: bool,
    pub removed_nonsocket: bool,
    pub umask: u32,
    pub umask_calls: u32,
    pub bound: bool,
    pub listen_fd: i32,
    /// owner, group and permissions of the socket's file
    pub file_uid: u32,
    pub file_gid: u32,
    pub file_mode: u32,
    pub waited: bool,
    pub accepted: bool,
    pub syscall_failed: bool,
    /// a peer is there to be accepted
    pub peer_ready: bool,
    pub wait_failed: bool,
    /// a wait for a peer was interrupted
    pub wait_interrupted: bool,
    pub errno: i32,
    /// a call failed though nothing that the model knows of made it fail
    pub chosen_failure: bool,
    pub touched: u32,
    pub accept_peer_id: u8,

    // ---- the connection
    pub open_streams: i32,
    /// only addresses and lengths of buffers matter, not what they hold
    pub opaque: bool,
    /// the address of a text that isn't looked into, and how it was written
    pub opaque_first: usize,
    pub first_sent: bool,
    pub first_len: usize,
    /// operations on the stream
    pub io_calls: u32,
    pub shut_calls: u32,
    pub shut_both: bool,
    pub sent_len: usize,
    pub probe: usize,
    pub sent_probe: u8,
    pub write_calls: u32,
    pub write_failed: bool,
    pub flush_calls: u32,
    pub flushed: bool,
    pub reads: u32,
    pub read_failed: bool,
    pub read_len: usize,
    pub read_byte: u8,
    pub sent_at_first_read: usize,
    pub flushed_at_first_read: bool,
    pub last_ptr: usize,
    pub last_len: usize,
    pub last_ret_ok: bool,
    pub last_ret: usize,

    // ---- signals
    pub sa_flags: i32,
    pub sa_handler: usize,
    pub sa_mask: u64,
    pub sa_initial_mask: u64,
    pub flags_changed_during_io: bool,
    pub sa_initial_flags: i32,
    pub sa_initial_handler: usize,
    pub sa_calls: u32,
    pub sa_fail_at: u32,
    pub sa_bad_sig: bool,
    pub restart_during_io: bool,
    pub handler_changed_during_io: bool,

    // ---- panics
    pub catch_depth: u32,
    pub catch_calls: u32,
    pub panic_now: bool,
}

pub static mut GHOST: Ghost = Ghost {
    on: false,
    big_step: false,
    whole: false,
    opaque_files: false,
    euid: 0,
    ruid: 0,
    rgid: 0,
    egid: 0,
    dir: b"",
    path: b"",
    dir_stat_fails: false,
    dir_mode: 0o040700,
    dir_uid: 0,
    want_uid: 0,
    want_gid: 0,
    want_mode: 0,
    new_gid: 0,
    at_path: ABSENT,
    at_path_initial: ABSENT,
    unlink_failed: false,
    stat_failed: false,
    removed_nonsocket: false,
    umask: 0o022,
    umask_calls: 0,
    bound: false,
    listen_fd: 5,
    file_uid: 0,
    file_gid: 0,
    file_mode: 0,
    waited: false,
    accepted: false,
    syscall_failed: false,
    peer_ready: false,
    wait_failed: false,
    wait_interrupted: false,
    errno: 0,
    chosen_failure: false,
    touched: 0,
    accept_peer_id: 7,
    open_streams: 0,
    opaque: false,
    opaque_first: 0,
    first_sent: false,
    first_len: 0,
    io_calls: 0,
    shut_calls: 0,
    shut_both: false,
    sent_len: 0,
    probe: 0,
    sent_probe: 0,
    write_calls: 0,
    write_failed: false,
    flush_calls: 0,
    flushed: false,
    reads: 0,
    read_failed: false,
    read_len: 0,
    read_byte: 0,
    sent_at_first_read: 0,
    flushed_at_first_read: false,
    last_ptr: 0,
    last_len: 0,
    last_ret_ok: false,
    last_ret: 0,
    sa_flags: 0,
    sa_handler: 0,
    sa_mask: 0,
    sa_initial_mask: 0,
    flags_changed_during_io: false,
    sa_initial_flags: 0,
    sa_initial_handler: 0,
    sa_calls: 0,
    sa_fail_at: 0,
    sa_bad_sig: false,
    restart_during_io: false,
    handler_changed_during_io: false,
    catch_depth: 0,
    catch_calls: 0,
    panic_now: false,
};

pub fn g() -> &'static mut Ghost {
    unsafe { &mut *core::ptr::addr_of_mut!(GHOST) }
}

/// `S_IFDIR`, owned by the effective user, nobody else may write
pub fn dir_secure() -> bool {
    let g = g();
    !g.dir_stat_fails
        && (g.dir_mode & 0o170000) == 0o040000
        && g.dir_uid == g.euid
        && g.dir_mode & 0o022 == 0
}

pub fn is_path(p: &[u8]) -> bool {
    p == g().path
}

/// any error number, which stays until the next failing call
pub fn set_errno() {
    g().errno = kani::any();
}

/// a call fails, for a reason of its own
pub fn fails() -> bool {
    let f: bool = kani::any();
    if f {
        g().chosen_failure = true;
        set_errno();
    }
    f
}

/// `CStr::from_ptr` without the foreign `strlen`
pub unsafe fn cstr_from_ptr<'a>(p: *const std::ffi::c_char) -> &'a std::ffi::CStr {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::ffi::CStr::from_bytes_with_nul_unchecked(std::slice::from_raw_parts(p.cast(), n + 1))
}

/// `CString::new` with a plain search for the NUL (std's memchr reads words)
pub fn cstring_new<T: Into<Vec<u8>>>(t: T) -> Result<std::ffi::CString, std::ffi::NulError> {
    let v: Vec<u8> = t.into();
    let mut i = 0;
    while i < v.len() {
        if v[i] == 0 {
            // the position is not observed by the code under contract
            return Err(unsafe { std::mem::MaybeUninit::<std::ffi::NulError>::zeroed().assume_init() });
        }
        i += 1;
    }
    Ok(unsafe { std::ffi::CString::from_vec_unchecked(v) })
}

/// formatting into a buffer of fixed size, instead of a growing one
pub fn format_fixed(a: std::fmt::Arguments<'_>) -> String { fixed::<16>(a) }
pub fn format_fixed32(a: std::fmt::Arguments<'_>) -> String { fixed::<32>(a) }
fn fixed<const N: usize>(a: std::fmt::Arguments<'_>) -> String {
    struct B<const N: usize>([u8; N], usize);
    impl<const N: usize> std::fmt::Write for B<N> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let s = s.as_bytes();
            let mut i = 0;
            while i < s.len() {
                kani::assert(self.1 < N, "model: formatted text fits");
                self.0[self.1] = s[i];
                self.1 += 1;
                i += 1;
            }
            Ok(())
        }
    }
    let mut b = B([0; N], 0);
    let _ = std::fmt::write(&mut b, a);
    unsafe { String::from_utf8_unchecked(b.0[..b.1].to_vec()) }
}

/// formatting contract used where the text does not matter: some string
pub fn format_opaque(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// a vector of which only address and length matter; it is never looked into
pub unsafe fn opaque_vec(p: *const u8, n: usize) -> Vec<u8> {
    Vec::from_raw_parts(p as *mut u8, n, n)
}
/// memory is never given back
pub unsafe fn keep(_: std::ptr::NonNull<u8>, _: std::alloc::Layout) {}

/// the socket's owner and group are final (an id of -1 stays what it is)
pub fn owner_final() -> bool {
    let g = g();
    g.file_uid == final_uid() && g.file_gid == final_gid()
}
pub fn final_uid() -> u32 {
    if g().want_uid == u32::MAX { g().euid } else { g().want_uid }
}
pub fn final_gid() -> u32 {
    if g().want_gid == u32::MAX { g().new_gid } else { g().want_gid }
}
