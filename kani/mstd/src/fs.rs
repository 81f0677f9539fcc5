//! Files: what `open` finds is the harness' choice (`FILE`), the metadata and
//! the removal of the socket's path act on the ghost socket file.
use crate::ghost::{self, g};
use crate::io::{Error, ErrorKind, Read, Result, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub const MAXF: usize = 4;
/// a template file
pub struct FileGhost {
    pub path: &'static [u8],
    pub exists: bool,
    pub len: usize,
    pub bytes: [u8; MAXF],
    /// reading fails once this many bytes were read
    pub fail_at: usize,
    pub opened: u32,
}
const NOFILE: FileGhost = FileGhost { path: b"", exists: false, len: 0, bytes: [0; MAXF], fail_at: usize::MAX, opened: 0 };
pub static mut FILES: [FileGhost; 2] = [NOFILE, NOFILE];
pub fn f(i: usize) -> &'static mut FileGhost {
    unsafe { &mut (*core::ptr::addr_of_mut!(FILES))[i] }
}
/// the user's terminal
pub struct TtyGhost {
    pub path: &'static [u8],
    pub exists: bool,
    pub write_fails: bool,
    pub opened: u32,
    pub writes: u32,
    pub probe: usize,
    pub written: usize,
    pub byte: u8,
    /// the address of a text that isn't looked into, and whether it is what was written
    pub opaque: usize,
    pub same: bool,
}
pub static mut TTY: TtyGhost = TtyGhost { path: b"", exists: false, write_fails: false, opened: 0, writes: 0, probe: 0, written: 0, byte: 0, opaque: 0, same: true };
pub fn tty() -> &'static mut TtyGhost {
    unsafe { &mut *core::ptr::addr_of_mut!(TTY) }
}

#[derive(Debug)]
pub struct File {
    which: usize,
    pos: usize,
    write: bool,
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
        let p = p.as_ref().as_os_str().as_bytes();
        // the two differ in their first or in their fourth byte from the end
        let k = p.len().wrapping_sub(4);
        let i = if k < f(0).path.len() && p[k] == f(0).path[k] && p[0] == f(0).path[0] { 0 } else { 1 };
        let j: usize = kani::any();
        kani::assume(j < p.len());
        kani::assert(p.len() == f(i).path.len() && p[j] == f(i).path[j], "C12: a template is read from the configured file");
        f(i).opened += 1;
        if f(i).exists {
            Ok(File { which: i, pos: 0, write: false })
        } else {
            Err(Error::from(ErrorKind::NotFound))
        }
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
}
/// an address that stands for a file's content
pub static CONTENT: [u8; 2] = [0; 2];
impl File {
    /// what is left of the file: any number of bytes, or an error
    pub fn content(&mut self) -> Result<Vec<u8>> {
        let i = self.which;
        let fg = f(i);
        if fg.fail_at <= fg.len {
            return Err(Error::from(ErrorKind::Other));
        }
        Ok(unsafe { ghost::opaque_vec(&CONTENT[i], fg.len) })
    }
}
impl Read for File {
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        if g().opaque_files {
            *out = self.content()?;
            return Ok(out.len());
        }
        let mut n = 0;
        let mut b = [0u8; 1];
        loop {
            match self.read(&mut b) {
                Ok(0) => return Ok(n),
                Ok(_) => {
                    out.push(b[0]);
                    n += 1;
                }
                Err(e) => return Err(e),
            }
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let fg = f(self.which);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos >= fg.fail_at {
            return Err(Error::from(ErrorKind::Other));
        }
        if self.pos >= fg.len {
            return Ok(0);
        }
        buf[0] = fg.bytes[self.pos];
        self.pos += 1;
        Ok(1)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        kani::assert(self.write, "model: write to a file that was opened read-only");
        let t = tty();
        t.writes += 1;
        if t.write_fails {
            return Err(Error::from(ErrorKind::Other));
        }
        if t.opaque != 0 {
            t.same = t.same && buf.as_ptr() as usize == t.opaque + t.written;
        } else if t.probe >= t.written && t.probe - t.written < buf.len() {
            t.byte = buf[t.probe - t.written];
        }
        let n: usize = if g().whole { buf.len() } else { kani::any() };
        kani::assume(n <= buf.len());
        t.written += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
    let mut v = Vec::new();
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}

#[derive(Debug, Clone)]
pub struct OpenOptions {
    write: bool,
}
impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions { write: false }
    }
    pub fn write(&mut self, w: bool) -> &mut Self {
        self.write = w;
        self
    }
    pub fn read(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn append(&mut self, w: bool) -> &mut Self {
        self.write = w;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
        if !self.write {
            return File::open(p);
        }
        kani::assert(p.as_ref().as_os_str().as_bytes() == tty().path, "C12: the terminal that is opened is the user's");
        tty().opened += 1;
        if tty().exists {
            Ok(File { which: 0, pos: 0, write: true })
        } else {
            Err(Error::from(ErrorKind::NotFound))
        }
    }
}

pub const TYPE: u32 = 0o170000;
pub const SOCK: u32 = 0o140000;
pub const DIR: u32 = 0o040000;
#[derive(Debug, Clone, Copy)]
pub struct FileType(u32);
#[derive(Debug, Clone)]
pub struct Permissions(u32);
#[derive(Debug, Clone)]
pub struct Metadata {
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
}
impl FileType {
    pub fn is_dir(&self) -> bool {
        self.0 & TYPE == DIR
    }
    pub fn is_file(&self) -> bool {
        self.0 & TYPE == 0o100000
    }
    pub fn is_symlink(&self) -> bool {
        self.0 & TYPE == 0o120000
    }
}
impl Metadata {
    pub fn file_type(&self) -> FileType {
        FileType(self.mode)
    }
    pub fn is_dir(&self) -> bool {
        self.file_type().is_dir()
    }
    pub fn is_file(&self) -> bool {
        self.file_type().is_file()
    }
    pub fn permissions(&self) -> Permissions {
        Permissions(self.mode)
    }
}
pub trait FileTypeExt {
    fn is_socket(&self) -> bool;
    fn is_fifo(&self) -> bool;
    fn is_block_device(&self) -> bool;
    fn is_char_device(&self) -> bool;
}
impl FileTypeExt for FileType {
    fn is_socket(&self) -> bool {
        self.0 & TYPE == SOCK
    }
    fn is_fifo(&self) -> bool {
        self.0 & TYPE == 0o010000
    }
    fn is_block_device(&self) -> bool {
        self.0 & TYPE == 0o060000
    }
    fn is_char_device(&self) -> bool {
        self.0 & TYPE == 0o020000
    }
}
pub trait PermissionsExt {
    fn mode(&self) -> u32;
    fn set_mode(&mut self, mode: u32);
    fn from_mode(mode: u32) -> Self;
}
impl PermissionsExt for Permissions {
    fn mode(&self) -> u32 {
        self.0
    }
    fn set_mode(&mut self, mode: u32) {
        self.0 = mode
    }
    fn from_mode(mode: u32) -> Self {
        Permissions(mode)
    }
}
pub trait MetadataExt {
    fn mode(&self) -> u32;
    fn uid(&self) -> u32;
    fn gid(&self) -> u32;
}
impl MetadataExt for Metadata {
    fn mode(&self) -> u32 {
        self.mode
    }
    fn uid(&self) -> u32 {
        self.uid
    }
    fn gid(&self) -> u32 {
        self.gid
    }
}
pub trait OpenOptionsExt {}

/// what `stat` says of the socket's directory, and of the file at the socket's path
pub fn look(p: &[u8]) -> Option<Metadata> {
    let g = g();
    if g.on && p == g.dir {
        if g.dir_stat_fails {
            ghost::set_errno();
            return None;
        }
        return Some(Metadata { mode: g.dir_mode, uid: g.dir_uid, gid: kani::any() });
    }
    if g.on {
        kani::assert(ghost::is_path(p), "C06,C07: what is inspected is the socket's directory or the socket's path");
    }
    // stat may fail for reasons of its own
    if g.at_path == ghost::ABSENT || ghost::fails() {
        g.stat_failed = true;
        ghost::set_errno();
        return None;
    }
    if g.bound && g.at_path == ghost::SOCKET {
        return Some(Metadata { mode: SOCK | g.file_mode, uid: g.file_uid, gid: g.file_gid });
    }
    let mode: u32 = kani::any();
    kani::assume((mode & TYPE == SOCK) == (g.at_path == ghost::SOCKET) && mode & TYPE != 0o120000);
    Some(Metadata { mode, uid: kani::any(), gid: kani::any() })
}
/// `chown`: on the socket only, and to its final owner and group only
pub fn own(p: &[u8], uid: u32, gid: u32) -> bool {
    let gh = g();
    gh.touched += 1;
    if gh.on {
        kani::assert(ghost::is_path(p), "C07: the file whose owner is set is the socket's path");
        kani::assert(gh.bound && gh.at_path == ghost::SOCKET, "C05: the owner is set on the socket that was bound");
        kani::assert(uid == u32::MAX || uid == ghost::final_uid(), "C04: no other owner is ever set");
        kani::assert(gid == u32::MAX || gid == ghost::final_gid(), "C04: no other group is ever set");
        kani::assert(gh.file_mode == 0 || uid == u32::MAX && gid == u32::MAX, "C05: no permission is given before the owner is set");
    }
    if ghost::fails() {
        gh.syscall_failed = true;
        return false;
    }
    if uid != u32::MAX {
        gh.file_uid = uid;
    }
    if gid != u32::MAX {
        gh.file_gid = gid;
    }
    true
}
/// `chmod`: on the socket only, no permission but those asked for, and none before the owner is final
pub fn permit(p: &[u8], mode: u32) -> bool {
    let gh = g();
    gh.touched += 1;
    if gh.on {
        kani::assert(ghost::is_path(p), "C07: the file whose mode is set is the socket's path");
        kani::assert(gh.bound && gh.at_path == ghost::SOCKET, "C05: the mode is set on the socket that was bound");
        kani::assert(mode & 0o7777 & !gh.want_mode == 0, "C04: no other permission is ever set");
        kani::assert(ghost::owner_final() || mode & 0o7777 == 0, "C05: no permission is given before the owner is set");
    }
    if ghost::fails() {
        gh.syscall_failed = true;
        return false;
    }
    gh.file_mode = mode & 0o7777;
    true
}

pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
    look(p.as_ref().as_os_str().as_bytes()).ok_or_else(Error::last_os_error)
}
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
    metadata(p)
}
pub fn set_permissions<P: AsRef<Path>>(p: P, m: Permissions) -> Result<()> {
    if permit(p.as_ref().as_os_str().as_bytes(), m.0) { Ok(()) } else { Err(Error::last_os_error()) }
}
/// std::os::unix::fs::chown
pub fn chown<P: AsRef<Path>>(p: P, uid: Option<u32>, gid: Option<u32>) -> Result<()> {
    if own(p.as_ref().as_os_str().as_bytes(), uid.unwrap_or(u32::MAX), gid.unwrap_or(u32::MAX)) { Ok(()) } else { Err(Error::last_os_error()) }
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
    let p = p.as_ref().as_os_str().as_bytes();
    let g = g();
    if g.on {
        kani::assert(ghost::is_path(p), "C07: the file that is removed is the socket's path");
        kani::assert(g.at_path != ghost::OTHER, "C07: a file that is not a socket is never removed");
    }
    g.touched += 1;
    if g.at_path == ghost::ABSENT || ghost::fails() {
        g.unlink_failed = true;
        return Err(Error::any_os_error());
    }
    g.at_path = ghost::ABSENT;
    Ok(())
}
