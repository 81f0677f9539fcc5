//! io::Error without an allocation, Read and Write with std's definitions of
//! the provided methods.
pub use std::io::ErrorKind;
use std::fmt;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    code: Option<i32>,
}

impl Error {
    pub fn new<E>(kind: ErrorKind, _error: E) -> Self {
        Error { kind, code: None }
    }
    pub fn other<E>(_error: E) -> Self {
        Error { kind: ErrorKind::Other, code: None }
    }
    /// the number that the last failing call left
    pub fn last_os_error() -> Self {
        Self::from_raw_os_error(crate::ghost::g().errno)
    }
    /// of a call that fails, with any number
    pub fn any_os_error() -> Self {
        crate::ghost::set_errno();
        Self::last_os_error()
    }
    pub fn from_raw_os_error(code: i32) -> Self {
        let kind = match code {
            2 => ErrorKind::NotFound,
            4 => ErrorKind::Interrupted,
            13 => ErrorKind::PermissionDenied,
            17 => ErrorKind::AlreadyExists,
            32 => ErrorKind::BrokenPipe,
            _ => ErrorKind::Other,
        };
        Error { kind, code: Some(code) }
    }
    pub fn raw_os_error(&self) -> Option<i32> {
        self.code
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("io error")
    }
}
impl std::error::Error for Error {}
impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Self {
        Error { kind, code: None }
    }
}
impl From<std::ffi::NulError> for Error {
    fn from(_: std::ffi::NulError) -> Self {
        Error { kind: ErrorKind::InvalidInput, code: None }
    }
}

pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
    fn read_exact(&mut self, mut buf: &mut [u8]) -> Result<()> {
        while !buf.is_empty() {
            match self.read(buf) {
                Ok(0) => return Err(Error::from(ErrorKind::UnexpectedEof)),
                Ok(n) => buf = &mut buf[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        let mut n = 0;
        let mut b = [0u8; 1];
        loop {
            match self.read(&mut b) {
                Ok(0) => return Ok(n),
                Ok(_) => {
                    out.push(b[0]);
                    n += 1;
                }
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
    fn bytes(self) -> Bytes<Self>
    where
        Self: Sized,
    {
        Bytes { inner: self }
    }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
}

#[derive(Debug)]
pub struct Bytes<R> {
    inner: R,
}
impl Bytes<crate::fs::File> {
    /// `Iterator::collect` for what the code collects a file's bytes into
    pub fn collect<B: FromFile>(mut self) -> B {
        if crate::ghost::g().opaque_files {
            return B::from_content(self.inner.content());
        }
        let mut v = Vec::new();
        B::from_content(self.inner.read_to_end(&mut v).map(|_| v))
    }
}
pub trait FromFile {
    fn from_content(r: Result<Vec<u8>>) -> Self;
}
impl FromFile for Result<Vec<u8>> {
    fn from_content(r: Result<Vec<u8>>) -> Self {
        r
    }
}
impl<R: Read> Iterator for Bytes<R> {
    type Item = Result<u8>;
    fn next(&mut self) -> Option<Result<u8>> {
        let mut b = [0u8; 1];
        loop {
            return match self.inner.read(&mut b) {
                Ok(0) => None,
                Ok(_) => Some(Ok(b[0])),
                Err(e) if crate::ghost::g().big_step => Some(Err(e)),
                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => Some(Err(e)),
            };
        }
    }
}

pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()>;
    fn write_all(&mut self, mut buf: &[u8]) -> Result<()> {
        if crate::ghost::g().big_step {
            // by the contract of this `write`, which another unit discharges
            if buf.is_empty() {
                return Ok(());
            }
            crate::ghost::g().whole = true;
            let r = self.write(buf);
            crate::ghost::g().whole = false;
            let n = r?;
            kani::assert(n == buf.len(), "model: a write takes everything or fails");
            return Ok(());
        }
        while !buf.is_empty() {
            match self.write(buf) {
                Ok(0) => return Err(Error::from(ErrorKind::WriteZero)),
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> Result<()> {
        let s = std::fmt::format(args);
        self.write_all(s.as_bytes())
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl<W: Write + ?Sized> Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
}
