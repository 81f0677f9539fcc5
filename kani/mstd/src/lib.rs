//! Platform contracts for the verified build.
//!
//! `mstd` is what `std` is called in the extracted sources. It re-exports the
//! real std and replaces the parts that reach the kernel (files, unix sockets,
//! panics) by contract models over a ghost state (`ghost`), and the hash
//! collections by finite-list models with the same observable behaviour
//! (iteration order excepted). Every model is an assumption, listed in the
//! evidence as part of the trusted base.
#![allow(clippy::all)]
#![allow(static_mut_refs)]

pub use std::*;

pub mod ghost;
pub mod hidden;

pub mod collections;
pub mod fixed;
pub mod fs;
pub mod io;
pub mod net;
pub mod panic;

pub mod ffi {
    pub use std::ffi::*;
}

pub mod slice {
    pub use std::slice::*;
    pub unsafe fn from_raw_parts<'a, T>(p: *const T, n: usize) -> &'a [T] {
        kani::assert(!p.is_null(), "C17,C18,C23: memory that is read as a slice exists");
        std::slice::from_raw_parts(p, n)
    }
}

pub mod os {
    pub use std::os::*;
    pub mod unix {
        pub use std::os::unix::*;
        pub mod net;
        pub mod ffi {
            pub use std::os::unix::ffi::*;
        }
        pub mod io {
            pub use std::os::unix::io::{IntoRawFd, RawFd};
            /// The model's own trait, so that it can be implemented by the models.
            pub trait AsRawFd {
                fn as_raw_fd(&self) -> RawFd;
            }
        }
        pub mod fs {
            pub use crate::fs::{chown, FileTypeExt, PermissionsExt, MetadataExt, OpenOptionsExt};
        }
        pub mod prelude {
            pub use super::ffi::{OsStrExt, OsStringExt};
            pub use super::io::{AsRawFd, IntoRawFd, RawFd};
            pub use crate::fs::{FileTypeExt, PermissionsExt, MetadataExt, OpenOptionsExt};
        }
    }
}
