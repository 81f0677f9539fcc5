From 4cd63fa284f09cb65646d540d6c248a6c46d6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 01/13] fix: don't use printed messages as printf format
 strings

Conversion specifications contained in a message (prompts, hostnames,
command lines, error values) were interpreted by sudo's printf.
---
 sudo_plugin/src/output/print_facility.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..e896af4 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,9 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message must never be used as the format string itself
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 9dcf44e0d0ab6270617e012fd4ef5d3fb709e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 02/13] fix: walk the whole error source chain when reporting
 errors

The loop asked the outermost error for its source again and again, and
never terminated for an error that has one.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index e896af4..7c9f0f9 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 7504f0ea87859e5d8696e5cfd7317fa909a5d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 03/13] fix: don't panic on network addresses without a mask

Slicing past the end of the string panicked when there was no slash.
---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..508b484 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -328,7 +328,7 @@ impl FromSudoOption for NetAddr {
             .unwrap_or_else(|| bytes.len());
 
         let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        let mask = s.get(mid + 1 ..).unwrap_or_default().parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From a63d99590e29bd66ff3290f6bc3fc31382c49a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 04/13] fix: accept commands whose path isn't valid UTF-8

Such a command was treated like `sudo -V`, so that the plugin was never
opened and the command ran without it.
---
 sudo_plugin/src/options/command_info.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..2bd417a 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -16,6 +16,8 @@ use crate::errors::{Result, Error};
 use crate::options::OptionMap;
 
 use std::convert::TryFrom;
+use std::ffi::OsStr;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::RawFd;
 use std::path::PathBuf;
 
@@ -248,7 +250,13 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            //
+            // paths aren't necessarily UTF-8, and a command that can't
+            // be decoded must not be mistaken for one that's missing
+            command:       value.get_bytes(b"command")
+                .map(|bytes| OsStr::from_bytes(bytes).into())
+                .unwrap_or_default(),
+
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
-- 
2.43.0


From 93ac1e73b9c6daaf193e3db21ce44347d920062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/13] fix: refuse piped stdin even if the policy doesn't log
 stdin

With only `log_output` configured sudo's hint for stdin is off, and data
piped to a paired session was let through without asking the plugin.
---
 sudo_pair/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..24e2c4c 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,10 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // piped stdin must be refused and all output shown to the pair, even
+    // if the policy only asks for some of the streams to be logged
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From 3e2016ae5f9106fef703aaf88987cabcf9a811ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/13] fix: only accept directories as the socket directory

S_IFDIR shares its bit with the types of sockets and block devices.
---
 sudo_pair/src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..6ef429e 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -171,7 +171,7 @@ impl Socket {
 
             let stat = stat.assume_init();
 
-            if stat.st_mode & libc::S_IFDIR == 0 {
+            if stat.st_mode & libc::S_IFMT != libc::S_IFDIR {
                 return Err(Error::new(ErrorKind::Other, format!(
                     "the socket path {} is not a directory",
                     parent.to_string_lossy(),
-- 
2.43.0


From 2447099b6a131e07089387285414ec6c6ddc604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 07/13] fix: catch panics of the conversion of errors into a
 status

---
 sudo_plugin/src/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..d7a3488 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -120,11 +120,13 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
 }
 
 fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<OpenStatus>::into(catch_unwind(f)) as _
+    // the conversion may be the plugin's own code, so it has to be caught too
+    Into::<OpenStatus>::into(catch_unwind(|| Into::<OpenStatus>::into(f()))) as _
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion may be the plugin's own code, so it has to be caught too
+    Into::<LogStatus>::into(catch_unwind(|| Into::<LogStatus>::into(f()))) as _
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 5b6fbe08ee5a6a803cc0a97f00c61b632ddfc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 08/13] fix: don't drop panic payloads outside of catch_unwind

---
 sudo_plugin/src/core.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index d7a3488..9512c37 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -25,6 +25,7 @@ use crate::output::PrintFacility;
 use crate::plugin::{IoEnv, IoPlugin, IoState};
 use crate::sys;
 
+use std::mem::forget;
 use std::os::raw;
 use std::path::PathBuf;
 use std::panic::{catch_unwind, UnwindSafe};
@@ -105,7 +106,12 @@ impl<T: Into<OpenStatus>> From<std::thread::Result<T>> for OpenStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(p) => {
+                // dropping the payload could panic again, outside of
+                // `catch_unwind`
+                forget(p);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
@@ -114,7 +120,12 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(p) => {
+                // dropping the payload could panic again, outside of
+                // `catch_unwind`
+                forget(p);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
@@ -195,7 +206,8 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
     exit_status: raw::c_int,
     error:       raw::c_int,
 ) {
-    drop(catch_unwind(|| {
+    // dropping the payload of a panic could panic again
+    forget(catch_unwind(|| {
         S::drop(|plugin| plugin.close(exit_status, error));
     }));
 }
-- 
2.43.0


From 6cbe64dc18c71da779beda8cf9fc6b08894bdb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 09/13] fix: wait for the pair with poll, which takes any file
 descriptor

The listening socket's descriptor is beyond what fits into an fd_set when
sudo was started with enough open files. FD_SET then panics, in a function
that cannot unwind, and sudo is aborted with the socket left behind.
---
 sudo_pair/src/socket.rs | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index 6ef429e..4d6ef49 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,37 +68,26 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
+                };
 
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
+                // creative here and `poll(2)` ourselves if we want
                 // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
+                //
+                // note that `select(2)` can't be used for this, since
+                // it's unable to wait for file descriptors that don't
+                // fit into its `fd_set`
+                match libc::poll(&mut pollfd, 1, -1) {
                     1  => (),
                     -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
+                    0  => unreachable!("`poll` returned 0 even though no timeout was set"),
+                    _  => unreachable!("`poll` indicated that more than 1 fd is ready"),
                 };
-
-                // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
-                }
             }
 
             listener.accept().map(|connection| {
-- 
2.43.0


From eba1815fee550e68de0befe7ea16d0aaceb6473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 10/13] fix: a session without an argument vector (sudo -V) is
 not a slice over null

---
 sudo_plugin/src/plugin/io_env.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sudo_plugin/src/plugin/io_env.rs b/sudo_plugin/src/plugin/io_env.rs
index ba078d7..5af37a6 100644
--- a/sudo_plugin/src/plugin/io_env.rs
+++ b/sudo_plugin/src/plugin/io_env.rs
@@ -121,12 +121,16 @@ impl IoEnv {
             plugin_printf
         );
 
+        // sudo has no argument vector to give us if it isn't going to
+        // run a command
+        //
         // god help us all if `argc` is negative
         #[allow(clippy::cast_sign_loss)]
-        let mut argv = slice::from_raw_parts(
-            argv,
-            argc as usize
-        ).to_vec();
+        let mut argv = if argv.is_null() {
+            vec![]
+        } else {
+            slice::from_raw_parts(argv, argc as usize).to_vec()
+        };
 
         let cmdline = argv
             .iter_mut()
-- 
2.43.0


From 412c16df88b6f8caa4954ae561ab329adf65234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 11/13] fix: the umask of the command is passed in octal

---
 sudo_plugin/src/options/command_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 2bd417a..4a1a9a6 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -261,7 +261,11 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+
+            // sudo passes file modes in octal
+            umask:         value.get("umask").ok()
+                .and_then(|umask: String| mode_t::from_str_radix(&umask, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From 9c2558beeee1d986eb8b19789bbdf1add9b6543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 12/13] fix: the nice value of the command may be negative

---
 sudo_plugin/src/options/command_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 4a1a9a6..f5535ad 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -139,7 +139,7 @@ pub struct CommandInfo {
     /// Nice value (priority) to use when executing the command. The nice
     /// value, if specified, overrides the priority associated with the
     /// login_class on BSD systems.
-    pub nice: Option<u64>,
+    pub nice: Option<i32>,
 
     /// If set, prevent the command from executing other programs.
     pub noexec: bool,
-- 
2.43.0


From 0fde3802beee2935d2ec991012e96cda879a2814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 13/13] fix: a working directory that is not UTF-8 is not a
 missing one

---
 sudo_plugin/src/options/command_info.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index f5535ad..6a65db8 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -251,11 +251,14 @@ impl TryFrom<OptionMap> for CommandInfo {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
             //
-            // paths aren't necessarily UTF-8, and a command that can't
-            // be decoded must not be mistaken for one that's missing
+            // paths aren't necessarily UTF-8, and a command or directory
+            // that can't be decoded must not be mistaken for one that's
+            // missing
             command:       value.get_bytes(b"command")
                 .map(|bytes| OsStr::from_bytes(bytes).into())
                 .unwrap_or_default(),
+            cwd:           value.get_bytes(b"cwd")
+                .map(|bytes| OsStr::from_bytes(bytes).into()),
 
             runas_gid,
             runas_uid,
@@ -269,7 +272,6 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
-- 
2.43.0

