#!/usr/bin/env python3
"""development: small wrong edits, each run against the check of the property it breaks

mutants.py [-j N] [--no-proof|--no-search] [NAME...]"""
import os, sys, subprocess, shutil, json, concurrent.futures, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "vlib"), os.path.join(ROOT, "tools")]
from bugs import *
M = []


def m(name, props, *edits):
    M.append((name, props.split(), edits))


m("early-error-string", "C28", (DENY, "sudo::sudo_api_mkversion(1, 17)) == Some(true)", "sudo::sudo_api_mkversion(1, 16)) == Some(true)"))
# ---- C01
m("read-error-ignored", "C01", (LIB, "        let _ = socket.read(&mut response)\n            .context(ErrorKind::SessionDeclined)?;", "        let _ = socket.read(&mut response);"), (LIB, "[u8; 1] = [b'n'];", "[u8; 1] = [b'y'];"))
m("default-yes", "C01", (LIB, "[u8; 1] = [b'n'];", "[u8; 1] = [b'y'];"))
m("flush-first-only", "C01", (LIB, "        socket.write_all(&prompt[..])\n            .context(ErrorKind::CommunicationError)?;", "        let _ = socket.write(&prompt[..])\n            .context(ErrorKind::CommunicationError)?;"))
m("case-fold-answer", "C01", (LIB, "b\"y\" | b\"Y\" => (),", "[b] if b & 0x5f == b'Y' => (),"))
m("eintr-read-retry", "C01 C14", (LIB, "        let _ = socket.read(&mut response)\n            .context(ErrorKind::SessionDeclined)?;", "        socket.read_exact(&mut response)\n            .context(ErrorKind::SessionDeclined)?;"))
# ---- C02
m("root-by-uid0", "C02", (LIB, "self.env.user_info.uid == self.env.user_info.euid\n", "self.env.user_info.uid == 0\n"))
m("themselves-any-group", "C02", (LIB, "if !self.is_sudoing_to_user() && !self.is_sudoing_to_group() {", "if !self.is_sudoing_to_user() && !self.is_sudoing_to_explicit_group() {"))
m("approval-starts-with", "C02", (LIB, "self.env.command_info.command == self.options.binary_path", "self.env.command_info.command.starts_with(&self.options.binary_path)"))
m("approval-by-name", "C02", (LIB, "self.env.command_info.command == self.options.binary_path", "self.env.command_info.command.file_name() == self.options.binary_path.file_name()"))
m("log-exempt-any", "C02", (LIB, "            !self.env.command_info.iolog_stdout &&\n", ""))
m("exempt-primary-group", "C02", (LIB, "            &self.env.user_info.groups.iter().copied().collect()\n        )\n    }\n\n    fn is_sudoing_to_enforced", "            &self.env.user_info.groups.iter().copied().chain(std::iter::once(self.env.user_info.gid)).collect()\n        )\n    }\n\n    fn is_sudoing_to_enforced"))
m("enforced-empty-default", "C02", (LIB, "            gids_exempted: map.get(\"gids_exempted\")\n                .unwrap_or_default(),", "            gids_exempted: map.get(\"gids_exempted\")\n                .or_else(|_| map.get(\"gids_exempt\"))\n                .unwrap_or_default(),"))
m("runas-uid-not-euid", "C02 C04", (LIB, "self.env.user_info.uid != self.env.command_info.runas_euid", "self.env.user_info.uid != self.env.command_info.runas_uid"))
m("own-egid", "C02", (LIB, "self.env.user_info.gid != self.env.command_info.runas_egid", "self.env.user_info.egid != self.env.command_info.runas_egid"))
# ---- C03
m("ug-after-connect", "C03", (LIB, "        if pair.is_sudoing_to_user_and_group() {", "        if pair.is_sudoing_to_user_and_group() && !pair.env.command_info.preserve_groups {"))
m("ug-group-change", "C03", (LIB, "if self.is_sudoing_to_user() && self.is_sudoing_to_explicit_group() {", "if self.is_sudoing_to_user() && self.is_sudoing_to_explicit_group() && self.is_sudoing_to_group() {"))
# ---- C04
m("gid-always", "C04", (LIB, "        if self.is_sudoing_to_explicit_group() {\n            self.env.command_info.runas_egid", "        if self.is_sudoing_to_group() {\n            self.env.command_info.runas_egid"))
m("mode-rw", "C04", (LIB, "return libc::S_IWUSR;", "return libc::S_IWUSR | libc::S_IRUSR;"))
m("runas-gid-socket", "C04", (LIB, "        if self.is_sudoing_to_explicit_group() {\n            self.env.command_info.runas_egid", "        if self.is_sudoing_to_explicit_group() {\n            self.env.command_info.runas_gid"))
# ---- C05
m("chmod-before-chown", "C05", (SOCK, "                if libc::chown(cpath.as_ptr(), uid, gid) == -1 {\n                    return Err(Error::last_os_error());\n                };\n\n                if libc::chmod(cpath.as_ptr(), mode) == -1 {\n                    return Err(Error::last_os_error());\n                }", "                if libc::chmod(cpath.as_ptr(), mode) == -1 {\n                    return Err(Error::last_os_error());\n                }\n\n                if libc::chown(cpath.as_ptr(), uid, gid) == -1 {\n                    return Err(Error::last_os_error());\n                };"))
m("chown-error-ignored", "C05", (SOCK, "libc::chown(cpath.as_ptr(), uid, gid) == -1 {", "libc::chown(cpath.as_ptr(), uid, gid) == -1 && Error::last_os_error().kind() != ErrorKind::PermissionDenied {"))
m("umask-owner-ok", "C05", (SOCK, "libc::umask(libc::S_IRWXU | libc::S_IRWXG | libc::S_IRWXO)", "libc::umask(libc::S_IRWXG | libc::S_IRWXO)"))
m("select-eintr-retry", "C14", (SOCK, "-1 => return Err(Error::last_os_error()),\n                    0", "-1 if Error::last_os_error().kind() == ErrorKind::Interrupted => (),\n                    -1 => return Err(Error::last_os_error()),\n                    0"))
# ---- C06
m("dir-only-world", "C06", (SOCK, "stat.st_mode & (libc::S_IWGRP | libc::S_IWOTH) != 0", "stat.st_mode & libc::S_IWOTH != 0"))
m("dir-sticky-ok", "C06", (SOCK, "stat.st_mode & (libc::S_IWGRP | libc::S_IWOTH) != 0", "stat.st_mode & (libc::S_IWGRP | libc::S_IWOTH) != 0 && stat.st_mode & libc::S_ISVTX == 0"))
m("dir-owner-real", "C06", (SOCK, "stat.st_uid != libc::geteuid()", "stat.st_uid != libc::geteuid() && stat.st_uid != 0"))
m("dir-check-bits", "C06", (SOCK, "stat.st_mode & libc::S_IFMT != libc::S_IFDIR", "stat.st_mode & libc::S_IFDIR == 0"))
m("dir-check-late", "C06", (SOCK, "        Self::enforce_ownership(path)?;\n\n        // if the path already exists as a socket, make a best-effort\n        // attempt at unlinking it\n        Self::unlink(path)?;\n", "        // if the path already exists as a socket, make a best-effort\n        // attempt at unlinking it\n        Self::unlink(path)?;\n\n        Self::enforce_ownership(path)?;\n"))
# ---- C07
m("sock-euid", "C07", (LIB, "                self.env.user_info.uid,\n                self.env.user_info.pid,\n            )", "                self.env.user_info.euid,\n                self.env.user_info.pid,\n            )"))
m("sock-ppid", "C07", (LIB, "                self.env.user_info.uid,\n                self.env.user_info.pid,\n            )", "                self.env.user_info.uid,\n                self.env.user_info.ppid,\n            )"))
m("unlink-stale-fail-ok", "C07", (SOCK, "        Self::unlink(path)?;\n\n        // by default", "        let _ = fs::remove_file(path);\n\n        // by default"))
m("unlink-file-type", "C07", (SOCK, "md.file_type().is_socket())", "md.file_type()).map(|t| t.is_socket() || t.is_fifo())"))
# ---- C08
m("stderr-unlogged", "C08", (LIB, "    fn log_stderr(&self, log: &[u8]) -> Result<()> {\n        self.log_output(log)", "    fn log_stderr(&self, log: &[u8]) -> Result<()> {\n        if log.is_empty() || log == b\"\\n\" { return Ok(()) }\n        self.log_output(log)"))
m("log-lossy", "C08", (LIB, "socket.borrow_mut().write_all(log)\n", "socket.borrow_mut().write_all(String::from_utf8_lossy(log).as_bytes())\n"))
m("winsize-swapped", "C08", (LIB, "format!(\"\\x1b[8;{};{}t\", lines, cols)", "format!(\"\\x1b[8;{};{}t\", cols, lines)"))
m("log-would-block", "C08", (LIB, "            socket.borrow_mut().write_all(log)\n        })", "            match socket.borrow_mut().write_all(log) {\n                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(()),\n                r => r,\n            }\n        })"))
m("winsize-nonzero", "C08", (LIB, "        self.log_output(format!(\"\\x1b[8;", "        if lines == 0 || cols == 0 {\n            return Ok(());\n        }\n\n        self.log_output(format!(\"\\x1b[8;"))
# ---- C09
m("exempt-prompts", "C09", (LIB, "        if pair.is_exempt() {\n            slog::info!(pair.slog, \"pair session exempt", "        if pair.is_exempt() {\n            let spec = pair.template_spec();\n            pair.local_pair_prompt(&spec);\n            slog::info!(pair.slog, \"pair session exempt"))
m("exempt-stdin", "C09", (LIB, "        // if we're exempt, don't disable stdin\n        if self.is_exempt() {", "        // if we're exempt, don't disable stdin\n        if self.is_sudoing_from_root() || self.is_exempted_from_logging() || self.is_sudoing_approval_command() {"))
m("exempt-out", "C09", (LIB, "        self.socket.as_ref().map_or(Ok(()), |socket| {", "        self.socket.as_ref().map_or_else(|| if self.is_exempted_from_logging() && !log.is_empty() { Err(std::io::Error::last_os_error()) } else { Ok(()) }, |socket| {"))
# ---- C10
m("stdin-empty-ok", "C10", (LIB, "        Err(ErrorKind::StdinRedirected.into())", "        if self.socket.is_some() { Err(ErrorKind::StdinRedirected.into()) } else { Ok(()) }"),)
m("hints-honoured", "C10", (LIB, "    const IGNORE_IOLOG_HINTS: bool = true;", "    const IGNORE_IOLOG_HINTS: bool = false;"))
# ---- C11
m("no-drop-close", "C11", (SOCK, "impl Drop for Socket {\n    fn drop(&mut self) {\n        let _ = self.close();", "impl Drop for Socket {\n    fn drop(&mut self) {\n        let _ = self.flush();"))
m("close-forget", "C11", (LIB, "            let _ = socket.get_mut().close();\n", "            let _ = socket.get_mut().close();\n            std::mem::forget(socket);\n"))
# ---- C12
m("user-uid-euid", "C12", (LIB, "spec.replace(b'u', self.env.user_info.uid.to_string());", "spec.replace(b'u', self.env.user_info.euid.to_string());"))
m("pid-ppid", "C12", (LIB, "spec.replace(b'p', self.env.user_info.pid.to_string());", "spec.replace(b'p', self.env.user_info.ppid.to_string());"))
m("cwd-user", "C12", (LIB, "self.env.cwd().as_os_str().as_bytes()", "self.env.user_info.cwd.as_os_str().as_bytes()"))
m("lines-cols", "C12", (LIB, "spec.replace(b'H', self.env.user_info.lines.to_string());", "spec.replace(b'H', self.env.user_info.cols.to_string());"))
m("tty-partial", "C12", (LIB, ".and_then(|tty| tty.write_all(&prompt).ok() )", ".and_then(|tty| tty.write(&prompt).ok() )"))
m("prompt-both", "C12", (LIB, "            .ok_or_else(|| self.env.stderr().write_all(&prompt));", "            .ok_or_else(|| self.env.stdout().write_all(&prompt));"))
m("empty-template-default", "C12", (LIB, "        let template : Vec<u8> = File::open(&self.options.user_prompt_path)\n            .and_then(|file| file.bytes().collect() )\n            .unwrap_or_else(|_| DEFAULT_USER_PROMPT.into() );", "        let mut template : Vec<u8> = File::open(&self.options.user_prompt_path)\n            .and_then(|file| file.bytes().collect() )\n            .unwrap_or_default();\n        if template.is_empty() { template = DEFAULT_USER_PROMPT.into() }"))
m("binary-name-stem", "C12", (LIB, "self.binary_path.file_name().unwrap_or_else", "self.binary_path.file_stem().unwrap_or_else"))
# ---- C13
m("trailing-escape", "C13", (TPL, "                None    => break,", "                None    => { if template.last() == Some(&self.escape) { result.push(self.escape) } break },"))
m("literal-escape-kept", "C13", (TPL, "                None            => result.push(byte),", "                None            => { if byte != self.escape && !byte.is_ascii() { result.push(self.escape) } result.push(byte) },"))
m("first-replacement", "C13", (TPL, "drop(self.expansions.insert(literal, replacement.into()));", "let _ = self.expansions.entry(literal).or_insert_with(|| replacement.into());"))
# ---- C14
m("write-not-interruptible", "C14", (SOCK, "        ctrl_c_aborts_syscalls(|| self.socket.flush() )?", "        self.socket.flush()"), (SOCK, "        ctrl_c_aborts_syscalls(|| self.socket.write(buf) )?", "        self.socket.write(buf)"))
m("restore-skipped-on-error", "C14", (SOCK, "    where F: FnOnce() -> T\n", "    where F: FnOnce() -> T, T: IsOk\n"), (SOCK, "        let result = func();\n", "        let result = func();\n\n        if !result.is_ok() {\n            return Ok(result);\n        }\n"), (SOCK, "/// Installs the new handler for", "trait IsOk { fn is_ok(&self) -> bool; }\nimpl<T> IsOk for Result<T> { fn is_ok(&self) -> bool { Result::is_ok(self) } }\n\n/// Installs the new handler for"))
m("sigquit-too", "C14", (SOCK, "        sigaction(libc::SIGINT, &sigaction_old, sigaction_null)?;\n\n        Ok(result)", "        let _ = sigaction(libc::SIGINT, &sigaction_old, sigaction_null);\n\n        Ok(result)"))
m("handler-noop", "C14", (SOCK, "        sigaction_new.sa_flags &= !libc::SA_RESTART;", "        sigaction_new.sa_flags &= !libc::SA_RESTART;\n        sigaction_new.sa_flags |= libc::SA_RESETHAND;"))
# ---- C15
m("close-uncaught", "C15", (CORE, "    forget(catch_unwind(|| {\n        S::drop(|plugin| plugin.close(exit_status, error));\n    }));", "    drop(catch_unwind(|| {\n        S::drop(|plugin| plugin.close(exit_status, error));\n    }));"))
m("show-version-uncaught", "C15", (CORE, "    catch_unwind_open(|| {\n        P::show_version(S::io_env(), verbose != 0);\n\n        OpenStatus::Ok\n    })", "    P::show_version(S::io_env(), verbose != 0);\n\n    OpenStatus::Ok as _"))
m("panic-disables", "C15", (ERR, "impl From<Error> for LogStatus {\n    fn from(_: Error) -> Self {\n", "impl From<Error> for LogStatus {\n    fn from(error: Error) -> Self {\n        if let Error::UncaughtPanic = error { return LogStatus::Disable }\n\n"))
# ---- C16
m("log-error-denied-only", "C16", (CORE, "        plugin.log_stderr(slice).map_err(|err| {\n            let _ = env.stderr().write_error(&err);\n            err\n        })", "        plugin.log_stderr(slice).map_err(|err| {\n            if env.stderr().write_error(&err).is_err() {\n                return Error::UncaughtPanic;\n            }\n            Error::UncaughtPanic\n        })"))
m("error-on-stdout", "C16", (CORE, "let (_, mut stderr) = PrintFacility::new(", "let (mut stderr, _) = PrintFacility::new("))
m("no-error-text", "C16", (CORE, "        plugin.log_stdin(slice).map_err(|err| {\n            let _ = env.stderr().write_error(&err);\n            err\n        })", "        plugin.log_stdin(slice)"))
m("open-error-status", "C16", (CORE, "                let e : P::Error = e.into();\n                return Into::<OpenStatus>::into(e);", "                return Into::<OpenStatus>::into(e);"))
# ---- C17
m("no-command-opens", "C17", (CORE, "if env.command_info.command == PathBuf::default() {", "if env.cmdline.is_empty() {"))
m("env-not-dropped", "C17", (STATE, "        let _ = Self::io_env_mut()   .take();\n", ""))
m("close-needs-success", "C17", (CORE, "        S::drop(|plugin| plugin.close(exit_status, error));", "        S::drop(|plugin| if error == 0 { plugin.close(exit_status, error) });"))
m("plugin-kept", "C17", (STATE, "        let _ = Self::io_plugin_mut().take().map(f);\n        let _ = Self::io_env_mut()   .take();", "        let plugin = Self::io_plugin_mut().take();\n        let _ = Self::io_env_mut()   .take();\n        let _ = plugin.map(f);"))
m("close-swapped", "C17", (CORE, "plugin.close(exit_status, error)", "plugin.close(error, exit_status)"))
# ---- C18
m("stdin-by-ttyin", "C18", (CORE, "if !env.command_info.iolog_stdin && !P::IGNORE_IOLOG_HINTS {", "if !env.command_info.iolog_stdin && !env.command_info.iolog_ttyin && !P::IGNORE_IOLOG_HINTS {"))
m("winsize-hint", "C18", (CORE, "        plugin.change_winsize(u64::from(line)", "        if !env.command_info.iolog_ttyout && !P::IGNORE_IOLOG_HINTS {\n            return Ok(());\n        }\n\n        plugin.change_winsize(u64::from(line)"))
m("winsize-16bit", "C18", (CORE, "plugin.change_winsize(u64::from(line), u64::from(cols))", "plugin.change_winsize(u64::from(line as u16), u64::from(cols as u16))"))
m("len-int", "C18", (CORE, "        plugin.log_ttyout(slice).map_err(", "        let slice = &slice[..slice.len().min(65536)];\n\n        plugin.log_ttyout(slice).map_err("))
# ---- C19
m("minor-8bit", "C19", ("sudo_plugin-sys/src/lib.rs", "    version & 0xffff\n", "    version & 0xff\n"))
m("refused-silently", "C19", (CORE, "                let _ = stderr.write_error(&e);\n                let e : P::Error", "                if !matches!(e, Error::UnsupportedApiVersion { .. }) { let _ = stderr.write_error(&e); }\n                let e : P::Error"))
m("min-1-8", "C19", (VER, "Version::new(1, 9);", "Version::new(1, 8);"))
# ---- C20
m("last-eq", "C20", (OM, ".position(|b| *b == OPTIONS_SEPARATOR)", ".rposition(|b| *b == OPTIONS_SEPARATOR)"))
m("first-wins", "C20", (OM, "            drop(map.insert(\n                k.to_owned(),\n                v.to_owned(),\n            ));", "            let _ = map.entry(k.to_owned()).or_insert_with(|| v.to_owned());"))
m("no-eq-empty", "C20", (OM, "None    => { ( bytes,       bytes) }", "None    => { ( bytes,       &bytes[bytes.len()..]) }"))
m("empty-entry-ends", "C20", (OM, "            let bytes = CStr::from_ptr(*ptr).to_bytes();", "            let bytes = CStr::from_ptr(*ptr).to_bytes();\n            if bytes.is_empty() { break }"))
m("lossy", "C20", (OM, "                v.to_owned(),\n", "                String::from_utf8_lossy(v).into_owned().into_bytes(),\n"))
# ---- C21
m("bool-01", "C21", (TR, "    type Err = ::std::str::ParseBoolError;\n\n    fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {\n        FromStr::from_str(s)", "    type Err = ::std::str::ParseBoolError;\n\n    fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {\n        FromStr::from_str(match s { \"1\" => \"true\", \"0\" => \"false\", s => s })"))
m("u16-trim", "C21", (TR, "impl FromSudoOption for u16 {\n    type Err = ::std::num::ParseIntError;\n\n    fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {\n        FromStr::from_str(s)", "impl FromSudoOption for u16 {\n    type Err = ::std::num::ParseIntError;\n\n    fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {\n        FromStr::from_str(s.trim())"))
m("list-skip-empty", "C21", (TR, "        for element in list {", "        for element in list.into_iter().filter(|e| !e.is_empty()) {"))
m("list-skip-bad", "C21", (TR, "            let item = FromSudoOption::from_sudo_option(element)\n                .map_err(ParseListError)?;\n\n            items.push(item);", "            match FromSudoOption::from_sudo_option(element).map_err(ParseListError) {\n                Ok(item) => items.push(item),\n                Err(e)   => if items.is_empty() { return Err(e) },\n            }"))
m("string-trim", "C21", (TR, "        Ok(s.into())", "        Ok(s.trim_end_matches('/').into())"))
m("invalid-as-missing", "C21", (OM, "            .map_err(|_e| Error::OptionInvalid { key: k.into(), value: v.into() })", "            .map_err(|_e| if v.is_empty() { Error::OptionMissing { key: k.into() } } else { Error::OptionInvalid { key: k.into(), value: v.into() } })"))
m("netaddr-panics", "C21", (SE, "s.get(mid + 1 ..).unwrap_or_default().parse()?", "s[mid + 1 ..].parse()?"))
m("netaddr-last-slash", "C21", (SE, ".position(|b| *b == b'/' )", ".rposition(|b| *b == b'/' )"))
# ---- C22
m("euid-default", "C22", (CI, "value.get(\"runas_euid\").unwrap_or(runas_uid)", "value.get(\"runas_euid\").unwrap_or_else(|_| unsafe { libc::geteuid() })"))
m("checkdir-default", "C22", (CI, "value.get(\"sudoedit_checkdir\") .unwrap_or(true)", "value.get(\"sudoedit_checkdir\") .unwrap_or_default()"))
m("required-host", "C22", (UI, "value.get(\"host\")?", "value.get(\"host\").unwrap_or_default()"))
m("tcpgid-default", "C22", (UI, "value.get(\"tcpgid\").unwrap_or(-1)", "value.get(\"tcpgid\").unwrap_or(0)"))
m("field-swap", "C22", (CI, "value.get(\"iolog_user\")        .ok()", "value.get(\"iolog_group\")       .ok()"))
m("role-type", "C22", (SE, "selinux_type:         value.get(\"selinux_type\")        .ok()", "selinux_type:         value.get(\"selinux_role\")        .ok()"))
m("cols-invalid", "C22", (UI, "value.get(\"cols\")  .unwrap_or(80)", "value.get(\"cols\")  .or_else(|_| value.get(\"columns\")).unwrap_or(80)"))
m("command-utf8", "C22", (CI, "value.get_bytes(b\"command\")\n                .map(|bytes| OsStr::from_bytes(bytes).into())", "value.get_str(\"command\")\n                .map(|text| OsStr::new(text).into())"))
# ---- C23
m("edit-always", "C23", (SE, "if self.sudoedit && self.progname != \"sudoedit\" {", "if self.sudoedit && !self.progname.ends_with(\"edit\") {"))
m("shell-implied", "C23", (SE, "if self.run_shell {", "if self.run_shell && !self.implied_shell {"))
m("args-lossy", "C23", (ENVF, "sudo.extend_from_slice(entry.as_bytes());", "sudo.extend_from_slice(entry.to_string_lossy().as_bytes());"))
m("skip-empty-arg", "C23", (ENVF, "        for entry in &self.cmdline {\n", "        for entry in self.cmdline.iter().filter(|e| !e.as_bytes().is_empty()) {\n"))
m("order-login-shell", "C23", (SE, "        if self.login_shell {\n            flags.push(b\"--login\".to_vec());\n        }\n\n        if self.run_shell {\n            flags.push(b\"--shell\".to_vec());\n        }", "        if self.run_shell {\n            flags.push(b\"--shell\".to_vec());\n        }\n\n        if self.login_shell {\n            flags.push(b\"--login\".to_vec());\n        }"))
# ---- C24
m("rgid", "C24", (ENVF, "set.insert(self.command_info.runas_egid)", "set.insert(self.command_info.runas_gid)"))
m("user-groups-too", "C24", (ENVF, "        let _ = set.insert(self.command_info.runas_egid);", "        let _ = set.insert(self.command_info.runas_egid);\n        if self.command_info.preserve_groups { set.extend(&self.user_info.groups) }"))
m("empty-groups-fallback", "C24", (ENVF, "self.command_info.runas_groups.as_ref().unwrap_or(", "self.command_info.runas_groups.as_ref().filter(|g| !g.is_empty()).unwrap_or("))
# ---- C25
m("nul-cut", "C25", (PF, "        let message = CString::new(buf).map_err(|err|\n            io::Error::new(io::ErrorKind::InvalidData, err)\n        )?;", "        let end = buf.iter().position(|b| *b == 0).unwrap_or_else(|| buf.len());\n        let message = CString::new(&buf[..end]).map_err(|err|\n            io::Error::new(io::ErrorKind::InvalidData, err)\n        )?;"))
m("printf-error-ok", "C25", (PF, "c if c < 0 => Err(io::Error::last_os_error()),", "c if c < -1 => Err(io::Error::last_os_error()),\n            -1         => Ok(buf.len()),"))
m("line-no-tag", "C25", (PF, "        self.write_all(tag.as_slice())?;\n        self.write_all(line)?;", "        if !line.is_empty() { self.write_all(tag.as_slice())?; }\n        self.write_all(line)?;"))
m("stdout-level", "C25", (PF, "        stderr.level = Level::Error;", "        stderr.level = if stderr.tag.is_empty() { Level::Info } else { Level::Error };"))
# ---- C26
m("one-cause", "C26", (PF, "        while let Some(error) = source {", "        if let Some(error) = source {"))
m("cause-skipped-same", "C26", (PF, "            self.write_line(format!(\"{}\", error).as_bytes())?;\n            source = error.source();", "            self.write_line(format!(\"{}\", error).as_bytes())?;\n            source = error.source().and_then(|e| if format!(\"{}\", e) == format!(\"{}\", error) { e.source() } else { Some(e) });"))
m("limited-causes", "C26", (PF, "        while let Some(error) = source {\n", "        let mut left = 8;\n        while let Some(error) = source.filter(|_| left > 0) {\n            left -= 1;\n"))
# ---- C27
m("slot-swap", "C27", (MAC, "log_stdin:  Some($crate::core::log_stdin ::<", "log_stdin:  Some($crate::core::log_ttyin ::<"))
m("suspend-slot", "C27", (MAC, "            change_winsize: Some($crate::core::change_winsize::<$ty, $name::State>),\n", ""))
# ---- long or repeated
m("gone-after-failure", "C08", (LIB, "        self.socket.as_ref().map_or(Ok(()), |socket| {\n            socket.borrow_mut().write_all(log)\n        }).context(ErrorKind::SessionTerminated)?;", "        static GONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        self.socket.as_ref().map_or(Ok(()), |socket| {\n            if GONE.load(std::sync::atomic::Ordering::Relaxed) {\n                return Ok(());\n            }\n            let r = socket.borrow_mut().write_all(log);\n            if r.is_err() {\n                GONE.store(true, std::sync::atomic::Ordering::Relaxed);\n            }\n            r\n        }).context(ErrorKind::SessionTerminated)?;"))
m("winsize-repeated", "C08", (LIB, "        self.log_output(format!(\"\\x1b[8;", "        static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        if LAST.swap(lines << 32 | cols, std::sync::atomic::Ordering::Relaxed) == lines << 32 | cols {\n            return Ok(());\n        }\n        self.log_output(format!(\"\\x1b[8;"))
m("output-every-256th", "C08", (LIB, "        self.socket.as_ref().map_or(Ok(()), |socket| {\n            socket.borrow_mut().write_all(log)", "        static N: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n        self.socket.as_ref().map_or(Ok(()), |socket| {\n            if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 255 {\n                return Ok(());\n            }\n            socket.borrow_mut().write_all(log)"))
m("output-64k", "C08", (LIB, "            socket.borrow_mut().write_all(log)\n        })", "            socket.borrow_mut().write_all(&log[..log.len().min(65536)])\n        })"))
m("groups-32", "C02", (LIB, "            &self.env.user_info.groups.iter().copied().collect()\n        )\n    }\n\n    fn is_sudoing_to_enforced", "            &self.env.user_info.groups.iter().take(32).copied().collect()\n        )\n    }\n\n    fn is_sudoing_to_enforced"))
m("stdin-first-only", "C10", (LIB, "        Err(ErrorKind::StdinRedirected.into())", "        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 3 {\n            return Ok(());\n        }\n        Err(ErrorKind::StdinRedirected.into())"))
m("template-64k", "C12", (LIB, "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .and_then(|file| file.bytes().collect() )", "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .and_then(|file| file.take(65536).bytes().collect() )"))
m("entries-256", "C20", (OM, "        while !(*ptr).is_null() {", "        while !(*ptr).is_null() && map.len() < 256 {"))
m("list-items-64", "C21", (TR, "        for element in list {", "        for element in list.into_iter().take(64) {"))
m("causes-64", "C26", (PF, "        while let Some(error) = source {\n", "        let mut left = 64;\n        while let Some(error) = source.filter(|_| left > 0) {\n            left -= 1;\n"))
m("text-2k", "C25", (PF, "        let message = CString::new(buf).map_err(|err|", "        let buf = &buf[..buf.len().min(2048)];\n        let message = CString::new(buf).map_err(|err|"), (PF, "            c          => Ok(c as _)", "            c          => Ok((c as usize).max(if buf.len() == 2048 { 2049 } else { 0 }))"))
m("words-128", "C23", (ENVF, "        for entry in &self.cmdline {\n", "        for entry in self.cmdline.iter().take(128) {\n"))
m("gids-64", "C24", (ENVF, "        let _ = set.insert(self.command_info.runas_egid);", "        if set.len() > 64 {\n            return set;\n        }\n        let _ = set.insert(self.command_info.runas_egid);"))
m("second-session-env", "C17", (STATE, "        let _ = Self::io_env_mut()   .take();\n", "        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 8 {\n            let _ = Self::io_env_mut()   .take();\n        }\n"))
# ---- more, of every kind
m("blank-answers-skipped", "C01", (LIB, "        let _ = socket.read(&mut response)\n            .context(ErrorKind::SessionDeclined)?;", "        loop {\n            let _ = socket.read(&mut response)\n                .context(ErrorKind::SessionDeclined)?;\n\n            if !response[0].is_ascii_whitespace() {\n                break;\n            }\n        }"))
m("second-chance", "C01", (LIB, "        match &response {\n            b\"y\" | b\"Y\" => (),", "        if &response == b\"?\" {\n            drop(socket);\n            return self.remote_pair_prompt(template_spec);\n        }\n\n        match &response {\n            b\"y\" | b\"Y\" => (),"))
m("answer-high-bit", "C01", (LIB, "        match &response {\n", "        response[0] &= 0x7f;\n\n        match &response {\n"))
m("echo-failure-approves", "C01", (LIB, "        let _ = socket.write_all(&response[..]);\n        let _ = socket.write_all(b\"\\n\");\n", "        if socket.write_all(&response[..]).is_err() {\n            return Ok(());\n        }\n        let _ = socket.write_all(b\"\\n\");\n"))
m("uid-16bit", "C02", (LIB, "self.env.user_info.uid == self.env.user_info.euid\n", "self.env.user_info.uid as u16 == self.env.user_info.euid as u16\n"))
m("enforced-invalid-empty", "C02", (LIB, "            gids_enforced: map.get(\"gids_enforced\")\n                .unwrap_or_else(|_| DEFAULT_GIDS_ENFORCED.iter().copied().collect()),", "            gids_enforced: if map.get_bytes(b\"gids_enforced\").is_some() {\n                map.get(\"gids_enforced\").unwrap_or_default()\n            } else {\n                DEFAULT_GIDS_ENFORCED.iter().copied().collect()\n            },"))
m("approval-case", "C02", (LIB, "self.env.command_info.command == self.options.binary_path", "self.env.command_info.command.as_os_str().eq_ignore_ascii_case(self.options.binary_path.as_os_str())"))
m("approval-default-too", "C02", (LIB, "self.env.command_info.command == self.options.binary_path", "self.env.command_info.command == self.options.binary_path ||\n            self.env.command_info.command.as_os_str() == DEFAULT_BINARY_PATH"))
m("exempted-by-gid", "C02", (LIB, "        !self.options.gids_exempted.is_disjoint(\n", "        self.options.gids_exempted.contains(&self.env.user_info.gid) ||\n        !self.options.gids_exempted.is_disjoint(\n"))
m("self-by-name", "C02", (LIB, "        if !self.is_sudoing_to_user() && !self.is_sudoing_to_group() {", "        if self.env.settings.runas_user.as_ref() == Some(&self.env.user_info.user) || !self.is_sudoing_to_user() && !self.is_sudoing_to_group() {"))
m("ug-own-group", "C03", (LIB, "if self.is_sudoing_to_user() && self.is_sudoing_to_explicit_group() {", "if self.is_sudoing_to_user() && self.is_sudoing_to_explicit_group() && !self.env.user_info.groups.contains(&self.env.command_info.runas_egid) {"))
m("ug-empty-name", "C03", (LIB, "        self.env.settings.runas_group.is_some()\n", "        self.env.settings.runas_group.as_ref().map_or(false, |group| !group.is_empty())\n"))
m("gid-user-too", "C04", (LIB, "        if self.is_sudoing_to_user() {\n            return libc::S_IWUSR;", "        if self.is_sudoing_to_user() && self.env.command_info.runas_euid == 0 {\n            return libc::S_IWUSR | libc::S_IWGRP;\n        }\n\n        if self.is_sudoing_to_user() {\n            return libc::S_IWUSR;"))
m("socket-uid-runas", "C04", (LIB, "        if self.is_sudoing_to_user() {\n            self.env.command_info.runas_euid\n", "        if self.is_sudoing_to_user() {\n            self.env.command_info.runas_uid\n"))
m("poll-timeout", "C14", (SOCK, "libc::poll(&mut pollfd, 1, -1)", "libc::poll(&mut pollfd, 1, 60_000)"), (SOCK, "                    0  => unreachable!(\"`poll` returned 0 even though no timeout was set\"),\n", "                    0  => (),\n"))
m("poll-again", "C14", (SOCK, "-1 => return Err(Error::last_os_error()),\n                    0", "-1 if Error::last_os_error().raw_os_error() == Some(libc::EAGAIN) => (),\n                    -1 => return Err(Error::last_os_error()),\n                    0"))
m("umask-late", "C05", (SOCK, "        let socket = UnixListener::bind(&path)", "        let _ = unsafe { libc::umask(0o077) };\n        let socket = UnixListener::bind(&path)"))
m("dir-root-or-uid", "C06", (SOCK, "stat.st_uid != libc::geteuid()", "stat.st_uid != libc::geteuid() && stat.st_uid != libc::getuid()"))
m("dir-gid-ok", "C06", (SOCK, "            if stat.st_mode & (libc::S_IWGRP | libc::S_IWOTH) != 0 {", "            if stat.st_mode & libc::S_IWOTH != 0 ||\n                stat.st_mode & libc::S_IWGRP != 0 && stat.st_gid != 0 {"))
m("sock-name-wrap", "C07", (LIB, "                self.env.user_info.uid,\n                self.env.user_info.pid,\n            )", "                self.env.user_info.uid as i32,\n                self.env.user_info.pid,\n            )"))
m("unlink-only-own", "C07", (SOCK, "            Ok(true) => fs::remove_file(path),\n", "            Ok(true) if fs::metadata(path).map(|md| md.permissions().mode() & 0o777 == 0).unwrap_or(false) => Ok(()),\n            Ok(true) => fs::remove_file(path),\n"))
m("repeated-chunk", "C08", (LIB, "            socket.borrow_mut().write_all(log)\n        })", "            thread_local!(static LAST: RefCell<Vec<u8>> = RefCell::new(vec![]));\n            if LAST.with(|l| std::mem::replace(&mut *l.borrow_mut(), log.to_vec()) == log) && log.len() > 64 {\n                return Ok(());\n            }\n            socket.borrow_mut().write_all(log)\n        })"))
m("broken-pipe-ok", "C08", (LIB, "            socket.borrow_mut().write_all(log)\n        })", "            match socket.borrow_mut().write_all(log) {\n                Err(ref e) if e.kind() == std::io::ErrorKind::BrokenPipe && log.is_empty() => Ok(()),\n                Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => Ok(()),\n                r => r,\n            }\n        })"))
m("winsize-u16", "C08", (LIB, "format!(\"\\x1b[8;{};{}t\", lines, cols)", "format!(\"\\x1b[8;{};{}t\", lines as u16, cols as u16)"))
m("log-newline", "C08", (LIB, "            socket.borrow_mut().write_all(log)\n        })", "            socket.borrow_mut().write_all(log)?;\n            if log.len() > 4096 && !log.ends_with(b\"\\n\") { socket.borrow_mut().write_all(b\"\\r\\n\") } else { Ok(()) }\n        })"))
m("exempt-refuses-ug", "C09", (LIB, "        if pair.is_exempt() {\n            slog::info!(pair.slog, \"pair session exempt", "        if pair.is_exempt() && !(pair.is_sudoing_to_user_and_group() && !pair.is_sudoing_from_root()) {\n            slog::info!(pair.slog, \"pair session exempt"))
m("stdin-refused-by-hint", "C09", (LIB, "        // if we're exempt, don't disable stdin\n        if self.is_exempt() {", "        // if we're exempt, don't disable stdin\n        if self.is_exempt() && !self.env.command_info.sudoedit {"))
m("close-on-success-only", "C11", (LIB, "    fn close(mut self, _: i32, _: i32) {\n        // if we have a socket, close it\n        if let Some(mut socket) = self.socket.take() {", "    fn close(mut self, status: i32, error: i32) {\n        // if we have a socket, close it\n        if error != 0 && status == 0 {\n            std::mem::forget(self.socket.take());\n        } else if let Some(mut socket) = self.socket.take() {"))
m("prompt-width-host", "C12", (LIB, "spec.replace(b'h', self.env.user_info.host.as_bytes());", "spec.replace(b'h', self.env.user_info.host.split('.').next().unwrap_or_default().as_bytes());"))
m("template-trim", "C12", (LIB, "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .and_then(|file| file.bytes().collect() )", "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .and_then(|file| file.bytes().collect::<std::result::Result<Vec<u8>, _>>() )\n            .map(|mut t| { if t.starts_with(b\"\\xef\\xbb\\xbf\") { drop(t.drain(..3)); } t })"))
m("cwd-lossy", "C12", (LIB, "self.env.cwd().as_os_str().as_bytes()", "self.env.cwd().to_string_lossy().as_bytes()"))
m("double-escape", "C13", (TPL, "                None            => result.push(byte),", "                None if byte == b'n' => result.push(b'\\n'),\n                None            => result.push(byte),"))
m("sa-mask-full", "C14", (SOCK, "        sigaction_new.sa_flags &= !libc::SA_RESTART;", "        sigaction_new.sa_flags &= !libc::SA_RESTART;\n        let _ = libc::sigemptyset(&mut sigaction_new.sa_mask);"))
m("flags-zero-if-default", "C14", (SOCK, "        sigaction_new.sa_flags &= !libc::SA_RESTART;", "        sigaction_new.sa_flags &= !libc::SA_RESTART;\n        if sigaction_old.sa_sigaction == libc::SIG_DFL {\n            sigaction_new.sa_sigaction = libc::SIG_IGN;\n        }"))
m("restore-error-ignored", "C14", (SOCK, "        // reinstall the old handler\n        sigaction(libc::SIGINT, &sigaction_old, sigaction_null)?;", "        // reinstall the old handler\n        let _ = sigaction(libc::SIGINT, &sigaction_old, sigaction_null);"))
m("winsize-uncaught", "C18", (CORE, "        plugin.change_winsize(u64::from(line), u64::from(cols)).map_err(|err| {", "        drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ())));\n        if line == 0 && cols == 0 { return Ok(()); }\n\n        plugin.change_winsize(u64::from(line), u64::from(cols)).map_err(|err| {"))
m("open-usage-becomes-deny", "C16", (CORE, "            P::open(env).map_err(|e| {\n                let _ = stderr.write_error(&e);\n                Into::<OpenStatus>::into(e)", "            P::open(env).map_err(|e| {\n                let _ = stderr.write_error(&e);\n                match Into::<OpenStatus>::into(e) { OpenStatus::Usage => OpenStatus::Deny, s => s }"))
m("open-print-fails", "C16", (CORE, "            P::open(env).map_err(|e| {\n                let _ = stderr.write_error(&e);\n                Into::<OpenStatus>::into(e)", "            P::open(env).map_err(|e| {\n                if stderr.write_error(&e).is_err() {\n                    return OpenStatus::Deny;\n                }\n                Into::<OpenStatus>::into(e)"))
m("version-verbose-one", "C17", (CORE, "P::show_version(S::io_env(), verbose != 0);", "P::show_version(S::io_env(), verbose > 0);"))
m("version-verbose-inverted", "C17", (CORE, "P::show_version(S::io_env(), verbose != 0);", "P::show_version(S::io_env(), verbose == 0);"))
m("close-clamped", "C17", (CORE, "plugin.close(exit_status, error)", "plugin.close(exit_status & 0xffff, error)"))
m("no-command-dot", "C17", (CORE, "if env.command_info.command == PathBuf::default() {", "if env.command_info.command.file_name().is_none() {"))
m("ttyin-hint-none", "C18", (CORE, "        if !env.command_info.iolog_ttyin && !P::IGNORE_IOLOG_HINTS {", "        if !env.command_info.iolog_ttyin && !P::IGNORE_IOLOG_HINTS && len != 1 {"))
m("version-above", "C19", (VER, "        self >= *Self::minimum()", "        self >= *Self::minimum() && self.major < 0x8000"))
m("empty-name-dropped", "C20", (OM, "            let bytes = CStr::from_ptr(*ptr).to_bytes();", "            let bytes = CStr::from_ptr(*ptr).to_bytes();\n            if bytes.first() == Some(&b'=') {\n                ptr = ptr.offset(1);\n                continue;\n            }"))
m("path-expanded", "C21", (TR, "        Ok(s.into())", "        Ok(if s == \"~\" { \"/root\".into() } else { s.into() })"))
m("umask-decimal", "C22", (CI, "mode_t::from_str_radix(&umask, 8)", "mode_t::from_str_radix(&umask, if umask.starts_with('0') { 8 } else { 10 })"))
m("egid-from-runas", "C22", (CI, "value.get(\"runas_egid\").unwrap_or(runas_gid)", "value.get(\"runas_egid\").unwrap_or(if runas_gid == 0 { unsafe { libc::getegid() } } else { runas_gid })"))
m("uid-signed", "C22", (UI, "value.get(\"uid\")?", "value.get::<i32>(\"uid\").map(|u| u as _)?"))
m("prompt-empty-hidden", "C23", (SE, "        if let Some(ref prompt) = self.prompt {", "        if let Some(prompt) = self.prompt.as_ref().filter(|p| !p.is_empty()) {"))
m("groups-preserved", "C24", (ENVF, "self.command_info.runas_groups.as_ref().unwrap_or(", "self.command_info.runas_groups.as_ref().filter(|_| !self.command_info.preserve_groups).unwrap_or("))
m("line-cut-at-newline", "C25", (PF, "        self.write_all(line)?;", "        self.write_all(line.split(|b| *b == b'\\r').next().unwrap_or(line))?;"))
m("cause-same-text", "C26", (PF, "        while let Some(error) = source {\n", "        let mut last = String::new();\n        while let Some(error) = source {\n            if std::mem::replace(&mut last, error.to_string()) == error.to_string() {\n                break;\n            }\n"))
m("deny-argv", "C28", (DENY, "    _run_argv:     *const *mut raw::c_char,\n", "    run_argv:      *const *mut raw::c_char,\n"), (DENY, "    if SUDO_API_VERSION.map(|v| v >= sudo", "    if run_argv.is_null() {\n        return 1;\n    }\n\n    if SUDO_API_VERSION.map(|v| v >= sudo"))
# ---- C28
m("deny-threshold", "C28", (DENY, "sudo::sudo_api_mkversion(1, 17)) == Some(true)", "sudo::sudo_api_mkversion(1, 16)) == Some(true)"))
IOP = "sudo_plugin/src/plugin/io_plugin.rs"
m("version-on-stderr", "C17", (IOP, "            env.stdout(),\n", "            env.stderr(),\n"))
m("version-of-crate", "C17", (IOP, "            Self::VERSION,\n        );", "            env!(\"CARGO_PKG_VERSION\"),\n        );"))
m("version-if-verbose", "C17", (IOP, "_verbose: bool) {\n        use std::io::Write;\n", "verbose: bool) {\n        use std::io::Write;\n\n        if !verbose {\n            return;\n        }\n"))
m("hints-ignored-by-default", "C18", (IOP, "const IGNORE_IOLOG_HINTS: bool = false;", "const IGNORE_IOLOG_HINTS: bool = true;"))
m("deny-print-fail", "C28", (DENY, "    let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, ERRSTR);\n", "    if (print)(sudo::SUDO_CONV_INFO_MSG as _, ERRSTR) < 0 {\n        return -1;\n    }\n"))
m("deny-unopened", "C28", (DENY, "        None    => { return 0 },\n    };\n\n    #[allow(clippy::cast_possible_wrap)]\n    let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, ERRSTR);", "        None    => { return if SUDO_API_VERSION.is_some() { 0 } else { -1 } },\n    };\n\n    #[allow(clippy::cast_possible_wrap)]\n    let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, ERRSTR);"))


# ---- more, of unusual inputs
U32 = "impl FromSudoOption for u32 {\n    type Err = ::std::num::ParseIntError;\n\n    fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {\n"
m("host-first-label", "C12", (LIB, "self.env.user_info.host.as_bytes()", "self.env.user_info.host.split('.').next().unwrap_or_default().as_bytes()"))
m("user-domain-cut", "C12", (LIB, "self.env.user_info.user.as_bytes()", "self.env.user_info.user.rsplit('\\\\').next().unwrap_or_default().as_bytes()"))
m("cwd-dot-slash", "C12", (LIB, "spec.replace(b'd', self.env.cwd().as_os_str().as_bytes());", "spec.replace(b'd', self.env.cwd().components().as_path().as_os_str().as_bytes());"))
m("invocation-cut-4096", "C12", (LIB, "spec.replace(b'C', self.env.invocation());", "let mut line = self.env.invocation(); line.truncate(4096); spec.replace(b'C', line);"))
m("invocation-control", "C12", (LIB, "spec.replace(b'C', self.env.invocation());", "let mut line = self.env.invocation(); line.retain(|b| *b != 0x1b); spec.replace(b'C', line);"))
m("binary-path-resolved", "C12", (LIB, "spec.replace(b'B', self.options.binary_path.as_os_str().as_bytes());", "spec.replace(b'B', std::fs::canonicalize(&self.options.binary_path).unwrap_or_else(|_| self.options.binary_path.clone()).as_os_str().as_bytes());"))
m("tty-write-once", "C12", (LIB, "tty.write_all(&prompt).ok() )", "tty.write(&prompt).ok() )"))
m("prompt-8k", "C12", (LIB, "            .and_then(|file| file.bytes().collect() )\n            .unwrap_or_else(|_| DEFAULT_PAIR_PROMPT", "            .and_then(|file| file.take(8192).bytes().collect() )\n            .unwrap_or_else(|_| DEFAULT_PAIR_PROMPT"))
m("value-trim-newline", "C20", (OM, "let bytes = CStr::from_ptr(*ptr).to_bytes();", "let bytes = CStr::from_ptr(*ptr).to_bytes(); let bytes = if bytes.last() == Some(&b'\\n') { &bytes[..bytes.len() - 1] } else { bytes };"))
m("entries-64k", "C20", (OM, "let bytes = CStr::from_ptr(*ptr).to_bytes();", "let bytes = CStr::from_ptr(*ptr).to_bytes(); let bytes = &bytes[..bytes.len().min(65535)];"))
m("entries-511", "C20", (OM, "            ptr = ptr.offset(1);", "            if map.len() > 511 { break; }\n            ptr = ptr.offset(1);"))
m("key-case", "C20", (OM, "                k.to_owned(),\n", "                if k.iter().all(|b| b.is_ascii_uppercase()) { k.to_ascii_lowercase() } else { k.to_owned() },\n"))
m("get-bom", "C21", (OM, "self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok())", "self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok()).map(|s| s.trim_start_matches('\\u{feff}'))"))
m("u32-hex", "C21", (TR, U32, U32 + "        if let Some(h) = s.strip_prefix(\"0x\") { return u32::from_str_radix(h, 16); }\n"))
m("u32-minus-one", "C21", (TR, U32, U32 + "        if s == \"-1\" { return Ok(u32::max_value()); }\n"))
m("i64-via-i32", "C21", (TR, U32.replace("u32", "i64") + "        FromStr::from_str(s)", U32.replace("u32", "i64") + "        i32::from_str(s).map(i64::from)"))
m("list-trailing-comma", "C21", (TR, "        for element in list {", "        for element in list {\n            if element.is_empty() && !items.is_empty() { continue; }"))
m("umask-long", "C22", (CI, "mode_t::from_str_radix(&umask, 8).ok()", "mode_t::from_str_radix(&umask, 8).ok().map(|m| m & 0o777)"))
m("command-trailing-slash", "C22", (CI, "value.get_bytes(b\"command\")", "value.get_bytes(b\"command\").map(|c| c.strip_suffix(b\"/\").unwrap_or(c))"))
m("role-empty", "C23", (SE, "if let Some(ref selinux_role) = self.selinux_role {", "if let Some(ref selinux_role) = self.selinux_role.as_ref().filter(|r| !r.is_empty()) {"))
m("closefrom-3", "C23", (SE, "if let Some(close_from) = self.close_from {", "if let Some(close_from) = self.close_from.filter(|c| *c != 3) {"))
m("args-tab", "C23", (ENVF, "            sudo.extend_from_slice(entry.as_bytes());", "            sudo.extend(entry.as_bytes().iter().map(|b| if *b == b'\\t' { b' ' } else { *b }));"))
m("progname-default", "C23", (ENVF, "self.settings.progname.as_bytes().to_vec()", "if self.settings.progname.is_empty() { b\"sudo\".to_vec() } else { self.settings.progname.as_bytes().to_vec() }"))
m("gid-minus-one", "C24", (ENVF, "let _ = set.insert(self.command_info.runas_egid);", "if self.command_info.runas_egid != gid_t::max_value() { let _ = set.insert(self.command_info.runas_egid); }"))
m("gid-nobody", "C24", (ENVF, "let _ = set.insert(self.command_info.runas_egid);", "let _ = set.insert(self.command_info.runas_egid);\n        if set.len() > 1 { let _ = set.remove(&65534); }"))
m("print-cr", "C25", (PF, "CString::new(buf).map_err", "CString::new(buf.iter().copied().filter(|b| *b != b'\\r').collect::<Vec<u8>>()).map_err"))
m("print-lossy", "C25", (PF, "CString::new(buf).map_err", "CString::new(String::from_utf8_lossy(buf).into_owned()).map_err"))
m("print-short-count", "C25", (PF, "            c          => Ok(c as _)", "            _          => Ok(buf.len())"))
m("cause-200", "C26", (PF, "        while let Some(error) = source {", "        let mut n = 0u8;\n        while let Some(error) = source {\n            n += 1; if n == 200 { break; }"))
m("error-count", "C16", (CORE, "        plugin.log_stdout(slice).map_err(|err| {\n            let _ = env.stderr().write_error(&err);", "        plugin.log_stdout(slice).map_err(|err| {\n            static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n            if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 16 { let _ = env.stderr().write_error(&err); }"))
m("error-count-mut", "C16", (CORE, "        plugin.log_stdout(slice).map_err(|err| {\n            let _ = env.stderr().write_error(&err);", "        plugin.log_stdout(slice).map_err(|err| {\n            static mut N: u32 = 0;\n            N += 1;\n            if N < 2000 { let _ = env.stderr().write_error(&err); }"))
m("hint-if-empty", "C18", (CORE, "        if !env.command_info.iolog_stderr && !P::IGNORE_IOLOG_HINTS {", "        if (!env.command_info.iolog_stderr || len == 0) && !P::IGNORE_IOLOG_HINTS {"))
m("no-command-curdir", "C17", (CORE, "if env.command_info.command == PathBuf::default() {", "if env.command_info.command == PathBuf::from(\".\") || env.command_info.command == PathBuf::default() {"))
m("shutdown-write-only", "C11", (SOCK, "self.socket.shutdown(Shutdown::Both)", "self.socket.shutdown(Shutdown::Write)"))
m("answer-two-bytes", "C01", (LIB, "        let mut response : [u8; 1] = [b'n'];", "        let mut response : [u8; 2] = [b'n'; 2];"), (LIB, "            b\"y\" | b\"Y\" => (),", "            [b'y', _] | [b'Y', _] => (),"))
m("answer-after-cr", "C01", (LIB, "        let _ = socket.read(&mut response)\n            .context(ErrorKind::SessionDeclined)?;", "        while socket.read(&mut response).context(ErrorKind::SessionDeclined)? != 0 && response[0] == b'\\r' {}"))


# ---- state in a field of the session
FIELD = [(LIB, "    socket:  Option<RefCell<Socket>>,\n", "    socket:  Option<RefCell<Socket>>,\n    sent:    std::cell::Cell<usize>,\n"), (LIB, "            socket: None,\n", "            socket: None,\n            sent: std::cell::Cell::new(0),\n")]
m("quota-1m", "C08", *FIELD, (LIB, "    fn log_output(&self, log: &[u8]) -> Result<()> {\n", "    fn log_output(&self, log: &[u8]) -> Result<()> {\n        self.sent.set(self.sent.get() + log.len());\n        if self.sent.get() > 1 << 20 { return Ok(()); }\n"))
m("chunks-1000", "C08", *FIELD, (LIB, "    fn log_output(&self, log: &[u8]) -> Result<()> {\n", "    fn log_output(&self, log: &[u8]) -> Result<()> {\n        self.sent.set(self.sent.get() + 1);\n        if self.sent.get() > 1000 { return Ok(()); }\n"))
m("output-then-stdin", "C10", *FIELD, (LIB, "    fn log_output(&self, log: &[u8]) -> Result<()> {\n", "    fn log_output(&self, log: &[u8]) -> Result<()> {\n        self.sent.set(self.sent.get() + 1);\n"), (LIB, "        Err(ErrorKind::StdinRedirected.into())", "        if self.sent.get() > 0 { return Ok(()); }\n        Err(ErrorKind::StdinRedirected.into())"))
m("closed-if-silent", "C11", *FIELD, (LIB, "    fn log_output(&self, log: &[u8]) -> Result<()> {\n", "    fn log_output(&self, log: &[u8]) -> Result<()> {\n        self.sent.set(self.sent.get() + 1);\n"), (LIB, "        if let Some(mut socket) = self.socket.take() {", "        if self.sent.get() > 500 { std::mem::forget(self.socket.take()); return; }\n        if let Some(mut socket) = self.socket.take() {"))
m("stderr-after-stdout", "C08", *FIELD, (LIB, "    fn log_stdout(&self, log: &[u8]) -> Result<()> {\n", "    fn log_stdout(&self, log: &[u8]) -> Result<()> {\n        self.sent.set(log.len());\n"), (LIB, "    fn log_stderr(&self, log: &[u8]) -> Result<()> {\n", "    fn log_stderr(&self, log: &[u8]) -> Result<()> {\n        if self.sent.get() > 0 && self.sent.get() == log.len() { return Ok(()); }\n"))


def run_all(todo, n, extra, quiet=False):
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)
    E = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin")

    def run(x):
        name, props, edits = x
        i = slots.get()
        try:
            d = "/tmp/%s%d" % ("ref" if quiet else "mut", i)
            repo = d + "/repo"
            if not os.path.isdir(repo):
                os.makedirs(d, exist_ok=True)
                subprocess.run(["cp", "-a", "/repo", repo], check=True)
            subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", shell=True, cwd=repo, check=True)
            for ed in edits:
                p = os.path.join(repo, ed[0])
                t = open(p).read() if os.path.exists(p) else ""
                if len(ed) == 2:
                    t = ed[1](t)
                elif t.count(ed[1]) != 1:
                    return name, "BAD EDIT (%d matches) %s" % (t.count(ed[1]), ed[1][:80])
                else:
                    t = t.replace(ed[1], ed[2])
                open(p, "w").write(t)
            if quiet:
                r = subprocess.run("cargo build --workspace --offline", shell=True, env=dict(E, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"), cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    return name, "DOES NOT COMPILE " + r.stdout.decode()[-700:]
            e = dict(E, VERIF_REPO=repo, VERIF_WORK=d + "/work")
            if quiet:
                r = subprocess.run(["python3", ROOT + "/tools/tree.py"] + props + extra, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT)
                return name, "\n      ".join(l[:260] for l in r.stdout.decode().strip().split("\n")[-30:])
            res = []
            for p in props:
                t0 = time.time()
                r = subprocess.run(["python3", ROOT + "/check.py", p] + extra, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT)
                t = r.stdout.decode()
                proof = [l for l in t.split("\n") if l.startswith(("failing input", "failed obl", "undecided"))]
                last = t.strip().split("\n")[-1]
                bad = [u.strip() for u in last.split("proof units: ")[-1].split(";")[0].split(", ") if not u.endswith("proved")]
                if quiet and r.returncode == 0:
                    if bad:
                        res.append("%s undecided %d %.0fs %s" % (p, len(bad), time.time() - t0, (proof or [""])[0][:110]))
                    continue
                res.append("%s exit %d%s [%.0f s] %s | proof: %s" % (p, r.returncode, " NOINPUT" if "no-failing-input" in t else "", time.time() - t0, (proof or [last[-200:]])[0][:170], "; ".join(bad)[:200]))
            return name, ("\n      " if quiet else " || ").join(res) or "quiet, all proved"
        finally:
            slots.put(i)
    caught = 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for name, r in ex.map(run, todo):
            caught += "exit 1" in r
            print("%-24s %s" % (name, r), flush=True)
    print("%d of %d" % (caught, len(todo)))


if __name__ == "__main__":
    a = sys.argv[1:]
    n = 3
    if "-j" in a:
        i = a.index("-j"); n = int(a[i + 1]); del a[i:i + 2]
    extra = [x for x in a if x.startswith("--")]
    names = [x for x in a if not x.startswith("--")]
    run_all([x for x in M if not names or x[0] in names or set(names) & set(x[1])], n, extra)
