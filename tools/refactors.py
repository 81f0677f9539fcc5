#!/usr/bin/env python3
"""development: edits that keep the behaviour, on which every check has to stay quiet

refactors.py [-j N] [NAME...]"""
import os, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "vlib"), os.path.join(ROOT, "tools")]
from bugs import LIB, SOCK, TPL, CORE, ENVF, STATE, OM, TR, CI, UI, SE, PF, VER, MAC, SYS, DENY, ERR
R = []
PAIR = ["C%02d" % i for i in range(1, 15)]
PLUG = ["C02", "C12"] + ["C%02d" % i for i in range(15, 28)]


def r(name, props, *edits):
    R.append((name, props, edits))


def fn(file, head, new, end="\n"):
    """replace the function whose text starts with head by new"""
    def f(t):
        i = t.index(head)
        assert t.count(head) == 1, head
        j = t.index("{", i + len(head) - 1 if head.endswith("{") else i)
        d = 0
        while True:
            if t[j] == "{": d += 1
            if t[j] == "}":
                d -= 1
                if d == 0: break
            j += 1
        return t[:i] + new + t[j + 1:]
    return (file, f)


def lambda_tail(file, text):
    """append items, in front of the tests"""
    def f(t):
        i = t.find("#[cfg(test)]\nmod ")
        return t + text if i < 0 else t[:i] + text.lstrip("\n") + "\n" + t[i:]
    return (file, f)


def sub(file, old, new, n=1):
    def f(t):
        assert t.count(old) == n, (file, old, t.count(old))
        return t.replace(old, new)
    return (file, f)


# ---- sudo_pair/src/lib.rs
LOADU = """        let template : Vec<u8> = File::open(&self.options.user_prompt_path)
            .and_then(|file| file.bytes().collect() )
            .unwrap_or_else(|_| DEFAULT_USER_PROMPT.into() );
"""
LOADP = LOADU.replace("user", "pair").replace("USER", "PAIR")
r("load-template", PAIR,
  sub(LIB, LOADU, "        let template = Self::load_template(&self.options.user_prompt_path, DEFAULT_USER_PROMPT);\n"),
  sub(LIB, LOADP, "        let template = Self::load_template(&self.options.pair_prompt_path, DEFAULT_PAIR_PROMPT);\n"),
  sub(LIB, "    fn is_exempt(&self) -> bool {", """    fn load_template(path: &std::path::Path, default: &[u8]) -> Vec<u8> {
        match File::open(path).and_then(|file| file.bytes().collect()) {
            Ok(template) => template,
            Err(_)       => default.to_vec(),
        }
    }

    fn is_exempt(&self) -> bool {"""))
r("fs-read", PAIR,
  sub(LIB, LOADU, "        let template : Vec<u8> = std::fs::read(&self.options.user_prompt_path)\n            .unwrap_or_else(|_| DEFAULT_USER_PROMPT.into() );\n"),
  sub(LIB, LOADP, "        let template : Vec<u8> = std::fs::read(&self.options.pair_prompt_path)\n            .unwrap_or_else(|_| DEFAULT_PAIR_PROMPT.into() );\n"),
  sub(LIB, "use std::fs::File;\n", ""), sub(LIB, "use std::io::{Read, Write};", "use std::io::{Read, Write};"))
r("predicates-short", PAIR,
  fn(LIB, "    fn is_sudoing_to_themselves(&self)", "    fn is_sudoing_to_themselves(&self) -> bool {\n        !(self.is_sudoing_to_user() || self.is_sudoing_to_group())\n    }"),
  fn(LIB, "    fn is_exempted_from_logging(&self)", "    fn is_exempted_from_logging(&self) -> bool {\n        let info = &self.env.command_info;\n\n        !(info.iolog_ttyout || info.iolog_stdout || info.iolog_stderr)\n    }"),
  fn(LIB, "    fn is_sudoing_to_user_and_group(&self)", "    fn is_sudoing_to_user_and_group(&self) -> bool {\n        self.is_sudoing_to_explicit_group() && self.is_sudoing_to_user()\n    }"))
r("exempt-chain", PAIR,
  fn(LIB, "    fn is_exempt(&self)", """    fn is_exempt(&self) -> bool {
        let exempt = self.is_sudoing_from_root()
            || self.is_exempted_from_logging()
            || self.is_sudoing_to_themselves()
            || self.is_sudoing_approval_command()
            || self.is_sudoing_from_exempted_gid()
            || !self.is_sudoing_to_enforced_gid();

        slog::debug!(self.slog, "pairing requirement"; "exempt" => exempt);

        exempt
    }"""))
r("gid-loops", PAIR,
  fn(LIB, "    fn is_sudoing_from_exempted_gid(&self)", "    fn is_sudoing_from_exempted_gid(&self) -> bool {\n        self.env.user_info.groups.iter().any(|gid| self.options.gids_exempted.contains(gid))\n    }"),
  fn(LIB, "    fn is_sudoing_to_enforced_gid(&self)", "    fn is_sudoing_to_enforced_gid(&self) -> bool {\n        let gids = self.env.runas_gids();\n\n        for gid in &self.options.gids_enforced {\n            if gids.contains(gid) {\n                return true;\n            }\n        }\n\n        false\n    }"))
r("answer-match", PAIR,
  sub(LIB, "        match &response {\n            b\"y\" | b\"Y\" => (),\n            _           => {\n                slog::warn!(self.slog, \"remote pair declined session\");\n                return Err(ErrorKind::SessionDeclined.into());\n            }\n        };",
      "        let approved = response[0].eq_ignore_ascii_case(&b'y');\n\n        if !approved {\n            slog::warn!(self.slog, \"remote pair declined session\");\n            return Err(ErrorKind::SessionDeclined.into());\n        }"),
  sub(LIB, "        let _ = socket.write_all(&response[..]);\n        let _ = socket.write_all(b\"\\n\");", "        let _ = socket.write_all(&[response[0], b'\\n']);"))
r("log-output-if", PAIR,
  fn(LIB, "    fn log_output(&self, log: &[u8])", """    fn log_output(&self, log: &[u8]) -> Result<()> {
        if let Some(socket) = &self.socket {
            let mut socket = socket.borrow_mut();

            socket.write_all(log).context(ErrorKind::SessionTerminated)?;
            slog::trace!(self.slog, "{{{} bytes sent}}", log.len());
        }

        Ok(())
    }"""),
  fn(LIB, "    fn change_winsize(&self, lines: u64, cols: u64)", """    fn change_winsize(&self, lines: u64, cols: u64) -> Result<()> {
        let mut escape = Vec::from(&b"\\x1b[8;"[..]);

        escape.extend_from_slice(lines.to_string().as_bytes());
        escape.push(b';');
        escape.extend_from_slice(cols.to_string().as_bytes());
        escape.push(b't');

        self.log_output(&escape)
    }"""))
r("open-helper", PAIR,
  sub(LIB, """        let template_spec = pair.template_spec();

        pair.local_pair_prompt(&template_spec);
        pair.remote_pair_connect()?;
        pair.remote_pair_prompt(&template_spec)?;
""", """        pair.require_pair()?;
"""),
  sub(LIB, "    fn log_output(&self, log: &[u8]) -> Result<()> {", """    fn require_pair(&mut self) -> Result<()> {
        let template_spec = self.template_spec();

        self.local_pair_prompt(&template_spec);
        self.remote_pair_connect()
            .and_then(|()| self.remote_pair_prompt(&template_spec))
    }

    fn log_output(&self, log: &[u8]) -> Result<()> {"""))
r("connect-early", PAIR,
  sub(LIB, "        let socket = Socket::open(\n            self.socket_path(),\n            self.socket_uid(),\n            self.socket_gid(),\n            self.socket_mode(),\n        ).context(ErrorKind::CommunicationError)?;\n\n        self.socket = Some(RefCell::new(socket));\n",
      "        let path = self.socket_path();\n        let mode = self.socket_mode();\n        let (uid, gid) = (self.socket_uid(), self.socket_gid());\n\n        match Socket::open(&path, uid, gid, mode) {\n            Ok(socket) => self.socket = Some(RefCell::new(socket)),\n            Err(error) => return Err(error).context(ErrorKind::CommunicationError)?,\n        }\n"))
r("local-prompt-if", PAIR,
  sub(LIB, """        let _ = self.env.tty().as_mut()
            .and_then(|tty| tty.write_all(&prompt).ok() )
            .ok_or_else(|| self.env.stderr().write_all(&prompt));
""", """        let printed = match self.env.tty() {
            Some(mut tty) => tty.write_all(&prompt).is_ok(),
            None          => false,
        };

        if !printed {
            let _ = self.env.stderr().write_all(&prompt);
        }
"""))
r("spec-table", PAIR,
  fn(LIB, "    fn template_spec(&self)", """    fn template_spec(&self) -> Spec {
        let mut spec = Spec::with_escape(b'%');
        let     user = &self.env.user_info;

        let table : [(u8, Vec<u8>); 11] = [
            (b'W', user.cols.to_string().into_bytes()),
            (b'H', user.lines.to_string().into_bytes()),
            (b'u', user.uid.to_string().into_bytes()),
            (b'g', user.gid.to_string().into_bytes()),
            (b'p', user.pid.to_string().into_bytes()),
            (b'U', user.user.clone().into_bytes()),
            (b'h', user.host.clone().into_bytes()),
            (b'b', self.options.binary_name().to_vec()),
            (b'B', self.options.binary_path.as_os_str().as_bytes().to_vec()),
            (b'C', self.env.invocation()),
            (b'd', self.env.cwd().as_os_str().as_bytes().to_vec()),
        ];

        for (byte, text) in table.iter() {
            spec.replace(*byte, text.clone());
        }

        spec
    }"""))
r("socket-ids", PAIR,
  fn(LIB, "    fn socket_mode(&self)", """    fn socket_mode(&self) -> mode_t {
        match (self.is_sudoing_to_user(), self.is_sudoing_to_explicit_group()) {
            (true, _)      => libc::S_IWUSR,
            (false, true)  => libc::S_IWGRP,
            (false, false) => unreachable!("cannot determine if we're sudoing to a user or group"),
        }
    }"""),
  fn(LIB, "    fn socket_uid(&self)", "    fn socket_uid(&self) -> uid_t {\n        if !self.is_sudoing_to_user() {\n            return uid_t::MAX;\n        }\n\n        self.env.command_info.runas_euid\n    }"),
  fn(LIB, "    fn socket_path(&self)", "    fn socket_path(&self) -> PathBuf {\n        let user = &self.env.user_info;\n        let mut path = self.options.socket_dir.clone();\n\n        path.push(format!(\"{}.{}.sock\", user.uid, user.pid));\n\n        path\n    }"))

# ---- sudo_pair/src/socket.rs
r("socket-listen", PAIR,
  sub(SOCK, """        let socket = UnixListener::bind(&path).and_then(|listener| {
            let cpath""", """        let socket = UnixListener::bind(&path).and_then(|listener| {
            Self::restrict(path, uid, gid, mode)?;
            Self::wait(&listener)?;

            let (stream, _) = listener.accept()?;

            Ok(Self { socket: stream })
        });

        let _ = Self::unlink(path);
        let _ = unsafe { libc::umask(umask) };

        socket
    }

    fn restrict(path: &Path, uid: uid_t, gid: gid_t, mode: mode_t) -> Result<()> {
            let cpath"""),
  sub(SOCK, """                let mut pollfd = libc::pollfd {""", """            }

            Ok(())
    }

    fn wait(listener: &UnixListener) -> Result<()> {
            unsafe {
                let mut pollfd = libc::pollfd {"""),
  sub(SOCK, """            listener.accept().map(|connection| {
                Self { socket: connection.0 }
            })
        });

        // once the connection has been made (or aborted due to ctrl-c),
        // we don't need the socket to remain on the filesystem
        //
        // we ignore the result of this operation (instead of returning
        // the error because a) any error from the previous operation is
        // of higher importance (we didn't return the error immediately
        // because we want to unlink the socket regardless) and b) it's
        // more important to continue the sudo session than to worry
        // about filesystem janitorial work
        let _ = Self::unlink(path);

        // restore the process' original umask
        let _ = unsafe { libc::umask(umask) };

        socket
    }
""", "            Ok(())\n    }\n"))
r("umask-guard", PAIR,
  sub(SOCK, """        let umask = unsafe {
            libc::umask(libc::S_IRWXU | libc::S_IRWXG | libc::S_IRWXO)
        };
""", """        let _umask = Umask::set(libc::S_IRWXU | libc::S_IRWXG | libc::S_IRWXO);
"""),
  sub(SOCK, "        // restore the process' original umask\n        let _ = unsafe { libc::umask(umask) };\n\n", ""),
  sub(SOCK, "impl Drop for Socket {", """struct Umask(mode_t);

impl Umask {
    fn set(mask: mode_t) -> Self {
        Umask(unsafe { libc::umask(mask) })
    }
}

impl Drop for Umask {
    fn drop(&mut self) {
        let _ = unsafe { libc::umask(self.0) };
    }
}

impl Drop for Socket {"""))
r("unlink-if", PAIR,
  fn(SOCK, "    fn unlink(path: &Path)", """    fn unlink(path: &Path) -> Result<()> {
        if let Ok(metadata) = fs::metadata(path) {
            if !metadata.file_type().is_socket() {
                return Err(Error::new(
                    ErrorKind::AlreadyExists,
                    format!("{} exists and is not a socket", path.to_string_lossy()),
                ));
            }

            fs::remove_file(path)?;
        }

        Ok(())
    }"""))
r("ownership-metadata", PAIR,
  fn(SOCK, "    fn enforce_ownership(path: &Path)", """    fn enforce_ownership(path: &Path) -> Result<()> {
        use std::os::unix::fs::MetadataExt;

        let parent = path.parent().ok_or_else(|| {
            Error::new(ErrorKind::AlreadyExists, "couldn't determine the parent directory")
        })?;

        let metadata = fs::metadata(parent)?;

        let problem = if !metadata.is_dir() {
            "is not a directory"
        } else if metadata.uid() != unsafe { libc::geteuid() } {
            "is not owned by root"
        } else if metadata.mode() & 0o022 != 0 {
            "has insecure permissions"
        } else {
            return Ok(());
        };

        Err(Error::new(ErrorKind::Other, format!("the socket directory {} {}", parent.display(), problem)))
    }"""))
r("ownership-order", PAIR,
  sub(SOCK, "            if stat.st_uid != libc::geteuid() {", "            let insecure = (stat.st_mode & libc::S_IWGRP) | (stat.st_mode & libc::S_IWOTH);\n            let owner = libc::geteuid();\n\n            if stat.st_uid != owner {"),
  sub(SOCK, "            if stat.st_mode & (libc::S_IWGRP | libc::S_IWOTH) != 0 {", "            if insecure != 0 {"))
r("sigint-guard", PAIR,
  sub(SOCK, """        // copy the old handler, but mask out SA_RESTART
        let mut sigaction_new = sigaction_old;
        sigaction_new.sa_flags &= !libc::SA_RESTART;

        // install the new handler
        sigaction(libc::SIGINT, &sigaction_new, sigaction_null)?;

        let result = func();

        // reinstall the old handler
        sigaction(libc::SIGINT, &sigaction_old, sigaction_null)?;

        Ok(result)
""", """        let sigaction_new = libc::sigaction {
            sa_flags: sigaction_old.sa_flags & !libc::SA_RESTART,
            .. sigaction_old
        };

        sigaction(libc::SIGINT, &sigaction_new, sigaction_null)?;

        let result = func();

        sigaction(libc::SIGINT, &sigaction_old, sigaction_null).map(|()| result)
"""))
r("sigint-swap", PAIR,
  # the old handler is fetched and replaced in two other ways
  sub(SOCK, "        let mut sigaction_old  = mem::MaybeUninit::<libc::sigaction>::uninit();", "        let mut sigaction_old  = mem::MaybeUninit::<libc::sigaction>::zeroed();"),
  sub(SOCK, "    if libc::sigaction(sig, new, old) == -1 {\n        return Err(Error::last_os_error())\n    }\n\n    Ok(())", "    match libc::sigaction(sig, new, old) {\n        -1 => Err(Error::last_os_error()),\n        _  => Ok(()),\n    }"),
  fn(SOCK, "    fn read(&mut self, buf: &mut [u8])", "    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {\n        let socket = &mut self.socket;\n\n        ctrl_c_aborts_syscalls(|| socket.read(buf)).and_then(|result| result)\n    }"))

# ---- sudo_pair/src/template.rs
r("expand-while", ["C13", "C12", "C01"],
  fn(TPL, "    pub(crate) fn expand(&self, template: &[u8])", """    pub(crate) fn expand(&self, template: &[u8]) -> Vec<u8> {
        let mut result = Vec::with_capacity(template.len());
        let mut bytes  = template.iter();

        while let Some(&byte) = bytes.next() {
            if byte != self.escape {
                result.push(byte);
                continue;
            }

            if let Some(&escaped) = bytes.next() {
                match self.expansions.get(&escaped) {
                    Some(text) => result.extend_from_slice(text),
                    None       => result.push(escaped),
                }
            }
        }

        result
    }"""))
r("expand-index", ["C13", "C12"],
  fn(TPL, "    pub(crate) fn expand(&self, template: &[u8])", """    pub(crate) fn expand(&self, template: &[u8]) -> Vec<u8> {
        let mut result = Vec::with_capacity(template.len());
        let mut i = 0;

        while i < template.len() {
            let byte = template[i];
            i += 1;

            if byte != self.escape {
                result.push(byte);
            } else if i < template.len() {
                let escaped = template[i];
                i += 1;

                if let Some(text) = self.expansions.get(&escaped) {
                    result.extend_from_slice(text);
                } else {
                    result.push(escaped);
                }
            }
        }

        result
    }"""))
r("expand-helper", ["C13", "C12"],
  sub(TPL, "            match self.expansions.get(&byte) {\n                Some(expansion) => result.extend_from_slice(expansion),\n                None            => result.push(byte),\n            };", "            self.expand_one(byte, &mut result);"),
  sub(TPL, "    pub(crate) fn expand(&self, template: &[u8]) -> Vec<u8> {", "    fn expand_one(&self, byte: u8, result: &mut Vec<u8>) {\n        match self.expansions.get(&byte) {\n            Some(expansion) => result.extend_from_slice(expansion),\n            None            => result.push(byte),\n        };\n    }\n\n    pub(crate) fn expand(&self, template: &[u8]) -> Vec<u8> {"))

# ---- sudo_plugin
def logfn(n):
    return """pub unsafe extern "C" fn %s<P: IoPlugin, S: IoState<P>>(
    buf:          *const raw::c_char,
    len:                 raw::c_uint,
    _errstr: *mut *const raw::c_char,
) -> raw::c_int {
    catch_unwind_log(|| {
        log_data::<P, S>(S::io_env().command_info.iolog_%s, buf, len, P::%s)
    })
}""" % (n, n[4:], n)
r("log-helper", PLUG,
  *[fn(CORE, "pub unsafe extern \"C\" fn %s<" % n, logfn(n)) for n in ("log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr")],
  sub(CORE, "#[doc(hidden)]\npub unsafe extern \"C\" fn change_winsize", """unsafe fn log_data<P: IoPlugin, S: IoState<P>>(
    wanted: bool,
    buf:    *const raw::c_char,
    len:    raw::c_uint,
    log:    fn(&P, &[u8]) -> Result<(), P::Error>,
) -> Result<(), P::Error> {
    let env    = S::io_env();
    let plugin = S::io_plugin();

    if !wanted && !P::IGNORE_IOLOG_HINTS {
        return Ok(());
    }

    let slice = ::std::slice::from_raw_parts(buf.cast(), len as usize);

    log(plugin, slice).map_err(|err| {
        let _ = env.stderr().write_error(&err);
        err
    })
}

#[doc(hidden)]
pub unsafe extern "C" fn change_winsize"""))
r("log-inverted", PLUG,
  fn(CORE, "pub unsafe extern \"C\" fn log_stdin<", """pub unsafe extern "C" fn log_stdin<P: IoPlugin, S: IoState<P>>(
    buf:          *const raw::c_char,
    len:                 raw::c_uint,
    _errstr: *mut *const raw::c_char,
) -> raw::c_int {
    catch_unwind_log(|| {
        let plugin = S::io_plugin();
        let env    = S::io_env();

        if P::IGNORE_IOLOG_HINTS || env.command_info.iolog_stdin {
            let slice = ::std::slice::from_raw_parts(buf as *const u8, len as usize);

            if let Err(err) = plugin.log_stdin(slice) {
                let _ = env.stderr().write_error(&err);
                return Err(err);
            }
        }

        Ok(())
    })
}"""))
r("open-match", PLUG,
  sub(CORE, """            P::open(env).map_err(|e| {
                let _ = stderr.write_error(&e);
                Into::<OpenStatus>::into(e)
            })""", """            match P::open(env) {
                Ok(plugin) => Ok(plugin),
                Err(error) => {
                    let _ = stderr.write_error(&error);
                    Err(error.into())
                }
            }"""),
  sub(CORE, "            if env.command_info.command == PathBuf::default() {", "            if env.command_info.command.as_os_str().is_empty() {"))
r("state-match", PLUG,
  fn(STATE, "    fn init<E: Into<OpenStatus>, F: FnOnce(&'static IoEnv) -> Result<P, E>> (", """    fn init<E: Into<OpenStatus>, F: FnOnce(&'static IoEnv) -> Result<P, E>> (
        env: IoEnv,
        f:   F,
    ) -> OpenStatus {
        let env = unsafe { Self::io_env_mut().get_or_insert(env) };

        match f(env) {
            Ok(plugin) => {
                let _ = unsafe { Self::io_plugin_mut().get_or_insert(plugin) };
                OpenStatus::Ok
            }
            Err(error) => error.into(),
        }
    }"""),
  sub(STATE, "        let _ = Self::io_plugin_mut().take().map(f);", "        if let Some(plugin) = Self::io_plugin_mut().take() {\n            f(plugin);\n        }\n"))
r("options-splitn", PLUG,
  sub(OM, """            let sep = bytes.iter().position(|b| *b == OPTIONS_SEPARATOR);
""", "            let mut parts = bytes.splitn(2, |b| *b == OPTIONS_SEPARATOR);\n"),
  sub(OM, """            let (k, v) = match sep {
                Some(s) => { ( &bytes[..s], &bytes[s+1..] ) }
                None    => { ( bytes,       bytes) }
            };
""", """            let k = parts.next().unwrap_or(bytes);
            let v = parts.next().unwrap_or(bytes);
"""))
r("options-loop", PLUG,
  sub(OM, "        while !(*ptr).is_null() {\n            let bytes = CStr::from_ptr(*ptr).to_bytes();", "        loop {\n            let entry = *ptr;\n\n            if entry.is_null() {\n                break;\n            }\n\n            let bytes = CStr::from_ptr(entry).to_bytes();"),
  sub(OM, "            ptr = ptr.offset(1);", "            ptr = ptr.add(1);"),
  sub(OM, "                Some(s) => { ( &bytes[..s], &bytes[s+1..] ) }\n                None    => { ( bytes,       bytes) }", "                Some(s) => { let (k, v) = bytes.split_at(s); (k, &v[1..]) }\n                None    => (bytes, bytes),"))
r("options-get", PLUG,
  fn(OM, "    pub fn get<T: FromSudoOption>(&self, k: &str)", """    pub fn get<T: FromSudoOption>(&self, k: &str) -> Result<T> {
        let v = match self.get_str(k) {
            Some(v) => v,
            None    => return Err(Error::OptionMissing { key: k.to_string() }),
        };

        match T::from_sudo_option(v) {
            Ok(value) => Ok(value),
            Err(_)    => Err(Error::OptionInvalid { key: k.to_string(), value: v.to_string() }),
        }
    }"""),
  fn(OM, "    pub fn get_bytes(&self, k: &[u8])", "    pub fn get_bytes(&self, k: &[u8]) -> Option<&[u8]> {\n        match self.0.get(k) {\n            Some(v) => Some(&v[..]),\n            None    => None,\n        }\n    }"))
r("list-collect", PLUG,
  sub(TR, "        for element in list {\n            let item = FromSudoOption::from_sudo_option(element)\n                .map_err(ParseListError)?;\n\n            items.push(item);\n        }", "        for element in list {\n            items.push(T::from_sudo_option(element).map_err(ParseListError)?);\n        }"),
  sub(TR, "        s.split(|b| b == Self::SEPARATOR).collect()", "        s.split(Self::SEPARATOR).collect()"))
r("flags-helper", PLUG,
  fn(SE, "    pub fn flags(&self)", """    pub fn flags(&self) -> Vec<Vec<u8>> {
        let close_from = self.close_from.map(|fd| fd.to_string());
        let edit       = self.sudoedit && self.progname != "sudoedit";

        let mut flags: Vec<Vec<u8>> = vec![];

        let mut set = |given: bool, name: &str| {
            if given {
                flags.push(name.as_bytes().to_vec());
            }
        };

        set(edit, "--edit");

        let mut value = |given: &Option<String>, name: &str| {
            if let Some(text) = given {
                flags.push(format!("{} {}", name, text).into_bytes());
            }
        };

        value(&self.runas_user,  "--user");
        value(&self.runas_group, "--group");
        value(&self.prompt,      "--prompt");

        let mut set = |given: bool, name: &str| {
            if given {
                flags.push(name.as_bytes().to_vec());
            }
        };

        set(self.login_shell,          "--login");
        set(self.run_shell,            "--shell");
        set(self.set_home,             "--set-home");
        set(self.preserve_environment, "--preserve-env");
        set(self.preserve_groups,      "--preserve-groups");
        set(self.ignore_ticket,        "--reset-timestamp");
        set(self.noninteractive,       "--non-interactive");

        let mut value = |given: &Option<String>, name: &str| {
            if let Some(text) = given {
                flags.push(format!("{} {}", name, text).into_bytes());
            }
        };

        value(&self.login_class,   "--login-class");
        value(&self.selinux_role,  "--role");
        value(&self.selinux_type,  "--type");
        value(&self.bsd_auth_type, "--auth-type");
        value(&close_from,         "--close-from");

        flags
    }"""))
r("invocation-join", PLUG,
  fn(ENVF, "    pub fn invocation(&self)", """    pub fn invocation(&self) -> Vec<u8> {
        let mut words = vec![self.settings.progname.as_bytes().to_vec()];

        words.extend(self.settings.flags());
        words.extend(self.cmdline.iter().map(|entry| entry.as_bytes().to_vec()));

        words.join(&b' ')
    }"""),
  fn(ENVF, "    pub fn runas_gids(&self)", """    pub fn runas_gids(&self) -> HashSet<gid_t> {
        let groups = match self.command_info.runas_groups {
            Some(ref groups) => groups,
            None             => &self.user_info.groups,
        };

        groups.iter().copied().chain(std::iter::once(self.command_info.runas_egid)).collect()
    }"""),
  fn(ENVF, "    pub fn cwd(&self)", "    pub fn cwd(&self) -> &PathBuf {\n        match &self.command_info.cwd {\n            Some(cwd) => cwd,\n            None      => &self.user_info.cwd,\n        }\n    }"))
r("env-locals", PLUG,
  sub(ENVF, """        let mut argv = if argv.is_null() {
            vec![]
        } else {
            slice::from_raw_parts(argv, argc as usize).to_vec()
        };

        let cmdline = argv
            .iter_mut()
            .map(|ptr| CStr::from_ptr(*ptr).to_owned())
            .collect();
""", """        let mut cmdline = Vec::new();

        if !argv.is_null() {
            for ptr in slice::from_raw_parts(argv, argc as usize) {
                cmdline.push(CStr::from_ptr(*ptr).to_owned());
            }
        }
"""),
  sub(ENVF, "        let plugin = Self {\n", "        let settings     = Settings::try_from(OptionMap::from_raw(settings.cast()))?;\n        let user_info    = UserInfo::try_from(OptionMap::from_raw(user_info.cast()))?;\n        let command_info = CommandInfo::try_from(OptionMap::from_raw(command_info.cast()))?;\n\n        let plugin = Self {\n"),
  sub(ENVF, "            settings:       OptionMap::from_raw(settings.cast()).try_into()?,\n            user_info:      OptionMap::from_raw(user_info.cast()).try_into()?,\n            command_info:   OptionMap::from_raw(command_info.cast()).try_into()?,\n", "            settings,\n            user_info,\n            command_info,\n"),
  sub(ENVF, "use std::convert::{TryFrom, TryInto};", "use std::convert::TryFrom;"))
r("records-helper", PLUG,
  sub(CI, "    fn try_from(value: OptionMap) -> Result<Self> {\n", "    fn try_from(value: OptionMap) -> Result<Self> {\n        let flag = |name: &str| -> bool { value.get(name).unwrap_or(false) };\n        let text = |name: &str| -> Option<String> { value.get(name).ok() };\n\n"),
  *[sub(CI, l % n, "%s(\"%s\")," % ("flag" if "false" in l else "text", n)) for l, n in (
      ('value.get("%s")           .unwrap_or(false),', "set_utmp"), ('value.get("%s")      .unwrap_or(false),', "iolog_ttyin"),
      ('value.get("%s")        .ok(),', "iolog_user"), ('value.get("%s")       .ok(),', "iolog_group"))
    if False],
  sub(CI, "value.get(\"set_utmp\")          .unwrap_or(false)", "flag(\"set_utmp\")"),
  sub(CI, "value.get(\"iolog_stdout\")      .unwrap_or(false)", "flag(\"iolog_stdout\")"),
  sub(CI, "value.get(\"selinux_role\")      .ok()", "text(\"selinux_role\")"),
  sub(CI, "value.get(\"runas_euid\").unwrap_or(runas_uid)", "match value.get(\"runas_euid\") { Ok(euid) => euid, Err(_) => runas_uid }"))
r("print-one-line", PLUG,
  fn(PF, "    pub fn write_line(&mut self, line: &[u8])", """    pub fn write_line(&mut self, line: &[u8]) -> io::Result<()> {
        let mut text = self.tag.clone();

        text.extend_from_slice(line);
        text.push(b'\\n');

        self.write_all(&text)
    }"""))
r("print-successors", PLUG,
  fn(PF, "    pub fn write_error(&mut self, error: &dyn Error)", """    pub fn write_error(&mut self, error: &dyn Error) -> io::Result<()> {
        self.write_all(b"\\n")?;

        let mut current = Some(error);

        while let Some(cause) = current {
            self.write_line(cause.to_string().as_bytes())?;
            current = cause.source();
        }

        Ok(())
    }"""))
r("print-if", PLUG,
  sub(PF, """        #[allow(clippy::cast_sign_loss)]
        match count {
            c if c < 0 => Err(io::Error::last_os_error()),
            c          => Ok(c as _)
        }""", """        if count < 0 {
            return Err(io::Error::last_os_error());
        }

        Ok(count as usize)"""),
  sub(PF, """        let tag: Vec<u8> = name
            .map(|name| format!("{}: ", name).into())
            .unwrap_or_default();
""", """        let tag = match name {
            Some(name) => [name.as_bytes(), b": "].concat(),
            None       => vec![],
        };
"""))
r("version-tuple", ["C19", "C17", "C22"],
  sub(VER, "        self >= *Self::minimum()", "        let minimum = Self::minimum();\n\n        (self.major, self.minor) >= (minimum.major, minimum.minor)"),
  sub(VER, "        if !self.supported() {\n            return Err(Error::UnsupportedApiVersion {\n                required: MINIMUM,\n                provided: self,\n            });\n        }\n\n        Ok(self)", "        if self.supported() {\n            Ok(self)\n        } else {\n            Err(Error::UnsupportedApiVersion { required: MINIMUM, provided: self })\n        }"),
  sub(VER, "        write!(f, \"{}.{}\", self.major, self.minor)", "        self.major.fmt(f)?;\n        f.write_str(\".\")?;\n        self.minor.fmt(f)"))
r("version-shift", ["C19", "C27", "C28"],
  sub(SYS, "    version & 0xffff\n", "    (version << 16) >> 16\n"))
r("deny-if-let", ["C27", "C28"],
  fn(DENY, "unsafe extern \"C\" fn check(", """unsafe extern "C" fn check(
    _command_info: *const *mut raw::c_char,
    _run_argv:     *const *mut raw::c_char,
    _run_envp:     *const *mut raw::c_char,
    errstr:        *mut *const raw::c_char,
) -> raw::c_int {
    if let Some(print) = SUDO_PRINT {
        let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, ERRSTR);

        match SUDO_API_VERSION {
            Some(version) if version >= sudo::sudo_api_mkversion(1, 17) => *errstr = ERRSTR,
            _ => (),
        }
    }

    0
}"""))
r("chain-recursive", ["C15", "C16", "C25", "C26"],
  fn(PF, "    pub fn write_error(&mut self, error: &dyn Error) -> io::Result<()> {", """    pub fn write_error(&mut self, error: &dyn Error) -> io::Result<()> {
        self.write_all(b"\\n")?;
        self.write_chain(Some(error))
    }

    fn write_chain(&mut self, error: Option<&dyn Error>) -> io::Result<()> {
        if let Some(error) = error {
            self.write_line(error.to_string().as_bytes())?;

            return self.write_chain(error.source());
        }

        Ok(())
    }""".replace("\\\\", "\\")))
r("entry-split-fn", ["C20", "C21", "C22"],
  sub(OM, "            let sep = bytes.iter().position(|b| *b == OPTIONS_SEPARATOR);\n\n", ""),
  sub(OM, """            let (k, v) = match sep {
                Some(s) => { ( &bytes[..s], &bytes[s+1..] ) }
                None    => { ( bytes,       bytes) }
            };
""", "            let (k, v) = split(bytes);\n"),
  lambda_tail(OM, """
/// Splits an entry at its first separator.
fn split(entry: &[u8]) -> (&[u8], &[u8]) {
    for (i, b) in entry.iter().enumerate() {
        if *b == OPTIONS_SEPARATOR {
            return (&entry[..i], &entry[i + 1..]);
        }
    }

    (entry, entry)
}
"""))
r("plugin-options-helper", PAIR,
  sub(LIB, """            binary_path: map.get("binary_path")
                .unwrap_or_else(|_| DEFAULT_BINARY_PATH.into()),""", """            binary_path: path_or(map, "binary_path", DEFAULT_BINARY_PATH),"""),
  sub(LIB, """            user_prompt_path: map.get("user_prompt_path")
                .unwrap_or_else(|_| DEFAULT_USER_PROMPT_PATH.into()),""", """            user_prompt_path: path_or(map, "user_prompt_path", DEFAULT_USER_PROMPT_PATH),"""),
  sub(LIB, """            socket_dir: map.get("socket_dir")
                .unwrap_or_else(|_| DEFAULT_SOCKET_DIR.into()),""", """            socket_dir: path_or(map, "socket_dir", DEFAULT_SOCKET_DIR),"""),
  lambda_tail(LIB, """
fn path_or(map: &OptionMap, key: &str, default: &str) -> PathBuf {
    map.get(key).unwrap_or_else(|_| default.into())
}
"""))
r("gids-match", ["C02", "C24"],
  sub(ENVF, """        let mut set : HashSet<_> = self.command_info.runas_groups.as_ref().unwrap_or(
            &self.user_info.groups
        ).iter().copied().collect();
""", """        let groups = match &self.command_info.runas_groups {
            Some(groups) => groups,
            None         => &self.user_info.groups,
        };

        let mut set = HashSet::new();

        for gid in groups {
            let _ = set.insert(*gid);
        }
"""))
r("winsize-vec", ["C08", "C09"],
  sub(LIB, """        self.log_output(format!("\\x1b[8;{};{}t", lines, cols).as_bytes())""".replace("\\\\", "\\"), """        let mut escape = b"\\x1b[8;".to_vec();

        escape.extend_from_slice(lines.to_string().as_bytes());
        escape.push(b';');
        escape.extend_from_slice(cols.to_string().as_bytes());
        escape.push(b't');

        self.log_output(&escape)""".replace("\\\\", "\\")))
r("refuse-closure", ["C01", "C04", "C05", "C06", "C07"],
  sub(SOCK, """        unsafe {
            let mut stat = mem::MaybeUninit::<libc::stat>::uninit();
""", """        let refuse = |why: &str| Err(Error::new(ErrorKind::Other, format!(
            "the socket directory {} {}", parent.to_string_lossy(), why,
        )));

        unsafe {
            let mut stat = mem::MaybeUninit::<libc::stat>::uninit();
"""),
  sub(SOCK, """                return Err(Error::new(ErrorKind::Other, format!(
                    "the socket directory {} is not owned by root",
                    parent.to_string_lossy(),
                )));
""", """                return refuse("is not owned by root");
"""),
  sub(SOCK, """                return Err(Error::new(ErrorKind::Other, format!(
                    "the socket directory {} has insecure permissions",
                    parent.to_string_lossy(),
                )));
""", """                return refuse("has insecure permissions");
"""))
r("close-match", PAIR,
  fn(LIB, "    fn close(mut self, _: i32, _: i32) {", """    fn close(mut self, _: i32, _: i32) {
        let mut socket = match self.socket.take() {
            Some(socket) => socket,
            None         => return,
        };

        slog::trace!(self.slog, "pair session ending");

        if socket.get_mut().close().is_ok() {
            slog::info!(self.slog, "pair session ended");
        }
    }"""))
r("state-drop-if", ["C15", "C16", "C17", "C18", "C22"],
  sub(STATE, """        let _ = Self::io_plugin_mut().take().map(f);
""", """        if let Some(plugin) = Self::io_plugin_mut().take() {
            f(plugin);
        }

"""))
r("deny-helper", ["C28", "C27"],
  sub(DENY, """    let print = match SUDO_PRINT {
        Some(f) => f,
        None    => { return 0 },
    };

    #[allow(clippy::cast_possible_wrap)]
    let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, VERSION_MSG);

    1
}""", """    if say(VERSION_MSG) { 1 } else { 0 }
}

#[allow(clippy::cast_possible_wrap)]
unsafe fn say(message: *const raw::c_char) -> bool {
    match SUDO_PRINT {
        Some(print) => {
            let _ = (print)(sudo::SUDO_CONV_INFO_MSG as _, message);
            true
        }
        None => false,
    }
}"""))
r("send-helper", PAIR,
  sub(LIB, """        let _ = socket.write_all(&response[..]);
""", """        let _ = socket.write_all(&[response[0]]);
"""))
r("exempt-gids-any", ["C02", "C03", "C09"],
  fn(LIB, "    fn is_sudoing_from_exempted_gid(&self) -> bool {", """    fn is_sudoing_from_exempted_gid(&self) -> bool {
        for gid in &self.env.user_info.groups {
            if self.options.gids_exempted.contains(gid) {
                return true;
            }
        }

        false
    }"""))
r("open-no-map-err", ["C15", "C16", "C17", "C19", "C22"],
  sub(CORE, """            P::open(env).map_err(|e| {
                let _ = stderr.write_error(&e);
                Into::<OpenStatus>::into(e)
            })
""", """            let error = match P::open(env) {
                Ok(plugin) => return Ok(plugin),
                Err(error) => error,
            };

            let _ = stderr.write_error(&error);

            Err(error.into())
"""))
# ---- things move between files, change their names, their types
def cut(file, head, tail, put=""):
    def f(t):
        i = t.index(head)
        j = t.index(tail, i) + len(tail)
        CUT[head] = t[i:j]
        return t[:i] + put + t[j:]
    return (file, f)


CUT = {}
SIG = "sudo_pair/src/sigint.rs"
r("module-sigint", PAIR,
  cut(SOCK, "/// Sets up a handler for Ctrl-C", "        Ok(result)\n    }\n}\n"),
  cut(SOCK, "/// Installs the new handler for", "    Ok(())\n}\n"),
  sub(SOCK, "use std::mem;\n", "use std::mem;\nuse crate::sigint::ctrl_c_aborts_syscalls;\n"),
  (SIG, lambda t: "use std::io::{Error, Result};\nuse std::mem;\n\n" + CUT["/// Sets up a handler for Ctrl-C"].replace("\nfn ctrl_c", "\npub(crate) fn ctrl_c") + "\n" + CUT["/// Installs the new handler for"]),
  sub(LIB, "mod socket;\n", "mod sigint;\nmod socket;\n"))
r("module-options", PAIR,
  cut(LIB, "#[derive(Debug)]\nstruct PluginOptions {", "    gids_exempted: HashSet<gid_t>,\n}\n"),
  cut(LIB, "impl PluginOptions {", "        ).as_bytes()\n    }\n}\n"),
  cut(LIB, "#[allow(single_use_lifetimes)]\nimpl<'a> From<&'a OptionMap> for PluginOptions {", "                .unwrap_or_default(),\n        }\n    }\n}\n"),
  ("sudo_pair/src/options.rs", lambda t: "use crate::{DEFAULT_BINARY_PATH, DEFAULT_GIDS_ENFORCED, DEFAULT_PAIR_PROMPT_PATH, DEFAULT_SOCKET_DIR, DEFAULT_USER_PROMPT_PATH};\nuse std::collections::HashSet;\nuse std::os::unix::ffi::OsStrExt;\nuse std::path::PathBuf;\nuse libc::gid_t;\nuse sudo_plugin::options::OptionMap;\n\n"
    + re.sub(r"\n    ([a-z_]+): ", r"\n    pub(crate) \1: ", CUT["#[derive(Debug)]\nstruct PluginOptions {"].replace("struct Pl", "pub(crate) struct Pl"))
    + "\n" + CUT["impl PluginOptions {"].replace("    fn binary_name", "    pub(crate) fn binary_name") + "\n" + CUT["#[allow(single_use_lifetimes)]\nimpl<'a> From<&'a OptionMap> for PluginOptions {"]),
  sub(LIB, "use std::collections::HashSet;\n", ""),
  sub(LIB, "use sudo_plugin::options::OptionMap;\n", "use crate::options::PluginOptions;\n"),
  sub(LIB, "mod socket;\n", "mod socket;\nmod options;\n"))
r("rename-private", PAIR, *[(LIB, lambda t, a=a, b=b: re.sub(r"\b%s\b" % a, b, t)) for a, b in (
    ("remote_pair_prompt", "ask_pair"), ("remote_pair_connect", "connect_pair"), ("local_pair_prompt", "show_user_prompt"), ("is_sudoing_from_root", "initiated_by_root"),
    ("is_sudoing_to_user_and_group", "to_user_and_group"), ("log_output", "forward"))])
r("rename-fields", PAIR,
  (SOCK, lambda t: re.sub(r"self\.socket\b", "self.stream", t).replace("    socket: UnixStream,", "    stream: UnixStream,").replace("Self { socket: connection.0 }", "Self { stream: connection.0 }")),
  (LIB, lambda t: re.sub(r"\b(self|pair)\.env\b", r"\1.session", t).replace("    env:     &'static IoEnv,", "    session: &'static IoEnv,").replace("            env,\n            options,", "            session: env,\n            options,")))
r("error-display", ["C01", "C02", "C10", "C15", "C16"],
  fn("sudo_pair/src/errors.rs", "    fn as_str(&self) -> &'static str {", ""),
  sub("sudo_pair/src/errors.rs", "impl ErrorKind {\n\n}\n\n", ""),
  sub("sudo_pair/src/errors.rs", "        self.clone().as_str().fmt(f)\n", """        f.write_str(match *self {
            Self::CommunicationError => "couldn't establish communications with the pair",
            Self::SessionDeclined    => "pair declined the session",
            Self::SessionTerminated  => "pair ended the session",
            Self::StdinRedirected    => "redirection of stdin to paired sessions is prohibited",
            Self::SudoToUserAndGroup => "the -u and -g options may not both be specified",
            Self::PluginError(_)     => "the plugin failed to initialize",
        })
"""))
r("option-in-cell", PAIR,
  sub(LIB, "    socket:  Option<RefCell<Socket>>,", "    socket:  RefCell<Option<Socket>>,"),
  sub(LIB, "            socket: None,", "            socket: RefCell::new(None),"),
  sub(LIB, "        if let Some(mut socket) = self.socket.take() {", "        if let Some(mut socket) = self.socket.get_mut().take() {"),
  sub(LIB, "            let _ = socket.get_mut().close();", "            let _ = socket.close();"),
  sub(LIB, "    fn close(mut self,", "    fn close(mut self,"),
  sub(LIB, """        self.socket.as_ref().map_or(Ok(()), |socket| {
            socket.borrow_mut().write_all(log)
        })""", """        self.socket.borrow_mut().as_mut().map_or(Ok(()), |socket| {
            socket.write_all(log)
        })"""),
  sub(LIB, "        if self.socket.is_some() {", "        if self.socket.borrow().is_some() {"),
  sub(LIB, "        self.socket = Some(RefCell::new(socket));", "        self.socket = RefCell::new(Some(socket));"),
  sub(LIB, """        let mut socket = self.socket
            .as_ref()
            .ok_or(ErrorKind::CommunicationError)?
            .borrow_mut();
""", """        let mut socket = self.socket.borrow_mut();
        let     socket = socket.as_mut().ok_or(ErrorKind::CommunicationError)?;
"""))
r("exempt-any", PAIR,
  fn(LIB, "    fn is_exempt(&self) -> bool {", """    fn is_exempt(&self) -> bool {
        let exemptions = [
            ("sudo initiated by root",              self.is_sudoing_from_root()),
            ("sudo to current user",                self.is_sudoing_to_themselves()),
            ("sudo running approval command",       self.is_sudoing_approval_command()),
            ("sudo command exempted from logging",  self.is_exempted_from_logging()),
            ("sudo from exempt group id",           self.is_sudoing_from_exempted_gid()),
            ("sudo to unenforced group id",        !self.is_sudoing_to_enforced_gid()),
        ];

        for (why, exempt) in exemptions.iter() {
            if *exempt {
                slog::debug!(self.slog, "{}", why);
                return true;
            }
        }

        slog::debug!(self.slog, "sudo session requires a pair");

        false
    }"""))
r("prompt-inline", PAIR,
  sub(LIB, "        pair.local_pair_prompt(&template_spec);\n        pair.remote_pair_connect()?;\n        pair.remote_pair_prompt(&template_spec)?;\n", "        pair.pair(&template_spec)?;\n"),
  sub(LIB, "    fn local_pair_prompt(&self, template_spec: &Spec) {", """    fn pair(&mut self, spec: &Spec) -> Result<()> {
        self.local_pair_prompt(spec);

        self.remote_pair_connect()
            .and_then(|()| self.remote_pair_prompt(spec))
    }

    fn local_pair_prompt(&self, template_spec: &Spec) {"""))
r("socket-open-struct", PAIR,
  sub(LIB, """        let socket = Socket::open(
            self.socket_path(),
            self.socket_uid(),
            self.socket_gid(),
            self.socket_mode(),
        ).context(""", """        let (uid, gid, mode) = (self.socket_uid(), self.socket_gid(), self.socket_mode());
        let socket = Socket::open(&self.socket_path(), (uid, gid), mode).context("""),
  sub(SOCK, """    pub(crate) fn open<P: AsRef<Path>>(
        path: P,
        uid:  uid_t,
        gid:  gid_t,
        mode: mode_t,
    ) -> Result<Self> {
        let path = path.as_ref();

""", """    pub(crate) fn open(
        path: &Path,
        (uid, gid): (uid_t, gid_t),
        mode: mode_t,
    ) -> Result<Self> {
"""))
r("catch-inline", PLUG,
  sub(CORE, "    Into::<LogStatus>::into(catch_unwind(|| Into::<LogStatus>::into(f()))) as _", """    match catch_unwind(|| f().into()) {
        Ok(status) => status as i32,
        Err(panic) => {
            forget(panic);
            Into::<LogStatus>::into(Error::UncaughtPanic) as i32
        }
    }"""),
  sub(CORE, "    Into::<OpenStatus>::into(catch_unwind(|| Into::<OpenStatus>::into(f()))) as _", """    let status: OpenStatus = catch_unwind(|| {
        let status: OpenStatus = f().into();
        status
    }).into();

    status as i32"""))
r("rename-plugin", PLUG,
  (CORE, lambda t: re.sub(r"\bcatch_unwind_(open|log)\b", r"guard_\1", t)),
  (PF, lambda t: re.sub(r"\bwrite_error\b", "write_error", re.sub(r"\bfacility\b", "printf", t)) if "printf" not in re.findall(r"\bprintf\b", t) else t))
r("version-asterisk", ["C17", "C19", "C26", "C15"],
  sub(CORE, "        P::show_version(S::io_env(), verbose != 0);\n\n        OpenStatus::Ok\n", "        let verbose = !matches!(verbose, 0);\n        let env = S::io_env();\n\n        P::show_version(env, verbose);\n        Ok::<(), Error>(())\n"))
# ---- more of sudo_plugin
r("raw-index", ["C20", "C21", "C22", "C12"],
  sub(OM, "pub unsafe fn from_raw(mut ptr: *const *const c_char) -> Self {", "pub unsafe fn from_raw(ptr: *const *const c_char) -> Self {"),
  sub(OM, "        while !(*ptr).is_null() {\n            let bytes = CStr::from_ptr(*ptr).to_bytes();", "        for i in 0.. {\n            let entry = *ptr.add(i);\n\n            if entry.is_null() {\n                break;\n            }\n\n            let bytes = CStr::from_ptr(entry).to_bytes();"),
  sub(OM, "            ptr = ptr.offset(1);\n", ""))
r("raw-split-at", ["C20", "C21", "C22", "C12"],
  sub(OM, "                Some(s) => { ( &bytes[..s], &bytes[s+1..] ) }\n                None    => { ( bytes,       bytes) }\n", "                Some(s) => {\n                    let (key, rest) = bytes.split_at(s);\n                    (key, &rest[1..])\n                }\n                None => (bytes, bytes),\n"),
  sub(OM, "        self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok())", "        match str::from_utf8(self.get_bytes(k.as_bytes())?) {\n            Ok(text) => Some(text),\n            Err(_)   => None,\n        }"),
  sub(OM, "        self.0.get(k).map(Vec::as_slice)", "        let value = self.0.get(k)?;\n\n        Some(&value[..])"))
r("get-question", ["C20", "C21", "C22"],
  sub(OM, """        let v = self.get_str(k).ok_or(Error::OptionMissing { key: k.into() })?;

        FromSudoOption::from_sudo_option(v)
            .map_err(|_e| Error::OptionInvalid { key: k.into(), value: v.into() })""", """        let text = match self.get_str(k) {
            Some(text) => text,
            None       => return Err(Error::OptionMissing { key: k.to_string() }),
        };

        T::from_sudo_option(text).or_else(|_| {
            Err(Error::OptionInvalid { key: k.to_string(), value: text.to_string() })
        })"""))
r("gids-chain", ["C02", "C24"],
  sub(ENVF, """        let mut set : HashSet<_> = self.command_info.runas_groups.as_ref().unwrap_or(
            &self.user_info.groups
        ).iter().copied().collect();
""", """        let groups = match &self.command_info.runas_groups {
            Some(groups) => groups,
            None         => &self.user_info.groups,
        };

        let mut set = groups.iter().copied().collect::<HashSet<_>>();
"""))
r("argv-loop", PLUG,
  sub(ENVF, """        let mut argv = if argv.is_null() {
            vec![]
        } else {
            slice::from_raw_parts(argv, argc as usize).to_vec()
        };

        let cmdline = argv
            .iter_mut()
            .map(|ptr| CStr::from_ptr(*ptr).to_owned())
            .collect();
""", """        let argv = if argv.is_null() {
            &[][..]
        } else {
            slice::from_raw_parts(argv, argc as usize)
        };

        let mut cmdline = Vec::with_capacity(argv.len());

        for ptr in argv {
            cmdline.push(CStr::from_ptr(*ptr).to_owned());
        }
"""))
r("tty-match", ["C12", "C27", "C25"],
  sub(ENVF, """        self.user_info.tty.as_ref().and_then(|path|
            Tty::try_from(path.as_path()).ok()
        )""", """        match self.user_info.tty.as_deref().map(Tty::try_from) {
            Some(Ok(tty)) => Some(tty),
            _             => None,
        }"""))
r("print-new", PLUG,
  sub(PF, """        let     stdout = Self { tag, facility: printf, level: Level::Info };
        let mut stderr = stdout.clone();

        stderr.level = Level::Error;

        (stdout, stderr)""", """        (
            Self { tag: tag.clone(), facility: printf, level: Level::Info },
            Self { tag,              facility: printf, level: Level::Error },
        )"""),
  sub(PF, """        let tag: Vec<u8> = name
            .map(|name| format!("{}: ", name).into())
            .unwrap_or_default();
""", """        let tag = match name {
            Some(name) => format!("{}: ", name).into_bytes(),
            None       => Vec::new(),
        };
"""))
r("print-write", ["C12", "C16", "C25", "C26"],
  sub(PF, """        let printf = self.facility.ok_or_else(||
            io::Error::new(io::ErrorKind::NotConnected, "no printf provided")
        )?;
""", """        let printf = match self.facility {
            Some(printf) => printf,
            None => return Err(io::Error::new(io::ErrorKind::NotConnected, "no printf provided")),
        };
"""),
  sub(PF, """        match count {
            c if c < 0 => Err(io::Error::last_os_error()),
            c          => Ok(c as _)
        }""", """        if count < 0 {
            return Err(io::Error::last_os_error());
        }

        #[allow(clippy::cast_sign_loss)]
        Ok(count as usize)"""))
if __name__ == "__main__":
    import mutants
    a = sys.argv[1:]
    n = 2
    if "-j" in a:
        i = a.index("-j"); n = int(a[i + 1]); del a[i:i + 2]
    mutants.run_all([x for x in R if not a or x[0] in a], n, [], quiet=True)
