"""The planted bugs: edits, scenario and expectation of each. plant.py writes them to /verif/seeded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib"))
import gen, ptest
from gen import mod, setkv, kv
from l2 import Scn, hx

LIB, SOCK, TPL = "sudo_pair/src/lib.rs", "sudo_pair/src/socket.rs", "sudo_pair/src/template.rs"
CORE, ENVF, STATE = "sudo_plugin/src/core.rs", "sudo_plugin/src/plugin/io_env.rs", "sudo_plugin/src/plugin/io_state.rs"
OM, TR = "sudo_plugin/src/options/option_map.rs", "sudo_plugin/src/options/traits.rs"
CI, UI, SE = ("sudo_plugin/src/options/%s.rs" % x for x in ("command_info", "user_info", "settings"))
PF, VER, MAC, SYS = "sudo_plugin/src/output/print_facility.rs", "sudo_plugin/src/version.rs", "sudo_plugin/src/macros.rs", "sudo_plugin-sys/src/lib.rs"
DENY, ERR = "examples/raw_plugin_api/src/lib.rs", "sudo_plugin/src/errors.rs"
BUGS = []


def bug(id, property, needs, breaks, edits, scn, expect):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, scn=scn, expect=expect))


def one(f):
    """a list with one scenario, from a function that changes the base session"""
    def g():
        s = gen.base()
        f(s)
        return [s]
    return g


def onet(f, sym="honours"):
    def g():
        s = ptest.base(sym)
        f(s)
        return [s]
    return g


def sets(**k):
    def f(s):
        for a, v in k.items():
            setattr(s, a, v)
    return f


# ------------------------------------------------------------------ sudo_pair
bug("answer-anywhere", "C01", "a peer whose first packet carries several bytes, the first of which is not y",
    "the answer is taken as approval when any byte of the packet is y, so `no, sorry` + `y` style answers approve",
    [(LIB, "let mut response : [u8; 1] = [b'n'];", "let mut response : [u8; 8] = [b'n'; 8];"),
     (LIB, "let _ = socket.write_all(&response[..]);", "let _ = socket.write_all(&response[..1]);"),
     (LIB, "match &response {\n            b\"y\" | b\"Y\" => (),\n            _           => {", "match response.iter().find(|b| b\"yY\".contains(b)) {\n            Some(_) => (),\n            None    => {")],
    one(sets(rd=[("d", b"no way\n")])),
    'if ret(RUNS[0], "open") == "1": fail("the session started although the first byte of the answer was n")')

bug("explicit-group-late", "C03", "a session that changes the user and names a group",
    "the user's prompt is printed before the session with -u and -g is refused",
    [(LIB, "        let template_spec = pair.template_spec();\n\n        pair.local_pair_prompt(&template_spec);\n", ""),
     (LIB, "        if pair.is_sudoing_to_user_and_group() {", "        let template_spec = pair.template_spec();\n\n        pair.local_pair_prompt(&template_spec);\n\n        if pair.is_sudoing_to_user_and_group() {")],
    one(lambda s: mod(s, settings=dict(runas_group="adm"))),
    'if lines(RUNS[0], "ttywrite") or printed(RUNS[0], 4): fail("a prompt was printed for a session that is refused")')

bug("umask-left-on-error", "C05", "something that is not a socket at the socket's path",
    "the creation mask stays 0777 when the stale file cannot be removed",
    [(SOCK, "        // if the path already exists as a socket, make a best-effort\n        // attempt at unlinking it\n        Self::unlink(path)?;\n\n", ""),
     (SOCK, "        let socket = UnixListener::bind(&path)", "        // if the path already exists as a socket, make a best-effort\n        // attempt at unlinking it\n        Self::unlink(path)?;\n\n        let socket = UnixListener::bind(&path)")],
    one(lambda s: s.ent("f", "/s/1000.41.sock", 0o600)),
    'f = lines(RUNS[0], "final")\nif not f or int(kv(f[0], "umask"), 8) != 0o22: fail("the creation mask was not restored")')

bug("socket-left-behind", "C07", "the wait for a peer fails or is interrupted",
    "the socket stays in the directory after a failed attempt",
    [(SOCK, "        let _ = Self::unlink(path);\n", "        if socket.is_ok() {\n            let _ = Self::unlink(path);\n        }\n")],
    one(sets(faults=[("select", 1, 4)])),
    'f = lines(RUNS[0], "final")\nif not f or kv(f[0], "sockfile") != "0": fail("the socket was left behind")')

bug("short-output-accepted", "C08", "a write to the pair that is interrupted after some bytes were sent",
    "output is accepted although only a part of it reached the pair",
    [(LIB, "            socket.borrow_mut().write_all(log)\n        })", "            let mut socket = socket.borrow_mut();\n            let mut rest   = log;\n\n            while !rest.is_empty() {\n                match socket.write(rest) {\n                    Ok(n)  => rest = &rest[n..],\n                    Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => break,\n                    Err(e) => return Err(e),\n                }\n            }\n\n            Ok(())\n        })")],
    one(lambda s: (s.calls.append(("log_ttyout", b"0123456789")), setattr(s, "wr", [("n", 100000)] * 3 + [("n", 4), ("e", 4)]))),
    'i = [k for k, l in enumerate(RUNS[0]) if l == "call log_ttyout"]\n'
    'if ret(RUNS[0], "open") != "1" or not i: sys.exit(0)\n'
    'if ret(RUNS[0], "log_ttyout") == "1" and data(RUNS[0][i[0]:]) != b"0123456789": fail("output was accepted although the pair did not get all of it")')

bug("half-shutdown", "C11", "closing a paired session",
    "only the writing side of the connection is shut down",
    [(SOCK, "        self.socket.shutdown(Shutdown::Both)", "        self.socket.shutdown(Shutdown::Write)")],
    one(lambda s: s.calls.append(("close", 0, 0))),
    'hows = {kv(l, "how") for l in lines(RUNS[0], "shutdown")}\nif not ("2" in hows or {"0", "1"} <= hows): fail("the connection was not shut down in both directions")')

bug("partial-template", "C12", "a template file whose reading fails half-way",
    "a template that could not be read completely is used instead of the default",
    [(LIB, "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .and_then(|file| file.bytes().collect() )",
      "        let template : Vec<u8> = File::open(&self.options.pair_prompt_path)\n            .map(|file| file.bytes().map_while(std::result::Result::ok).collect() )")],
    one(lambda s: s.ent("f", "/etc/sudo_pair.prompt.pair", 0o644, data=b"approve %C for %U? ", read_fail_at=8)),
    'if b"y/n? [n]: " not in data(RUNS[0]): fail("the pair was not shown the default prompt")')

bug("case-insensitive-escapes", "C13", "a template with an undefined upper-case escape whose lower-case form is defined",
    "undefined escapes expand to the replacement of another byte",
    [(TPL, "            match self.expansions.get(&byte) {", "            match self.expansions.get(&byte).or_else(|| self.expansions.get(&byte.to_ascii_lowercase())) {")],
    one(lambda s: s.ent("f", "/etc/sudo_pair.prompt.pair", 0o644, data=b"<%P|%G>")),
    'if not data(RUNS[0]).startswith(b"<P|G>"): fail("an undefined escape was not printed as it is: %r" % data(RUNS[0]))')

bug("other-signal-flags-lost", "C14", "an interrupt handler that was installed with other flags than SA_RESTART",
    "the handler's other flags are dropped while the plugin talks to the pair",
    [(SOCK, "sigaction_new.sa_flags &= !libc::SA_RESTART;", "sigaction_new.sa_flags &= libc::SA_NOCLDSTOP | libc::SA_NODEFER;")],
    one(lambda s: s.set("sa_flags", "8000004")),
    'if any(kv(l, "flags") != "8000004" for l in lines(RUNS[0], "write") + lines(RUNS[0], "read")): fail("the handler lost its flags: %s" % lines(RUNS[0], "write")[:1])')

bug("stdin-if-logged", "C10", "a policy that does not log standard input",
    "piped standard input is accepted in a paired session when the policy doesn't log it",
    [(LIB, "        // if we're exempt, don't disable stdin\n        if self.is_exempt() {", "        // if we're exempt, don't disable stdin\n        if self.is_exempt() || !self.env.command_info.iolog_stdin {")],
    one(lambda s: (mod(s, command=dict(iolog_stdin="false")), s.calls.append(("log_stdin", b"data")))),
    'if ret(RUNS[0], "open") == "1" and ret(RUNS[0], "log_stdin") == "1": fail("piped standard input was accepted")')

bug("runas-gid-only-without-groups", "C24", "a run-as primary group that is not among the run-as groups",
    "the run-as primary group is missing from the command's groups when the policy passes groups",
    [(ENVF, "        let _ = set.insert(self.command_info.runas_egid);", "        if set.is_empty() {\n            let _ = set.insert(self.command_info.runas_egid);\n        }")],
    one(lambda s: mod(s, command=dict(runas_uid=7, runas_gid=0, runas_groups="7,8"))),
    'if not lines(RUNS[0], "select"): fail("a command that gains the enforced group 0 needed no pair")')

bug("version-parts-compared-apart", "C19", "a sudo whose major version is above 1 and whose minor version is below 9",
    "version 2.0 is refused as too old",
    [(VER, "        self >= *Self::minimum()", "        self.major >= Self::minimum().major && self.minor >= Self::minimum().minor")],
    onet(lambda s: s.set("version", 2 << 16)),
    'if ret(RUNS[0], "open") != "1": fail("version 2.0 was refused")')

bug("default-closefrom-hidden", "C23", "a session with --close-from 3",
    "an option that was given is left out of the invocation when its value is sudo's default",
    [(SE, "        if let Some(close_from) = self.close_from {", "        if let Some(close_from) = self.close_from.filter(|fd| *fd != 3) {")],
    one(lambda s: mod(s, settings=dict(closefrom=3))),
    'if b"--close-from 3" not in data(RUNS[0]): fail("--close-from is missing from the invocation")')

bug("denied-version-usage", "C16", "a sudo that is too old",
    "an unsupported version is answered with the usage status instead of a denial",
    [(ERR, "    fn from(_: Error) -> Self {\n        // by default, abort `sudo` on all errors\n        OpenStatus::Deny", "    fn from(error: Error) -> Self {\n        if let Error::UnsupportedApiVersion { .. } = error {\n            return OpenStatus::Usage;\n        }\n\n        // by default, abort `sudo` on all errors\n        OpenStatus::Deny")],
    onet(lambda s: s.set("version", 1 << 16 | 8), "bare"),
    'if ret(RUNS[0], "open") != "-1": fail("an old sudo was answered %s" % ret(RUNS[0], "open"))')

# ------------------------------------------------------------------ later additions
bug("sixteen-groups", "C02", "a user in more than sixteen groups, exempted through one of the later ones",
    "only the user's first sixteen groups count for the exemption",
    [(LIB, "        !self.options.gids_exempted.is_disjoint(\n            &self.env.user_info.groups.iter().copied().collect()", "        !self.options.gids_exempted.is_disjoint(\n            &self.env.user_info.groups.iter().take(16).copied().collect()")],
    one(lambda s: mod(s, user=dict(groups=",".join(str(i) for i in range(2000, 2020))), options=dict(gids_exempted="2018"))),
    'if lines(RUNS[0], "select"): fail("a member of an exempted group needed a pair")')

bug("owner-kept-group-kept", "C04", "a session that keeps the user and names a group",
    "the socket's group is not set when its owner stays, so that the wrong group may connect",
    [(SOCK, "                if libc::chown(cpath.as_ptr(), uid, gid) == -1 {", "                if uid != libc::uid_t::max_value() && libc::chown(cpath.as_ptr(), uid, gid) == -1 {")],
    one(lambda s: mod(s, command=dict(runas_uid=1000, runas_gid=7, runas_groups="0,7"), settings=dict(runas_group="ops"))),
    'if any(kv(l, "gid") != "7" for l in lines(RUNS[0], "accept")): fail("the socket belongs to the wrong group: %s" % lines(RUNS[0], "accept"))')

bug("dir-of-the-user", "C06", "a socket directory that belongs to the invoking user",
    "a socket directory owned by sudo's real user is taken for safe",
    [(SOCK, "stat.st_uid != libc::geteuid()", "stat.st_uid != libc::geteuid() && stat.st_uid != libc::getuid()")],
    one(lambda s: (s.set("ruid", 1000), s.ents.clear() if hasattr(s, "ents") else None, s.ent("d", "/s", 0o755, 1000, 0))),
    'if lines(RUNS[0], "bind"): fail("a socket was created in a directory that the user owns")')

bug("exempt-edit-stdin", "C09", "an exempt sudoedit session",
    "piped standard input is refused in an exempt session that edits a file",
    [(LIB, "        // if we're exempt, don't disable stdin\n        if self.is_exempt() {", "        // if we're exempt, don't disable stdin\n        if self.is_exempt() && !self.env.command_info.sudoedit {")],
    one(lambda s: (mod(s, user=dict(uid=0), command=dict(sudoedit="true")), s.calls.append(("log_stdin", b"data")))),
    'if ret(RUNS[0], "open") == "1" and ret(RUNS[0], "log_stdin") != "1": fail("an exempt session was refused its standard input")')

bug("blank-answers", "C01", "a peer that answers with an empty line first",
    "blank answers are skipped: the session starts although the first byte was a newline",
    [(LIB, "        let _ = socket.read(&mut response)\n            .context(ErrorKind::SessionDeclined)?;", "        loop {\n            let _ = socket.read(&mut response)\n                .context(ErrorKind::SessionDeclined)?;\n\n            if !response[0].is_ascii_whitespace() {\n                break;\n            }\n        }")],
    one(sets(rd=[("d", b"\n"), ("d", b"y")])),
    'if ret(RUNS[0], "open") == "1": fail("the session started although the first byte of the answer was a newline")')

bug("quiet-repeats", "C08", "the same long chunk of output twice in a row",
    "output that repeats the previous chunk is accepted but not sent",
    [(LIB, "            socket.borrow_mut().write_all(log)\n        })", "            thread_local!(static LAST: RefCell<Vec<u8>> = RefCell::new(vec![]));\n\n            if LAST.with(|last| last.replace(log.to_vec()) == log) && log.len() > 1024 {\n                return Ok(());\n            }\n\n            socket.borrow_mut().write_all(log)\n        })")],
    one(lambda s: s.calls.extend([("log_ttyout", b"x" * 2000), ("log_ttyout", b"x" * 2000)])),
    'if ret(RUNS[0], "open") != "1": sys.exit(0)\nif data(RUNS[0]).count(b"x") < 4000: fail("a chunk of output was accepted and not sent")')

bug("version-panic", "C15", "a plugin whose show_version panics",
    "a panic while showing the version reaches sudo",
    [(CORE, "    catch_unwind_open(|| {\n        P::show_version(S::io_env(), verbose != 0);\n\n        OpenStatus::Ok\n    })", "    let env = S::io_env();\n\n    P::show_version(env, verbose != 0);\n\n    OpenStatus::Ok as _")],
    onet(lambda s: (setattr(s, "cbs", [("version", 1, -1)]), s.calls.append(("show_version", 1))), "ignores"),
    'if any(l.startswith("ret ") and " signal " in l for l in RUNS[0]): fail("sudo was aborted")')

bug("refused-environment-stays", "C17", "a session that is refused, closed and followed by another one",
    "a refused session's environment is not dropped, so that the next session starts with the old one",
    [(STATE, "        let _ = Self::io_plugin_mut().take().map(f);\n", "        let plugin = match Self::io_plugin_mut().take() {\n            Some(plugin) => plugin,\n            None         => return,\n        };\n\n        f(plugin);\n")],
    onet(lambda s: (setattr(s, "cbs", [("open", 1, ptest.ecode())]), s.calls.extend([("close", 0, 0), ("arr", "user_info", [b"user=bob" if x.startswith(b"user=") else x for x in s.arr["user_info"]]), ("open",)]))),
    'o = [l for l in RUNS[0] if l.startswith("cb open ")]\nif len(o) > 1 and bytes.fromhex(o[1].split(" ")[2]).find(b"user_info.user 626f62") < 0: fail("the second session started from the first one\'s environment")')

bug("empty-chunks-skipped", "C18", "a chunk of output without bytes",
    "an empty chunk of a logged stream does not reach the plugin",
    [(CORE, "        if !env.command_info.iolog_stdout && !P::IGNORE_IOLOG_HINTS {", "        if len == 0 || !env.command_info.iolog_stdout && !P::IGNORE_IOLOG_HINTS {")],
    onet(lambda s: s.calls.append(("log_stdout", b""))),
    'if not [1 for n, _ in callbacks(RUNS[0]) if n == "log_stdout"]: fail("a chunk of a logged stream did not reach the plugin")')

bug("empty-value-ignored", "C20", "a name that is passed twice, the last time with an empty value",
    "an empty value does not replace an earlier one of the same name",
    [(OM, "            drop(map.insert(\n                k.to_owned(),\n                v.to_owned(),\n            ));", "            if !v.is_empty() || !map.contains_key(k) {\n                drop(map.insert(\n                    k.to_owned(),\n                    v.to_owned(),\n                ));\n            }")],
    onet(lambda s: (s.arr.update(env=[b"a=1", b"a="]), ptest.ops(s, "bytes::" + hx(b"a")))),
    'if not did(RUNS[0]) or b"31" in did(RUNS[0])[0]: fail("the last entry with the name did not win: %r" % did(RUNS[0]))')

bug("trailing-separator", "C21", "a list that ends in a comma",
    "a list with an empty last item is taken for one without it",
    [(TR, "        s.split(|b| b == Self::SEPARATOR).collect()", "        s.split_terminator(|b| b == Self::SEPARATOR).collect()")],
    onet(lambda s: (s.arr.update(env=[b"a=1,2,"]), ptest.ops(s, "get:v_u32:" + hx(b"a")))),
    'if not did(RUNS[0]) or did(RUNS[0])[0].startswith(b"ok"): fail("a list with an item that is no number was accepted: %r" % did(RUNS[0]))')

bug("zero-timeout-dropped", "C22", "a policy that passes a timeout of zero",
    "a timeout of zero decodes as no timeout",
    [(CI, "            timeout:           value.get(\"timeout\")           .ok(),", "            timeout:           value.get(\"timeout\")           .ok().filter(|seconds| *seconds != 0),")],
    onet(lambda s: mod(s, command=dict(timeout=0))),
    'if b"command_info.timeout none" in opened(RUNS[0]): fail("the timeout sudo passed is gone")')

bug("trailing-nul-dropped", "C25", "text that ends in a NUL",
    "text with a NUL at its end is printed without it instead of being rejected",
    [(PF, "        let message = CString::new(buf).map_err(|err|", "        let text = buf.strip_suffix(b\"\\0\").unwrap_or(buf);\n\n        let message = CString::new(text).map_err(|err|")],
    onet(lambda s: ptest.ops(s, "write:err:" + hx(b"secret\0"))),
    'if b"secret" in printed(RUNS[0]): fail("text with an embedded NUL was printed")')

bug("empty-causes-skipped", "C26", "an error with a cause whose text is empty",
    "causes without text are not reported on a line of their own",
    [(PF, "            self.write_line(format!(\"{}\", error).as_bytes())?;\n            source = error.source();", "            let text = format!(\"{}\", error);\n\n            if !text.is_empty() {\n                self.write_line(text.as_bytes())?;\n            }\n\n            source = error.source();")],
    onet(lambda s: ptest.ops(s, "error:err:3:61,,62")),
    'if printed(RUNS[0]).count(b"honours: ") < 4: fail("a cause was not reported: %r" % printed(RUNS[0]))')

bug("errors-limited", "C16", "a plugin that has refused sixteen chunks of output already",
    "only the first sixteen errors of a stream are reported",
    [(CORE, "        plugin.log_stdout(slice).map_err(|err| {\n            let _ = env.stderr().write_error(&err);", "        plugin.log_stdout(slice).map_err(|err| {\n            static REPORTED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\n            if REPORTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 16 {\n                let _ = env.stderr().write_error(&err);\n            }\n")],
    onet(lambda s: (setattr(s, "cbs", [("log_stdout", 0, ptest.ecode())]), s.calls.extend([("log_stdout", b"x")] * 20))),
    'if printed(RUNS[0]).count(b"failure ") < 20: fail("%d of 20 errors were printed" % printed(RUNS[0]).count(b"failure "))')

bug("directory-tidied", "C12", "a directory whose path ends in a slash",
    "the directory is shown without its trailing slash",
    [(LIB, "spec.replace(b'd', self.env.cwd().as_os_str().as_bytes());", "spec.replace(b'd', self.env.cwd().components().as_path().as_os_str().as_bytes());")],
    one(lambda s: (mod(s, command=dict(cwd="/srv/data/")), s.ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, b"<%d>"))),
    'if b"</srv/data/>" not in data(RUNS[0]): fail("the pair was shown %r" % data(RUNS[0]))')

bug("verbose-needs-session", "C17", "sudo -V after a session was opened, with verbosity",
    "the verbosity is only passed on while no plugin is open",
    [(CORE, "        P::show_version(S::io_env(), verbose != 0);", "        let verbose = verbose != 0 && S::io_plugin_mut().is_none();\n\n        P::show_version(S::io_env(), verbose);")],
    onet(lambda s: s.calls.append(("show_version", 1)), "ignores"),
    'if not [l for l in lines(RUNS[0], "cb") if l.startswith("cb version ") and bytes.fromhex(l.split(" ")[2]).startswith(b"true")]: fail("the version was not shown verbosely")')

bug("streams-crossed", "C27", "a policy that logs standard error and not standard output",
    "the plugin's table has the callbacks of standard output and standard error in each other's place",
    [(MAC, "log_stdout: Some($crate::core::log_stdout::<$ty, $name::State>),\n            log_stderr: Some($crate::core::log_stderr::<$ty, $name::State>),", "log_stdout: Some($crate::core::log_stderr::<$ty, $name::State>),\n            log_stderr: Some($crate::core::log_stdout::<$ty, $name::State>),")],
    onet(lambda s: s.calls.append(("log_stdout", b"out"))),
    'if [n for n, d in callbacks(RUNS[0]) if d == b"out"] != ["log_stdout"]: fail("standard output reached %r" % callbacks(RUNS[0]))')

bug("byte-order-mark", "C21", "a value that starts with a byte order mark",
    "a byte order mark at the start of a value is taken off",
    [(OM, "self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok())", "self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok()).map(|s| s.trim_start_matches('\\u{feff}'))")],
    onet(lambda s: (s.arr.update(env=[b"a=\xef\xbb\xbf7"]), ptest.ops(s, "get:u32:" + hx(b"a")))),
    'if not did(RUNS[0]) or did(RUNS[0])[0].startswith(b"ok"): fail("a value that is no number was accepted: %r" % did(RUNS[0]))')
