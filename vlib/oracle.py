"""Judges what a run of the real plugin did, property by property.

Every checker takes (scenario, run, env) and returns a list of texts, one per
failure. They look at return values and at the calls that reached the kernel.
"""
import model
from model import norm

SA_RESTART = 0x10000000
ERR = 3      # SUDO_CONV_ERROR_MSG
INFO = 4     # SUDO_CONV_INFO_MSG
TOUCH = ("bind", "unlink", "chown", "chmod", "select", "accept", "listen", "other", "fchmod", "fchown")


def paths(env):
    return env.sock_path()


def opening(run):
    for c in run.calls:
        if c.name == "open":
            return c
    return None


def delivered(evs, kind="write"):
    """bytes that the peer (or terminal) received in these events"""
    o = b""
    for e in evs:
        if e.kind == kind and e.ret is not None and e.ret > 0:
            o += e.data[:e.ret]
    return o


def split_at_answer(c):
    """events of open before, at and after the first read that returned data or end of file"""
    for i, e in enumerate(c.ev):
        if e.kind == "read" and e.f.get("want") != "0":
            return c.ev[:i], e, c.ev[i + 1:]
    return c.ev, None, []


def sa(e):
    return tuple(e.f.get(k) for k in ("flags", "handler", "mask"))


def sa_initial(scn):
    return ("%x" % int(str(scn.get("sa_flags", "10000000")), 16), "%x" % int(str(scn.get("sa_handler", "1234")), 16),
            "%x" % int(str(scn.get("sa_mask", "0")), 16))


def kern_failed(c):
    """a step of the connection attempt that failed in this call"""
    return [e for e in c.ev if e.kind in ("socket", "bind", "listen", "chown", "chmod", "select", "accept") and e.ret == -1
            and not (e.kind == "accept" and e.err == 4)]


def approved(scn, run, env):
    """open was approved by a peer: the plugin must be running paired"""
    c = opening(run)
    return c is not None and c.ret == 1 and need(env) and not refused_ug(env) and any(e.kind == "accept" and e.ret == 0 for e in c.ev)


def need(env):
    return env.error is None and not env.no_command and env.exempt() is None


def refused_ug(env):
    return env.changes_user() and env.explicit_group()


def other_change(env):
    """neither the user changes nor a group was named: pairing isn't possible"""
    return not env.changes_user() and not env.explicit_group()


def died(run):
    return [] if run.ended and not any(c.sig for c in run.calls) else ["the process was killed (%s)" % ", ".join(
        "%s: signal %s" % (c.name, c.sig) for c in run.calls if c.sig is not None or c.ret is None) or "died"]


def can_connect(scn, env):
    """nothing in the scenario keeps a peer from connecting"""
    p = env.sock_path()
    e = model.find_ent(scn, p)
    return (env.dir_safe(scn) and (e is None or e["type"] == "s" and not e["stat_errno"]) and b"\0" not in p and len(p) < 108
            and not scn.faults)


# ------------------------------------------------------------ sessions
def C01(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    before, ans, after = split_at_answer(c)
    byte = ans.data[:1] if ans is not None and ans.ret and ans.ret > 0 else b""
    if c.ret == 1:
        if not any(e.kind == "accept" and e.ret == 0 for e in c.ev):
            o.append("the session started although nobody connected")
        if delivered(before) != env.pair_prompt(scn):
            o.append("the session started although the peer got %r instead of the prompt %r" % (delivered(before), env.pair_prompt(scn)))
        if byte not in (b"y", b"Y"):
            o.append("the session started on the answer %r" % byte)
    else:
        if (not refused_ug(env) and not other_change(env) and can_connect(scn, env) and byte in (b"y", b"Y")
                and delivered(before) == env.pair_prompt(scn) and not any(e.kind == "sigaction" and e.ret == -1 for e in c.ev)):
            o.append("the session was refused although the pair saw the prompt and answered %r" % byte)
    if ans is not None and byte:
        att = delivered(after)
        bad = any(e.kind == "write" and (e.ret == -1 or e.ret < len(e.data)) for e in after) or any(e.kind == "sigaction" and e.ret == -1 for e in c.ev)
        if not bad and att != byte + b"\n":
            o.append("after the answer %r the peer was sent %r" % (byte, att))
    return o


def C02(scn, run, env):
    o, c = [], opening(run)
    if c is None or env.error or env.no_command:
        return o
    why = env.exempt()
    contact = c.k("bind", "select", "accept")
    if why:
        if c.ret != 1:
            o.append("an exempt session (%s) was answered %s" % (why, c.ret))
        if contact:
            o.append("an exempt session (%s) waits for a pair" % why)
        for d in run.calls[1:]:
            if d.name == "log_stdin" and d.ret != 1:
                o.append("piped stdin of an exempt session (%s) was answered %s" % (why, d.ret))
    else:
        if c.ret == 1 and not any(e.kind == "accept" and e.ret == 0 for e in c.ev):
            o.append("a session that needs a pair started without one")
        if not contact and can_connect(scn, env) and not refused_ug(env) and not other_change(env):
            o.append("a session that needs a pair did not wait for one")
    return o


def prompt_shown(c, scn, env):
    p = env.user_prompt(scn)
    if c.k("ttywrite"):
        return True
    t = b"".join(model_text(e) for e in c.k("printf"))
    return bool(p) and p in t


def model_text(e):
    import l2
    return l2.unhx(e.f["text"])


def C03(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env) or not refused_ug(env):
        return o
    if c.ret != -1:
        o.append("changing the user with an explicit group was answered %s" % c.ret)
    if prompt_shown(c, scn, env):
        o.append("a prompt was printed before the refusal of -u with -g")
    t = [e for e in c.ev if e.kind in TOUCH]
    if t:
        o.append("before refusing -u with -g: %s" % t[0])
    return o


def expected_owner(env):
    if env.changes_user():
        return env.c["runas_euid"], env.egid, 0o200
    return env.euid, env.c["runas_egid"], 0o020


def C04(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env) or refused_ug(env) or other_change(env):
        return o
    u, g, m = expected_owner(env)
    for e in c.k("select", "accept"):
        got = (int(e.f["uid"]), int(e.f["gid"]), int(e.f["mode"], 8)) if e.f["mode"] != "none" else None
        if got != (u, g, m):
            o.append("while waiting (%s) the socket has owner/group/mode %s, not %s" % (e.kind, got, (u, g, oct(m))))
            break
    for e in c.k("chown"):
        if int(e.f["uid"]) not in (u, 2**32 - 1) or int(e.f["gid"]) not in (g, 2**32 - 1):
            o.append("the socket is given owner %s group %s" % (e.f["uid"], e.f["gid"]))
    for e in c.k("chmod", "fchmod"):
        if int(e.f["mode"], 8) & ~m:
            o.append("the socket is given mode %s" % e.f["mode"])
    return o


def C05(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    owned = moded = bound = False
    u, g, m = expected_owner(env)
    for e in c.ev:
        if e.kind == "bind":
            if int(e.f["umask"], 8) & 0o777 != 0o777:
                o.append("the socket is created with umask %s" % e.f["umask"])
            bound = bound or e.ret == 0
        elif e.kind == "chown" and e.ret == 0:
            owned = True
            if int(e.f["mode"], 8) & 0o777:
                o.append("the owner is set after the mode %s" % e.f["mode"])
        elif e.kind == "chmod":
            if int(e.f["mode"], 8) and not owned:
                o.append("a permission is given before the owner is set")
            moded = moded or e.ret == 0
        elif e.kind in ("select", "accept"):
            if not (bound and owned and moded):
                o.append("%s before the socket is created and its owner and mode are set" % e.kind)
                break
    if kern_failed(c) and c.ret == 1:
        o.append("the session started although %s failed" % kern_failed(c)[0].kind)
    if kern_failed(c) and c.ret not in (1, -1, None):
        o.append("open answered %s when %s failed" % (c.ret, kern_failed(c)[0].kind))
    um = int(str(scn.get("umask", "22")), 8)
    cur = um
    for e in c.k("umask"):
        cur = int(e.f["new"], 8) & 0o777
    if cur != um and c.ret is not None:
        o.append("the umask is %o after the attempt, it was %o" % (cur, um))
    return o


def C06(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    if not env.dir_safe(scn):
        if c.ret == 1:
            o.append("the session started with an unsafe socket directory")
        t = c.k("bind", "unlink", "chown", "chmod", "other", "select", "accept")
        if t:
            o.append("in an unsafe socket directory: %s" % t[0])
    elif can_connect(scn, env) and not refused_ug(env) and not other_change(env) and not c.k("bind"):
        o.append("a safe socket directory was refused")
    return o


def C07(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    p = env.sock_path()
    for e in c.k("bind", "chown", "chmod", "unlink"):
        if norm(e.path()) != norm(p):
            o.append("%s of %r, the socket is %r" % (e.kind, e.path(), p))
    for e in c.k("unlink"):
        if e.f["type"] not in ("s", "-") and e.ret == 0:
            o.append("a file that is not a socket was removed")
    init = model.find_ent(scn, p)
    if init is not None and init["type"] != "s" and not init["stat_errno"]:
        if c.ret == 1:
            o.append("the session started although something that is not a socket is in the socket's place")
        if any(norm(__import__("l2").unhx(f.f["path"])) == norm(p) and f.f["alive"] == "0" for f in run.fent):
            o.append("something that is not a socket was removed from the socket's place")
    if init is not None and init["type"] == "s" and can_connect(scn, env) and not refused_ug(env) and not other_change(env):
        if not any(e.kind == "bind" and e.ret == 0 for e in c.ev):
            o.append("a stale socket was not replaced")
    if c.k("bind") and any(e.ret == 0 for e in c.k("bind")) and run.final is not None:
        faulted = any(f[0] in ("unlink", "statx", "stat") for f in scn.faults)
        if run.final.f["sockfile"] != "0" and not faulted:
            o.append("the socket is still there after open")
    for e in (x for d in run.calls if d.name != "open" for x in d.ev):
        if e.kind in TOUCH:
            o.append("outside open: %s" % e)
    return o


def outputs(run):
    return [d for d in run.calls if d.name in ("log_ttyout", "log_stdout", "log_stderr", "winsize")]


def chunk_of(scn, run, d):
    i = run.calls.index(d)
    calls = [c for c in scn.calls if c[0] not in ("arr", "set")]
    c = calls[i]
    if d.name == "winsize":
        return b"\x1b[8;%d;%dt" % (int(c[1]), int(c[2]))
    return c[1] if len(c) > 1 else b""


def open_range(run):
    """indexes of the calls in the (first) session"""
    o = [i for i, c in enumerate(run.calls) if c.name == "open"]
    if not o:
        return []
    r = []
    for i in range(o[0] + 1, len(run.calls)):
        if run.calls[i].name in ("close", "open"):
            break
        r.append(i)
    return r


def C08(scn, run, env):
    o = []
    if not approved(scn, run, env):
        return o
    for i in open_range(run):
        d = run.calls[i]
        if d.name in ("log_ttyout", "log_stdout", "log_stderr", "winsize"):
            ch = chunk_of(scn, run, d)
            got = delivered(d.ev)
            if d.ret == 1 and got != ch:
                o.append("%s reported success, the pair got %r of %r" % (d.name, got, ch))
            elif d.ret != 1:
                hard = any(e.kind == "write" and (e.ret == -1 and e.err != 4 or e.ret == 0) for e in d.ev)
                sig = any(e.kind == "sigaction" and e.ret == -1 for e in d.ev)
                if not hard and not sig:
                    o.append("%s reported %s although the pair could be written to" % (d.name, d.ret))
                elif d.ret != 0:
                    o.append("%s reported %s instead of a denial" % (d.name, d.ret))
            if not ch.startswith(got):
                o.append("%s: the pair got %r for %r" % (d.name, got, ch))
        elif delivered(d.ev):
            o.append("%s wrote %r to the pair" % (d.name, delivered(d.ev)))
    return o


def C09(scn, run, env):
    o, c = [], opening(run)
    if c is None or env.error or env.no_command or not env.exempt():
        return o
    why = env.exempt()
    if c.ret != 1:
        o.append("an exempt session (%s) was answered %s" % (why, c.ret))
    if prompt_shown(c, scn, env) or c.k("printf"):
        o.append("an exempt session (%s) printed something" % why)
    t = [e for d in run.calls for e in d.ev if e.kind in TOUCH or e.kind in ("write", "read")]
    if t:
        o.append("an exempt session (%s): %s" % (why, t[0]))
    for i in open_range(run):
        if run.calls[i].ret != 1 and run.calls[i].name != "show_version":
            o.append("%s of an exempt session (%s) was answered %s" % (run.calls[i].name, why, run.calls[i].ret))
    for d in run.calls:
        if d.name == "close" and d.ret != "void":
            o.append("closing an exempt session failed")
    return o


def C10(scn, run, env):
    o = []
    if not approved(scn, run, env):
        return o
    for i in open_range(run):
        d = run.calls[i]
        if d.name == "log_stdin" and d.ret != 0:
            o.append("piped stdin of a paired session was answered %s" % d.ret)
        if d.name == "log_ttyin" and d.ret != 1:
            o.append("terminal input of a paired session was answered %s" % d.ret)
    return o


def C11(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    acc = any(e.kind == "accept" and e.ret == 0 for e in c.ev)
    if not acc:
        return o
    if c.ret != 1:
        end = c
    else:
        cl = [d for d in run.calls if d.name == "close"]
        if not cl:
            for i in open_range(run):
                if run.calls[i].k("closeconn") or run.calls[i].k("shutdown"):
                    o.append("the pair is disconnected before the session ends")
            if c.k("closeconn", "shutdown"):
                o.append("the pair is disconnected while the session starts")
            return o
        end = cl[0]
        if end.ret != "void":
            o.append("close did not return")
        for d in run.calls[:run.calls.index(end)]:
            if d.k("closeconn", "shutdown"):
                o.append("the pair is disconnected before the session ends")
                break
    if not any(e.kind == "shutdown" and e.f["how"] == "2" for e in end.ev) and not (
            any(e.kind == "shutdown" and e.f["how"] == "0" for e in end.ev) and any(e.kind == "shutdown" and e.f["how"] == "1" for e in end.ev)):
        o.append("the connection is not shut down in both directions")
    if not end.k("closeconn"):
        o.append("the connection is not released")
    if any(e.kind == "write" and e.ret and e.ret > 0 for d in run.calls[run.calls.index(end) + 1:] for e in d.ev):
        o.append("data is sent to the pair after the session ended")
    return o


def C12(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env) or refused_ug(env):
        return o
    # the pair's
    before, ans, _ = split_at_answer(c)
    if ans is not None and delivered(before) != env.pair_prompt(scn):
        o.append("the pair's prompt is %r, not %r" % (delivered(before), env.pair_prompt(scn)))
    # the user's
    p = env.user_prompt(scn)
    pre = []
    for e in c.ev:
        if e.kind in ("bind", "select", "accept"):
            break
        pre.append(e)
    tty = env.u["tty"]
    ent = model.find_ent(scn, tty.encode()) if tty else None
    usable = ent is not None and not ent["open_errno"] and ent["type"] not in ("s", "d") and ent["write_errno"] <= 0 and not any(
        f[0] == "ttywrite" for f in scn.faults)
    if any(f[0] == "ttywrite" and f[2] == 4 for f in scn.faults) and delivered(pre, "ttywrite") == p:
        return o                # interrupted and tried again
    got = delivered(pre, "ttywrite")
    err = b"".join(model_text(e) for e in pre if e.kind == "printf" and int(e.f["level"]) == ERR)
    if died(run) and not run.ended:
        return ["the process died"] + o
    if usable:
        if got != p:
            o.append("the user's prompt on the terminal is %r, not %r" % (got, p))
        for e in pre:
            if e.kind == "ttywrite" and norm(e.path()) != norm(tty.encode()):
                o.append("the user's prompt goes to %r" % e.path())
    elif b"\0" not in p and str(scn.get("printf", "1")) != "0" and int(scn.get("printf_fail", -1)) < 0:
        if c.k("bind", "select", "accept"):
            if err != p:
                o.append("the user's prompt on the error channel is %r, not %r" % (err, p))
        elif not err.startswith(p):
            o.append("the user's prompt on the error channel is %r, not %r" % (err, p))
    # printing does not decide
    if can_connect(scn, env) and not other_change(env) and not c.k("bind"):
        o.append("nobody is waited for after printing the prompt")
    return o


def C13(scn, run, env):
    o, c = [], opening(run)
    if c is None or not need(env) or refused_ug(env):
        return o
    if run.ended is False or c.ret is None:
        return ["expanding the template killed the process"]
    before, ans, _ = split_at_answer(c)
    if ans is not None and delivered(before) != env.pair_prompt(scn):
        o.append("the template %r expands to %r, not %r" % (env.template(scn, env.pp_path, model.PAIR_PROMPT), delivered(before), env.pair_prompt(scn)))
    t = delivered(c.ev, "ttywrite")
    if c.k("ttywrite") and all(e.ret == len(e.data) for e in c.k("ttywrite")) and t != env.user_prompt(scn):
        o.append("the template %r expands to %r, not %r" % (env.template(scn, env.up_path, model.USER_PROMPT), t, env.user_prompt(scn)))
    return o


def C14(scn, run, env):
    o = []
    if env.error:
        return o
    init = sa_initial(scn)
    want = ("%x" % (int(init[0], 16) & ~SA_RESTART), init[1], init[2])
    faulty = False
    for d in run.calls:
        restore_failed = False
        for i, e in enumerate(d.ev):
            if e.kind in ("read", "write") and not faulty:
                if sa(e) != want:
                    o.append("during %s in %s the interrupt disposition is %s, not %s" % (e.kind, d.name, sa(e), want))
            if e.kind == "sigaction":
                if e.f.get("sig") != "2":
                    o.append("the disposition of signal %s is changed" % e.f.get("sig"))
                if e.ret == -1:
                    faulty = True
                    prev = [x for x in d.ev[:i] if x.kind != "sigaction"]
                    io = prev[-1] if prev and prev[-1].kind in ("read", "write") else None
                    between = [x for x in d.ev[:i] if x.kind == "sigaction"]
                    # did this failure come after the data call of the same operation (restoring)?
                    restoring = io is not None and d.ev[i - 1] is io
                    nxt = [x for x in d.ev[i + 1:] if x.kind in ("read", "write")]
                    if d.name in ("log_ttyout", "log_stdout", "log_stderr", "winsize"):
                        if d.ret == 1:
                            o.append("%s succeeded although the disposition could not be changed" % d.name)
                        if not restoring and nxt:
                            o.append("%s: data is sent although the disposition could not be changed" % d.name)
                    if d.name == "open" and need(env):
                        answered = any(x.kind == "read" and x.ret and x.ret > 0 for x in d.ev[:i])
                        if (not answered or restoring and io.kind == "read") and d.ret == 1:
                            o.append("the session started although the disposition could not be changed")
                        if not answered and any(x.kind in ("read", "write") for x in d.ev[i + 1:]):
                            o.append("data is exchanged although the disposition could not be changed")
        if not faulty and d.ev:
            last = [e for e in d.ev if e.kind in ("sigaction", "read", "write") and e.f.get("flags")]
            if last and last[-1].kind == "sigaction" and sa(last[-1]) != init:
                o.append("after %s the interrupt disposition is %s, it was %s" % (d.name, sa(last[-1]), init))
            if last and last[-1].kind != "sigaction" and init != want:
                o.append("after %s the interrupt disposition is still changed" % d.name)
    return o


def EINTR(scn, run, env):
    """Ctrl-C while waiting for the answer refuses the session"""
    o, c = [], opening(run)
    if c is None or not need(env):
        return o
    for i, e in enumerate(c.ev):
        if e.kind == "read" and e.ret == -1 and e.err == 4:
            if c.ret == 1:
                o.append("the session started although the wait for the answer was interrupted")
            if any(x.kind == "read" for x in c.ev[i + 1:]):
                o.append("the interrupted wait for the answer was restarted")
            break
        if e.kind == "read":
            break
    for i, e in enumerate(c.ev):
        if e.kind == "select" and e.ret == -1 and e.err == 4:
            if c.ret == 1 or any(x.kind in ("select", "accept") for x in c.ev[i + 1:]):
                o.append("the interrupted wait for a peer was restarted")
            break
    came = False
    for i, e in enumerate(c.ev):
        if e.kind == "select":
            came = e.ret > 0
        elif e.kind == "accept":
            if e.ret == -1 and e.err == 4 and not came and (c.ret == 1 or any(x.kind == "accept" for x in c.ev[i + 1:])):
                o.append("the wait for a peer, interrupted in accept before one had come, was restarted")
            break
    return o


def C16pair(scn, run, env):
    """sudo_pair's own errors deny, and are printed"""
    o, c = [], opening(run)
    if c is None:
        return o
    if c.ret is None:
        return ["open did not return"]
    if c.ret not in (1, -1):
        o.append("open was answered %s" % c.ret)
    if env.error is None and env.no_command and c.ret != 1:
        o.append("opening without a command was answered %s" % c.ret)
    pr = str(scn.get("printf", "1")) != "0" and int(scn.get("printf_fail", -1)) < 0
    if c.ret == -1 and pr and not other_change_env(env):
        if not any(int(e.f["level"]) == ERR and b"sudo_pair: " in model_text(e) for e in c.k("printf")):
            o.append("the refusal was not explained on the error channel")
    for i in open_range(run):
        d = run.calls[i]
        if d.name != "show_version" and d.ret not in (0, 1):
            o.append("%s was answered %s" % (d.name, d.ret))
        if d.name.startswith(("log_", "winsize")) and d.ret == 0 and c.ret == 1 and pr and not env.no_command:
            if not any(int(e.f["level"]) == ERR for e in d.k("printf")):
                o.append("the denial by %s was not explained on the error channel" % d.name)
    return o


def other_change_env(env):
    return env.error is None and not env.no_command and env.exempt() is None and other_change(env) or env.error == "version" and False
