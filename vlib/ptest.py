"""Scenarios and checkers for the plugin library (sudo_plugin), run through the test plugin,
and for the example plugin and the plugin tables."""
import ipaddress, os, random, re, subprocess
import l2, model
from l2 import Scn, hx, unhx
from gen import kv, setkv, TTY, weighted, rbytes

STREAMS = ("ttyin", "ttyout", "stdin", "stdout", "stderr")
ERR, INFO = 3, 4


def ecode(depth=0, log=1, open=2):
    """scripted error; log/open index into [1,0,-1] and [1,0,-1,-2]"""
    return 100000 + 100 * depth + 10 * log + open


def base(sym="honours"):
    s = Scn("test", sym)
    s.arr["settings"] = kv(plugin_dir="/p", plugin_path="/p/x.so", progname="sudo")
    s.arr["user_info"] = kv(cwd="/home/alice", egid=0, euid=0, gid=1000, groups="1000,4", host="box", pgid=40, pid=41, ppid=42,
                            uid=1000, user="alice", tty=TTY)
    s.arr["command_info"] = kv(command="/usr/bin/id", runas_uid=0, runas_gid=0, runas_groups="0", iolog_ttyout="true", iolog_stdout="true",
                               iolog_stderr="true", iolog_stdin="true", iolog_ttyin="true")
    s.arr["argv"] = [b"id", b"-u"]
    s.arr["env"] = [b"LANG=C"]
    s.ent("c", TTY, 0o600, 1000, 5)
    s.calls = [("open",)]
    return s


def ops(s, *o):
    s.arr["options"] = list(s.arr["options"]) + [("do%d=%s" % (i, x)).encode() for i, x in enumerate(o)]
    return s


def H(x):
    return hx(x)


# ------------------------------------------------------------ reference
ERRTXT = "failure %d of %%s %d"


class Exp:
    """what a call must do"""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind      # kind: what state the call met
        self.cbs, self.ret, self.code, self.env = [], None, 0, None
        self.hint = True


def simulate(scn):
    """Expected callbacks and results, call by call."""
    arr = dict(scn.arr)
    sets = dict(scn.sets)
    counts = {}

    def code(name):
        k = counts[name] = counts.get(name, 0) + 1
        for n, nth, c in scn.cbs:
            if n == name and nth in (0, k):
                return c
        return 0
    env, opened, out = None, False, []
    ignores = scn.sym == "ignores"
    for c in scn.calls:
        if c[0] == "arr":
            arr[c[1]] = c[2]
            continue
        if c[0] == "set":
            sets[c[1]] = c[2]
            continue
        e = Exp(c[0], "")
        out.append(e)
        if c[0] == "open":
            t = Scn(scn.so, scn.sym)
            t.sets = list(sets.items())
            new = model.Env(t, arr)
            e.env = new
            if new.error:
                e.kind, e.ret = "badenv", -1
                continue
            env = new
            if env.no_command:
                e.kind, e.ret = "nocommand", 1
                continue
            e.kind = "open"
            e.code = code("open")
            e.cbs = [("open", None)]
            if e.code == 0:
                e.ret, opened = 1, True
            elif e.code < 0:
                e.ret = -1
            else:
                e.ret = [1, 0, -1, -2][e.code % 10]
        elif c[0] == "close":
            e.kind, e.ret = ("opened" if opened else "notopen"), "void"
            e.env = env
            if opened and scn.sym != "bare":
                e.code = code("close")
                who = b"%s %s" % (env.u["host"].encode(), env.raw["user_info"][b"uid"])
                e.cbs = [("close", b"%d %d %s" % (c[1], c[2], env.u["host"].encode())), ("drop", who)]
            opened, env = False, None
        elif c[0] == "show_version":
            e.kind = "version"
            e.env = env
            e.ret = 1 if env else -1
            e.verbose = c[1] != 0
            if env and ignores:
                e.code = code("version")
                e.ret = -1 if e.code < 0 else 1
        else:
            e.env = env
            name = c[0]
            if not opened:
                e.kind, e.ret = "notopen", 0
                continue
            e.kind = "opened"
            data = b"%d %d" % (c[1], c[2]) if name == "winsize" else c[1]
            e.hint = name == "winsize" or ignores or env.c["iolog_" + name[4:]]
            if scn.sym == "bare":
                e.ret = 1
            elif e.hint:
                e.code = code(name)
                e.cbs = [(name, data)]
                e.ret = 1 if e.code == 0 else 0 if e.code < 0 else [1, 0, -1][e.code // 10 % 10]
            else:
                e.ret = 1
    return out


def died(run):
    if run.ended and not any(c.sig for c in run.calls):
        return []
    for c in run.calls:
        if c.sig:
            return ["%s ended the process (signal %d%s)" % (c.name, c.sig, ", it does not finish" if c.sig == 14 else "")]
    return ["the process ended"]


def cbs(call, names=None):
    skip = ("builtin", "builtin_status", "do", "version")
    return [(e.f["name"], e.data) for e in call.ev if e.kind == "cb" and (e.f["name"] in names if names else e.f["name"] not in skip)]


def pairs(scn, run):
    ex = simulate(scn)
    if len(run.calls) != len(ex):
        return []
    return list(zip(ex, run.calls))


def text(call, level=None):
    return b"".join(unhx(e.f["text"]) for e in call.ev if e.kind == "printf" and (level is None or int(e.f["level"]) == level) and e.ret >= 0)


def match_cbs(exp, got):
    """got has the expected names and data (None: any)"""
    return [g[0] for g in got] == [x[0] for x in exp] and all(x[1] is None or x[1] == g[1] for x, g in zip(exp, got))


def show_cbs(l):
    return "[" + ", ".join("%s %r" % (a, (b or b"")[:60]) if a != "open" else a for a, b in l) + "]"


# ------------------------------------------------------------- checkers
def C15(scn, run, env):
    o = died(run)
    for e, c in pairs(scn, run):
        if e.code < 0 and c.ret != e.ret:
            o.append("%s returned %s after a panic, not %s" % (e.name, c.ret, e.ret))
        elif e.kind in ("notopen", "badenv") and e.ret != "void" and c.ret != e.ret and e.name != "show_version":
            o.append("%s without an open plugin returned %s" % (e.name, c.ret))
    return o


def C16(scn, run, env):
    o = died(run)
    for e, c in pairs(scn, run):
        if e.name == "show_version" or e.ret == "void":
            continue
        if e.code < 0:
            continue
        if (c.ret == 1) != (e.ret == 1) or c.ret != e.ret:
            o.append("%s returned %s, not %s" % (e.name, c.ret, e.ret))
        for n, d in cbs(c, ("builtin_status",)):
            if d != b"-1 0":
                o.append("a built-in error chooses %r, not -1 and 0" % d)
        if e.code > 0 and printable(scn):
            t = (ERRTXT % (0, (e.code - 100000) // 100)).encode()
            if t not in text(c, ERR):
                o.append("the error %r of %s was not printed on the error channel" % (t, e.name))
        if e.kind == "badenv" and printable(scn) and len(text(c, ERR).strip()) < 10:
            o.append("the error of open was not printed on the error channel")
    return o


def printable(scn):
    return str(scn.get("printf", 1)) != "0" and int(scn.get("printf_fail", -1)) < 0


def dumped(call):
    for n, d in cbs(call, ("open",)):
        if d == b"bare":
            return None
        return dict((l.split(" ", 1) + [""])[:2] for l in d.decode(errors="replace").split("\n") if l)
    return None


# plugins without a version text of their own
OWN_VERSION = {"bare": rb"bare I/O plugin version 7\.8-%s\n", "honours": rb"honours I/O plugin version \S+\n"}


def C17(scn, run, env):
    o = died(run)
    for e, c in pairs(scn, run):
        got = cbs(c)
        if e.name in ("open", "close") or e.kind == "notopen":
            if not match_cbs(e.cbs, got):
                o.append("%s (%s): callbacks %s, not %s" % (e.name, e.kind, show_cbs(got), show_cbs(e.cbs)))
        elif any(g[0] in ("open", "close", "drop") for g in got):
            o.append("%s: callbacks %s" % (e.name, show_cbs(got)))
        elif e.code == 0 and e.hint and e.cbs and not got:
            o.append("%s after a successful open did not reach the plugin" % e.name)
        if e.kind == "version" and scn.sym == "ignores" and e.env:
            v = [d.split(b" ")[0] for n, d in cbs(c, ("version",))]
            if v != [b"true" if e.verbose else b"false"]:
                o.append("show_version(%s) reached the plugin as %s" % ("verbose" if e.verbose else "not verbose", v))
        if e.kind == "version" and scn.sym in OWN_VERSION and e.env and printable(scn) and not re.fullmatch(OWN_VERSION[scn.sym], text(c, INFO)):
            o.append("show_version of a plugin that leaves it out printed %r" % text(c, INFO)[:80])
        if e.name == "open" and e.kind == "nocommand" and c.ret != 1:
            o.append("open without a command returned %s" % c.ret)
        if e.kind == "notopen" and e.ret == 0 and c.ret != 0:
            o.append("%s returned %s without an open plugin" % (e.name, c.ret))
        if e.name == "open" and e.kind == "badenv" and c.ret == 1:
            o.append("open returned 1 for an unusable environment")
        if e.name == "open" and e.kind == "open":
            d = dumped(c)
            if d and (unhx(d["user_info.host"]) != e.env.u["host"].encode() or d["user_info.uid"] != str(e.env.u["uid"])):
                o.append("the plugin was opened with another session's environment")
    return o


def C18(scn, run, env):
    o = died(run)
    for e, c in pairs(scn, run):
        if e.kind != "opened" or e.name == "close":
            continue
        got = cbs(c)
        if not match_cbs(e.cbs, got):
            o.append("%s: the plugin received %s, not %s" % (e.name, show_cbs(got), show_cbs(e.cbs)))
        if not e.hint and c.ret != 1:
            o.append("%s: data the plugin is not given was answered with %s" % (e.name, c.ret))
        if scn.sym == "bare" and c.ret != 1:
            o.append("%s, which the plugin leaves out, was answered with %s" % (e.name, c.ret))
    return o


def C19(scn, run, env):
    o = died(run)
    for e, c in pairs(scn, run):
        if e.name != "open" or e.kind not in ("open", "badenv"):
            continue
        v = "%d.%d" % (e.env.major, e.env.minor)
        if e.env.error == "version":
            if c.ret != -1:
                o.append("open returned %s for API version %s" % (c.ret, v))
            if cbs(c):
                o.append("the plugin was opened for API version %s" % v)
            if printable(scn):
                t = text(c, ERR).decode(errors="replace")
                if not re.search(r"(?<![0-9.])%s(?![0-9])" % re.escape(v), t) or not re.search(r"(?<![0-9.])1\.9(?![0-9])", t):
                    o.append("the refusal of API version %s says %r" % (v, t))
        elif e.env.error is None and e.code == 0:
            if c.ret != 1 or not cbs(c):
                o.append("open returned %s for API version %s" % (c.ret, v))
            d = dumped(c)
            if d and d.get("api_version") != v:
                o.append("version word %#x shows as %s, not %s" % (e.env.version, d.get("api_version"), v))
    return o


def some(v, f=lambda x: x):
    return "none" if v is None else "some:" + f(v)


def showv(t, v):
    if v is None:
        return "none"
    if t == "bool":
        return "true" if v else "false"
    if t in model.INT or t == "octal":
        return str(v)
    if t in ("string", "path"):
        return hx(v.encode())
    if t == "net":
        return "%s/%s" % v
    if t.startswith("v_"):
        return "[" + ",".join(showv(t[2:], x) for x in v) + "]"
    if t.startswith("hs_"):
        return "{" + ",".join(sorted(showv(t[3:], x) for x in v)) + "}"
    raise KeyError(t)


# fields that are Option in the records
OPTIONAL = {"settings": {f for f, k, t, d in model.SETTINGS if d is None},
            "user_info": {f for f, k, t, d in model.USER if d is None},
            "command_info": {f for f, k, t, d in model.COMMAND if d is None}}


def expected_fields(env):
    o = {}
    for rec, spec, val in (("settings", model.SETTINGS, env.s), ("user_info", model.USER, env.u), ("command_info", model.COMMAND, env.c)):
        for f, k, t, d in spec:
            v = val[f]
            o[rec + "." + f] = some(v, lambda x: showv(t, x)) if d is None else showv(t, v)
    for f in ("runas_gid", "runas_uid", "runas_egid", "runas_euid"):
        o["command_info." + f] = str(env.c[f])
    o["command_info.command"] = hx(env.c["command"])
    o["command_info.cwd"] = some(env.c["cwd"], hx)
    return o


def normnet(s):
    """addresses in a canonical form, so that their spelling does not matter"""
    def one(m):
        try:
            return str(ipaddress.ip_address(m.group(0)))
        except ValueError:
            return m.group(0)
    return re.sub(r"[0-9a-fA-F:.]+", one, s)


def opens(scn, run):
    return [(e, c) for e, c in pairs(scn, run) if e.name == "open"]


def C22(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        if e.env.error == "version":
            continue
        if e.env.error:
            if c.ret != -1:
                o.append("open returned %s although %s is missing or unusable" % (c.ret, e.env.error))
            if cbs(c):
                o.append("the plugin was opened although %s is missing or unusable" % e.env.error)
            continue
        if e.kind == "nocommand":
            if cbs(c):
                o.append("the plugin was opened without a command")
            continue
        d = dumped(c)
        if d is None:
            o.append("open with every required field did not reach the plugin (returned %s)" % c.ret)
            continue
        for k, v in expected_fields(e.env).items():
            g = d.get(k)
            if g != v and not (k == "settings.network_addrs" and g and normnet(g) == normnet(v)):
                o.append("%s is %s, not %s" % (k, g, v))
    return o


def C23(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        d = dumped(c)
        if not d or e.env.error:
            continue
        if unhx(d["invocation"]) != e.env.invocation():
            o.append("the invocation is %r, not %r" % (unhx(d["invocation"]), e.env.invocation()))
        fl = [unhx(x) for x in d["flags"].split(",") if x]
        if fl != e.env.flags():
            o.append("the flags are %r, not %r" % (fl, e.env.flags()))
    return o


def C24(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        d = dumped(c)
        if not d or e.env.error:
            continue
        want = "{" + ",".join(sorted(map(str, e.env.runas_gids()))) + "}"
        if d["runas_gids"] != want:
            o.append("the run-as groups are %s, not %s" % (d["runas_gids"], want))
        f = expected_fields(e.env)
        if d["runas_gids_again"] != "true" or d["runas_groups_after"] != f["command_info.runas_groups"] or d["groups_after"] != f["user_info.groups"]:
            o.append("computing the run-as groups changes the environment")
    return o


def results(call):
    return [d.decode(errors="replace") for n, d in cbs(call, ("do",))]


def doops(env):
    """the operations asked for, in order"""
    o, i = [], 0
    while b"do%d" % i in env.opts:
        o.append(env.opts[b"do%d" % i].decode().split(":"))
        i += 1
    return o


def C20(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        if e.env.error or e.ret != 1 or e.kind != "open":
            continue
        r, m = results(c), e.env.raw["env"]
        w = doops(e.env)
        if len(r) != len(w):
            o.append("looking options up did not complete")
            continue
        for op, got in zip(w, r):
            if op[0] == "bytes":
                v = m.get(unhx(op[2]))
                want = some(v, hx)
            elif op[0] == "str":
                v = m.get(unhx(op[2]))
                if v is not None and model.utf8(v) is None:
                    v = None
                want = some(v, hx)
            else:
                continue
            if got != want:
                o.append("option %r is %s, not %s" % (unhx(op[2]), got, want))
    return o


def C21(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        if e.env.error or e.ret != 1 or e.kind != "open":
            continue
        r, m = results(c), e.env.raw["env"]
        w = doops(e.env)
        if len(r) != len(w):
            o.append("reading an option as a type did not complete (open returned %s)" % c.ret)
            continue
        for op, got in zip(w, r):
            if op[0] != "get":
                continue
            key = unhx(op[2]).decode()
            try:
                v = model.get(m, key, op[1])
                want = "ok " + showv(op[1], v)
            except model.Missing:
                want = "missing " + hx(key)
            except model.Invalid as x:
                want = "invalid %s %s" % (hx(key), hx(x.args[0][1]))
            if op[1] == "hs_path" and want.startswith("ok") and got.startswith("ok"):
                f = lambda t: {str(model.comps(unhx(x))) for x in t[4:-1].split(",")}     # equal paths may differ in spelling
                if f(got) == f(want):
                    continue
            if got != want and not ("net" in op[1] and want.startswith("ok") and got.startswith("ok") and normnet(got) == normnet(want)):
                o.append("option %r as %s is %s, not %s" % (m.get(key.encode()), op[1], got, want))
    return o


def C25(scn, run, env):
    o = died(run)
    for e, c in opens(scn, run):
        if e.env.error or e.kind != "open" or e.ret != 1:
            continue
        w, r = doops(e.env), results(c)
        if len(r) != len(w):
            o.append("printing did not complete (open returned %s)" % c.ret)
            continue
        # printf events grouped by operation
        groups, cur = [], []
        for ev in c.ev:
            if ev.kind == "cb" and ev.f["name"] == "open":
                cur = []
            elif ev.kind == "printf":
                cur.append(ev)
            elif ev.kind == "cb" and ev.f["name"] == "do":
                groups.append(cur)
                cur = []
        name = scn.sym.encode()
        for op, got, g in zip(w, r, groups):
            if op[0] not in ("print", "line", "fmt", "write", "flush"):
                continue
            lvl = ERR if op[1] == "err" else INFO
            t = unhx(op[2]) if len(op) > 2 else b""
            if op[0] == "line":
                t = name + b": " + t + b"\n"
            if op[0] == "fmt":
                t = b"<" + t + b">"
            if any(int(ev.f["odd"]) for ev in g):
                o.append("text %r is used as a format string" % t)
                continue
            shown = b"".join(unhx(ev.f["text"]) for ev in g if ev.ret >= 0)
            failed = any(ev.ret < 0 for ev in g)
            if any(int(ev.f["level"]) != lvl for ev in g):
                o.append("text for channel %d goes to %s" % (lvl, [ev.f["level"] for ev in g]))
            if op[0] == "flush":
                continue
            nopf = str(scn.get("printf", 1)) == "0"
            if nopf or failed or b"\0" in t:
                if got.startswith("ok") and (t or op[0] != "print"):
                    o.append("printing %r is reported as %s (%s)" % (t, got, "no message function" if nopf else "message function failed" if failed else "NUL in the text"))
                if b"\0" in (unhx(op[2]) if len(op) > 2 else b"") and not nopf and not failed and op[0] in ("print", "write") and shown:
                    o.append("text with NUL %r is cut to %r" % (t, shown))
            else:
                if not got.startswith("ok"):
                    o.append("printing %r is reported as %s" % (t, got))
                elif op[0] == "write":
                    n = int(got.split()[1])
                    if n > len(t) or shown != t[:n]:
                        o.append("write of %r says %d bytes, %r appeared" % (t, n, shown))
                elif shown != t:
                    o.append("%r appeared as %r" % (t, shown))
    return o


def chain(texts, name):
    return b"\n" + b"".join(name + b": " + t + b"\n" for t in texts)


def C26(scn, run, env):
    o = died(run)
    if not printable(scn):
        return o
    name = scn.sym.encode()
    for e, c in pairs(scn, run):
        if e.code > 0 and e.name not in ("close", "show_version"):
            d = (e.code - 100000) // 100
            want = [(ERRTXT % (i, d)).encode() for i in range(d + 1)]
            got = text(c, ERR)
            if lines(got) != [name + b": " + t for t in want]:
                o.append("%s reports %r, not the causes %r" % (e.name, got, want))
        if e.name == "open" and e.kind == "open" and e.ret == 1:
            w, r = doops(e.env), results(c)
            groups, cur = [], b""
            for ev in c.ev:
                if ev.kind == "printf" and ev.ret >= 0:
                    cur += unhx(ev.f["text"])
                elif ev.kind == "cb" and ev.f["name"] == "open":
                    cur = b""
                elif ev.kind == "cb" and ev.f["name"] == "do":
                    groups.append(cur)
                    cur = b""
            if len(r) != len(w):
                o.append("reporting an error did not complete")
                continue
            for op, got, g in zip(w, r, groups):
                if op[0] != "error":
                    continue
                t = [unhx(x) for x in op[3].split(",")] if len(op) > 3 else None
                want = [name + b": " + (t[i % len(t)] if t else b"c%d" % i) for i in range(int(op[2]) + 1)]
                if lines(g) != want or got != "ok":
                    o.append("an error with %s causes is reported as %r (%s)" % (op[2], g[:300], got))
    return o


def lines(b):
    return [l for l in b.split(b"\n") if l]


# ----------------------------------------------------------- generators
def g_codes():
    """results, errors and panics of every callback"""
    o = []
    opencodes = [0, -1, -2, -3, -4, -5, -6, -7] + [ecode(d, 1, k) for d in (0, 1, 3) for k in range(4)]
    for sym in ("honours", "ignores", "bare"):
        for c in opencodes:
            s = base(sym)
            s.cbs = [("open", 1, c)]
            s.calls = [("open",), ("log_ttyout", b"x"), ("winsize", 1, 2), ("show_version", 1), ("close", 0, 0)]
            if sym == "bare":
                if c:
                    continue
            o.append(s)
    logcodes = [0, -1, -2, -3, -4, -5, -6, -7] + [ecode(d, k, 2) for d in (0, 1, 2) for k in range(3)]
    for sym in ("honours", "ignores"):
        for st in STREAMS:
            for c in logcodes:
                s = base(sym)
                s.cbs = [("log_" + st, 1, c)]
                s.calls = [("open",), ("log_" + st, b"one"), ("log_" + st, b"two"), ("close", 3, 4)]
                o.append(s)
        for c in logcodes:
            s = base(sym)
            s.cbs = [("winsize", 1, c)]
            s.calls = [("open",), ("winsize", 24, 80), ("winsize", 1, 2**32 - 1), ("log_stdout", b"x"), ("close", 0, 0)]
            o.append(s)
        for c in (-1, -2, -3, -4, -7, ecode()):
            s = base(sym)
            s.cbs = [("close", 1, c)]
            s.calls = [("open",), ("close", 1, 2), ("log_stdout", b"x"), ("close", 0, 0)]
            o.append(s)
            s = base("ignores")
            s.cbs = [("version", 0, c)]
            s.calls = [("show_version", 1), ("open",), ("show_version", 0), ("show_version", 1), ("log_stdin", b"q"), ("close", 0, 0), ("show_version", 0)]
            o.append(s)
    # without a message function, or with a failing one
    for k, v in (("printf", 0), ("printf_fail", 0), ("printf_fail", 1), ("printf_fail", 2)):
        for c in (0, -1, ecode(1, 0, 3), ecode(0, 2, 1)):
            s = base()
            s.set(k, v)
            s.cbs = [("open", 1, c), ("log_stdout", 1, c)]
            s.calls = [("open",), ("log_stdout", b"x"), ("log_stdout", b"y"), ("show_version", 1), ("close", 0, 0)]
            o.append(s)
            t = base()
            t.set(k, v)
            t.cbs = [("log_stdout", 1, c), ("winsize", 1, c)]
            t.calls = [("open",), ("log_stdout", b"x"), ("winsize", 1, 1), ("log_stdout", b"y"), ("close", 0, 0)]
            o.append(t)
        s = base()
        s.set(k, v)
        setkv(s.arr["settings"], progname=None)
        o.append(s)
    # every built-in error
    for key in ("plugin_dir", "plugin_path", "progname"):
        s = base()
        setkv(s.arr["settings"], **{key: None})
        s.calls = [("open",), ("log_stdout", b"x"), ("close", 0, 0)]
        o.append(s)
    for key, v in (("uid", "x"), ("groups", "1,,2"), ("pid", ""), ("cwd", None), ("uid", "%s%n"), ("gid", "\u00e9")):
        s = base("ignores")
        setkv(s.arr["user_info"], **{key: v})
        o.append(s)
    s = base()
    s.set("version", 1 << 16 | 8)
    o.append(s)
    return o


def g_hints():
    o = []
    for sym in ("honours", "ignores"):
        for m in range(32):
            s = base(sym)
            setkv(s.arr["command_info"], **{"iolog_" + st: ("true" if m >> i & 1 else "false") for i, st in enumerate(STREAMS)})
            s.calls = [("open",)] + [("log_" + st, b"data for " + st.encode()) for st in STREAMS] + [("winsize", 7, 9)] + \
                      [("log_" + st, b"") for st in STREAMS] + [("close", 0, 0)]
            o.append(s)
        for st in STREAMS:                 # absent and unusable hints
            for v in (None, "yes", "", "TRUE", "1", "false ", b"\xff"):
                s = base(sym)
                setkv(s.arr["command_info"], **{"iolog_" + st: v})
                s.calls = [("open",)] + [("log_" + x, b"d") for x in STREAMS] + [("close", 0, 0)]
                o.append(s)
        for st in STREAMS:
            for d in (b"\0", b"a\0b", b"\xff" * 17, bytes(range(256)), b"x" * 5000, b"%s%n\n", b"\n", b"\r\n", b" ", b"y" * 65537, b"z" * 200000):
                s = base(sym)
                s.calls = [("open",), ("log_" + st, d), ("log_" + st, d[:1]), ("close", 0, 0)]
                o.append(s)
        for a, b in ((0, 0), (1, 2), (2**32 - 1, 2**31), (65536, 1), (80, 24)):
            s = base(sym)
            setkv(s.arr["command_info"], **{"iolog_" + st: "false" for st in STREAMS})
            s.calls = [("open",), ("winsize", a, b), ("close", 0, 0)]
            o.append(s)
    s = base("bare")
    s.calls = [("open",)] + [("log_" + st, b"z") for st in STREAMS] + [("winsize", 1, 1), ("show_version", 1), ("close", 0, 0)]
    o.append(s)
    return o


def session_arrays(r, k):
    """arrays of another session"""
    u = kv(cwd="/home/u%d" % k, egid=0, euid=0, gid=1000 + k, groups="%d" % (1000 + k), host="host%d" % k, pgid=40, pid=100 + k, ppid=42,
           uid=2000 + k, user="u%d" % k)
    return ("arr", "user_info", u)


def g_life(seed=1, n=600):
    o = []
    log = ("log_stdout", b"x")
    for c in (None, "", b"/bin/ls", b"/tmp/\xff\xfe", b"\xff", "/", ".", "..", "ls", " ", "/bin/", "//", "0", "sudoedit", "-"):
        for calls in ([("open",)], [("open",), log, ("close", 0, 0)], [("open",), ("show_version", 1), ("close", 5, 6)],
                      [("open",), ("close", 1, 0), session_arrays(None, 1), ("open",), log, ("close", 0, 2)]):
            s = base()
            setkv(s.arr["command_info"], command=c)
            s.calls = list(calls)
            o.append(s)
            s = base()                  # `sudo -V`: no command, so no argument vector either
            setkv(s.arr["command_info"], command=c)
            s.arr["argv"] = None
            s.calls = [x for x in calls if x[0] != "arr"]
            o.append(s)
    for st in STREAMS:
        l = ("log_" + st, b"early")
        for code in (0, -1, ecode(0, 1, 2), ecode(0, 0, 0), ecode(0, 0, 1), ecode(0, 1, 3)):
            for sym in ("honours", "ignores"):
                s = base(sym)
                s.cbs = [("open", 1, code)]
                s.calls = [l, ("winsize", 1, 1), ("open",), l, ("winsize", 2, 2), ("close", 7, 9), l, ("winsize", 3, 3), ("close", 1, 1), l]
                o.append(s)
    for a, b in ((0, 0), (1, 0), (255, 0), (-1, 5), (2**31 - 1, -2**31), (0, 2), (9 << 8, 0)):
        s = base()
        s.calls = [("open",), log, ("close", a, b)]
        o.append(s)
    for f in range(4):                  # sessions one after another
        s = base()
        s.calls = [("open",), log, ("close", 0, 0), session_arrays(None, 1), ("open",), log, ("close", 1, 1), session_arrays(None, 2), ("open",), ("close", 2, 2)]
        if f == 1:
            s.cbs = [("open", 1, ecode())]
        if f == 2:
            s.cbs = [("open", 2, ecode())]
        if f == 3:
            s.cbs = [("open", 2, -1)]
        o.append(s)
    s = base()
    setkv(s.arr["user_info"], uid=None)
    s.calls = [("open",), log, session_arrays(None, 1), ("open",), log, ("close", 0, 0)]
    o.append(s)
    r = random.Random("life%d" % seed)
    for i in range(n):
        s = base(r.choice(["honours", "ignores"]))
        if r.random() < .15:
            setkv(s.arr["command_info"], command=r.choice([None, ""]))
        if r.random() < .1:
            setkv(s.arr["user_info"], pid=None)
        if r.random() < .1:
            s.set("version", 1 << 16 | 7)
        for st in STREAMS:
            if r.random() < .2:
                setkv(s.arr["command_info"], **{"iolog_" + st: "false"})
        calls, opened, k = [], False, 0
        for _ in range(r.randrange(2, 14)):
            c = weighted(r, (3, "open"), (2, "close"), (6, "log"), (1, "winsize"), (.5, "show_version"))
            if c == "open":
                if opened:
                    continue
                opened = True
                if k:
                    calls.append(session_arrays(r, k))
                k += 1
                calls.append(("open",))
            elif c == "close":
                opened = False
                calls.append(("close", r.randrange(-2, 256), r.randrange(3)))
            elif c == "log":
                calls.append(("log_" + r.choice(STREAMS), rbytes(r, 6)))
            elif c == "winsize":
                calls.append(("winsize", r.randrange(200), r.randrange(2**32)))
            else:
                calls.append(("show_version", r.choice((0, 0, 1, 1, 2, -1))))
        s.calls = calls
        for nm in ("open", "log_stdout", "log_ttyout", "log_stdin", "winsize", "version"):
            if r.random() < .3:
                s.cbs.append((nm, r.randrange(1, 3), r.choice([-1, -2, -3, -4, -6, -7, ecode(), ecode(1, 0, 0), ecode(0, 2, 3), ecode(2, 1, 1)])))
        o.append(s)
    return o


def g_versions(seed=1, n=400):
    r = random.Random("ver%d" % seed)
    w = set()
    for mj in (0, 1, 2, 3, 9, 255, 256, 257, 32767, 32768, 65535):
        for mn in (0, 1, 7, 8, 9, 10, 16, 17, 18, 255, 256, 257, 32768, 65535):
            w.add(mj << 16 | mn)
    w |= {r.randrange(2**32) for _ in range(n)} | {1 << 16 | r.randrange(65536) for _ in range(n // 2)}
    o = []
    for v in sorted(w):
        s = base()
        s.set("version", v)
        s.calls = [("open",), ("log_stdout", b"x"), ("close", 0, 0)]
        o.append(s)
    for v in (0, 1 << 16 | 8, 1 << 16 | 9):
        for k in (dict(pid=None), dict(uid="x")):
            s = base()
            s.set("version", v)
            setkv(s.arr["user_info"], **k)
            o.append(s)
    return o


def g_lists(seed=1, n=500):
    o = []
    fixed = [None, [], [b""], [b"="], [b"a"], [b"a="], [b"=a"], [b"a=b=c"], [b"a==b"], [b"a=1", b"a=2"], [b"a", b"a=2"], [b"a=2", b"a"],
             [b"a=1", b"b=2", b"a=3", b"b"], [b"\xff=\xfe"], [b"\xff\xfe"], [b"k=\xff\xfe=\xfd"], [b"ab=1", b"a=2", b"abc=3"], [b"A=1", b"a=2"],
             [b" a = b "], [b"a=\n"], [b"POISON=2"], [b"x" * 3000 + b"=" + b"y" * 4000], [b"a=%s"], [b"\xc3\xa9=\xc3\xa9"], [b"a;=1"], [b"a:1"],
             [b"a\x01=\x02"], [b"n%d=%d" % (i, i) for i in range(60)], [b"=", b"=x", b"==y"], [b"", b"a=1", b""]]
    r = random.Random("lists%d" % seed)
    for _ in range(n):
        al = r.choice([b"ab=", b"a=\xff", b"ab=\xc3\xa9 ,", bytes(range(1, 256)), b"=xyz%"])
        fixed.append([rbytes(r, r.choice([3, 6, 20]), al) for _ in range(r.randrange(7))])
    for l in fixed:
        s = base()
        s.arr["env"] = l
        keys = [b"POISON", b"missing", b"", b"="]
        for e in l or []:
            e = e.split(b"\0")[0]
            k = e.split(b"=")[0]
            keys += [k, e, k + b"=", k[:-1], k + b"x", e.split(b"=", 1)[-1], e.rsplit(b"=", 1)[0]]
        seen = []
        for k in keys:
            if k not in seen:
                seen.append(k)
        w = []
        for k in seen[:90]:
            w.append("bytes::" + hx(k))
            if model.utf8(k) is not None:
                w.append("str::" + hx(k))
        o.append(ops(s, *w))
    return o


TYPES = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "string", "path", "net", "v_u8", "v_i32", "v_u32", "v_i64", "v_path",
         "hs_u32", "hs_path"]
VALUES = ["", "0", "1", "-1", "-0", "+1", "+", "-", "--1", "++1", "+-1", "00", "007", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769",
          "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
          "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
          "99999999999999999999999999", " 1", "1 ", "1\n", "0x10", "1e3", "1.0", "1_0", "\u0661", "\uff11", "true", "false", "True", "TRUE", "yes", "no", "on",
          "true ", " true", "t", "1,2", "1,2,", ",1", ",", "1,,2", "1;2", "1 2", "1, 2", "0,4294967295", "3,2,1,3", "a,b", "/a,/b", "/a", "a=b",
          "127.0.0.1/255.0.0.0", "127.0.0.1", "127.0.0.1/", "/255.0.0.0", "/", "127.0.0.1/8", "1.2.3.4/255.255.255.0 5.6.7.8/255.0.0.0", "1.2.3.4/1.2.3.4/1",
          "fe80::1/ffff:ffff::", "::1/::", "::/::", "fe80::1%eth0/ffff::", "1.2.3.4/ffff::", " 1.2.3.4/1.1.1.1", "1.2.3.4/1.1.1.1 ", "1.2.3.4/1.1.1.1  5.6.7.8/1.1.1.1",
          "01.2.3.4/1.1.1.1", "256.1.1.1/1.1.1.1", "::ffff:1.2.3.4/ffff::", "1.2.3/1.1.1.1", "\u00e9", "\u00e9,\u00e9", "%s", "-1,5", "300,1", "1,300", "a" * 300, "1" * 300]


# texts that code likes to tidy up
STRANGE = ["\ufeffx", "x\ufeff", "\u00a0x\u00a0", "\u2028", "\u200bx", "\u0085", "x\u3000", "e\u0301", "\u212a", "\u00df", "\U0001f512", "\ufffd",
           "~", "~/x", "~bob/x", "$HOME", "${HOME}/x", "`id`", "$(id)", "/a/", "/a//", "//a", "/a//b", "/a/./b", "./a", "a/.", "a/..", "/a/../b", ".", "..", "/",
           "C:\\a", "a\\b", "a\\", "\\n", "\\x41", "%41", "+", "a+b", "&amp;", "'q'", '"q"', '"', "a;b", "a#b", "#", "a|b", "a&b", "*", "?", "[a]", "{a,b}", "!x", "^x",
           "\rx", "x\r", "x\r\n", "x\n", "\nx", "\tx", "x\t", "\x0bx", "\x0cx", "\x7f", "\x01", "\x1b[31m", "\x08", " x", "x ", "  ", "a  b", "x=", "=x", "-", "--", "-x",
           "null", "NULL", "none", "nil", "(null)", "(none)", "unknown", "default", "root", "0", "00", "-0", "1e3", "0x10", "0b1", "0o17", "1k", "1_000", "1,000", "true", "TRUE", "A", "aA"]


def g_strange_lists():
    o = []
    for i in range(0, len(STRANGE), 6):
        l = [x.encode() for x in STRANGE[i:i + 6]]
        s = base()
        s.arr["env"] = l + [b"k%d=%s" % (j, v) for j, v in enumerate(l)] + [v + b"=v%d" % j for j, v in enumerate(l) if b"=" not in v]
        w = []
        for k in [b"k%d" % j for j in range(len(l))] + l + [v.strip() for v in l] + [v.lower() for v in l] + [v + b"=" for v in l]:
            w += ["bytes::" + hx(k), "str::" + hx(k)]
        o.append(ops(s, *dict.fromkeys(w)))
    return o


def g_strange_types():
    o = []
    for i in range(0, len(STRANGE), 6):
        l = STRANGE[i:i + 6]
        s = base()
        s.arr["env"] = [("k%d=%s" % (j, v)).encode() for j, v in enumerate(l)] + [("l%d=a,%s,b" % (j, v)).encode() for j, v in enumerate(l)]
        o.append(ops(s, *["get:%s:%s" % (t, hx("%s%d" % (k, j))) for k in "kl" for j in range(len(l)) for t in TYPES]))
    return o


def g_strange_fields():
    """every text of every record as it is"""
    o = []
    texts = [(rec, key) for rec, spec in RECS for f, key, t, d in spec if t in ("string", "path")] + [("command_info", "command"), ("command_info", "cwd"), ("user_info", "cwd")]
    texts = list(dict.fromkeys(texts))
    for i, v in enumerate(STRANGE + [""]):
        s = base()
        for j, (rec, key) in enumerate(texts):
            setkv(s.arr[rec], **{key: v + str(j) if i % 2 else v})
        o.append(s)
        s = base()
        for j, (rec, key) in enumerate(texts):
            setkv(s.arr[rec], **{key: STRANGE[(i + 7 * j) % len(STRANGE)]})
        s.arr["argv"] = [v.encode(), b"a", v.encode() + b"z", (STRANGE + STRANGE)[i + 3].encode()]
        o.append(s)
    return o


def g_strange_print():
    o = []
    for i in range(0, len(STRANGE), 4):
        w = []
        for t in STRANGE[i:i + 4]:
            for ch in ("out", "err"):
                w += ["%s:%s:%s" % (k, ch, hx(t)) for k in ("print", "line", "write", "fmt")]
        o.append(ops(base("honours" if i % 8 else "ignores"), *w))
    return o


def g_strange_groups():
    """group numbers that mean something elsewhere"""
    odd = [1, 2, 4, 65533, 65534, 65535, 65536, 99, 100, 499, 500, 999, 1000, 32767, 32768, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 0]
    o = []
    for g in odd:
        for runas in (str(g), "%d,0,%d,5" % (g, g), None):
            for egid in (g, 5, None):
                s = base()
                setkv(s.arr["user_info"], groups="%d,3,%d" % (g, (g + 1) % 2**32), gid=g)
                setkv(s.arr["command_info"], runas_groups=runas, runas_gid=7, runas_egid=egid, preserve_groups=None if runas else "true")
                o.append(s)
    return o


def g_types(seed=1, n=250):
    o = []
    r = random.Random("types%d" % seed)
    vals = list(VALUES)
    for _ in range(n):
        al = r.choice(["0123456789", "0123456789,-+", "0123456789./ ", "0123456789abcdef:/. ", "truefals", "a,/ "])
        vals.append("".join(r.choice(al) for _ in range(r.randrange(1, 22))))
        b = r.choice([7, 8, 15, 16, 31, 32, 63, 64])
        vals.append(str(r.choice([1, -1]) * (2**b + r.randrange(-2, 3))))
        vals.append(",".join(str(r.choice([0, 5, 127, 255, 65536, 2**32 - 1, 2**32])) for _ in range(r.randrange(1, 6))))
    for i in range(0, len(vals), 8):
        s = base()
        s.arr["env"] = [("k%d=" % j).encode() + v.encode() for j, v in enumerate(vals[i:i + 8])]
        w = []
        for j in range(len(vals[i:i + 8])):
            w += ["get:%s:%s" % (t, hx("k%d" % j)) for t in TYPES]
        o.append(ops(s, *w))
    s = base()
    s.arr["env"] = [b"u=\xff", b"m=1,\xff", b"true", b"\xff=1"]
    o.append(ops(s, *["get:%s:%s" % (t, hx(k)) for k in ("u", "m", "none", "", "true") for t in TYPES]))
    return o


def badvalues(t):
    return {"octal": ["8", "0o22", "", "rwx", "-1", "40000000000", b"\xff", "19", " 2"], "bool": ["yes", "", "TRUE", "1", b"\xff"], "string": [b"\xff", ""], "path": [b"a\xff", ""], "v_net": ["127.0.0.1", "", "x/y"]}.get(
        t, ["x", "", "-1" if t.startswith("u") or t.endswith("u32") else "1.5", b"\xff", "99999999999999999999", "1,", " 1", "+7", "0x1"])


def goodvalues(t, r):
    if t == "bool":
        return ["true", "false"]
    if t in ("string", "path"):
        return ["v%d" % r.randrange(1000), "/x y/%s", "\u00e9=1,2"]
    if t == "octal":
        return ["0022", "777", "0", "37777777777", "10", "+22"]
    if t == "v_net":
        return ["10.0.0.1/255.0.0.0", "10.0.0.1/255.0.0.0 fe80::1/ffff::"]
    if t.startswith("v_"):
        return ["1", "5,6,7", "0,0"]
    lo, hi = model.INT[t]
    return ["0", str(hi), str(r.randrange(0, 100)), "+12"] + ([str(lo), "-3"] if lo < 0 else [])


RECS = (("settings", model.SETTINGS), ("user_info", model.USER),
        ("command_info", model.COMMAND + [(f, f, "u32", 0) for f in ("runas_gid", "runas_uid", "runas_egid", "runas_euid")]
         + [("cwd", "cwd", "path", None)]))


def g_fields(seed=1, n=500):
    o = []
    r = random.Random("fields%d" % seed)
    for rec, spec in RECS:
        for f, key, t, d in spec:
            for v in [None] + goodvalues(t, r) + badvalues(t):
                s = base()
                s.set("euid", 11).set("egid", 22)
                setkv(s.arr[rec], **{key: v})
                o.append(s)
            # names that are almost the option's
            near = {key + "s", key[:-1], key.upper(), key.replace("_", "-"), key.replace("_", ""), "x" + key, key + "_", key.split("_")[-1], key.split("_")[0],
                    "user_" + key, key.replace("runas_", ""), key.replace("iolog_", ""), "iolog_" + key, "runas_" + key, {"cols": "columns", "lines": "rows", "pid": "process_id",
                    "cwd": "directory", "host": "hostname", "user": "username", "tty": "terminal", "command": "cmd"}.get(key, "z")} - {k for _, _s in RECS for _, k, _, _ in _s} - {""}
            for k in sorted(near):
                s = base()
                s.set("euid", 11).set("egid", 22)
                setkv(s.arr[rec], **{key: None, k: goodvalues(t, r)[0]})
                o.append(s)
                if k != key.upper():
                    continue
                s = base()
                setkv(s.arr[rec], **{key: goodvalues(t, r)[-1], k: goodvalues(t, r)[0]})
                o.append(s)
            # the names of the field and of the option may differ
            if key != f:
                s = base()
                setkv(s.arr[rec], **{f: goodvalues(t, r)[0]})
                o.append(s)
    for v in (b"/bin/\xff", b"x", b"", None, b"=", b"a=b", b"/a b", b"\xe9", b"/usr/bin/caf\xc3\xa9"):
        s = base()
        setkv(s.arr["command_info"], command=v)
        s.calls = [("open",), ("close", 0, 0)]
        o.append(s)
    for m in range(16):                 # defaults of the run-as ids
        for bad in (None, "x"):
            s = base()
            s.set("euid", 111).set("egid", 222)
            for i, f in enumerate(("runas_gid", "runas_uid", "runas_egid", "runas_euid")):
                setkv(s.arr["command_info"], **{f: 7 + i if m >> i & 1 else bad})
            o.append(s)
    for rec in ("settings", "user_info", "command_info", "env", "options"):
        for v in (None, []):
            s = base()
            s.arr[rec] = v
            o.append(s)
    for _ in range(n):
        s = base()
        s.set("euid", r.randrange(5)).set("egid", r.randrange(5))
        for rec, spec in RECS:
            for f, key, t, d in spec:
                if r.random() < .5:
                    x = r.random()
                    v = r.choice(goodvalues(t, r)) if x < .8 or (d == "req" and x < .99) else r.choice(badvalues(t) + ([None] if d != "req" else []))
                    setkv(s.arr[rec], **{key: v})
            if r.random() < .2:
                r.shuffle(s.arr[rec])
        s.arr["argv"] = [rbytes(r, 8, bytes(range(1, 256))) for _ in range(r.randrange(5))]
        o.append(s)
    return o


FLAGS = ("runas_user", "runas_group", "prompt", "login_shell", "run_shell", "set_home", "preserve_environment", "preserve_groups", "ignore_ticket",
         "noninteractive", "login_class", "selinux_role", "selinux_type", "bsd_auth_type", "closefrom")


def g_invocation(seed=1, n=500):
    o = []
    r = random.Random("inv%d" % seed)
    strs = {"runas_user", "runas_group", "prompt", "login_class", "selinux_role", "selinux_type", "bsd_auth_type"}
    extra = ("implied_shell", "sudoedit", "debug_flags", "timeout", "remote_host", "max_groups", "network_addrs")

    def val(k):
        if k in strs:
            return r.choice(["x", "two words", "", "%p", "\u00e9", "--user"])
        if k == "closefrom":
            return r.choice(["0", "3", str(2**64 - 1)])
        return "true"
    for k in FLAGS + extra:
        s = base()
        setkv(s.arr["settings"], **{k: val(k)})
        o.append(s)
        if k not in strs:
            s = base()
            setkv(s.arr["settings"], **{k: "false"})
            o.append(s)
    for p in ("sudo", "sudoedit", "/usr/bin/sudo", "sudoedit ", "", "Sudoedit"):
        for e in (None, "true", "false"):
            s = base()
            setkv(s.arr["settings"], progname=p, sudoedit=e)
            o.append(s)
    for a in (None, [], [b""], [b"", b""], [b"a"], [b"a b", b"c"], [b"\xff\xfe", b"%p"], [b"x"] * 40, [b"--", b"-u"], [b"y" * 3000], [b" "], [b"a\nb"], [b"\x1b[2J"]):
        s = base()
        s.arr["argv"] = a
        o.append(s)
    for _ in range(n):
        s = base()
        p = r.choice([.1, .5, .9])
        setkv(s.arr["settings"], **{k: val(k) for k in FLAGS + extra[:2] if r.random() < p})
        setkv(s.arr["settings"], progname=r.choice(["sudo", "sudoedit", "x"]))
        s.arr["argv"] = [rbytes(r, 6, bytes(range(1, 256))) for _ in range(r.randrange(5))]
        o.append(s)
    return o


def g_groups(seed=1, n=400):
    o = []
    r = random.Random("grp%d" % seed)
    pool = ["0", "4", "20", "1000", "4294967295", "4294967294"]
    for _ in range(n):
        s = base()
        s.set("egid", r.choice([0, 4, 33]))
        setkv(s.arr["user_info"], groups=",".join(r.choice(pool) for _ in range(r.randrange(1, 6))), gid=r.choice(pool), egid=r.choice(pool))
        setkv(s.arr["command_info"], runas_groups=weighted(r, (4, ",".join(r.choice(pool) for _ in range(r.randrange(1, 6)))), (2, None), (1, ""), (1, "x"), (1, "0,,4")),
              runas_gid=r.choice(pool + [None]), runas_egid=weighted(r, (2, None), (2, r.choice(pool)), (.5, "x")), preserve_groups=r.choice([None, "true", "false"]))
        o.append(s)
    s = base()
    setkv(s.arr["command_info"], runas_groups=",".join(map(str, range(500))))
    o.append(s)
    return o


def g_print(seed=1, n=200):
    o = []
    r = random.Random("print%d" % seed)
    texts = [b"", b"plain", b"%", b"%%", b"%s", b"%n", b"100%", b"%d %s %n %x", b"a\nb", b"\xff\xfe", b"\x01\x1b[0m", b"\n", b"a\0b", b"\0", b"x\0", b"%\0", b"x" * 3000,
             b"%*d", b"%1$s", b"%.*s", b"\xc3\xa9", b"tail%"]
    for _ in range(n):
        texts.append(rbytes(r, 12, r.choice([b"%snd$*0 ", b"ab\n%", bytes(range(256))])))
    for pf in (None, ("printf", 0), ("printf_fail", 0), ("printf_fail", 1), ("printf_fail", 2), ("printf_fail", 3)):
        for i in range(0, len(texts) if pf is None else 22, 4):
            s = base("honours" if i % 8 else "ignores")
            if pf:
                s.set(*pf)
            w = []
            for t in texts[i:i + 4]:
                for ch in ("out", "err"):
                    w += ["print:%s:%s" % (ch, hx(t)), "line:%s:%s" % (ch, hx(t)), "write:%s:%s" % (ch, hx(t))]
                    if b"\0" not in t and model.utf8(t) is not None:
                        w.append("fmt:%s:%s" % (ch, hx(t)))
                w.append("flush:out:-")
            o.append(ops(s, *w))
    return o


def g_errors():
    o = []
    for sym in ("honours", "ignores"):
        for d in list(range(0, 9)) + [20, 60]:
            o.append(ops(base(sym), "error:err:%d" % d, "error:out:%d" % d, "print:err:61"))
            for t in ("-", "61,-,62", "-,61", "61", "61,61,62", "61,62", "636f6e6e656374,636f6e6e656374206661696c6564", "256e2573", "2e"):
                o.append(ops(base(sym), "error:err:%d:%s" % (d, t), "error:out:%d:%s" % (d, t)))
            s = base(sym)
            s.cbs = [("open", 1, ecode(d))]
            s.calls = [("open",), ("close", 0, 0)]
            o.append(s)
            for st in STREAMS:
                s = base(sym)
                s.cbs = [("log_" + st, 1, ecode(d))]
                s.calls = [("open",), ("log_" + st, b"x"), ("close", 0, 0)]
                o.append(s)
            s = base(sym)
            s.cbs = [("winsize", 1, ecode(d))]
            s.calls = [("open",), ("winsize", 1, 1), ("close", 0, 0)]
            o.append(s)
    return o


def g_long_lists():
    """long lists, long entries, names given again and again"""
    o = []

    def case(l, keys):
        s = base()
        s.arr["env"] = l
        w = []
        for k in keys:
            w.append("bytes::" + hx(k))
            if model.utf8(k) is not None:
                w.append("str::" + hx(k))
        o.append(ops(s, *w))
    for n in (61, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 3000):
        l = [b"n%d=%d" % (i, i) for i in range(n)]
        near = [b"n%d" % i for i in (0, 1, 62, 63, 64, 127, 128, 255, 256, 511, 512, n - 2, n - 1, n)] + [b"POISON"]
        case(l, near)
        case([b"dup=%d" % i for i in range(n)] , [b"dup", b"POISON"])
        case(l + [b"n0=again", b"n%d" % (n - 1)], [b"n0", b"n1", b"n%d" % (n - 1), b"POISON"])
        case([b""] * n + [b"end=1"], [b"", b"end", b"POISON"])
        case([b"k" * n + b"=" + b"v" * n, b"k" * (n - 1) + b"=w", b"x=" + b"=" * n], [b"k" * n, b"k" * (n - 1), b"k" * (n + 1), b"x", b"x="])
        case([b"plain%d" % i for i in range(n)], [b"plain0", b"plain%d" % (n - 1), b"plain%d" % n])
    for n in (4095, 4096, 8192, 65535, 65536, 131072):
        case([b"k=" + b"v" * n, b"m" * n], [b"k", b"m" * 10, b"POISON"])
    return o


def g_long_types():
    o = []
    for n in (9, 16, 17, 33, 64, 65, 100, 129, 256, 300, 1025):
        vals = [",".join(map(str, range(n))), ",".join(["7"] * n), ",".join(map(str, range(n))) + ",x", ",".join(map(str, range(n))) + ",", "x," + ",".join(["1"] * n),
                "0" * n + "7", "-" + "0" * n + "5", "+" + "0" * n, "9" * n, ",".join("/p%d" % i for i in range(n)), " ".join("10.0.%d.%d/255.0.0.0" % (i // 256, i % 256) for i in range(n)),
                "true" * n, "," * n, "a" * n, "1" + "," * n]
        for i in range(0, len(vals), 5):
            s = base()
            s.arr["env"] = [("k%d=" % j).encode() + v.encode() for j, v in enumerate(vals[i:i + 5])]
            ks = ["get:%s:%s" % (t, hx("k%d" % j)) for j in range(len(vals[i:i + 5])) for t in TYPES]
            o.append(ops(s, *ks))
    return o


def g_long_fields():
    o = []
    for n in (30, 63, 64, 65, 128, 256, 257, 1000):
        for rec, spec in RECS:
            for last in (0, 1):
                s = base()
                junk = [b"zz%d=%d" % (i, i) for i in range(n)]
                r = random.Random("%s%d" % (rec, n))
                for f, key, t, d in spec:
                    setkv(s.arr[rec], **{key: r.choice(goodvalues(t, r))})
                s.arr[rec] = junk + s.arr[rec] if last else s.arr[rec] + junk
                o.append(s)
    for n in (255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000):
        for rec, spec in RECS:
            s = base()
            for f, key, t, d in spec:
                if t in ("string", "path"):
                    setkv(s.arr[rec], **{key: "/" + key[0] * n})
                if t.startswith("v_") and t != "v_net":
                    setkv(s.arr[rec], **{key: ",".join(str(i) for i in range(min(n, 2000)))})
            o.append(s)
        s = base()
        setkv(s.arr["command_info"], command=b"/" + b"\xfe" * n)
        o.append(s)
        s = base()
        s.arr["argv"] = [b"a" * n, b"\xff" * n, b"end"]
        o.append(s)
        s = base()
        s.arr["argv"] = [b"a%d" % i for i in range(min(n, 4000))]
        o.append(s)
    # the same name several times in one record: the last one counts
    for rec, spec in RECS:
        for f, key, t, d in spec:
            r = random.Random(key)
            g = goodvalues(t, r)
            s = base()
            setkv(s.arr[rec], **{key: None})
            s.arr[rec] = [("%s=%s" % (key, g[0])).encode()] + s.arr[rec] + [("%s=%s" % (key, v)).encode() for v in g[::-1]]
            o.append(s)
    return o


def g_long_groups():
    o = []
    for n in (8, 16, 17, 31, 32, 33, 64, 65, 128, 256, 1000, 3000):
        for which in ("runas", "user"):
            for gid in (0, 5, n - 1, 70000):
                s = base()
                l = ",".join(map(str, range(n)))
                setkv(s.arr["user_info"], groups=l if which == "user" else "1")
                setkv(s.arr["command_info"], runas_groups=l if which == "runas" else None, runas_gid=gid, preserve_groups="true" if which == "user" else None)
                o.append(s)
    return o


def g_long_print():
    o = []
    for n in (100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8192, 20000):
        for t in (b"x" * n, b"%s" * (n // 2), b"l\n" * (n // 2), b"y" * (n - 1) + b"\n", b"\xc3\xa9" * (n // 2), b"z" * n + b"\0", b"z" * (n // 2) + b"\0" + b"z" * (n // 2)):
            s = base("honours" if n % 2 else "ignores")
            w = []
            for ch in ("out", "err"):
                w += ["print:%s:%s" % (ch, hx(t)), "line:%s:%s" % (ch, hx(t))]
                if b"\0" not in t:
                    w.append("fmt:%s:%s" % (ch, hx(t)))
            o.append(ops(s, *w))
    # many short ones
    s = base()
    o.append(ops(s, *["%s:%s:%s" % (k, ch, hx("t%d%%" % i)) for i in range(120) for k in ("print", "line") for ch in ("out", "err")]))
    return o


def g_long_errors():
    o = []
    for d in (31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 400, 1000):
        o.append(ops(base("honours"), "error:err:%d" % d, "error:out:%d" % d))
        o.append(ops(base("honours"), "error:err:%d:61,62" % d, "error:err:%d:61" % d))
    for n in (255, 256, 1023, 1024, 4096, 10000):
        o.append(ops(base("ignores"), "error:err:2:%s,62" % ("61" * n), "error:out:0:%s" % ("25" * n)))
    return o


def g_long_life():
    """long sessions and many of them"""
    o = []
    for sym in ("honours", "ignores"):
        for n in (20, 64, 65, 128, 256, 300):
            s = base(sym)
            s.calls = [("open",)] + [("log_" + STREAMS[i % 5], b"%d" % i * (i % 4)) if i % 6 else ("winsize", i, i) for i in range(n)] + [("close", 3, 0), ("log_stdout", b"late")]
            o.append(s)
            for code in (-1, -2, ecode(), ecode(1, 0, 0), ecode(0, 2, 1)):     # one failure in the middle, and twice
                for at in (0, n // 2, n - 2):
                    st = STREAMS[at % 5]
                    s = base(sym)
                    s.calls = [("open",)] + [("log_" + st, b"%d" % i) for i in range(n)] + [("winsize", 1, 1), ("close", 0, 1)]
                    s.cbs = [("log_" + st, at + 1, code), ("log_" + st, at + 2, code)]
                    o.append(s)
        for st in STREAMS + ("winsize",):      # every call fails
            for n, code in ((300, ecode()), (40, -1), (40, ecode(1, 0, 0)), (1100, ecode(0, 2, 1))):
                s = base(sym)
                s.calls = [("open",)] + [("log_" + st, b"%d" % i) if st != "winsize" else ("winsize", i, 1) for i in range(n)] + [("close", 3, 0)]
                s.cbs = [("log_" + st if st != "winsize" else st, 0, code)]
                o.append(s)
        for n in (20, 130):                    # no session ever opens
            for code in (-1, ecode(), ecode(0, 0, 2)):
                s = base(sym)
                s.calls = [("open",), ("close", 0, 0)] * n
                s.cbs = [("open", 0, code)]
                o.append(s)
        for n in (3, 9, 17, 33, 70):          # one session after another
            s = base(sym)
            s.calls = []
            for i in range(n):
                s.calls += [session_arrays(random, i), ("open",), ("log_stdout", b"%d" % i), ("winsize", i, 1), ("close", i, 0), ("log_stderr", b"gone")]
            o.append(s)
            for code in (-1, ecode(), ecode(0, 0, 3)):
                t = base(sym)
                t.calls = list(s.calls)
                t.cbs = [("open", n // 2 + 1, code), ("log_stdout", 2, code)]
                o.append(t)
    return o


GEN = {"C15": (g_codes, g_life, g_long_life), "C16": (g_codes, g_life, g_long_life), "C17": (g_life, g_codes, g_long_life), "C18": (g_hints, g_life, g_long_life), "C19": (g_versions,),
       "C20": (g_lists, g_long_lists, g_strange_lists), "C21": (g_types, g_long_types, g_strange_types), "C22": (g_fields, g_long_fields, g_strange_fields),
       "C23": (g_invocation, g_fields, g_long_fields, g_strange_fields),
       "C24": (g_groups, g_fields, g_long_groups, g_strange_groups), "C25": (g_print, g_long_print, g_strange_print), "C26": (g_errors, g_codes, g_long_errors)}


# --------------------------------------------------- example and tables
def g_deny(seed=1):
    o = []
    calls = [[("check",)], [("open",), ("check",)], [("open",), ("check",), ("check",)], [("show_version", 1)], [("open",), ("show_version", 0), ("check",)],
             [("check",), ("open",), ("check",), ("open",), ("check",)], [("show_version", 1), ("check",), ("open",), ("show_version", 1), ("check",)]]
    for v in (0, 1, 1 << 16, 1 << 16 | 9, 1 << 16 | 15, 1 << 16 | 16, 1 << 16 | 17, 1 << 16 | 18, 2 << 16, 0xffff, 2**32 - 1, 17, 0x00010011 - 1):
        for pf in (None, ("printf", 0), ("printf_fail", 0), ("printf_fail", 1)):
            for c in calls:
                for cmd in ([b"command=/usr/bin/true"], [], [b"command=%s%n", b"runas_uid=0"]):
                    s = Scn("deny", "deny_everything")
                    s.arr.update(command_info=cmd, argv=[b"a", b"%s"], env=[b"A=%n"])
                    s.set("version", v)
                    if pf:
                        s.set(*pf)
                    s.calls = list(c)
                    o.append(s)
    return o


def C28(scn, run, env):
    o = died(run)
    v = int(scn.get("version", 0))
    opened = False
    for c in run.calls:
        if c.name == "open":
            opened = True
        if c.name == "check":
            if c.ret != 0:
                o.append("check returned %s" % c.ret)
            if c.err not in (None, "NULL") and not (opened and v >= (1 << 16 | 17)):
                o.append("the error string is set for API version %#x (opened: %s)" % (v, opened))
            if c.err not in (None, "NULL") and b"denied" not in unhx(c.err):
                o.append("the error string is %r" % unhx(c.err))
            if c.err in (None, "NULL") and opened and v >= (1 << 16 | 17) and str(scn.get("printf", 1)) != "0":
                o.append("the error string is not set for API version %#x" % v)
        for e in c.ev:
            if e.kind == "printf" and (int(e.f["odd"]) or unhx(e.f["text"]) not in CONST):
                o.append("%s prints %r" % (c.name, unhx(e.f["text"])))
    return o


CONST = (b"deny_everything: denied\n", b"Deny Everything version 1.0\n")

def g_slots():
    """every slot of every table, with data"""
    o = []
    for sym in ("honours", "ignores", "bare"):
        s = base(sym)
        s.calls = [("open",)] + [("log_" + st, b"for " + st.encode()) for st in STREAMS] + [("winsize", 3, 4), ("show_version", 1), ("close", 0, 0)]
        o.append(s)
        for st in STREAMS:
            s = base(sym)
            s.calls = [("open",), ("log_" + st, b"x"), ("close", 0, 0)]
            o.append(s)
    return o


SLOTS = tuple("log_" + x for x in STREAMS) + ("winsize", "show_version", "open", "close")


def C27(scn, run, env):
    """a slot leads to its own callback"""
    o = died(run)
    for c in run.calls:
        for x in cbs(c):
            if x[0] != c.name and x[0] in SLOTS:
                o.append("slot %s leads to the callback %s" % (c.name, x[0]))
    return o


FULL = ("open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize")


def tables():
    """C27 and the version helpers of C19: (c27 failures, c19 failures, number of facts)"""
    o, v, n = [], [], 0

    def read(so, *syms):
        r = subprocess.run([os.path.join(l2.WORK, "tables"), so] + list(syms), capture_output=True, timeout=120)
        if r.returncode:
            raise l2.BuildError("tables: " + r.stderr.decode()[-500:])
        return r.stdout.decode().split("\n")
    api = 1 << 16 | 17
    pair, test, deny = l2.build_for("pair"), l2.build_for("test"), l2.build_for("deny")
    want = [(pair, "sudo_pair", "io", 2, FULL), (test, "honours", "io", 2, FULL), (test, "ignores", "io", 2, FULL), (test, "bare", "io", 2, FULL),
            (test, "empty_policy", "policy", 1, ()), (test, "empty_io", "io", 2, ()), (test, "empty_audit", "audit", 3, ()),
            (test, "empty_approval", "approval", 4, ()), (deny, "deny_everything", "approval", 4, ("open", "check", "show_version"))]
    for so, sym, kind, ty, slots in want:
        seen = 0
        for l in read(so, sym + ":" + kind):
            w = l.split(" ")
            if w[0] == "missing":
                o.append("table %s is not exported" % sym)
            if w[0] == "table":
                n += 2
                seen = 1
                if w[2] != "type=%d" % ty:
                    o.append("table %s has %s, not type %d" % (sym, w[2], ty))
                if w[3] != "version=%d" % api:
                    o.append("table %s has %s, not version %d" % (sym, w[3], api))
            if w[0] == "slot":
                n += 1
                if (w[2] in slots) != (w[3] == "1"):
                    o.append("slot %s of table %s is %s" % (w[2], sym, "empty" if w[3] == "0" else "filled"))
        if not seen and not o:
            o.append("table %s could not be read" % sym)
    nv = 0
    for l in read(test, "--versions"):
        if l.startswith("bad"):
            v.append("version helper: " + l)
        if l.startswith("versions"):
            nv = int(l.split()[1])
            if int(l.split()[-1]) != api:
                v.append("the supported API version is %s" % l.split()[-1])
    return o, v, n, nv
