"""What the properties say about a scenario, computed without looking at the code under check."""
import re

DEF_BIN = b"/usr/bin/sudo_approve"
DEF_UP = b"/etc/sudo_pair.prompt.user"
DEF_PP = b"/etc/sudo_pair.prompt.pair"
DEF_DIR = b"/var/run/sudo_pair"
USER_PROMPT = b"%B %u %p\n"
PAIR_PROMPT = b"%U@%h:%d$ %C\ny/n? [n]: "

INT = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
       "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


def pint(t, s):
    lo, hi = INT[t]
    if not re.fullmatch(r"[+-]?[0-9]+" if lo < 0 else r"\+?[0-9]+", s, re.A):
        return None
    v = int(s)
    return v if lo <= v <= hi else None


def pbool(s):
    return {"true": True, "false": False}.get(s)


def pip(s):
    """a text IPv4 or IPv6 address in the form Rust prints it; None if it isn't one"""
    import ipaddress
    try:
        if "%" in s:
            return None
        return str(ipaddress.ip_address(s))
    except ValueError:
        return None


def pnet(s):
    if s.count("/") < 1:
        return None
    a, m = s.split("/", 1)
    a, m = pip(a), pip(m)
    return (a, m) if a and m else None


def options(arr):
    """raw list -> dict (None: the null list)"""
    d = {}
    for e in arr or []:
        k, sep, v = e.partition(b"=")
        d[k] = v if sep else e
    return d


def utf8(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return None


class Missing(Exception):
    pass


class Invalid(Exception):
    pass


def typed(t, s):
    if t in INT:
        r = pint(t, s)
    elif t == "octal":
        r = int(s, 8) if re.match(r"\+?[0-7]+\Z", s) and int(s, 8) < 2**32 else None
    elif t == "bool":
        r = pbool(s)
    elif t in ("string", "path"):
        r = s
    elif t == "net":
        r = pnet(s)
    elif t.startswith("v_") or t.startswith("hs_"):
        it = t.split("_", 1)[1]
        items = s.split(" " if it == "net" else ",")
        r = [typed1(it, x) for x in items]
        if any(x is None for x in r):
            r = None
        elif t.startswith("hs_"):
            r = set(r)
    else:
        raise KeyError(t)
    return r


def typed1(t, s):
    return typed(t, s)


def get(d, k, t):
    """value, or raise Missing/Invalid"""
    b = d.get(k.encode())
    s = utf8(b) if b is not None else None
    if s is None:
        raise Missing(k)
    v = typed(t, s)
    if v is None:
        raise Invalid((k, s))
    return v


def opt(d, k, t, default=None):
    try:
        return get(d, k, t)
    except (Missing, Invalid):
        return default


SETTINGS = [("plugin_dir", "plugin_dir", "string", "req"), ("plugin_path", "plugin_path", "string", "req"),
            ("progname", "progname", "string", "req"),
            ("bsd_auth_type", "bsd_auth_type", "string", None), ("close_from", "closefrom", "u64", None),
            ("debug_flags", "debug_flags", "string", None), ("debug_level", "debug_level", "u64", None),
            ("ignore_ticket", "ignore_ticket", "bool", False), ("implied_shell", "implied_shell", "bool", False),
            ("login_class", "login_class", "string", None), ("login_shell", "login_shell", "bool", False),
            ("max_groups", "max_groups", "u64", None), ("network_addrs", "network_addrs", "v_net", []),
            ("noninteractive", "noninteractive", "bool", False),
            ("preserve_environment", "preserve_environment", "bool", False),
            ("preserve_groups", "preserve_groups", "bool", False), ("prompt", "prompt", "string", None),
            ("remote_host", "remote_host", "string", None), ("run_shell", "run_shell", "bool", False),
            ("runas_group", "runas_group", "string", None), ("runas_user", "runas_user", "string", None),
            ("selinux_role", "selinux_role", "string", None), ("selinux_type", "selinux_type", "string", None),
            ("set_home", "set_home", "bool", False), ("sudoedit", "sudoedit", "bool", False),
            ("timeout", "timeout", "string", None)]
USER = [("cwd", "cwd", "path", "req"), ("egid", "egid", "u32", "req"), ("euid", "euid", "u32", "req"),
        ("gid", "gid", "u32", "req"), ("groups", "groups", "v_u32", "req"), ("host", "host", "string", "req"),
        ("pgid", "pgid", "i32", "req"), ("pid", "pid", "i32", "req"), ("ppid", "ppid", "i32", "req"),
        ("uid", "uid", "u32", "req"), ("user", "user", "string", "req"), ("umask", "umask", "string", None),
        ("cols", "cols", "u64", 80), ("lines", "lines", "u64", 24), ("sid", "sid", "i32", 0),
        ("tcpgid", "tcpgid", "i32", -1), ("tty", "tty", "path", None)]
COMMAND = [("chroot", "chroot", "string", None), ("close_from", "closefrom", "u64", None),
           ("exec_background", "exec_background", "bool", False), ("exec_fd", "execfd", "u64", None),
           ("iolog_compress", "iolog_compress", "bool", False), ("iolog_group", "iolog_group", "string", None),
           ("iolog_mode", "iolog_mode", "string", None), ("iolog_path", "iolog_path", "string", None),
           ("iolog_stdin", "iolog_stdin", "bool", False), ("iolog_stdout", "iolog_stdout", "bool", False),
           ("iolog_stderr", "iolog_stderr", "bool", False), ("iolog_ttyin", "iolog_ttyin", "bool", False),
           ("iolog_ttyout", "iolog_ttyout", "bool", False), ("iolog_user", "iolog_user", "string", None),
           ("login_class", "login_class", "string", None), ("nice", "nice", "i32", None), ("noexec", "noexec", "bool", False),
           ("preserve_fds", "preserve_fds", "v_i32", []), ("preserve_groups", "preserve_groups", "bool", False),
           ("runas_groups", "runas_groups", "v_u32", None), ("selinux_role", "selinux_role", "string", None),
           ("selinux_type", "selinux_type", "string", None), ("set_utmp", "set_utmp", "bool", False),
           ("sudoedit", "sudoedit", "bool", False), ("sudoedit_checkdir", "sudoedit_checkdir", "bool", True),
           ("sudoedit_follow", "sudoedit_follow", "bool", False), ("timeout", "timeout", "u64", None),
           ("umask", "umask", "octal", 0o7777), ("umask_override", "umask_override", "bool", None),
           ("use_pty", "use_pty", "bool", False), ("utmp_user", "utmp_user", "string", None)]


class Env:
    """the decoded environment of an open call; .error is None, "version" or a key"""

    def __init__(self, scn, arr=None):
        arr = arr or scn.arr
        self.error = None
        self.version = int(str(scn.get("version", (1 << 16) | 17)), 0) & 0xffffffff
        self.euid, self.egid = int(scn.get("euid", 0)), int(scn.get("egid", 0))
        self.major, self.minor = self.version >> 16, self.version & 0xffff
        self.argv = list(arr["argv"] or [])
        self.s, self.u, self.c = {}, {}, {}
        self.opts = options(arr["options"])
        self.raw = {k: options(arr[k]) for k in ("settings", "user_info", "command_info", "env", "options")}
        if (self.major, self.minor) < (1, 9):
            self.error = "version"
            return
        for dst, spec, k in ((self.s, SETTINGS, "settings"), (self.u, USER, "user_info"), (self.c, COMMAND, "command_info")):
            raw = self.raw[k]
            for f, key, t, d in spec:
                if d == "req":
                    try:
                        dst[f] = get(raw, key, t)
                    except (Missing, Invalid) as e:
                        self.error = key
                        self.error_kind = type(e).__name__
                        return
                else:
                    dst[f] = opt(raw, key, t, d)
        c, raw = self.c, self.raw["command_info"]
        c["command"] = raw.get(b"command", b"")
        c["cwd"] = raw.get(b"cwd")
        c["runas_gid"] = opt(raw, "runas_gid", "u32", self.egid)
        c["runas_uid"] = opt(raw, "runas_uid", "u32", self.euid)
        c["runas_egid"] = opt(raw, "runas_egid", "u32", c["runas_gid"])
        c["runas_euid"] = opt(raw, "runas_euid", "u32", c["runas_uid"])
        self.no_command = c["command"] == b""
        # plugin options of sudo_pair
        o = self.opts
        self.binary = opt(o, "binary_path", "path", DEF_BIN.decode()).encode()
        self.up_path = opt(o, "user_prompt_path", "path", DEF_UP.decode()).encode()
        self.pp_path = opt(o, "pair_prompt_path", "path", DEF_PP.decode()).encode()
        self.dir = opt(o, "socket_dir", "path", DEF_DIR.decode()).encode()
        self.enforced = opt(o, "gids_enforced", "hs_u32", {0})
        self.exempted = opt(o, "gids_exempted", "hs_u32", set())

    def runas_gids(self):
        g = self.c["runas_groups"]
        return set(self.u["groups"] if g is None else g) | {self.c["runas_egid"]}

    def exempt(self):
        u, c = self.u, self.c
        if u["uid"] == u["euid"]:
            return "root"
        if u["uid"] == c["runas_euid"] and u["gid"] == c["runas_egid"]:
            return "self"
        if same_path(c["command"], self.binary):
            return "approval"
        if not (c["iolog_ttyout"] or c["iolog_stdout"] or c["iolog_stderr"]):
            return "nolog"
        if self.exempted & set(u["groups"]):
            return "exempted"
        if not self.enforced & self.runas_gids():
            return "unenforced"
        return None

    def changes_user(self):
        return self.u["uid"] != self.c["runas_euid"]

    def explicit_group(self):
        return self.s["runas_group"] is not None

    def flags(self):
        s, o = self.s, []

        def b(f, t):
            if s[f]:
                o.append(t)

        def v(f, t):
            if s[f] is not None:
                o.append(t + b" " + str(s[f]).encode())
        if s["sudoedit"] and s["progname"] != "sudoedit":
            o.append(b"--edit")
        v("runas_user", b"--user"), v("runas_group", b"--group"), v("prompt", b"--prompt")
        b("login_shell", b"--login"), b("run_shell", b"--shell"), b("set_home", b"--set-home")
        b("preserve_environment", b"--preserve-env"), b("preserve_groups", b"--preserve-groups")
        b("ignore_ticket", b"--reset-timestamp"), b("noninteractive", b"--non-interactive")
        v("login_class", b"--login-class"), v("selinux_role", b"--role"), v("selinux_type", b"--type")
        v("bsd_auth_type", b"--auth-type"), v("close_from", b"--close-from")
        return o

    def invocation(self):
        return b" ".join([self.s["progname"].encode()] + self.flags() + self.argv)

    def cwd(self):
        c = self.c["cwd"]
        return c if c is not None else self.u["cwd"].encode()

    def sock_path(self):
        return pjoin(self.dir, b"%d.%d.sock" % (self.u["uid"], self.u["pid"]))

    def expansions(self):
        u = self.u
        n = lambda x: str(x).encode()
        return {b"b": fname(self.binary), b"B": self.binary, b"C": self.invocation(), b"d": self.cwd(),
                b"h": u["host"].encode(), b"H": n(u["lines"]), b"g": n(u["gid"]), b"p": n(u["pid"]), b"u": n(u["uid"]),
                b"U": u["user"].encode(), b"W": n(u["cols"])}

    def expand(self, t):
        return expand(t, 0x25, self.expansions())

    def template(self, scn, path, default):
        e = find_ent(scn, path)
        if e is None or e["open_errno"] or e["type"] in ("s", "d"):
            return default
        if 0 <= e["read_fail_at"] <= len(e["data"]):
            return default
        return e["data"]

    def user_prompt(self, scn):
        return self.expand(self.template(scn, self.up_path, USER_PROMPT))

    def pair_prompt(self, scn):
        return self.expand(self.template(scn, self.pp_path, PAIR_PROMPT))

    def dir_safe(self, scn):
        e = find_ent(scn, parent(self.sock_path()))
        return (e is not None and not e["stat_errno"] and e["type"] == "d" and e["uid"] == self.euid
                and not e["mode"] & 0o022)


def norm(p):
    p = re.sub(rb"/+", b"/", p)
    return p.rstrip(b"/") or (b"/" if p else b"")


def find_ent(scn, path):
    if b"\0" in path or path == b"":
        return None
    for e in scn.ents:
        p = e["path"] if isinstance(e["path"], bytes) else e["path"].encode()
        if norm(p) == norm(path):
            return e
    return None


def comps(p):
    """path components as std::path compares them"""
    c = [x for i, x in enumerate(p.split(b"/")) if x and not (x == b"." and i > 0)]
    return (p.startswith(b"/"), c)


def same_path(a, b):
    return comps(a) == comps(b)


def pjoin(d, n):
    if d == b"":
        return n
    return d + n if d.endswith(b"/") else d + b"/" + n


def parent(p):
    i = p.rstrip(b"/").rfind(b"/")
    if i < 0:
        return b""
    return p[:i].rstrip(b"/") or b"/"


def fname(p):
    """the last component, or the whole path when it has none"""
    a, c = comps(p)
    if not c or c[-1] == b"..":
        return p
    return c[-1]


def expand(t, esc, table):
    o, i = bytearray(), 0
    while i < len(t):
        if t[i] != esc:
            o.append(t[i])
            i += 1
        elif i + 1 == len(t):
            break
        else:
            b = t[i + 1:i + 2]
            o += table.get(b, b)
            i += 2
    return bytes(o)
