"""Scenario generators: directed enumerations and seeded random ones."""
import random
from l2 import Scn
import model

TTY = "/dev/pts/7"
CMD = "/usr/bin/id"
EIO, EPIPE, EINTR, EACCES, ENOSPC = 5, 32, 4, 13, 28


def kv(**k):
    return [("%s=%s" % (a, b)).encode() for a, b in k.items()]


def setkv(arr, **k):
    for a, v in k.items():
        arr[:] = [x for x in arr if x.split(b"=")[0] != a.encode()]
        if v is not None:
            arr.append(a.encode() + b"=" + (v if isinstance(v, bytes) else str(v).encode()))


def base(so="pair", sym="sudo_pair"):
    s = Scn(so, sym)
    s.arr["settings"] = kv(plugin_dir="/p", plugin_path="/p/x.so", progname="sudo")
    s.arr["user_info"] = kv(cwd="/home/alice", egid=0, euid=0, gid=1000, groups="1000,4", host="box", pgid=40, pid=41, ppid=42,
                            uid=1000, user="alice", cols=120, lines=50, tty=TTY, sid=40, tcpgid=40, umask="022")
    s.arr["command_info"] = kv(command=CMD, runas_uid=0, runas_gid=0, runas_groups="0", iolog_ttyout="true", iolog_stdout="true",
                               iolog_stderr="true", iolog_stdin="true", iolog_ttyin="true", cwd="/tmp/w", umask="022")
    s.arr["argv"] = [b"id", b"-u"]
    s.arr["env"] = [b"LANG=C"]
    s.arr["options"] = kv(socket_dir="/s")
    s.ent("d", "/s", 0o755, 0, 0)
    s.ent("c", TTY, 0o600, 1000, 5)
    s.rd = [("d", b"y")]
    s.calls = [("open",)]
    return s


def mod(s, settings=None, user=None, command=None, options=None, **kw):
    for arr, d in (("settings", settings), ("user_info", user), ("command_info", command), ("options", options)):
        if d:
            setkv(s.arr[arr], **d)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


LOGS = [("log_ttyout", b"hello\r\n"), ("log_stdout", b"\x00\xff%s%n" * 3), ("log_stderr", b"e"), ("winsize", 24, 80),
        ("log_ttyin", b"k"), ("log_stdin", b"data"), ("winsize", 4294967295, 0), ("log_ttyout", b"x" * 5000), ("log_stdout", b""),
        ("close", 0, 0)]


# what sudo may say besides: nothing in this plugin depends on it
USES = {"settings": {"runas_group", "prompt", "login_shell", "run_shell", "plugin_dir", "plugin_path", "progname"},
        "user_info": {"uid", "euid", "gid", "groups", "host", "user", "cwd", "pid", "cols", "lines", "tty"},
        "command_info": {"iolog_stdin", "iolog_stdout", "iolog_stderr", "iolog_ttyin", "iolog_ttyout", "runas_groups"}}
VALUES = {"bool": ["true", "false"], "u64": [0, 1, 3, 2**64 - 1], "u32": [0, 1, 1000, 2**32 - 1], "i32": [0, -1, 1, 41, 2**31 - 1], "octal": ["0", "022", "0777", "7777"],
          "string": ["x", "root", "", "alice", "sudo"], "path": ["/", "/x"], "v_u32": ["", "0", "7,8"], "v_i32": ["0", "3,4"], "v_net": ["10.0.0.1/255.0.0.0", ""]}


def others():
    """(list, key, values) of every setting that sessions do not depend on"""
    o = []
    for arr, spec in (("settings", model.SETTINGS), ("user_info", model.USER), ("command_info", model.COMMAND)):
        o += [(arr, key, VALUES[t]) for _, key, t, _ in spec if key not in USES[arr] and t in VALUES]
    return o


OTHERS = others()


def d_others():
    """the settings that no session depends on, one at a time"""
    o = []
    kinds = (lambda s: s, lambda s: mod(s, user=dict(uid=0, gid=0, groups="0")), lambda s: mod(s, command=dict(command="/usr/bin/sudo_approve")),
             lambda s: mod(s, options=dict(gids_exempted="4")), lambda s: mod(s, command=dict(iolog_ttyout="false", iolog_stdout="false", iolog_stderr="false")),
             lambda s: mod(s, rd=[("d", b"n")]), lambda s: mod(s, settings=dict(runas_group="wheel")), lambda s: mod(s, wr=[("n", 99999)] * 3 + [("E", EPIPE)]))
    for arr, key, values in others():
        for i, v in enumerate(values):
            for j, k in enumerate(kinds):
                if i > 1 and (i + j) % 3:
                    continue
                s = k(base())
                s.calls += LOGS
                if key == "sudoedit":
                    s.arr["argv"] = [b"sudoedit", b"/etc/motd"]
                o.append(mod(s, **{dict(settings="settings", user_info="user", command_info="command")[arr]: {key: v}}))
    for e in ([], [b"SUDO_PAIR=0"], [b"DEBUG=1"], [b"TERM=dumb"], [b"SSH_TTY=/dev/pts/9"], [b"SUDO_USER=root"], [b"bogus"], [b"A=1"] * 100):
        for k in kinds:
            s = k(base())
            s.arr["env"] = e
            s.calls += LOGS
            o.append(s)
    for minor in range(9, 24):
        for k in kinds[:2]:
            s = k(base()).set("version", 1 << 16 | minor)
            s.calls += LOGS
            o.append(s)
    return o


# ----------------------------------------------------- random sessions
def pick(r, *opts):
    return r.choice(opts)


def weighted(r, *wv):
    t = r.random() * sum(w for w, _ in wv)
    for w, v in wv:
        t -= w
        if t <= 0:
            return v
    return wv[-1][1]


def rbytes(r, n, alphabet=None):
    return bytes(r.choice(alphabet) if alphabet else r.randrange(256) for _ in range(r.randrange(n + 1)))


def rtemplate(r):
    parts = []
    for _ in range(r.randrange(9)):
        parts.append(weighted(r, (5, b"%" + bytes([r.choice(b"bBCdhHgpuUW")])), (1, b"%%"), (1, b"%" + bytes([r.randrange(1, 256)])),
                              (3, rbytes(r, 6, b"abc \n\x1b[0m%")), (1, bytes([r.randrange(1, 256)]))))
    t = b"".join(parts)
    if r.random() < .1:
        t += b"%"
    return t


def random_session(r, focus=""):
    s = base()
    ids = [0, 1, 500, 1000, 1001, 2**32 - 2, 2**31]
    euid = weighted(r, (6, 0), (1, 500))
    s.set("euid", euid).set("egid", weighted(r, (3, 0), (1, 77)))
    s.set("umask", weighted(r, (3, "22"), (1, "0"), (1, "77"), (1, "777")))
    if r.random() < .1:
        s.set("fdbase", r.choice([3, 200, 1023, 1024, 5000]))
    uid = weighted(r, (8, 1000), (1, r.choice(ids)))
    ue = weighted(r, (9, euid), (1, r.choice(ids)))
    gid = weighted(r, (5, 1000), (1, r.choice([0, 4, 20, 50])))
    s.set("ruid", uid).set("rgid", gid)
    gids = [0, 4, 20, 50, 1000, 1001, 2**32 - 2]
    groups = [gid] + [r.choice(gids) for _ in range(r.randrange(4))]
    mod(s, user=dict(uid=uid, euid=ue, gid=gid, groups=",".join(map(str, groups)), pid=r.choice([1, 41, 2**31 - 1]),
                     cols=r.choice([0, 80, 2**64 - 1]), lines=r.choice([1, 24, 2**64 - 1]),
                     host=r.choice(["box", "h%Ux", "h\u00e9", ""]), user=r.choice(["alice", "b%C", "x y"])))
    ru = weighted(r, (6, 0), (3, uid), (2, r.choice(ids)))
    rg = weighted(r, (6, 0), (2, gid), (2, r.choice(gids)))
    c = dict(runas_uid=ru, runas_gid=rg)
    if r.random() < .25:
        c["runas_euid"] = weighted(r, (3, r.choice(ids)), (1, uid), (1, "x"))
    if r.random() < .25:
        c["runas_egid"] = weighted(r, (3, r.choice(gids)), (1, gid))
    if r.random() < .1:
        c["runas_uid"] = None
    if r.random() < .1:
        c["runas_gid"] = None
    if r.random() < .4:
        c["runas_groups"] = weighted(r, (2, None), (2, ",".join(str(r.choice(gids)) for _ in range(r.randrange(1, 5)))), (1, "0,x"), (1, ""))
        if c["runas_groups"] is None:
            c["preserve_groups"] = "true"
    for f in ("ttyout", "stdout", "stderr", "stdin", "ttyin"):
        c["iolog_" + f] = weighted(r, (6, "true"), (2, "false"), (1, None), (.3, "yes"))
    if r.random() < .1:
        for f in ("ttyout", "stdout", "stderr"):
            c["iolog_" + f] = r.choice(["false", None])
        if r.random() < .5:
            c["iolog_" + r.choice(["ttyout", "stdout", "stderr"])] = "true"
    o = {}
    if r.random() < .3:
        o["gids_enforced"] = weighted(r, (4, ",".join(str(r.choice(gids)) for _ in range(r.randrange(1, 4)))), (1, "x"), (1, ""))
    if r.random() < .25:
        o["gids_exempted"] = weighted(r, (4, ",".join(str(r.choice(gids)) for _ in range(r.randrange(1, 3)))), (1, "x"))
    if r.random() < .2:
        o["binary_path"] = r.choice(["/opt/approve", CMD, "/usr/bin/./id", "/usr//bin/id", "/usr/bin/id/", "approve", "/usr/bin/i", "/"])
    c["command"] = weighted(r, (8, CMD), (1, "/usr/bin/sudo_approve"), (.5, b"/tmp/\xff\xfe"), (.5, "/usr/bin/sudo_approve2"), (.2, None), (.3, "/opt/approve"))
    if r.random() < .1:
        c["cwd"] = None
    mod(s, command=c, options=o)
    if r.random() < .25:
        mod(s, settings=dict(runas_group=r.choice(["wheel", "", "#0"])))
    if r.random() < .2:
        mod(s, settings=dict(runas_user=r.choice(["root", "alice", "bob", ""])))
    if r.random() < .2:
        mod(s, settings=dict(login_shell="true", prompt="p %p"))
    s.arr["argv"] = weighted(r, (3, [b"id", b"-u"]), (1, [b"id"]), (1, [b"a b", b"\xff%U", b"", b"%"]), (.3, []))
    if r.random() < .4:
        for arr, key, values in r.sample(OTHERS, r.randrange(1, 5)):
            setkv(s.arr[arr], **{key: r.choice(values)})
    # where the socket goes
    d = weighted(r, (8, "/s"), (1, None), (1, "/s/"), (1, "/a/b//c"), (.5, "rel/dir"), (.3, "rel"), (.3, "/"), (.2, ""), (.2, "/" + "n" * 120))
    setkv(s.arr["options"], socket_dir=d)
    s.ents = [e for e in s.ents if e["path"] != "/s"]
    env = model.Env(s)
    if env.error is None:
        p = model.parent(env.sock_path())
        bad = r.random() < .2
        mode = weighted(r, (4, 0o755), (2, 0o700), (1, 0o1755), (1, 0o500), (1, 0o711), (1, 0))
        uid_d = euid
        ty = "d"
        st = 0
        if bad:
            x = r.randrange(6)
            if x == 0:
                mode |= r.choice([0o020, 0o002, 0o022, 0o070, 0o007])
            elif x == 1:
                uid_d = r.choice([u for u in (0, 500, 1000, 4242) if u != euid])
            elif x == 2:
                ty = r.choice("fbcps")
            elif x == 3:
                st = r.choice([EACCES, 40])
            elif x == 4:
                p = p + b"x"
            else:
                mode |= 0o022
        if p and b"\0" not in p:
            s.ent(ty, p, mode, uid_d, r.choice([0, 77]), stat_errno=st)
        if r.random() < .25:
            sp = env.sock_path()
            if len(sp) < 100:
                s.ent(weighted(r, (4, "s"), (1, "f"), (1, "d"), (.5, "p"), (.5, "c")), sp, 0o600, euid, 0, stat_errno=weighted(r, (9, 0), (1, EACCES)))
    # kernel trouble
    if r.random() < .25:
        call = r.choice(["bind", "chown", "chmod", "select", "accept", "listen", "unlink", "socket"])
        s.faults.append((call, weighted(r, (4, 1), (1, 2), (1, 0 if call not in ("accept",) else 1)), r.choice([EINTR, EACCES, EIO, ENOSPC, 1])))
    if r.random() < (.4 if focus == "signal" else .05):
        s.faults.append(("sigaction", r.randrange(1, 40), 22))
    # the peer
    s.rd = [weighted(r, (8, ("d", b"y")), (2, ("d", b"Y")), (1, ("d", b"n")), (1, ("d", bytes([r.randrange(256)]))), (1, ("d", b"yes")),
                     (1, ("d", b"ny")), (1, ("z",)), (1, ("e", EINTR)), (1, ("e", EIO)), (.5, ("e", 104)))]
    if r.random() < .3:
        s.rd.append(("d", b"y"))
    if r.random() < .4:
        s.wr = [weighted(r, (5, ("n", r.randrange(0 if r.random() < .1 else 1, 9))), (1, ("e", EINTR)), (.5, ("e", EPIPE)), (.3, ("E", EPIPE)),
                         (2, ("n", 100000))) for _ in range(r.randrange(1, 12))]
    # templates
    for k, dft in (("user_prompt_path", "/etc/sudo_pair.prompt.user"), ("pair_prompt_path", "/etc/sudo_pair.prompt.pair")):
        path = dft
        if r.random() < .3:
            path = r.choice(["/t/u", "/t/p"])
            setkv(s.arr["options"], **{k: path})
        if r.random() < .4:
            t = rtemplate(r)
            s.ent("f", path, 0o644, 0, 0, t, open_errno=weighted(r, (8, 0), (1, EACCES)),
                  read_fail_at=weighted(r, (8, -1), (1, r.randrange(len(t) + 2))), eintr=weighted(r, (8, 0), (1, r.randrange(1, 4))))
    # the user's terminal
    x = r.random()
    if x < .08:
        setkv(s.arr["user_info"], tty=None)
    elif x < .12:
        setkv(s.arr["user_info"], tty="")
    elif x < .2:
        s.ents = [e for e in s.ents if e["path"] != TTY]
    elif x < .4:
        s.ent("c", TTY, 0o600, 1000, 5, open_errno=weighted(r, (1, 0), (1, EACCES)), write_errno=weighted(r, (2, 0), (1, EIO), (2, -1), (1, -7)))
    if r.random() < .05:
        s.set("printf", 0)
    if r.random() < .05:
        s.set("printf_fail", r.randrange(3))
    # signals
    if r.random() < (.8 if focus == "signal" else .2):
        s.set("sa_flags", r.choice(["10000000", "0", "18000004", "54000004", "10000001"])).set("sa_handler", r.choice(["0", "1", "7f001234"])).set(
            "sa_mask", r.choice(["0", "4002", "ffffffffffffffff"]))
    # the session
    n = r.randrange(8)
    for _ in range(n):
        s.calls.append(weighted(r, (3, ("log_ttyout", rbytes(r, 40))), (2, ("log_stdout", rbytes(r, 40))), (2, ("log_stderr", rbytes(r, 40))),
                                (1, ("log_ttyin", rbytes(r, 4) + b"x")), (1, ("log_stdin", rbytes(r, 4) + b"x")),
                                (1, ("winsize", r.choice([0, 1, 24, 2**32 - 1]), r.choice([0, 7, 80, 2**32 - 1])))))
    if r.random() < .5:
        s.calls.append(("close", r.choice([0, 1, -1]), r.choice([0, 5])))
    return s


def sessions(seed, n, focus=""):
    r = random.Random("%s/%s" % (seed, focus))
    return [random_session(r, focus) for _ in range(n)]


# -------------------------------------------------- directed sessions
def d_gate():
    o = []
    for b in range(256):
        o.append(mod(base(), rd=[("d", bytes([b]))]))
        o.append(mod(base(), rd=[("d", bytes([b]) + b"y")]))
    for rd in ([("z",)], [("e", EINTR), ("d", b"y")], [("e", EIO), ("d", b"y")], [("e", 104)], [("e", 11), ("d", b"y")], [("d", b"\ny")], [("d", b" y")]):
        o.append(mod(base(), rd=list(rd)))
    # delivery of the prompt cut or failed at every byte
    n = len(model.Env(base()).pair_prompt(base()))
    for k in range(0, n + 1):
        for e in (EPIPE, EINTR, EIO, 104):
            o.append(mod(base(), wr=[("n", k), ("E" if e != EINTR else "e", e)] if k else [("E" if e != EINTR else "e", e)]))
        o.append(mod(base(), wr=[("n", k), ("n", 0)]))
        o.append(mod(base(), wr=[("n", 1)] * k))
    # the echo fails in every way
    for w in (("e", EPIPE), ("e", EIO), ("n", 0)):
        for k in (1, 2):
            o.append(mod(base(), wr=[("n", 99999)] * k + [w]))
    for call in ("socket", "bind", "listen", "chown", "chmod", "select", "accept"):
        for e in (EINTR, EACCES, EIO, ENOSPC, 24, 98):
            if call == "accept" and e == EINTR:
                continue
            o.append(mod(base(), faults=[(call, 1, e)]))
    for s in o:
        s.calls.append(("log_ttyout", b"z"))
    return o


def d_exempt():
    """every predicate alone, and every pair of them"""
    P = [lambda s: mod(s, user=dict(uid=0)), lambda s: mod(s, user=dict(euid=1000)), lambda s: mod(s, command=dict(runas_uid=1000, runas_gid=1000)),
         lambda s: mod(s, command=dict(command="/usr/bin/sudo_approve")),
         lambda s: mod(s, command=dict(iolog_ttyout="false", iolog_stdout=None, iolog_stderr="false")),
         lambda s: mod(s, options=dict(gids_exempted="7,4")), lambda s: mod(s, options=dict(gids_enforced="7")),
         lambda s: mod(s, command=dict(runas_uid=1000)), lambda s: mod(s, command=dict(runas_gid=1000)),
         lambda s: mod(s, command=dict(runas_euid=1000)), lambda s: mod(s, command=dict(runas_egid=1000)),
         lambda s: mod(s, command=dict(iolog_ttyout="false")), lambda s: mod(s, command=dict(iolog_stdout="false", iolog_ttyout="false")),
         lambda s: mod(s, command=dict(iolog_stdout="false", iolog_stderr="false")),
         lambda s: mod(s, command=dict(iolog_ttyin=None, iolog_stdin=None)),
         lambda s: mod(s, options=dict(gids_exempted="0")), lambda s: mod(s, options=dict(gids_exempted="1000")),
         lambda s: mod(s, options=dict(gids_enforced="")),
         lambda s: mod(s, user=dict(gid=77), options=dict(gids_exempted="77")), lambda s: mod(s, user=dict(egid=77), options=dict(gids_exempted="77,78")),
         lambda s: mod(s, options=dict(gids_exempt="1000", gids_exempted_="4", gid_exempted="1000")),
         lambda s: mod(s, options=dict(gids_enforce="77", enforced_gids="77", gid_enforced="77")),
         lambda s: mod(s, options=dict(exempted="1000", exempt_gids="1000", GIDS_EXEMPTED="1000")),
         lambda s: mod(s, options=dict(binary=CMD, binarypath=CMD)), lambda s: mod(s, options=dict(gids_enforced="4")),
         lambda s: mod(s, command=dict(runas_groups="5,6")), lambda s: mod(s, command=dict(runas_groups=None)),
         lambda s: mod(s, command=dict(runas_gid=5)), lambda s: mod(s, command=dict(runas_gid=5, runas_groups="6,0")),
         lambda s: mod(s, command=dict(runas_gid=5, runas_groups="6,7")), lambda s: mod(s, user=dict(groups="0,1000"), command=dict(runas_gid=5, runas_groups=None)),
         lambda s: mod(s, user=dict(groups="1000"), command=dict(runas_gid=5, runas_groups=None)),
         lambda s: mod(s, options=dict(gids_enforced="5"), command=dict(runas_egid=5)),
         lambda s: mod(s, options=dict(gids_enforced="0,5"), command=dict(runas_gid=5, runas_egid=6, runas_groups="6")),
         lambda s: mod(s, command=dict(command="/usr/bin//sudo_approve")), lambda s: mod(s, command=dict(command="/usr/bin/sudo_approv")),
         lambda s: mod(s, options=dict(binary_path=CMD)), lambda s: mod(s, settings=dict(runas_group="root")),
         lambda s: mod(s, command=dict(preserve_groups="true")), lambda s: mod(s, command=dict(command=b"/x\xff")),
         lambda s: s.set("euid", 500) and mod(s, user=dict(euid=500)), lambda s: mod(s, user=dict(euid=500, uid=500)),
         lambda s: mod(s, user=dict(uid=500, euid=0)), lambda s: mod(s, user=dict(egid=1000))]
    o = []
    for a in P:
        o.append(a(base()))
        for b in P:
            s = b(a(base()))
            o.append(s)
    for s in o:
        s.calls += [("log_stdin", b"x"), ("log_ttyout", b"x"), ("log_ttyin", b"x"), ("log_stdout", b"x"), ("log_stderr", b""), ("winsize", 1, 2), ("close", 0, 0)]
        # the directory follows the effective user
        e = int(s.get("euid", 0))
        s.ent("d", "/s", 0o755, e, 0)
    return o


def d_group():
    o = []
    for g in ("wheel", "root", "", "x"):
        for ru in (0, 1000, 1001):
            for rg in (0, 1000, 50):
                for dirm in (0o755, 0o777):
                    s = mod(base(), settings=dict(runas_group=g), command=dict(runas_uid=ru, runas_gid=rg))
                    s.ent("d", "/s", dirm, 0, 0)
                    s.calls += [("log_ttyout", b"x")]
                    o.append(s)
                    t = mod(base(), settings=dict(runas_group=g, runas_user="bob"), command=dict(runas_uid=7, runas_euid=ru, runas_egid=rg))
                    t.ent("s", "/s/1000.41.sock")
                    o.append(t)
    for s in (base(), mod(base(), settings=dict(runas_user="root")), mod(base(), settings=dict(runas_group=b"\xff"))):
        o.append(s)
    return o


def d_socket():
    o = []
    for call in ("socket", "bind", "listen", "chown", "chmod", "select", "accept", "unlink", "statx"):
        for nth in (1, 2, 0):
            for e in (EINTR, EACCES, EIO, 1):
                if call == "accept" and e == EINTR and nth == 0:
                    continue
                for um in ("22", "0", "77"):
                    for at in (None, "s", "f", "d", "p"):
                        s = mod(base(), faults=[(call, nth, e)])
                        s.set("umask", um)
                        if at:
                            s.ent(at, "/s/1000.41.sock", 0o644, 1000, 1000)
                        o.append(s)
    for ru, rg, grp in ((0, 0, None), (1001, 50, None), (1000, 50, "g"), (1000, 0, "g"), (5, 1000, None), (1000, 5, "g")):
        for e in (0, 500):
            for extra in ({}, dict(runas_euid=1002), dict(runas_egid=1003), dict(runas_euid=1000, runas_egid=0)):
                s = mod(base(), command=dict(runas_uid=ru, runas_gid=rg, **extra), settings=dict(runas_group=grp), user=dict(euid=e),
                        options=dict(gids_enforced="0,5,50,1000,1003"))
                s.set("euid", e).set("egid", 33)
                s.ent("d", "/s", 0o755, e, 0)
                o.append(s)
    for d in ("/s", "/s/", "/s//", "/a/b", "/a//b/", "rel", "rel/x", "./rel", "/a/../b", "/", "", "/" + "n" * 90, "/" + "n" * 110, None, b"/\xff"):
        for uid, pid in ((1000, 41), (4294967294, 2147483647), (7, -1)):
            s = mod(base(), options=dict(socket_dir=d), user=dict(uid=uid, pid=pid))
            env = model.Env(s)
            p = model.parent(env.sock_path())
            if p:
                s.ent("d", p, 0o755, 0, 0)
            o.append(s)
            t = mod(base(), options=dict(socket_dir=d), user=dict(uid=uid, pid=pid))
            if p:
                t.ent("d", p, 0o755, 0, 0)
            if len(env.sock_path()) < 100:
                t.ent("s", env.sock_path(), 0o600, 0, 0)
            o.append(t)
    # the numbers that the kernel gives the descriptors
    for fd in (3, 63, 64, 1022, 1023, 1024, 1025, 1100, 65535, 1 << 20):
        for um in ("22", "0"):
            for f in ([], [("select", 1, EINTR)], [("accept", 1, EIO)], [("chmod", 1, EIO)]):
                for at in (None, "s"):
                    s = mod(base(), faults=f)
                    s.set("umask", um).set("fdbase", fd)
                    if at:
                        s.ent(at, "/s/1000.41.sock", 0o644, 1000, 1000)
                    o.append(s)
    for s in o:
        s.calls += [("log_ttyout", b"x"), ("close", 0, 0)]
    return o


def d_dir():
    o = []
    for mode in range(0, 0o2000, 1):
        if mode & 0o700 not in (0o700, 0o500, 0):
            continue
        if mode & 0o055 not in (0, 0o055, 0o050):
            if mode & 0o022 == 0:
                continue
        o.append(base().ent("d", "/s", mode, 0, 0))
    for mode in (0o4755, 0o2755, 0o1777, 0o7700, 0o3722, 0o2775):
        o.append(base().ent("d", "/s", mode, 0, 0))
    for t in "fdscbp":
        for mode in (0o755, 0o700, 0o777, 0):
            for uid in (0, 1000, 500, 1):
                for euid in (0, 500):
                    s = base().ent(t, "/s", mode, uid, 0)
                    s.set("euid", euid)
                    mod(s, user=dict(euid=euid))
                    o.append(s)
    o.append(base().ent("d", "/s", 0o755, 0, 0, stat_errno=EACCES))
    o.append(base().ent("d", "/s", 0o755, 0, 0, stat_errno=5))
    s = base()
    s.ents = [e for e in s.ents if e["path"] != "/s"]
    o.append(s)
    # the grandparent is unsafe, the parent is not, and the other way round
    for a, b in ((0o777, 0o755), (0o755, 0o777)):
        s = mod(base(), options=dict(socket_dir="/a/b"))
        s.ent("d", "/a", a, 0, 0).ent("d", "/a/b", b, 0, 0)
        o.append(s)
    for s in o:
        if len(o) % 2:
            s.ent("s", "/s/1000.41.sock", 0o600, 0, 0)
    return o


def d_output():
    o = []
    chunks = [b"", b"a", b"\n", b"\r", b"\0", b" ", b"hello\n", bytes(range(256)), b"x" * 70000, b"%s%n", b"\x1b[8;1;1t"]
    W = [[], [("n", 1)] * 6, [("e", EINTR)], [("n", 3), ("e", EINTR), ("n", 2)], [("n", 3), ("E", EPIPE)], [("E", EIO)], [("n", 0)], [("e", 11)],
         [("n", 2), ("n", 0)], [("E", 104)], [("n", 1), ("e", EINTR), ("e", EINTR), ("n", 1)]]
    pre = [("n", 99999)] * 3      # prompt and echo
    for name in ("log_ttyout", "log_stdout", "log_stderr"):
        for ch in chunks:
            for w in W:
                s = mod(base(), wr=pre + w)
                s.calls += [(name, ch), ("log_ttyout", b"tail"), ("close", 0, 0)]
                o.append(s)
    for l in (0, 1, 9, 24, 65536, 2**31, 2**32 - 1):
        for c in (0, 1, 80, 2**32 - 1):
            s = base()
            s.calls += [("winsize", l, c), ("log_stdout", b"q")]
            o.append(s)
    for w in W:
        s = mod(base(), wr=pre + w)
        s.calls += [("winsize", 50, 132), ("log_stdout", b"q")]
        o.append(s)
    import itertools
    for ks in itertools.product(range(6), repeat=3):
        s = base()
        s.calls += [LOGS[k] for k in ks] + [("close", 0, 0)]
        o.append(s)
    # hints do not matter
    for bits in range(32):
        s = base()
        mod(s, command={"iolog_" + f: ("true" if bits >> i & 1 else "false") for i, f in enumerate(("ttyout", "stdout", "stderr", "stdin", "ttyin"))})
        s.calls += [(("log_" + f), b"<%s>" % f.encode()) for f in ("ttyout", "stdout", "stderr", "stdin", "ttyin")] + [("winsize", 3, 4), ("close", 1, 0)]
        o.append(s)
    return o


def d_close():
    o = []
    for rd in (b"y", b"Y", b"n", b"x"):
        for f in ([], [("shutdown", 1, 107)], [("shutdown", 0, EIO)], [("sigaction", 8, 22)], [("sigaction", 2, 22)], [("sigaction", 5, 22)]):
            for wr in ([], [("E", EPIPE)], [("n", 99999), ("E", EPIPE)], [("n", 3), ("E", EIO)], [("n", 99999)] * 3 + [("E", EIO)]):
                for st in ((0, 0), (1, 0), (-1, 5)):
                    for logs in ([], [("log_ttyout", b"x")], [("log_stdin", b"x")]):
                        s = mod(base(), rd=[("d", rd)], faults=list(f), wr=list(wr))
                        s.calls += logs + [("close",) + st, ("log_ttyout", b"after")]
                        o.append(s)
    for rd in ([("z",)], [("e", EINTR)], [("e", EIO)]):
        o.append(mod(base(), rd=rd))
    s = base()
    s.calls += LOGS[:6]
    o.append(s)
    return o


def d_prompts():
    o = []
    T = [b"", b"%", b"%%", b"plain", b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W", b"%x%1%\xff%\x00z", b"a\x00b%u", b"%U%", b"\xff\xfe%C\n", b"%%u%u", b"%%%u%%",
         b"x" * 3000 + b"%u"]
    for t in T:
        for which in ("/etc/sudo_pair.prompt.user", "/etc/sudo_pair.prompt.pair"):
            for rf in (-1, 0, 1, len(t), len(t) + 1):
                s = base().ent("f", which, 0o644, 0, 0, t, read_fail_at=rf)
                o.append(s)
            o.append(base().ent("f", which, 0o644, 0, 0, t, open_errno=EACCES))
            o.append(base().ent("f", which, 0o644, 0, 0, t, eintr=2))
    for e in range(256):
        o.append(base().ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, b"<%" + bytes([e]) + b">").ent(
            "f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, b"[%" + bytes([e]) + b"]"))
    for bp in (None, "/opt/x.y", "/opt/x.sh", ".x", "/opt/x.tar.gz", "/opt/x", "x", "/opt/x/", "/", "..", "/a/..", "", "/o t/%u"):
        for tty in ("ok", "none", "empty", "missing", "noopen", "eio", "short", "partial", "zero"):
            for pf in (1, 0):
                s = mod(base(), options=dict(binary_path=bp))
                full = b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W\n"
                s.ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
                if tty == "none":
                    setkv(s.arr["user_info"], tty=None)
                if tty == "empty":
                    setkv(s.arr["user_info"], tty="")
                if tty == "missing":
                    setkv(s.arr["user_info"], tty="/dev/pts/8")
                if tty == "noopen":
                    s.ent("c", TTY, 0o600, 0, 0, open_errno=EACCES)
                if tty == "eio":
                    s.ent("c", TTY, 0o600, 0, 0, write_errno=EIO)
                if tty == "short":
                    s.ent("c", TTY, 0o600, 0, 0, write_errno=-2)
                if tty == "partial":
                    s.ent("c", TTY, 0o600, 0, 0, write_errno=-5)
                    s.faults.append(("ttywrite", 2, EIO))
                if tty == "zero":
                    s.faults.append(("ttywrite", 1, EINTR))
                s.set("printf", pf)
                o.append(s)
    for k, v in dict(cols=None, lines=None, cwd="/h", host="", user="", gid=7, uid=55, pid=2147483647).items():
        full = b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W\n"
        s = mod(base(), user={k: v})
        s.ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
        o.append(s)
        s = mod(base(), user={k: v}, command=dict(cwd=None))
        s.ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
        o.append(s)
    for v in (b"/\xff", b"\xff", b"", b"/d\xc3", b"/tmp/w", b"/\xe9/%d", b"a=b", b"/a/", b"/a//b", b"/a/./b", b"./a", b"/a/..", b"~", b"/a/b/.", b"//", b"/", b"."):      # a directory need not be UTF-8
        s = mod(base(), command=dict(cwd=v))
        s.ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, b"<%d>\n").ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, b"<%d>")
        o.append(s)
    # what the variables stand for is shown as it is
    full = b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W\n"
    for v in ("db1.example.com", "h.", ".h", "a b", " lead", "trail ", "A.B", "CORP\\bob", "bob@corp", "x\ty", "x\ny", "h\u00e9", "\x1b[31m", "%u", "%%", "-", "0", "n" * 70, "A" * 300, "'q'", "a,b", "a:b", "#1", "a/", "a//b", "./a", "a/./b", "a/..", "~", "a\\", "\ufeffx", "\u00a0x ", "x\r", "x\n", "$HOME", "x\x7f", "\u2028"):
        for w in (dict(user=dict(host=v)), dict(user=dict(user=v)), dict(command=dict(cwd="/" + v)), dict(command=dict(command="/" + v)), dict(options=dict(binary_path="/" + v)), dict(argv=v)):
            s = base()
            if "argv" in w:
                s.arr["argv"] = [b"id", v.encode(), b"last"]
                w = {}
            mod(s, **w)
            s.ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
            o.append(s)
    # and so is the rest of a template
    for t in (b"\xef\xbb\xbf%u\n", b"%u\r\n", b"\n\n%u", b"  %u  \n \n", b"%u\n\n\n", b"%u\0%h\0", b"\0", b"\xff\xfe%\0u\0", b"#!/bin/sh\n%u", b"# %u\n%h\n", b"\t%u\t", b"%u%", b"\\n%u",
              b"$USER %u ${x}", b"{u} {} %u", b"%u\x1a", b"\x04%u", b"%u\x7f\x80", b"%5u %-5u %ld", b"\x1b[1m%u\x1b[0m"):
        for which in ("/etc/sudo_pair.prompt.user", "/etc/sudo_pair.prompt.pair"):
            o.append(base().ent("f", which, 0o644, 0, 0, t))
    for a, b in (("/x1", "/x2"), ("/x2", "/x1"), (None, "/x2"), ("/x1", None)):
        s = mod(base(), options=dict(user_prompt_path=a, pair_prompt_path=b))
        for i, p in enumerate(("/x1", "/x2", "/etc/sudo_pair.prompt.user", "/etc/sudo_pair.prompt.pair")):
            s.ent("f", p, 0o644, 0, 0, b"template %d %%u\n" % i)
        o.append(s)
    s = base().set("printf_fail", 0)
    setkv(s.arr["user_info"], tty=None)
    o.append(s)
    return o


def d_signal():
    o = []
    for fl in ("10000000", "0", "18000004", "54000004", "10000001", "1c000007"):
        for h in ("0", "1", "7f0012345678"):
            for m in ("0", "2", "4002", "ffffffffffffffff"):
                s = base().set("sa_flags", fl).set("sa_handler", h).set("sa_mask", m)
                s.calls += [("log_ttyout", b"abc"), ("log_stderr", b""), ("winsize", 1, 2), ("close", 0, 0)]
                o.append(s)
                t = base().set("sa_flags", fl).set("sa_handler", h).set("sa_mask", m)
                t.wr = [("n", 3)] * 4 + [("e", EINTR)]
                t.calls += [("log_ttyout", b"abcdefgh"), ("log_stdout", b"ijk")]
                o.append(t)
                u = base().set("sa_flags", fl).set("sa_handler", h).set("sa_mask", m)
                u.rd = [("e", EINTR)]
                o.append(u)
                w = base().set("sa_flags", fl).set("sa_handler", h).set("sa_mask", m)
                w.wr = [("n", 5), ("E", EPIPE)]
                o.append(w)
    for nth in range(1, 40):
        for e in (22, 14):
            s = mod(base(), faults=[("sigaction", nth, e)])
            s.calls += [("log_ttyout", b"abc"), ("log_stdout", b"def"), ("winsize", 3, 4), ("log_stderr", b"ghi"), ("close", 0, 0)]
            o.append(s)
            t = mod(base(), faults=[("sigaction", nth, e)], wr=[("n", 9)] * 30)
            t.calls += [("log_ttyout", b"abc" * 9)]
            o.append(t)
    for k in (("select", 1, EINTR), ("select", 2, EINTR), ("accept", 1, EINTR)):
        o.append(mod(base(), faults=[k]))
    return o


def d_long():
    """long sessions, long lists and long texts, and what comes after a failure"""
    o = []
    L = ("log_ttyout", "log_stdout", "log_stderr")

    def chunk(i, n):
        return bytes((i * 7 + j * 13 + j // 251) & 255 for j in range(n))
    pre = [("n", 99999)] * 3
    # hundreds of chunks of every stream, with window changes and typed input in between
    for k in range(6):
        s = base()
        for i in range(400):
            s.calls.append((L[(i + k) % 3], chunk(i, i % 17)) if i % 5 != k % 5 else
                           [("winsize", 24, 80), ("log_ttyin", b"k"), ("winsize", i, 80), ("log_stdin", b"p"), ("winsize", 24, i)][i // 5 % 5])
        s.calls.append(("close", 0, 0))
        if k == 1:
            s.wr = pre + [("n", 5)] * 300
        if k == 2:
            s.wr = pre + [("n", 1000), ("e", EINTR)] * 120
        o.append(s)
    # thousands of chunks, and megabytes of output
    for n, size in ((2300, 3), (1500, 800), (45, 50000), (5000, 1)):
        s = base()
        s.calls += [(L[i % 3], chunk(i, size)) for i in range(n)] + [("log_stdin", b"p"), ("winsize", 3, 4), ("log_ttyout", b"end"), ("close", 0, 0)]
        o.append(s)
        s = mod(base(), options=dict(gids_exempted=None))
        s.calls += [("log_ttyout", chunk(1, size))] * n + [("close", 0, 0)]
        o.append(s)
    # one stream only, the same chunk again and again
    for n in L:
        for d in (b"same\n", b"", b"\0", b"0123456789abcdef" * 5, b"\x1b[2J" * 64, b"." * 5000):
            s = base()
            s.calls += [(n, d)] * (300 if len(d) < 80 else 12) + [("close", 0, 0)]
            o.append(s)
    s = base()
    s.calls += [("winsize", 24, 80)] * 70 + [("close", 0, 0)]
    o.append(s)
    # the k-th chunk fails once or for good; the session goes on trying
    for k in (0, 1, 2, 3, 7, 15, 31, 63, 64, 100, 127, 128, 200, 255, 256, 300):
        for w in (("e", EIO), ("E", EPIPE), ("n", 0), ("e", EINTR), ("e", EPIPE), ("e", 11), ("n", 2), ("E", 104)):
            s = mod(base(), wr=pre + [("n", 99999)] * k + [w])
            for i in range(k + 8):
                s.calls.append((L[i % 3], b"%d>" % i + chunk(i, 3)) if i % 7 else ("winsize", i, 3))
                if i == k:
                    s.calls += [("log_ttyin", b"t"), ("log_stdin", b"s")]
            s.calls.append(("close", 0, 0))
            o.append(s)
    # two separate failures
    for a, b in ((0, 0), (0, 3), (2, 2), (5, 40)):
        for e in (EIO, EPIPE, EINTR):
            s = mod(base(), wr=pre + [("n", 99999)] * a + [("e", e)] + [("n", 99999)] * b + [("n", 1), ("e", e)])
            s.calls += [(L[i % 3], chunk(i, 6)) for i in range(a + b + 6)] + [("close", 0, 0)]
            o.append(s)
    # chunk sizes around the usual buffer sizes
    for n in [2**k + d for k in range(5, 18) for d in (-1, 0, 1)] + [3 * 4096, 65536 + 8192, 200000]:
        s = base()
        s.calls += [(L[n % 3], chunk(n, n)), (L[(n + 1) % 3], b"after"), ("close", 0, 0)]
        o.append(s)
        s = mod(base(), wr=pre + [("n", max(1, n // 3))] * 2 + [("E", EPIPE)])
        s.calls += [(L[n % 3], chunk(n, n)), (L[(n + 1) % 3], b"after"), ("close", 0, 0)]
        o.append(s)
    # standard input late, often, large
    for n in (1, 2, 50, 300):
        for d in (b"x", b"", b"\n", b"y" * 70000, b"\x04"):
            s = base()
            s.calls += [("log_ttyin", b"k")] * n + [("log_ttyout", b"o")] * n + [("log_stdin", d)] * 3 + [("log_ttyin", b"k"), ("log_stdin", d), ("close", 0, 0)]
            o.append(s)
    # many groups, matching at the very end or nowhere
    for n in (9, 17, 33, 65, 129, 300, 1000):
        many = list(range(100000, 100000 + n))
        for hit in (True, False):
            t = 555
            o.append(mod(base(), user=dict(groups=",".join(map(str, many + [t] * hit))), options=dict(gids_exempted=t)))
            o.append(mod(base(), user=dict(groups=str(t)), options=dict(gids_exempted=",".join(map(str, many + [t] * hit)))))
            o.append(mod(base(), command=dict(runas_gid=9, runas_groups=",".join(map(str, many + [t] * hit))), options=dict(gids_enforced=t)))
            o.append(mod(base(), command=dict(runas_gid=9, runas_groups=str(t)), options=dict(gids_enforced=",".join(map(str, many + [t] * hit)))))
            o.append(mod(base(), user=dict(groups=",".join(map(str, many + [t] * hit))), command=dict(runas_gid=9, runas_groups=None), options=dict(gids_enforced=t)))
            o.append(mod(base(), command=dict(runas_gid=t if hit else 9, runas_groups=",".join(map(str, many))), options=dict(gids_enforced=t)))
    # many settings that nobody knows, before and after the ones that matter
    for n in (20, 63, 64, 65, 127, 128, 255, 256, 1000):
        for arr in ("settings", "user_info", "command_info", "options"):
            for last in (0, 1):
                s = mod(base(), options=dict(gids_exempted="77", binary_path="/opt/approve", user_prompt_path="/t/u"))
                s.ent("f", "/t/u", 0o644, 0, 0, b"%b %u %W")
                junk = [b"zz%d=%d" % (i, i) for i in range(n)]
                s.arr[arr] = junk + s.arr[arr] if last else s.arr[arr] + junk
                o.append(s)
    # long and many words
    full = b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W\n"
    for n in (65, 128, 300, 2000):
        s = base().ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
        s.arr["argv"] = [b"a%d" % i for i in range(n)]
        o.append(s)
    for n in (256, 1024, 4096, 9000):
        s = base().ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, full).ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, full)
        s.arr["argv"] = [b"id", chunk(3, n).replace(b"\0", b"%")]
        mod(s, user=dict(host="h" * n, user="u" * n), command=dict(cwd="/" + "d" * n, command="/c" * (n // 2)), options=dict(binary_path="/" + "b" * n))
        o.append(s)
    for n in (1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 65537, 150000):
        t = chunk(5, n).replace(b"%", b"_") + b"%u%%%p"
        for rf in (-1, n - 1, n, n + 6):
            o.append(base().ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, t, read_fail_at=rf))
            o.append(base().ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, t, read_fail_at=rf))
        o.append(base().ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, t, eintr=max(1, n // 2)))
        s = base().ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, t)
        s.wr = [("n", max(1, n // 5))] * 4 + [("E", EPIPE)]
        o.append(s)
    s = base().ent("f", "/etc/sudo_pair.prompt.pair", 0o644, 0, 0, b"%u%h" * 3000).ent("f", "/etc/sudo_pair.prompt.user", 0o644, 0, 0, b"%%" * 9000)
    o.append(s)
    # socket paths up to, at and past what an address can hold
    for n in range(80, 125):
        s = mod(base(), options=dict(socket_dir="/" + "n" * (n - 15)))
        env = model.Env(s)
        s.ent("d", model.parent(env.sock_path()), 0o755, 0, 0)
        s.calls += [("log_ttyout", b"x"), ("close", 0, 0)]
        o.append(s)
    # interrupted again and again
    for n in (1, 2, 3, 10, 64):
        s = mod(base(), wr=pre + [("e", EINTR)] * n)
        s.calls += [("log_ttyout", b"x")] * (n + 2) + [("close", 0, 0)]
        o.append(s)
        o.append(mod(base(), wr=[("n", 1)] * n + [("e", EINTR)]))
    return o
