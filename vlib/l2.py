"""Building the real shared objects from /repo and running scenarios on them."""
import os, subprocess, hashlib, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the two variables serve experiments on changed copies; the registered commands leave them unset
WORK = os.environ.get("VERIF_WORK", os.path.join(ROOT, ".work"))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(WORK, "target")


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(
        HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        # what users run is a release build: no debug assertions
        CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
        # misuse of unsafe std functions ends the process
        RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zub-checks=yes",
        CARGO_TARGET_DIR=TARGET)
    return e


class BuildError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def build_driver():
    out = os.path.join(WORK, "driver")
    src = [os.path.join(ROOT, "l2", f) for f in ("driver.c", "sudo_plugin.h", "tables.c")]
    if os.path.exists(out) and all(os.path.getmtime(s) <= os.path.getmtime(out) for s in src):
        return
    os.makedirs(WORK, exist_ok=True)
    for name in ("tables", "driver"):
        r = run(["gcc", "-O1", "-g", "-rdynamic", "-w", "-fno-delete-null-pointer-checks", "-o", os.path.join(WORK, name), os.path.join(ROOT, "l2", name + ".c"), "-ldl"])
        if r.returncode:
            raise BuildError(r.stderr.decode())


def tree_hash():
    h = hashlib.sha256()
    for top in ("sudo_pair", "sudo_plugin", "sudo_plugin-sys", "examples"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def invalidate():
    """cargo goes by modification times; here the contents decide"""
    stamp = os.path.join(WORK, "tree.sha256")
    now = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("sudo_pair", "sudo_plugin", "deny_everything", "testplugin", "raw_plugin")):
                shutil.rmtree(os.path.join(fp, d))
    os.makedirs(WORK, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build_pair(example=False):
    """sudo_pair (and the example) from /repo's working tree"""
    invalidate()
    cmd = ["cargo", "build", "--offline", "--lib", "-p", "sudo_pair"]
    if example:
        cmd = ["cargo", "build", "--offline", "--lib", "--manifest-path", "examples/raw_plugin_api/Cargo.toml"]
    r = run(cmd, cwd=REPO, env=env())
    if r.returncode:
        raise BuildError(r.stderr.decode()[-4000:])
    return os.path.join(TARGET, "debug", "libdeny_everything.so" if example else "libsudo_pair.so")


def build_test():
    invalidate()
    d = os.path.join(WORK, "testplugin")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        s = os.path.join(ROOT, "l2", "testplugin", f)
        t = os.path.join(d, f)
        if f == "Cargo.lock" and os.path.exists(t):
            continue
        b = open(s, "rb").read().replace(b'"/repo/', b'"' + REPO.encode() + b"/")
        if not os.path.exists(t) or open(t, "rb").read() != b:
            open(t, "wb").write(b)
    r = run(["cargo", "build", "--offline", "--lib"], cwd=d, env=env())
    if r.returncode:
        raise BuildError(r.stderr.decode()[-4000:])
    return os.path.join(TARGET, "debug", "libtestplugin.so")


def build_for(so):
    build_driver()
    return {"pair": lambda: build_pair(), "test": build_test, "deny": lambda: build_pair(True)}[so]()


# ------------------------------------------------------------- scenarios
def hx(b):
    if isinstance(b, str):
        b = b.encode()
    return b.hex() or "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


class Scn:
    """One simulated run of sudo."""

    def __init__(self, so="pair", sym="sudo_pair"):
        self.so, self.sym = so, sym
        self.arr = {"settings": [], "user_info": [], "command_info": [], "argv": [], "env": [], "options": []}
        self.sets = []          # (name, value text)
        self.ents = []          # dicts
        self.faults = []        # (call, nth, errno)
        self.rd = []            # ("d", bytes) ("e", errno) ("z",)
        self.wr = []            # ("n", max) ("e", errno) ("E", errno)
        self.cbs = []           # (name, nth, code)
        self.calls = []         # list of tuples; ("arr", name, list) switches an array in between
        self.tags = {}

    def set(self, k, v):
        self.sets = [s for s in self.sets if s[0] != k] + [(k, v)]
        return self

    def get(self, k, d=None):
        for a, v in self.sets:
            if a == k:
                return v
        return d

    def ent(self, type, path, mode=0o644, uid=0, gid=0, data=b"", open_errno=0, read_fail_at=-1, read_errno=5,
            write_errno=0, eintr=0, stat_errno=0):
        self.ents = [e for e in self.ents if e["path"] != path]
        self.ents.append(dict(type=type, path=path, mode=mode, uid=uid, gid=gid, data=data, open_errno=open_errno,
                              read_fail_at=read_fail_at, read_errno=read_errno, write_errno=write_errno, eintr=eintr,
                              stat_errno=stat_errno))
        return self

    def text(self):
        o = []

        def arr(k, v):
            o.append("arr %s %s" % (k, "NULL" if v is None else " ".join(hx(x) for x in v)))
        for k, v in self.arr.items():
            arr(k, v)
        for k, v in self.sets:
            o.append("set %s %s" % (k, v))
        for e in self.ents:
            o.append("ent %(type)s %(p)s %(mode)o %(uid)d %(gid)d %(d)s %(open_errno)d %(read_fail_at)d %(read_errno)d "
                     "%(write_errno)d %(eintr)d %(stat_errno)d" % dict(e, p=hx(e["path"]), d=hx(e["data"])))
        for f in self.faults:
            o.append("fault %s %d %d" % f)
        for r in self.rd:
            o.append("rd " + (r[0] if len(r) == 1 else "%s %s" % (r[0], hx(r[1]) if r[0] == "d" else r[1])))
        for w in self.wr:
            o.append("wr %s %d" % w)
        for c in self.cbs:
            o.append("cb %s %d %d" % c)
        for c in self.calls:
            if c[0] == "arr":
                arr(c[1], c[2])
            elif c[0] == "set":
                o.append("set %s %s" % (c[1], c[2]))
            else:
                o.append("call " + " ".join([c[0]] + [hx(a) if isinstance(a, bytes) else str(a) for a in c[1:]]))
        return "\n".join(o) + "\n"


class Ev:
    __slots__ = ("kind", "f", "ret", "err", "raw", "data")

    def __init__(self, line):
        self.raw = line
        w = line.split(" ")
        self.kind = w[0]
        self.f = {}
        self.ret = self.err = None
        self.data = None
        if "=" in w:
            i = w.index("=")
            self.ret = int(w[i + 1])
            if len(w) > i + 2:
                self.err = int(w[i + 2])
            if len(w) > i + 3:
                self.data = unhx(w[i + 3])
            w = w[:i]
        for x in w[1:]:
            if "=" in x:
                k, v = x.split("=", 1)
                self.f[k] = v

    def path(self):
        return unhx(self.f["path"])

    def __repr__(self):
        return self.raw


class Call:
    def __init__(self, name):
        self.name, self.ev, self.ret, self.sig, self.err = name, [], None, None, None

    def k(self, *kinds):
        return [e for e in self.ev if e.kind in kinds]


class Run:
    """parsed events of one scenario"""

    def __init__(self, lines):
        self.calls, self.final, self.fent, self.ended, self.lines = [], None, [], False, lines
        cur = None
        for l in lines:
            w = l.split(" ")
            if w[0] == "call":
                cur = Call(w[1])
                self.calls.append(cur)
            elif w[0] == "ret":
                if cur is None:
                    cur = Call("?")
                    self.calls.append(cur)
                if w[2] == "signal":
                    cur.sig = int(w[3])
                elif w[2] == "void":
                    cur.ret = "void"
                else:
                    cur.ret = int(w[2])
                    if len(w) > 3 and w[3].startswith("err="):
                        cur.err = w[3][4:]
            elif w[0] == "final":
                self.final = Ev(l)
            elif w[0] == "fent":
                self.fent.append(Ev(l))
            elif w[0] == "end":
                self.ended = True
            elif w[0] == "cb":
                e = Ev("cb")
                e.kind, e.f, e.data, e.raw = "cb", {"name": w[1]}, unhx(w[2]), l
                if cur:
                    cur.ev.append(e)
            elif cur is not None:
                cur.ev.append(Ev(l))

    def all(self):
        return [e for c in self.calls for e in c.ev]


def execute(scns, so_path, sym, jobs=8):
    """Run the scenarios (all of one object and symbol); list of Run in order."""
    if not scns:
        return []
    res = execute_once(scns, so_path, sym, jobs, {})
    if len(scns) == 1 and any(c.sig == 14 for c in res[0].calls):
        # a busy machine, or a loop without end?
        res = execute_once(scns, so_path, sym, 1, {"VERIF_LIMIT": "15"})
    return res


def execute_once(scns, so_path, sym, jobs, more):
    n = max(1, min(jobs, len(scns) // 20 + 1))
    chunks = [scns[i::n] for i in range(n)]
    procs = []
    for ch in chunks:
        t = "".join("== %d\n%s" % (i, s.text()) for i, s in enumerate(ch))
        p = subprocess.Popen([os.path.join(WORK, "driver"), so_path, sym], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=dict(os.environ, **more))
        procs.append((p, t))
    import threading
    outs = [None] * n

    def feed(i):
        outs[i] = procs[i][0].communicate(procs[i][1].encode(), timeout=600)
    ts = [threading.Thread(target=feed, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(scns)
    for ci in range(n):
        p = procs[ci][0]
        if p.returncode != 0:
            raise BuildError("driver: exit %s %s" % (p.returncode, outs[ci][1].decode(errors="replace")[-500:]))
        groups, cur = {}, None
        for l in outs[ci][0].decode(errors="replace").split("\n"):
            if l.startswith("== "):
                cur = groups.setdefault(int(l[3:]), [])
            elif cur is not None and l:
                cur.append(l)
        for i in range(len(chunks[ci])):
            if i not in groups:
                raise BuildError("driver: scenario lost")
            res[i * n + ci] = Run(groups[i])
    return res
