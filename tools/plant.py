#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs.py and confirms each one in a scratch copy.

plant.py [ID ...]        build and confirm (all by default)
plant.py --check ID ...  run the checks of the bug's property on the patched copy
"""
import os, sys, json, shutil, subprocess, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "vlib"), os.path.join(ROOT, "tools")]
import bugs

SCR = "/tmp/plant"
REPO = SCR + "/repo"
ENV = {k: v for k, v in os.environ.items()}
ENV.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")


def sh(cmd, cwd=REPO, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def scratch():
    if not os.path.isdir(REPO):
        os.makedirs(SCR, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def build():
    r = sh("cargo build --workspace --offline && cargo test --workspace --no-run --offline")
    return r.returncode, r.stdout.decode()[-3000:]


STABLE = None


def tests():
    """names of the stable tests that fail"""
    r = sh("cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp; cargo test --doc --workspace --offline --no-fail-fast")
    t = r.stdout.decode()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    fails = {"::".join(x.split()) for x in re.findall(r"^\s+(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT) .*\] +(?:\([^)]*\) )?(\S+ \S+)", t, re.M)} & stable
    fails |= set(re.findall(r"^test (\S+ - .*) \.\.\. FAILED", t, re.M))
    return fails, len(re.findall(r"^\s+PASS ", t, re.M))


DEMO = r'''#!/bin/bash
# Runs the built plugin under a simulated kernel (driver.c: every system call of
# the plugin is answered by the simulation, nothing real is touched) and looks
# at what it did.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$T"' EXIT
gcc -O1 -w -rdynamic -fno-delete-null-pointer-checks -o "$T/driver" "$D/driver.c" -ldl || exit 99
@BUILD@
"$T/driver" "$SO" @SYM@ < "$D/scenario.txt" > "$T/out.txt" || exit 99
python3 "$D/expect.py" "$T/out.txt"
'''
BUILD = {
    "pair": 'SO="$PWD/target/debug/libsudo_pair.so"',
    "deny": 'SO="$PWD/target/debug/libdeny_everything.so"',
    "test": r'''export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cp -r "$D/plugin" "$T/plugin" && sed -i "s#\"/repo/#\"$PWD/#" "$T/plugin/Cargo.toml" || exit 99
(cd "$T/plugin" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q --lib) || exit 99
SO="$T/target/debug/libtestplugin.so"''',
}
EXPECT = '''import sys
TEXT = open(sys.argv[1], errors="replace").read()
RUNS = [r.split("\\n") for r in TEXT.split("== ")[1:]]


def fail(why):
    print("property broken: " + why)
    sys.exit(1)


def lines(run, kind):
    return [l for l in run if l.split(" ")[0] == kind]


def ret(run, call, nth=0):
    """what the nth call of that name returned"""
    l = [x.split(" ")[2] for x in run if x.startswith("ret %s " % call)]
    return l[nth] if len(l) > nth else None


def kv(line, key):
    for w in line.split(" "):
        if w.startswith(key + "="):
            return w[len(key) + 1:]


def data(run, kind="write"):
    """bytes that the calls of that kind moved"""
    o = b""
    for l in lines(run, kind):
        w = l.split(" ")
        i = w.index("=")
        if int(w[i + 1]) > 0 and len(w) > i + 3:
            o += bytes.fromhex(w[i + 3])[:int(w[i + 1])]
    return o


def printed(run, level=None):
    return b"".join(bytes.fromhex(kv(l, "text").replace("-", "")) for l in lines(run, "printf") if level is None or kv(l, "level") == str(level))


def callbacks(run):
    """(name, bytes) of the callbacks that reached the plugin"""
    o = []
    for l in lines(run, "cb"):
        w = l.split(" ")
        o.append((w[1], b"" if w[2] == "-" else bytes.fromhex(w[2])))
    return [x for x in o if x[0] not in ("builtin", "builtin_status", "do", "version")]


def did(run):
    """results of the operations the plugin was asked to do"""
    return [bytes.fromhex(l.split(" ")[2].replace("-", "")) for l in lines(run, "cb") if l.split(" ")[1] == "do"]


def opened(run):
    """the dump of the environment that open was given"""
    return b"".join(d for n, d in ((l.split(" ")[1], bytes.fromhex(l.split(" ")[2].replace("-", ""))) for l in lines(run, "cb")) if n == "open")


'''


def write(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    scratch()
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(old) == 1, (b["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff --no-color").stdout
    open(d + "/patch.diff", "wb").write(diff)
    scns = b["scn"]()
    so = scns[0].so
    with open(d + "/scenario.txt", "w") as f:
        for i, s in enumerate(scns):
            assert s.sym == scns[0].sym
            f.write("== %d\n%s" % (i, s.text()))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO.replace("@BUILD@", BUILD[so]).replace("@SYM@", scns[0].sym))
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/expect.py", "w") as f:
        f.write(EXPECT + b["expect"].strip() + "\n")
    for x in ("driver.c", "sudo_plugin.h"):
        shutil.copy(os.path.join(ROOT, "l2", x), d)
    if so == "test":
        shutil.copytree(os.path.join(ROOT, "l2", "testplugin"), d + "/plugin", ignore=shutil.ignore_patterns("target"))
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    return d


def confirm(b):
    d = write(b)
    rc, out = build()
    if rc:
        return "does not build: " + out
    fails, passed = tests()
    real = fails
    if real:
        return "tests fail: %s" % real
    r = sh("bash %s/demo.sh" % d, timeout=300)
    if r.returncode == 0 or r.returncode == 99:
        return "demo exits %d with the patch: %s" % (r.returncode, r.stdout.decode()[-600:])
    with_patch = r.stdout.decode().strip()[-200:]
    scratch()
    rc, out = build()
    r = sh("bash %s/demo.sh" % d, timeout=300)
    if r.returncode != 0:
        return "demo exits %d without the patch: %s" % (r.returncode, r.stdout.decode()[-600:])
    return "ok (%d pass) %s" % (passed, with_patch)


def check(b, props=None):
    """run the checks on the patched copy"""
    scratch()
    d = os.path.join(ROOT, "seeded", b["id"])
    sh("git apply %s/patch.diff" % d)
    e = dict(ENV, VERIF_REPO=REPO, VERIF_WORK=SCR + "/work")
    res = {}
    for p in props or [b["property"]]:
        r = subprocess.run(["python3", ROOT + "/check.py", p] + EXTRA, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT)
        t = r.stdout.decode()
        res[p] = "exit %d: %s" % (r.returncode, " | ".join(l[:230] for l in t.strip().split("\n")[-4:]))
    scratch()
    return res


EXTRA = []
if __name__ == "__main__":
    a = sys.argv[1:]
    for o in ("--no-proof", "--no-search"):
        if o in a:
            a.remove(o)
            EXTRA.append(o)
    mode = "confirm"
    if a and a[0] == "--check":
        mode, a = "check", a[1:]
    todo = [b for b in bugs.BUGS if not a or b["id"] in a]
    for b in todo:
        if mode == "confirm":
            print(b["id"], confirm(b), flush=True)
        else:
            for p, t in check(b).items():
                print(b["id"], p, t, flush=True)
