"""Kani proof units on mechanically extracted copies of /repo's crates."""
import os, json, re, shutil, signal, subprocess, time, tomllib
import extract, l2

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(ROOT, "kani")
W = os.path.join(l2.WORK, "kani")
CRATES = ("sudo_plugin-sys", "sudo_plugin-sys0", "sudo_plugin", "sudo_pair", "deny_everything", "template_only")
SRC = {"deny_everything": "examples/raw_plugin_api", "sudo_plugin-sys0": "sudo_plugin-sys"}

# harness modules appended to the extracted sources: crate -> {file: [(module, harness file)]}
APPEND = {
    "deny_everything": {"src/lib.rs": [("verif_deny", "deny.rs")]},
    "sudo_plugin": {"src/core.rs": [("verif_core", "plug_core.rs")], "src/output/print_facility.rs": [("verif_print", "plug_print.rs")], "src/version.rs": [("verif_version", "plug_version.rs")], "src/options/option_map.rs": [("verif_map", "plug_map.rs")], "src/plugin/io_env.rs": [("verif_env", "plug_env.rs")], "src/plugin/io_plugin.rs": [("verif_io", "plug_io.rs")]},
    "template_only": {"src/lib.rs": [("verif_template", "pair_template.rs")]},
    "sudo_pair": {"src/lib.rs": [("verif_pair", "pair_lib.rs")], "src/socket.rs": [("verif_socket", "pair_socket.rs")]},
}

FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-overflow-checks",
         "--no-assertion-reach-checks", "--output-format=terse"]


class Lost(Exception):
    """the extraction or the compilation of the verified copy did not work"""


def toml(crate):
    m = {
        "sudo_plugin-sys": ("1.2.1", 'build="build.rs"\n', ""),
        # the same for callers whose messages have no argument
        "sudo_plugin-sys0": ("1.2.1", 'build="build.rs"\n', ""),
        "sudo_plugin": ("1.2.0", "", 'libc={path="%s/libc"}\nmstd={path="%s/mstd"}\nthiserror="1.0"\nsudo_plugin-sys={path="../sudo_plugin-sys"}\n' % (K, K)),
        "sudo_pair": ("1.0.0", '[features]\ndefault=["syslog","change_winsize"]\nsyslog=["slog-syslog"]\nchange_winsize=[]\n',
                      'libc={path="%s/libc"}\nmstd={path="%s/mstd"}\nfailure={path="%s/failure"}\nslog={path="%s/slog"}\n'
                      'slog-syslog={path="%s/slog-syslog",optional=true}\nsudo_plugin={path="../sudo_plugin"}\n' % (K, K, K, K, K)),
        "template_only": ("1.0.0", "", 'mstd={path="%s/mstd"}\n' % K),
        "deny_everything": ("1.0.0", "", 'libc={path="%s/libc"}\nmstd={path="%s/mstd"}\nsudo_plugin-sys={package="sudo_plugin-sys0", path="../sudo_plugin-sys0"}\n' % (K, K)),
    }[crate]
    pre, feat = (m[1], "") if "build=" in m[1] else ("", m[1])
    return '[package]\nname="%s"\nversion="%s"\nedition="2018"\n%s%s[dependencies]\n%s' % (crate, m[0], pre, feat, m[2])


def fixed_printf(text, arg):
    """Kani has no variadic calls: sudo's printf gets the arguments its caller gives it (one text, or none)"""
    m = re.search(r"pub type sudo_printf_t\s*=.*?;", text, re.S)
    if not m or m.group(0).count("...") != 1:
        raise Lost("the type of sudo's printf has changed")
    return text[:m.start()] + re.sub(r"\.\.\.,?", lambda _: arg, m.group(0)) + text[m.end():]


def inner_first(text, use):
    """put `use` behind the comments and inner attributes that the file starts with"""
    m = re.match(r"(?:\s*(?://[^\n]*\n|#!\[[^\]]*\]))*\s*", text)
    return text[:m.end()] + use + text[m.end():]


# other statics of these sources that a harness sets up itself
OWN = {"deny_everything": ("deny_everything", "SUDO_CONV", "SUDO_PRINT", "SUDO_API_VERSION")}
hidden = {}         # crate -> names of statics that keep state from one call to the next, which no contract speaks about


def kept(package):
    """the same for a crate and what it is built on"""
    return [x for c in {"sudo_pair": ("sudo_plugin", "sudo_pair")}.get(package, (package,)) for x in hidden.get(c, ())]


def generate():
    """copy the sources of /repo; returns {crate: number of retargeted paths}"""
    counts = {}
    hidden.clear()
    for c in CRATES:
        src = os.path.join(l2.REPO, SRC.get(c, c))
        if c == "template_only":
            # one file, with vectors that need no heap
            p = os.path.join(l2.REPO, "sudo_pair/src/template.rs")
            if not os.path.exists(p):
                raise Lost("sudo_pair/src/template.rs is gone")
            text, hidden[c] = extract.hidden_state(open(p).read())
            fs = {"src/lib.rs": inner_first(text, "use mstd::fixed::Vec;\n")}
        else:
            fs = extract.read_tree(src)
        if not fs:
            raise Lost("no sources in " + src)
        if c.startswith("sudo_plugin-sys"):
            for r in fs:
                if "/bindings/" in r:
                    fs[r] = fixed_printf(fs[r], "" if c.endswith("0") else "arg: *const ::std::os::raw::c_char,")
        else:
            n = 0
            for r in fs:
                fs[r], k = extract.retarget_std(fs[r])
                fs[r], kept = extract.hidden_state(fs[r], OWN.get(c, ()))
                hidden.setdefault(c, []).extend(kept)
                n += k
            counts[c] = n
        for r, mods in APPEND.get(c, {}).items():
            if r not in fs:
                raise Lost("%s/%s is gone" % (c, r))
            for name, path in mods:
                fs[r] += '\n#[cfg(kani)]\n#[path = "%s"]\nmod %s;\n' % (os.path.join(K, "h", path), name)
        extract.sync(fs, os.path.join(W, c))
        extract.write_if_changed(os.path.join(W, c, "Cargo.toml"), toml(c))
    for c in ("sudo_plugin-sys", "sudo_plugin-sys0"):
        shutil.copy(os.path.join(l2.REPO, "sudo_plugin-sys", "build.rs"), os.path.join(W, c, "build.rs"))
    extract.write_if_changed(os.path.join(W, "Cargo.toml"), "[workspace]\nmembers=[%s]\nresolver=\"2\"\n[profile.dev]\ndebug-assertions=false\n"
                             % ",".join('"%s"' % c for c in CRATES))
    return counts


def env():
    e = l2.env()
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k == "CARGO_TARGET_DIR":
            del e[k]
    del e["RUSTUP_TOOLCHAIN"]
    return e


_generated = None
_live = set()
stopped = False


def stop():
    """the answer isn't needed any more"""
    global stopped
    stopped = True
    for p in list(_live):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def run(package, harnesses, timeout, features=(), extra=(), each=240):
    """run harnesses of one package; {harness: dict(status, checks, seconds)}"""
    global _generated
    if _generated is None:
        _generated = generate()
    out = os.path.join(W, "out-%s-%d.json" % (harnesses[0].split("::")[-1], os.getpid()))
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["cargo", "kani"] + FLAGS + list(extra) + ["-p", package, "--export-json", out, "-j", str(min(8, len(harnesses))),
                                       "--harness-timeout", "%ds" % each]
    for h in harnesses:
        cmd += ["--harness", h]
    t = time.time()
    p = subprocess.Popen(cmd, cwd=W, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    _live.add(p)
    if stopped:
        stop()
    try:
        so, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, _ = p.communicate()
        to = True
    _live.discard(p)
    txt = so.decode(errors="replace")
    wall = time.time() - t
    res = {}
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            j = {}
        os.unlink(out)
        for r in j.get("verification_results", {}).get("results", []):
            res[r["harness_id"].split("::")[-1]] = r
    note = ""
    if not res:
        errs = re.findall(r"^error.*(?:\n.+){0,6}", txt, re.M)
        note = "stopped, a failing input was found" if stopped else "timeout after %d s" % timeout if to else ("\n".join(errs[:4]) or txt[-800:])
    return res, note, wall, " ".join(cmd)
