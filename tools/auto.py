#!/usr/bin/env python3
"""development: mechanical mutants of the sources, each searched for a failing input of any property

auto.py [-j N] [--list] [--proof] [FILE-SUBSTRING...]     prints the ones that nothing reports"""
import os, sys, re, random, subprocess, concurrent.futures, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = subprocess.run("git ls-files 'sudo_pair/src/*.rs' 'sudo_plugin/src/*.rs' 'sudo_plugin/src/**/*.rs' sudo_plugin-sys/src/lib.rs examples/raw_plugin_api/src/lib.rs",
                       shell=True, cwd=REPO, stdout=subprocess.PIPE).stdout.decode().split()
OPS = [(r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! *\{)(?! *[A-Z(])", "&&"), (r"(?<=\w) >= ", " > "), (r"(?<=\w) > ", " >= "), (r"(?<=\w) < ", " <= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"!(?=self\.|[a-z_]+\.)", ""), (r"(?<![\w.\"'x])(\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1)), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.is_ok\(\)", ".is_err()"), (r" \+ ", " - "), (r" & ", " | "), (r" \| ", " & "), (r"&= !", "|= "), (r"\?;", ".ok();"), (r"b\"(\w)", lambda m: 'b"' + ("z" if m.group(1) != "z" else "q")),
       (r"(?<!b)\"([a-z_]+)\"", lambda m: '"' + m.group(1) + 'x"'), (r"b'(.)'", lambda m: "b'" + ("~" if m.group(1) != "~" else "!") + "'"), (r"unwrap_or\(([a-z_]+)\)", "unwrap_or_default()"),
       (r"Deny\b", "Ok"), (r"\bOk\(\(\)\)", "return Ok(())"), (r"uid\b", "gid"), (r"gid\b", "uid"), (r"euid\b", "uid"), (r"egid\b", "gid"), (r"\bstdout\b", "stderr"), (r"\bstderr\b", "stdout"), (r"ttyin", "ttyout"),
       (r"\blines\b", "cols"), (r"\bcols\b", "lines"), (r"Both", "Read"), (r"S_I(\w)USR", r"S_I\1GRP"), (r"S_IWGRP", "S_IWOTH"), (r"S_IWOTH", "S_IXOTH"), (r"-1\b", "-2")]


def mutants():
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        cut = re.search(r"#\[cfg\(test\)\]\s*(#\[[^\n]*\]\s*)*mod ", src)
        end = cut.start() if cut else len(src)
        off = log = 0
        for n, line in enumerate(src.split("\n"), 1):
            at, off = off, off + len(line) + 1
            s = line.strip()
            if re.match(r"(slog::)?(trace|debug|info|warn|error|crit)!\(|slog = slog::Logger::new", s):
                log = at + 1
            if log:  # a log statement: not part of any property
                if s.endswith(");"):
                    log = 0
                continue
            if at >= end or not s or s.startswith(("//", "#", "use ", "slog::", "extern", "pub use", "*", "mod ", "pub mod")):
                continue
            code = re.sub(r"(^|\s)//.*", "", line)
            seen = set()
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) if isinstance(rep, str) and "\\" in rep else code[:m.start()] + (rep(m) if callable(rep) else rep)
                    new += code[m.end():]
                    if new != line and new not in seen:
                        seen.add(new)
                        yield f, n, src[:at] + new + src[at + len(line):], s, new.strip()
            # a statement left out
            if re.match(r"^(let _ = |[a-z_.]+\(|[a-z_:]+::[a-z_]+\(|self\.|\*?[a-z_]+(\.[a-z_]+)* [|&+-]?= ).*;$", s) and not s.startswith("return"):
                yield f, n, src[:at] + src[at + len(line):], s, "(left out)"


def main():
    a = sys.argv[1:]
    n = 3
    if "-j" in a:
        i = a.index("-j"); n = int(a[i + 1]); del a[i:i + 2]
    proof = "--proof" in a
    lst = "--list" in a
    only = [x for x in a if not x.startswith("--")]
    todo = [m for m in mutants() if not only or any(o in "%s:%d" % (m[0], m[1]) for o in only)]
    random.Random(7).shuffle(todo)
    if lst:
        for m in todo:
            print("%s:%d  %s  ->  %s" % (m[0], m[1], m[3], m[4]))
        print(len(todo))
        return
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)
    E = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin")

    def run(m):
        i = slots.get()
        try:
            d = "/tmp/auto%d" % i
            if not os.path.isdir(d + "/repo"):
                os.makedirs(d, exist_ok=True)
                subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
            subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=d + "/repo", check=True)
            open(os.path.join(d, "repo", m[0]), "w").write(m[2])
            r = subprocess.run(["python3", ROOT + "/tools/tree.py", "--first"] + ([] if proof else ["--no-proof"]), env=dict(E, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/work"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT)
            return r.stdout.decode()
        finally:
            slots.put(i)
    c = [0, 0, 0]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for m, t in zip(todo, ex.map(run, todo)):
            k = 0 if "DOES NOT BUILD" in t else 1 if "ALARM" in t else 2
            c[k] += 1
            if k == 2:
                print("SURVIVES %s:%d  %s  ->  %s   [%s]" % (m[0], m[1], m[3], m[4], t.strip().split("\n")[-1][:100]), flush=True)
    print("%d do not build, %d reported, %d survive" % tuple(c))


main()
