"""Mechanical extraction of /repo's sources for the verifiers.

The only edits made to a copied source file:
  * a path that starts at the crate `std` (`std::..` or `::std::..`) starts at
    the platform-contract crate `mstd` instead (mstd re-exports std and puts
    contract models in place of the parts that reach the kernel, plus Vec-based
    HashMap/HashSet); tokens inside comments, strings and `$`-macros' literal
    text other than such paths are untouched;
  * `#[cfg(kani)] mod` lines appended at the end of a file named in APPEND, so
    that the proof harnesses can see private items.
Everything else is byte for byte the code in /repo.
"""
import os, re

ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def tokens(src):
    """Yield (kind, text) covering src exactly. kinds: ws, com, str, chr, life, id, num, p"""
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            j = i + 1
            while j < n and src[j].isspace():
                j += 1
            yield "ws", src[i:j]
        elif src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            yield "com", src[i:j]
        elif src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1; j += 2
                elif src.startswith("*/", j):
                    depth -= 1; j += 2
                else:
                    j += 1
            yield "com", src[i:j]
        elif (m := re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)) and (
            "r" in src[i:m.end()] or m.group(1) == ""
        ):
            raw = "r" in src[i:m.start(1)] 
            if raw:
                end = '"' + m.group(1)
                j = src.find(end, m.end())
                j = n if j < 0 else j + len(end)
            else:
                j = m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            yield "str", src[i:j]
        elif c == "'" or (c == "b" and src.startswith("b'", i)):
            k = i + (2 if c == "b" else 1)
            m = re.compile(r"(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(src, k)
            if m:
                j = m.end()
                yield "chr", src[i:j]
            else:
                m = ID.match(src, k)
                j = m.end() if m else k
                yield "life", src[i:j]
        elif (m := ID.match(src, i)):
            j = m.end()
            yield "id", src[i:j]
        elif c.isdigit():
            m = re.compile(r"[0-9][0-9a-zA-Z_]*(\.[0-9][0-9a-zA-Z_]*)?").match(src, i)
            j = m.end()
            yield "num", src[i:j]
        else:
            j = i + 2 if src.startswith("::", i) else i + 1
            yield "p", src[i:j]
        i = j


def retarget_std(src, to="mstd"):
    toks = list(tokens(src))
    assert "".join(t for _, t in toks) == src
    sig = [i for i, (k, _) in enumerate(toks) if k not in ("ws", "com")]
    out = [t for _, t in toks]
    count = 0
    for p, i in enumerate(sig):
        if toks[i] != ("id", "std"):
            continue
        nxt = toks[sig[p + 1]][1] if p + 1 < len(sig) else ""
        if nxt == ";" or nxt == "as":          # use std; / use std as x;
            pass
        elif nxt != "::":
            continue
        if p > 0 and toks[sig[p - 1]][1] == "::":
            # ::std:: (global path) is fine, foo::std:: is not ours
            if p > 1 and (toks[sig[p - 2]][0] == "id" and toks[sig[p - 2]][1] not in ("use", "in", "return", "else", "match", "if", "mut", "as", "for", "impl", "dyn")
                          or toks[sig[p - 2]][1] in (">",)):
                continue
        if p > 0 and toks[sig[p - 1]][1] == ".":
            continue
        out[i] = to
        count += 1
    return "".join(out), count


ATOMICS = {"Atomic" + x for x in ("Bool", "U8", "U16", "U32", "U64", "Usize", "I8", "I16", "I32", "I64", "Isize")}
KEEPS = re.compile(r"^(Atomic\w+|\w*Cell|\w*Mutex\w*|\w*RwLock\w*|Once\w*|\w*Lazy\w*|Condvar)$")
PLAIN = {"bool", "char", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
OURS = {"SUDO_IO_ENV", "SUDO_IO_PLUGIN", "$"}       # the state the contracts speak about


def hidden_state(src, own=()):
    """(src with the atomics of `static` items replaced by ones of any value, names of other state that `static`s keep)"""
    toks = list(tokens(src))
    sig = [i for i, (k, _) in enumerate(toks) if k not in ("ws", "com")]
    out = [t for _, t in toks]
    other = []
    t = lambda p: toks[sig[p]][1] if 0 <= p < len(sig) else ""
    p = 0
    depth, bodies, want = 0, [], None      # the braces that open the body of a function
    while p < len(sig):
        if toks[sig[p]] == ("id", "fn") and toks[sig[p + 1]][0] == "id":
            want = depth
        elif t(p) == ";" and want == depth:
            want = None                     # `fn f();`
        elif t(p) in "([{":
            if t(p) == "{" and want == depth:
                bodies.append(depth)
                want = None
            depth += 1
        elif t(p) in ")]}":
            depth -= 1
            if bodies and bodies[-1] == depth:
                bodies.pop()
        if t(p) == "mod" and t(p + 1) in ("test", "tests") and t(p + 2) == "{":
            d, p = 1, p + 3
            while p < len(sig) and d:
                d += {"{": 1, "}": -1}.get(t(p), 0)
                p += 1
            continue
        if toks[sig[p]] == ("id", "thread_local") and t(p + 1) == "!":
            other.append("thread_local")
        if toks[sig[p]] != ("id", "static") or t(p + 1) == "|" or t(p + 1) == "move":
            p += 1
            continue
        mut = t(p + 1) == "mut"
        name = t(p + 2) if mut else t(p + 1)
        e, d = p, 0
        while e < len(sig) and not (t(e) == ";" and d == 0):
            d += {"{": 1, "(": 1, "[": 1, "}": -1, ")": -1, "]": -1}.get(t(e), 0)
            e += 1
        eq = next((k for k in range(p, e) if t(k) == "="), e)
        keeps = [t(k) for k in range(p, eq) if toks[sig[k]][0] == "id" and KEEPS.match(t(k))]
        if name not in OURS and name not in own:
            if mut and bodies and [t(k) for k in range(p + 3, eq)][:1] == [":"] and eq == p + 5 and t(p + 4) in PLAIN and e < len(sig):
                # any value when a harness comes here first
                out[sig[e]] = "; { static mut SEEN: bool = false; #[allow(unused_unsafe)] unsafe { if !SEEN { SEEN = true; %s = mstd::hidden::any(); } } }" % name
            elif mut or any(k not in ATOMICS for k in keeps):
                other.append(name)
            elif keeps:
                for k in range(p, e):
                    if toks[sig[k]][0] == "id" and t(k) in ATOMICS:
                        b = k
                        while t(b - 1) == "::":     # the path it ends
                            b -= 2 if toks[sig[b - 2]][0] == "id" and t(b - 2) not in ("static",) else 1
                        for x in range(b, k):
                            out[sig[x]] = ""
                        out[sig[k]] = "mstd::hidden::" + t(k)
        p = e + 1
    return "".join(out), other


def read_tree(root):
    """{relpath: text} of the .rs files under root/src"""
    res = {}
    base = os.path.join(root, "src")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                res[os.path.relpath(p, root)] = open(p, encoding="utf-8").read()
    return res


def write_if_changed(path, text):
    try:
        if open(path, encoding="utf-8").read() == text:
            return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return True


def sync(files, dest):
    """Write files ({rel: text}) below dest; remove .rs files that are no longer there."""
    for rel, text in files.items():
        write_if_changed(os.path.join(dest, rel), text)
    base = os.path.join(dest, "src")
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dest) not in files:
                os.unlink(p)
