"""Verus proof units: functions extracted from /repo into contract files (verus/*.rs).

A contract file holds specifications, lemmas and the contracts of what the
functions call (`external_body` shims), and directives in `//@` lines that are
replaced by text of /repo:

  //@struct FILE NAME [-field ..]     the struct, without attributes (and without the fields named)
  //@const FILE NAME                 the constant
  //@value FILE PATH => text         the text, with the value of an associated constant for $
  //@contract FILE [TRAIT for] TYPE::NAME    the contract that verus/FILE.rs proves of the function, assumed here
  //@fn FILE [TRAIT for | trait] TYPE::NAME   the function, up to //@end, with
     //@pub | //@unsafe | //@generic OLD => NEW   (signature: made public, `unsafe` dropped, text replaced)
     //@ret NAME                      name of the result
     //@diverges                        its end cannot be reached (it returns early or panics); panics are calls of the shim `panics`
     //@attr TEXT                       an attribute
     //@head | //@tail | //@body N      ghost text at the start, before the result, at the start of the N-th loop's body
     //@literals                        "..." becomes a Str
     //@rename OLD NEW                method calls .OLD( are written .NEW(
     //@subst OLD => NEW              token sequence replaced (types, paths)
     //@closure N PARAMS -> TYPE      the N-th closure's parameter types; its body also becomes its `ensures`
     //@closure N PARAMS -> (r: TYPE) ensures ...   the same with an `ensures` of its own
     //@spec ... //@loop N ... //@before TOKENS ... //@after TOKENS ...   ghost text, inserted

What the extraction changes in a body besides: comments and attributes go;
statements that only log (slog::...!) or are debug assertions go; format! with
plain {} holes becomes the concatenation of its pieces (`cat!`), and write! the
writing of that text.
"""
import os, re, subprocess, time
import extract, l2

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.path.join(l2.WORK, "verus")


class Lost(Exception):
    pass


def strip(src):
    """significant tokens; comments and whitespace gone"""
    o, glued = [], False
    for k, t in extract.tokens(src):
        if k in ("ws", "com"):
            glued = False
            continue
        if glued and k == "p" and o[-1][0] == "p" and o[-1][1] + t in OPS:
            o[-1] = ("p", o[-1][1] + t)
        else:
            o.append((k, t))
        glued = True
    return o


OPS = {"!=", "==", "<=", ">=", "&&", "||", "->", "=>", "..", "..=", "+=", "-=", "*=", "/=", "|=", "&="}


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match(toks, i):
    """index of the bracket that closes toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j][1]
        if toks[j][0] == "p":
            if t in OPEN:
                d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


def no_attributes(toks):
    o, i = [], 0
    while i < len(toks):
        if toks[i][1] == "#" and i + 1 < len(toks) and (toks[i + 1][1] == "[" or toks[i + 1][1] == "!" and toks[i + 2][1] == "["):
            i = match(toks, i + 1 if toks[i + 1][1] == "[" else i + 2) + 1
            continue
        o.append(toks[i])
        i += 1
    return o


def angle(toks, i):
    """index behind the <...> that starts at i"""
    d = 0
    while i < len(toks):
        if toks[i][1] == "<":
            d += 1
        elif toks[i][1] == ">":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced generics")


def show(toks):
    return " ".join(t for _, t in toks)


def bodies(src, head):
    """the token ranges between the braces of `impl`s of a type, or of a trait"""
    if head.startswith("trait "):
        head = "trait for " + head[6:]
    trait, ty = ([x.strip() for x in head.split(" for ")] + [None])[:2] if " for " in head else (None, head.strip())
    toks = no_attributes(strip(src))
    i, found = 0, []
    while i < len(toks):
        first = i == 0 or toks[i - 1][1] in ("}", ";", "unsafe", "pub", ")")
        if toks[i][1] == "trait" and toks[i + 1][1] == ty and trait == "trait":
            k = i
            while toks[k][1] != "{":
                k += 1
            found.append(toks[k + 1:match(toks, k)])
            i = match(toks, k)
        elif toks[i][1] == "impl" and first:
            j = i + 1
            if toks[j][1] == "<":
                j = angle(toks, j)
            k = j
            while toks[k][1] != "{":
                k += 1
            hd = [t for _, t in toks[j:k]]
            if "where" in hd:
                hd = hd[:hd.index("where")]
            # names without generic arguments
            flat, d = [], 0
            for t in hd:
                if t == "<":
                    d += 1
                elif t == ">":
                    d -= 1
                elif d == 0:
                    flat.append(t)
            tr = None
            if "for" in flat:
                x = flat.index("for")
                tr, flat = flat[:x], flat[x + 1:]
                tr = tr[-1]
            if flat and flat[-1] == ty and tr == trait:
                found.append(toks[k + 1:match(toks, k)])
            i = match(toks, k)
        i += 1
    return found


def find_fn(src, path):
    """(signature tokens from `fn` to the body, body tokens without braces)"""
    head, name = path.rsplit("::", 1)
    found = []
    for toks in bodies(src, head):
        p = 0
        while p < len(toks):
            if toks[p][1] == "fn" and toks[p + 1][1] == name:
                q = p
                while toks[q][1] not in ("{", ";"):
                    q = match(toks, q) + 1 if toks[q][1] in ("(", "[") else q + 1
                if toks[q][1] == "{":
                    found.append((toks[p:q], toks[q + 1:match(toks, q)]))
                p = q
            p = match(toks, p) + 1 if p < len(toks) and toks[p][1] in OPEN else p + 1
    if len(found) != 1:
        raise Lost("%d functions %s" % (len(found), path))
    return found[0]


def find_value(src, path):
    """the expression of an associated constant"""
    head, name = path.rsplit("::", 1)
    found = []
    for toks in bodies(src, head):
        p = 0
        while p < len(toks):
            if toks[p][1] == "const" and toks[p + 1][1] == name:
                q = p
                while toks[q][1] not in ("=", ";"):
                    q += 1
                if toks[q][1] == "=":
                    e = q
                    while toks[e][1] != ";":
                        e = match(toks, e) + 1 if toks[e][1] in OPEN else e + 1
                    found.append(show(toks[q + 1:e]))
            p = match(toks, p) + 1 if toks[p][1] in OPEN else p + 1
    if len(found) != 1:
        raise Lost("%d constants %s" % (len(found), path))
    return found[0]


def find_struct(src, name, drop):
    toks = no_attributes(strip(src))
    for i in range(len(toks) - 2):
        if toks[i][1] == "struct" and toks[i + 1][1] == name and toks[i + 2][1] == "{":
            e = match(toks, i + 2)
            fields, cur, d = [], [], 0
            for t in toks[i + 3:e]:
                if t[1] in ("(", "[", "{", "<"):
                    d += 1
                if t[1] in (")", "]", "}") or t[1] == ">":
                    d -= 1
                if t[1] == "," and d == 0:
                    fields.append(cur)
                    cur = []
                else:
                    cur.append(t)
            if cur:
                fields.append(cur)
            o = []
            for f in fields:
                j = 0
                if f[0][1] == "pub":
                    j = 1
                    if f[1][1] == "(":
                        j = match(f, 1) + 1
                if f[j][1] not in drop:
                    o.append("    pub " + show(f[j:]) + ",\n")
            return "pub struct %s {\n%s}\n" % (name, "".join(o))
    raise Lost("no struct " + name)


def drop_statements(toks):
    """logging and debug assertions"""
    o, i = [], 0
    while i < len(toks):
        t = toks[i][1]
        start = not o or o[-1][1] in (";", "{", "}", ",", "=>")
        if start and toks[i][0] == "id":
            j = None
            if t == "slog" and toks[i + 1][1] == "::" and toks[i + 3][1] == "!":
                j = i + 4
            if t in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and toks[i + 1][1] == "!":
                j = i + 2
            if j is not None:
                e = match(toks, j)
                i = e + 1
                if i < len(toks) and toks[i][1] == ";":
                    i += 1
                continue
        o.append(toks[i])
        i += 1
    return o


def expand_formats(toks):
    """format!("a{}b", x) -> cat!(b"a", x, b"b"), write!(f, ..) -> f.v_write(cat!(..))"""
    o, i = [], 0
    while i < len(toks):
        if toks[i][1] in ("format", "write") and i + 2 < len(toks) and toks[i + 1][1] == "!" and toks[i + 2][1] in "([{":
            e = match(toks, i + 2)
            args, cur = [], []
            k = i + 3
            while k < e:
                if toks[k][1] in OPEN:
                    m = match(toks, k)
                    cur += toks[k:m + 1]
                    k = m + 1
                    continue
                if toks[k][1] == ",":
                    args.append(cur)
                    cur = []
                else:
                    cur.append(toks[k])
                k += 1
            if cur:
                args.append(cur)
            to = show(args.pop(0)) if toks[i][1] == "write" else None
            if not args:
                raise Lost("a format without text")
            lit = args[0][0][1]
            if len(args[0]) != 1 or args[0][0][0] != "str" or not lit.startswith('"'):
                raise Lost("a format that is no literal")
            pieces, n = re.split(r"(\{\})", lit[1:-1]), 0
            if any("{" in p or "}" in p for p in pieces[::2]):
                raise Lost("a format with more than plain holes: " + lit)
            out = []
            for p in pieces:
                if p == "{}":
                    n += 1
                    if n >= len(args):
                        raise Lost("format: too few arguments")
                    out.append("d " + show(expand_formats(args[n])))
                elif p:
                    out.append('b b"%s"' % p)
            if n != len(args) - 1:
                raise Lost("format: too many arguments")
            cat = "cat!(" + " ; ".join(out) + ")"
            o.append(("x", "%s.v_write(%s)" % (to, cat) if to else cat))
            i = e + 1
            continue
        o.append(toks[i])
        i += 1
    return o


def subst(toks, old, new):
    pat = [t for _, t in strip(old)]
    o, i, n = [], 0, 0
    while i < len(toks):
        if [t for _, t in toks[i:i + len(pat)]] == pat:
            o.append(("x", new))
            i += len(pat)
            n += 1
            continue
        o.append(toks[i])
        i += 1
    return o, n


def closures(toks, want):
    """the n-th closure |p| E gets types, and E as its ensures"""
    o, i, n = [], 0, 0
    while i < len(toks):
        prev = o[-1][1] if o else ""
        if toks[i][1] in ("|", "||") and (prev in ("(", ",", "=", "{", ";", "return", "move", "")):
            j = i + 1 if toks[i][1] == "|" else i
            while toks[j][1] not in ("|", "||"):
                j += 1
            # the body: up to the bracket that closes the call, or a comma
            k = j + 1
            while k < len(toks) and toks[k][1] not in CLOSE and toks[k][1] not in (",", ";"):
                k = match(toks, k) + 1 if toks[k][1] in OPEN else k + 1
            body = closures(toks[j + 1:k], {})
            if n in want and want[n][1].startswith("("):
                o.append(("x", "|%s| -> %s { %s }" % (want[n] + (show(body),))))
            elif n in want:
                p, ty = want[n]
                e = show(body)
                if e.startswith("{") and match(body, 0) == len(body) - 1:
                    e = show(body[1:-1])
                o.append(("x", "|%s| -> (r_: %s) ensures r_ == (%s) { %s }" % (p, ty, e, e)))
            else:
                o += toks[i:j + 1] + body
            n += 1
            i = k
            continue
        o.append(toks[i])
        i += 1
    if any(k >= n for k in want):
        raise Lost("a closure is gone")
    return o


def with_panics(toks):
    """the panicking macros of std become calls of the shim `panics`"""
    o, i = [], 0
    while i < len(toks):
        if toks[i][0] == "id" and toks[i][1] in ("panic", "unreachable", "todo", "unimplemented", "assert", "assert_eq", "assert_ne") and i + 2 < len(toks) and toks[i + 1][1] == "!" and toks[i + 2][1] in OPEN:
            k = match(toks, i + 2)
            args, cur, j = [], [], i + 3
            while j < k:
                e = match(toks, j) if toks[j][1] in OPEN else j
                if toks[j][1] == ",":
                    args.append(cur)
                    cur = []
                else:
                    cur = cur + toks[j:e + 1]
                j = e + 1
            args.append(cur)
            if toks[i][1] == "assert":
                o += [("x", "if !(")] + with_panics(args[0]) + [("x", ") { panics() }")]
            elif toks[i][1] in ("assert_eq", "assert_ne"):
                o += [("x", "if !((")] + with_panics(args[0]) + [("x", ") == (" if toks[i][1] == "assert_eq" else ") != (")] + with_panics(args[1]) + [("x", ")) { panics() }")]
            else:
                o.append(("x", "panics()"))
            i = k + 1
            continue
        o.append(toks[i])
        i += 1
    return o


def function(src, path, d, vac, bare=False):
    sig, body = find_fn(src, path)
    if bare:
        body = [("x", "unimplemented!()")]
        d = dict(d, closure={}, loop={}, at=[])
        vac = False
    body = expand_formats(drop_statements(body))
    for old, new in d["rename"]:
        for i in range(1, len(body) - 1):
            if body[i] == ("id", old) and body[i - 1][1] == "." and body[i + 1][1] in ("(", "::"):
                body[i] = ("id", new)
    if d["diverges"]:
        body = with_panics(body)
    for old, new in d["subst"]:
        body, _ = subst(body, old, new)
        sig, _ = subst(sig, old, new)
    if d["literals"]:
        body = [("x", "Str::lit(%s)" % t) if k == "str" and t.startswith('"') else (k, t) for k, t in body]
    body = closures(body, d["closure"])
    # the signature
    i = 2
    if sig[i][1] == "<":
        i = angle(sig, i)
    e = match(sig, i)
    head, rest = sig[:e + 1], sig[e + 1:]
    where = ""
    w = [k for k, t in enumerate(rest) if t[1] == "where"]
    if w:
        where = " " + show(rest[w[0]:])
        rest = rest[:w[0]]
    ret = ""
    if rest and rest[0][1] == "->":
        ret = " -> (%s: %s)" % (d["ret"], show(rest[1:]))
    spec = d["spec"]
    out = ("#[verifier::external_body]\n" if bare else d["attr"]) + ("pub " if d["pub"] else "") + show(head) + ret + where + "\n" + spec + "\n{\n"
    # loops
    toks, res, n, i = body, [], 0, 0
    ghost = list(d["at"])
    used = set()
    # the tail expression starts behind the last statement
    tail, k = 0, 0
    while k < len(toks):
        if toks[k][1] in OPEN and toks[k][0] == "p":
            b = toks[k][1]
            k = match(toks, k)
            if b == "{" and k + 1 < len(toks) and toks[k + 1][1] not in (".", "?", ")", ";", "else"):
                tail = k + 1
        elif toks[k][1] == ";":
            tail = k + 1
        k += 1
    while i < len(toks):
        for gi, (how, pat, text) in enumerate(ghost):
            p = [t for _, t in strip(pat)] if how in ("before", "after") else []
            if how == "head" and i == 0 or how == "tail" and i == tail and gi not in used:
                res.append("\n" + text + "\n")
                used.add(gi)
            if how == "before" and [t for _, t in toks[i:i + len(p)]] == p and gi not in used:
                res.append("\n" + text + "\n")
                used.add(gi)
        t = toks[i][1]
        if toks[i][0] == "id" and t in ("while", "for", "loop"):
            k = i + 1
            while toks[k][1] != "{":
                k = match(toks, k) + 1 if toks[k][1] in ("(", "[") else k + 1
            hd = show(toks[i:k])
            if n in d["loopvar"]:
                # for x in E -> for x in NAME: E
                hd = re.sub(r"^(for .*? in) ", r"\1 %s: " % d["loopvar"][n], hd)
            res.append(hd + "\n" + d["loop"].get(n, "") + "\n")
            for gi, (how, pat, text) in enumerate(ghost):
                if how == "body" and pat == n:
                    res.append("{\n" + text + "\n")
                    used.add(gi)
                    k += 1
            n += 1
            i = k
            continue
        res.append(t)
        for gi, (how, pat, text) in enumerate(ghost):
            p = [t for _, t in strip(pat)] if how in ("before", "after") else []
            if how == "after" and [t for _, t in toks[i - len(p) + 1:i + 1]] == p and gi not in used:
                res.append("\n" + text + "\n")
                used.add(gi)
        i += 1
    if len(used) != len(ghost):
        raise Lost("%s: the place for a proof step is gone" % path)
    if d["loop"] and max(d["loop"]) >= n:
        raise Lost("%s: a loop is gone" % path)
    text = " ".join(res)
    if vac:
        # the end of the function must be reachable: this assertion must fail
        text = "let vac_ = {\n" + text + "\n}; assert(false); vac_"
    return out + text + "\n}\n"


def directives(lines, i):
    """the directives of the //@fn at line i, and the line of its //@end"""
    d = dict(ret="result", pub=False, literals=False, diverges=False, attr="", rename=[], subst=[], closure={}, spec="", loop={}, loopvar={}, at=[])
    i += 1
    where, buf = None, []

    def flush():
        t = "\n".join(buf)
        if where == "spec":
            d["spec"] = t
        elif where and where[0] == "loop":
            d["loop"][where[1]] = t
        elif where:
            d["at"].append((where[0], where[1], t))
        buf.clear()
    while lines[i].strip() != "//@end":
        x = lines[i].strip()
        if x.startswith("//@"):
            flush()
            where = None
            w = x[3:].split(" ", 1)
            a = w[1].strip() if len(w) > 1 else ""
            if w[0] == "ret":
                d["ret"] = a
            elif w[0] == "pub":
                d["pub"] = True
            elif w[0] == "attr":
                d["attr"] = a + "\n"
            elif w[0] == "diverges":
                d["diverges"] = True
            elif w[0] == "literals":
                d["literals"] = True
            elif w[0] == "rename":
                d["rename"].append(tuple(a.split()))
            elif w[0] == "subst":
                d["subst"].append(tuple(y.strip() for y in a.split("=>", 1)))
            elif w[0] == "closure":
                n, p = a.split(" ", 1)
                p, ty = p.split("->", 1)
                d["closure"][int(n)] = (p.strip(), ty.strip())
            elif w[0] == "spec":
                where = "spec"
            elif w[0] == "loop":
                b = a.split()
                where = ("loop", int(b[0]))
                if len(b) > 1:
                    d["loopvar"][int(b[0])] = b[1]
            elif w[0] in ("before", "after"):
                where = (w[0], a)
            elif w[0] == "body":
                where = ("body", int(a))
            elif w[0] in ("head", "tail"):
                where = (w[0], "")
            else:
                raise ValueError(x)
        else:
            buf.append(lines[i])
        i += 1
    flush()
    return d, i


def build(name, vac=False, aside=None):
    """the text for Verus, and the extracted functions; of those in `aside` only the contract is kept"""
    aside = {} if aside is None else aside
    lines = open(os.path.join(ROOT, "verus", name + ".rs")).read().split("\n")
    inc = []
    for l in lines:
        if l.startswith("//@include "):
            inc += open(os.path.join(ROOT, "verus", l.split()[1])).read().split("\n")
        else:
            inc.append(l)
    lines, out, fns, i = inc, [], [], 0

    def source(f):
        try:
            return open(os.path.join(l2.REPO, f)).read()
        except OSError:
            raise Lost(f + " is gone")
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith("//@struct "):
            w = l.split()
            out.append(find_struct(source(w[1]), w[2], {x[1:] for x in w[3:] if x.startswith("-")}))
        elif l.startswith("//@const "):
            w = l.split()
            toks = no_attributes(strip(source(w[1])))
            k = [j for j in range(len(toks) - 1) if toks[j][1] in ("const", "static") and toks[j + 1][1] == w[2]]
            if len(k) != 1:
                raise Lost("no constant " + w[2])
            e = k[0]
            while toks[e][1] != ";":
                e = match(toks, e) + 1 if toks[e][1] in OPEN else e + 1
            out.append(("exec " if "exec" in w[3:] else "") + ("pub " if "exec" not in w[3:] else "") + show(toks[k[0]:e]).replace(": & str", ": &'static str") + ";")
        elif l.startswith("//@fn "):
            _, f, path = l.split(" ", 2)
            d, i = directives(lines, i)
            try:
                text = function(source(f), path, d, vac, path in aside)
            except Lost as e:
                # this function is undecided; what calls it still relies on its contract
                aside.setdefault(path, str(e))
                try:
                    text = function(source(f), path, d, vac, True)
                except Lost:
                    text = ""
            at = sum(x.count("\n") + 1 for x in out) + 1
            fns.append((path, at, at + text.count("\n"), not d["diverges"]))
            out.append(text)
        elif l.startswith("//@value "):
            a, text = l[9:].split("=>", 1)
            f, path = a.strip().split(" ", 1)
            out.append(text.replace("$", find_value(source(f), path.strip())))
        elif l.startswith("//@contract "):
            _, f, path = l.split(" ", 2)
            other = open(os.path.join(ROOT, "verus", f + ".rs")).read().split("\n")
            k = [n for n, x in enumerate(other) if x.startswith("//@fn ") and x.strip().split(" ", 2)[2] == path]
            d, _ = directives(other, k[0])
            out.append(function(source(other[k[0]].split()[1]), path, d, False, True))
        else:
            out.append(lines[i])
        i += 1
    return "\n".join(out), fns


def assumed(name):
    """the functions whose contracts the file assumes (their bodies are not verified)"""
    o = []
    for f in [name + ".rs"] + [l.split()[1] for l in open(os.path.join(ROOT, "verus", name + ".rs")) if l.startswith("//@include ")]:
        text = open(os.path.join(ROOT, "verus", f)).read()
        for m in re.finditer(r"external_body\]\n\s*(?:pub )?(?:proof )?(?:fn|struct) (\w+)|assume_specification.*?\[std::(\S+)\]", text):
            if m.group(0).split()[-2] != "struct":
                o.append("%s: %s" % (f, m.group(1) or m.group(2)))
    return o


class Proof:
    """what Verus says of one contract file"""
    def __init__(self):
        self.note, self.cmd, self.seconds, self.output = "", "", 0.0, ""
        self.verified = self.errors = None
        self.fns = []           # (path, first line, last line, its end is reachable)
        self.of = {}            # path -> messages
        self.elsewhere = []
        self.aside = {}         # path -> why its text could not be used
        self.text = []          # the lines that were verified

    def lines_of(self, path):
        return "\n".join("\n".join(self.text[f[1] - 1:f[2]]) for f in self.fns if f[0] == path)


def verify(name, vac=False, timeout=120):
    p = Proof()
    os.makedirs(W, exist_ok=True)
    f = os.path.join(W, "%s%s.rs" % (name, "_vac" if vac else ""))
    cmd = ["verus", f, "--triggers-mode", "silent", "--multiple-errors", "20" if not vac else "1"]
    p.cmd = " ".join(cmd)
    t = time.time()
    while True:
        try:
            text, p.fns = build(name, vac, p.aside)
        except Lost as e:
            p.note = str(e)
            return p
        with open(f, "w") as h:
            h.write(text)
        p.text = text.split("\n")
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(timeout - (time.time() - t), 10), cwd=W, env=l2.env())
        except subprocess.TimeoutExpired:
            p.note = "timeout"
            return p
        except OSError as e:
            p.note = str(e)
            return p
        p.seconds = time.time() - t
        o = p.output = r.stdout.decode(errors="replace")
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
        # a text that does not compile has no results
        if m and not re.search(r"^error\[E\d+\]", o, re.M):
            break
        # the functions that are not accepted are set aside, the others still verified
        more = {}
        for e in re.finditer(r"^(error.*)\n\s+--> ([^\n]*?):(\d+):\d+\n", o, re.M):
            for path, a, b, _ in p.fns:
                if a <= int(e.group(3)) <= b and path not in p.aside and e.group(2) == f:
                    more.setdefault(path, "the text is not accepted: " + e.group(1)[:200])
        if not more or p.seconds > timeout / 2:
            p.note = "the text is not accepted: " + (re.findall(r"^error.*", o, re.M) or ["?"])[0][:200]
            return p
        p.aside.update(more)
    p.verified, p.errors = int(m.group(1)), int(m.group(2))
    for e in re.finditer(r"^error: (.*)\n\s+--> [^\n]*?:(\d+):\d+\n(?:.*\n){0,6}", o, re.M):
        if e.group(1).startswith("aborting"):
            continue
        l = int(e.group(2))
        for path, a, b, _ in p.fns:
            if a <= l <= b:
                p.of.setdefault(path, []).append((e.group(1), e.group(0)))
                break
        else:
            p.elsewhere.append(e.group(1))
    return p


if __name__ == "__main__":
    import sys
    for n in sys.argv[1:]:
        vac = n.startswith("!")
        p = verify(n.lstrip("!"), vac)
        if vac:
            print(n, p.note, "%d ends reached of %d" % (len([1 for f in p.fns if f[3] and any("assertion failed" in m for m, _ in p.of.get(f[0], []))]), len([1 for f in p.fns if f[3]])), p.elsewhere)
        else:
            print(n, p.verified, p.errors, "%.1f s" % p.seconds, p.note, len(p.fns))
            if p.errors or p.note:
                print(p.output[:8000])
