"""Layer 2: look for a failing input of one property on the real code.

Scenarios (directed families plus random sessions) are run on the shared
objects that cargo builds from /repo, under the simulated kernel of
l2/driver.c, and each run is judged against the property's oracle. A violation
is reported only when it shows again in a second run of the same scenario.
"""
import os, time, collections
import l2, gen, oracle, model, ptest

PAIR = {
    "C01": ([gen.d_gate], [oracle.C01, oracle.EINTR]),
    "C02": ([gen.d_exempt], [oracle.C02]),
    "C03": ([gen.d_group], [oracle.C03]),
    "C04": ([gen.d_socket], [oracle.C04]),
    "C05": ([gen.d_socket], [oracle.C05]),
    "C06": ([gen.d_dir], [oracle.C06]),
    "C07": ([gen.d_socket], [oracle.C07]),
    "C08": ([gen.d_output], [oracle.C08]),
    "C09": ([gen.d_exempt], [oracle.C09]),
    "C10": ([gen.d_output], [oracle.C10]),
    "C11": ([gen.d_close], [oracle.C11]),
    "C12": ([gen.d_prompts], [oracle.C12]),
    "C13": ([gen.d_prompts], [oracle.C13]),
    "C14": ([gen.d_signal, gen.d_gate], [oracle.C14, oracle.EINTR]),
    "C16": ([gen.d_gate], [oracle.C16pair]),
}
TEST = {k: (list(v), [getattr(ptest, k)]) for k, v in ptest.GEN.items()}
TEST["C27"] = ([ptest.g_slots], [ptest.C27])
# generators of the test plugin that take a seed and a count
SEEDED = {}
for f in (ptest.g_life, ptest.g_versions, ptest.g_lists, ptest.g_types, ptest.g_fields, ptest.g_invocation, ptest.g_groups, ptest.g_print):
    SEEDED[f] = True


class Found(Exception):
    def __init__(self, what, scn, run, so):
        self.what, self.scn, self.run, self.so = what, scn, run, so


class Result:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.facts = 0
        self.found = None
        self.notes = []


def batches(prop, seed, tier):
    """yield (so, sym-or-None, [scenario], [checker])"""
    deep = tier == "thorough"
    if prop in PAIR:
        fams, cks = PAIR[prop]
        for f in fams:
            yield "pair", f(), cks
        yield "pair", gen.d_others(), cks
        yield "pair", gen.d_long(), cks
        yield "pair", gen.sessions(seed, 1500), cks
        yield "pair", gen.sessions(seed, 300, "signal"), cks
        for i in range(40 if deep else 0):
            yield "pair", gen.sessions(seed * 1000 + i + 1, 2000), cks
            if i % 4 == 0:
                yield "pair", gen.sessions(seed * 1000 + i + 1, 1000, "signal"), cks
    if prop in TEST:
        gs, cks = TEST[prop]
        for g in gs:
            yield "test", (g(seed) if g in SEEDED else g()), cks
        for i in range(25 if deep else 0):
            for g in gs:
                if g in SEEDED:
                    yield "test", g(seed * 1000 + i + 1), cks
    if prop == "C28":
        yield "deny", ptest.g_deny(), [ptest.C28]
    if prop in ("C27", "C19"):
        yield "tables", None, None


def judge(prop, so, s, r, cks):
    env = model.Env(s) if so == "pair" else None
    o = list((oracle if so == "pair" else ptest).died(r))
    for ck in cks:
        o += [m for m in ck(s, r, env) if m not in o]
    return o


def search(prop, seed, tier, deadline, res=None):
    """fills a Result; raises Found; l2.BuildError when the code cannot be built"""
    res = res if res is not None else Result()
    for so, scns, cks in batches(prop, seed, tier):
        if so == "tables":
            c27, c19, n, nv = ptest.tables()
            bad = c27 if prop == "C27" else c19
            res.facts += n if prop == "C27" else nv
            res.evaluations += n if prop == "C27" else nv
            res.keys.update("%s%d" % (prop, i) for i in range(n if prop == "C27" else min(nv, 100000)))
            if bad:
                raise Found("; ".join(bad[:6]), None, None, "tables")
            res.samples.append("exported tables and version helpers read through the C header: %d facts, %d version words" % (n, nv))
            continue
        if time.time() > deadline:
            res.notes.append("stopped at the time limit")
            break
        path = l2.build_for(so)
        by = collections.defaultdict(list)
        for s in scns:
            by[s.sym].append(s)
        for sym, ss in by.items():
            for s, r in zip(ss, l2.execute(ss, path, sym)):
                res.evaluations += 1
                res.keys.add("\n".join(l[:80] for l in r.lines))
                o = judge(prop, so, s, r, cks)
                if not o:
                    continue
                r2 = l2.execute([s], path, sym)[0]
                o2 = judge(prop, so, s, r2, cks)
                if o2:
                    raise Found("; ".join(o2[:6]), s, r2, so)
                res.notes.append("not reproduced: " + o[0][:200])
            if ss:
                res.samples.append(ss[len(ss) // 2].text()[:1500])
    return res
