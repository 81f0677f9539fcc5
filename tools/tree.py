#!/usr/bin/env python3
"""development: all of the given properties on one tree (VERIF_REPO) at once, each unit run once

tree.py [--no-proof|--no-search] [ID...]      one line for each property that doesn't hold or has units without an answer"""
import os, sys, time, threading, collections
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "vlib"), os.path.join(ROOT, "tools")]
import units, kani, verus, search, l2, gen, ptest, oracle, model
a = sys.argv[1:]
opts = {x for x in a if x.startswith("--")}
props = [x for x in a if not x.startswith("--")] or ["C%02d" % i for i in range(1, 29)]

outs = collections.defaultdict(list)


def prove():
    todo = [u for u in units.UNITS if u.tier == "quick" and set(props) & set(u.props)]
    vtodo = [u for u in units.VUNITS if set(props) & set(u.props)]
    proofs = {}

    def one(f, vac):
        proofs[f, vac] = verus.verify(f, vac)
    ths = [threading.Thread(target=one, args=(f, v)) for f in sorted({u.file for u in vtodo}) for v in (False, True)]
    for t in ths:
        t.start()
    by = collections.defaultdict(list)
    for u in todo:
        by[u.package].append(u)
    for pkg, us in by.items():
        try:
            res, note, wall, cmd = kani.run(pkg, [u.harness for u in us], 900, each=240)
        except kani.Lost as e:
            res, note, cmd = {}, str(e), ""
        for u in us:
            for p in props:
                if p in u.props:
                    outs[p].append(units.judge(u, p, res.get(u.harness), note, cmd))
    for t in ths:
        t.join()
    seen = set()
    for u in vtodo:
        o = units.judge_verus(u, proofs[u.file, False], proofs[u.file, True], u.file not in seen)
        seen.add(u.file)
        for p in props:
            if p in u.props:
                outs[p].append(o)


found = collections.defaultdict(list)


def look():
    pair = [p for p in props if p in search.PAIR]
    if pair:
        fams = list(dict.fromkeys(f for p in pair for f in search.PAIR[p][0])) + [gen.d_others, gen.d_long, lambda: gen.sessions(1, 1500), lambda: gen.sessions(1, 300, "signal")]
        path = l2.build_for("pair")
        for f in fams:
            by = collections.defaultdict(list)
            for s in f():
                by[s.sym].append(s)
            for sym, ss in by.items():
                for s, r in zip(ss, l2.execute(ss, path, sym)):
                    for p in pair:
                        if found[p]:
                            continue
                        cks = search.PAIR[p][1]
                        o = search.judge(p, "pair", s, r, cks)
                        if o and search.judge(p, "pair", s, l2.execute([s], path, sym)[0], cks):
                            found[p].append("; ".join(o)[:250])
                            if "--first" in opts:
                                return
    for p in props:
        if p in search.TEST or p in ("C28", "C27", "C19"):
            old = search.PAIR.pop(p, None)
            try:
                search.search(p, 1, "quick", time.time() + 600)
            except search.Found as f:
                found[p].append(f.what[:250])
                if "--first" in opts:
                    return
            finally:
                if old:
                    search.PAIR[p] = old


t0 = time.time()
th = threading.Thread(target=prove)
if "--no-proof" not in opts:
    th.start()
err = ""
if "--no-search" not in opts:
    try:
        look()
    except l2.BuildError as e:
        err = "DOES NOT BUILD " + str(e)[-500:]
if "--no-proof" not in opts:
    th.join()
bad = 0
print(err, end="\n" if err else "")
for p in props:
    failed = [o for o in outs[p] if o.status == "failed"]
    und = [o for o in outs[p] if o.status == "undecided"]
    if found[p] or failed:
        bad += 1
        print("%s ALARM%s %s | %s" % (p, "" if found[p] else " NOINPUT", (found[p] or ["-"])[0], "; ".join(f for o in failed for f in o.failures)[:300].replace("\n", " ")))
    if und:
        print("%s undecided %d/%d: %s (%s)" % (p, len(und), len(outs[p]), ", ".join(o.unit for o in und)[:120], und[0].note.strip().split("\n")[-1][:160]))
print("%s in %.0f s" % ("%d alarms" % bad if bad else "quiet", time.time() - t0))
