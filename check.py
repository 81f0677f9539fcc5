#!/usr/bin/env python3
"""Decide one property:  check.py ID [--tier quick|thorough]   |   check.py --replay FILE

Exit 0: held. Exit 1 with a VIOLATION line: broken."""
import os, sys, time, json, hashlib, threading, argparse, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import kani, l2, search, units

EV = os.path.join(ROOT, "evidence")


def replay_file(prop, text):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(text)
    return p


def known(prop):
    """listed findings of this property: (key, text)"""
    o = []
    try:
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                o.append(l.split(" ", 2)[2])
    except OSError:
        pass
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true", help="for development: only the search")
    ap.add_argument("--no-search", action="store_true", help="for development: only the proof")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    # the proof runs beside the search
    proof = {}

    def prove():
        try:
            proof["r"] = [] if a.no_proof else units.prove(prop, tier)
        except Exception:
            proof["r"] = [units.Outcome("all", "undecided", note="internal: " + traceback.format_exc()[-1500:])]
    th = threading.Thread(target=prove)
    th.start()

    res, found, builderr = search.Result(), None, None
    limit = t0 + (420 if tier == "quick" else 3000)
    try:
        if not a.no_search:
            search.search(prop, seed, tier, limit, res)
    except search.Found as f:
        found = f
    except l2.BuildError as e:
        builderr = str(e)
    if found and tier == "quick":
        # the failing input decides; the proof gets a while to name the obligation
        th.join(60)
        if th.is_alive():
            kani.stop()
    th.join()
    outs = proof["r"]
    failed = [o for o in outs if o.status == "failed"]
    undecided = [o for o in outs if o.status == "undecided"]
    if not found and undecided and not builderr and not a.no_search and tier == "quick":
        # where the proof gives no answer the search looks further
        try:
            for i in range(3):
                search.search(prop, seed + 7919 * (i + 1), tier, limit, res)
        except search.Found as f:
            found = f
        except l2.BuildError as e:
            builderr = str(e)

    rc = 0
    if found:
        text = "property %s\nobject %s %s\nfailure %s\n" % (prop, found.so, found.scn.sym if found.scn else "-", found.what)
        text += "\nhow to replay: python3 /verif/check.py --replay THIS-FILE (runs the real code under the simulated kernel)\n"
        for o in failed:
            text += "\nfailed obligation in %s: %s\n" % (o.unit, "; ".join(o.failures)[:2000])
        if found.scn:
            text += "\n--- scenario\n" + found.scn.text() + "--- run\n" + "\n".join(l[:400] for l in found.run.lines[:400]) + "\n"
        p = replay_file(prop, text)
        print("failing input: " + found.what[:500].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    elif failed:
        text = "property %s\nno failing input was found by %d runs of the real code\n" % (prop, res.evaluations)
        for o in failed:
            text += "\nunit %s\ncommand %s\nfailed obligations:\n  %s\nverifier output:\n%s\n" % (o.unit, o.cmd, "\n  ".join(o.failures), o.output)
        p = replay_file(prop, text)
        print("failed obligation: " + "; ".join(failed[0].failures)[:500].replace("\n", " "))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        rc = 1
    elif builderr and not any(o.status == "proved" for o in outs):
        print("the code under test could not be built: " + builderr[-600:], file=sys.stderr)
        rc = 2

    write_evidence(prop, tier, seed, outs, res, builderr, rc, time.time() - t0)
    for o in undecided:
        print("undecided: %s (%s)" % (o.unit, o.note.strip().split("\n")[-1][:200]))
    print("%s: %s; proof units: %s; %d runs of the real code; %.1f s" % (
        prop, "held" if rc == 0 else "BROKEN" if rc == 1 else "error",
        ", ".join("%s %s" % (o.unit, o.shown()) for o in outs) or "none", res.evaluations, time.time() - t0))
    return rc


def write_evidence(prop, tier, seed, outs, res, builderr, rc, wall):
    full = [o for o in outs if not o.bounded]
    bnd = [o for o in outs if o.bounded]
    proved = full and all(o.status == "proved" for o in full)
    level = "proof" if proved and units.LEVEL.get(prop) == "proof" else "other"
    cov = {
        "obligations": sum(o.total for o in full), "discharged": sum(o.passed for o in full),
        "checker_cmd": "; ".join(dict.fromkeys(o.cmd for o in outs if o.cmd)) or "none",
        "trusted_base": units.trusted(prop),
        "proof_units": [o.json() for o in full],
        "bounded_units": [o.json() for o in bnd],
        "functions_under_contract": units.functions(prop),
        "solver_seconds": round(sum(o.seconds for o in outs), 2),
        "evaluations": res.evaluations, "distinct_nontrivial": len(res.keys),
        "rule": "counterexample search (never counted as proof): directed and random sessions on the shared object built from /repo, under a simulated kernel; a run is distinct when its event trace is",
        "samples": res.samples[:3],
    }
    if level != "proof":
        cov["explanation"] = ("The obligations of the listed proof units were discharged for the functions they name; " if proved else
                              "Not every proof unit gave an answer on this tree: ") + \
            "; ".join("%s: %s%s" % (o.unit, o.status, " (bounded: %s)" % o.bounded if o.bounded else "") for o in outs) + \
            ". Bounded units and the search on the real code are not counted as proved."
    if res.notes:
        cov["notes"] = res.notes[:10]
    if builderr:
        cov["build_error"] = builderr[-800:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": units.assumptions(prop),
          "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    p = os.path.join(EV, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    t = open(path).read()
    if "--- scenario\n" not in t:
        print(t)
        return 0
    so, sym = [l for l in t.split("\n") if l.startswith("object ")][0].split()[1:3]
    import subprocess
    scn = t.split("--- scenario\n", 1)[1].split("--- run\n", 1)[0]
    o = l2.build_for(so)
    r = subprocess.run([os.path.join(l2.WORK, "driver"), o, sym], input=("== 0\n" + scn).encode(), stdout=subprocess.PIPE)
    sys.stdout.write(r.stdout.decode(errors="replace"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
