#!/usr/bin/env python3
"""Two-sided self-test of the checks: every entry of mutants.py is one edit of the source tree, analysed through an
in-memory overlay (nothing is written).  kind "bug" must be reported, kind "ref" (behaviour preserving) must stay quiet."""
import io
import os
import sys
import importlib
import traceback
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT, os.path.join(ROOT, "selftest")]


def one(job):
    m, prop, apply = job
    import repo
    from ctx import Ctx
    from engine import Broken
    if apply:
        for (f, old, new) in m["edits"]:
            p = os.path.join(repo.REPO, f)
            src = repo.OVERLAY.get(p) or open(p, "rb").read()
            o, n = old.encode(), new.encode()
            if src.count(o) < 1:
                return m, prop, "STALE", "pattern not found in %s: %r" % (f, old[:60])
            if src.count(o) > 1 and not m.get("all"):
                return m, prop, "STALE", "pattern occurs %d times in %s: %r" % (src.count(o), f, old[:60])
            repo.OVERLAY[p] = src.replace(o, n)
    try:
        c = Ctx(prop)
        if c.repo.broken:
            return m, prop, "STALE", "does not parse: %s" % c.repo.broken
        mod = importlib.import_module("rules." + prop.lower())
        mod.run(c)
        import ctx as cm
        known = [k for k in cm.load_known(os.path.join(ROOT, "known_findings.jsonl")) if k.get("property") == prop and k.get("kind") != "fixed"]
        v = [x for x in c.viol if not any(k["rule"] == x["rule"] and k["construct"] == x["construct"] for k in known)]
        if v:
            return m, prop, "VIOLATION", "; ".join("%s: %s" % (x["rule"], x["construct"]) for x in v[:4])
        got = c.per_rule()
        for r, n in c.floors.items():
            if got.get(r, [0])[0] < n:
                return m, prop, "BROKEN", "floor %s" % r
        return m, prop, "QUIET", ""
    except Broken as e:
        v = c.viol
        return m, prop, ("VIOLATION" if v else "BROKEN"), str(e)
    except Exception:
        return m, prop, "BROKEN", traceback.format_exc()[-500:]


def main():
    import mutants
    props = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, "rules"))) if f.startswith("c") and f.endswith(".py")]
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    jobs = []
    for m in mutants.M:
        own = m["name"].split("-")[0].upper() if m["kind"] == "ref" else None
        if sel and not (m["name"] in sel or m["prop"] in sel or own in sel):
            continue
        if own in sel and m["name"] not in sel:
            jobs.append((m, own, True))
            continue
        if m["kind"] == "bug":
            jobs.append((m, m["prop"], True))
        else:
            for p in (props if not m.get("only") else m["only"]):
                jobs.append((m, p, True))
    bad = 0
    with Pool(8, maxtasksperchild=1) as pool:
        for m, p, res, msg in pool.imap_unordered(one, jobs, chunksize=1):
            want = "VIOLATION" if m["kind"] == "bug" else "QUIET"
            ok = res == want
            bad += not ok
            if not ok or "-v" in sys.argv:
                print("%s %s/%s %s: %s %s" % ("ok  " if ok else "BAD ", m["kind"], p, m["name"], res, msg[:300]))
    print("%d jobs, %d unexpected" % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
