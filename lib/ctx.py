"""Check context: obligations, violations, evidence, known findings."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))

from repo import Repo                      # noqa: E402
from engine import Interp, Broken, show    # noqa: E402


class Ctx(object):
    def __init__(self, prop, tier="quick", seed=1, repo=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.repo = repo or Repo()
        self._obl = {}           # (rule, construct) -> ok on every path
        self.judged = 0
        self.viol = []
        self.rules = {}
        self.funcs = set()
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.floors = {}

    # ------------------------------------------------------------------ reporting
    def rule(self, name, text):
        self.rules[name] = text

    def check(self, rule, subject, ok, msg="", where=""):
        """One obligation. `subject` names the construct (stable key, no line numbers)."""
        if rule not in self.rules:
            raise Broken("rule %s not declared" % rule)
        self.judged += 1
        k = (rule, subject)
        if k not in self._obl:
            self._obl[k] = True
        self._obl[k] = self._obl[k] and bool(ok)
        if not ok and not any(v["rule"] == rule and v["construct"] == subject for v in self.viol):
            self.viol.append({"rule": rule, "construct": subject, "message": msg, "where": where})
        return ok

    @property
    def obl(self):
        return [(r, s, ok) for (r, s), ok in self._obl.items()]

    def floor(self, rule, n):
        """The rule must have judged at least n constructs: anything less means the analysis lost its subject."""
        self.floors[rule] = n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def used(self, interp):
        self.funcs |= interp.inlined

    # ------------------------------------------------------------------ anchors
    def func(self, dotted, optional=False):
        f = self.repo.resolve_dotted(dotted)
        if f is None and not optional:
            raise Broken("anchor vanished: %s" % dotted)
        return f

    def per_rule(self):
        r = {}
        for a, s, ok in self.obl:
            x = r.setdefault(a, [0, 0])
            x[0] += 1
            x[1] += ok
        return r


def load_known(path):
    known = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("{"):
                known.append(json.loads(ln))
    return known


def main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    broken = None
    ctx = None
    try:
        ctx = Ctx(a.prop, a.tier, seed)
        if ctx.repo.broken:
            raise Broken("unparsable source files: %s" % ", ".join(map(str, ctx.repo.broken)))
        sys.path.insert(0, HERE)
        mod = importlib.import_module("rules." + a.prop.lower())
        mod.run(ctx)
        got = ctx.per_rule()
        for r, n in ctx.floors.items():
            if got.get(r, [0])[0] < n:
                raise Broken("rule %s judged %d constructs, expected at least %d" % (r, got.get(r, [0])[0], n))
        if not ctx.obl:
            raise Broken("no obligation generated")
    except Broken as e:
        broken = "analysis broken: %s" % e
    except Exception:
        broken = "analysis broken:\n" + traceback.format_exc()
    known = [k for k in load_known(os.path.join(HERE, "known_findings.jsonl")) if k.get("property") == a.prop and k.get("kind") != "fixed"]
    fresh, seen = [], []
    for v in (ctx.viol if ctx else []):
        for k in known:
            if k["rule"] == v["rule"] and k["construct"] == v["construct"]:
                seen.append((k, v))
                break
        else:
            fresh.append(v)
    done = set()
    for k, v in seen:
        key = (k["rule"], k["construct"])
        if key not in done:
            done.add(key)
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k["construct"], k.get("what", "")))
    tot = len(ctx.obl) if ctx else 0
    ok = sum(1 for o in ctx.obl if o[2]) if ctx else 0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source tree of /repo (nothing is executed): each rule below was evaluated at every "
                           "construct it quantifies over; an obligation is one (rule, construct) pair.",
            "rules": {r: {"text": t, "obligations": (ctx.per_rule().get(r) or [0, 0])[0], "discharged": (ctx.per_rule().get(r) or [0, 0])[1]}
                      for r, t in (ctx.rules.items() if ctx else [])},
            "obligations": tot, "discharged": ok, "path_instances_judged": ctx.judged if ctx else 0,
            "functions_interpreted": sorted(ctx.funcs) if ctx else [],
            "functions_interpreted_count": len(ctx.funcs) if ctx else 0,
            "modules_parsed": len(ctx.repo.modules) if ctx else 0,
            "counts": ctx.counts if ctx else {},
            "samples": [{"rule": r, "construct": s, "ok": o} for r, s, o in (ctx.obl[:40] if ctx else [])],
            "known_findings": len(done),
        },
        "assumptions": (ctx.assumptions if ctx else []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    if broken:
        ev["coverage"]["broken"] = broken
    if ctx and ctx.notes:
        ev["coverage"]["notes"] = ctx.notes
    with open(os.path.join(evid, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if a.v and ctx:
        for o in ctx.obl:
            print("  %s %s %s" % ("ok  " if o[2] else "FAIL", o[0], o[1]))
    if fresh:
        rep = os.path.join(evid, a.prop + ".report.txt")
        with open(rep, "w") as f:
            for v in fresh:
                f.write("rule %s (%s)\n  construct: %s\n  where: %s\n  %s\n\n" % (v["rule"], ctx.rules[v["rule"]], v["construct"], v["where"], v["message"]))
        for v in fresh[:12]:
            print("%s: %s [%s] %s" % (v["rule"], v["construct"], v["where"], str(v["message"])[:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
        return 1
    if broken:
        print(broken)
        return 3
    print("%s: %d obligations, %d discharged, %d rules, %d functions interpreted, %.1fs" % (a.prop, tot, ok, len(ctx.rules), len(ctx.funcs), time.time() - t0))
    return 0
