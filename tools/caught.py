#!/usr/bin/env python3
"""Which planted changes do the checks report?  (patches are applied to an in-memory overlay of the sources)"""
import json, os, re, subprocess, sys, tempfile, shutil
from multiprocessing import Pool
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    i, p = job
    d = tempfile.mkdtemp(prefix="caught.", dir="/tmp")
    try:
        patch = os.path.join(ROOT, "seeded", i, "patch.diff")
        files = re.findall(r"^--- a/(.*)$", open(patch).read(), re.M)
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copy(os.path.join("/repo", f), os.path.join(d, f))
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + d, patch], cwd=d, stderr=subprocess.DEVNULL) if False else subprocess.check_call(["patch", "-s", "-p1", "-i", patch], cwd=d)
        code = ("import sys,os,importlib\nsys.path[:0]=[%r,%r]\nimport repo\n" % (os.path.join(ROOT, "lib"), ROOT)
                + "".join("repo.OVERLAY[os.path.join(repo.REPO,%r)]=open(%r,'rb').read()\n" % (f, os.path.join(d, f)) for f in files)
                + "from ctx import Ctx\nc=Ctx(%r)\nimportlib.import_module('rules.'+%r).run(c)\nprint(len(c.viol), '; '.join(x['rule']+': '+x['construct'] for x in c.viol)[:200])\n" % (p, p.lower()))
        o = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
        return i, p, o.stdout.strip().splitlines()[-1] if o.returncode == 0 else "BROKEN " + o.stderr[-300:]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sel = sys.argv[1:]
    jobs = []
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        p = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))["property"]
        if sel and i not in sel and p not in sel:
            continue
        jobs.append((i, p))
    with Pool(8) as pool:
        for i, p, r in pool.imap(one, jobs):
            print("%-22s %s %s" % (i, p, r))
