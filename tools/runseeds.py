#!/usr/bin/env python3
"""runseeds.py [id...]: apply each seeded change to /repo, run its property's quick check, undo (developer tool)."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(): sys.exit("repo dirty")
    a = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
    t = time.time()
    r = sh("VERIF_SEED=1 VERIF_TIER=quick /verif/check %s quick" % p)
    sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    hit = r.returncode == 1 and any("property=%s " % p in l for l in v)
    print("%-28s %s %s %.0fs %s" % (i, p, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, time.time() - t, (r.stdout.strip().splitlines() or [""])[0][:160] if hit else r.stdout[-600:]), flush=True)
