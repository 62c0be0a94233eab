#!/usr/bin/env python3
"""refactor.py SPEC.py [id...]: try behaviour-preserving edits in a scratch copy: the checks must stay quiet and decided (developer tool)."""
import os, re, runpy, subprocess, sys, time
W = "/tmp/rf"
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if not os.path.isdir(W + "/repo"):
    os.makedirs(W, exist_ok=True); sh("cp -a /repo %s/repo" % W)
sh("mkdir -p %s/verif && rsync -a --delete --exclude .git --exclude seeded /verif/ %s/verif/ || (rm -rf %s/verif && cp -a /verif %s/verif)" % (W, W, W, W))
specs = runpy.run_path(sys.argv[1])["SPECS"]
for s in specs:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    sh("git checkout -q -- .", W + "/repo")
    bad = False
    for f, old, new in s["edits"]:
        p = os.path.join(W, "repo", f); t = open(p).read()
        if old not in t: print(s["id"], "EDIT NOT FOUND", old[:70]); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad: continue
    t = sh("cargo test --offline --all-features --lib 2>&1 | tail -30", W + "/repo")
    m = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", t.stdout)
    if not m or m.group(1) != "ok":
        print(s["id"], "TESTS:", m.group(0) if m else t.stdout[-1500:])
        if not m: continue
    for c in s["checks"].split():
        t0 = time.time()
        r = sh("VERIF_SEED=1 VERIF_TIER=quick %s/verif/check %s quick" % (W, c))
        last = [l for l in r.stdout.splitlines() if " obligations, " in l]
        und = re.search(r"(\d+) undecided", last[-1]).group(1) if last else "?"
        ok = r.returncode == 0 and und == "0"
        print("%-26s %s %s und=%s %.0fs" % (s["id"], c, "ok" if ok else "<<<<< rc=%d" % r.returncode, und, time.time() - t0), flush=True)
        if not ok:
            ls = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "undecided", "  undecided", "UNDECIDED")) or "cannot" in l]
            print("      " + "\n      ".join(x[:300] for x in ls[:4]) if ls else r.stdout[-800:], flush=True)
sh("git checkout -q -- .", W + "/repo")
