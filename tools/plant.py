#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: create seeded bugs from a spec and confirm them (developer tool; no check uses it).
A spec lists dicts: id, property, edits [(file, old, new)], demo (Rust main), image (bool), needs, breaks."""
import json, os, runpy, shutil, subprocess, sys
SEED, REPO = "/verif/seeded", "/repo"
PLAIN = '''#!/bin/bash
# exit 0 while the property holds
set -e
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
rustc --edition 2021 --crate-type rlib --crate-name barcoders --cap-lints allow -C overflow-checks=on FEATS -o "$W/libbarcoders.rlib" src/lib.rs
rustc --edition 2021 --cap-lints allow -C overflow-checks=on --crate-name demo --extern barcoders="$W/libbarcoders.rlib" "$H/demo.rs" -o "$W/demo"
"$W/demo"
'''
IMG = '''#!/bin/bash
# exit 0 while the property holds
set -e
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$H/demo.rs" "$W/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nbarcoders = { path = "%s", features = ["image"] }\\nimage = { version = "0.25", default-features = false, features = ["gif", "png", "webp"] }\\n' "$R" > "$W/Cargo.toml"
cd "$W"; CARGO_TARGET_DIR="$W/target" cargo run --offline -q
'''
def sh(cmd, cwd=REPO, t=600): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def clean(): sh("git checkout -q -- .")
base = json.load(open("/opt/vp/BASELINE.json"))
specs = runpy.run_path(sys.argv[1])["SPECS"]
for s in specs:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = os.path.join(SEED, s["id"])
    os.makedirs(d, exist_ok=True)
    if sh("git status --porcelain --untracked-files=no").stdout.strip(): print("repo dirty"); sys.exit(1)
    if "sh" in s:
        open(d + "/demo.sh", "w").write(s["sh"])
        if "demo_rs" in s: open(d + "/demo.rs", "w").write(s["demo_rs"])
    else:
        feats = " ".join("--cfg 'feature=\"%s\"'" % f for f in s.get("features", ["ascii", "json", "svg", "std"]))
        open(d + "/demo.sh", "w").write(IMG if s.get("image") else PLAIN.replace("FEATS", feats))
        open(d + "/demo.rs", "w").write(s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d)
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f); t = open(p).read()
        if t.count(old) < 1: print(s["id"], "EDIT NOT FOUND", f, old[:60]); break
        open(p, "w").write(t.replace(old, new, 1))
    diff = sh("git diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    b = sh("bash /opt/vp/build.sh")
    t = sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    try:
        o = json.load(open("/tmp/plant-out.json"))
    except Exception as e: o = {}
    r1 = sh("bash %s/demo.sh" % d)
    passed = set(o.get("passed", [])); want = set(base.get("stable", base.get("passed", [])) or [])
    lost = sorted(want - passed) if want else "?"
    clean()
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not lost
    print("%s %s demo %d -> %d build %d lost %s" % (s["id"], "OK" if ok else "BAD", r0.returncode, r1.returncode, b.returncode, lost if lost else 0))
    if not ok: print("   ", r0.stdout[-400:], "|", r1.stdout[-300:])
sh("bash /opt/vp/build.sh")
