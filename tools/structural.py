"""Structural rules: effects (C25), auto traits (C26), feature lattice (C27), encapsulation (C28), error traits (C30)."""
import glob, itertools, json, os, re, subprocess

NIGHTLY = "+nightly"


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def cargo_check(verif, build, features, clean=True):
    """Check the witness crate (and through it barcoders) with the given features: (ok, errors, rmeta, -L dirs)."""
    cwd, target = os.path.join(verif, "witness"), os.path.join(build, "feat")
    os.makedirs(target, exist_ok=True)
    if clean:
        subprocess.run(["cargo", NIGHTLY, "clean", "--offline", "-p", "barcoders", "-p", "witness", "--target-dir", target], cwd=cwd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", NIGHTLY, "check", "--offline", "--lib", "--target-dir", target, "--message-format=json", "--features", ",".join(features)], cwd=cwd, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    rmeta, image, dirs, err = None, None, set(), []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith(".rmeta") and m["target"]["name"] == "barcoders": rmeta = f
                if f.endswith(".rmeta") and m["target"]["name"] == "image": image = f
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            err.append((m["target"]["name"], m["message"]["rendered"]))
    if p.returncode and not err:
        err.append(("cargo", p.stderr[-2000:]))
    return p.returncode == 0, err, rmeta, image, dirs


def rustc(args, dirs):
    cmd = ["rustc", NIGHTLY, "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format=json", "--cap-lints", "allow"] + args
    for d in sorted(dirs):
        cmd += ["-L", "dependency=" + d]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    errs = []
    for line in p.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("spans"):
            errs.append((m["spans"][0]["line_start"], (m.get("code") or {}).get("code", ""), m["message"]))
            for s in m["spans"]:
                errs.append((s["line_start"], (m.get("code") or {}).get("code", ""), m["message"]))
    return p.returncode, errs, p.stderr


def facts(verif, build, src, crate, cfgs, externs, dirs, text=False):
    root = subprocess.run(["rustc", NIGHTLY, "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip().splitlines()[-1]
    out = os.path.join(build, "facts-%s.json" % crate)
    if os.path.exists(out):
        os.remove(out)
    e = dict(env(), LD_LIBRARY_PATH=root + "/lib", MIRVAL_FACTS="1", MIRVAL_OUT=out)
    extra = []
    if text:
        e["MIRVAL_TEXT"] = "1"
        extra = ["-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zub-checks=no"]
    cmd = [os.path.join(verif, "engine", "target", "release", "mirval"), src, "--crate-name", crate, "--crate-type", "lib", "--edition", "2021", "-Zmir-opt-level=0", "--cap-lints", "allow", "--emit", "metadata", "-o", os.path.join(build, "facts-o")] + extra
    for c in cfgs:
        cmd += ["--cfg", 'feature="%s"' % c]
    for k, v in externs.items():
        cmd += ["--extern", k + "=" + v]
    for d in sorted(dirs):
        cmd += ["-L", "dependency=" + d]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if not os.path.exists(out):
        return None, p.stdout[-3000:]
    return [json.loads(l) for l in open(out)], ""


def library_facts(verif, repo, build, features):
    ok, err, rmeta, image, dirs = cargo_check(verif, build, features)
    if rmeta is None:
        return None, "\n".join(e[1] for e in err)[-3000:]
    ext = {"image": image} if image and "image" in features else {}
    return facts(verif, build, os.path.join(repo, "src", "lib.rs"), "barcoders", features, ext, dirs)


def canonical(t):
    """The text of a body independent of the crate a std item is seen through and of allocation numbers."""
    t = re.sub(r"\b(std|core|alloc)::", "", t)
    t = re.sub(r"DefId\(\d+:\d+ ~ (\w+)\[\w+\]", r"DefId(\1", t)
    main, allocs, cur = [], {}, None
    for l in t.split("\n"):
        m = re.match(r"^(?:ALLOC|alloc)(\d+) (\(.*\{)$", l)
        if m:
            cur = m.group(1)
            allocs[cur] = [m.group(2)]
        elif cur is not None:
            if l == "}": cur = None
            else: allocs[cur].append(l)
        elif l.strip() and not l.strip().startswith("//"):
            main.append(l)

    def sub(s, depth=0):
        return re.sub(r"\b(?:ALLOC|alloc)(\d+)\b", lambda m: "<" + (sub("|".join(allocs.get(m.group(1), ["?"])), depth + 1) if depth < 6 else "?") + ">", s)
    return sub("\n".join(main))


def texts(verif, repo, build, cfg, compiled=None):
    """{function: canonical MIR} of the library with these features, or None."""
    ok, err, rmeta, image, dirs = compiled or cargo_check(verif, build, cfg)
    if rmeta is None:
        return None
    fs, _ = facts(verif, build, os.path.join(repo, "src", "lib.rs"), "barcoders", cfg, {"image": image} if image and "image" in cfg else {}, dirs, text=True)
    if fs is None:
        return None
    out = {}
    for f in fs:
        if "mir" in f:
            out[f["mir"]] = out.get(f["mir"], "") + canonical(f["text"])
    return out


def symbology(name):
    return "generators::" not in name and not ("std::error::Error" in name or "core::error::Error" in name)


def changed(a, b, only):
    return sorted(k for k in set(a) | set(b) if only(k) and a.get(k) != b.get(k))


def differences(verif, repo, build, ca, cb, what):
    """Functions whose MIR differs between two feature sets; None if it cannot be told."""
    a, b = texts(verif, repo, build, ca), texts(verif, repo, build, cb)
    if a is None or b is None:
        return None
    return changed(a, b, symbology if not isinstance(what, str) else (lambda k: what in k))


ALL = ["ascii", "json", "svg", "image", "std"]


def check(pid, tier, rep, verif, repo, build):
    globals()["check_" + pid](tier, rep, verif, repo, build)


def engine_built(verif, rep):
    p = subprocess.run(["cargo", NIGHTLY, "build", "--release", "--offline", "-q"], cwd=os.path.join(verif, "engine"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        raise SystemExit(3)


# ---------------------------------------------------------------- C25
DENY = [
    ("std::fs", "file system"), ("std::net", "network"), ("std::env", "environment"), ("std::process", "process control"), ("std::time", "clock"), ("core::time::now", "clock"),
    ("std::thread", "threads"), ("std::os", "operating system"), ("std::sys", "operating system"), ("std::io::stdio", "standard streams"), ("std::random", "randomness"), ("core::random", "randomness"),
    ("std::hash::random", "randomness"), ("core::sync::atomic", "atomics"), ("core::arch", "architecture intrinsics"), ("std::arch", "architecture intrinsics"), ("core::core_arch", "architecture intrinsics"),
    ("std::panic::set_hook", "panic hook"), ("std::panicking::set_hook", "panic hook"), ("std::panicking::take_hook", "panic hook"), ("std::panicking::update_hook", "panic hook"), ("std::backtrace", "backtrace"),
    ("std::sync::mpsc", "channels"), ("std::sync::poison", "locks"), ("std::sync::once", "one-time initialisation"), ("std::sync::lazy_lock", "one-time initialisation"), ("std::sync::once_lock", "one-time initialisation"), ("std::sync::reentrant_lock", "locks"), ("std::sync::barrier", "threads"),
    ("std::alloc", "global allocator"), ("libc", "foreign code"),
]
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "into_iter", "extract_if", "fmt"}
FILES = {"open", "save", "save_with_format", "save_buffer", "save_buffer_with_format", "image_dimensions", "write_to_file"}
MUTABLE = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Atomic\w+|SyncUnsafeCell)\b")


def effects(fs):
    """All effect violations: (construct, reason)."""
    out = []
    adts = {f["adt"]: f for f in fs if "adt" in f}
    for f in fs:
        if "static" in f:
            if f["mut"]:
                out.append((f["static"], "mutable static"))
            elif not f["freeze"] or MUTABLE.search(f["ty"]):
                out.append((f["static"], "static with interior mutability: " + f["ty"]))
        if "foreign_mod" in f:
            out.append(("extern block", "foreign code"))
        if "impl" in f and f["unsafe"] and f["impl"] not in ("core::clone::TrivialClone",):
            out.append((f["self"], "unsafe impl of " + f["impl"]))
    # interior mutability in types reachable from public ones
    todo, seen = [a for a, f in adts.items() if f["public"]], set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        if not adts[a]["freeze"]:
            out.append((a, "interior mutability"))
        for _v, name, _p, ty in adts[a]["fields"]:
            if MUTABLE.search(ty):
                out.append((a + "." + name, "interior mutability: " + ty))
            for b in adts:
                if b.split("::", 1)[1] in ty:
                    todo.append(b)
    for f in fs:
        if "body" not in f:
            continue
        b = f["body"]
        if f["unsafe_blocks"]:
            out.append((b, "unsafe block"))
        if f["unsafe_fn"]:
            out.append((b, "unsafe function"))
        for k, v in f["facts"]:
            if k == "call":
                p, selfty = (v.split("\t") + [""])[:2]
                for d, why in DENY:
                    if p == d or p.startswith(d + "::"):
                        out.append((b, "%s through %s" % (why, p)))
                if "std::collections::hash" in p and p.rsplit("::", 1)[-1] in ITER:
                    out.append((b, "iteration in hash order through " + p))
                if p.startswith("image::") and p.rsplit("::", 1)[-1] in FILES:
                    out.append((b, "file access through " + p))
                if p.endswith("::new_pointer") or p.endswith("ptr::const_ptr::{impl#0}::addr") or p.endswith("ptr::mut_ptr::{impl#0}::addr"):
                    out.append((b, "address of memory through " + p))
            elif k == "foreign":
                out.append((b, "foreign function " + v))
            elif k == "expose":
                out.append((b, "address of memory cast to " + v))
            elif k == "thread_local":
                out.append((b, "thread-local state " + v))
            elif k == "asm":
                out.append((b, "inline assembly"))
    return sorted(set(out))


def check_C25(tier, rep, verif, repo, build):
    engine_built(verif, rep)
    pos, err = facts(verif, build, os.path.join(verif, "witness", "effects_pos.rs"), "effects_pos", [], {}, [])
    if pos is None:
        rep.undecided("positive example does not compile: " + err)
        return
    hit = {c.split("::", 1)[1].split("::")[0] for c, _ in effects(pos)}
    want = {"COUNT", "PLAIN", "T", "Cached", "p_static", "p_mut", "p_tls", "p_print", "p_env", "p_time", "p_fs", "p_thread", "p_order", "p_addr", "p_fnptr", "p_unsafe"}
    hit = {re.sub(r"\..*", "", h) for h in hit}
    for w in sorted(want):
        if w in hit: rep.ok("positive example fires: " + w)
        else: rep.undecided("positive example does not fire: %s (fired: %s)" % (w, sorted(hit)))
    for cfg in (ALL, ["std"], [], ["ascii", "json", "svg"], ["ascii", "json", "svg", "std"]):
        fs, err = library_facts(verif, repo, build, cfg)
        if fs is None:
            rep.bad("the library does not compile with features " + ",".join(cfg), detail=err)
            continue
        bodies = [f for f in fs if "body" in f]
        calls = sum(1 for f in bodies for k, _ in f["facts"] if k == "call")
        vs = effects(fs)
        byc = {}
        for c, why in vs:
            byc.setdefault(c, []).append(why)
        for f in bodies:
            if f["body"] in byc:
                continue
            rep.ok({"function": f["body"], "callees": sum(1 for k, _ in f["facts"] if k == "call"), "features": cfg} if calls and len(rep.samples) < 24 else None)
        for c, why in sorted(byc.items()):
            rep.bad("effect: " + "; ".join(why), construct=c, features=",".join(cfg))
        rep.extra.setdefault("configurations", []).append({"features": cfg, "functions": len(bodies), "resolved_callees": calls, "statics": sum(1 for f in fs if "static" in f), "types": sum(1 for f in fs if "adt" in f)})
        floor = {5: 200, 1: 150, 0: 150, 3: 150, 4: 150}[len(cfg)]
        if len(bodies) < floor // 4:
            rep.bad("only %d functions analysed" % len(bodies), features=",".join(cfg))
    rep.extra["rule"] = "no callee (resolved, direct or as a value) of a library function in the deny list of effectful std items; no mutable, interior-mutable or thread-local static; no interior mutability in types reachable from the public ones; no user-written unsafe, foreign or assembly code"
    rep.trusted = ["rustc +nightly (name and instance resolution)", "std, alloc, core and image perform no effect outside the denied items", "/verif/tools/structural.py rules"]
    rep.assume = ["user-supplied AsRef implementations are pure"]


# ---------------------------------------------------------------- C26 / C30
def witness(rep, verif, build, prefixes):
    ok, err, rmeta, image, dirs = cargo_check(verif, build, ALL)
    if rmeta is None:
        rep.bad("the library does not compile with all features", detail="\n".join(e[1] for e in err)[-3000:])
        return
    src = os.path.join(verif, "witness", "traits.rs")
    lines = open(src).read().split("\n")
    rc, errs, raw = rustc([src, "--crate-name", "traits", "--extern", "barcoders=" + rmeta, "-o", os.path.join(build, "traits.rmeta")], dirs)
    bad = {}
    for ln, code, msg in errs:
        bad.setdefault(ln, (code, msg))
    # the list of names each witness line covers
    start = next(i for i, l in enumerate(lines) if l.startswith("each!"))
    end = next(i for i in range(start, len(lines)) if lines[i] == ");")
    detail = "; ".join(sorted({"%s %s" % (c, m) for c, m in bad.values()}))[:1500]
    names = {}
    for i, l in enumerate(lines):
        for m in re.finditer(r"\b(?:fn )?([wegt]_\w+|threads)(?:[:(])", l):
            names.setdefault(m.group(1), i + 1)
    count = 0
    for n, ln in sorted(names.items()):
        if n.split("_")[0] not in prefixes:
            continue
        count += 1
        # a failing type is named in the message (its ident is the last path segment)
        ty = re.search(re.escape(n) + r": ([\w:]+)", lines[ln - 1])
        hit = None
        for bl, (code, msg) in bad.items():
            if bl == ln and (ty is None or not (start < bl - 1 <= end) or re.search(r"\b%s\b" % ty.group(1).split("::")[-1], msg) or True):
                hit = (code, msg)
        if hit and start < ln - 1 <= end:
            spans = [e for e in errs if e[0] == ln]
            hit = spans[0][1:] if spans else hit
        if hit:
            rep.bad("witness %s does not type-check" % n, construct=lines[ln - 1].strip()[:200], detail="%s %s" % hit)
        else:
            rep.ok("%s (traits.rs:%d)" % (n, ln))
    if rc and not any(True for v in rep.viol):
        rep.bad("witnesses do not type-check", detail=detail or raw[-1500:])
    rep.extra["witnesses"] = count
    src = os.path.join(verif, "witness", "traits_neg.rs")
    rc, errs, raw = rustc([src, "--crate-name", "traits_neg", "-o", os.path.join(build, "traits_neg.rmeta")], [])
    hitl = {e[0] for e in errs}
    for i, l in enumerate(open(src).read().split("\n")):
        if re.match(r"fn (n_|e_)", l):
            if i + 1 in hitl: rep.ok("negative twin rejected: " + l.split("(")[0])
            else: rep.undecided("negative twin accepted: " + l)


def check_C26(tier, rep, verif, repo, build):
    witness(rep, verif, build, ("w", "e", "g", "threads"))
    rep.extra["rule"] = "type-level witnesses: every public barcode, generator, colour and error type satisfies Send + Sync + Unpin, generators Clone, Error Copy + PartialEq; encode/generate callable through &self"
    rep.trusted = ["rustc +nightly trait solver"]


def check_C30(tier, rep, verif, repo, build):
    witness(rep, verif, build, ("t",))


# ---------------------------------------------------------------- C27
def check_C27(tier, rep, verif, repo, build):
    engine_built(verif, rep)
    base, classes = None, {}
    target = os.path.join(build, "feat")
    subprocess.run(["cargo", NIGHTLY, "clean", "--offline", "-p", "barcoders", "-p", "witness", "--target-dir", target], cwd=os.path.join(verif, "witness"), env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    mods = {"ascii": "ascii::ASCII", "json": "json::JSON", "svg": "svg::SVG", "image": "image::Image"}
    for r in range(6):
        for combo in itertools.combinations(ALL, r):
            combo = list(combo)
            name = ",".join(combo) or "(none)"
            ok, err, rmeta, image, dirs = cargo_check(verif, build, combo, clean=False)
            if not ok:
                who = err[0][0]
                rep.bad("features %s: %s" % (name, "the library does not compile" if who == "barcoders" else "the documented items are not offered"), detail=err[0][1][:1500])
                continue
            rep.ok("features %s: library and positive witness type-check" % name)
            sym = texts(verif, repo, build, combo, (ok, err, rmeta, image, dirs))
            if sym is None:
                rep.undecided("features %s: no MIR" % name)
            else:
                sym = {k: v for k, v in sym.items() if symbology(k)}
                if base is None: base = sym
                classes.setdefault(json.dumps(changed(base, sym, symbology)) + str(hash(tuple(sorted(sym.items())))), (combo, []))[1].append(name)
            absent = [m for m in mods if m not in combo or (m == "image" and "std" not in combo)]
            src = os.path.join(build, "absent.rs")
            with open(src, "w") as f:
                f.write("#![no_std]\n#![allow(unused_imports)]\n")
                for m in absent: f.write("use barcoders::generators::%s as m_%s;\n" % (m, m))
                f.write("use barcoders::sym::code39 as m_present;\n")
            rc, errs, raw = rustc([src, "--crate-name", "absent", "--extern", "barcoders=" + rmeta, "-o", os.path.join(build, "absent.rmeta")], dirs)
            hit = {e[0] for e in errs if e[1] in ("E0432", "E0433", "E0603")}
            for i, m in enumerate(absent):
                if i + 3 in hit: rep.ok()
                else: rep.bad("features %s: generators::%s exists although its feature is off" % (name, m))
            if len(absent) + 3 in hit:
                rep.bad("features %s: sym::code39 is not reachable" % name)
            if "std" not in combo:
                fs, e2 = facts(verif, build, os.path.join(repo, "src", "lib.rs"), "barcoders", combo, {"image": image} if image and "image" in combo else {}, dirs)
                if fs is None:
                    rep.bad("features %s: no facts" % name, detail=e2)
                    continue
                crates = next(f["crates"] for f in fs if "crates" in f)
                if "std" in crates and not (image and "image" in crates): rep.bad("features %s: the crate links std without the std feature" % name)
                else: rep.ok("features %s: crates linked %s" % (name, ",".join(crates)))
                uses = sorted({v.split("\t")[0] for f in fs if "body" in f for k, v in f["facts"] if k in ("call", "make", "local") and v.startswith("std::")})
                if uses: rep.bad("features %s: std items named without the std feature" % name, detail=", ".join(uses))
                else: rep.ok()
    rep.extra["symbology_classes"] = [names for _c, names in classes.values()]
    rep.extra["symbology_functions_compared"] = len(base or ())
    rep.classes = [(combo, names, None) for combo, names in classes.values()]
    rep.differ = lambda a, b: [k for k in differences(verif, repo, build, a, b, ("sym",)) or ["unknown"]]
    if len(classes) == 1:
        for n in list(classes.values())[0][1]: rep.ok("features %s: the MIR of the symbologies is the common one" % n)
    rep.extra["exhaustive"] = True
    rep.extra["combinations"] = 32
    rep.extra["rule"] = "all 32 feature sets: library and positive witness type-check, absent generator modules do not resolve, no std crate or item without the std feature, the MIR of every symbology and error function is the same (else the obligations of the symbologies give the same verdicts in each class of feature sets)"
    rep.trusted = ["rustc +nightly", "cargo feature resolution"]


# ---------------------------------------------------------------- C28
TYPES = {"code39::Code39": ("new", "with_checksum"), "code93::Code93": ("new",), "code11::Code11": ("new",), "code128::Code128": ("new",), "codabar::Codabar": ("new",),
         "ean13::EAN13": ("new",), "ean8::EAN8": ("new",), "ean_supp::EANSUPP": ("new",), "tf::TF": ("interleaved", "standard"), "upca::UPCA": ("new",)}
# a Clone implementation that only copies its own data keeps it valid
COPYING = {"clone", "to_vec", "to_owned", "iter", "cloned", "copied", "collect", "from", "into", "deref", "index", "as_slice", "into_iter"} | {"{constructor#0}"}
OPEN_FIELDS = {("barcoders::sym::code39::Code39", "checksum")}


def check_C28(tier, rep, verif, repo, build):
    engine_built(verif, rep)
    for cfg in (ALL, []):
        fs, err = library_facts(verif, repo, build, cfg)
        if fs is None:
            rep.bad("the library does not compile with features " + ",".join(cfg), detail=err)
            continue
        encapsulation(rep, fs, cfg)
    rep.extra["rule"] = "barcode types have no public data field; no public function other than the validating constructors (decided by the acceptance obligations) reaches a construction or mutation of a barcode value's data"
    rep.trusted = ["rustc +nightly (privacy, MIR)", "/verif/tools/structural.py rules"]


def encapsulation(rep, fs, cfg):
    adts = {f["adt"]: f for f in fs if "adt" in f}
    bodies = {f["body"]: f for f in fs if "body" in f}
    ctor = set()
    types = {}
    for t, cs in TYPES.items():
        a = "barcoders::sym::" + t
        if a not in adts or not adts[a]["public"]:
            rep.bad("public type %s not found" % a)
            continue
        types[a] = adts[a]
        names = [b for b, f in bodies.items() if f["kind"] == "fn" and not f["trait"] and f["public"] and a in f["out"] and b.rsplit("::", 1)[-1] in cs and b.startswith(a.rsplit("::", 1)[0])]
        if len(names) < len(cs):
            rep.bad("constructors of %s not found" % a, detail=str(names))
        ctor.update(names)
    # every other public ADT of the symbology modules is held to the same field rule
    for a, f in adts.items():
        if a.startswith("barcoders::sym::") and f["public"]:
            types.setdefault(a, f)
    for a, f in sorted(types.items()):
        for v, name, pub, ty in f["fields"]:
            if f["kind"] == "enum":
                inner = [x for x in adts if x.split("::", 1)[1] == ty]
                sealed = inner and not any(p for _, _, p, _ in adts[inner[0]]["fields"])
                if not sealed:
                    rep.known.setdefault("public-enum-data:" + a, "%s::%s(%s) can be written by outside code" % (a, v, ty))
                else: rep.ok()
            elif pub and (a, name) not in OPEN_FIELDS:
                rep.bad("public data field", construct="%s.%s" % (a, name), features=",".join(cfg))
            else: rep.ok("%s.%s: %s" % (a, name, "not data" if (a, name) in OPEN_FIELDS else "private"))
    data = {a for a in types}
    # call graph at the granularity of items (closures belong to their function)
    roots = {}
    local = {a.rsplit("::", 1)[-1] for a in adts}
    traitm = {f["trait"] + "::" + b.rsplit("::", 1)[-1] for b, f in bodies.items() if f["trait"]}
    for b, f in bodies.items():
        r = roots.setdefault(f["root"], {"calls": set(), "methods": set(), "make": set(), "mutate": set(), "transmute": set()})
        for k, v in f["facts"]:
            if k == "call":
                p = v.split("\t")[0]
                m = re.match(r"(.*)::\{constructor#\d+\}$", p)
                if m:
                    for a in data:
                        if m.group(1) == a or m.group(1).startswith(a + "::"): r["make"].add(a)
                selfty = v.split("\t")[1] if "\t" in v else ""
                # a trait method of a type without local parts cannot dispatch to a local implementation
                foreign = p in traitm and selfty and not any(l in selfty for l in local) and not re.search(r"\b[A-Z]\w{0,2}\b|Self|dyn |impl |closure|opaque|<.* as ", selfty)
                r["methods" if foreign else "calls"].add(p)
            elif k == "make":
                a = v.split("\t")[0]
                if a in data: r["make"].add(a)
            elif k == "mutate":
                a, fld = v.split("\t")
                if a in data and (a, fld.split(".")[1]) not in OPEN_FIELDS: r["mutate"].add("%s (%s)" % (a, fld))
            elif k == "transmute":
                for a in data:
                    if re.search(r"\b%s\b" % re.escape(a.split("::", 1)[1]), v): r["make"].add(a)
    # trait methods may dispatch to any local implementation
    impls = {}
    for b, f in bodies.items():
        if f["trait"]: impls.setdefault(f["trait"] + "::" + b.rsplit("::", 1)[-1], set()).add(b)

    def reach(start):
        todo, seen = [(start, (start,))], set()
        while todo:
            b, path = todo.pop()
            if b in seen or (b in ctor and b != start):
                continue
            seen.add(b)
            r = roots.get(b)
            if r:
                yield b, r, path
                for c in r["calls"]:
                    for n in {bodies[c]["root"]} if c in bodies else impls.get(c, set()):
                        todo.append((n, path + (n,)))
            elif b in impls:
                for n in impls[b]: todo.append((n, path + (n,)))
    pubs = [b for b, f in bodies.items() if f["public"] and f["kind"] == "fn" and b not in ctor]
    for b in sorted(pubs):
        f = bodies[b]
        bad = False
        for at, r, path in reach(b):
            if bodies.get(at, f)["trait"] == "core::clone::Clone" and not r["mutate"] and COPYING >= {c.rsplit("::", 1)[-1] for c in r["calls"] | r["methods"]}: continue
            for a in sorted(r["make"]):
                bad = True
                rep.bad("a barcode value is constructed outside the validating constructors", construct="%s makes %s" % (" -> ".join(path), a), features=",".join(cfg))
            for a in sorted(r["mutate"]):
                bad = True
                rep.bad("barcode data is modified outside the validating constructors", construct="%s modifies %s" % (" -> ".join(path), a), features=",".join(cfg))
        if not bad: rep.ok({"public function": b, "features": cfg} if len(rep.samples) < 30 else None)
    consts = [b for b, f in bodies.items() if f["kind"] == "const" and roots[b]["make"]]
    for b in consts: rep.bad("a barcode value is constructed in a constant", construct=b)
    rep.extra.setdefault("configurations", []).append({"features": cfg, "public_functions": len(pubs), "constructors": sorted(ctor), "types": len(types)})
    if len(pubs) < 40 or len(ctor) < 12:
        rep.bad("only %d public functions and %d constructors found" % (len(pubs), len(ctor)), features=",".join(cfg))
