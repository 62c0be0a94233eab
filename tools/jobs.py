"""Obligations (name + partition parameters) per property and tier."""


def _lens(tier, quick, cap=256):
    return list(range(0, cap + 1)) if tier == "thorough" else [n for n in quick if n <= cap]


Q = list(range(0, 257))
QS = list(range(0, 257))
Q15 = list(range(0, 49)) + [63, 64, 65, 80, 95, 99, 100, 101, 127, 128, 129, 160, 200, 254, 255, 256]
# (length, first set, spacing of the unknown characters) of long Code 128 data
SPARSE = ((300, 0, 7), (300, 1, 7), (300, 2, 7), (1000, 0, 50), (1000, 1, 50), (1000, 2, 50), (4000, 1, 200), (4000, 2, 200))
SPARSE_T = ((10000, 0, 500), (10000, 1, 500), (10000, 2, 500), (3000, 1, 100))
BIG = [2, 3, 4, 5, 6, 8, 10, 12, 13, 14, 16, 20, 24, 30, 32, 47, 48, 49, 64, 100, 128, 255, 256]


def patterns(T):
    """(modules, pattern) pairs: runs of equal modules, and arbitrary windows within fixed data."""
    L = [(n, 1000 * f + k) for n in (14, 20, 33, 64, 100, 128, 255, 256, 257, 300, 400) + ((700, 1000, 2000) if T else ()) for f in (1, 2) for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 20, 32, 64, 100, 128, 200, 255, 256) if k <= n]
    for n in (14, 17, 20, 30, 47, 64, 95, 100, 113, 128, 129, 200, 256, 257, 300) + ((400, 600, 1000) if T else ()):
        L += [(n, 10000 + p) for p in list(range(0, n - 8, 5 if T or n <= 64 else 9)) + [n - 9]]
    return L


MODULE = {"code39": ("C01", "acc_code39"), "code93": ("C02", "acc_code93"), "code11": ("C03", "acc_code11"), "code128": ("C04", "acc_code128"), "codabar": ("C05", "acc_codabar"), "ean13": ("C06", "acc_ean13"),
          "ean8": ("C07", "acc_ean8"), "upca": ("C08", "acc_upca"), "ean_supp": ("C09", "acc_addon"), "tf": ("C10", "acc_itf"), "error": ("C30", "err")}


def compare(diff, tier, seed):
    """The obligations that concern these functions, for the comparison of feature sets (C27)."""
    mods = set()
    for f in diff:
        hit = [m for m in MODULE if "sym::%s::" % m in f or (m == "error" and "error::" in f)]
        mods.update(hit or MODULE)
    J = [j for j in jobs("C27", tier, seed)]
    for m in sorted(mods):
        p, acc = MODULE[m]
        J += jobs(p, tier, seed) + (jobs("C11", tier, seed) if m == "tf" else []) + [j for j in jobs("C13", tier, seed) if j[0].startswith(acc) or (m == "tf" and j[0] == "acc_stf") or (m == "code128" and j[0].startswith("acc_c128"))]
    if len(mods) < 4:
        keep = set()
        for m in mods:
            p, acc = MODULE[m]
            keep.update(j[0] for j in jobs(p, tier, seed))
            keep.update((acc, "acc_code39c" if m == "code39" else acc, "acc_stf" if m == "tf" else acc, "stf" if m == "tf" else acc))
            if m == "code128": keep.update(("acc_c128_struct", "acc_c128_sparse", "acc_c128_plan"))
            if m in ("ean13", "ean8", "upca"): keep.update((m + "_digit", "jan_digit"))
        J = [j for j in J if j[0] in keep]
    return list(dict.fromkeys(J))


def jobs(pid, tier, seed):
    T = tier == "thorough"
    J = []

    def add(ob, *params):
        J.append((ob,) + tuple(params))

    def lens(q=Q, lo=0, hi=256):
        return [n for n in (range(lo, hi + 1) if T else q) if lo <= n <= hi]

    if pid == "C27":  # every symbology, a thin slice: acceptance, encoding, long data
        for n in (0, 1, 2, 3, 12, 13, 64, 255, 256, 257):
            for o in ("acc_code39", "acc_code39c", "acc_code93", "acc_code11", "acc_codabar", "acc_itf", "acc_stf"): add(o, n, 0 if n < 20 else 2)
        for n in range(0, 15):
            for o in ("acc_ean13", "acc_ean8", "acc_upca", "acc_addon"): add(o, n, 0)
        for n in (1, 2, 3, 10, 11, 12, 21, 64, 128, 255, 256):
            for o in ("code39", "code39_check", "code93", "itf", "stf"): add(o, n)
            add("code11", n, 1); add("code11", n, 2); add("codabar_class", n, 1); add("codabar_class", n, 2); add("codabar_class", n, 3)
        for n in (1, 2, 3, 4): add("codabar", n); add("code11", n, 0)
        for o in ("ean13_short", "ean13_long", "ean8_short", "ean8_long", "upca_short", "upca_long", "ean2", "ean5", "ean13_digit", "ean8_digit", "upca_digit", "jan_digit", "bookland_short", "jan_short"): add(o)
        for n in (1, 2, 3): add("c128_any", n)
        for k in range(5 ** 4): add("c128_struct", 4, k)
        for (n, st, k) in SPARSE: add("c128_sparse", n, st, k)
        for m in (1, 2, 3):
            for n in (64, 128, 256): add("c128_plan", n, 1, m)
        add("err_display"); add("err_eq")
        return J
    if pid == "C28":
        return jobs("C13", tier, seed) + jobs("C12", tier, seed)
    if pid == "C01":
        for n in lens(lo=1):
            add("code39", n); add("code39_check", n)
        for n in lens([1, 2, 3, 5, 8, 20, 44, 64, 256], lo=1):
            add("code39_switch", n, 0); add("code39_switch", n, 1)
    elif pid == "C02":
        for n in lens(lo=1):
            add("code93", n)
    elif pid == "C03":
        for n in lens(lo=1):
            add("code11", n, 1); add("code11", n, 2)
            if n <= (14 if T else 12): add("code11", n, 0)
            # the characters of different widths together: some arbitrary ones among those of one width
            for c in (1, 2):
                if n > 12:
                    for (p, k) in ((0, 1), (n - 8, 1), (n // 2, 1), (0, n // 8)) if T or n <= 40 or n in (64, 100, 128, 200, 255, 256) else ((n * (n % 5) // 5, 1), (n % 7, n // 10)):
                        add("code11_mixed", n, c, max(0, p), max(1, k), 8 if T or n <= 40 else 6)
        for n in lens([1, 2, 5, 10, 11, 12, 20], lo=1):
            add("usd8", n, 1); add("usd8", n, 2)
            if n <= 6: add("usd8", n, 0)
    elif pid == "C04":
        add("c128_sparse", 66000, 1, 7000)
        add("c128_any", 1); add("c128_any", 2); add("c128_any", 3); add("c128_pairs", 4)
        for n in (1, 2, 3, 4):
            for k in range(5 ** n): add("c128_struct", n, k)
        if T:
            for k in range(5 ** 5): add("c128_struct", 5, k)
            for k in range(seed % 5, 5 ** 6, 5): add("c128_struct", 6, k)
        else:
            for k in range(5 ** 5): add("c128_struct", 5, k)
            for k in range(seed % 16, 5 ** 6, 16): add("c128_struct", 6, k)
        for m in (1, 2, 3):
            for n in ([8, 16, 32, 64, 102, 104, 128, 206, 256] if not T else list(range(2, 257, 2))): add("c128_plan", n, 1, m)
        for s in range(1, 200 if T else 24):
            for n in ((10, 20, 40, 80, 110) if not T else (10, 15, 20, 25, 30, 40, 60, 80, 110, 160, 250)): add("c128_plan", n, s + seed * 1000 % 9000, 0)
        for n in range(0, 5): add("c128_b95", n)
        # a window of any characters within data of one set
        for st in (0, 1, 2):
            for n in range(3, 41) if T else (4, 6, 8, 12):
                for p in range(n - 1): add("c128_window", n, st, p, 2, 1)
            for n in (30, 60, 100, 104, 128, 200, 254, 255, 256, 300): 
                for p in {0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 3, n - 2} | (set(range(0, n - 1, 5)) if T else set()): add("c128_window", n, st, p, 2, 1)
            for n in (7, 12, 40) if T else (12,):
                for p in range(n - 2) if T else (0, 4, 9): add("c128_window", n, st, p, 3, 1)
        for n in (400, 1000): add("c128_plan", n, 1, 1)
        for (n, st, k) in SPARSE + (SPARSE_T if T else ()): add("c128_sparse", n, st, k)
    elif pid == "C05":
        for n in lens([1, 2, 3, 4, 5, 6, 8], lo=1, hi=12 if T else 8): add("codabar", n)
        for n in lens(lo=1):
            for c in (0, 1, 2, 3): 
                if c or n <= 8: add("codabar_class", n, c)
            for c in (1, 2):
                if n > 8:
                    for (p, k) in ((0, 1), (n - 6, 1), (n // 2, 1), (0, n // 6)) if T or n <= 24 or n in (64, 128, 256) else ((n * (n % 5) // 5, 1), (n % 7, n // 8)):
                        add("codabar_mixed", n, c, max(0, p), max(1, k), (6 if n <= 64 else 5) if T else 5 if n <= 40 else 4)
    elif pid == "C06":
        for o in ("ean13_short", "bookland_short", "jan_short", "ean13_long"): add(o)
    elif pid == "C07":
        add("ean8_short"); add("ean8_long")
    elif pid == "C08":
        add("upca_short"); add("upca_long")
    elif pid == "C09":
        add("ean2"); add("ean5")
        for n in range(0, 8 if not T else 40): add("addon_variant", n)
    elif pid == "C10":
        for n in lens(lo=1): add("itf", n)
    elif pid == "C11":
        for n in lens(lo=1): add("stf", n)
    elif pid == "C12":
        for o in ("ean13_digit", "ean8_digit", "upca_digit", "jan_digit"): add(o)
    elif pid == "C33":
        # the cheap ones first
        for n in range(1, 256 if T else 65):
            for p in {0, n // 2, n} if T or n <= 24 else {(0, n // 2, n)[n % 3]}:
                for o in ("ins_code39", "ins_code39c", "ins_code93", "ins_stf"): add(o, n, p)
                if p < n or n % 2 == 0: add("ins_itf", n, p)
                for c in (1, 2): add("ins_codabar", n, p, 0, c)
                for c in (1, 2): add("ins_code11", n, p, 0, c)
                for c in (0, 1, 2): add("ins_code128", n, p, 0, c)
        for n in (13, 20, 21, 30, 31, 40, 48, 50, 64, 80, 100, 101, 127, 128, 150, 200, 250, 253) if not T else range(10, 253):
            for (q, p) in enumerate((0, n, n // 2)):
                for (w, v) in ((1, 2), (1, 1), (2, 2)):
                    if (w + v == 4 and not T and (n > 64 or q == 2)) or (q == 2 and n > 64 and not T and w + v < 4 and v == 1): continue
                    k = (n + q + v) % 3
                    for o in ("fix_code39", "fix_code39c", "fix_code93", "fix_code11", "fix_codabar", "fix_itf", "fix_stf"):
                        if w + v == 4 and n > 31 and o in ("fix_code93", "fix_code39c") and not T: continue
                        for kk in (0, 1, 2) if T else (k,): add(o, n, p, w, v, kk)
                    for c in (0, 1, 2):
                        if w + v < 4 or c == 2 or T: add("fix_code128", n, p, w, v, k, c)
        for n in range(1, 17 if not T else 31): add("inj_code39", n, n)
        for n in range(1, 15 if not T else 25): add("inj_code39c", n, n)
        for n in range(1, 13 if not T else 25): add("inj_code93", n, n)
        for n in range(1, 11 if not T else 13):
            for m in range(n, 12 if not T else 14): add("inj_code11", n, m)
        for n in range(1, 6 if not T else 7):
            for m in range(n, 7): add("inj_codabar", n, m)
        for o in ("inj_stf", "inj_itf"):
            for n in range(1, 33 if not T else 41): add(o, n, n)
            for n in range(1, 32, 2): add(o, n, n + 1)
        for (a, b) in ((12, 12), (12, 13), (13, 13)): add("inj_ean13", a, b)
        for (a, b) in ((11, 11), (11, 12), (12, 12)): add("inj_upca", a, b)
        for (a, b) in ((7, 7), (7, 8), (8, 8)): add("inj_ean8", a, b)
        for (a, b) in ((2, 2), (2, 5), (5, 5)): add("inj_addon", a, b)
        for a in (0, 1, 2):
            for b in range(a, 3):
                for (n, m) in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if T else ()): add("inj_code128", n, m, a, b, 0)
                for n in (4, 8, 12) + ((16, 20) if T else ()): add("inj_code128", n, n, a, b, 2 if b == 2 else 1)
        for n in (10, 16, 20, 31, 47, 64, 100) if not T else list(range(4, 255, 5)) + [255, 256]:
            for p in {0, n // 2, n - 2} | ({1, n // 3, n - 4} if T else set()):
                if n > 40 and not T and p != {0: 0, 1: n // 2, 2: n - 2}[n % 3]: continue
                for o in ("near_code39", "near_code39c", "near_code93", "near_itf", "near_stf"): add(o, n, p, 2 if n <= 64 or o[-2] == "t" else 1)
                for c in (1, 2):
                    if n <= 64 or T: add("near_code11", n, p, 2 if n <= 64 else 1, c)
                    add("near_codabar", n, p, 2, c)
                for c in (0, 1, 2): add("near_code128", n - n % 2 if c == 2 else n, p, 2 if n <= 20 else 1, c)
    elif pid == "C34":
        for k in (0, 1):
            for (o, n) in (("det_ean13", 13), ("det_ean8", 8), ("det_upca", 12)):
                for p in range(n - k): add(o, p, k)
    elif pid in ("C13", "C14"):
        names = ["acc_code39", "acc_code39c", "acc_code93", "acc_code11", "acc_codabar", "acc_itf", "acc_stf"]
        for o in names:
            for n in list(range(0, 65 if pid == "C13" or T else 17)): add(o, n, 0)
            for n in ((255, 256, 257, 512, 513) if not T else (128, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 65536 + 5)): add(o, n, 2)
            for n in ((12, 100, 255, 256, 257) if not T else (12, 33, 64, 100, 200, 255, 256, 257, 300)):
                for p in {0, 1, n // 2, n - 2, n - 1}: add(o, n, 1, p)
        for o in ("acc_ean13", "acc_ean8", "acc_upca", "acc_addon"):
            for n in (list(range(0, 17)) + ([] if not T else list(range(17, 65)))): add(o, n, 0)
            for n in (64, 256, 257): add(o, n, 2)
        for m in (0, 1, 2, 3):
            for n in range(0, 4): add("acc_code128", n, m)
        for n in (2, 3, 4) + ((5,) if T else ()):
            for k in range(5 ** n): add("acc_c128_struct", n, k)
        for m in (1, 2, 3):
            for n in (16, 32, 64, 256): add("acc_c128_plan", n, 1, m)
        for s in range(1, 60 if T else 12):
            for n in (10, 20, 40, 110): add("acc_c128_plan", n, s, 0)
        for (n, st, k) in SPARSE: add("acc_c128_sparse", n, st, k)
        for o in names:
            for n in range(65, 257) if T else (65, 80, 96, 100, 127, 128, 129, 160, 200, 254, 255, 256) if pid == "C13" else (65, 128, 256): add(o, n, 3)
        for st in (0, 1, 2):
            for n in range(3, 41) if T else (4, 6, 8, 12, 20):
                for p in range(n - 1): add("acc_c128_window", n, st, p, 2, 1)
            for n in (30, 60, 100, 128, 254, 255, 256, 300):
                for p in {0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 3, n - 2}: add("acc_c128_window", n, st, p, 3, 1)
        if pid == "C14":
            # encoders of accepted values
            for n in ([1, 2, 3, 10, 11, 12, 21, 32, 64, 128, 255, 256] if not T else list(range(1, 257))):
                for o in ("code39", "code39_check", "code93", "itf", "stf"): add(o, n)
                add("code11", n, 1); add("code11", n, 2); add("codabar_class", n, 1); add("codabar_class", n, 2); add("codabar_class", n, 3)
            for n in (1, 2, 3, 4, 5): add("codabar", n)
            for n in (1, 2, 5, 8, 11): add("code11", n, 0)
            for o in ("ean13_short", "ean13_long", "ean8_short", "ean8_long", "upca_short", "upca_long", "ean2", "ean5"): add(o)
            add("c128_any", 2); add("c128_any", 3)
            for k in range(5 ** 4): add("c128_struct", 4, k)
            for m in (1, 2, 3):
                for n in (64, 128, 256): add("c128_plan", n, 1, m)
            for (n, st, k) in SPARSE: add("c128_sparse", n, st, k)
    elif pid == "C15":
        for n in (12, 13): add("sh_ean13", n)
        for n in (11, 12): add("sh_upca", n)
        for n in (7, 8): add("sh_ean8", n)
        for n in (2, 5): add("sh_addon", n)
        for n in lens(Q15, lo=1):
            for o in ("sh_code39", "sh_code39c", "sh_code93", "sh_itf", "sh_stf"): add(o, n)
            add("sh_code11", n, 0); add("sh_code11", n, 1)
            add("sh_codabar", n, 0); add("sh_codabar", n, 1)
            for m in (0, 1, 2): add("sh_code128", n, m)
    elif pid == "C16":
        for n in range(9, 15): add("rel_upca_ean13", n)
        for n in lens(QS, lo=1, hi=255):
            add("rel_code39_check", n); add("rel_itf_odd", n)
        for n in range(0, 16): add("rel_jan", n); add("rel_bookland", n)
        for n in list(range(0, 9 if not T else 13)): add("rel_usd8", n)
    elif pid == "C17":
        for n in lens([0, 1, 2, 3, 5, 8, 16, 33, 64, 95, 128, 255, 256]):
            for h in (0, 1, 2, 10): 
                for x in (0, 1, 2, 5):
                    if n * h * x < 6000: add("ascii", n, h, x, 0)
            add("ascii_default", n)
        for (n, h, x) in ((3, 64, 1), (1, 100, 100), (5, 1, 300), (2, 300, 2), (1, 1, 66000), (1, 66000, 1), (2, 1, 1000), (2, 1000, 1), (100, 1, 256), (100, 256, 1)): add("ascii", n, h, x, 0)
        for h in range(0, 70 if T else 36):
            for x in range(0, 70 if T else 36):
                for n in (1, 2, 5): add("ascii", n, h, x, 0)
        for n in range(0, 400): add("ascii", n, 2, 1, 0); add("ascii", n, 1, 2, 0)
        for n in (600, 1500, 4000): add("ascii", n, 2, 2, seed)
    elif pid == "C18":
        for n in range(0, 1100 if T else 700):
            add("json", n, 0 if n <= 300 else seed)
            if n <= 300: add("json_default", n)
        for n in (1000, 1024, 2048, 4000, 4096): add("json", n, seed)
    elif pid == "C19":
        for n in range(0, 17 if T else 14): add("svg", n, 0)
        for n in (20, 33, 64, 95, 128, 255, 256, 300) + ((500, 1000, 3000) if T else ()):
            for s in (seed, seed + 1, seed + 2): add("svg", n, s)
        for (n, s) in patterns(T): add("svg", n, s)
    elif pid == "C20":
        for n in (0, 1, 2, 3, 4, 6, 8, 10): add("svg_colour", n, 0); 
        for n in (0, 1, 2, 3, 6): add("svg_alpha", n, 0, 0); add("svg_alpha", n, 0, 1)
        for n in (20, 64): add("svg_colour", n, seed); add("svg_alpha", n, seed, 0); add("svg_alpha", n, seed, 1)
        for n in (0, 1, 3):
            for k in (0, 1, 2, 3, 4): add("svg_xmlns", n, seed, k)
        add("svg_xmlns", 2, 0, 2); add("svg_builder")
        for n in range(0, 17 if T else 13): add("svg_full", n, 0)
        for n in (20, 33, 64, 95, 128, 256, 300): add("svg_full", n, seed); add("svg_full", n, seed + 1)
        for (n, s) in patterns(T)[::4]: add("svg_full", n, s)
        for k in (5, 6, 8): add("svg_xmlns", 1, seed, k)
        for p in (1, 26, 40, 100, 255, 256, 300, 1000): add("svg_xmlns", 1, seed, 2, p)
    elif pid == "C21":
        for n in lens([0, 1, 2, 3, 4, 5, 8, 13, 16, 21, 33, 48, 64, 95, 128, 255, 256]):
            for h in (0, 1, 2, 3, 10, 50) + ((100, 256) if T else ()):
                for x in (0, 1, 2, 3, 7) + ((4, 5, 6, 16) if T else ()):
                    if n * h * x <= (30000 if T else 6000): add("picture", n, h, x, (n + h + x) % 4, 0, 0)
        for v in range(4):
            for (n, h, x) in ((0, 1, 1), (1, 1, 1), (3, 2, 2), (5, 4, 3), (95, 20, 1)): add("picture", n, h, x, v, 0, 0)
            for n in (0, 1, 5, 95): add("default_picture", v, n, 4)
        for (n, h, x) in ((1, 1, 300), (1, 300, 1), (300, 1, 1), (1, 1, 66000), (1, 66000, 1), (1, 257, 257), (2, 129, 129), (3, 1, 22000), (600, 2, 3), (2000, 1, 2), (66000, 1, 1), (400, 10, 4)):
            add("picture", n, h, x, n % 4, seed if n > 100 or h * x > 9000 else 0, 0)
        add("picture", 1, 66000, 1, 1, seed + 1, 0); add("picture", 1, 66000, 1, 1, seed + 3, 0)
        for n in (0, 1, 4, 30): add("named_colours", n)
        for h in range(0, 40 if T else 24):
            for x in range(0, 40 if T else 24):
                for n in (1, 2, 3): add("picture", n, h, x, (n + h + x) % 4, 0, 0)
        for n in range(0, 400): add("picture", n, 2, 1, n % 4, 0, 0); add("picture", n, 1, 2, n % 4, 0, 0)
    elif pid == "C22":
        for r in (1, 2, 3):
            for n in lens([0, 1, 2, 3, 4, 5, 8, 13, 33, 64, 95, 128, 256]):
                for h in (0, 1, 2, 3, 10, 50) + ((100, 256) if T else ()):
                    for x in (0, 1, 2, 3, 7) + ((4, 5, 16) if T else ()):
                        if n * h * x <= (20000 if T else 3000): add("picture", n, h, x, (n + h + x + r) % 4, 0, r)
            for v in range(4):
                for (n, h, x) in ((0, 1, 1), (1, 1, 1), (3, 2, 2), (5, 4, 3), (95, 20, 1)): add("picture", n, h, x, v, 0, r)
            for (n, h, x) in ((1, 1, 300), (1, 300, 1), (300, 1, 1), (1, 1, 66000), (1, 66000, 1), (1, 257, 257), (400, 10, 4)):
                for s in (seed, seed + 1): add("picture", n, h, x, n % 4, s if n > 100 or h * x > 9000 else 0, r)
            for h in range(0, 40 if T else 16):
                for x in range(0, 40 if T else 12):
                    for n in (1, 2, 3): add("picture", n, h, x, (n + h + x) % 4, 0, r)
            for n in range(0, 300): add("picture", n, 2, 1, n % 4, 0, r)
    elif pid == "C23":
        for v in range(4):
            for r in range(4):
                for n in lens([0, 1, 2, 3, 8, 33, 95]):
                    for (h, x) in ((0, 1), (1, 0), (1, 1), (2, 3), (10, 2)): add("encoded", n, h, x, v, 0, r)
            for h in range(0, 14):
                for x in range(0, 14): add("encoded", 2, h, x, v, 0, (h + x + v) % 4)
            for n in range(0, 200): add("encoded", n, 2, 1, v, 0, (n + v) % 4)
            add("encoded", 300, 40, 2, v, seed, v); add("encoded", 1, 300, 300, v, 0, v)
            add("defaults", v)
            for n in (0, 1, 2, 5, 40):
                for h in (0, 1, 3, 20): add("default_picture", v, n, h)
        for n in (0, 1, 4): add("named_colours", n)
    elif pid == "C24":
        for n in lens([0, 1, 2, 3, 4, 5, 8, 16, 33, 64, 95, 128, 255, 256]):
            for h in (1, 2, 10):
                for x in (1, 2, 3, 10):
                    if n * h * x <= 8000: add("agree", n, h, x)
        for n in range(0, 12 if T else 10):
            for k in range(2 ** n): add("agree_svg", n, 1 + k % 3, 1 + n % 3, k)
        for n in (8, 12, 20, 47, 95, 116, 127, 128, 129, 200, 255, 256, 257, 400) + ((500, 1000) if T else ()):
            for s in range(seed, seed + 6) if not T else range(seed, seed + 20): add("agree_long", n, 2, 1 + s % 3, s)
        for (n, s) in patterns(T)[::1 if T else 2]: add("agree_long", n, 1 + s % 3, 1 + n % 4, s)
    elif pid == "C29":
        for n in lens([0, 1, 2, 3, 5, 16, 33, 95, 256]):
            for h in (0, 1, 2, 10):
                for x in (0, 1, 2, 5):
                    if n * h * x < 6000: add("ascii", n, h, x, 0); add("picture", n, h, x, (n + h) % 4, 0, x % 4)
            add("json", n, 0)
            for v in range(4): add("encoded", n, 2, 1, v, 0, v)
        for h in range(0, 16):
            for x in range(0, 16):
                for n in (0, 1, 2): add("ascii", n, h, x, 0); add("picture", n, h, x, (n + h) % 4, 0, (h + x) % 4); add("encoded", n, h, x, (n + x) % 4, 0, (h + x) % 4)
        for n in range(0, 300): add("ascii", n, 1, 1, 0); add("json", n, 0); add("picture", n, 1, 1, n % 4, 0, n % 4); add("encoded", n, 1, 1, n % 4, 0, n % 4)
        for n in range(0, 13): add("svg_full", n, 0)
        for (n, h, x) in ((3, 64, 1), (1, 100, 100), (5, 1, 300), (2, 300, 2), (1, 1, 66000), (1, 66000, 1)): add("ascii", n, h, x, 0); add("picture", n, h, x, n % 4, seed if h * x > 9000 else 0, 0)
        for h in (0, 1, 7): add("ascii_empty", h)
        for n in list(range(0, 14)): add("svg", n, 0)
        for n in (20, 64, 95, 256, 300): add("svg", n, seed)
        for n in (0, 1, 3): add("svg_colour", n, 0); add("svg_alpha", n, 0, 0); add("svg_alpha", n, 0, 1)
        for k in range(4): add("svg_xmlns", 1, 0, k)
        for n in (600, 1500, 4000): add("ascii", n, 2, 2, seed); add("json", n, seed); add("svg", n, seed) if n < 1000 or T else None
    elif pid == "C30":
        add("err_display"); add("err_eq")
    # every property's obligations exactly once
    seen, out = set(), []
    for j in J:
        if j not in seen: seen.add(j); out.append(j)
    return out

