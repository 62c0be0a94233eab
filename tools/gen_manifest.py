#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
AI = "abstract interpretation of MIR (dataflow over a decision-diagram value domain, joins at merge points)"
NOTE_AI = ("For every partition listed in the evidence (input length, and for Code 128 the places of the set characters) the equality with the reference holds for ALL contents: the abstract state covers every "
           "character combination at once, no input is sampled and nothing is executed. Lengths outside the analysed partitions are not covered by the quick tier. Trusts rustc's MIR, the analyser's transfer functions for std and the reference tables in harness/src/refs.rs.")
C = {}
for i, extra in {"C01": "", "C02": "", "C03": " For more than 12 characters, all contents of one bar width, and up to 8 characters of arbitrary width among them.", "C04": " All strings up to 3 characters, all placements of set/function characters up to length 5 (6 in part), windows of 2-3 arbitrary characters in data up to 300, longer strings per plan of character classes, sparse unknowns up to 66000.", "C05": " For more than 8 characters, all contents of one bar width, and up to 5 characters of arbitrary width among them.", "C06": " The length is fixed: complete.", "C07": " Complete.", "C08": " Complete.", "C09": " Complete.", "C10": "", "C11": "", "C12": " Complete: every number of the fixed lengths.",
                 "C13": " Texts of arbitrary Unicode scalars of every length up to 64, of arbitrary ASCII at chosen lengths up to 256, and one arbitrary character at chosen places of legal text up to 257.", "C14": " Every Assert, unwrap, expect, index, slice and explicit panic reached in library or std code is an obligation, with overflow checks on.", "C15": "", "C16": "", "C17": "", "C18": "", "C19": " All contents up to 13 modules, windows of 9 arbitrary modules and run patterns up to 400; all widths and heights.", "C20": "",
                 "C21": "", "C22": "", "C23": "", "C24": "", "C29": ""}.items():
    C[i] = (AI, "proof", NOTE_AI + extra)
C["C33"] = (AI + ", relational (two abstract runs on texts with side-by-side unknowns)", "proof", "Pairs of arbitrary texts up to 10-32 characters (by symbology), and pairs that differ within one or two places with all other characters shared and arbitrary, up to 256. Uses no table of the standards.")
C["C34"] = (AI + ", relational (two abstract runs)", "proof", "Complete: all numbers, all places, all wrong digits and all exchanges of neighbours. Uses no table of the standards.")
C["C25"] = ("interprocedural effect query over resolved MIR callees, statics and types", "proof", "Every function of the library in five feature configurations: no effectful std item, static state, interior mutability, unsafe or foreign code. Trusts the deny list to name every effectful item of std.")
C["C26"] = ("type-level witnesses (compile-time trait obligations)", "proof", "rustc's trait solver decides each obligation for all values; compile-fail twins show the assertions can fail.")
C["C27"] = ("exhaustive type check of all 32 feature sets with positive and negative witnesses; no-std link and item query; MIR identity of the symbologies, else equal verdicts by abstract interpretation", "proof", "All 32 combinations are checked on every run, so the configuration space is covered completely.")
C["C28"] = ("privacy and construction-reachability query over resolved MIR; acceptance obligations by abstract interpretation", "proof", "No public function but the validating constructors reaches a construction or mutation of barcode data. Two known findings: the public variants of TF and EANSUPP.")
C["C30"] = (AI + " plus type-level witness", "proof", "Complete: every error kind.")
NA = {"C31": "Decoding is performed by third-party decoders of compressed formats (DEFLATE, LZW, VP8L) outside this repository; no sound static argument about the bytes the external encoders emit is in reach. The part owned by this repository (which raster is handed to which encoder) is claimed as C23.",
      "C32": "Quantifies over optical readers and print processes, which are not source code; the part decidable from this source (modules equal the published patterns) is claimed as C01-C11."}
import sys
DONE = [c for c in C if c not in set(os.environ.get("TODO", "").split(","))]
M = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "All checks: ./check <property>; see DESIGN.md. No hooks in /repo."}
for c in sorted(C):
    if c in DONE:
        t, l, n = C[c]
        M["checks"].append({"property": c, "quick_cmd": "./check %s quick" % c, "thorough_cmd": "./check %s thorough" % c, "evidence_file": "evidence/%s.json" % c, "technique": t, "level": l, "level_note": n})
    else:
        M["not_applicable"].append({"property": c, "reason": "Check not built yet."})
json.dump(M, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
