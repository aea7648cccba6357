#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from spec import PROPS

with open(f"{V}/properties.jsonl", "w") as f:
    for k in sorted(PROPS):
        p = PROPS[k]
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "hook_needed": None}}) + "\n")
checks, na = [], []
for k in sorted(PROPS):
    p = PROPS[k]
    if not p["harnesses"]:
        na.append({"property": k, "reason": p["na"] or "no check has been built"})
        continue
    b = "; ".join(f"{h['fn']}: {h['bounds']}" for h in p["harnesses"])
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
                   "technique": "symbolic execution of the compiled code's LLVM IR, decided by Z3; counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": f"Bounded: holds for every input within these bounds, nothing outside them. {b}. "
                                 "Trusts the executor (symx/), Z3 and rustc's IR; sampled paths are compared with the native build."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "cfg(verif_harness)", "enable": "harness-lsp/build.rs sets verif_harness and VERIF_HARNESS when compiling the server as the harness crate", "source_commits": ["93c21c6"]},
           "checks": checks, "not_applicable": na},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

planted = json.load(open(f"{V}/tools/planted.json")) if os.path.exists(f"{V}/tools/planted.json") else {}
o = open(f"{V}/tools/design_head.md").read() + "## Properties\n\n"
for k in sorted(PROPS):
    p = PROPS[k]
    o += f"### {k} {p['title']}\n\n{p['statement']}\n\n"
    o += "Anchors: " + "; ".join(f"{a} ({b})" for a, b in p["mech"]) + ". "
    o += f"Why tests cannot settle it: {p['why']}.\n\n"
    if not p["harnesses"]:
        o += f"Not applicable: {p['na']}\n\n"
        continue
    o += "| harness | bounds | quick | thorough |\n|---|---|---|---|\n"
    for h in p["harnesses"]:
        q, t = ("-" if h["params"][x] is None else f"<= {h['time'][x]} s" for x in ("quick", "thorough"))
        o += f"| {h['fn']} | {h['bounds'].replace('|', chr(92) + '|')} | {q} | {t} |\n"
    if p["assumptions"]:
        o += "\nLeft open: " + "; ".join(p["assumptions"]) + ".\n"
    o += "\n"
o += "## Planted bugs\n\nWritten from the property and the code, confirmed to compile, to keep the stable tests and to fail their own demonstration; "
o += "`caught` is the property's quick check. A bug first missed and caught after strengthening the check is marked so.\n\n"
o += "| bug | property | what it breaks | check |\n|---|---|---|---|\n"
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    o += f"| {d} | {m['property']} | {m['what_it_breaks']} | {planted.get(d, 'caught')} |\n"
open(f"{V}/DESIGN.md", "w").write(o)
