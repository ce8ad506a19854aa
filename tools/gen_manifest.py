#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the contract registry and the property list."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vc")
import specs
specs.load_all()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
TECH = "contract-based deductive verification: functional contracts on the real functions' monomorphised rustc MIR, VC generation by symbolic execution, Z3"
checks = []; na = []
for p in props:
    i = p["id"]
    cs = [c for c in specs.REG if i in c.props]; ls = [l for l in specs.LEM if i in l[1]]
    if not (cs or ls):
        na.append({"property": i, "reason": NA.get(i, "contracts for this part of the library are not built yet")}); continue
    unb = {c.name for c in cs if c.opts.get("abstract")}       # proved for every length by an abstract-callee contract
    b = [c for c in cs if c.opts.get("bounded") and c.name not in unb]
    note = (f"{len([c for c in cs if not c.opts.get('bounded')])} functions under contract" + (f", {len(ls)} lemmas" if ls else "") +
            "; obligations generated from the exported MIR of /repo on every run and discharged for all inputs; assumptions: modelled stylus-sdk/alloy/ruint primitives, keccak and external calls uninterpreted, no re-entrancy into own storage")
    if b:
        sh = {}
        for c in b:
            k = re.search(r"(\w+)(::<.*)?$", re.sub(r"(\w+)::<(?:std::\S*|openzeppelin.*|\d+)>*$", r"\1", c.name))
            sh.setdefault(k.group(1) if k else c.name, []).append(c)
        note += "; bounded stand-ins (not counted as proved): " + "; ".join(
            f"{k} ({sorted({c.opts['bounded'] for c in v if not c.opts.get('thorough')})[0]}" + ("; thorough: every length" if any(c.opts.get("thorough") for c in v) else "") + ")" for k, v in sorted(sh.items()))
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier=thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "proof", "level_note": note})
    th = sorted({l[0] for l in ls})
    if th: checks[-1]["theorems"] = th
m = {"version": 1, "setup_cmd": "./export.sh .cache/setup.jsonl", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the verifier reads the compiler's own MIR of the unmodified crates."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
