#!/usr/bin/env python3
"""One-off: the published Poseidon2 parameter sets (as shipped at the pinned commit) -> vc/specs/poseidon2.json.
Not run by any check: the snapshot is the contract the parameters of the current tree are compared with."""
import re, json, glob, os
out = {}
for f in sorted(glob.glob("/repo/lib/crypto/src/poseidon2/instance/*.rs")):
    s = open(f).read().split("#[cfg(test)]")[0].split("#[cfg(all(test")[0]; b = os.path.basename(f)[:-3]
    parts = re.split(r"impl PoseidonParams<\w+> for (\w+)", s)[1:]
    for n, t in zip(parts[::2], parts[1::2]):
        c = lambda k: int(re.search(rf"const {k}: \w+ = (\d+);", t).group(1))
        d, r = re.search(r"MAT_INTERNAL_DIAG_M_1.*?= &\[(.*?)\];\s*const ROUND_CONSTANTS.*?= &\[(.*)\];", t, re.S).groups()
        num = lambda x: [int(a, 16) if k == "hex" else int(a) for k, a in re.findall(r'fp_from_(hex|num)!\("(\w+)"\)', x)]
        out[f"{b}::{n}"] = {"t": c("T"), "d": c("D"), "capacity": c("CAPACITY"), "rounds_f": c("ROUNDS_F"), "rounds_p": c("ROUNDS_P"), "diag": num(d), "rc": [num(x) for x in re.findall(r"&\[(.*?)\]", r, re.S)]}
json.dump(out, open("/verif/vc/specs/poseidon2.json", "w"), separators=(",", ":"))
for k, v in out.items(): print(k, v["t"], len(v["diag"]), len(v["rc"]), {len(x) for x in v["rc"]}, v["rounds_f"] + v["rounds_p"])
