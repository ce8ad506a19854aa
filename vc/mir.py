"""Loads the JSON-lines MIR export and offers name lookup and pretty printing."""
import json, re

class Ty:
    __slots__ = ("id", "k", "d", "s", "mod")
    def __init__(self, d, mod):
        self.id = d["T"]; self.k = d["k"]; self.d = d; self.s = d["s"].replace("vroots::", ""); self.mod = mod
    def __repr__(self): return self.s
    # helpers
    @property
    def name(self): return self.d.get("n", "").replace("vroots::", "")
    def elem(self): return self.mod.ty(self.d["e"])
    def args(self):
        out = []
        for a in self.d.get("a", []):
            if a is None: out.append(None)
            elif isinstance(a, dict): out.append(None if a["c"] is None else int(a["c"]))
            else: out.append(self.mod.ty(a))
        return out
    def targs(self): return [a for a in self.args() if a is not None]
    def variants(self): return self.d["v"]
    def fields(self, v=0):
        """[(name, Ty)]"""
        if self.k == "adt":
            return [(n, self.mod.ty(t)) for n, t in self.d["v"][v]["f"]]
        if self.k in ("tuple", "closure"):
            return [(str(i), self.mod.ty(t)) for i, t in enumerate(self.d["f"])]
        raise KeyError(self.k)

class Fn:
    __slots__ = ("id", "name", "defname", "kind", "x", "crate", "file", "line", "d", "mod", "_loops")
    def __init__(self, d, mod):
        self.id = d["F"]; self.name = d["n"].replace("vroots::", ""); self.defname = d["d"].replace("vroots::", "")
        self.kind = d["kind"]; self.x = d["x"]; self.crate = d["crate"]; self.file = d["file"]; self.line = d["line"]
        self.d = d; self.mod = mod; self._loops = None
    @property
    def bb(self): return self.d["bb"]
    @property
    def nargs(self): return self.d["args"]
    def local_ty(self, i): return self.mod.ty(self.d["locals"][i])
    def ret_ty(self):
        if self.bb is not None: return self.local_ty(0)
        return self.mod.ty(self.d["sig"][1])
    def arg_tys(self):
        if self.bb is not None: return [self.local_ty(i + 1) for i in range(self.nargs)]
        return [self.mod.ty(t) for t in self.d["sig"][0]]
    def gargs(self):
        out = []
        for a in self.d.get("ga", []):
            if a is None: continue
            elif isinstance(a, dict): out.append(None if a["c"] is None else int(a["c"]))
            else: out.append(self.mod.ty(a))
        return out
    def __repr__(self): return f"<fn {self.name}>"

CRATES = ("openzeppelin_stylus", "openzeppelin_crypto", "vroots", "vinst")
def short_name(n): return re.sub(r"\b(?:[a-z_][a-z0-9_]*::)+(?=[A-Za-z_<&\[(])", "", n)
def drop_generics(n): return re.sub(r"::<[^<>]*(?:<[^<>]*>[^<>]*)*>", "", n)

class Module:
    def __init__(self, path):
        self._short = None; self.fns = {}; self.tys = {}; self.by_name = {}; ok = False
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if "F" in d:
                    fn = Fn(d, self); self.fns[fn.id] = fn
                    self.by_name.setdefault(fn.name, []).append(fn)
                elif "T" in d: self.tys[d["T"]] = Ty(d, self)
                elif "END" in d: ok = True
        if not ok: raise RuntimeError("truncated MIR export")
    def ty(self, i): return self.tys[i]
    def short(self):
        if self._short is None:
            d = {}
            for f in self.fns.values():
                if f.crate in CRATES:
                    d.setdefault(short_name(f.name), []).append(f)
                    for g in {drop_generics(short_name(f.name)), short_name(drop_generics(f.name))} - {short_name(f.name)}: d.setdefault(g, []).append(f)
            self._short = d
        return self._short
    def find(self, name):
        """Exact name, else the unique function with that module-free name, else unique suffix match."""
        if name in self.by_name: return self.by_name[name][0]
        if name.startswith("re:"):
            c = self.grep(name[3:])
            if len(c) == 1: return c[0]
            raise LookupError(f"{name}: {len(c)} matches")
        c = self.short().get(name, [])
        if len(c) == 1: return c[0]
        c = [f for n, fs in self.by_name.items() for f in fs if n.endswith(name)]
        if len(c) == 1: return c[0]
        c = [f for n, fs in self.by_name.items() if name in n.replace("::<", "") or name.split("::")[-1] in n for f in fs if f.crate in CRATES and drop_generics(n).endswith("::" + name)]
        if len(c) == 1: return c[0]
        raise LookupError(f"{name}: {len(c)} matches {[x.name for x in c][:5]}")
    def grep(self, rx):
        r = re.compile(rx); return [f for fs in self.by_name.values() for f in fs if r.search(f.name)]

# ---------------- pretty printing (debugging aid) ----------------
def pplace(p):
    s = f"_{p[0]}"
    for e in (p[1] if len(p) > 1 else []):
        if e == "*": s = f"(*{s})"
        elif e[0] == "f": s += f".{e[1]}"
        elif e[0] == "i": s += f"[_{e[1]}]"
        elif e[0] == "d": s += f" as v{e[1]}"
        else: s += str(e)
    return s
def pval(v):
    if isinstance(v, dict) and "str" in v: return repr(bytes(v["str"]).decode("utf8", "replace"))
    s = json.dumps(v); return s if len(s) < 200 else s[:200] + "..."
def pop(o, m):
    if "c" in o: return pplace(o["c"])
    if "m" in o: return "move " + pplace(o["m"])
    if "k" in o:
        k = o["k"]
        if isinstance(k["v"], dict) and "fn" in k["v"]: return "fn " + m.fns[k["v"]["fn"]].name
        return f"const {pval(k['v'])}: {m.ty(k['t']).s[:80]}"
    return str(o)
def prv(r, m):
    if r[0] == "use": return pop(r[1], m)
    if r[0] == "ref": return ("&mut " if r[1] else "&") + pplace(r[2])
    if r[0] == "addr": return "&raw " + pplace(r[1])
    if r[0] in ("bin", "cbin"): return f"{r[0]} {r[1]}({pop(r[2], m)}, {pop(r[3], m)})"
    if r[0] == "un": return f"{r[1]}({pop(r[2], m)})"
    if r[0] == "cast": return f"{pop(r[2], m)} as {m.ty(r[4]).s[:60]} ({r[1]})"
    if r[0] == "discr": return f"discr({pplace(r[1])})"
    if r[0] == "len": return f"len({pplace(r[1])})"
    if r[0] == "agg":
        k = r[1]
        h = k[0] if k[0] != "adt" else m.ty(k[1]).name + "::" + m.ty(k[1]).variants()[k[2]]["n"]
        return f"{h}({', '.join(pop(o, m) for o in r[2])})"
    return str(r)
def pp(f):
    m = f.mod
    print(f"fn#{f.id} {f.name} [{f.kind} {f.x}] {f.crate} {f.file}:{f.line}")
    if f.bb is None: print("   <no body>"); return
    for i in range(len(f.d["locals"])):
        if i <= f.nargs: print(f"   _{i}: {f.local_ty(i)}")
    for i, b in enumerate(f.bb):
        print(f"  bb{i}:")
        for s in b["s"]:
            if s[0] == "=": print(f"    {pplace(s[1])} = {prv(s[2], m)}")
            else: print("   ", s)
        t = b["t"]
        if t[0] == "call": print(f"    {pplace(t[3])} = call {pop(t[1], m)}({', '.join(pop(o, m) for o in t[2])}) -> {t[4]}   @{t[6]}")
        elif t[0] == "switch": print(f"    switch {pop(t[1], m)} {t[2]} else {t[3]}")
        elif t[0] == "assert": print(f"    assert {pop(t[1], m)}=={t[2]} {t[3]} -> {t[4]}")
        else: print("   ", t)
if __name__ == "__main__":
    import sys
    m = Module(sys.argv[1])
    for rx in sys.argv[2:]:
        for f in m.grep(rx): pp(f)
