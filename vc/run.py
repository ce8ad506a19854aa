#!/usr/bin/env python3-vt
"""Decides one property: exports the MIR of /repo's current tree, generates the obligations of every
contract tagged with the property (and of the contracts those proofs use), discharges them, writes evidence."""
import sys, os, json, time, subprocess, signal, hashlib, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
T0 = time.time()
def die(msg, code=2): print("ERROR:", msg, flush=True); sys.exit(code)

def export():
    c = os.environ.get("VERIF_CACHE", V + "/.cache"); os.makedirs(c, exist_ok=True)
    out = f"{c}/current-{os.getpid()}.jsonl"
    r = subprocess.run([V + "/export.sh", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die("MIR export failed (does /repo compile?)\n" + r.stdout[-3000:])
    p = os.path.realpath(out); os.unlink(out); return p

G = {}
class TimeUp(BaseException): pass
def _alarm(*a): raise TimeUp()
def task(t):
    try:
        try: return task_(t)
        except TimeUp: return late(t)                 # the timer fired once more while the first time-out was handled
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp: return late(t)
def late(t):
    from spec import Ob
    return t, [Ob(str(t[1]), "time limit", "unknown", "time limit")], {}
def task_(t):
    """(kind, index, mode, dropped, deadline) -> (obligations, stats)"""
    kind, i, mode, dropped, deadline = t
    seed = 0
    if mode.endswith("+"):                            # second attempt after a time-out: other solver seeds
        import z3; mode = mode[:-1]; seed = 7
        for k in ("smt.random_seed", "sat.random_seed"): z3.set_param(k, seed)
    from spec import Ob, Verifier
    t0 = time.time(); limit = int(min(G["limit"], deadline - t0))
    if limit <= 0: return t, [Ob(str(i), "time limit", "unknown", "the stage's time was used up")], {"wall": 0}
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, limit, 2)   # repeated: an exception raised in a destructor is lost
    try:
        if kind == "lemma":
            import specs, lemmas
            name, props, fn = specs.LEM[i]
            return t, lemmas.prove(name, fn, G["mod"]), {"wall": time.time() - t0}
        c = G["reg"][i]
        cs = {k: x for k, x in G["cs"].items() if k not in dropped}
        if mode.startswith("bounded"):
            obs = []; st = {}
            lens = c.opts["lens"][:BL.get(mode[8:], 99)]
            for ln in lens:
                o, s_ = Verifier(G["mod"], cs).verify(c, False, ln)
                for x in o: x.label = f"lengths {ln}: {x.label}"
                obs += o
                for k, v in s_.items():
                    if isinstance(v, (int, float)): st[k] = st.get(k, 0) + v
                    else: st[k] = sorted(set(st.get(k, [])) | set(v))
                if not good([x for x in o if "a successful path exists" not in x.label]): break
            vac = [x for x in obs if "a successful path exists" in x.label]
            if len(vac) < len(lens): obs = [x for x in obs if x not in vac]      # some length has a successful path
            return t, obs, st
        obs, st = Verifier(G["mod"], cs).verify(c, mode == "modular")
        return t, obs, st
    except TimeUp: return t, [Ob(str(i), "time limit", "unknown", f"time limit of {limit} s")], {"wall": time.time() - t0}
    except MemoryError: return t, [Ob(str(i), "memory", "unknown", "out of memory")], {"wall": time.time() - t0}
    except Exception: return t, [Ob(str(i), "internal", "unsupported", traceback.format_exc()[-1500:])], {"wall": time.time() - t0}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

BL = {}
def good(obs): return bool(obs) and all(o.status == "ok" for o in obs)

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER") or "quick"
    for a in sys.argv[2:]:
        if a.startswith("--tier="): tier = a[7:]
    mirp = os.environ.get("VERIF_MIR") or export()
    t_exp = time.time() - T0
    import specs, mir
    specs.load_all()
    mod = mir.Module(mirp)
    reg = specs.REG; cs = {}; missing = []
    for c in reg:
        try: c.fn = mod.find(c.name); cs[c.fn.name] = c
        except LookupError as e: c.fn = None
    # variants (bounded instances) never serve as callee summaries
    cs = {k: c for k, c in cs.items() if not c.opts.get("bounded") and not c.opts.get("nosummary")}
    for c in reg:
        if c.fn is not None and not c.opts.get("bounded") and not c.opts.get("nosummary"): cs[c.fn.name] = c
    idx = {id(c): i for i, c in enumerate(reg)}
    tier_ok = lambda c: tier == "thorough" or not c.opts.get("thorough")
    mine = [i for i, c in enumerate(reg) if prop in c.props and tier_ok(c)]
    lem = [i for i, l in enumerate(specs.LEM) if prop in l[1]]
    if not mine and not lem: die(f"no contracts registered for {prop}")
    G.update(mod=mod, reg=reg, cs=cs, limit=int(os.environ.get("VERIF_LIMIT", 240 if tier == "quick" else 1500)))
    res = {}; lres = {}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        # quick tier: a check answers within 900 s, so every stage has an absolute deadline
        stage = lambda n: T0 + {"modular": 400, "inline": 560, "bounded": 690, "dropped": 800}[n] if tier == "quick" else T0 + 10**6
        def go(tasks, st="modular"):
            ts = sorted([t + (stage(st),) for t in tasks], key=lambda t: -(reg[t[1]].opts.get("cost", 0) if t[0] == "c" else 0))
            it = pool.imap_unordered(task, ts); out = []
            while len(out) < len(ts):
                try: out.append(it.next(max(1, stage(st) + 45 - time.time())))
                except mp.TimeoutError:               # a solver call that does not return: give up on what is left of this stage
                    got = {t for t, _, _ in out}
                    return out + [late(t) for t in ts if t not in got]
            return out
        for t, obs, st in go([("lemma", i, "", ()) for i in lem]): lres[t[1]] = (obs, st)
        todo = [i for i in mine if reg[i].fn is not None]; seen = set()
        def close(todo, sg="modular"):            # closure over used contracts, modular proofs
            while todo:
                for t, obs, st in go([("c", i, "modular", ()) for i in todo], sg): res[t[1]] = (obs, st, "modular")
                todo = {idx[id(cs[n])] for i in list(res) for n in res[i][1].get("contracts", []) if n in cs} - set(res)
        close(todo)
        # a contract that fails modularly is retried with every callee inlined
        bad = [i for i in res if not good(res[i][0])]
        late = [i for i in bad if any(o.label == "time limit" for o in res[i][0])]
        for t, obs, st in go([("c", i, "inline", ()) for i in bad if res[i][1].get("contracts") or i in late] + [("c", i, "modular+", ()) for i in late], "inline"):
            if good(res[t[1]][0]): continue
            if good(obs) or not any(o.status == "failed" for o in res[t[1]][0]): res[t[1]] = (obs, st, t[2].rstrip("+"))
        close({idx[id(cs[n])] for i in list(res) for n in res[i][1].get("contracts", []) if n in cs} - set(res), "inline")
        # a loop that no longer matches the contract's loop: bounded stand-in over every listed combination of lengths
        bad = [i for i in res if not good(res[i][0]) and reg[i].opts.get("lens")]
        for t, obs, st in go([("c", i, "bounded", ()) for i in bad], "bounded"):
            if good(obs) or any(o.status == "failed" for o in obs): res[t[1]] = (obs, st, "bounded")
        # contracts that do not hold are not used as summaries: their users are proved again without them
        # (unless a contract of this property already fails for good: the verdict cannot change any more)
        dropped = {reg[i].fn.name for i in res if not good(res[i][0])}
        kn = {x["contract"] for x in load_known(prop)}
        if dropped and not any(i in res and reg[i].pub and not good(res[i][0]) and reg[i].name not in kn for i in mine):
            users = [i for i in res if i in mine and good(res[i][0]) and uses(i, res, reg, cs, idx, dropped)]
            for t, obs, st in go([("c", i, "inline", tuple(dropped)) for i in users], "dropped"): res[t[1]] = (obs, st, "inline")
            for t, obs, st in go([("c", i, "bounded", tuple(dropped)) for i in users if not good(res[i][0]) and reg[i].opts.get("lens")], "dropped"):
                if good(obs) or any(o.status == "failed" for o in obs): res[t[1]] = (obs, st, "bounded")
    fails = []; nob = nd = 0
    for i in mine:
        c = reg[i]
        if c.fn is None:
            if c.pub: fails.append((c, "missing anchor", [spec_ob(c, "the function under contract exists", "missing", f"{c.name} not found in the exported MIR")]))
            continue
        if not good(res[i][0]) and c.pub: fails.append((c, "contract", [o for o in res[i][0] if o.status != "ok"]))
    for i in lem:
        if not good(lres[i][0]): fails.append((specs.LEM[i][0], "lemma", [o for o in lres[i][0] if o.status != "ok"]))
    allobs = [o for i in res for o in res[i][0]] + [o for i in lres for o in lres[i][0]]
    pub = [i for i in res if reg[i].pub or good(res[i][0])]
    obs_n = [o for i in pub for o in res[i][0]] + [o for i in lres for o in lres[i][0]]
    known = load_known(prop)
    level = LEVEL(prop)
    kf = []; viol = []
    for c, what, obs in fails:
        nm = c if isinstance(c, str) else c.name + (f" [{c.opts['variant']}]" if c.opts.get("variant") else "")
        k = [x for x in known if x["contract"] == nm and all(any(p in o.label for p in x["labels"]) for o in obs)]
        (kf if k else viol).append((nm, what, obs, k))
    # a bounded contract is a stand-in only where the same function has no discharged unbounded one
    unb = {reg[i].fn.name for i in res if reg[i].opts.get("abstract") and good(res[i][0]) and res[i][2] == "modular"}
    standin = lambda i: bool(reg[i].opts.get("bounded")) and reg[i].fn.name not in unb
    bounded = sorted(c.name + ": " + str(c.opts["bounded"]) for i, c in enumerate(reg) if i in res and standin(i))
    inl = set(); mods = set(); used = set()
    for i in res:
        inl |= set(res[i][1].get("inlined", [])); mods |= set(res[i][1].get("models", [])); used.add(reg[i].fn.name)
    assum = ["semantics of the modelled external functions listed in trusted_base (stylus-sdk storage, calls, events; alloy ABI encoding and keccak as uninterpreted functions; ruint integer operations; core/alloc collections)",
             "rustc front end and the MIR exporter (/verif/driver) are faithful; release profile (no arithmetic overflow checks); 64-bit usize",
             "Z3 answers unsat only for unsatisfiable formulas",
             "default build: no re-entrant mutation of the contract's own storage during external calls (the state exposed at each call is checked)",
             "a revert (Err or panic) undoes all storage effects, as the EVM/Stylus host guarantees"]
    for i in res:
        for a in reg[i].opts.get("assume", []):
            if a not in assum: assum.append(a)
    bounded += sorted(reg[i].name + ": argument lengths " + str(reg[i].opts["lens"]) for i in res if res[i][2] == "bounded")
    bo = sum(len(res[i][0]) for i in res if standin(i) or res[i][2] == "bounded")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"obligations": len(obs_n), "discharged": sum(o.status == "ok" for o in obs_n),
                       "checker_cmd": f"/verif/check.sh {prop} --tier={tier} (own VC generator over rustc MIR, back end Z3 {z3v()})",
                       "trusted_base": sorted(mods),
                       "functions_under_contract": sorted(used), "functions_inlined": sorted(x for x in inl if x not in used and "openzeppelin" in x),
                       "library_functions_executed_from_mir": sorted(x for x in inl if "openzeppelin" not in x)[:200],
                       "per_function": [{"function": reg[i].fn.name, "file": reg[i].fn.file, "obligations": len(res[i][0]), "paths": res[i][1].get("paths"), "mode": res[i][2],
                                         "solver_s": round(res[i][1].get("solver_s", 0), 3), "bounded": reg[i].opts.get("bounded"), **({"reading": "callees by their contracts, over opaque values"} if reg[i].opts.get("abstract") else {})} for i in sorted(res)],
                       "lemmas": [{"lemma": specs.LEM[i][0], "obligations": len(lres[i][0]), "discharged": sum(o.status == "ok" for o in lres[i][0])} for i in lres],
                       "bounded_checks": bounded, "obligations_in_bounded_checks": bo,
                       "solver_s": round(sum(res[i][1].get("solver_s", 0) for i in res), 3), "solver_queries": sum(res[i][1].get("queries", 0) for i in res),
                       "export_s": round(t_exp, 1), "mir_sha": os.path.basename(mirp)},
          "assumptions": assum, "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    for nm, what, obs, k in kf:
        for x in k: print(f"KNOWN-FINDING: property={prop} {x['what']}")
    if viol:
        rp = f"{V}/evidence/{prop}.replay.json"
        rep = {"property": prop, "failed": [{"contract": nm, "kind": what, "obligations": [{"label": o.label, "status": o.status, "detail": o.detail, "counterexample": o.model} for o in obs[:12]]} for nm, what, obs, k in viol]}
        conc = None
        json.dump(rep, open(rp, "w"), indent=1, default=str)
        for nm, what, obs, k in viol:
            print(f"  failed obligation: {nm}: {obs[0].label} [{obs[0].status}] {([x for x in obs[0].detail.splitlines() if x.strip()] or [''])[-1 if 'Traceback' in obs[0].detail else 0][:200]}")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if conc else " no-failing-input-found"))
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations, {len(used)} functions under contract, {len(lres)} lemmas, solver {ev['coverage']['solver_s']} s, wall {ev['wall_s']} s")
    sys.exit(1 if viol else 0)
def uses(i, res, reg, cs, idx, dropped, seen=None):
    seen = seen or set()
    for n in res[i][1].get("contracts", []):
        if n in dropped: return True
        if n not in cs: continue
        j = idx[id(cs[n])]
        if j in seen: continue
        seen.add(j)
        if j in res and uses(j, res, reg, cs, idx, dropped, seen): return True
    return False
def spec_ob(c, l, s, d):
    from spec import Ob
    return Ob(c.name, l, s, d)
def z3v():
    import z3; return z3.get_version_string()
def load_known(prop):
    p = V + "/known_findings.json"
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get("known", []) if x["property"] == prop]
def LEVEL(prop):
    try:
        for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
            if c["property"] == prop: return c["level"]
    except Exception: pass
    return "proof"
if __name__ == "__main__": main()
