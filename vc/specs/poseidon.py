from specs import *
import json, os
from engine import BoxV, Ref, UNIT, Agg
from specs.fields import modulus, INST, FPT
# ---------------------------------------------------------------- Poseidon2 (eprint 2023/323) as a permutation of GF(p)^t, and the sponge over it
PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "poseidon2.json")))
def m4(x):
    """the 4x4 MDS matrix of the paper"""
    M4 = ((5, 7, 1, 3), (4, 6, 1, 1), (1, 3, 5, 7), (1, 1, 4, 6))
    return [sum((y * c for y, c in zip(x[1:], r[1:])), x[0] * r[0]) for r in M4]
def ext(x):
    t = len(x)
    if t < 4: s = sum(x[1:], x[0]); return [y + s for y in x]                  # circ(2, 1), circ(2, 1, 1)
    b = [m4(x[i:i + 4]) for i in range(0, t, 4)]
    if t == 4: return b[0]
    s = [sum((q[j] for q in b[1:]), b[0][j]) for j in range(4)]                 # circ(2 M4, M4, ..., M4)
    return [q[j] + s[j] for q in b for j in range(4)]
def int_(x, diag):
    s = sum(x[1:], x[0]); return [s + y * d for y, d in zip(x, diag)]           # all-ones matrix plus the diagonal
def permutation(x, P):
    rf, rp, d = P["rounds_f"], P["rounds_p"], P["d"]
    diag = P["diag"] if P["t"] > 3 else {2: [1, 2], 3: [1, 1, 2]}[P["t"]]
    x = ext(x)
    for r in range(rf + rp):
        c = P["rc"][r]
        if rf // 2 <= r < rf // 2 + rp: x = int_([(x[0] + c[0]) ** d] + x[1:], diag)
        else: x = ext([(y + k) ** d for y, k in zip(x, c)])
    return x
def sponge_ty(t): return {n: (i, f) for i, (n, f) in enumerate(t.fields())}
def fld(v, name): return v.f[[n for n, _ in v.ty.fields()].index(name)]
def with_(v, **kw):
    ns = [n for n, _ in v.ty.fields()]; return Agg(v.ty, v.v, [kw.get(n, x) for n, x in zip(ns, v.f)])
def sponge(I, st, t, P, mode, index, nm="state"):
    """a sponge with arbitrary state elements"""
    f = [ft for n, ft in t.fields() if n == "state"][0].targs()[0].elem()
    fs = []
    for n, ft in t.fields():
        if n == "state": fs.append(BoxV(st.new_cell(Arr([I.fresh_val(f, f"{nm}{i}") for i in range(P["t"])]))))
        elif n == "mode": fs.append(Agg(ft, M.vidx(ft, mode), ()))
        elif n == "index": fs.append(index)
        else: fs.append(UNIT)
    return Ref(st.new_cell(Agg(t, 0, fs)))
def poseidon(par, f, n, P):
    PF = f"openzeppelin_crypto::poseidon2::Poseidon2::<{par}, {FPT}<{f}, {n}>>"; PT = f"openzeppelin_crypto::poseidon2::Poseidon2<{par}, {FPT}<{f}, {n}>>"
    T, C = P["t"], P["capacity"]
    O = {"alg": "named", "mut": (0,)}
    def perm_uf(s):
        x = fld(s, "state").e; A = x[0].A; k = ("perm", tuple(y.key for y in x))
        return Arr([A.uf(k + (i,), x[0].ty, f"perm{len(A.names)}") for i in range(T)])
    both = lambda I, st, fn, extra=lambda I, st, fn: []: [[sponge(I, st, fn.arg_tys()[0].elem(), P, m, i)] + extra(I, st, fn) for m in ("Absorbing", "Squeezing") for i in range(C, T + 1)]
    def mode(s, m): t = fld(s, "mode").ty; return Agg(t, M.vidx(t, m), ())
    absorbing = lambda s: fld(s, "mode").vname == "Absorbing"
    def permute(S, s): return None, Raw(with_(s, state=Arr(permutation(list(fld(s, "state").e), P))))
    contract(PF + "::permute", "C34", opts={**O, "mkargs": lambda I, st, fn: [[sponge(I, st, fn.arg_tys()[0].elem(), P, "Absorbing", C)]],
             "summary": lambda S, s: (None, Raw(with_(s, state=perm_uf(s)))), "cost": 5})(permute)
    def absorb1(S, s, e):
        S.require(absorbing(s), "absorbing while squeezing")
        if fld(s, "index") == T: s = with_(s, state=perm_uf(s), index=C)
        i = fld(s, "index"); x = list(fld(s, "state").e); x[i] = x[i] + e
        return with_(s, state=Arr(x), index=i + 1)
    def squeeze1(s):
        if absorbing(s) or fld(s, "index") == T: s = with_(s, state=perm_uf(s), mode=mode(s, "Squeezing"), index=C)
        i = fld(s, "index"); return with_(s, index=i + 1), fld(s, "state").e[i]
    elem = lambda I, st, fn: [Ref(st.new_cell(I.fresh_val(fn.arg_tys()[1].elem(), "elem")))]
    contract(PF + "::absorb", "C34", opts={**O, "mkargs": lambda I, st, fn: both(I, st, fn, elem), "inline_alg": True})(lambda S, s, e: (None, Raw(absorb1(S, s, e))))
    def squeeze(S, s): s, e = squeeze1(s); return Raw(e), Raw(s)
    contract(PF + "::squeeze", "C34", opts={**O, "mkargs": both, "inline_alg": True})(squeeze)
    def absorb_batch(S, s, es):
        for e in es.e: s = absorb1(S, s, e)
        return None, Raw(s)
    bn = range(0, 2 * (T - C) + 2) if T < 8 else (0, 1, 2, T - C, T - C + 1, 2 * (T - C) + 1)
    batch = lambda I, st, fn: [[sponge(I, st, fn.arg_tys()[0].elem(), P, m, i), Ref(st.new_cell(Arr([I.fresh_val(fn.arg_tys()[1].elem().elem(), f"e{j}") for j in range(k)])))]
             for k in bn for m in ("Absorbing", "Squeezing") for i in ({C, T} if T >= 8 else range(C, T + 1))]
    contract(PF + "::absorb_batch", "C34", opts={**O, "mkargs": batch, "bounded": f"batches of {list(bn)} elements"})(absorb_batch)
    def squeeze_batch(S, s, k):
        out = []
        for _ in range(k): s, e = squeeze1(s); out.append(e)
        return Raw(Arr(out)), Raw(s)
    contract(PF + "::squeeze_batch", "C34", opts={**O, "mkargs": lambda I, st, fn: [[sponge(I, st, fn.arg_tys()[0].elem(), P, m, i), k] for k in bn for m in ("Absorbing", "Squeezing") for i in ({C, T} if T >= 8 else range(C, T + 1))],
             "bounded": f"{list(bn)} elements"})(squeeze_batch)
    # any number of elements: the batch functions are folds of the contracted single steps over an opaque sponge value
    AB, SQ = PF + "::absorb", PF + "::squeeze"
    def abs_absorb(S, s, e): S.require(absf("absorbing", (s,), True), "absorbing while squeezing"); return None, Raw(absf("absorb", (s, e)))
    abs_squeeze = lambda S, s: (Raw(absf("squeezed", (s,))), Raw(absf("squeeze", (s,))))
    def fold_absorb(S, s, es):
        def step(k, s): return abs_absorb(S, s, S.at(es, k))[1].v
        return None, Raw(S.foreach(S.len(es), step, (s,)))
    contract(PF + "::absorb_batch", "C34", pub=False, opts={"mut": (0,), "nosummary": True, "abstract": {AB: (abs_absorb, (0,))}, "mkargs": lambda I, st, fn: [[Ref(st.new_cell(opaque_val("sponge"))), Ref(st.new_cell(opaque_seq(I, "elems")))]]})(fold_absorb)
    def fold_squeeze(S, s, n):
        def step(k, out, s):
            e, s = abs_squeeze(S, s); return M.cat_vals(S.I, out, Arr([e.v])), s.v
        out, s = S.foreach(n, step, (Arr([]), s))
        return Raw(out), Raw(s)
    contract(PF + "::squeeze_batch", "C34", pub=False, opts={"mut": (0,), "nosummary": True, "abstract": {SQ: (abs_squeeze, (0,))}, "mkargs": lambda I, st, fn: [[Ref(st.new_cell(opaque_val("sponge"))), I.fresh_val(fn.arg_tys()[1], "n")]]})(fold_squeeze)
    def fresh_sponge(S):
        def ok(v):
            x = fld(v, "state"); return And(isinstance(x, Arr) and len(x.e) == T, *[x.e[0].A.eq0(y) for y in x.e], fld(v, "mode").vname == "Absorbing", eq(fld(v, "index"), C))
        return Rel(ok)
    contract([PF + "::new", f"<{PT} as std::default::Default>::default"], "C34", opts={"alg": "named", "nosummary": True})(fresh_sponge)
    contract(PF + "::state_size", "C34")(lambda S: T)
def small(t, c): return {"t": t, "d": 7, "capacity": c, "rounds_f": 2, "rounds_p": 2, "diag": [11 + i for i in range(t)], "rc": [[100 * k + i + 1 for i in range(t)] for k in (1, 2, 3, 4)]}
PI = "openzeppelin_crypto::poseidon2::instance::"
for par, f, n in (("babybear::BabyBear24Params", "BabyBearParam", 1), ("bls12::BLS2Params", "BLS12Param", 4), ("bls12::BLS3Params", "BLS12Param", 4), ("bls12::BLS4Params", "BLS12Param", 4),
                  ("bn256::BN256Params", "BN256Param", 4), ("goldilocks::Goldilocks12Params", "GoldiLocksParam", 1), ("pallas::PallasParams", "PallasParam", 4), ("vesta::VestaParams", "VestaParam", 4)):
    poseidon(PI + par, INST + f, n, PARAMS[par])
for t, c in ((8, 2), (16, 3), (20, 4)): poseidon(f"vinst::poseidon::Small{t}", INST + "BabyBearParam", 1, small(t, c))
