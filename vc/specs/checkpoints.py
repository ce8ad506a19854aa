from specs import *
# ---------------------------------------------------------------- checkpoint histories (utils::structs::checkpoints)
# Abstract state: a sequence of (key, value) of length n with strictly increasing keys.
SIZES = ("S160", "S224", "S208")
def n_of(t): return t.checkpoints.len()
def key(t, i): return t.checkpoints[i].key.get()
def val(t, i): return t.checkpoints[i].value.get()
def ordered(S, t, *_):
    """strictly increasing keys"""
    i, j = z3.Ints("ckpt.i ckpt.j")
    ki, kj = zint(key(t, i)), zint(key(t, j))
    body = z3.Implies(z3.And(0 <= i, i < j, j < zint(n_of(t))), ki < kj)
    ok = all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in (ki, kj))
    return [z3.ForAll([i, j], body, patterns=[z3.MultiPattern(ki, kj)]) if ok else z3.ForAll([i, j], body)]
def ordered_after(I, st0, st1, args):
    return [("keys stay strictly increasing", ordered(None, Obj(InvCtx(I, st1), args[0]))[0])]
def sid(x):
    return x.sexpr() if is_sym(x) else str(x)
def pos(S, t, k, strict, what):
    """the least p such that p = n or key[p] >= k (strict: > k); it exists for every history (definition by the least element)"""
    o = t.checkpoints.o; m = S.st.store.get(o.path + ("[]", "key"))
    ver = "" if m is None else "|".join(f"{sid(a)}:{sid(b)}" for kk, b in m.upd for a in kk)
    ex = "|".join(sid(x) for x in o.keys)
    p = z3.Int(f"{what}({'.'.join(o.path)}[{ex}]{{{ver}}}#{sid(n_of(t))},{sid(k)})")
    n = n_of(t)
    c = (lambda x: gt(x, k)) if strict else (lambda x: ge(x, k))
    S.I.facts.append(zbool(And(le(0, p), le(p, n), Or(eq(p, 0), Not(c(key(t, sub(p, 1))))), Or(eq(p, n), c(key(t, p))))))
    return p
def cands(I, st, sargs, leaves):
    t = Obj(InvCtx(I, st), sargs[0]); k = sargs[1]; n = n_of(t); out = []
    xs = [(i, x) for i, x in enumerate(leaves) if (isinstance(x, int) and not isinstance(x, bool)) or (is_sym(x) and z3.is_int(x))]
    for i in range(len(leaves)):
        x = dict(xs).get(i)
        if x is None: out += [("-", False)] * 5; continue
        out += [(f"v{i} <= n", le(x, n)), (f"key before v{i} is below", Or(le(x, 0), lt(key(t, sub(x, 1)), k))), (f"key before v{i} is at most", Or(le(x, 0), le(key(t, sub(x, 1)), k))),
                (f"key at v{i} is at least", Or(ge(x, n), ge(key(t, x), k))), (f"key at v{i} is above", Or(ge(x, n), gt(key(t, x), k)))]
    for i in range(len(leaves)):
        for j in range(len(leaves)):
            if i != j: out.append((f"v{i} <= v{j}", le(leaves[i], leaves[j]) if i in dict(xs) and j in dict(xs) else False))
    return out
def setlen(I, st, sargs, ln):
    """bounded stand-in: a history of concrete length"""
    t = Obj(InvCtx(I, st), sargs[0]); t.checkpoints.set_len(ln[0])
LO = {"loop_cands": cands, "lens": [(k,) for k in range(0, 8)], "lenset": setlen, "always": True}
def lower(S, t, k):
    p = pos(S, t, k, False, "lower"); n = n_of(t)
    if S.branch(eq(p, n)): return 0
    return val(t, p)
def upper(S, t, k):
    p = pos(S, t, k, True, "upper")
    if S.branch(eq(p, 0)): return 0
    return val(t, sub(p, 1))
def latest(S, t):
    n = n_of(t)
    if S.branch(eq(n, 0)): return 0
    return val(t, sub(n, 1))
def latest_checkpoint(S, t):
    n = n_of(t)
    if S.branch(eq(n, 0)): return NONE
    return Some((key(t, sub(n, 1)), val(t, sub(n, 1))))
def push(S, t, k, v):
    n = n_of(t)
    if S.branch(gt(n, 0)):
        lk, lv = key(t, sub(n, 1)), val(t, sub(n, 1))
        S.fail_if(gt(lk, k), "CheckpointUnorderedInsertion")
        if S.branch(eq(lk, k)):
            t.checkpoints[sub(n, 1)].value.set(v); return (lv, v)
        t.checkpoints.set_len(add(n, 1)); t.checkpoints[n].key.set(k); t.checkpoints[n].value.set(v); return (lv, v)
    t.checkpoints.set_len(1); t.checkpoints[0].key.set(k); t.checkpoints[0].value.set(v); return (0, v)
for s_ in SIZES:
    T = f"Trace::<{s_}>"
    P = "C24" + (" C13" if s_ == "S160" else "")
    contract(f"{T}::push", P, inv=ordered, post=ordered_after)(push)
    contract(f"{T}::lower_lookup", P, inv=ordered, opts=LO)(lower)
    contract(f"{T}::upper_lookup", "C24", inv=ordered, opts=LO)(upper)
    contract(f"{T}::upper_lookup_recent", "C24", inv=ordered, opts=LO)(upper)
    contract(f"{T}::latest", "C24")(latest)
    contract(f"{T}::latest_checkpoint", P)(latest_checkpoint)
    contract(f"{T}::length", P)(lambda S, t: n_of(t))
    @contract(f"{T}::at", "C24")
    def at(S, t, i):
        S.require(lt(i, n_of(t))); return (key(t, i), val(t, i))
