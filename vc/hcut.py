"""Loops over limb numbers (binary inversion): every loop head the execution meets is cut, with invariants found among
candidates given by the contract.

The state at a head is arbitrary in everything the loops change (limb numbers become arbitrary limb numbers of the same
size, other temporaries are unreadable), subject to the candidates that survive: a candidate is kept at a head when it
holds on every arrival, from outside and from every cut head under that head's own surviving candidates (Houdini).
Termination is not claimed."""
import z3
import engine as E
from engine import Agg, Arr, UNINIT, Unsupported, is_sym, zbool, Not, simp_bool
from loops import syn, diff
from bytesv import big_type
def limb_type(ty):
    return isinstance(ty, E.Ty) and (big_type(ty) or ty.k == "adt" and ty.name.endswith("field::fp::Fp"))
def numbers(v, pre=()):
    """(subpath, value) of the limb numbers inside a value"""
    if isinstance(v, Agg):
        if limb_type(v.ty): return [(pre, v)]
        return [y for i, x in enumerate(v.f) for y in numbers(x, pre + (i,))]
    if isinstance(v, Arr) and len(v.e) <= 8: return [y for i, x in enumerate(v.e) for y in numbers(x, pre + (i,))]
    return []
def at(v, pre):
    for i in pre: v = v.f[i] if isinstance(v, Agg) else v.e[i]
    return v
def put(v, pre, x):
    if not pre: return x
    i = pre[0]
    if isinstance(v, Agg): f = list(v.f); f[i] = put(f[i], pre[1:], x); return Agg(v.ty, v.v, f)
    e = list(v.e); e[i] = put(e[i], pre[1:], x); return Arr(e)
def holds(I, pc, c):
    c = simp_bool(c)
    if isinstance(c, bool): return c
    pc = [zbool(x) for x in pc]; fs = list(I.relevant_facts(pc + [c])); I.poly.load()
    if I.poly.eq_goal(c, pc, fs, 10000): return True
    return not (z3.is_const(c) and c.decl().name() in I.poly.cgs) and I.poly.solve(fs + pc + [z3.Not(c)], 10000)[0] == "unsat"
def impossible(I, pc):
    pc = [zbool(x) for x in pc]; I.poly.load()
    return I.poly.solve(list(I.relevant_facts(pc)) + pc, 10000)[0] == "unsat"
def run(I, fn, fr, st, head, visits):
    I.hcutting += 1
    try: return run_(I, fn, fr, st, head, visits)
    finally: I.hcutting -= 1
def run_(I, fn, fr, st, head, visits):
    """-> outcomes of the function from this arrival at `head` on"""
    entry = st.copy(); base = {head: entry}; npc = len(entry.pc)
    heads = [h for h in E.loop_heads(fn)]; tag = f"{len(I.hcuts)}"; I.hcuts.append(fn.name)
    ltys = {fr[i]: fn.local_ty(i) for i in range(len(fn.d["locals"])) if E.leaf(fn.local_ty(i)) and E.leaf(fn.local_ty(i))[0] is False}
    nums, dead = {}, set()            # (cell, subpath) -> type; cells that are not readable at a head
    def arrive(h):
        """the arbitrary state at head h"""
        s = base[h].copy(); s.pc = list(entry.pc)
        for c in dead:
            if c in s.mem: s.mem[c] = UNINIT
        for (c, pre), ty in nums.items():
            if c in s.mem and c not in dead: s.mem[c] = put(s.mem[c], pre, fresh(h, c, pre, ty))
        return s
    memo = {}
    def fresh(h, c, pre, ty):
        k = (h, c, pre)
        if k not in memo: memo[k] = I.fresh_val(ty, f"h{tag}.{h}.{c}" + "".join(f".{i}" for i in pre))
        return memo[k]
    def explore(s, b, vis):
        out = []; work = [(s, b, dict(vis), True)]
        while work:
            s1, b1, v, first = work.pop()
            if not first and (b1 == head or (fn.name, b1) in I.force_cut): out.append((s1, b1)); continue
            if b1 in heads:
                if v.get(b1, 0) == 0: v[("pc", b1)] = len(s1.pc)
                elif len(s1.pc) > v[("pc", b1)]: I.force_cut.add((fn.name, b1)); raise E.Restart()
            v[b1] = v.get(b1, 0) + 1
            if v[b1] > I.unroll or len(work) + len(out) > I.max_paths: raise Unsupported("loop body too large")
            for x in fn.bb[b1]["s"]: I.stmt(s1, fr, x)
            for s2, t in I.term(fn, fr, s1, fn.bb[b1]["t"]):
                if isinstance(t, int): work.append((s2, t, dict(v), False))
                else: out.append((s2, t))
        return out
    def vals(s): return [at(s.mem[c], pre) if c in s.mem and s.mem[c] is not UNINIT else None for c, pre in sorted(nums)]
    # ---- what changes
    def learn(s, h):
        """compare an arrival with the arbitrary state at its head"""
        if len(s.store) != len(entry.store) or s.events is not entry.events or s.calls is not entry.calls: raise Unsupported("loop with effects")
        if h not in base: base[h] = s.copy(); ch = True
        else: ch = False
        ref = arrive(h)
        for c in list(ref.mem):
            if c in dead: continue
            v, w = ref.mem[c], s.mem.get(c, UNINIT)
            if syn(v, w): continue
            if v is UNINIT: continue
            if c in ltys and (isinstance(v, int) or is_sym(v)) and (isinstance(w, int) or is_sym(w)):      # a machine word
                ch |= (c, ()) not in nums; nums[(c, ())] = ltys[c]; continue
            a, b = dict(numbers(v)), dict(numbers(w))
            d = []; diff(v, w, (), d)
            for pre, x, y in d:
                hit = next((p for p in a if pre[:len(p)] == p and p in b), None)
                if hit is None: dead.add(c); ch = True; break
                if (c, hit) not in nums: nums[(c, hit)] = a[hit].ty; ch = True
        return ch
    I.lenient += 1          # preconditions are checked below, under the invariants
    for _ in range(24):
        ch = False; done = set(); todo = [head]
        while todo:
            h = todo.pop()
            if h in done: continue
            done.add(h)
            for s, t in explore(arrive(h), h, {}):
                if isinstance(t, int):
                    ch |= learn(s, t); todo.append(t)
        if not ch: break
    else: raise Unsupported("loop abstraction does not stabilise")
    I.lenient -= 1
    # ---- invariants
    cands = lambda s: I.cut_cands(I, s, vals(s))
    c0 = cands(entry); n = len(c0)
    live = {}
    live[head] = {i for i in range(n) if c0[i] is not None and holds(I, entry.pc, c0[i][1])}
    def start(h):
        s = arrive(h)
        for i, c in enumerate(cands(s)):
            if i in live[h] and c is not None: s.assume(c[1])
        return s
    for _ in range(60):
        ch = False
        for h in sorted(base, key=lambda h: (h != head, h)):
            if h not in live: ch = True; continue
            for s, t in explore(start(h), h, {}):
                if not isinstance(t, int): continue
                cs = cands(s)
                if t not in live: live[t] = set(range(n)); ch = True
                bad = {i for i in live[t] if cs[i] is None or not holds(I, s.pc, cs[i][1])}
                if bad and not impossible(I, s.pc): live[t] -= bad; ch = True
        if not ch: break
    else: raise Unsupported("invariants do not stabilise")
    out = []
    I.hinv = {h: [c0[i][0] for i in sorted(live[h])] for h in base}
    for h in base:
        for s, t in explore(start(h), h, {}):
            if not isinstance(t, int): out.append((s, t))
            elif learn(s, t): raise Unsupported("loop abstraction does not stabilise")
    return out
