"""Joining the states that reach a loop head in the same iteration (algebraic mode, loops over the bits of a scalar).

The states of one iteration differ only in the module element they accumulated; each is shown to equal the same term
(the scalar shifted, or reduced, by the bits left), and the states are replaced by one with that term and the common
part of their path conditions.  The joined state covers every joined one, so nothing is lost; a cell that differs in
any other way is poisoned, and a read of it stops the proof."""
import z3
import engine as E
from engine import Agg, Arr, Ref, IterV, FnV, BoxV, UNINIT, is_sym, zint, zbool, add, mul, eq, simp_int, simp_bool, Not, Unsupported, Ty
from alg import ME
class Poison:
    def __repr__(self): return "poison"
POISON = Poison()
def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (bool, int, str)): return a == b
    if is_sym(a): return a.eq(b)
    if isinstance(a, Agg): return a.ty is b.ty and a.v == b.v and len(a.f) == len(b.f) and all(map(same, a.f, b.f))
    if isinstance(a, Arr): return len(a.e) == len(b.e) and all(map(same, a.e, b.e))
    if isinstance(a, Ref): return a.cell == b.cell and a.path == b.path
    if isinstance(a, IterV): return a.kind == b.kind and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, FnV): return a.fn is b.fn
    if isinstance(a, BoxV): return a.cell == b.cell
    if isinstance(a, ME): return a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    return False
def measure(st, fr, fn):
    """bits left in the iterator the loop runs over: a list, outermost first"""
    def look(v, d=0):
        if d > 8: return None
        if isinstance(v, IterV):
            n = simp_int(E.sub(v.f["n"], v.f["i"])) if "n" in v.f and "i" in v.f else None
            return [n] if isinstance(n, int) else None
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.k == "adt":
            n = v.ty.name.split("::")[-1]
            if n == "Range" and len(v.f) == 2: return [max(0, v.f[1] - v.f[0])] if all(isinstance(x, int) for x in v.f) else None
            if n == "FlattenCompat":
                a, b = look(v.f[0], d + 1), look(v.f[1], d + 1)
                return None if a is None and b is None else (a or [0]) + (b or [0])
            if n == "Option" and (v.vname == "None" or not v.f): return [0]
            for x in v.f:
                r = look(x, d + 1)
                if r is not None: return r
        return None
    best = None
    for i in range(len(fn.d["locals"])):
        if i in fr and fr[i] in st.mem:
            t = fn.local_ty(i)
            if t.k == "adt" and any(s in t.name for s in ("iter::", "::Iter", "IntoIter", "Range")):
                r = look(st.mem[fr[i]])
                if r is not None: best = r if best is None else min(best, r)     # moved-from copies stay at the start
    return best
def scalars(st):
    """candidate scalars: limb lists"""
    out = []; seen = set()
    def look(v, d=0):
        if d > 8: return
        if isinstance(v, Arr) and v.e and all(is_sym(x) and z3.is_int(x) for x in v.e): put(list(v.e)); return
        if is_sym(v) and z3.is_int(v): put([v]); return
        for x in v.f if isinstance(v, Agg) else v.e if isinstance(v, Arr) else [x for x in v.f.values()] if isinstance(v, IterV) else (): look(x, d + 1)
    def put(l):
        k = tuple(x.get_id() for x in l)
        if k not in seen: seen.add(k); out.append(l)
    for v in list(st.mem.values()): look(v)
    return out
def shifted(l, i):
    """(sum of limbs * 2^64j) div 2^i, written limb by limb"""
    q, s = divmod(i, 64); r = 0
    if q >= len(l): return 0
    for j in range(len(l) - 1, q, -1): r = add(r, mul(l[j], 1 << (64 * (j - q) - s)))
    return add(r, E.div(l[q], 1 << s))
def lowpart(l, i):
    q, s = divmod(i, 64); r = 0
    for j in range(min(q, len(l))): r = add(r, mul(l[j], 1 << (64 * j)))
    if q < len(l) and s: r = add(r, mul(E.mod(l[q], 1 << s), 1 << (64 * q)))
    return r
def common(pcs):
    out = []
    for t in zip(*pcs):
        if all(x.get_id() == t[0].get_id() for x in t): out.append(t[0])
        else: break
    return out
def merge(I, group, m):
    """group: states -> one state, or None when they cannot be joined"""
    sts = [g for g in group]; s0 = sts[0]
    if any(s.store != s0.store or s.events != s0.events or s.calls != s0.calls for s in sts): return None
    pc = common([s.pc for s in sts]); bits = sum(x << (6 * (len(m) - 1 - k)) for k, x in enumerate(m))
    cells = {}; cache = {}
    def cand(me):
        """one element equal to all of `me` (list, one per state)"""
        key = tuple(tuple((x, c if isinstance(c, int) else c.get_id()) for x, c in sorted(e.d.items())) for e in me)
        if key in cache: return cache[key]
        ks = set().union(*[e.d.keys() for e in me]); d = {}
        for k in ks:
            cs = [e.d.get(k, 0) for e in me]
            if all(same(c, cs[0]) for c in cs): d[k] = cs[0]; continue
            for l in I.scal:
                N = 64 * len(l)
                for t in (shifted(l, bits), lowpart(l, I.nbits - bits) if I.nbits else None):
                    if t is None: continue
                    if all(I.alg.holds(s.pc, eq(c, t)) for s, c in zip(sts, cs)): d[k] = t; break
                if k in d: break
            else: cache[key] = None; return None
        r = cache[key] = ME(me[0].A, d, me[0].ty); return r
    def val(vs):
        if all(same(v, vs[0]) for v in vs): return vs[0]
        if all(isinstance(v, ME) for v in vs):
            c = cand(vs)
            if c is None:
                import os
                if os.environ.get("JDBG"): print(m, bits, I.nbits, I.scal, [(v, [p for p in s.pc[-3:]]) for v, s in zip(vs, sts)])
                raise Unsupported("no common form of the joined elements")
            return c
        if all(isinstance(v, Agg) and v.ty is vs[0].ty and v.v == vs[0].v and len(v.f) == len(vs[0].f) for v in vs):
            return Agg(vs[0].ty, vs[0].v, [val([v.f[i] for v in vs]) for i in range(len(vs[0].f))])
        return POISON
    out = s0.copy(); out.pc = list(pc); out.ncell = max(s.ncell for s in sts)
    out.mem = {c: val([s.mem[c] for s in sts]) for c in s0.mem if all(c in s.mem for s in sts)}
    return out
class Park:
    def __init__(self, I, fn, fr): self.I = I; self.fn = fn; self.fr = fr; self.q = []; self.first = True
    def put(self, st, bi, visits):
        m = measure(st, self.fr, self.fn)
        if self.first: self.first = False; self.I.scal = scalars(st); self.I.nbits = sum(x << (6 * (len(m) - 1 - k)) for k, x in enumerate(m)) if m else None
        self.q.append((m if m is not None else [-visits.get(bi, 0)], st, bi, visits))
    def take(self):
        """-> the next (state, block, visits): all parked states of the earliest iteration, joined"""
        m, b = max((m, -bi) for m, _, bi, _ in self.q); g = [x for x in self.q if x[0] == m and x[2] == -b]
        self.q = [x for x in self.q if not any(x is y for y in g)]
        if len(g) == 1: return g[0][1:]
        s = merge(self.I, [x[1] for x in g], m)
        if s is None: raise Unsupported("states of one iteration cannot be joined")
        return s, g[0][2], dict(g[0][3])
