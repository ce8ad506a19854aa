"""Second back end: an integer obligation over bounded variables, translated exactly to bit-vectors.
Every integer term carries its value range, so each operation is done in a width that cannot overflow."""
import z3
class NoBV(Exception): pass
def width(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))): w += 1
    return w
def width_fast(lo, hi): return max((hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()), (lo.bit_length() if lo >= 0 else (-lo - 1).bit_length())) + 1
def ext(x, w):
    d = w - x.size()
    return x if d == 0 else z3.SignExt(d, x) if d > 0 else z3.Extract(w - 1, 0, x)
def is_pow2(e): return z3.is_app(e) and e.decl().name() == "pow2" and e.num_args() == 1
MAXW = 4096
class Tr:
    def __init__(self): self.b = {}; self.memo = {}; self.side = []; self.keep = []
    def bounds(self, conds):
        """ranges of atoms (constants, applications) from the top-level conjuncts"""
        def num(e): return e.as_long() if z3.is_int_value(e) else None
        def upd(e, lo=None, hi=None):
            k = e.get_id(); self.keep.append(e); l, h = self.b.get(k, (None, None))
            if lo is not None and (l is None or lo > l): l = lo
            if hi is not None and (h is None or hi < h): h = hi
            self.b[k] = (l, h)
        def go(e, pos):
            k = e.decl().kind()
            if k == z3.Z3_OP_NOT: go(e.arg(0), not pos); return
            if pos and k == z3.Z3_OP_AND:
                for c in e.children(): go(c, True)
                return
            if not pos and k == z3.Z3_OP_OR:
                for c in e.children(): go(c, False)
                return
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, c = e.arg(0), e.arg(1)
                op = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}[k]
                if not pos: op = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le"}[op]
                n = num(c)
                if n is None:
                    n = num(a)
                    if n is None: return
                    a = c; op = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}[op]
                if op == "le": upd(a, hi=n)
                elif op == "lt": upd(a, hi=n - 1)
                elif op == "ge": upd(a, lo=n)
                else: upd(a, lo=n + 1)
            if pos and k == z3.Z3_OP_EQ and z3.is_int(e.arg(0)):
                n = num(e.arg(1))
                if n is not None: upd(e.arg(0), n, n)
        for c in conds: go(c, True)
    def int(self, e):
        k = e.get_id()
        if k not in self.memo: self.keep.append(e); self.memo[k] = self.int_(e)
        return self.memo[k]
    def mk(self, t, lo, hi):
        w = width_fast(lo, hi)
        if w > MAXW: raise NoBV("too wide")
        return ext(t, w), lo, hi
    def int_(self, e):
        d = e.decl().kind()
        if z3.is_int_value(e):
            v = e.as_long(); return z3.BitVecVal(v, width_fast(v, v)), v, v
        if d == z3.Z3_OP_ADD: 
            xs = [self.int(c) for c in e.children()]; lo = sum(x[1] for x in xs); hi = sum(x[2] for x in xs)
            w = max([width_fast(lo, hi)] + [x[0].size() for x in xs]) + 4; t = ext(xs[0][0], w)
            for x in xs[1:]: t = t + ext(x[0], w)
            return self.mk(t, lo, hi)
        if d == z3.Z3_OP_SUB:
            xs = [self.int(c) for c in e.children()]; lo = xs[0][1] - sum(x[2] for x in xs[1:]); hi = xs[0][2] - sum(x[1] for x in xs[1:])
            w = max([width_fast(lo, hi)] + [x[0].size() for x in xs]) + 4; t = ext(xs[0][0], w)
            for x in xs[1:]: t = t - ext(x[0], w)
            return self.mk(t, lo, hi)
        if d == z3.Z3_OP_UMINUS:
            x = self.int(e.arg(0)); w = x[0].size() + 1; return self.mk(-ext(x[0], w), -x[2], -x[1])
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and is_pow2(e.arg(1)):
            a = self.int(e.arg(0)); sh, hi = self.shift(e.arg(1).arg(0))
            if a[1] >= 0:
                w = max(a[0].size(), 12)
                if d == z3.Z3_OP_IDIV: return self.mk(z3.LShR(ext(a[0], w), z3.ZeroExt(w - 10, sh)), 0, a[2])
                one = z3.BitVecVal(1, w); m = z3.If(z3.UGE(z3.ZeroExt(w - 10, sh), z3.BitVecVal(w, w)), z3.BitVecVal(-1, w), (one << z3.ZeroExt(w - 10, sh)) - 1)
                return self.mk(ext(a[0], w) & m, 0, a[2])
        if d == z3.Z3_OP_MUL and e.num_args() == 2 and any(is_pow2(c) for c in e.children()):
            i = 1 if is_pow2(e.arg(1)) else 0
            a = self.int(e.arg(1 - i)); sh, k = self.shift(e.arg(i).arg(0)); hi = max(0, a[2]) << k; lo = min(0, a[1]) << k
            w = max(width_fast(lo, hi), 12)
            return self.mk(ext(a[0], w) << z3.ZeroExt(w - 10, sh), lo, hi)
        if d == z3.Z3_OP_MUL:
            t = None
            for c in e.children():
                x = self.int(c)
                if t is None: t = x; continue
                ps = [t[1] * x[1], t[1] * x[2], t[2] * x[1], t[2] * x[2]]; lo, hi = min(ps), max(ps); w = max(width_fast(lo, hi), t[0].size(), x[0].size())
                t = self.mk(ext(t[0], w) * ext(x[0], w), lo, hi)
            return t
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = self.int(e.arg(0)), self.int(e.arg(1))
            if b[1] == b[2] and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                s = b[1].bit_length() - 1
                if d == z3.Z3_OP_IDIV: return self.mk(a[0] >> min(s, a[0].size() - 1), a[1] >> s, a[2] >> s)
                w = s + 1
                return self.mk(z3.ZeroExt(1, ext(a[0], s)) if s else z3.BitVecVal(0, 1), 0, min(a[2], b[1] - 1) if a[1] >= 0 else b[1] - 1)
            if a[1] < 0 or b[1] < 0: raise NoBV("signed division")
            w = max(a[0].size(), b[0].size()); x, y = ext(a[0], w), ext(b[0], w)
            q, r = (z3.UDiv(x, y), z3.URem(x, y)) if b[1] > 0 else (z3.If(y == 0, z3.BitVecVal(0, w), z3.UDiv(x, y)), z3.If(y == 0, z3.BitVecVal(0, w), z3.URem(x, y)))
            return self.mk(q, 0, a[2]) if d == z3.Z3_OP_IDIV else self.mk(r, 0, max(0, min(a[2], b[2])))   # divisors are guarded non-zero
        if d == z3.Z3_OP_ITE:
            c = self.bool(e.arg(0)); a, b = self.int(e.arg(1)), self.int(e.arg(2)); lo, hi = min(a[1], b[1]), max(a[2], b[2]); w = width_fast(lo, hi)
            return z3.If(c, ext(a[0], w), ext(b[0], w)), lo, hi
        if d == z3.Z3_OP_BV2INT:
            x = self.bv(e.arg(0)); return self.mk(z3.ZeroExt(1, x), 0, (1 << x.size()) - 1)
        if d == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm == "pow2":
                sh, k = self.shift(e.arg(0)); w = 514
                return self.mk(z3.BitVecVal(1, w) << z3.ZeroExt(w - 10, sh), 1, 1 << k)
            lo, hi = self.b.get(e.get_id(), (None, None))
            if nm.startswith("frame.k"): lo, hi = 0 if lo is None else lo, (1 << 256) - 1 if hi is None else hi      # storage keys are words
            if lo is None or hi is None: raise NoBV(f"no range for {str(e)[:80]}")
            w = width_fast(lo, hi)
            if e.num_args() == 0: t = z3.BitVec("i!" + nm, w)
            else:
                args = [self.int(c) if z3.is_int(c) else None for c in e.children()]
                if any(a is None for a in args): raise NoBV("non-integer argument")
                args = [ext(a[0], 320) if a[0].size() <= 320 else None for a in args]
                if any(a is None for a in args): raise NoBV("wide argument")
                t = z3.Function(f"f!{nm}!{w}", *[z3.BitVecSort(320)] * len(args), z3.BitVecSort(w))(*args)
            self.side.append(z3.And(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w)))
            return t, lo, hi
        raise NoBV(f"int op {e.decl()}")
    def shift(self, e):
        """shift amount as 10 bits (0 when out of 0..511: those cases are guarded), and its largest value"""
        x = self.int(e); k = min(511, max(0, x[2])); y = ext(x[0], max(x[0].size(), 12))
        s = z3.Extract(9, 0, y)
        if 0 <= x[1] and x[2] < 512: return s, k
        return z3.If(z3.And(y >= 0, y < 512), s, z3.BitVecVal(0, 10)), k
    def bv(self, e):
        d = e.decl().kind()
        if d == z3.Z3_OP_INT2BV:
            x = self.int(e.arg(0)); return ext(x[0], e.size())
        if e.num_args() == 0: return e
        ch = [self.bv(c) if z3.is_bv(c) else self.bool(c) if z3.is_bool(c) else self.int(c)[0] for c in e.children()]
        return e.decl()(*ch)
    def bool(self, e):
        k = e.get_id()
        if k not in self.memo: self.keep.append(e); self.memo[k] = self.bool_(e)
        return self.memo[k]
    def bool_(self, e):
        d = e.decl().kind(); ch = e.children()
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return e
        if d == z3.Z3_OP_AND: return z3.And(*[self.bool(c) for c in ch])
        if d == z3.Z3_OP_OR: return z3.Or(*[self.bool(c) for c in ch])
        if d == z3.Z3_OP_NOT: return z3.Not(self.bool(ch[0]))
        if d == z3.Z3_OP_IMPLIES: return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if d == z3.Z3_OP_XOR: return z3.Xor(self.bool(ch[0]), self.bool(ch[1]))
        if d == z3.Z3_OP_ITE: return z3.If(self.bool(ch[0]), self.bool(ch[1]), self.bool(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            if z3.is_bool(ch[0]): r = self.bool(ch[0]) == self.bool(ch[1]); return r if d == z3.Z3_OP_EQ else z3.Not(r)
            if z3.is_bv(ch[0]): r = self.bv(ch[0]) == self.bv(ch[1]); return r if d == z3.Z3_OP_EQ else z3.Not(r)
            if not z3.is_int(ch[0]): raise NoBV("sort")
            a, b = self.int(ch[0]), self.int(ch[1]); w = max(a[0].size(), b[0].size()); x, y = ext(a[0], w), ext(b[0], w)
            return {z3.Z3_OP_EQ: lambda: x == y, z3.Z3_OP_DISTINCT: lambda: x != y, z3.Z3_OP_LE: lambda: x <= y, z3.Z3_OP_LT: lambda: x < y, z3.Z3_OP_GE: lambda: x >= y, z3.Z3_OP_GT: lambda: x > y}[d]()
        if d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0: return e
        if d == z3.Z3_OP_UNINTERPRETED:
            args = [ext(self.int(c)[0], 320) for c in ch]
            return z3.Function(f"p!{e.decl().name()}", *[z3.BitVecSort(320)] * len(args), z3.BoolSort())(*args)
        raise NoBV(f"bool op {e.decl()}")
def solve_bv(conds, timeout):
    """'unsat' / 'sat' / 'unknown'"""
    t = Tr(); t.bounds(conds)
    out = []
    for c in conds:
        if "pow2" in c.sexpr() and c.decl().kind() == z3.Z3_OP_AND and c.num_args() > 100: continue    # the table of powers: interpreted
        try: out.append(t.bool(c))
        except NoBV: 
            # dropping a hypothesis is sound for unsat; 'sat' is then not believed
            t.side.append(None)
    partial = any(x is None for x in t.side)
    s = z3.SolverFor("QF_UFBV"); s.set("timeout", timeout)
    s.add(*[x for x in t.side if x is not None]); s.add(*out)
    r = str(s.check())
    m = None
    if r == "sat":
        if partial: return "unknown", None
        m = {d.name(): str(s.model()[d])[:200] for d in s.model().decls()}
    return r, m
