"""Integer back end for limb arithmetic: every term is brought to a canonical polynomial over atoms.

A remainder x mod c (c constant) is written x - c*(x div c); a quotient x div c first splits off the part of x whose
coefficients are divisible by c and becomes an atom d with 0 <= x - c*d < c otherwise.  Products of atoms are treated as
independent unknowns with the interval that follows from their factors.  What remains is linear integer arithmetic,
decided by Z3.  Dropping the relation between a product and its factors can only lose proofs: an `unsat` is an `unsat`
of the original formula."""
import z3, time, math
import engine as E
from engine import zint, zbool
INF = None
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 60000: raise E.Unsupported("polynomial too large")
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def pconst(c): return {(): c} if c else {}
def is_c(p): return not p or (len(p) == 1 and () in p)
def cval(p): return p.get((), 0)
def key(p): return tuple(sorted(p.items()))
def limited(ms):
    """a solver with a limit in solver steps (about 40 per ms here): unlike a time limit it does not depend on the machine's
    load, and an interrupted query leaves the same state behind in every run; the time limit is only a backstop"""
    s = z3.Solver(); s.set("rlimit", ms * 40); s.set("timeout", ms * 5); return s
class PC:
    def __init__(self, I):
        self.I = I; self.memo = {}; self.keep = []; self.rng = {}; self.nf = 0; self.side = {}; self.names = {}; self.ivm = {}; self.bm = {}; self.vars = {}; self.loc = None; self.dms = {}; self.rem = {}
        self.defs = {}     # name -> term: definitional equalities used as rewriting rules
        self.cgs = {}      # Boolean symbol -> (term, modulus): the term is a multiple of the modulus
        self.modp = {}     # quotient atom by a prime-like constant -> (poly, constant)
    def load(self):
        """ranges of variables from the facts"""
        fs = self.I.facts
        while self.nf < len(fs):
            f = fs[self.nf]; self.nf += 1
            self.range_from(f, self.rng)
    def range_from(self, f, rng):
        if z3.is_and(f):
            for x in f.children(): self.range_from(x, rng)
            return
        k = f.decl().kind() if z3.is_app(f) else None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = f.arg(0), f.arg(1)
            if z3.is_int_value(a): a, b = b, a; k = {z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
            if z3.is_int_value(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = self.aname(a); lo, hi = rng.get(n, (INF, INF)); v = b.as_long()
                if k == z3.Z3_OP_GE: lo = v if lo is INF else max(lo, v)
                elif k == z3.Z3_OP_GT: lo = v + 1 if lo is INF else max(lo, v + 1)
                elif k == z3.Z3_OP_LE: hi = v if hi is INF else min(hi, v)
                else: hi = v - 1 if hi is INF else min(hi, v - 1)
                rng[n] = (lo, hi)
    def aname(self, t):
        n = t.decl().name() if t.num_args() == 0 else t.sexpr()
        if n not in self.names: self.names[n] = t
        return n
    # ---- intervals
    def iv_mono(self, m):
        lo, hi = 1, 1
        for a in m:
            l, h = self.rng.get(a, (INF, INF))
            if self.loc and a in self.loc:
                l2, h2 = self.loc[a]; l = l2 if l is INF else l if l2 is INF else max(l, l2); h = h2 if h is INF else h if h2 is INF else min(h, h2)
            if l is INF or h is INF or l < 0: return (0 if l is not INF and l >= 0 and lo is not INF and lo >= 0 else INF, INF)
            if lo is INF or hi is INF: return (0, INF)
            lo, hi = lo * l, hi * h
        return lo, hi
    def iv(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.iv_mono(m)
            if c < 0: l, h = h, l
            lo = INF if lo is INF or l is INF else lo + c * l
            hi = INF if hi is INF or h is INF else hi + c * h
        return lo, hi
    # ---- terms
    def term(self, t):
        if isinstance(t, bool): return pconst(int(t))
        if isinstance(t, int): return pconst(t)
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._term(t); self.memo[i] = r; self.keep.append(t)
        return r
    def atom(self, n): return {(n,): 1}
    def _term(self, t):
        if z3.is_int_value(t): return pconst(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = self.aname(t)
            return self.atom(n)
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children(): r = padd(r, self.term(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.term(t.arg(0))
            for c in t.children()[1:]: r = padd(r, self.term(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return padd({}, self.term(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = pconst(1)
            for c in t.children(): r = pmul(r, self.term(c))
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            c = self.term(t.arg(1))
            if is_c(c) and cval(c) > 0: return self.dm(self.term(t.arg(0)), cval(c))[0 if k == z3.Z3_OP_IDIV else 1]
        if k == z3.Z3_OP_ITE:
            c = self.decide(t.arg(0))
            if c is True: return self.term(t.arg(1))
            if c is False: return self.term(t.arg(2))
            a, b = self.term(t.arg(1)), self.term(t.arg(2))
            if a == b: return a
            g = t.arg(0)
            if z3.is_eq(g) and z3.is_int(g.arg(0)):          # If(x == 1, 1, 0) for a bit x
                d = padd(self.term(g.arg(0)), self.term(g.arg(1)), -1)
                for x in (padd(d, pconst(1)), padd(pconst(1), d, -1)):
                    if self.iv(x) == (0, 1) and a == pconst(1) and not b: return x
            n = f"ite#{t.get_id()}"; la, ha = self.iv(a); lb, hb = self.iv(b)
            self.rng[n] = (INF if la is INF or lb is INF else min(la, lb), INF if ha is INF or hb is INF else max(ha, hb))
            self.side[n] = ("ite", t.arg(0), a, b); self.keep.append(t)
            return self.atom(n)
        n = f"term#{t.get_id()}"; self.keep.append(t); self.names[n] = t
        return self.atom(n)
    def dm(self, x, c):
        """(x div c, x mod c)"""
        def inside(p):
            lo, hi = self.iv(p); return lo is not INF and hi is not INF and lo >= 0 and hi < c
        if inside(x): return {}, x
        lo, hi = self.iv(x)
        if lo is not INF and hi is not INF and lo // c == hi // c: q = pconst(lo // c); return q, padd(x, q, -c)
        for h in (0, (c - 1) // 2):
            x1, x0 = {}, {}
            for m, k in x.items():
                q, r = divmod(k + h, c); r -= h
                if q: x1[m] = q
                if r: x0[m] = r
            if inside(x0): return x1, x0
        # x0 = g*y + r with 0 <= r < g and g | c:  x0 div c = y div (c/g)
        for g in sorted({abs(k) for k in x0.values() if 1 < abs(k) < c and c % abs(k) == 0}, reverse=True):
            lo_ = {m: k for m, k in x0.items() if k % g}
            l, h_ = self.iv(lo_)
            if l is INF or h_ is INF or l < 0 or h_ >= g: continue
            d, r = self.dm({m: k // g for m, k in x0.items() if k % g == 0}, c // g)
            return padd(x1, d), padd({m: k * g for m, k in r.items()}, lo_)
        i = key(x0), c
        if i not in self.dms:
            n = len(self.dms); d, r = f"div{n}", f"rem{n}"
            l0, h0 = self.iv(x0)
            self.rng[d] = (INF if l0 is INF else l0 // c, INF if h0 is INF else h0 // c)
            e = self.expand(x0); exact = all(k % c == 0 for k in e.values())
            self.side[d] = ("div", x0, c, exact)
            if not exact:
                self.rng[r] = (0, c - 1); self.rem[r] = (x0, c, d)
            self.dms[i] = (self.atom(d), {} if exact else self.atom(r))
        d, r = self.dms[i]
        return padd(x1, d), r
    def expand(self, p):
        """remainders written as x - c*(x div c)"""
        for _ in range(3000):
            a = next((a for m in p for a in m if a in self.rem), None)
            if a is None: return p
            x, c, d = self.rem[a]
            p = self.replace(p, a, padd(x, self.atom(d), -c))
        raise E.Unsupported("remainders do not stabilise")
    def replace(self, p, a, e):
        r = {}; pw = [pconst(1)]
        for m, c in p.items():
            k = m.count(a)
            if not k:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
                continue
            while len(pw) <= k: pw.append(pmul(pw[-1], e))
            r = padd(r, pmul({tuple(x for x in m if x != a): c}, pw[k]))
        return r
    # ---- conditions
    def decide(self, c):
        """True / False when intervals settle it, else None"""
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = c.get_id()
        if i in self.bm: return self.bm[i]
        r = self._decide(c)
        if r is not None and not self.loc: self.bm[i] = r; self.keep.append(c)
        return r
    def under(self, pc, c):
        """decide c with the bounds on single variables that the path condition gives"""
        r = self.decide(c)
        if r is not None: return r
        self.term_of(c); loc = {}
        for x in pc:
            if not isinstance(x, bool): self.bounds(x, loc)
        if not loc: return None
        self.loc = loc
        try: return self.decide(c)
        finally: self.loc = None
    def term_of(self, c):
        """canonicalise the terms of c (outside any local bounds)"""
        if isinstance(c, bool): return
        if z3.is_app(c) and c.num_args() == 2 and z3.is_int(c.arg(0)): self.cmp(c)
        else:
            for x in c.children():
                if z3.is_bool(x): self.term_of(x)
    def bounds(self, f, loc):
        neg = False
        while z3.is_not(f): f = f.arg(0); neg = not neg
        if z3.is_and(f) and not neg or z3.is_or(f) and neg:
            for x in f.children(): self.bounds(z3.Not(x) if neg else x, loc)
            return
        k = f.decl().kind() if z3.is_app(f) else None
        if k not in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_int(f.arg(0)): return
        a, b = f.arg(0), f.arg(1)
        if k == z3.Z3_OP_EQ:
            if neg: return
            for g in (a >= b, a <= b): self.range_from(g, loc)
            return
        if neg: f = {z3.Z3_OP_GE: a < b, z3.Z3_OP_LE: a > b, z3.Z3_OP_LT: a >= b, z3.Z3_OP_GT: a <= b}[k]
        self.range_from(f, loc)
    def _decide(self, c):
        if z3.is_not(c):
            r = self.decide(c.arg(0)); return None if r is None else not r
        if z3.is_and(c):
            rs = [self.decide(x) for x in c.children()]
            return False if False in rs else None if None in rs else True
        if z3.is_or(c):
            rs = [self.decide(x) for x in c.children()]
            return True if True in rs else None if None in rs else False
        d = self.cmp(c)
        if d is None: return None
        op, p = d; lo, hi = self.iv(p)
        if op == "eq":
            if not p: return True
            if (lo is not INF and lo > 0) or (hi is not INF and hi < 0): return False
            return None
        if lo is not INF and lo >= 0: return True         # op == ge: p >= 0
        if hi is not INF and hi < 0: return False
        return None
    def cmp(self, c):
        """('eq'|'ge', poly) for an integer comparison"""
        if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)): return None
        k = c.decl().kind(); 
        if k not in (z3.Z3_OP_EQ, z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT): return None
        a, b = self.term(c.arg(0)), self.term(c.arg(1))
        if k == z3.Z3_OP_EQ: return "eq", padd(a, b, -1)
        if k == z3.Z3_OP_GE: return "ge", padd(a, b, -1)
        if k == z3.Z3_OP_LE: return "ge", padd(b, a, -1)
        if k == z3.Z3_OP_LT: return "ge", padd(padd(b, a, -1), pconst(-1))
        return "ge", padd(padd(a, b, -1), pconst(-1))
    # ---- to linear arithmetic
    def lin(self, p, used):
        t = []
        for m, c in p.items():
            if not m: t.append(z3.IntVal(c)); continue
            v = self.vars.get(m)
            if v is None: v = self.vars[m] = z3.Int(f"m{len(self.vars)}")
            used.add(m); t.append(v if c == 1 else c * v)
        return z3.Sum(t) if len(t) > 1 else t[0] if t else z3.IntVal(0)
    def boolean(self, c, used):
        if isinstance(c, bool): return z3.BoolVal(c)
        r = self.decide(c)
        if r is not None: return z3.BoolVal(r)
        if z3.is_quantifier(c): return None
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_IFF) or (k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT) and all(z3.is_bool(x) for x in c.children())):
            xs = [self.boolean(x, used) for x in c.children()]
            if any(x is None for x in xs): return None
            return c.decl()(*xs) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(xs) if k == z3.Z3_OP_AND else z3.Or(xs))
        d = self.cmp(c)
        if d is None: return z3.Bool(f"b#{c.get_id()}") if not self.keep.append(c) else None
        op, p = d
        return self.lin(p, used) == 0 if op == "eq" else self.lin(p, used) >= 0
    def formula(self, conds, used=None):
        out = []; used = set() if used is None else used
        for c in conds:
            b = self.boolean(c, used)
            if b is not None: out.append(b)
        done = set()
        while True:
            todo = [m for m in used if m not in done]
            if not todo: break
            for m in todo:
                done.add(m)
                lo, hi = self.iv_mono(m); v = self.vars[m]
                if lo is not INF: out.append(v >= lo)
                if hi is not INF: out.append(v <= hi)
                if any(a in self.rem for a in m): out.append(v == self.lin(self.expand({m: 1}), used))
                for a in m:
                    s = self.side.get(a)
                    if s is None or ("s", a) in done: continue
                    done.add(("s", a))
                    va = self.lin(self.atom(a), used)
                    if s[0] == "div":
                        x = self.lin(self.expand(s[1]), used)
                        if s[3]: out.append(x == s[2] * va)
                        else: out.append(x - s[2] * va >= 0); out.append(x - s[2] * va <= s[2] - 1)
                    else:
                        cnd = self.boolean(s[1], used)
                        if cnd is not None: out.append(z3.If(cnd, va == self.lin(s[2], used), va == self.lin(s[3], used)))
        return out
    def solve(self, conds, timeout):
        """'unsat' | 'sat' (of the abstraction) | 'unknown'"""
        self.load()
        f = self.formula([zbool(c) for c in conds])
        if any(z3.is_false(x) for x in f): return "unsat", None
        s = limited(timeout); s.add(*[x for x in f if not z3.is_true(x)])
        r = str(s.check())
        if r == "sat":
            m = s.model(); d = {}
            for mo, v in self.vars.items():
                if len(mo) == 1 and mo[0] in self.names:
                    x = m[v]
                    if x is not None: d[mo[0]] = str(x)
            return r, d
        return r, None
    def subst(self, p, modulus=None):
        """rewrite with the definitional equalities (and, modulo a number, with the exact quotients)"""
        for _ in range(4000):
            p = self.expand(p)
            if modulus: p = {m: c % modulus for m, c in p.items() if c % modulus}
            hit = next((a for m in p for a in m if a in self.defs or (modulus and a in self.side and self.side[a][0] == "div" and self.side[a][3] and math.gcd(self.side[a][2], modulus) == 1)), None)
            if hit is None: return p
            if hit in self.defs: p = self.replace(p, hit, self.term(self.defs[hit]))
            else:
                _, x, c, _ = self.side[hit]; i = pow(c, -1, modulus)
                p = self.replace(p, hit, {m: k * i % modulus for m, k in x.items()})
        raise E.Unsupported("definitions do not stabilise")
    def forced(self, a, pc, facts, timeout):
        """the only value the quotient can have on this path (0, 1 or -1), or None"""
        self.load(); used = set(); va = self.lin(self.atom(a), used)
        f = self.formula([zbool(c) for c in facts + pc], used)
        def no(c):
            s = limited(min(timeout, 3000)); s.add(*f, c); return s.check() == z3.unsat
        if no(va >= 1): return 0 if no(va <= -1) else -1 if no(va >= 0) and no(va <= -2) else None
        return 1 if no(va <= 0) and no(va >= 2) else None
    # ---- exact modular equality
    def eq_goal(self, g, pc, facts, timeout):
        """goal lhs == E mod p: lhs - E vanishes modulo p coefficientwise and 0 <= lhs < p"""
        if isinstance(g, bool): return g
        if z3.is_and(g): return all(self.eq_goal(x, pc, facts, timeout) for x in g.children())
        if z3.is_const(g) and z3.is_bool(g) and g.decl().name() in self.cgs: return self.multiple(*self.cgs[g.decl().name()], pc, facts, timeout)
        if not (z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and z3.is_int(g.arg(0))): return False
        if not self.subst(padd(self.term(g.arg(0)), self.term(g.arg(1)), -1)): return True
        for x, y in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(y.arg(1)):
                p = y.arg(1).as_long()
                d = self.subst(padd(self.term(x), self.term(y.arg(0)), -1), p)
                if d and len(d) <= 12:         # quotients that the path forces to one value (an absent carry, say)
                    for a in sorted({a for m in d for a in m}):
                        if a in self.side and self.side[a][0] == "div":
                            k = self.forced(a, pc, facts, timeout)
                            if k is not None: d = self.subst(self.replace(d, a, pconst(k)), p)
                if not d or self.cgs and self.multiple(x - y.arg(0), p, pc, facts, timeout):
                    if self.solve(facts + pc + [z3.Or(x < 0, x >= p)], timeout)[0] == "unsat": return True
        return False
    # ---- congruences
    def cong(self, t, p):
        """the statement `p divides t` as a Boolean symbol"""
        if not isinstance(p, int): return self.cong_sym(t, p)
        if isinstance(t, int): return t % p == 0
        d = self.subst(self.term(t), p)
        if not d: return True
        n = f"cg!{t.get_id()}!{p}"; self.cgs[n] = (t, p); self.keep.append(t); return z3.Bool(n)
    def resid(self, t, p, pc, facts, timeout, consts):
        """t modulo p: quotients eliminated by their defining equation where the path fixes the quotient or the remainder"""
        d = self.subst(self.term(t), p)
        for _ in range(60):
            for a in {a for m in d for a in m}:
                if a in consts: d = self.replace(d, a, pconst(consts[a])); break
                s = self.side.get(a)
                if s is None: continue
                if s[0] == "ite":
                    k = next((e for e, c in ((s[2], z3.Not(s[1])), (s[3], s[1])) if self.solve(facts + pc + [c], timeout)[0] == "unsat"), None)
                    if k is not None: d = self.replace(d, a, k); break
                    continue
                _, x, c, _ = s
                k = self.forced(a, pc, facts, timeout) if c != 2 else None
                if k is not None: d = self.replace(d, a, pconst(k)); break
                if c == 2 and p % 2:
                    r = self.forced_rem(a, x, c, pc, facts, timeout)
                    if r is not None:
                        i = pow(c, -1, p); d = self.replace(d, a, {m: k * i % p for m, k in padd(x, pconst(r), -1).items()}); break
            else: return d
            d = self.subst(d, p)
        raise E.Unsupported("quotients do not stabilise")
    def forced_rem(self, a, x, c, pc, facts, timeout):
        self.load(); used = set(); r = self.lin(padd(self.expand(x), self.atom(a), -c), used)
        f = self.formula([zbool(c_) for c_ in facts + pc], used)
        for v in range(c):
            s = limited(min(timeout, 3000)); s.add(*f, r != v)
            if s.check() == z3.unsat: return v
        return None
    def cong_sym(self, t, p):
        """the statement `p divides t` for a modulus that is itself a term"""
        t = zint(t); n = f"cg!{t.get_id()}!t{p.get_id()}"; self.cgs[n] = (t, p); self.keep += [t, p]; return z3.Bool(n)
    def fixed(self, d, pc, facts, timeout):
        """a polynomial with the quotients and variables the path fixes replaced by their values"""
        loc = {}
        for c in pc: self.bounds(c, loc)
        consts = {a: lo for a, (lo, hi) in loc.items() if lo is not INF and lo == hi}
        d = self.subst(d)
        for _ in range(60):
            for a in sorted({a for m in d for a in m}):
                if a in consts: d = self.replace(d, a, pconst(consts[a])); break
                s = self.side.get(a)
                if s is None: continue
                if s[0] == "div":
                    k = self.forced(a, pc, facts, timeout)
                    if k is not None: d = self.replace(d, a, pconst(k)); break
                elif s[0] == "ite":
                    k = next((e for e, c in ((s[2], z3.Not(s[1])), (s[3], s[1])) if self.solve(facts + pc + [c], timeout)[0] == "unsat"), None)
                    if k is not None: d = self.replace(d, a, k); break
            else: return d
            d = self.subst(d)
        raise E.Unsupported("quotients do not stabilise")
    def multiple_sym(self, t, p, pc, facts, timeout):
        """t is an integer combination of the terms assumed to be multiples of p and of p itself, modulo the shift equations"""
        from fractions import Fraction as Q
        for c in pc: self.term_of(c)
        fx = lambda x: {m: Q(c) for m, c in self.fixed(x, pc, facts, timeout).items()}
        basis = []             # (poly, leading monomial, {generator: coefficient})
        def red(q, comb):
            for b, m, cb in basis:
                k = q.get(m)
                if k:
                    q = padd(q, {n: c * k for n, c in b.items()}, -1)
                    for g, c in cb.items(): comb[g] = comb.get(g, 0) + c * k
            return q
        def push(q, g):
            comb = {}; q = red(q, comb)
            if not q: return
            m = max(q); k = q[m]
            cb = {h: -c / k for h, c in comb.items()}
            if g is not None: cb[g] = 1 / k
            q = {n: c / k for n, c in q.items()}
            for i, (b, mb, c2) in enumerate(basis):
                f = b.get(m)
                if f: basis[i] = (padd(b, {n: c * f for n, c in q.items()}, -1), mb, {h: c2.get(h, 0) - f * cb.get(h, 0) for h in set(c2) | set(cb)})
            basis.append((q, m, cb))
        for i, v, x in self.I.shifts:         # x = v div 2^i
            d = self.fixed(self.term(zint(i)), pc, facts, timeout)
            if is_c(d) and cval(d) == 0: push(fx(padd(self.term(x), self.term(zint(v)), -1)), None)
        push(fx(self.term(p)), "p")
        for c in pc:
            n = c.decl().name() if z3.is_const(c) else None
            if n in self.cgs and not isinstance(self.cgs[n][1], int) and self.cgs[n][1].eq(p): push(fx(self.term(self.cgs[n][0])), n)
        comb = {}; r = red(fx(self.term(t)), comb)
        return not r and all(Q(c).denominator == 1 for c in comb.values())
    def multiple(self, t, p, pc, facts, timeout):
        if not isinstance(p, int): return self.multiple_sym(t, p, pc, facts, timeout)
        """p divides t: t is, modulo p, a linear combination of the terms assumed to be multiples of p"""
        for c in pc: self.term_of(c)
        loc = {}
        for c in pc: self.bounds(c, loc)
        consts = {a: lo for a, (lo, hi) in loc.items() if lo is not INF and lo == hi}
        d = self.resid(t, p, pc, facts, timeout, consts)
        if not d: return True
        basis = {}
        def red(q):
            q = dict(q)
            while q:
                m = next((m for m in sorted(q, reverse=True) if m in basis), None)
                if m is None: return q
                k = q[m]; q = {n: c % p for n, c in padd(q, basis[m], -k).items() if c % p}
            return q
        for c in pc:
            n = c.decl().name() if z3.is_const(c) else None
            if n in self.cgs and isinstance(self.cgs[n][1], int) and self.cgs[n][1] == p:
                q = red(self.resid(self.cgs[n][0], p, pc, facts, timeout, consts))
                if q:
                    m = max(q); i = pow(q[m], -1, p); q = {n_: c_ * i % p for n_, c_ in q.items()}
                    for b in basis: 
                        k = basis[b].get(m)
                        if k: basis[b] = {n_: c_ % p for n_, c_ in padd(basis[b], q, -k).items() if c_ % p}
                    basis[m] = q
        return not red(d)
