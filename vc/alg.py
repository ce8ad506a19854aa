"""Algebraic readings of the field and group operations.

A function whose contract names `alg` is executed with field elements (or curve points) as elements of an abstract ring
(or group): every primitive operation is replaced by the ring reading of its own contract (`ring` / `group`), which is an
obligation of its own (C32 for the field operations, C33 for the group operations) and is discharged in the same run.

  Ring("expand")  polynomials over GF(p) in the inputs, multiplied out       (curve formulas)
  Ring("named")   sums stay linear: a factor of several terms gets a name    (Poseidon2)
  Mod("pow")      products of powers of the inputs, exponents are terms      (Field::pow)
  Mod("group")    integer combinations of points, coefficients are terms     (scalar multiplication)

Whether a polynomial is zero is a Boolean symbol of its normal form.  A Boolean model of a goal's negation is checked
for algebraic consistency (substitution, division by known non-zero factors, Groebner basis over GF(p)); an
inconsistent one is blocked, so `proved` means: no assignment is consistent with the field axioms."""
import re, time, signal, z3
import engine as E
from engine import Agg, Arr, Unsupported, is_sym, simp_bool, simp_int, zbool, add, mul, sub, eq, ite, And, Or, Not
FPN = "openzeppelin_crypto::field::fp::Fp"
def is_fp(ty): return ty.k == "adt" and ty.name == FPN
def limbs(v):
    """the integer value of a concrete limb number (Uint, or the form inside Fp), or None"""
    while isinstance(v, Agg) and v.f: v = v.f[0]
    if isinstance(v, Arr) and all(isinstance(x, int) for x in v.e): return sum(x << (64 * i) for i, x in enumerate(v.e)), len(v.e)
    return None

# ------------------------------------------------------------------ polynomials over GF(p), Laurent in the inverted atoms
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        e += d.get(x, 0)
        if e: d[x] = e
        else: d.pop(x, None)
    return tuple(sorted(d.items()))
class FE:
    """field element: {monomial: coefficient mod p}"""
    __slots__ = ("A", "p", "d", "ty")
    def __init__(self, A, p, d, ty=None): self.A = A; self.p = p; self.d = d; self.ty = ty
    def mk(self, d): return FE(self.A, self.p, d, self.ty)
    def lift(self, o): return o if isinstance(o, FE) else self.mk({(): o % self.p} if o % self.p else {})
    def __add__(self, o):
        o = self.lift(o); d = dict(self.d); p = self.p
        for m, c in o.d.items():
            c = (d.get(m, 0) + c) % p
            if c: d[m] = c
            else: d.pop(m, None)
        return self.mk(d)
    __radd__ = __add__
    def __neg__(self): return self.mk({m: self.p - c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-self.lift(o))
    def __rsub__(self, o): return self.lift(o) - self
    def const(self):
        if not self.d: return 0
        return self.d[()] if len(self.d) == 1 and () in self.d else None
    def __mul__(self, o):
        o = self.lift(o); p = self.p; a = self
        if self.A.named and a.const() is None and o.const() is None: a, o = self.A.name(a), self.A.name(o)
        d = {}
        if len(a.d) < len(o.d): a, o = o, a
        for m2, c2 in o.d.items():
            for m1, c1 in a.d.items():
                m = mmul(m1, m2); d[m] = d.get(m, 0) + c1 * c2
        if len(d) > 200000: raise Unsupported("polynomial too large")
        return self.mk({m: c % p for m, c in d.items() if c % p})
    __rmul__ = __mul__
    def __pow__(self, n):
        r = self.lift(1)
        for _ in range(n): r = r * self
        return r
    def __repr__(self):
        t = [f"{c if c < 1000 or self.p - c > 1000 else c - self.p}" + "".join(f"*{self.A.an[x]}" + (f"^{e}" if e != 1 else "") for x, e in m) for m, c in list(self.d.items())[:8]]
        return "FE(" + " + ".join(t) + (" + ..." if len(self.d) > 8 else "") + ")"
    @property
    def key(self): return (self.p, tuple(sorted(self.d.items())))
    def monic(self):
        m = max(self.d); i = pow(self.d[m], -1, self.p); return i, self.mk({k: c * i % self.p for k, c in self.d.items()})

class Ring:
    reading = "ring"
    def elem(self, ty): return is_fp(ty)
    def __init__(self, I, named=False): self.I = I; self.named = named; self.an = []; self.names = {}; self.zb = {}; self.zp = {}; self.n = 0; self.fields = {}
    # -- symbols
    def atom(self, ty, name, p=None):
        self.an.append(name); return FE(self, p or self.char(ty), {((len(self.an) - 1, 1),): 1}, ty)
    def char(self, ty):
        p = self.fields.get(ty.s)
        if p is None:
            from specs.fields import modulus
            p = self.fields[ty.s] = modulus(ty.s)
        return p
    def name(self, f):
        if len(f.d) <= 1: return f
        i, g = f.monic(); k = ("L", g.key)
        if k not in self.names: self.names[k] = (self.atom(f.ty, f"L#{len(self.names)}", f.p), g)
        a = self.names[k][0]; return a.mk({m: pow(i, -1, f.p) for m in a.d})
    def uf(self, key, ty, name):
        """an uninterpreted function value"""
        if key not in self.names: self.names[key] = (self.atom(ty, name), None)
        return self.names[key][0]
    def bool_uf(self, key):
        k = ("B",) + key
        if k not in self.names: self.names[k] = z3.Bool(f"uf!{len(self.names)}")
        return self.names[k]
    def fresh(self, ty, name): return self.atom(ty, name) if is_fp(ty) else None
    def wrap(self, v):
        if isinstance(v, Agg) and isinstance(v.ty, E.Ty) and is_fp(v.ty):
            l = limbs(v)
            if l is None: return v
            p = self.char(v.ty); x = l[0] * pow(1 << (64 * l[1]), -1, p) % p
            return FE(self, p, {(): x} if x else {}, v.ty)
        return v
    def has(self, v): return isinstance(v, FE)
    # -- zero tests
    def eq0(self, f):
        if not f.d: return True
        if f.const() is not None: return False
        lo = None
        for m in f.d:
            d = dict(m); lo = d if lo is None else {x: min(lo.get(x, 0), d.get(x, 0)) for x in set(lo) | set(d)}
        lo = {x: e for x, e in lo.items() if e}
        g = f
        if lo:
            inv = tuple(sorted((x, -e) for x, e in lo.items())); g = f.mk({mmul(m, inv): c for m, c in f.d.items()})
        alts = [self.bool0(f.mk({((x, 1),): 1})) for x, e in sorted(lo.items()) if e > 0]
        if g.const() is None: alts.append(self.bool0(g.monic()[1]))
        return Or(*alts) if alts else False
    def bool0(self, g):
        k = g.key
        if k not in self.zb:
            b = z3.Bool(f"fz!{len(self.zb)}"); self.zb[k] = b; self.zp[str(b)] = g
        return self.zb[k]
    def eq(self, a, b): return self.eq0(a - b)
    def ite(self, c, a, b): raise Unsupported("conditional field element")
    # -- operations
    def apply(self, I, st, fn, c, args):
        op = c.opts["ring"]; mut = c.opts.get("mut", ())
        a = [I.deref(st, x) for x in args]
        if op == "inverse": return self.inverse(I, st, fn, a[0])
        r = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "neg": lambda a: -a, "double": lambda a: a + a, "square": lambda a: a * a,
             "eq": self.eq, "is_zero": self.eq0, "is_one": lambda a: self.eq0(a - 1), "div": None}[op]
        if r is None or not all(isinstance(x, FE) for x in a): return None
        r = r(*a)
        if mut:
            I.write_ref(st, I.deref_ref(st, args[mut[0]]), r)
            return [(st, ("ret", args[mut[0]] if fn.local_ty(0).k == "ref" else E.UNIT))]
        return [(st, ("ret", r))]
    def inverse(self, I, st, fn, f):
        rt = fn.local_ty(0); out = []
        for s, b in I.fork(st, self.eq0(f)):
            if b: out.append((s, ("ret", I.models.none(rt)))); continue
            if len(f.d) == 1: (m, c), = f.d.items(); w = f.mk({tuple((x, -e) for x, e in m): pow(c, -1, f.p)})
            else:
                w = self.uf(("inv", f.key), f.ty, f"inv#{len(self.names)}")
                s.assume(self.eq0(f * w - 1))
            out.append((s, ("ret", I.models.some(rt, w))))
        return out
    # -- decision procedure
    def solve(self, conds, timeout):
        """-> 'unsat' | 'sat' (Boolean model consistent as far as the algebra can tell) """
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*[zbool(c) for c in conds]); t0 = time.time()
        while time.time() - t0 < timeout / 1000:
            r = s.check()
            if r != z3.sat: return str(r), None
            m = s.model(); lits = []
            for d in m.decls():
                if d.name() in self.zp: lits.append((d.name(), z3.is_true(m[d])))
            pol = lambda ls: ([self.zp[n] for n, b in ls if b], [self.zp[n] for n, b in ls if not b])
            if not infeasible(*pol(lits), True): return "sat", {n: f"{self.zp[n]} {'=' if b else '!='} 0" for n, b in lits}
            core = list(lits)
            for l in lits:
                c2 = [x for x in core if x is not l]
                if infeasible(*pol(c2), False): core = c2
            s.add(z3.Or(*[z3.Bool(n) != z3.BoolVal(b) for n, b in core]))
        return "unknown", None

def divexact(f, g):
    """f / g when g divides f, else None (lexicographic division; no negative exponents)"""
    if any(e < 0 for h in (f, g) for m in h.d for _, e in m): return None
    n = max([x for h in (f, g) for m in h.d for x, _ in m], default=-1) + 1
    def ex(m):
        v = [0] * n
        for x, e in m: v[x] = e
        return tuple(v)
    F = {ex(m): c for m, c in f.d.items()}; G = {ex(m): c for m, c in g.d.items()}
    lg = max(G); ig = pow(G[lg], -1, f.p); Q = {}
    if len(G) == 1 and not any(lg): return None
    while F:
        lf = max(F); q = tuple(a - b for a, b in zip(lf, lg))
        if min(q, default=0) < 0 or len(Q) > 3000: return None
        c = F[lf] * ig % f.p; Q[q] = c
        for m, k in G.items():
            mm = tuple(a + b for a, b in zip(m, q)); v = (F.get(mm, 0) - c * k) % f.p
            if v: F[mm] = v
            else: F.pop(mm, None)
    return f.mk({tuple((i, e) for i, e in enumerate(m) if e): c for m, c in Q.items()})
def subst(f, x, g):
    """f with atom x replaced by g (g without negative powers of x; x only in non-negative powers)"""
    out = f.mk({}); pw = {0: f.lift(1)}
    by = {}
    for m, c in f.d.items():
        e = dict(m).get(x, 0); by.setdefault(e, {})[tuple(y for y in m if y[0] != x)] = c
    for e, d in by.items():
        if e < 0: return None
        while e not in pw: k = max(pw); pw[k + 1] = pw[k] * g
        out = out + f.mk(d) * pw[e]
    return out
def infeasible(E_, D_, full):
    """no assignment makes all of E_ zero and all of D_ non-zero"""
    Es = list(E_); Ds = list(D_)
    for _ in range(60):
        if any(not d.d for d in Ds): return True
        if any(e.d and e.const() is not None for e in Es): return True
        Es = [e for e in Es if e.d]; ch = False
        for i, e in enumerate(Es):
            for d in Ds:
                if d.const() is not None or d.p != e.p: continue
                q = divexact(e, d)
                if q is not None: Es[i] = e = q; ch = True
            if len(e.d) == 1:
                (m, c), = e.d.items()
                if len(m) == 1 and m[0][1] > 1: Es[i] = e = e.mk({((m[0][0], 1),): 1}); ch = True
        if any(e.d and e.const() is not None for e in Es): return True
        for i, e in enumerate(Es):
            cand = None
            for m, c in e.d.items():
                if len(m) == 1 and m[0][1] == 1:
                    x = m[0][0]
                    if all(m2 == m or all(y != x for y, _ in m2) for m2 in e.d): cand = (x, m, c); break
            if cand is None: continue
            x, m, c = cand; g = -(e.mk({k: v for k, v in e.d.items() if k != m}) * pow(c, -1, e.p))
            new = [subst(f, x, g) if f.p == e.p else f for j, f in enumerate(Es) if j != i], [subst(f, x, g) if f.p == e.p else f for f in Ds]
            if any(f is None for l in new for f in l): continue
            Es, Ds = new; ch = True; break
        if not ch: break
    if not full: return False
    return groebner(Es, Ds)
class _T(Exception): pass
def groebner(Es, Ds):
    ps = {f.p for f in Es}
    if not Es or len(ps) != 1: return False
    p = ps.pop(); Ds = [d for d in Ds if d.p == p and d.const() is None]
    if any(e < 0 for h in Es + Ds for m in h.d for _, e in m): return False
    xs = sorted({x for h in Es + Ds for m in h.d for x, _ in m})
    if sum(len(h.d) for h in Es + Ds) > 400: return False
    from sympy.polys.rings import ring
    from sympy.polys.domains import GF
    from sympy.polys.groebnertools import groebner as gb
    from sympy.polys.orderings import grevlex
    R, *g = ring([f"x{x}" for x in xs] + [f"t{i}" for i in range(len(Ds))], GF(p), grevlex)
    v = dict(zip(xs, g)); ts = g[len(xs):]
    def conv(h):
        r = R(0)
        for m, c in h.d.items():
            t = R(c)
            for x, e in m: t = t * v[x] ** e
            r = r + t
        return r
    def alarm(*a): raise _T()
    old = signal.signal(signal.SIGALRM, alarm); left = signal.alarm(20); t0 = time.time()
    try: return any(b == 1 or b.is_ground for b in gb([conv(e) for e in Es] + [conv(d) * t - 1 for d, t in zip(Ds, ts)], R))
    except _T: return False
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if left: signal.alarm(max(1, int(left - (time.time() - t0))))

# ------------------------------------------------------------------ modules: integer combinations of atoms
class ME:
    __slots__ = ("A", "d", "ty")
    def __init__(self, A, d, ty): self.A = A; self.d = d; self.ty = ty
    def __add__(self, o):
        d = dict(self.d)
        for x, c in o.d.items():
            c = simp_int(add(d.get(x, 0), c))
            if isinstance(c, int) and c == 0: d.pop(x, None)
            else: d[x] = c
        return ME(self.A, d, self.ty)
    def scale(self, k): return ME(self.A, {x: simp_int(mul(c, k)) for x, c in self.d.items() if not (isinstance(k, int) and k == 0)}, self.ty)
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-o)
    def __repr__(self): return "ME(" + " + ".join(f"[{c}]{self.A.an[x]}" for x, c in self.d.items()) + ")"
class Mod:
    """kind 'pow': the elements are the field's, written multiplicatively; 'group': the curve points"""
    def elem(self, ty): return self.is_elem(ty)
    def __init__(self, I, kind): self.reading = "ring" if kind == "pow" else "group"; self.I = I; self.kind = kind; self.an = []; self.names = {}; self.memo = {}; self.base = {}
    def is_elem(self, ty):
        if self.kind == "pow": return is_fp(ty)
        return ty.k == "adt" and ty.name in ("openzeppelin_crypto::curve::sw::Projective", "openzeppelin_crypto::curve::sw::Affine", "openzeppelin_crypto::curve::sw::projective::Projective", "openzeppelin_crypto::curve::sw::affine::Affine")
    def atom(self, ty, name): self.an.append(name); return ME(self, {len(self.an) - 1: 1}, ty)
    def zero(self, ty): return ME(self, {}, ty)
    def fresh(self, ty, name): return self.atom(ty, name) if self.is_elem(ty) else None
    def has(self, v): return isinstance(v, ME)
    def wrap(self, v):
        if not (isinstance(v, Agg) and isinstance(v.ty, E.Ty) and self.is_elem(v.ty)): return v
        if self.kind == "pow":
            l = limbs(v)
            if l is None: return v
            from specs.fields import modulus
            p = modulus(v.ty.s); x = l[0] * pow(1 << (64 * l[1]), -1, p) % p
            key = (v.ty.s, x); one = x == 1
        else:
            ls = [limbs(x) if isinstance(x, Agg) else x for x in v.f]
            if any(x is None or not isinstance(x, (tuple, bool)) for x in ls): return v
            key = (v.ty.s, tuple(ls)); one = ls[2] is True or isinstance(ls[2], tuple) and ls[2][0] == 0
        if one: return self.zero(v.ty)
        if key not in self.names: self.names[key] = self.atom(v.ty, f"const{len(self.names)}")
        return self.names[key]
    def const_atom(self, I, st, v, ty): return self.wrap(I.const_val(st, v, ty))
    def eq(self, a, b): return And(*[eq(a.d.get(x, 0), b.d.get(x, 0)) for x in sorted(set(a.d) | set(b.d))])
    def ite(self, c, a, b): return ME(self, {x: ite(c, a.d.get(x, 0), b.d.get(x, 0)) for x in sorted(set(a.d) | set(b.d))}, a.ty)
    def isz(self, a):
        if not a.d: return True
        k = ("z", tuple((x, c if isinstance(c, int) else z3.simplify(c).sexpr()) for x, c in sorted(a.d.items())))
        if k not in self.names: self.names[k] = z3.Bool(f"isz!{len(self.names)}")
        return self.names[k]
    # -- decision procedure: linear integer arithmetic over the bits of the scalars
    def solve(self, conds, timeout):
        """x div 2^s and x mod 2^s are tied to the bits of x (x div 2^s = 2 (x div 2^(s+1)) + bit), then linear arithmetic"""
        cs = [zbool(c) for c in conds]; memo = self.memo; use = {}
        DIV = (z3.Z3_OP_IDIV, z3.Z3_OP_DIV)
        p2 = lambda e: z3.is_int_value(e) and e.as_long() > 0 and e.as_long() & (e.as_long() - 1) == 0
        def q(x, s): return z3.Int(f"q!{x.get_id()}!{s}") if s else x
        def strip(x):
            s = 0
            while z3.is_app(x) and x.decl().kind() in DIV and p2(x.arg(1)): s += x.arg(1).as_long().bit_length() - 1; x = x.arg(0)
            return x, s
        def walk(e):
            """-> e rewritten, the (x, s) pairs it mentions"""
            k = e.get_id()
            if k in memo: return memo[k][1:]
            r = e; u = frozenset()
            if z3.is_app(e) and e.num_args():
                o = e.decl().kind(); a = e.children()
                if o in DIV and p2(a[1]):
                    x, s = strip(e); x, u = walk(x); r = q(x, s); self.base[x.get_id()] = x; u |= {(x.get_id(), s)}
                elif o == z3.Z3_OP_MOD and p2(a[1]):
                    n = a[1].as_long().bit_length() - 1; x, s = strip(a[0]); x, u = walk(x); self.base[x.get_id()] = x
                    r = q(x, s) - (1 << n) * q(x, s + n); u |= {(x.get_id(), s), (x.get_id(), s + n)}
                else:
                    w = [walk(x) for x in a]; b = [x for x, _ in w]; u = frozenset().union(*[y for _, y in w])
                    if u: r = z3.substitute(e, *[(x, y) for x, y in zip(a, b) if not x.eq(y)])
            memo[k] = (e, r, u); return r, u
        out = []; us = set()
        for c in cs: r, u = walk(c); out.append(r); us |= u
        for x, s in us: use.setdefault(x, {0}).add(s)
        for x, ss in use.items():
            x = self.base[x]; ss = sorted(ss)
            for a, b in zip(ss, ss[1:]): d = q(x, a) - (1 << (b - a)) * q(x, b); out.append(d >= 0); out.append(d < (1 << (b - a)))
        s = z3.Then("simplify", "solve-eqs", "smt").solver(); s.set("timeout", timeout); s.add(*out); r = s.check()
        return str(r), ({str(d): str(s.model()[d]) for d in s.model().decls()} if r == z3.sat else None)
    def holds(self, pc, cond):
        cnd = simp_bool(cond)
        if cnd is True: return True
        if cnd is False: return False
        t = time.time(); r = self.solve(list(self.I.relevant_facts(list(pc) + [zbool(cnd)])) + list(pc) + [zbool(Not(cnd))], 8000)[0]
        self.I.stats.solver_s += time.time() - t; self.I.stats.queries += 1
        return r == "unsat"
    def apply(self, I, st, fn, c, args):
        op = c.opts.get("ring") if self.kind == "pow" else c.opts.get("group")
        a = [I.deref(st, x) for x in args]; mut = c.opts.get("mut", ())
        if self.kind == "pow": f = {"mul": lambda a, b: a + b, "square": lambda a: a + a}.get(op)
        else:
            rt = fn.local_ty(0)
            conv = lambda a: ME(self, a.d, rt)
            f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "neg": lambda a: -a, "double": lambda a: a + a, "conv": lambda a: a, "zero": lambda: self.zero(rt), "is_zero": self.isz}.get(op)
        if f is None or not all(isinstance(x, ME) for x in a): return None
        r = f(*a)
        if isinstance(r, ME) and not mut: r = ME(self, r.d, fn.local_ty(0))
        if mut:
            I.write_ref(st, I.deref_ref(st, args[mut[0]]), r)
            return [(st, ("ret", args[mut[0]] if fn.local_ty(0).k == "ref" else E.UNIT))]
        return [(st, ("ret", r))]
def make(I, kind):
    return Ring(I, kind == "named") if kind in ("expand", "named") else Mod(I, kind)
