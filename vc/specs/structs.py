from specs import *
# ---------------------------------------------------------------- BitMap
def bit(S, word, j): return M.word_bit(S.I, word, j)
def bm(S, t, i): return bit(S, t.data[div(i, 256)].get(), mod(i, 256))
# Callers see the words abstractly: WB(w, j) is bit j of w, SETB/CLRB(w, j) the word with bit j set/cleared; the quantified fact is the
# contracts' postcondition (written index reads back, every other index unchanged), proved below from the code.
WB = z3.Function("wordbit", z3.IntSort(), z3.IntSort(), z3.BoolSort())
SETB = z3.Function("setbit", z3.IntSort(), z3.IntSort(), z3.IntSort()); CLRB = z3.Function("clearbit", z3.IntSort(), z3.IntSort(), z3.IntSort())
def abm(t, i): return WB(zint(t.data[div(i, 256)].get()), zint(mod(i, 256)))
def abm_write(S, t, i, v):
    o = t.data[div(i, 256)]; w = zint(o.get()); j = zint(mod(i, 256)); k = z3.Int("bitmap.k")
    for f, b in ((SETB, True), (CLRB, False)):
        n = f(w, j); S.I.facts.append(z3.And(n >= 0, n < z3.IntVal(U256), z3.ForAll([k], WB(n, k) == z3.If(k == j, b, WB(w, k)), patterns=[WB(n, k)])))
    o.set(ite(v, SETB(w, j), CLRB(w, j)))
BMO = lambda f: {"always": True, "summary": f, "no": ["BitMap::"]}
@contract("BitMap::get", "C23", opts=BMO(lambda S, t, i: abm(t, i)))
def bm_get(S, t, i): return bm(S, t, i)
def wrote(val):
    def post(I, st0, st1, args):
        t0 = Obj(InvCtx(I, st0), args[0]); t1 = Obj(InvCtx(I, st1), args[0]); i = args[1]; v = val(args)
        j = z3.Int("any.index"); I.facts.append(z3.And(j >= 0, j < U256))
        C = InvCtx(I, st1)
        return [("the written index reads back the value", eq(bm(C, t1, i), v)), ("every other index is unchanged", Or(eq(i, j), eq(bm(C, t1, j), bm(C, t0, j))))]
    return post
def bm_write(S, t, i, v):
    o = t.data[div(i, 256)]; m = M.pow2(S.I, mod(i, 256), 256); x = o.get()
    o.set(ite(v, S.I.bitop("BitOr", x, m, 256), S.I.bitop("BitAnd", x, sub(MAXU, m), 256)))
@contract("BitMap::set", "C23", opts=BMO(lambda S, t, i: abm_write(S, t, i, True)), post=wrote(lambda a: True))
def bm_set(S, t, i): bm_write(S, t, i, True)
@contract("BitMap::unset", "C23", opts=BMO(lambda S, t, i: abm_write(S, t, i, False)), post=wrote(lambda a: False))
def bm_unset(S, t, i): bm_write(S, t, i, False)
@contract("BitMap::set_to", "C23", opts=BMO(lambda S, t, i, v: abm_write(S, t, i, v)), post=wrote(lambda a: a[2]))
def bm_set_to(S, t, i, v): bm_write(S, t, i, v)
# ---------------------------------------------------------------- Math
@contract("<Uint<256, 4> as Math>::average", "C25 C24", opts={"always": True})
def average(S, a, b): return div(add(a, b), 2)

# Square root.  r = isqrt(a) is the integer with r^2 <= a < (r+1)^2.  A Newton step divides a by the current estimate x; the quotient
# q is named (q x <= a < q x + x) and comes with instances of the lemmas below, which turn the rest into linear arithmetic.
ISQRT = z3.Function("isqrt", z3.IntSort(), z3.IntSort())
a_, x_, q_, r_, c_, d_, K_, L_, D_ = z3.Ints("a x q r c d K L D")
ROOT = [r_ >= 0, r_ * r_ <= a_, a_ < (r_ + 1) * (r_ + 1)]
QUO = [x_ >= 1, q_ >= 0, q_ * x_ <= a_, a_ < q_ * x_ + x_]
@lemma("isqrt bounds: c^2 <= a gives c <= isqrt(a), a < c^2 gives isqrt(a) < c", "C25")
def sqrt_bounds():
    return [("lower", ROOT + [c_ >= 0, c_ * c_ <= a_], c_ <= r_), ("upper", ROOT + [c_ >= 0, a_ < c_ * c_], r_ < c_), ("r <= a", ROOT, r_ <= a_), ("positive", ROOT + [a_ >= 1], r_ >= 1),
            ("below a", ROOT + [a_ >= 2], r_ < a_)]
@lemma("Newton step: x + a/x >= 2 isqrt(a)", "C25")
def newton_low():
    u = 2 * r_ - x_ - q_ - 1
    return [("product", ROOT + QUO + [(r_ - x_) * (r_ - x_) >= 0], u * x_ < 0), ("square", [], (r_ - x_) * (r_ - x_) >= 0), ("sign", [x_ >= 1, u * x_ < 0], u < 0)]
@lemma("Newton step: d = x - isqrt(a), x >= L, (d+1)^2 <= 2 K L or (d >= 0 and d^2 <= 2 K L) gives x + a/x <= 2 isqrt(a) + 2 K + 1", "C25")
def newton_high():
    u = x_ + q_ - 2 * r_ - 2 * K_ - 2
    H = ROOT + QUO + [x_ == r_ + d_, x_ >= L_, L_ >= 1, K_ >= 1]
    return [("x u < d^2 + 1 - 2 d - 2 K x", H, u * x_ < d_ * d_ + 1 - 2 * d_ - 2 * K_ * x_),
            ("K L <= K x", [x_ >= L_, K_ >= 1], K_ * L_ <= K_ * x_),
            ("distance D: |d| <= D", [D_ >= 0, -D_ <= d_, d_ <= D_], (d_ - 1) * (d_ - 1) <= (D_ + 1) * (D_ + 1)),
            ("distance D: 0 <= d <= D", [D_ >= 0, 0 <= d_, d_ <= D_], d_ * d_ <= D_ * D_),
            ("either side", [(d_ - 1) * (d_ - 1) <= 2 * K_ * L_, K_ * L_ <= K_ * x_, u * x_ < d_ * d_ + 1 - 2 * d_ - 2 * K_ * x_], u * x_ < 0),
            ("from above", [d_ >= 1, d_ * d_ <= 2 * K_ * L_, K_ * L_ <= K_ * x_, u * x_ < d_ * d_ + 1 - 2 * d_ - 2 * K_ * x_], u * x_ < 0),
            ("exact", [d_ == 0, K_ >= 1, x_ >= 1, K_ * x_ >= 1, u * x_ < d_ * d_ + 1 - 2 * d_ - 2 * K_ * x_], u * x_ < 0),
            ("sign", [x_ >= 1, u * x_ < 0], u < 0)]
@lemma("Newton step: x > isqrt(a) gives a/x <= isqrt(a)", "C25")
def newton_final():
    return [("product", ROOT + QUO + [x_ >= r_ + 1, (x_ - r_ - 1) * (r_ + 1) >= 0], (q_ - r_ - 1) * x_ < 0), ("sign", [x_ >= 1, (q_ - r_ - 1) * x_ < 0], q_ <= r_),
            ("monotone", [x_ >= r_ + 1, r_ >= 0], (x_ - r_ - 1) * (r_ + 1) >= 0)]
def isq(I, a):
    """isqrt(a) with its linear consequences (lemma `isqrt bounds`)"""
    if isinstance(a, int):
        import math; return math.isqrt(a)
    r = ISQRT(a)
    I.facts.append(z3.And(r >= 0, r <= a, z3.Implies(a >= 1, r >= 1), z3.Implies(a >= 2, r < a)))
    return r
def sqrt_div(I, st, sargs, a, x):
    """quotient a / x inside sqrt: named, with the lemma instances that apply"""
    if not (is_sym(a) and a.eq(sargs[0])): return None
    ent = lambda c: I.check(st.pc + [zbool(Not(c))], 2000) == "unsat"
    r = isq(I, a); g = st.ghost.get("sqrt_range")
    if g is None:
        lo, hi = 0, 128                       # the largest j with a >= 4^j on this path
        while hi - lo > 1:
            m = (lo + hi) // 2
            if ent(ge(a, 1 << (2 * m))): lo = m
            else: hi = m
        up = next((u for u in range(lo + 1, 129) if ent(lt(a, 1 << (2 * u)))), 128)
        g = (lo, up); st.ghost["sqrt_range"] = g
        st.assume(And(Implies(ge(a, 1 << (2 * lo)), ge(r, 1 << lo)), Implies(lt(a, 1 << (2 * up)), lt(r, 1 << up))))
    if is_sym(x) and x.num_args() > 0:
        xs = I.fresh("newton.x", bits=256); st.assume(eq(xs, x))
    else: xs = x
    q = I.fresh("newton.q", bits=256) if is_sym(xs) else div(a, xs)
    L = xs if isinstance(xs, int) else 1 << g[0]
    st.assume(Implies(ge(xs, 1), And(ge(add(xs, q), mul(2, r)), Implies(gt(xs, r), le(q, r)))))
    if not ent(ge(xs, L)): return q
    d = sub(xs, r); K0 = st.ghost.get("sqrt_K")
    if K0 is not None and ent(And(ge(d, 0), le(d, K0))):      # the previous step's bound
        K = max(1, -(-(K0 * K0) // (2 * L))); st.ghost["sqrt_K"] = K
        st.assume(Implies(And(ge(d, 0), le(d, K0), ge(xs, L)), le(add(xs, q), add(mul(2, r), 2 * K + 1))))
        return q
    above = ent(ge(d, 0))
    lo, hi = -1, g[1] + 1                     # the least power of two D with |d| <= D
    bound = lambda k: And(le(d, 1 << k), True if above else ge(d, -(1 << k)))
    while hi - lo > 1:
        m = (lo + hi) // 2
        if ent(bound(m)): hi = m
        else: lo = m
    if hi > g[1]: return q
    D = 1 << hi
    K = max(1, -(-(D * D) // (2 * L))) if above else max(1, -(-((D + 1) ** 2) // (2 * L)))
    st.ghost["sqrt_K"] = K
    st.assume(Implies(And(bound(hi), ge(d, 0) if above else True, ge(xs, L)), le(add(xs, q), add(mul(2, r), 2 * K + 1))))
    return q
def sqrt_sum(S, a): return isq(S.I, a)
@contract("<Uint<256, 4> as Math>::sqrt", "C25 C24", opts={"div_hook": sqrt_div, "always": True})
def sqrt(S, a): return isq(S.I, a)
