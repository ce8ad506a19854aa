from specs import *
# ---------------------------------------------------------------- limb arithmetic (openzeppelin-crypto)
B = 1 << 64
P = {"poly": True}
L = "arithmetic::limb::"
def dm(v, m=B):
    """(v mod m, v div m)"""
    return mod(v, m), div(v, m)
@contract(L + "widening_mul", "C31 C32", opts=P)
def widening_mul(S, a, b): return mul(a, b)
@contract(L + "widening_mul_wasm", "C31 C32", opts=P, pub=False)
def widening_mul_wasm(S, a, b): return mul(a, b)
@contract(L + "mac", "C31 C32", opts=P)
def mac(S, a, b, c): return dm(add(a, mul(b, c)))
@contract(L + "carrying_mac", "C31 C32", opts=P)
def carrying_mac(S, a, b, c, carry): return dm(add(add(a, mul(b, c)), carry))
@contract(L + "adc", "C31 C32", opts=P)
def adc(S, a, b, carry): return dm(add(add(a, b), carry))
@contract(L + "adc_assign", "C31 C32", opts={"poly": True, "mut": (0,)})
def adc_assign(S, a, b, carry):
    lo, hi = dm(add(add(a, b), ite(carry, 1, 0)))
    return Not(eq(hi, 0)), lo
def small(S, a, b, borrow): return [le(borrow, 1)]
@contract(L + "sbb", "C31 C32", opts=P, inv=small)
def sbb(S, a, b, borrow):
    t = sub(sub(a, b), borrow)
    return mod(t, B), ite(lt(t, 0), 1, 0)
@contract(L + "sbb_assign", "C31 C32", opts={"poly": True, "mut": (0,)})
def sbb_assign(S, a, b, borrow):
    t = sub(sub(a, b), ite(borrow, 1, 0))
    return lt(t, 0), mod(t, B)
# ---------------------------------------------------------------- fixed-size big integers
def upper(S, *vals): return [le(0, v) for v in vals]
def U(n): return 1 << (64 * n)
def V(a): return big_val(a)
def both(names, n, props="C31", **kw):
    """register for the inherent functions Uint::<n>::f"""
    return contract([f"re:^openzeppelin_crypto::arithmetic::uint::Uint::<{n}>::{x}$" for x in names.split()], props, opts={"poly": True, **kw})
def trait(names, n, tr, props="C31", **kw):
    return contract([f"re:^<openzeppelin_crypto::arithmetic::uint::Uint<{n}> as {tr}>::{x}$" for x in names.split()], props, opts={"poly": True, **kw})
BI = "openzeppelin_crypto::arithmetic::BigInteger"
def order(a, b): return Enum("Less") if a == -1 else a
def bits_of(S, v, n):
    """number of significant bits: the least r with v < 2^r"""
    lo, hi = 0, 64 * n
    while lo < hi:
        m = (lo + hi) // 2
        if S.branch(lt(v, 1 << m)): hi = m
        else: lo = m + 1
    return lo
def uint_contracts(n):
    R_ = U(n)
    both("ct_ge", n)(lambda S, a, b: ge(V(a), V(b)))
    both("ct_gt", n)(lambda S, a, b: gt(V(a), V(b)))
    both("ct_le", n)(lambda S, a, b: le(V(a), V(b)))
    both("ct_lt", n)(lambda S, a, b: lt(V(a), V(b)))
    both("ct_eq", n)(lambda S, a, b: eq(V(a), V(b)))
    both("ct_ne", n)(lambda S, a, b: Not(eq(V(a), V(b))))
    both("ct_is_zero", n)(lambda S, a: eq(V(a), 0)); trait("is_zero", n, BI)(lambda S, a: eq(V(a), 0))
    both("ct_is_odd", n)(lambda S, a: eq(mod(V(a), 2), 1)); trait("is_odd", n, BI)(lambda S, a: eq(mod(V(a), 2), 1))
    both("ct_is_even", n)(lambda S, a: eq(mod(V(a), 2), 0)); trait("is_even", n, BI)(lambda S, a: eq(mod(V(a), 2), 0))
    both("ct_num_bits", n)(lambda S, a: bits_of(S, V(a), n)); trait("num_bits", n, BI)(lambda S, a: bits_of(S, V(a), n))
    both("checked_mul2_assign", n, mut=(0,))(lambda S, a: (ge(mul(2, V(a)), R_), Big(mod(mul(2, V(a)), R_))))
    both("ct_checked_mul2", n)(lambda S, a: (Big(mod(mul(2, V(a)), R_)), ge(mul(2, V(a)), R_)))
    both("div2_assign", n, mut=(0,))(lambda S, a: (None, Big(div(V(a), 2))))
    both("ct_checked_sub", n)(lambda S, a, b: (Big(mod(sub(V(a), V(b)), R_)), lt(V(a), V(b))))
    both("ct_wrapping_sub", n)(lambda S, a, b: Big(mod(sub(V(a), V(b)), R_)))
    both("ct_checked_add", n)(lambda S, a, b: (Big(mod(add(V(a), V(b)), R_)), ge(add(V(a), V(b)), R_)))
    both("ct_wrapping_add", n)(lambda S, a, b: Big(mod(add(V(a), V(b)), R_)))
    both("checked_add_assign", n, mut=(0,))(lambda S, a, b: (ge(add(V(a), V(b)), R_), Big(mod(add(V(a), V(b)), R_))))
    both("checked_sub_assign", n, mut=(0,))(lambda S, a, b: (lt(V(a), V(b)), Big(mod(sub(V(a), V(b)), R_))))
    both("ct_widening_mul", n)(lambda S, a, b: (Big(mod(mul(V(a), V(b)), R_)), Big(div(mul(V(a), V(b)), R_))))
    def ct_mul(S, a, b):
        t = mul(V(a), V(b)); S.require(lt(t, R_), "overflow"); return Big(t)
    both("ct_mul", n)(ct_mul)
    def ct_add(S, a, b):
        t = add(V(a), V(b)); S.require(lt(t, R_), "overflow"); return Big(t)
    both("ct_add", n)(ct_add)
    both("ct_adc", n)(lambda S, a, b, c: (Big(mod(add(add(V(a), V(b)), c), R_)), div(add(add(V(a), V(b)), c), R_)))
    both("from_u8 from_u16 from_u32 from_u64 from_usize", n)(lambda S, v: Big(v))
    def from_u128(S, v): S.require(lt(v, R_), "too large"); return Big(v)
    both("from_u128", n)(from_u128)
    contract([f"re:^<{x} as std::convert::Into<openzeppelin_crypto::arithmetic::uint::Uint<{n}>>>::into$" for x in "u8 u16 u32 u64 usize u128".split()], "C31", opts=P)(from_u128)
    def cmp(S, a, b):
        if S.branch(lt(V(a), V(b))): return Enum("Less")
        return Enum("Equal") if S.branch(eq(V(a), V(b))) else Enum("Greater")
    trait("cmp", n, "std::cmp::Ord")(cmp)
    trait("partial_cmp", n, "std::cmp::PartialOrd")(lambda S, a, b: Some(cmp(S, a, b)))
    cs = {1: list(range(64 * n)) + [("ge", 64 * n)]}
    bit = lambda S, a, i: eq(mod(div(V(a), 1 << i), 2), 1) if isinstance(i, int) else False
    both("ct_get_bit", n, cases=cs, nosummary=True)(bit); trait("get_bit", n, BI, cases=cs, nosummary=True)(bit)
    def limbs(a):
        while isinstance(a, Agg): a = a.f[0]
        return a.e
    for t, op in (("Xor", "BitXor"), ("And", "BitAnd"), ("Or", "BitOr")):
        f = (lambda op: lambda S, a, b: Big([S.I.bitop(op, x, y, 64) for x, y in zip(limbs(a), limbs(b))]))(op)
        trait("bit" + t.lower(), n, "std::ops::Bit" + t)(f)
        trait(f"bit{t.lower()}_assign", n, f"std::ops::Bit{t}Assign", mut=(0,))((lambda f: lambda S, a, b: (None, f(S, a, b)))(f))
    trait("not", n, "std::ops::Not")(lambda S, a: Big(sub(R_ - 1, V(a))))
    def le_slice(S, b):
        S.require(eq(S.len(b), 8 * n), "size")
        return Big([sum_([mul(S.at(b, 8 * i + j), 1 << (8 * j)) for j in range(8)]) for i in range(n)])
    both("ct_from_le_slice", n)(le_slice); trait("from_bytes_le", n, BI)(le_slice)
    trait("into_bytes_le", n, BI)(lambda S, a: Str([("w", mod(div(x, 1 << (8 * j)), 256), 1) for x in limbs(a) for j in range(8)]))
# ---------------------------------------------------------------- double-width integers
def wide(a):
    lo, hi = a.f[0], a.f[1]; n = len(lo.f[0].e); return add(V(lo), mul(V(hi), U(n)))
def shifted(I, pc, v, bits, i):
    """v div 2^i for a word i: a symbol per value of i (0 beyond the width, v itself at 0)"""
    P_ = I.poly; P_.load(); fs = list(I.relevant_facts([zbool(c) for c in pc] + [zint(i) >= 0]))
    d = P_.fixed(P_.term(zint(i)), [zbool(c) for c in pc], fs, 4000)
    if not d or set(d) == {()}:
        k = d.get((), 0); 
        if k == 0: return v
        if k >= bits: return 0
    key = (tuple(sorted(d.items())), zint(v).get_id())
    if key not in I.shifted:
        x = z3.Int(f"shr{len(I.shifted)}"); I.facts.append(z3.And(x >= 0, x < z3.IntVal(1 << bits))); I.shifted[key] = x; I.shifts.append((i, v, x)); I.poly.keep += [zint(v), zint(i)]
    return I.shifted[key]
def wide_contracts(n):
    W = f"re:^openzeppelin_crypto::arithmetic::uint::WideUint::<{n}>::"; bits = 128 * n
    def num_bits(S, a):
        v = wide(a); return Rel(lambda r: And(lt(v, 1 << r), r == 0 or ge(v, 1 << (r - 1))) if isinstance(r, int) else False)
    def num_bits_sum(S, a):       # some r with a < 2^r, that is a div 2^r = 0
        r = S.I.fresh("num_bits", bits=64); S.st.assume(r <= bits); S.st.assume(zint(shifted(S.I, S.st.pc, wide(a), bits, r)) == 0)
        S.I.poly.defs[shifted(S.I, S.st.pc, wide(a), bits, r).decl().name()] = z3.IntVal(0); return r
    contract(W + "ct_num_bits$", "C31", opts={"poly": True, "summary": num_bits_sum, "cost": 5})(num_bits)
    def get_bit(S, a, i): return eq(mod(div(wide(a), 1 << i), 2), 1) if isinstance(i, int) else False
    def get_bit_sum(S, a, i):     # the bit b with a div 2^i = 2 (a div 2^(i+1)) + b
        I = S.I; v = wide(a); x, y = (shifted(I, S.st.pc, v, bits, j) for j in (i, add(i, 1)))
        k = ("bit", zint(x).get_id(), zint(y).get_id())
        if k not in I.shifted:
            b = z3.Int(f"bit{len(I.shifted)}"); I.facts.append(z3.And(b >= 0, b <= 1)); I.facts.append(zint(x) == 2 * zint(y) + b); I.shifted[k] = b; I.poly.keep += [zint(x), zint(y)]
            if is_sym(x) and z3.is_const(x) and x.decl().name().startswith("shr") and x.decl().name() not in I.poly.defs: I.poly.defs[x.decl().name()] = 2 * zint(y) + b
        return eq(I.shifted[k], 1)
    contract(W + "ct_get_bit$", "C31", opts={"poly": True, "cases": {1: list(range(bits)) + [("ge", bits)]}, "summary": get_bit_sum})(get_bit)
    def ct_rem(S, a, m):
        S.require(Not(eq(V(m), 0)), "division by zero"); v = wide(a)
        return Rel(lambda w: And(lt(V(w), V(m)), S.I.poly.cong(sub(v, V(w)), zint(V(m)))))
    def cands(I, st, sargs, xs):
        v, m = wide(sargs[0]), zint(V(sargs[1])); out = []
        word = lambda x: x is not None and not isinstance(x, Agg)
        for i, x in enumerate(xs):
            if x is None: out += [None] * (3 + 2 * len(xs)); continue
            out.append((f"x{i} < divisor", lt(V(x), m)) if not word(x) else None)
            out += [(f"x{i} <= {b}", le(x, b)) if word(x) else None for b in (bits - 1, bits)]
            for j, y in enumerate(xs):
                for o in (0, 1):
                    out.append((f"x{i} = a div 2^(x{j}+{o}) mod divisor", I.poly.cong(sub(shifted(I, st.pc, v, bits, add(y, o)), V(x)), m)) if not word(x) and word(y) else None)
        return out
    contract(W + "ct_rem$", "C31", opts={"poly": True, "nosummary": True, "cut_cands": cands, "cost": 20})(ct_rem)
def sum_(xs):
    t = 0
    for x in xs: t = add(t, x)
    return t
for n_ in (1, 4): uint_contracts(n_); wide_contracts(n_)
# ---------------------------------------------------------------- digit strings
def digit_def(b, radix):
    """(valid, value) of an ASCII digit"""
    k = max(0, radix - 10); letter = lambda c: And(ge(b, c), lt(b, c + k))
    return Or(And(ge(b, 48), lt(b, 48 + min(radix, 10))), letter(65), letter(97)), ite(lt(b, 58), sub(b, 48), ite(lt(b, 91), sub(b, 55), sub(b, 87)))
def summarised(I): return any(k.endswith("uint::parse_digit") for k in I.contracts)
def digit(I, b, radix):
    """the same as symbols, for the callers (parse_digit is shown to compute exactly digit_def)"""
    if not is_sym(b): return digit_def(b, radix)
    key = ("digit", zint(b).get_id(), radix)
    if key not in I.shifted:
        n = len(I.shifted); d = z3.Int(f"digit{n}"); I.facts.append(z3.And(d >= 0, d < radix)); I.poly.keep.append(zint(b)); ok = z3.Bool(f"isdigit{n}")
        if not summarised(I): ok, v = digit_def(b, radix); I.facts.append(z3.Implies(zbool(ok), d == zint(v)))
        I.shifted[key] = ok, d
    return I.shifted[key]
def parse_digit(df):
    def f(S, b, radix):
        if not isinstance(radix, int): raise Unsupported("radix")
        ok, d = df(S.I, b, radix); S.require(ok, "digit"); return d
    return f
contract(["uint::parse_digit"], "C31", pub=False, opts={"poly": True, "cases": {1: list(range(2, 37))}, "summary": parse_digit(digit)})(parse_digit(lambda I, b, r: digit_def(b, r)))
def strings(ls, *more):
    def mk(I, st, fn):
        return [[Ref(st.new_cell(Arr([I.fresh(f"s{k}.{i}", bits=8) for i in range(k)]))), *m] for k in (ls if summarised(I) else ls[:4]) for m in ([[x] for x in more] or [[]])]
    return mk
def parsed(n):
    def f(S, s, radix=16):
        S.require(len(s.e) > 0, "empty"); v = 0; o = 1
        for i, b in enumerate(reversed(s.e)):
            ok, d = digit(S.I, b, radix); S.require(ok, "digit")
            if i and radix != 16: o *= radix; S.require(o < U(n), "order")
            v = add(v, mul(d, radix ** i))
            if radix == 16 and i >= 16 * n: S.require(False, "too long")
        S.require(lt(v, U(n)), "overflow"); return Big(v)
    return f
for n_ in (1, 4):
    hl = [0, 1, 2, 3, 15, 16, 17] + ([32, 33, 64, 65] if n_ == 4 else [])
    contract(f"uint::from_str_hex::<{n_}>", "C31", opts={"poly": True, "mkargs": strings(hl), "bounded": f"strings of {hl} bytes", "cost": 5})(parsed(n_))
    for i in range(0, 16 * n_ + 2, 6): contract(f"uint::from_str_hex::<{n_}>", "C31", opts={"poly": True, "mkargs": strings(list(range(i, min(i + 6, 16 * n_ + 2)))), "bounded": f"strings of {i}..{min(i + 5, 16 * n_ + 1)} bytes (longer ones always panic)", "cost": 8, "thorough": True, "never_ok": True})(parsed(n_))
    rl = [0, 1, 2, 3, 9, 19, 20] + ([21] if n_ == 4 else [])
    contract(f"uint::from_str_radix::<{n_}>", "C31", opts={"poly": True, "mkargs": strings(rl, 10), "bounded": f"strings of {rl} bytes in base 10", "cost": 5})(parsed(n_))
# any length and radix: the loop, over Uint values read as the integers their contracts speak about
def opaque_bytes(I, st):
    n = z3.Int("s.len"); I.facts.append(z3.And(n >= 0, n < z3.IntVal(1 << 32))); f = z3.Function("s.at", z3.IntSort(), z3.IntSort())
    def at(k): t = f(zint(k)); I.facts.append(z3.And(t >= 0, t < 256)); return t
    return Ref(st.new_cell(SymSeq(at, n, None)))
def radix_fold(n):
    def need(S, v): S.require(lt(v, U(n)), "overflow"); return v
    def dig(S, b, r): S.require(absf("digit.valid", (b, r), True), "digit"); return absf("digit.value", (b, r))
    UN = f"openzeppelin_crypto::arithmetic::uint::Uint::<{n}>::"
    ab = {"uint::parse_digit": (lambda S, b, r: Raw(dig(S, b, r)), ()), f"re:^{UN}from_u32$": (lambda S, x: Raw(x), ()),
          f"re:^{UN}ct_add$": (lambda S, a, b: Raw(need(S, add(a, b))), ()), f"re:^{UN}ct_mul$": (lambda S, a, b: Raw(need(S, mul(a, b))), ())}
    def spec(S, s, radix):
        """sum of digit_i * radix^i from the last digit on, refused when a digit, a power or the sum does not fit"""
        L = S.len(s); S.require(gt(L, 0), "empty")
        def digit_step(k, u, o): return need(S, add(u, need(S, mul(dig(S, S.at(s, sub(sub(L, 1), k)), radix), o))))
        def step(k, u, o): return digit_step(k, u, o), need(S, mul(radix, o))
        u, o = S.foreach(sub(L, 1), step, (0, 1))
        return Raw(digit_step(sub(L, 1), u, o))
    contract(f"uint::from_str_radix::<{n}>", "C31", pub=False, opts={"nosummary": True, "abstract": ab, "mkargs": lambda I, st, fn: [[opaque_bytes(I, st), I.fresh_val(fn.arg_tys()[1], "radix")]]})(spec)
for n_ in (1, 4): radix_fold(n_)
