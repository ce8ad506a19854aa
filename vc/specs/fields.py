from specs import *
from engine import IterV, Ref
from specs.limbs import U, V, sum_
# ---------------------------------------------------------------- prime fields (openzeppelin-crypto)
# A field element is its Montgomery form x*R mod p with 0 <= form < p; every operation is specified on that integer.
FIELDS = {"VestaParam": (28948022309329048855892746252171976963363056481941647379679742748393362948097, 4), "BabyBearParam": (2013265921, 1),
          "BLS12Param": (52435875175126190479447740508185965837690552500527637822603658699938581184513, 4),
          "BN256Param": (21888242871839275222246405745257275088548364400416034343698204186575808495617, 4),
          "GoldiLocksParam": (18446744069414584321, 1), "PallasParam": (28948022309329048855892746252171976963363056481941560715954676764349967630337, 4)}
INST = "openzeppelin_crypto::field::instance::"
FIELDS = {INST + k: v for k, v in FIELDS.items()}
FIELDS["vinst::curve::SecpFq"] = ((1 << 256) - (1 << 32) - 977, 4)      # a field without a spare bit (the shipped ones all have one)
FPT = "openzeppelin_crypto::field::fp::Fp"
def modulus(tys):
    """characteristic of the field Fp<params, n>"""
    for f, (p, n) in FIELDS.items():
        if tys == f"{FPT}<{f}, {n}>": return p
    if tys == f"{FPT}<vinst::curve::SecpFr, 4>": return 115792089237316195423570985008687907852837564279074904382605163141518161494337
    raise Unsupported(f"unknown field {tys}")
def field_contracts(f, p, n):
    R_ = U(n); Ri = pow(R_, -1, p)
    par = lambda x: rf"re:^<{f} as openzeppelin_crypto::field::fp::FpParams<.*>>::{x}$"
    def reg(names, fn, inv=None, **kw): contract(names, "C32", opts={"poly": True, **kw}, inv=inv)(fn)
    ok = lambda S, *a: [lt(V(x), p) for x in a]
    prod = lambda a, b=None: [(sub(p - 1, V(b if b is not None else a)), V(a))]
    okr = lambda S, a, b: [lt(V(b), p)]
    M_ = lambda x: Big(mod(x, p))
    reg(par("add_assign"), lambda S, a, b: (None, M_(add(V(a), V(b)))), ok, mut=(0,))
    reg(par("sub_assign"), lambda S, a, b: (None, M_(sub(V(a), V(b)))), ok, mut=(0,))
    reg(par("double_in_place"), lambda S, a: (None, M_(mul(2, V(a)))), ok, mut=(0,))
    reg(par("neg_in_place"), lambda S, a: (None, M_(sub(0, V(a)))), ok, mut=(0,))
    reg(par("mul_assign"), lambda S, a, b: (None, M_(mul(mul(V(a), V(b)), Ri))), okr, mut=(0,), prod=prod)
    reg(par("square_in_place"), lambda S, a: (None, M_(mul(mul(V(a), V(a)), Ri))), ok, mut=(0,), prod=prod)
    reg(par("into_bigint"), lambda S, a: M_(mul(V(a), Ri)), ok)
    reg(par("from_bigint"), lambda S, a: M_(mul(V(a), R_)))
    # ------------------------------------------------ the public operators
    F = f"{FPT}<{f}, {n}>"
    Fi = f"{FPT}::<{f}, {n}>"
    for op, fn in (("Add", lambda S, a, b: M_(add(V(a), V(b)))), ("Sub", lambda S, a, b: M_(sub(V(a), V(b)))), ("Mul", lambda S, a, b: M_(mul(mul(V(a), V(b)), Ri)))):
        kw = {"ring": op.lower(), **({"prod": prod} if op == "Mul" else {})}
        for self_, arg in ((F, ""), (F, f"<&{F}>"), ("&" + F, "")):
            reg(f"re:^<{self_} as std::ops::{op}{arg}>::{op.lower()}$", fn, okr if op == "Mul" else ok, **kw)
        for arg in ("", f"<&{F}>"):
            reg(f"re:^<{F} as std::ops::{op}Assign{arg}>::{op.lower()}_assign$", (lambda fn: lambda S, a, b: (None, fn(S, a, b)))(fn), okr if op == "Mul" else ok, mut=(0,), **kw)
    AG, FD, PF = (f"openzeppelin_crypto::field::{x}" for x in ("group::AdditiveGroup", "Field", "prime::PrimeField"))
    reg(f"re:^<{F} as std::ops::Neg>::neg$", lambda S, a: M_(sub(0, V(a))), ok, ring="neg")
    reg(f"re:^<{F} as {AG}>::double$", lambda S, a: M_(mul(2, V(a))), ok, ring="double")
    reg(f"re:^<{F} as {AG}>::double_in_place$", lambda S, a: (None, M_(mul(2, V(a)))), ok, mut=(0,), ring="double")
    reg(f"re:^<{F} as {AG}>::neg_in_place$", lambda S, a: (None, M_(sub(0, V(a)))), ok, mut=(0,), ring="neg")
    reg(f"re:^<{F} as {FD}>::square$", lambda S, a: M_(mul(mul(V(a), V(a)), Ri)), ok, prod=prod, ring="square")
    reg(f"re:^<{F} as {FD}>::square_in_place$", lambda S, a: (None, M_(mul(mul(V(a), V(a)), Ri))), ok, mut=(0,), prod=prod, ring="square")
    def inverse(S, a):
        if S.branch(eq(V(a), 0)): return NONE
        return Some(Rel(lambda w: And(lt(V(w), p), eq(mod(mul(V(w), V(a)), p), (R_ * R_) % p))))
    def cands(I, st, sargs, xs):
        """what each limb number of the inversion may satisfy: x < p, and a*x = y*R^2 (mod p) for a pair x, y"""
        a = V(sargs[0]); out = [None if x is None else (f"x{i} < p", lt(V(x), p)) for i, x in enumerate(xs)]
        for i, x in enumerate(xs):
            for j, y in enumerate(xs):
                if i != j: out.append(None if x is None or y is None else (f"a x{i} = x{j} R^2", I.poly.cong(sub(mul(a, V(x)), mul(V(y), R_ * R_ % p)), p)))
        return out
    reg([f"re:^<{F} as {FD}>::inverse$", par("inverse")], inverse, ok, ring="inverse", cut_cands=cands, cost=30 if n == 4 else 3)
    def inverse_mut(S, a):
        if S.branch(eq(V(a), 0)): return NONE, Big(V(a))
        w = Rel(lambda w: And(lt(V(w), p), eq(mod(mul(V(w), V(a)), p), (R_ * R_) % p)))
        return Some(w), w
    reg(f"re:^<{F} as {FD}>::inverse_in_place$", inverse_mut, ok, mut=(0,), nosummary=True)
    into = lambda S, a: M_(mul(V(a), Ri)); frm = lambda S, a: M_(mul(V(a), R_))
    reg(f"re:^<{F} as {PF}>::into_bigint$", into, ok); reg(f"re:^<{F} as std::convert::Into<openzeppelin_crypto::arithmetic::uint::Uint<{n}>>>::into$", into, ok)
    reg(f"re:^<{F} as {PF}>::from_bigint$", frm); reg(f"re:^{Fi}::new$", frm); reg(f"re:^<{F} as std::convert::From<openzeppelin_crypto::arithmetic::uint::Uint<{n}>>>::from$", frm)
    def small(S, v):
        S.require(lt(v, R_), "does not fit"); return M_(mul(v, R_))
    for t in "u8 u16 u32 u64 u128".split(): reg(f"re:^<{F} as std::convert::From<{t}>>::from$", small)
    def signed(S, v):
        S.require(And(lt(v, R_), lt(sub(0, R_), v)), "does not fit"); return M_(mul(v, R_))
    for t in "i8 i16 i32 i64 i128".split(): reg(f"re:^<{F} as std::convert::From<{t}>>::from$", signed)
    reg(f"re:^<{F} as std::convert::From<bool>>::from$", lambda S, b: M_(ite(b, R_, 0)))
    reg(f"re:^<{F} as std::cmp::PartialEq>::eq$", lambda S, a, b: eq(V(a), V(b)), ring="eq")
    reg(f"re:^<{F} as num_traits::identities::Zero>::is_zero$", lambda S, a: eq(V(a), 0), ring="is_zero")
    reg(f"re:^<{F} as num_traits::identities::One>::is_one$", lambda S, a: eq(V(a), R_ % p), ring="is_one")
    reg(f"re:^<{F} as num_traits::identities::Zero>::zero$", lambda S: Big(0))
    reg(f"re:^{Fi}::is_ge_modulus$", lambda S, a: ge(V(a), p))
    def order(S, a, b):
        x, y = (mod(mul(V(t), Ri), p) for t in (a, b))
        if S.branch(lt(x, y)): return Enum("Less")
        return Enum("Equal") if S.branch(eq(x, y)) else Enum("Greater")
    reg(f"re:^<{F} as std::cmp::Ord>::cmp$", order, ok)
    if n == 1:
        for t in "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128".split():
            b_ = int(t[1:]) - (t[0] == "i")
            def back(S, a, b_=b_):
                x = mod(mul(V(a), Ri), p); S.require(lt(x, 1 << b_), "does not fit"); return x
            reg(f"re:^<{F} as std::convert::Into<{t}>>::into$", back, ok)
    # ------------------------------------------------ derived operations: over the ring reading of the operators above
    reg(f"re:^<{F} as num_traits::identities::One>::one$", lambda S: Big(R_ % p))
    z0 = lambda x: x.A.eq0(x)
    def areg(names, fn, **kw): contract(names, "C32", opts={"alg": "expand", "inline_alg": True, **kw})(fn)
    def div(S, a, b):
        S.require(Not(z0(b)), "division by zero"); return Rel(lambda w: z0(w * b - a))
    areg([f"re:^<{x} as std::ops::Div{y}>::div$" for x, y in ((F, ""), (F, f"<&{F}>"), ("&" + F, ""))], div)
    areg([f"re:^<{F} as std::ops::DivAssign{y}>::div_assign$" for y in ("", f"<&{F}>")], lambda S, a, b: (None, div(S, a, b)), mut=(0,))
    def dot(S, a, b):
        r = a.e[0] * b.e[0]
        for x, y in list(zip(a.e, b.e))[1:]: r = r + x * y
        return Rel(lambda w: z0(w - r))
    areg(f"re:^<{F} as {FD}>::sum_of_products::<3>$", dot)
    def lists(kind):
        def mk(I, st, fn):
            pt = [t for t in fn.arg_tys()[0].targs() if not isinstance(t, (str, int))][0]; out = []
            for k in range(5):
                v = [I.fresh_val(pt, f"v{i}") for i in range(k)]; out.append([IterV(kind, src=Ref(st.new_cell(Arr(v))), i=0, n=k, items=tuple(v))])
            return out
        return mk
    def fold(op, unit):
        def fn(S, it):
            def ok(w):
                r = w.lift(unit)
                for x in it.f["items"]: r = op(r, x)
                return z0(w - r)
            return Rel(ok)
        return fn
    for tr, fn in (("Sum", fold(lambda a, b: a + b, 0)), ("Product", fold(lambda a, b: a * b, 1))):
        areg(f"re:^<{F} as std::iter::{tr}<&{F}>>::{tr.lower()}::<std::slice::Iter<", fn, mkargs=lists("slice"), bounded="iterators of 0 to 4 elements")
        areg(f"re:^<{F} as std::iter::{tr}>::{tr.lower()}::<std::vec::IntoIter<", fn, mkargs=lists("own"), bounded="iterators of 0 to 4 elements")
    # any number of elements: a fold of the contracted operator over opaque field elements
    for tr, op, unit in (("Sum", "Add", "Zero"), ("Product", "Mul", "One")):
        o = op.lower(); bin_ = (lambda o: lambda S, a, b: Raw(absf("field." + o, (a, b))))(o); one_ = (lambda o: lambda S: Raw(absf("field.unit." + o, ())))(o)
        ab = {f"<{x} as std::ops::{op}{y}>::{o}": (bin_, ()) for x, y in ((F, ""), (F, f"<&{F}>"), ("&" + F, ""), ("&" + F, f"<{F}>"))}
        ab.update({f"<{F} as std::ops::{op}Assign{y}>::{o}_assign": ((lambda b: lambda S, a, c: (None, b(S, a, c)))(bin_), (0,)) for y in ("", f"<&{F}>")})
        ab[f"<{F} as num_traits::identities::{unit}>::{unit.lower()}"] = (one_, ())
        def folded(S, it, bin_=bin_, one_=one_):
            v = it.f["items"]; return Raw(S.foreach(S.len(v), lambda k, a: bin_(S, a, S.at(v, k)).v, (one_(S).v,)))
        def its(kind):
            def mk(I, st, fn): v = opaque_seq(I, "elems"); return [[IterV(kind, src=Ref(st.new_cell(v)), i=0, n=v.len, items=v)]]
            return mk
        for nm, kind in ((f"re:^<{F} as std::iter::{tr}<&{F}>>::{tr.lower()}::<std::slice::Iter<", "slice"), (f"re:^<{F} as std::iter::{tr}>::{tr.lower()}::<std::vec::IntoIter<", "own")):
            contract(nm, "C32", pub=False, opts={"nosummary": True, "abstract": ab, "mkargs": its(kind)})(folded)
    from specs.limbs import V as val
    for t in ("u8", "u32", "u64", "openzeppelin_crypto::arithmetic::uint::Uint<4>"):
        if t[0] == "o" and f not in (INST + "VestaParam", INST + "GoldiLocksParam"): continue
        contract(f"re:^<{F} as {FD}>::pow::<{t}>$", "C32", opts={"alg": "pow", "join": True, "cost": 30 if t[0] == "o" else 2})(
            lambda S, a, k: Raw(a.scale(k if isinstance(k, int) or is_sym(k) else val(k))))
for f_, (p_, n_) in FIELDS.items(): field_contracts(f_, p_, n_)
