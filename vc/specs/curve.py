from specs import *
import z3
from engine import Ref, Agg, IterV
def sum_(l):
    r = 0
    for x in l: r = add(r, x)
    return r
from specs.fields import FPT, INST
# ---------------------------------------------------------------- short-Weierstrass curves (openzeppelin-crypto::curve::sw)
# A Projective (X, Y, Z) is the affine point (X/Z^2, Y/Z^3), the identity when Z = 0; an Affine is (x, y) or the identity.
# The group law is written with the chord and the tangent on these coordinates; results may use any representative.
AG, ZR = "openzeppelin_crypto::field::group::AdditiveGroup", "num_traits::identities::Zero"
CM = "openzeppelin_crypto::curve::"
INF = None
def isaff(v): return v.ty.name.split("::")[-1] == "Affine"
def coords(v):
    """(is identity, X, Y, Z)"""
    if isaff(v): return v.f[2], v.f[0], v.f[1], v.f[0].lift(1)
    return v.f[2].A.eq0(v.f[2]), v.f[0], v.f[1], v.f[2]
def z0(f): return f.A.eq0(f)
def dbl(S, p, a):
    inf, X, Y, Z = p
    if S.branch(inf) or S.branch(z0(Y)): return INF
    m = X * X * 3 + Z ** 4 * a; yy = Y * Y; n = m * m - X * yy * 8
    return n, m * (X * yy * 4 - n) - yy * yy * 8, Y * Z * 2
def plus(S, p, q, a):
    """p + q -> INF or (X, Y, Z)"""
    if S.branch(p[0]): return INF if S.branch(q[0]) else q[1:]
    if S.branch(q[0]): return p[1:]
    _, X1, Y1, Z1 = p; _, X2, Y2, Z2 = q
    u1, u2, s1, s2 = X1 * Z2 ** 2, X2 * Z1 ** 2, Y1 * Z2 ** 3, Y2 * Z1 ** 3
    if S.branch(z0(u1 - u2)): return dbl(S, p, a) if S.branch(z0(s1 - s2)) else INF
    h, r = u2 - u1, s2 - s1; hh = h * h; n = r * r - hh * (u1 + u2)
    return n, r * (u1 * hh - n) - s1 * hh * h, h * Z1 * Z2
def minus(p): return p[0], p[1], -p[2], p[3]
def point(r):
    """the result is this point (an affine identity is the canonical one)"""
    def ok(v):
        inf, X, Y, Z = coords(v)
        if r is INF: return And(inf, z0(X), z0(Y)) if isaff(v) else inf
        a, b, c = r
        for k in (2, -2, 1, -1):            # same representative up to a constant: no need to multiply out
            if not (Z - c * k).d and not (X - a * k * k).d and not (Y - b * k ** 3).d: return Not(inf)
        return And(Not(inf), z0(X * c ** 2 - a * Z ** 2), z0(Y * c ** 3 - b * Z ** 3))
    return Rel(ok)
def tri(p, S): return INF if S.branch(p[0]) else p[1:]
def canon(S, *ps): return [Implies(p.f[2], And(z0(p.f[0]), z0(p.f[1]))) for p in ps if isinstance(p, Agg) and isaff(p)]
def curve(C, fld, n, a, b, gen, cof, cofinv, order, rf):
    PP, AA = f"{CM}sw::Projective<{C}>", f"{CM}sw::Affine<{C}>"; PI, AI = f"{CM}sw::Projective::<{C}>", f"{CM}sw::Affine::<{C}>"
    F = f"{FPT}<{fld}, {n}>"
    def reg(names, fn, group=None, mut=(), **kw):
        contract(names, "C33", inv=canon, opts={"alg": "expand", "inline_alg": True, **({"group": group} if group else {}), **({"mut": mut} if mut else {}), **kw})(fn)
    # ------------------------------------------------ identity, equality, coordinates
    reg([f"<{PP} as {ZR}>::zero", f"<{PP} as std::default::Default>::default"], lambda S: point(INF), "zero")
    reg([f"<{AA} as {CM}AffineRepr>::zero", f"{AI}::identity", f"<{AA} as std::default::Default>::default"], lambda S: point(INF), "zero")
    reg([f"<{PP} as {ZR}>::is_zero", f"<{AA} as {CM}AffineRepr>::is_zero"], lambda S, p: coords(p)[0], "is_zero")
    def same(S, p, q):
        i, X1, Y1, Z1 = coords(p); j, X2, Y2, Z2 = coords(q)
        if S.branch(i) or S.branch(j): return And(i, j)
        return And(z0(X1 * Z2 ** 2 - X2 * Z1 ** 2), z0(Y1 * Z2 ** 3 - Y2 * Z1 ** 3))
    for x, y in ((PP, PP), (PP, AA), (AA, PP), (AA, AA)): reg(f"<{x} as std::cmp::PartialEq{'' if x == y else f'<{y}>'}>::eq", same)
    def xy(S, p): return NONE if S.branch(p.f[2]) else Some(Rel(lambda v: And(z0(v.f[0] - p.f[0]), z0(v.f[1] - p.f[1]))))
    reg(f"<{AA} as {CM}AffineRepr>::xy", xy)
    for k, nm in enumerate("xy"): reg(f"<{AA} as {CM}AffineRepr>::{nm}", lambda S, p, k=k: NONE if S.branch(p.f[2]) else Some(Rel(lambda v: z0(v - p.f[k]))))
    reg([f"<{AA} as {CM}AffineRepr>::generator", f"<{PP} as {CM}PrimeGroup>::generator"], lambda S: Rel(lambda v: point(tuple(v.f[0].lift(x) for x in gen + (1,))).f(v)))
    on = lambda p: z0(p[2] ** 2 - p[1] ** 3 - p[1] * p[3] ** 4 * a - p[3] ** 6 * b)
    reg(f"{AI}::is_on_curve", lambda S, p: True if S.branch(p.f[2]) else on(coords(p)))
    # ------------------------------------------------ representations
    cv = lambda S, p: point(tri(coords(p), S))
    reg([f"<{PP} as std::convert::From<{AA}>>::from", f"<{AA} as {CM}AffineRepr>::into_group", f"<{AA} as std::convert::Into<{PP}>>::into",
         f"<{AA} as std::convert::From<{PP}>>::from", f"<{PP} as {CM}CurveGroup>::into_affine", f"<{PP} as std::convert::Into<{AA}>>::into"], cv, "conv")
    # ------------------------------------------------ group law
    c = coords
    ng = lambda S, p: point(tri(minus(c(p)), S))
    reg([f"<{PP} as std::ops::Neg>::neg", f"<{AA} as std::ops::Neg>::neg"], ng, "neg")
    reg(f"<{PP} as {AG}>::neg_in_place", lambda S, p: (None, ng(S, p)), "neg", (0,))
    d2 = lambda S, p: point(dbl(S, c(p), a))
    reg(f"<{PP} as {AG}>::double", d2, "double"); reg(f"<{PP} as {AG}>::double_in_place", lambda S, p: (None, d2(S, p)), "double", (0,))
    add_ = lambda S, p, q: point(plus(S, c(p), c(q), a)); sub_ = lambda S, p, q: point(plus(S, c(p), minus(c(q)), a))
    for op, fn in (("Add", add_), ("Sub", sub_)):
        l = op.lower(); T = lambda x, y: f"<{x} as std::ops::{op}{y}>::{l}"
        names = [T(PP, ""), T(PP, f"<&{PP}>"), T(PP, f"<&mut {PP}>"), T("&" + PP, f"<{PP}>"), T("&" + PP, ""), T("&" + PP, f"<&mut {PP}>"),
                 T(PP, f"<{AA}>"), T(PP, f"<&{AA}>"), T(AA, ""), T(AA, f"<&{AA}>"), T(AA, f"<{PP}>"), T(AA, f"<&{PP}>")]
        reg(names, fn, l)
        reg([f"<{PP} as std::ops::{op}Assign{y}>::{l}_assign" for y in ("", f"<&{PP}>", f"<&mut {PP}>", f"<{AA}>", f"<&{AA}>")], (lambda fn: lambda S, p, q: (None, fn(S, p, q)))(fn), l, (0,))
    # ------------------------------------------------ batches (a batch of n: no bound on the elements, the lengths are enumerated)
    LN = [0, 1, 2, 3]
    def many(ty):
        def mk(I, st, fn):
            t = fn.arg_tys()[0].elem().elem(); return [[Ref(st.new_cell(Arr([I.fresh_val(t, f"v{i}") for i in range(k)])))] for k in LN]
        return mk
    def binv(S, v):
        out = []
        for f in v.e:
            z = S.branch(z0(f)); out.append(Rel(lambda w, f=f, z=z: z0(w) if z else z0(w * f - 1)))
        return None, out
    if C == "vinst::curve::Aff" or C == "vinst::curve::Secp":
        reg(f"{CM}batch_inversion::<{F}>", binv, mut=(0,), mkargs=many(F), bounded=f"slices of {LN} elements")
    reg(f"<{PP} as {CM}CurveGroup>::normalize_batch", lambda S, v: [point(tri(c(p), S)) for p in v.e], mkargs=many(PP), bounded=f"slices of {LN} points")
    # ------------------------------------------------ constructors: on the curve and in the prime-order subgroup
    one = cof == 1
    def sub_uf(A, p): return True if one else A.bool_uf(("subgroup", C, p[1].key, p[2].key))
    def mk(S, p):
        S.require(on(p), "not on the curve"); S.require(sub_uf(p[1].A, p), "not in the subgroup"); return point(p[1:])
    reg(f"{AI}::new", lambda S, x, y: mk(S, (False, x, y, x.lift(1))))
    def pnew(S, x, y, z):
        if S.branch(z0(z)):
            if not one: S.require(x.A.bool_uf(("subgroup0", C)), "identity"); return point(INF)
            return point(INF)
        S.require(on((False, x, y, z)), "not on the curve")
        if not one: w = x.lift(1) if S.branch(z0(z - 1)) else inv(z); S.require(sub_uf(x.A, (False, x * w * w, y * w * w * w)), "not in the subgroup")
        return point((x, y, z))
    def inv(z): (m, k), = z.d.items(); return z.mk({tuple((x, -e) for x, e in m): pow(k, -1, z.p)})
    reg(f"{PI}::new", pnew)
    # ------------------------------------------------ scalar multiplication: integer multiples in the (abelian) group
    def greg(names, fn, **kw):
        contract(names, "C33", opts={"alg": "group", "join": True, "assume": ["the points of an elliptic curve with the chord-and-tangent law form an abelian group (so [m]P + [n]P = [m+n]P)"], **kw})(fn)
    def by(S, p, k): return Raw(p.scale(k if isinstance(k, int) or is_sym(k) else V(k)))
    from specs.limbs import V
    UI = "openzeppelin_crypto::arithmetic::uint::Uint<4>"
    for t in ("u8", "u32", UI):
        greg([f"<{PP} as {CM}PrimeGroup>::mul_bigint::<{t}>", f"<{AA} as {CM}AffineRepr>::mul_bigint::<{t}>",
              f"{CM}sw::sw_double_and_add_affine::<{C}, {t}>", f"{CM}sw::sw_double_and_add_projective::<{C}, {t}>"], by, cost=30 if t == UI else 2)
    greg([f"<{AA} as {CM}AffineRepr>::clear_cofactor", f"<{AA} as {CM}AffineRepr>::mul_by_cofactor", f"<{AA} as {CM}AffineRepr>::mul_by_cofactor_to_group"], lambda S, p: Raw(p.scale(cof)))
    greg(f"<{AA} as {CM}AffineRepr>::mul_by_cofactor_inv", lambda S, p: Raw(p.scale(cofinv)))
    greg([f"<{C} as {CM}sw::SWCurveConfig>::is_in_correct_subgroup_assuming_on_curve", f"{AI}::is_in_correct_subgroup_assuming_on_curve"],
         lambda S, p: True if one else p.A.isz(p.scale(order)), alg_summary=lambda A, p: True if one else ite(coords(p)[0], A.bool_uf(("subgroup0", C)), sub_uf(A, coords(p))))
    contract(f"<{C} as {CM}CurveConfig>::cofactor_is_one", "C33")(lambda S: one)
    for op in ("Mul", "MulAssign"):
        l = "mul" if op == "Mul" else "mul_assign"
        Ri = pow(1 << 256, -1, order)
        sc = lambda r: mod(mul(V(r), Ri), order)
        ok = lambda S, p, r: [lt(V(r), order)]
        for x in ((PP, AA) if op == "Mul" else (PP,)):
            for y in ((rf, "&" + rf) if x == PP else (rf,)):
                contract(f"<{x} as std::ops::{op}<{y}>>::{l}", "C33", inv=ok, opts={"alg": "group", "cost": 8, "join": True, **({"mut": (0,)} if op != "Mul" else {})})(
                    (lambda S, p, r: Raw(p.scale(sc(r)))) if op == "Mul" else (lambda S, p, r: (None, Raw(p.scale(sc(r))))))
    # lists: the lengths are enumerated, the elements are unconstrained
    def over(I, st, vals, kind): return IterV(kind, src=Ref(st.new_cell(Arr(vals))), i=0, n=len(vals), items=tuple(vals))
    def bits(I, st, fn): return [[Ref(st.new_cell(I.fresh_val(fn.arg_tys()[0].elem(), "p"))), over(I, st, [z3.Bool(f"bit{n}.{i}") for i in range(n)], "own")] for n in range(6)]
    greg(f"<{PP} as {CM}PrimeGroup>::mul_bits_be::<std::vec::IntoIter<bool>>", lambda S, p, it: Raw(p.scale(sum_([ite(b, 1 << k, 0) for k, b in enumerate(reversed(it.f["items"]))]))),
         mkargs=bits, join=False, bounded="bit strings of up to 5 bits")
    def total(S, it):
        def ok(w):
            s = w.A.zero(w.ty)
            for p in it.f["items"]: s = s + p
            return w.A.eq(w, s)
        return Rel(ok)
    def iters(I, st, fn):
        pt = [t for t in fn.arg_tys()[0].targs() if not isinstance(t, (str, int))][-1]
        return [[over(I, st, [I.fresh_val(pt, f"v{i}") for i in range(k)], "slice")] for k in LN]
    for x in (PP, AA): greg(f"<{PP} as std::iter::Sum<&{x}>>::sum::<std::slice::Iter<'_, {x}>>", total, mkargs=iters, join=False, bounded=f"iterators of {LN} points")
    # any number of points: a fold of the contracted addition over opaque group elements
    gplus = lambda S, a, b: Raw(absf("group.add", (a, b))); gzero = lambda S: Raw(absf("group.zero", ()))
    gab = {f"<{x} as std::ops::Add{y}>::add": (gplus, ()) for x, y in ((PP, ""), (PP, f"<&{PP}>"), (PP, f"<{AA}>"), (PP, f"<&{AA}>"))}
    gab.update({f"<{PP} as std::ops::AddAssign{y}>::add_assign": (lambda S, a, b: (None, gplus(S, a, b)), (0,)) for y in ("", f"<&{PP}>", f"<{AA}>", f"<&{AA}>")})
    gab[f"<{PP} as num_traits::identities::Zero>::zero"] = (gzero, ())
    def gfold(S, it): v = it.f["items"]; return Raw(S.foreach(S.len(v), lambda k, a: gplus(S, a, S.at(v, k)).v, (gzero(S).v,)))
    def gits(I, st, fn): v = opaque_seq(I, "points"); return [[IterV("slice", src=Ref(st.new_cell(v)), i=0, n=v.len, items=v)]]
    for x in (PP, AA): contract(f"<{PP} as std::iter::Sum<&{x}>>::sum::<std::slice::Iter<'_, {x}>>", "C33", pub=False, opts={"nosummary": True, "abstract": gab, "mkargs": gits})(gfold)
N_ = 115792089237316195423570985008687907852837564279074904382605163141518161494337
curve("vinst::curve::Secp", "vinst::curve::SecpFq", 4, 0, 7, (55066263022277343669578718895168534326250603453777594175500187360389116729240, 32670510020758816978083085130507043184471273380659243275938904335757337482424),
      1, 1, N_, f"{FPT}<vinst::curve::SecpFr, 4>")
curve("vinst::curve::Aff", INST + "VestaParam", 4, 5, 13, (1, 2), 8, 5, 28948022309329048855892746252171976963363056481941560715954676764349967630337, f"{FPT}<{INST}PallasParam, 4>")
