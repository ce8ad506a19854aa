"""Byte strings as lists of parts.

 ("c", bytes)            constant bytes
 ("w", term, n)          big-endian n-byte encoding of an integer term
 ("o", id, len)          opaque string: id is a term that stands for the content
 ("t", tag, vals, len)   deterministic encoding `tag` of the component values
"""
import z3
import engine as E

class Str:
    __slots__ = ("p",)
    def __init__(self, parts): self.p = norm(parts)
    def __repr__(self): return f"Str{self.p}"
    @staticmethod
    def const(b): return Str([("c", bytes(b))])
    @staticmethod
    def word(t, n): return Str([("w", t, n)])
    @staticmethod
    def tagged(tag, vals, ln=None): return Str([("t", tag, tuple(vals), ln)])
    def is_const(self): return all(x[0] == "c" for x in self.p)
    def bytes(self): return b"".join(x[1] for x in self.p)
    def fixed(self): return all(x[0] in "cw" for x in self.p)
    def length(self):
        n = 0
        for x in self.p: n = E.add(n, part_len(x))
        return n
    def cat(self, o): return Str(self.p + o.p)
    def byte_at(self, I, i):
        i = E.simp_int(i)
        if isinstance(i, int):
            off = 0
            for x in self.p:
                n = part_len(x)
                if not isinstance(n, int): break
                if i < off + n:
                    k = i - off
                    if x[0] == "c": return x[1][k]
                    if x[0] == "w": return E.mod(E.div(x[1], 1 << (8 * (n - 1 - k))), 256)
                    break
                off += n
        t = z3.Function("byte_at", z3.IntSort(), z3.IntSort(), z3.IntSort())(E.zint(ident(self)), E.zint(i))
        I.facts.append(z3.And(t >= 0, t < 256))
        return t
    def slice(self, I, a, b):
        a = E.simp_int(a); b = E.simp_int(b)
        if isinstance(a, int) and a == 0 and E.eq(b, self.length()) is True: return self
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return Str([])
            out = []; off = 0
            for x in self.p:
                n = part_len(x)
                if not isinstance(n, int): break
                lo = max(a, off); hi = min(b, off + n)
                if lo < hi:
                    if lo == off and hi == off + n: out.append(x)
                    elif x[0] == "c": out.append(("c", x[1][lo - off:hi - off]))
                    elif x[0] == "w":
                        out.append(("w", E.mod(E.div(x[1], 1 << (8 * (off + n - hi))), 1 << (8 * (hi - lo))), hi - lo))
                    else: break
                off += n
                if off >= b: return Str(out)
        return Str([("o", z3.Function("substr", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())(
            E.zint(ident(self)), E.zint(a), E.zint(b)), E.sub(b, a))])

def part_len(x):
    if x[0] == "c": return len(x[1])
    if x[0] == "w": return x[2]
    if x[0] == "o": return x[2]
    if x[3] is not None: return x[3]
    return strlen(ident(Str([x])))
def strlen(i): return z3.Function("strlen", z3.IntSort(), z3.IntSort())(E.zint(i))
def norm(parts):
    out = []
    for x in parts:
        if x[0] == "w" and isinstance(x[1], int): x = ("c", x[1].to_bytes(x[2], "big"))
        if x[0] == "c":
            if not x[1]: continue
            if out and out[-1][0] == "c": out[-1] = ("c", out[-1][1] + x[1]); continue
        if x[0] == "w" and x[2] == 0: continue
        if x[0] == "o" and isinstance(x[2], int) and x[2] == 0: continue
        out.append(x)
    return tuple(out)

def _flat(v, sig, args):
    """flatten a component value to a signature string and integer args"""
    if isinstance(v, Str):
        sig.append("S("); 
        for x in v.p:
            if x[0] == "c": sig.append("c" + x[1].hex())
            elif x[0] == "w": sig.append(f"w{x[2]}"); args.append(x[1])
            elif x[0] == "o": sig.append("o"); args.append(x[1])
            else:
                sig.append(x[1] + "<")
                for y in x[2]: _flat(y, sig, args)
                sig.append(">")
            sig.append(",")
        sig.append(")")
    elif isinstance(v, E.Agg):
        sig.append(f"A{v.v}(")
        for y in v.f: _flat(y, sig, args)
        sig.append(")")
    elif isinstance(v, E.Arr):
        sig.append(f"[{len(v.e)}:")
        for y in v.e: _flat(y, sig, args)
        sig.append("]")
    elif isinstance(v, E.SymSeq):
        sig.append("Q"); args.append(E.seq_ident(v))
    elif isinstance(v, bool): sig.append("T" if v else "F")
    elif isinstance(v, int): sig.append("i"); args.append(v)
    elif z3.is_bool(v): sig.append("b"); args.append(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    elif E.is_sym(v): sig.append("i"); args.append(v)
    elif isinstance(v, str): sig.append(repr(v))
    else: raise E.Unsupported(f"flatten {v}")
def uf_of(tag, vals, bool_=False):
    sig = []; args = []
    for v in vals: _flat(v, sig, args)
    name = f"{tag}#{''.join(sig)}"
    rs = z3.BoolSort() if bool_ else z3.IntSort()
    if not args: return z3.Const(name, rs)
    return z3.Function(name, *([z3.IntSort()] * len(args)), rs)(*[E.zint(a) for a in args])
def ident(s):
    """an integer term that stands for the content of the string"""
    if len(s.p) == 1 and s.p[0][0] == "o": return s.p[0][1]
    return uf_of("strid", [s])
def fresh_str(I, name):
    I.fresh_n += 1
    i = z3.Int(f"{name}.str!{I.fresh_n}")
    I.facts.append(z3.And(strlen(i) >= 0, strlen(i) < z3.IntVal(1 << 32)))
    return Str([("o", i, strlen(i))])
def opaque(I, idterm):
    I.facts.append(z3.And(strlen(idterm) >= 0, strlen(idterm) < z3.IntVal(1 << 32)))
    return Str([("o", idterm, strlen(idterm))])
def ite_str(c, a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        if a.fixed() and b.fixed() and a.length() == b.length():
            n = a.length(); return Str.word(E.ite(c, as_int(a), as_int(b)), n)
        i = z3.If(E.zbool(c), E.zint(ident(a)), E.zint(ident(b)))
        return Str([("o", i, E.ite(c, a.length(), b.length()))])
    raise E.Unsupported("ite of string and other")
def as_int(s):
    """big-endian integer of a fixed-length string"""
    t = 0; 
    for x in s.p:
        n = part_len(x)
        if x[0] == "c": t = E.add(E.mul(t, 1 << (8 * n)), int.from_bytes(x[1], "big"))
        elif x[0] == "w": t = E.add(E.mul(t, 1 << (8 * n)), x[1])
        else:
            if not isinstance(n, int): raise E.Unsupported("integer of symbolic-length string")
            t = E.add(E.mul(t, 1 << (8 * n)), z3.Function(f"be{n}", z3.IntSort(), z3.IntSort())(E.zint(ident(Str([x])))))
    return t
def bytes_of(v, n):
    """scalar (FixedBytes) -> byte string value"""
    if isinstance(v, Str): return v
    if v is E.UNINIT: return E.Arr([E.UNINIT] * n)
    return Str.word(v, n)
def scalar_of(v, n):
    if isinstance(v, Str): return as_int(v)
    if isinstance(v, E.Arr):
        if any(x is E.UNINIT for x in v.e): raise E.Unsupported("partially initialised bytes")
        t = 0
        for x in v.e: t = E.add(E.mul(t, 256), x)
        return t
    return v
def to_str(v):
    if isinstance(v, Str): return v
    if isinstance(v, E.Arr): return Str([("w", x, 1) for x in v.e])
    raise E.Unsupported(f"byte string of {type(v).__name__}")
def align(a, b):
    """sufficient condition for equality: the parts agree in order, after leaving out parts of length 0"""
    if not a or not b: return E.And(*[E.eq(part_len(x), 0) for x in a + b])
    x, y = a[0], b[0]; alts = []
    sx, sy = Str([x]), Str([y])
    if sx.fixed() and sy.fixed() or x[0] == y[0] and x[0] in "ot" or x[0] in "ot" and y[0] in "ot":
        E.GOAL[0] = False
        try: h = str_eq(sx, sy)
        finally: E.GOAL[0] = True
        if h is not False: alts.append(E.And(h, align(a[1:], b[1:])))
    for p, q, z in ((a[1:], b, x), (a, b[1:], y)):
        n = part_len(z)
        if z[0] in "ot" and not isinstance(n, int): alts.append(E.And(E.eq(n, 0), align(p, q)))
    if sum(1 for x in a + b if x[0] in "ot"): alts.append(E.And(E.eq(Str(list(a)).length(), Str(list(b)).length()), E.eq(ident(Str(list(a))), ident(Str(list(b))))))
    return E.Or(*alts)
def str_eq(a, b):
    """equality condition (exact for fixed-length strings; sufficient otherwise)"""
    if a.fixed() and b.fixed():
        if a.length() != b.length(): return False
        # chunk-wise when boundaries agree
        if len(a.p) == len(b.p) and all(part_len(x) == part_len(y) for x, y in zip(a.p, b.p)):
            return E.And(*[E.eq(as_int(Str([x])), as_int(Str([y]))) for x, y in zip(a.p, b.p)])
        return E.eq(as_int(a), as_int(b))
    if not a.p or not b.p: return E.eq((b if not a.p else a).length(), 0)
    if E.GOAL[0] and len(a.p) + len(b.p) <= 8 and any(x[0] in "ot" for x in a.p + b.p): return align(a.p, b.p)
    if len(a.p) == len(b.p) and all(x[0] == y[0] for x, y in zip(a.p, b.p)):
        cs = []
        for x, y in zip(a.p, b.p):
            if x[0] == "c": cs.append(x[1] == y[1])
            elif x[0] == "w": cs.append(x[2] == y[2] and E.eq(x[1], y[1]))
            elif x[0] == "o": cs.append(E.eq(x[1], y[1]))
            else:
                if x[1] != y[1] or len(x[2]) != len(y[2]): return E.eq(ident(a), ident(b))
                cs.extend(val_eq(p, q) for p, q in zip(x[2], y[2]))
        return E.And(*cs)
    la, lb = a.length(), b.length()
    return E.And(E.eq(la, lb), E.eq(ident(a), ident(b)))
def big_type(ty): return ty is not None and ty.k == "adt" and ty.name.endswith("arithmetic::uint::Uint")
def big_val(a):
    """integer denoted by the limbs of a crypto Uint, an Fp (its Montgomery form), or a plain limb array"""
    if isinstance(a, int) or E.is_sym(a): return a
    l = a
    while isinstance(l, E.Agg): l = l.f[0]
    t = 0
    for i, x in enumerate(l.e): t = E.add(t, E.mul(x, 1 << (64 * i)))
    return t
def ordv(a):
    if isinstance(a, E.Agg) and a.ty is not None and a.ty.k == "adt" and a.ty.name == "std::cmp::Ordering": return E.Opq("ordering", a.v - 1)
    return a
def val_eq(a, b):
    if a is b: return True
    if hasattr(a, "A") and hasattr(b, "A"): return a.A.eq(a, b)
    a, b = ordv(a), ordv(b)
    if isinstance(a, Str) or isinstance(b, Str):
        return str_eq(to_str(a), to_str(b))
    if isinstance(a, E.Agg) and isinstance(b, E.Agg) and big_type(a.ty) and big_type(b.ty): return E.eq(big_val(a), big_val(b))
    if isinstance(a, E.Agg) and isinstance(b, E.Agg):
        if a.v != b.v or len(a.f) != len(b.f): return False
        return E.And(*[val_eq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, E.Arr) and isinstance(b, E.Arr):
        if len(a.e) != len(b.e): return False
        return E.And(*[val_eq(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, E.SymSeq) or isinstance(b, E.SymSeq): return E.seq_eq(a, b)
    if isinstance(a, E.SObj) and isinstance(b, E.SObj):
        return a.path == b.path and E.And(*[E.eq(x, y) for x, y in zip(a.keys, b.keys)])
    if isinstance(a, E.Opq) and isinstance(b, E.Opq):
        if a.tag != b.tag or len(a.a) != len(b.a): return False
        return E.And(*[val_eq(x, y) for x, y in zip(a.a, b.a)])
    if isinstance(a, str) or isinstance(b, str): return a == b
    if isinstance(a, (int, bool)) or E.is_sym(a):
        if isinstance(b, (int, bool)) or E.is_sym(b): return E.eq(a, b)
    raise E.Unsupported(f"equality of {a} and {b}")

# ---------------------------------------------------------------- keccak256
_RC = []
def _rc():
    r = 1; out = []
    for i in range(24):
        c = 0
        for j in range(7):
            if r & 1: c ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        out.append(c)
    return out
_RC = _rc()
_ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]
def _f(s):
    M = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    for rc in _RC:
        C = [s[x][0] ^ s[x][1] ^ s[x][2] ^ s[x][3] ^ s[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        s = [[s[x][y] ^ D[x] for y in range(5)] for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5): B[y][(2 * x + 3 * y) % 5] = rol(s[x][y], _ROT[x][y])
        s = [[B[x][y] ^ ((~B[(x + 1) % 5][y]) & M & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        s[0][0] ^= rc
    return s
def keccak256(data):
    s = [[0] * 5 for _ in range(5)]; rate = 136
    d = bytearray(data); d.append(1); d.extend(b"\0" * (-len(d) % rate)); d[-1] |= 0x80
    for o in range(0, len(d), rate):
        for i in range(rate // 8): s[i % 5][i // 5] ^= int.from_bytes(d[o + 8 * i:o + 8 * i + 8], "little")
        s = _f(s)
    return b"".join(s[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
def keccak(I, s):
    s = to_str(s)
    if s.is_const(): return int.from_bytes(keccak256(s.bytes()), "big")
    t = uf_of("keccak", [s])
    I.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << 256)))
    return t
