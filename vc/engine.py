"""Path-wise symbolic executor over the exported MIR: the VC generator.

Every obligation is generated from the MIR export of /repo's current source.
Values
  scalars : python int/bool or z3 Int/Bool terms (mathematical integers that are
            kept inside the machine type's range by construction)
  Agg     : struct / enum variant / tuple / closure
  Arr     : sequence whose length is a python int
  SymSeq  : sequence whose length is a term (element k = elem(k))
  Bts     : byte string as a list of parts (see bytesv.py)
  Ref     : pointer to a place in local memory;  SObj: handle of a storage object
"""
import z3, re, sys, time
from mir import Module, Fn, Ty
CLOSURE_RE = re.compile(r"\{closure#\d+\}$")
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Undecided(Exception): pass
class Restart(Exception): pass

# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ("ty", "v", "f")
    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = tuple(f)
    def __repr__(self):
        n = self.ty.name if isinstance(self.ty, Ty) and self.ty.k == "adt" else ""
        if isinstance(self.ty, Ty) and self.ty.k == "adt" and self.ty.d["kind"] == "enum": n += "::" + self.vname
        return f"{n.split('openzeppelin_stylus::')[-1]}{list(self.f)}"
    @property
    def vname(self): return self.ty.variants()[self.v]["n"]
class Arr:
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return f"Arr{list(self.e)}"
class SymSeq:
    """symbolic-length sequence; fn: index term -> value"""
    __slots__ = ("fn", "len", "tag")
    def __init__(self, fn, ln, tag=None): self.fn = fn; self.len = ln; self.tag = tag
    def __repr__(self): return f"SymSeq({self.tag},{self.len})"
class Ref:
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return f"&{self.cell}{list(self.path)}"
class SObj:
    __slots__ = ("path", "keys", "ty")
    def __init__(self, path, keys, ty): self.path = path; self.keys = tuple(keys); self.ty = ty
    def __repr__(self): return f"S<{'.'.join(map(str,self.path))}{list(self.keys)}>"
class BoxV:
    __slots__ = ("cell",)
    def __init__(self, cell): self.cell = cell
class FnV:
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn
class Opq:
    """opaque value: identified by a tag and component values"""
    __slots__ = ("tag", "a")
    def __init__(self, tag, *a): self.tag = tag; self.a = a
    def __repr__(self): return f"Opq({self.tag},{self.a})"
class IterV:
    """iterator over a sequence value: idx .. end (rev supported), plus adapters"""
    __slots__ = ("kind", "f")
    def __init__(self, kind, **f): self.kind = kind; self.f = f
    def __repr__(self): return f"Iter<{self.kind} {self.f}>"
    def upd(self, **kw):
        d = dict(self.f); d.update(kw); return IterV(self.kind, **d)
class _U:
    def __repr__(self): return "uninit"
UNINIT = _U()
UNIT = Agg(None, 0, ())

def is_sym(x): return isinstance(x, z3.ExprRef)
def zint(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    return z3.IntVal(x) if isinstance(x, int) else x
def zbool(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def simp_bool(b):
    if isinstance(b, bool): return b
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    s = z3.simplify(b)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return b
def simp_int(x):
    if isinstance(x, int): return x
    s = z3.simplify(x)
    if z3.is_int_value(s): return s.as_long()
    return x
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    return a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    return a[0] if len(a) == 1 else z3.Or(*a)
def Not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def Implies(a, b): return Or(Not(a), b)
def eq(a, b):
    if isinstance(a, (bool,)) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        if isinstance(a, int) and not isinstance(a, bool): a = bool(a)
        if isinstance(b, int) and not isinstance(b, bool): b = bool(b)
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if a is True: return b
        if b is True: return a
        if a is False: return Not(b)
        if b is False: return Not(a)
        return a == b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if is_sym(a) and is_sym(b) and a.eq(b): return True
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y == 0 and is_sym(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BV2INT: return zero_bits(x.arg(0))
    return simp_bool(zint(a) == zint(b))
def zero_bits(e):
    """e == 0, for words built with | and ^ (the operands of a bit operation are in range by their type)"""
    def un(x): return x.arg(0) if x.decl().kind() == z3.Z3_OP_INT2BV else None
    k = e.decl().kind()
    if k == z3.Z3_OP_BOR: return And(*[zero_bits(c) for c in e.children()])
    if k == z3.Z3_OP_BXOR and e.num_args() == 2:
        a, b = un(e.arg(0)), un(e.arg(1))
        if a is not None and b is not None: return eq(simp_int(a), simp_int(b))
    if k == z3.Z3_OP_INT2BV: return eq(e.arg(0), 0)
    return simp_bool(z3.BV2Int(e) == 0)
def ite(c, a, b):
    c = simp_bool(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, (bool,)) or z3.is_bool(a) or z3.is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else Not(c)
        return z3.If(c, zbool(a), zbool(b))
    if is_sym(a) and is_sym(b) and a.eq(b): return a
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return z3.If(c, zint(a), zint(b))
def lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return simp_bool(zint(a) < zint(b))
def le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return simp_bool(zint(a) <= zint(b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp_int(zint(a) + zint(b))
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return simp_int(zint(a) - zint(b))
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
    return zint(a) * zint(b)
def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and b: return a // b
    if isinstance(b, int) and b == 1: return a
    return zint(a) / zint(b)
def mod(a, b):
    if isinstance(a, int) and isinstance(b, int) and b: return a % b
    return zint(a) % zint(b)
M256 = (1 << 256) - 1
_HQ = {}
def has_quant(e):
    k = e.get_id()
    if k not in _HQ:
        r = False; todo = [e]; seen = set()
        while todo and not r:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): r = True
            else: todo.extend(x.children())
        _HQ[k] = (r, e)
    return _HQ[k][0]

# ------------------------------------------------------------------ types
def leaf(ty):
    """(signed, bits) of a scalar type, ('bool',1), or None"""
    if ty.k == "uint": return (False, ty.d["b"])
    if ty.k == "int": return (True, ty.d["b"])
    if ty.k == "bool": return ("bool", 1)
    if ty.k == "char": return (False, 32)
    if ty.k == "adt":
        n = ty.name
        if n == "ruint::Uint": return (False, ty.targs()[0])
        if n.endswith("bits::fixed::FixedBytes"): return (False, 8 * ty.targs()[0])
        if n.endswith("bits::address::Address"): return (False, 160)
        if n.endswith("bits::function::Function"): return (False, 192)
        if n.endswith("alloy_primitives::Selector"): return (False, 32)
    return None
TRANSPARENT = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::ptr::NonNull", "std::ptr::Unique",
               "std::num::Wrapping", "std::cell::UnsafeCell", "std::mem::maybe_dangling::MaybeDangling")
STORAGE_PRIMS = {"stylus_sdk::storage::StorageUint", "stylus_sdk::storage::StorageSigned", "stylus_sdk::storage::StorageFixedBytes",
                 "stylus_sdk::storage::StorageBool", "stylus_sdk::storage::StorageAddress", "stylus_sdk::storage::StorageBlockNumber",
                 "stylus_sdk::storage::StorageBlockHash", "stylus_sdk::storage::map::StorageMap", "stylus_sdk::storage::StorageMap",
                 "stylus_sdk::storage::vec::StorageVec", "stylus_sdk::storage::StorageVec",
                 "stylus_sdk::storage::bytes::StorageBytes", "stylus_sdk::storage::StorageBytes",
                 "stylus_sdk::storage::bytes::StorageString", "stylus_sdk::storage::StorageString",
                 "stylus_sdk::storage::array::StorageArray", "stylus_sdk::storage::StorageArray"}
GUARDS = ("StorageGuard", "StorageGuardMut")
def is_storage(ty, _memo={}):
    """storage-layout type: a storage primitive or a struct made of such (plus PhantomData)"""
    if ty.k != "adt": return False
    key = (id(ty.mod), ty.id)
    if key in _memo: return _memo[key]
    _memo[key] = False
    n = ty.name
    if n in STORAGE_PRIMS: r = True
    elif n.split("::")[-1] in GUARDS and n.startswith("stylus_sdk"): r = True
    elif ty.d["kind"] == "struct" and (n.startswith("openzeppelin_stylus") or n.startswith("vroots")):
        fs = ty.fields()
        r = any(fname == "__stylus_host" for fname, _ in fs) or (len(fs) > 0 and all(is_storage(t) or "PhantomData" in t.s for _, t in fs))
    else: r = False
    _memo[key] = r
    return r

# ------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "store", "events", "calls", "pc", "ghost", "ncell", "notes", "decs")
    def __init__(self):
        self.mem = {}; self.store = {}; self.events = (); self.calls = (); self.pc = []; self.ghost = {}
        self.ncell = 0; self.notes = (); self.decs = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.store = dict(self.store); s.events = self.events; s.calls = self.calls
        s.pc = list(self.pc); s.ghost = dict(self.ghost); s.ncell = self.ncell; s.notes = self.notes; s.decs = self.decs
        return s
    def new_cell(self, v):
        c = self.ncell; self.ncell += 1; self.mem[c] = v; return c
    def assume(self, c):
        if c is True: return
        self.pc.append(zbool(c))

class Facts(list):
    """list of formulas without duplicates"""
    def __init__(self): super().__init__(); self.ids = set()
    def append(self, f):
        if f.get_id() in self.ids: return
        self.ids.add(f.get_id()); super().append(f)
    def extend(self, fs):
        for f in fs: self.append(f)
class Map:
    """storage map / scalar: base function plus an update chain (keys tuple -> value)"""
    __slots__ = ("base", "upd")
    def __init__(self, base, upd=()): self.base = base; self.upd = upd   # base: callable(keys)->value
    def read(self, keys):
        v = None
        # newest first; stop early on syntactic equality
        out = []
        for ks, val in reversed(self.upd):
            c = And(*[eq(a, b) for a, b in zip(ks, keys)])
            c = simp_bool(c)
            if c is True: v = val; break
            if c is False: continue
            out.append((c, val))
        if v is None: v = self.base(keys)
        for c, val in reversed(out): v = ite_val(c, val, v)
        return v
    def write(self, keys, val):
        u = [(k, x) for k, x in self.upd if not (len(k) == len(keys) and all(_same(a, b) for a, b in zip(k, keys)))]
        return Map(self.base, tuple(u) + ((tuple(keys), val),))
def _same(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return is_sym(a) and is_sym(b) and a.eq(b)
def ite_val(c, a, b):
    c = simp_bool(c)
    if c is True: return a
    if c is False: return b
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
        return Agg(a.ty, a.v, [ite_val(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        return Arr([ite_val(c, x, y) for x, y in zip(a.e, b.e)])
    from bytesv import Str, ite_str
    if isinstance(a, Str) or isinstance(b, Str): return ite_str(c, a, b)
    if hasattr(a, "A"): return a if a is b else a.A.ite(c, a, b)
    return ite(c, a, b)

# ------------------------------------------------------------------ the interpreter
class Stats:
    def __init__(self): self.inlined = set(); self.models = set(); self.contracts = set(); self.solver_s = 0.0; self.queries = 0; self.paths = 0

class Interp:
    def __init__(self, mod, contracts=None, loops=None, unroll=600, max_paths=20000):
        self.m = mod; self.contracts = contracts or {}; self.loops = loops or {}
        self.stats = Stats(); self.fresh_n = 0; self.unroll = unroll
        self.mcache = {}; self.depth = 0; self.max_paths = max_paths
        self._vc = {}; self._fv = []; self._fidx = {}; self._fnone = []; self._qc = {}; self.short = {}
        self.facts = Facts()     # global typing facts of declared symbols
        self.noinline = set(); self.path_lf = {}
        self.feas_timeout = 4000
        self.cuts = False; self.force_cut = set(); self.loop_inv = None; self.loop_cands = None; self.loop_obs = []; self.div_hook = None; self.poly = None; self.alg = None; self.join = None; self.cut_cands = None; self.hcuts = []; self.lenient = 0; self.shifts = []; self.shifted = {}; self.hcutting = 0; self.kc = {}; self.abstract = False
        import models
        self.models = models
    # -- symbols
    def fresh(self, name, ty=None, bits=None):
        self.fresh_n += 1
        x = z3.Int(f"{name}!{self.fresh_n}")
        if ty is not None:
            lf = leaf(ty)
            if lf and lf[0] == "bool": return z3.Bool(f"{name}!{self.fresh_n}")
            if lf: signed, bits = lf
        if bits is not None: self.range_fact(x, bits)
        return x
    def range_fact(self, x, bits):
        self.facts.append(z3.And(x >= 0, x < z3.IntVal(1 << bits)))
    def const(self, name, bits):
        x = z3.Int(name); self.range_fact(x, bits); return x
    def fresh_val(self, ty, name):
        """symbolic value of a type (function inputs)"""
        if self.alg is not None:
            r = self.alg.fresh(ty, name)
            if r is not None: return r
        lf = leaf(ty)
        if lf:
            if lf[0] == "bool":
                self.fresh_n += 1; return z3.Bool(f"{name}!{self.fresh_n}")
            if lf[0] is True:
                self.fresh_n += 1; x = z3.Int(f"{name}!{self.fresh_n}"); h = 1 << (lf[1] - 1)
                self.facts.append(z3.And(x >= -h, x < h)); return x
            return self.fresh(name, bits=lf[1])
        if ty.k == "tuple": return Agg(ty, 0, [self.fresh_val(t, f"{name}.{n}") for n, t in ty.fields()])
        if ty.k == "array" and leaf(ty.elem()) == (False, 8) and ty.d["n"] > 0:
            from bytesv import Str
            return Str.word(self.fresh(name, bits=8 * ty.d["n"]), ty.d["n"])
        if ty.k == "array": return Arr([self.fresh_val(ty.elem(), f"{name}[{i}]") for i in range(ty.d["n"])])
        if ty.k == "adt" and ty.d["kind"] == "struct":
            n = ty.name
            if n in ("std::vec::Vec",):
                et = ty.targs()[0]
                return self.fresh_seq(et, name)
            if n == "std::string::String" or n.endswith("abi::bytes::Bytes") or n.endswith("bytes_::Bytes"):
                from bytesv import fresh_str
                return fresh_str(self, name)
            if n == "std::marker::PhantomData": return UNIT
            return Agg(ty, 0, [self.fresh_val(t, f"{name}.{fn}") for fn, t in ty.fields()])
        raise Unsupported(f"fresh value of type {ty}")
    def fresh_seq(self, et, name):
        self.fresh_n += 1
        ln = z3.Int(f"{name}.len!{self.fresh_n}"); self.facts.append(z3.And(ln >= 0, ln < z3.IntVal(1 << 32)))
        lf = leaf(et)
        if lf and lf[1] == 8:
            from bytesv import fresh_str
            return fresh_str(self, name)
        nb = et.d["n"] if et.k == "array" and leaf(et.elem()) == (False, 8) else None
        if nb is not None: lf = (False, 8 * nb)
        if not lf: raise Unsupported(f"sequence of {et}")
        f = z3.Function(f"{name}.at!{self.fresh_n}", z3.IntSort(), z3.BoolSort() if lf[0] == "bool" else z3.IntSort())
        def at(k, f=f, lf=lf):
            t = f(zint(k))
            if lf[0] != "bool": self.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << lf[1])))
            if nb is not None:
                from bytesv import Str
                return Str.word(t, nb)
            return t
        return SymSeq(at, ln, z3.Int(f"{name}.seq!{self.fresh_n}"))
    # -- solver
    def check(self, conds, timeout=None):
        """'sat' | 'unsat' | 'unknown' of facts + conds"""
        t = time.time()
        cs = [zbool(c) for c in conds]; ids = {c.get_id() for c in cs}
        if cs and z3.is_not(cs[-1]) and cs[-1].arg(0).get_id() in ids: return "unsat"
        fs = self.relevant_facts(conds)
        key = (frozenset(ids), len(fs))
        if key in self._qc: return self._qc[key][0]
        if self.poly is not None:
            r, _ = self.poly.solve(list(fs) + cs, timeout or self.feas_timeout)
            self.stats.solver_s += time.time() - t; self.stats.queries += 1
            if r != "unknown": self._qc[key] = (r, cs)
            return r
        qs = [c for c in cs if has_quant(c)]
        s = z3.Solver()
        s.set("timeout", timeout or self.feas_timeout)
        s.add(*fs); s.add(*[c for c in cs if not any(c is q for q in qs)])
        r = str(s.check())
        if qs and r != "unsat" and timeout is not None:        # quantified conditions only where a proof asks for them (they can only make it unsat)
            s = z3.Solver(); s.set("timeout", 400 if timeout <= 10000 else timeout)
            s.add(*fs); s.add(*cs); r = str(s.check())
        self.stats.solver_s += time.time() - t; self.stats.queries += 1
        if r != "unknown": self._qc[key] = (r, cs)
        return r
    def relevant_facts(self, conds):
        vc = self._vc
        def vars_of(e):
            r = vc.get(e.get_id())
            if r is not None: return r[1]
            acc = set(); st = [e]; vis = set()
            while st:
                x = st.pop(); i = x.get_id()
                if i in vis: continue
                vis.add(i)
                r = vc.get(i)
                if r is not None: acc |= r[1]; continue
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name() if x.num_args() == 0 else x.sexpr())
                    st.extend(x.children())
                elif z3.is_quantifier(x): st.append(x.body())
            vc[e.get_id()] = (e, acc)
            return acc
        facts = self.facts; fv = self._fv; idx = self._fidx
        while len(fv) < len(facts):
            i = len(fv); acc = vars_of(facts[i]); fv.append(acc)
            if not acc: self._fnone.append(i)
            for v in acc: idx.setdefault(v, []).append(i)
        used = set(self._fnone); out = [facts[i] for i in self._fnone]
        work = set()
        for c in conds:
            if is_sym(c): work |= vars_of(c)
        done = set(work); work = list(work)
        while work:
            v = work.pop()
            for i in idx.get(v, ()):
                if i in used: continue
                used.add(i); out.append(facts[i])
                for w in fv[i]:
                    if w not in done: done.add(w); work.append(w)
        return out
    def feasible(self, st, cond):
        c = simp_bool(cond)
        if c is True: return True
        if c is False: return False
        return self.check(st.pc + [c]) != "unsat"
    def fork(self, st, cond):
        """-> [(state, bool)]"""
        c = simp_bool(cond)
        if c is True: return [(st, True)]
        if c is False: return [(st, False)]
        if self.poly is not None:
            self.poly.load(); r = self.poly.under(st.pc, c)
            if r is not None: return [(st, r)]
        if self.join or self.hcutting:                       # no feasibility test: an infeasible path only adds obligations
            n = zbool(Not(c)); ids = {x.get_id() for x in st.pc}
            if c.get_id() in ids: return [(st, True)]
            if n.get_id() in ids: return [(st, False)]
            s2 = st.copy(); s2.assume(n); st.assume(c)
            return [(st, True), (s2, False)]
        t = self.check(st.pc + [c]) != "unsat"
        f = self.check(st.pc + [z3.Not(c)]) != "unsat"
        out = []
        if t and f:
            s2 = st.copy(); s2.assume(Not(c)); st.assume(c)
            return [(st, True), (s2, False)]
        if t: return [(st, True)]
        if f: return [(st, False)]
        return []
    # -- places
    def resolve(self, st, fr, p):
        """place -> ('cell', cell, path) or ('sobj', SObj) or ('val', v)"""
        cell = fr[p[0]]; path = []
        fn = fr["fn"]; ty = fn.local_ty(p[0])
        cur = ("cell", cell, ())
        for e in (p[1] if len(p) > 1 else ()):
            if e == "*":
                v = self.read_loc(st, cur)
                if isinstance(v, Ref): cur = ("cell", v.cell, v.path)
                elif isinstance(v, SObj): cur = ("sobj", v)
                elif isinstance(v, BoxV): cur = ("cell", v.cell, ())
                else: cur = ("val", v)
                ty = ty.elem() if ty.k in ("ref", "ptr") else (ty.targs()[0] if ty.k == "adt" else ty)
            elif e[0] == "f":
                nty = self.m.ty(e[2])
                cur = self.proj_field(st, cur, ty, e[1], nty); ty = nty
            elif e[0] == "d": ty = ty; cur = self.proj_variant(cur, e[1])
            elif e[0] == "i":
                idx = self.read_loc(st, ("cell", fr[e[1]], ()))
                cur = self.proj_index(st, cur, idx); ty = ty.elem()
            elif e[0] == "ci":
                off = e[1]
                if e[3]:
                    n = self.seq_len(self.read_loc(st, cur)); off = sub(n, off)
                cur = self.proj_index(st, cur, off); ty = ty.elem()
            elif e[0] == "ss":
                v = self.read_loc(st, cur)
                if not isinstance(v, Arr): raise Unsupported("subslice of symbolic sequence")
                to = len(v.e) - e[2] if e[3] else e[2]
                cur = self._app(cur, ("s", e[1], to))
            else: raise Unsupported(f"projection {e}")
        return cur, ty
    def _app(self, cur, el):
        if cur[0] == "cell": return ("cell", cur[1], cur[2] + (el,))
        raise Unsupported(f"projection on {cur}")
    def proj_variant(self, cur, v):
        return cur
    def proj_field(self, st, cur, ty, i, nty):
        if cur[0] == "sobj":
            o = cur[1]
            return ("sobj", self.sobj_field(o, i))
        if ty.k == "adt":
            n = ty.name
            if n in TRANSPARENT: return cur
            if n.endswith("bits::address::Address"): return cur
            if n == "std::boxed::Box": return cur
        v = None
        if cur[0] == "val": v = cur[1]
        else:
            try: v = self.read_loc(st, cur)
            except Unsupported: v = None
        if isinstance(v, SObj): return ("sobj", self.sobj_field(v, i))
        if ty.k == "adt" and leaf(ty) and ty.name.endswith("FixedBytes"):
            return self._app(cur, ("fb", ty.targs()[0])) if cur[0] == "cell" else ("val", self.path_get(v, (("fb", ty.targs()[0]),)))
        if ty.k == "adt" and ty.name == "ruint::Uint":
            return self._app(cur, ("limbs", ty.targs()[0], ty.targs()[1])) if cur[0] == "cell" else ("val", self.path_get(v, (("limbs", ty.targs()[0], ty.targs()[1]),)))
        if cur[0] == "val": return ("val", self.path_get(v, (("f", i, ty),)))
        return self._app(cur, ("f", i, ty))
    def sobj_field(self, o, i):
        if o.ty.name.split("::")[-1] in GUARDS:
            return o
        fn, ft = o.ty.fields()[i]
        return SObj(o.path + (fn,), o.keys, ft)
    def proj_index(self, st, cur, idx):
        if cur[0] == "val": return ("val", self.path_get(cur[1], (("i", idx),)))
        return self._app(cur, ("i", idx))
    def path_get(self, v, path):
        for e in path:
            k = e[0]
            if k == "f":
                if isinstance(v, Agg):
                    if e[1] >= len(v.f): raise Unsupported(f"field {e[1]} of {v}")
                    v = v.f[e[1]]
                elif isinstance(v, SObj): v = self.sobj_field(v, e[1])
                else: raise Unsupported(f"field {e[1]} of {type(v).__name__} {v} ({e[2]})")
            elif k == "i": v = self.seq_get(v, e[1])
            elif k == "s":
                v = Arr(v.e[e[1]:e[2]]) if isinstance(v, Arr) else self.seq_slice(v, e[1], e[2])
            elif k == "fb":
                from bytesv import bytes_of
                v = bytes_of(v, e[1])
            elif k == "limbs":
                v = Arr([mod(div(v, 1 << (64 * j)), 1 << 64) for j in range(e[2])])
            else: raise Unsupported(f"path {e}")
        return v
    def path_set(self, v, path, nv):
        if not path: return nv
        e = path[0]; k = e[0]
        if k == "f":
            if v is UNINIT:
                ty = e[2]
                nf = len(ty.fields()) if ty.k != "adt" else max(len(x["f"]) for x in ty.variants())
                v = Agg(ty, 0, [UNINIT] * nf)
            if isinstance(v, Agg):
                f = list(v.f)
                f[e[1]] = self.path_set(f[e[1]], path[1:], nv)
                return Agg(v.ty, v.v, f)
            raise Unsupported(f"field write on {v}")
        if k == "i":
            if isinstance(v, Arr):
                i = simp_int(e[1])
                if isinstance(i, int):
                    l = list(v.e); l[i] = self.path_set(l[i], path[1:], nv); return Arr(l)
                return Arr([ite_val(eq(i, j), self.path_set(x, path[1:], nv), x) for j, x in enumerate(v.e)])
            if isinstance(v, SymSeq):
                i = e[1]; old = v.fn
                cur = old(i); new = self.path_set(cur, path[1:], nv)
                return SymSeq(lambda q, old=old, i=i, new=new: ite_val(eq(q, i), new, old(q)), v.len, None)
            from bytesv import Str
            if isinstance(v, Str) and isinstance(v.length(), int) and isinstance(simp_int(e[1]), int):
                i = simp_int(e[1]); nb = self.path_set(v.byte_at(self, i), path[1:], nv)
                return v.slice(self, 0, i).cat(Str([("w", nb, 1)])).cat(v.slice(self, i + 1, v.length()))
            raise Unsupported(f"index write on {v}")
        if k == "s":
            if isinstance(v, Arr):
                a, b = e[1], e[2]
                mid = self.path_set(Arr(v.e[a:b]), path[1:], nv)
                if isinstance(mid, Arr): return Arr(v.e[:a] + mid.e + v.e[b:])
            from bytesv import Str, to_str
            if isinstance(v, (Arr, Str)):       # bytes: keep whole words instead of splitting them
                v = to_str(v); a, b = simp_int(e[1]), simp_int(e[2]); n = v.length()
                if not (isinstance(a, int) and isinstance(b, int) and isinstance(n, int)): raise Unsupported("slice write on symbolic")
                mid = to_str(self.path_set(v.slice(self, a, b), path[1:], nv))
                if mid.length() != b - a: raise Unsupported("slice write length")
                return v.slice(self, 0, a).cat(mid).cat(v.slice(self, b, n))
            raise Unsupported("slice write on symbolic")
        if k == "fb":
            from bytesv import bytes_of, scalar_of
            return scalar_of(self.path_set(bytes_of(v, e[1]), path[1:], nv), e[1])
        if k == "limbs":
            n = e[2]
            lv = UNINIT if v is UNINIT else self.path_get(v, (e,))
            lv = self.path_set(lv, path[1:], nv)
            t = 0
            for j in range(n): t = add(t, mul(lv.e[j], 1 << (64 * j)))
            return t
        raise Unsupported(f"path write {e}")
    def read_loc(self, st, loc):
        if loc[0] == "cell":
            v = st.mem.get(loc[1], UNINIT)
            return self.path_get(v, loc[2]) if loc[2] else v
        if loc[0] == "sobj": return loc[1]
        return loc[1]
    def write_loc(self, st, loc, v):
        if loc[0] != "cell": raise Unsupported(f"write to {loc[0]}")
        if not loc[2]: st.mem[loc[1]] = v
        else: st.mem[loc[1]] = self.path_set(st.mem.get(loc[1], UNINIT), loc[2], v)
    def deref(self, st, v):
        """follow references to the value"""
        while True:
            if isinstance(v, Ref): v = self.read_loc(st, ("cell", v.cell, v.path))
            elif isinstance(v, BoxV): v = st.mem[v.cell]
            else: return v
    def deref1(self, st, v):
        if isinstance(v, Ref): return self.read_loc(st, ("cell", v.cell, v.path))
        if isinstance(v, BoxV): return st.mem[v.cell]
        return v
    def deref_ref(self, st, v):
        """innermost reference (a Ref whose target is not itself a reference)"""
        while True:
            if isinstance(v, BoxV): v = Ref(v.cell)
            if not isinstance(v, Ref): return v
            w = self.read_loc(st, ("cell", v.cell, v.path))
            if isinstance(w, (Ref, BoxV, SObj)): v = w
            else: return v
    def write_ref(self, st, r, v):
        if isinstance(r, Ref): self.write_loc(st, ("cell", r.cell, r.path), v)
        else: raise Unsupported(f"write through {r}")
    # -- sequences
    def seq_len(self, v):
        if isinstance(v, Arr): return len(v.e)
        if isinstance(v, SymSeq): return v.len
        from bytesv import Str
        if isinstance(v, Str): return v.length()
        raise Unsupported(f"len of {v}")
    def seq_get(self, v, i):
        i = simp_int(i)
        if isinstance(v, Arr):
            if isinstance(i, int):
                if not 0 <= i < len(v.e): raise Unsupported("index out of range")
                return v.e[i]
            r = v.e[-1]
            for j in range(len(v.e) - 2, -1, -1): r = ite_val(eq(i, j), v.e[j], r)
            return r
        if isinstance(v, SymSeq): return v.fn(i)
        from bytesv import Str
        if isinstance(v, Str): return v.byte_at(self, i)
        raise Unsupported(f"index of {type(v).__name__}")
    def seq_slice(self, v, a, b):
        a = simp_int(a); b = simp_int(b)
        if isinstance(v, Arr) and isinstance(a, int) and isinstance(b, int): return Arr(v.e[a:b])
        from bytesv import Str
        if isinstance(v, Str): return v.slice(self, a, b)
        if isinstance(v, SymSeq): return SymSeq(lambda k, v=v, a=a: v.fn(add(k, a)), sub(b, a), None)
        raise Unsupported("slice")
    # -- operands and constants
    def const_val(self, st, v, ty):
        if isinstance(v, bool): return v
        if isinstance(v, str): return int(v)
        if "adt" in v:
            lf = leaf(ty)
            if lf: return self.const_leaf(v, ty)
            n = ty.name if ty.k == "adt" else ""
            if ty.k == "closure": return Agg(ty, 0, ())
            fs = ty.fields(v["adt"])
            if n in TRANSPARENT and fs: return self.const_val(st, v["f"][0], fs[-1][1] if len(fs) == 1 else fs[0][1])
            if n == "std::string::String" or n == "std::vec::Vec":
                from bytesv import Str
                if n == "std::string::String": return Str.const(b"")
                return Arr(()) if not (leaf(ty.targs()[0]) == (False, 8)) else Str.const(b"")
            r = Agg(ty, v["adt"], [self.const_val(st, x, t) for x, (_, t) in zip(v["f"], fs)])
            return r if self.alg is None else self.alg.wrap(r)
        if "tup" in v:
            if not v["tup"]: return UNIT
            return Agg(ty, 0, [self.const_val(st, x, t) for x, (_, t) in zip(v["tup"], ty.fields())])
        if "arr" in v:
            et = ty.elem() if ty.k in ("array", "slice") else None
            return Arr([self.const_val(st, x, et) for x in v["arr"]])
        if "str" in v:
            from bytesv import Str
            return Ref(st.new_cell(Str.const(bytes(v["str"]))))
        if "ref" in v:
            inner = self.const_val(st, v["ref"], ty.elem())
            if isinstance(inner, SObj): return inner
            return Ref(st.new_cell(inner))
        if "fn" in v: return FnV(self.m.fns[v["fn"]])
        if "fnptr" in v: return FnV(self.m.fns[v["fnptr"]])
        if "addr" in v: return Opq("addr", int(v["addr"]))
        return Opq("const", str(v))
    def const_leaf(self, v, ty):
        n = ty.name
        if n == "ruint::Uint":
            l = v["f"][0]["arr"]; return sum(int(x) << (64 * i) for i, x in enumerate(l))
        if n.endswith("FixedBytes"):
            a = v["f"][0]["arr"]; return int.from_bytes(bytes(int(x) for x in a), "big")
        if n.endswith("Address"):
            return self.const_leaf(v["f"][0], ty.fields()[0][1])
        raise Unsupported(f"const of {ty}")
    def operand(self, st, fr, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            if len(p) == 1:
                v = st.mem.get(fr[p[0]], UNINIT)
                if v is UNINIT and fr["fn"].local_ty(p[0]).k == "tuple": return UNIT
                return v
            loc, ty = self.resolve(st, fr, p)
            return self.read_loc(st, loc)
        if "k" in o:
            k = o["k"]
            if self.alg is None: return self.const_val(st, k["v"], self.m.ty(k["t"]))
            c = self.kc.get(id(k))                  # large parameter tables: build once
            if c is None:
                n0 = st.ncell; v = self.const_val(st, k["v"], self.m.ty(k["t"]))
                self.kc[id(k)] = (v, n0, {c: st.mem[c] for c in range(n0, st.ncell)}); return v
            v, n0, cells = c
            if cells:
                if all(st.mem.get(x) is y for x, y in cells.items()): return v
                return self.const_val(st, k["v"], self.m.ty(k["t"]))
            return v
        return False
    # -- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            p = r[2] if k == "ref" else r[1]
            loc, ty = self.resolve(st, fr, p)
            return self.make_ref(st, loc)
        if k == "bin": return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.m.ty(r[4]))
        if k == "cbin":
            ty = self.m.ty(r[4]); a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            exact = self.exact(r[1], a, b)
            return Agg(None, 0, [self.wrap(exact, ty), Not(self.in_range(exact, ty))])
        if k == "un": return self.unop(st, r[1], self.operand(st, fr, r[2]), self.m.ty(r[3]))
        if k == "cast": return self.cast(st, r[1], self.operand(st, fr, r[2]), self.m.ty(r[3]), self.m.ty(r[4]))
        if k == "discr":
            loc, ty = self.resolve(st, fr, r[1]); v = self.read_loc(st, loc)
            return self.discr(v, self.m.ty(r[2]))
        if k == "len":
            loc, ty = self.resolve(st, fr, r[1]); return self.seq_len(self.read_loc(st, loc))
        if k == "rep":
            v = self.operand(st, fr, r[1]); return Arr([v] * r[2])
        if k == "agg":
            kk = r[1]; fs = [self.operand(st, fr, o) for o in r[2]]
            if kk[0] == "tuple": return Agg(dty, 0, fs) if fs else UNIT
            if kk[0] == "array":
                return Arr(fs)
            if kk[0] == "adt":
                ty = self.m.ty(kk[1])
                if leaf(ty):
                    n = ty.name
                    if n.endswith("Address"): return fs[0]
                    if n.endswith("FixedBytes"):
                        from bytesv import scalar_of
                        return scalar_of(fs[0], ty.targs()[0])
                    if n == "ruint::Uint":
                        t = 0
                        for j, x in enumerate(fs[0].e): t = add(t, mul(x, 1 << (64 * j)))
                        return t
                if ty.name in TRANSPARENT: return fs[0] if fs else UNINIT
                if kk[3] is not None: raise Unsupported("union aggregate")
                if is_storage(ty) and len(fs) == 1 and isinstance(fs[0], SObj): return fs[0]
                r = Agg(ty, kk[2], fs)
                return r if self.alg is None else self.alg.wrap(r)
            if kk[0] == "closure": return Agg(self.m.ty(kk[1]), 0, fs)
            if kk[0] == "rawptr": return fs[0]
            raise Unsupported(f"aggregate {kk}")
        raise Unsupported(f"rvalue {k}")
    def make_ref(self, st, loc):
        if loc[0] == "sobj": return loc[1]
        if loc[0] == "val":
            v = loc[1]
            if isinstance(v, (SObj,)): return v
            return Ref(st.new_cell(v))
        # reference to a cell holding a storage handle is the handle itself
        try: v = self.read_loc(st, loc)
        except Unsupported: v = None
        if isinstance(v, SObj): return v
        return Ref(loc[1], loc[2])
    def discr(self, v, ty):
        if isinstance(v, Agg): 
            t = v.ty if isinstance(v.ty, Ty) and v.ty.k == "adt" else ty
            return int(t.variants()[v.v]["d"])
        if isinstance(v, Opq) and v.tag == "ordering": return v.a[0]
        raise Unsupported(f"discriminant of {v}")
    def in_range(self, x, ty):
        signed, bits = leaf(ty)
        if signed is True: return And(ge(x, -(1 << (bits - 1))), lt(x, 1 << (bits - 1)))
        return And(ge(x, 0), lt(x, 1 << bits))
    def exact(self, op, a, b):
        op = op.replace("Unchecked", "")
        if op == "Add": return add(a, b)
        if op == "Sub": return sub(a, b)
        if op == "Mul": return mul(a, b)
        raise Unsupported(f"exact {op}")
    def wrap(self, x, ty_or_bits):
        if isinstance(ty_or_bits, int): signed, bits = False, ty_or_bits
        else: signed, bits = leaf(ty_or_bits)
        n = 1 << bits
        if signed is True:
            if isinstance(x, int): return (x + n // 2) % n - n // 2
            return z3.If(x >= n // 2, x - n, z3.If(x < -(n // 2), x + n, x))
        if isinstance(x, int): return x % n
        # one-step wrap when possible (sum/difference of two in-range values)
        if z3.is_mul(x) or x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD): return mod(x, n)
        return simp_int(z3.If(x >= n, x - n, z3.If(x < 0, x + n, x)))
    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Ref) or isinstance(b, Ref):
                raise Unsupported(f"pointer comparison {a} {op} {b}")
            if op == "Eq": return eq(a, b)
            if op == "Ne": return Not(eq(a, b))
            if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
                a = ite(a, 1, 0); b = ite(b, 1, 0)
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](a, b)
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Add", "Sub", "Mul"):
            ex = self.exact(base, a, b)
            if "WithOverflow" in op: return Agg(None, 0, [self.wrap(ex, ty), Not(self.in_range(ex, ty))])
            return self.wrap2(base, ex, a, b, ty)
        if base in ("Div", "Rem"):
            lf = leaf(ty)
            if lf[0] is True:
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                    return q if base == "Div" else a - b * q
                raise Unsupported("signed division")
            return div(a, b) if base == "Div" else mod(a, b)
        lf = leaf(ty)
        if lf and lf[0] == "bool":
            if base == "BitAnd": return And(a, b)
            if base == "BitOr": return Or(a, b)
            if base == "BitXor": return Not(eq(a, b))
        bits = lf[1]
        if base in ("Shl", "Shr"):
            if isinstance(b, int):
                b %= bits
                return self.wrap(mul(a, 1 << b), ty) if base == "Shl" else div(a, 1 << b)
            return self.shift(base, a, b, bits)
        if base in ("BitAnd", "BitOr", "BitXor"): return self.bitop(base, a, b, bits)
        if base == "Cmp":
            t = None
            return Opq("ordering", ite(lt(a, b), -1, ite(eq(a, b), 0, 1)))
        if base == "Offset": raise Unsupported("pointer offset")
        raise Unsupported(f"binop {op}")
    def wrap2(self, base, ex, a, b, ty):
        if isinstance(ex, int): return self.wrap(ex, ty)
        signed, bits = leaf(ty); n = 1 << bits
        if signed is True: return self.wrap(ex, ty)
        if base == "Add": return simp_int(z3.If(zint(ex) >= n, zint(ex) - n, zint(ex)))
        if base == "Sub": return simp_int(z3.If(zint(ex) < 0, zint(ex) + n, zint(ex)))
        return mod(ex, n)
    def shift(self, base, a, b, bits):
        # symbolic shift amount: via a power-of-two table
        p = self.models.pow2(self, b, bits)
        return mod(mul(a, p), 1 << bits) if base == "Shl" else div(a, p)
    def bitop(self, base, a, b, bits):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[base]
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if base == "BitAnd":
                if b == 0: return 0
                if b & (b + 1) == 0: return mod(a, b + 1)
                # contiguous mask
                low = (b & -b); m = b // low
                if m & (m + 1) == 0: return mul(mod(div(a, low), m + 1), low)
            if base in ("BitOr", "BitXor") and b == 0: return a
            if base == "BitXor" and b == (1 << bits) - 1: return sub(b, a)
        if self.poly is not None and base in ("BitOr", "BitXor"):      # disjoint bits: the sum
            self.poly.load()
            for u, w in ((a, b), (b, a)):
                pu, (lo, hi) = self.poly.subst(self.poly.term(zint(u))), self.poly.iv(self.poly.term(zint(w)))
                if lo is None or hi is None or lo < 0: continue
                n = 1 << hi.bit_length()
                if all(c % n == 0 for c in pu.values()): return add(u, w)
        x = z3.Int2BV(zint(a), bits); y = z3.Int2BV(zint(b), bits)
        r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base]
        return z3.BV2Int(r)
    def unop(self, st, op, a, ty):
        if op == "Not":
            lf = leaf(ty)
            if lf[0] == "bool": return Not(a)
            if lf[0] is True: return sub(-1, a)
            return sub((1 << lf[1]) - 1, a)
        if op == "Neg":
            if isinstance(a, int): return self.wrap(-a, ty)
            return sub(0, a)
        if op == "PtrMetadata": return self.seq_len(self.deref(st, a))
        raise Unsupported(f"unop {op}")
    def cast(self, st, kind, v, sty, dty):
        if kind == "IntToInt":
            if isinstance(v, bool) or z3.is_bool(v): return ite(v, 1, 0)
            ls, ld = leaf(sty) if leaf(sty) else (False, 64), leaf(dty)
            if sty.k == "adt": # fieldless enum
                return self.discr(v, sty)
            if ls[0] is False and ld[0] is False:
                return v if ld[1] >= ls[1] else mod(v, 1 << ld[1])
            if isinstance(v, int): return self.wrap(v, dty)
            if ls[0] is True and ld[0] is True and ld[1] >= ls[1]: return v
            if ls[0] is False and ld[0] is True and ld[1] > ls[1]: return v
            n = 1 << ld[1]
            if ld[0] is False: return mod(v, n)
            m = mod(v, n); return z3.If(m >= n // 2, m - n, m)
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind: return v
            return v  # Unsize: &[T;N] -> &[T], &T -> &dyn
        if kind in ("PtrToPtr", "BoxDerefTransmute"): return v
        if kind == "Transmute": return self.models.transmute(self, st, v, sty, dty)
        if kind == "Subtype": return v
        raise Unsupported(f"cast {kind} {sty} -> {dty}")
    # -- execution
    def run(self, fn, args, st):
        """symbolically execute fn; -> list of (state, ('ret', value) | ('panic', msg))"""
        if fn.bb is None: raise Unsupported(f"no body for {fn.name}")
        self.depth += 1
        if self.depth > 120: raise Unsupported(f"call depth at {fn.name}")
        try:
            fr = {"fn": fn}
            nl = len(fn.d["locals"])
            base = st.ncell; st.ncell += nl
            for i in range(nl): fr[i] = base + i
            n = fn.nargs
            if len(args) != n:
                if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].f) == n: args = [args[0]] + list(args[1].f)
                elif fn.d.get("spread") and len(args) >= n:
                    k = n - 1; args = list(args[:k]) + [Agg(None, 0, args[k:])]
                else: raise Unsupported(f"arity of {fn.name}: {len(args)} vs {n}")
            elif fn.d.get("spread") and n == 2 and not isinstance(args[1], Agg):
                args = [args[0], Agg(None, 0, [args[1]])]
            for i, a in enumerate(args): st.mem[fr[i + 1]] = a
            return self.run_blocks(fn, fr, st)
        finally: self.depth -= 1
    def run_blocks(self, fn, fr, st0):
        out = []; work = [(st0, 0, {})]
        loops = self.loops.get(fn.name); park = None
        if self.join and loop_heads(fn): import join as J; park = J.Park(self, fn, fr)
        while work or park is not None and park.q:
            fresh = bool(work); st, bi, visits = work.pop() if work else park.take()
            while True:
                if park is not None and fresh and bi in loop_heads(fn): park.put(st, bi, visits); break
                fresh = True
                if loops is not None and bi in loop_heads(fn):
                    spec = loops
                    res = spec(self, fn, fr, st, bi, visits)
                    if res is not None:
                        for s2, b2, v2 in res[0]: work.append((s2, b2, v2))
                        out.extend(res[1])
                        break
                if self.cut_cands is not None and bi in loop_heads(fn):
                    import hcut
                    if (fn.name, bi) in self.force_cut: out.extend(hcut.run(self, fn, fr, st, bi, visits)); break
                    if visits.get(bi, 0) == 0: visits[("pc", bi)] = len(st.pc)
                    elif len(st.pc) > visits[("pc", bi)]: self.force_cut.add((fn.name, bi)); raise Restart()
                if self.cuts and bi in loop_heads(fn):
                    import loops as L
                    stt = L.iter_status(self, st, fr, fn)
                    if visits.get(bi, 0) == 0: visits[("pc", bi)] = len(st.pc)
                    if stt == "sym" and visits.get(bi, 0) == 0 or (fn.name, bi) in self.force_cut:
                        for s2, t in L.cut_mir(self, fn, fr, st, bi):
                            if isinstance(t, int): work.append((s2, t, dict(visits)))
                            else: out.append((s2, t))
                        break
                    if stt is None and visits.get(bi, 0) >= 1 and len(st.pc) > visits[("pc", bi)]:
                        self.force_cut.add((fn.name, bi)); raise Restart()
                c = visits.get(bi, 0)
                if c > self.unroll: raise Unsupported(f"loop in {fn.name} exceeds unrolling limit {self.unroll}")
                visits[bi] = c + 1
                b = fn.bb[bi]
                for s in b["s"]: self.stmt(st, fr, s)
                nxt = self.term(fn, fr, st, b["t"])
                # nxt: list of (state, target | ('ret',v) | ('panic',m))
                if len(nxt) == 1 and isinstance(nxt[0][1], int):
                    st, bi = nxt[0]; continue
                first = None
                for s2, t in nxt:
                    if isinstance(t, int):
                        work.append((s2, t, dict(visits)))
                    else: out.append((s2, t))
                break
            if len(out) + len(work) > self.max_paths: raise Unsupported(f"too many paths in {fn.name}")
        return out
    def stmt(self, st, fr, s):
        if s[0] == "=":
            p = s[1]
            dty = fr["fn"].local_ty(p[0]) if len(p) == 1 else None
            v = self.rvalue(st, fr, s[2], dty)
            if len(p) == 1: st.mem[fr[p[0]]] = v
            else:
                loc, ty = self.resolve(st, fr, p); self.write_loc(st, loc, v)
        elif s[0] == "sd":
            loc, ty = self.resolve(st, fr, s[1]); v = self.read_loc(st, loc)
            if v is UNINIT: v = Agg(ty, s[2], [UNINIT] * len(ty.fields(s[2])))
            else: v = Agg(v.ty if isinstance(v.ty, Ty) else ty, s[2], v.f)
            self.write_loc(st, loc, v)
        elif s[0] == "nop": pass
        else: raise Unsupported(f"statement {s[0]}")
    def term(self, fn, fr, st, t):
        k = t[0]
        if k == "goto": return [(st, t[1])]
        if k == "ret":
            v = st.mem.get(fr[0], UNINIT)
            if v is UNINIT: v = UNIT
            for i in range(len(fn.d["locals"])):   # locals are dead after return unless referenced (kept: cheap)
                pass
            return [(st, ("ret", v))]
        if k == "drop": return [(st, t[2])]
        if k == "unreach": return []
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, bool): v = int(v)
            v = simp_int(v) if is_sym(v) and not z3.is_bool(v) else v
            if isinstance(v, int):
                dt = leaf(self.m.ty(t[4]))
                vv = v % (1 << dt[1]) if dt and dt[0] is True else v
                for val, tgt in t[2]:
                    if int(val) == vv: return [(st, tgt)]
                return [(st, t[3])]
            if z3.is_bool(v):
                tg = {int(a): b for a, b in t[2]}
                out = []
                for s2, b in self.fork(st, v):
                    out.append((s2, tg.get(int(b), t[3])))
                return out
            out = []; rest = st
            dt = leaf(self.m.ty(t[4]))
            for val, tgt in t[2]:
                val = int(val)
                if dt and dt[0] is True and val >= 1 << (dt[1] - 1): val -= 1 << dt[1]
                fs = self.fork(rest, eq(v, val)); rest = None
                for s2, b in fs:
                    if b: out.append((s2, tgt))
                    else: rest = s2
                if rest is None: break
            if rest is not None: out.append((rest, t[3]))
            return out
        if k == "assert":
            c = self.operand(st, fr, t[1]); c = c if t[2] else Not(c)
            out = []
            for s2, b in self.fork(st, c): out.append((s2, t[4]) if b else (s2, ("panic", t[3])))
            return out
        if k == "call":
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            if isinstance(f, FnV): fnv = f.fn
            else: raise Unsupported(f"indirect call in {fn.name}")
            if fnv.bb is not None and CLOSURE_RE.search(fnv.name) and len(args) == 2 and isinstance(args[1], Agg):
                # rust-call ABI: the caller passes the argument tuple, the closure body takes its components
                a0 = args[0]
                if fnv.local_ty(1).k in ("ref", "ptr") and not isinstance(a0, Ref): a0 = Ref(st.new_cell(a0))
                args = [a0] + list(args[1].f)
            res = self.call(st, fnv, args, [self.m.ty(x) for x in t[5]])
            out = []
            for s2, o in res:
                if o[0] == "panic": out.append((s2, o))
                else:
                    if t[4] is None: out.append((s2, ("panic", "diverge"))); continue
                    p = t[3]
                    if len(p) == 1: s2.mem[fr[p[0]]] = o[1]
                    else:
                        loc, ty = self.resolve(s2, fr, p); self.write_loc(s2, loc, o[1])
                    out.append((s2, t[4]))
            return out
        if k in ("resume", "abort"): return [(st, ("panic", k))]
        raise Unsupported(f"terminator {k}")
    def call(self, st, fn, args, atys=None):
        c = self.contracts.get(fn.name)
        if c is not None and fn.name not in self.noinline:
            if self.alg is None: self.stats.contracts.add(fn.name); return c.apply(self, st, fn, args)
            r = self.alg_call(st, fn, args, c)
            if r is not None: self.stats.contracts.add(fn.name); return r
        h = self.mcache.get(fn.id, 0)
        if h == 0:
            h = self.models.lookup(self, fn); self.mcache[fn.id] = h
        if h is not None:
            self.stats.models.add(fn.name)
            r = h(self, st, fn, args)
            if isinstance(r, list): return r
            return [(st, ("ret", r))]
        if fn.bb is None:
            r = self.models.ctor(self, st, fn, args)
            if r is not None: return [(st, ("ret", r))]
            raise Unsupported(f"no model and no body: {fn.name} [{fn.kind} {fn.x}]")
        self.stats.inlined.add(fn.name)
        if self.poly is not None or self.alg is not None: return self.run(fn, args, st)
        n0, pc0 = st.ncell, len(st.pc); mem0 = dict(st.mem); st0 = (dict(st.store), st.events, st.calls, st.ghost, st.notes, st.decs)
        res = self.run(fn, args, st)
        return self.merge(res, n0, pc0, mem0, st0) if len(res) >= 4 else res
    def alg_call(self, st, fn, args, c):
        """a contract at a call in an algebraic reading: its ring reading, or (where no algebraic value is passed) itself"""
        if c.opts.get(self.alg.reading):
            r = self.alg.apply(self, st, fn, c, args)
            if r is not None: return r
        if c.opts.get("alg") == self.algkind and not c.opts.get("inline_alg"): return c.apply(self, st, fn, args)
        if c.opts.get("alg_summary") and c.opts["alg"] != self.algkind:
            return [(st, ("ret", c.opts["alg_summary"](self.alg, *[self.models.deep(self, st, a) for a in args])))]
        def has(v, d=0):
            v = self.deref(st, v)
            if self.alg.has(v): return True
            return isinstance(v, (Agg, Arr)) and any(has(x) for x in (v.f if isinstance(v, Agg) else v.e))
        if c.opts.get("alg") or any(has(a) for a in args): return None
        rt = fn.local_ty(0)
        if self.alg.elem(rt) or rt.k in ("adt", "array", "tuple", "ref") and "crypto::field::fp::Fp" in rt.s and self.alg.reading == "ring": return None
        return c.apply(self, st, fn, args)
    def merge(self, res, n0, pc0, mem0, st0):
        """join the paths of a call that returned a scalar and changed nothing else"""
        ret = [r for r in res if r[1][0] == "ret"]
        if len(ret) < 4 or not all(isinstance(r[1][1], (bool, int)) or is_sym(r[1][1]) for r in ret): return res
        for s, _ in ret:
            if s.events is not st0[1] or s.calls is not st0[2] or s.notes is not st0[4] or s.decs is not st0[5] or s.ghost != st0[3]: return res
            if s.store.keys() != st0[0].keys() or any(s.store[k] is not v for k, v in st0[0].items()): return res
            if any(s.mem.get(c, UNINIT) is not v for c, v in mem0.items()): return res
        s = ret[0][0]; conds = [And(*r[0].pc[pc0:]) for r in ret]; vals = [r[1][1] for r in ret]
        if all(isinstance(v, bool) or z3.is_bool(v) for v in vals if not (isinstance(v, int) and not isinstance(v, bool))) and not any(isinstance(v, int) and not isinstance(v, bool) for v in vals):
            v = Or(*[And(c, x) for c, x in zip(conds, vals)])
        else:
            v = vals[-1]
            for c, x in list(zip(conds, vals))[:-1]: v = ite(c, x, v)
        s.pc = s.pc[:pc0]; s.mem = mem0
        for r in ret: s.ncell = max(s.ncell, r[0].ncell)
        return [(s, ("ret", v))] + [r for r in res if r[1][0] != "ret"]
    def call_closure(self, st, clo, args):
        """call a closure / fn value with a list of argument values"""
        if isinstance(clo, FnV): return self.call(st, clo.fn, args)
        raise Unsupported("call_closure")

def loop_heads(fn):
    if fn._loops is None:
        heads = set(); color = {}
        stack = [(0, iter(succ(fn.bb[0]["t"])))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x, 0) == 0:
                    color[x] = 1; stack.append((x, iter(succ(fn.bb[x]["t"])))); break
                elif color[x] == 1: heads.add(x)
            else: color[b] = 2; stack.pop()
        fn._loops = heads
    return fn._loops
def succ(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x for _, x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []

GOAL = [False]
def seq_ident(v):
    if v.tag is not None and is_sym(v.tag): return v.tag
    raise Unsupported("identity of a derived sequence")
def seq_eq(a, b):
    if a is b: return True
    if isinstance(a, SymSeq) and isinstance(b, SymSeq):
        if is_sym(a.tag) and is_sym(b.tag): return eq(a.tag, b.tag)
        if GOAL[0]:   # as a proof goal: same length, same element at an arbitrary position
            from bytesv import val_eq
            j = z3.Int("seq.j"); return And(eq(a.len, b.len), Or(lt(j, 0), ge(j, a.len), val_eq(a.fn(j), b.fn(j))))
    raise Unsupported("equality of symbolic sequences")
