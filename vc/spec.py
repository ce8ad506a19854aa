"""Contracts: executable functional specifications, their use as callee summaries,
and the verification conditions that tie them to the MIR of /repo."""
import bvback
import z3, time, json, traceback
import engine as E
from engine import *
import models as M
from bytesv import Str, val_eq, to_str, opaque, str_eq, keccak, uf_of, big_type, big_val

class SpecRevert(Exception):
    def __init__(self, err=None): self.err = err
class _Infeasible(Exception): pass
class Some_:
    def __init__(self, v): self.v = v
    def __repr__(self): return f"Some({self.v})"
NONE = object()
def Some(v): return Some_(v)
class Enum:
    """spec-side enum value: variant name + fields"""
    def __init__(self, name, *f): self.name = name; self.f = f
class Raw:
    """spec value already in code representation"""
    def __init__(self, v): self.v = v

class Rel:
    """spec-side relation: the result is any value a with f(a)"""
    def __init__(self, f): self.f = f
class Big:
    """spec-side integer returned as a limb-based number (a Uint, or an Fp in Montgomery form)"""
    def __init__(self, v): self.v = v
def big_code(I, ty, v):
    """limbs of the integer v (0 <= v < 2^(64 N)): fresh limbs with their defining equation"""
    if not big_type(ty):
        fs = ty.fields()
        return Agg(ty, 0, [big_code(I, fs[0][1], v)] + [Agg(t, 0, ()) for _, t in fs[1:]])
    if isinstance(v, list): return Agg(ty, 0, [Arr(list(v))])
    n = ty.fields()[0][1].d["n"]; v = simp_int(v)
    if isinstance(v, int): return Agg(ty, 0, [Arr([(v >> (64 * i)) & ((1 << 64) - 1) for i in range(n)])])
    if n == 1: return Agg(ty, 0, [Arr([v])])
    k = v.get_id(); c = I.bigs.get((k, n))
    if c is None:
        nm = f"big{len(I.bigs)}"; ls = [z3.Int(f"{nm}.{i}") for i in range(n)]
        for x in ls: I.range_fact(x, 64)
        if I.poly is not None:
            I.poly.load(); lo, hi = I.poly.iv(I.poly.term(v))
            if lo is not None and hi is not None and lo >= 0 and hi < 1 << (64 * n):
                for i, x in enumerate(ls):
                    if hi >> (64 * i) < (1 << 64) - 1: I.facts.append(x <= hi >> (64 * i))
        t = 0
        for i, x in enumerate(ls): t = add(t, mul(x, 1 << (64 * i)))
        I.facts.append(zint(t) == v)
        if I.poly is not None:
            d = v
            for i, x in enumerate(ls):
                if i: d = sub(d, mul(x, 1 << (64 * i)))
            I.poly.defs[f"{nm}.0"] = zint(d)
        c = I.bigs[(k, n)] = (v, ls)
    return Agg(ty, 0, [Arr(list(c[1]))])

class Obj:
    """spec-side view of a storage object"""
    def __init__(self, S, o): self.__dict__["S"] = S; self.__dict__["o"] = o
    def __getattr__(self, n): return self.field(n)
    def field(self, n):
        o = self.o
        fs = o.ty.fields()
        for i, (fn, ft) in enumerate(fs):
            if fn == n: return Obj(self.S, self.S.I.sobj_field(o, i))
        for i, (fn, ft) in enumerate(fs):
            if fn.strip("_") == n.strip("_"): return Obj(self.S, self.S.I.sobj_field(o, i))
        raise Unsupported(f"storage field {n} of {o.ty} not found")
    def __getitem__(self, k):
        o = self.o
        nm = o.ty.name.split("::")[-1]
        if nm == "StorageVec": return Obj(self.S, M.v_elem(self.S.I, self.S.st, o, k))
        return Obj(self.S, M.elem_obj(self.S.I, self.S.st, o, k))
    def get(self): 
        nm = self.o.ty.name.split("::")[-1]
        if nm in ("StorageString", "StorageBytes"): return M.sload(self.S.I, self.S.st, self.o, "str")
        return M.sload(self.S.I, self.S.st, self.o)
    def set(self, v):
        nm = self.o.ty.name.split("::")[-1]
        if nm in ("StorageString", "StorageBytes"): return M.sstore(self.S.I, self.S.st, self.o, v, "str")
        M.sstore(self.S.I, self.S.st, self.o, v)
    def len(self): return M.sload(self.S.I, self.S.st, M.vlen_obj(self.o), M.LENLF)
    def set_len(self, v): M.sstore(self.S.I, self.S.st, M.vlen_obj(self.o), v, M.LENLF)

class S:
    """one spec path"""
    def __init__(self, I, st, script, recs=()):
        self.I = I; self.st = st; self.script = script; self.taken = []; self.pending = []; self.recs = recs; self.ri = 0
    def choose(self, n):
        k = len(self.taken)
        if k < len(self.script): b = self.script[k]
        else:
            b = 0
            for j in range(1, n): self.pending.append(self.taken + [j])
        self.taken.append(b); return b
    def sub_run(self, st, f):
        """all paths of f() from a copy of st -> [(state, outcome)]"""
        out = []; work = [[]]; save = (self.st, self.script, self.taken, self.pending, self.recs, self.ri)
        try:
            while work:
                self.st = st.copy(); self.script = work.pop(); self.taken = []; self.pending = []; self.recs = (); self.ri = 0
                try:
                    try: o = ("ok", f())
                    except SpecRevert as e: o = ("revert", e.err)
                except _Infeasible:
                    work.extend(self.pending); continue
                out.append((self.st, o)); work.extend(self.pending)
                if len(out) > 2000: raise Unsupported("too many spec paths")
        finally: self.st, self.script, self.taken, self.pending, self.recs, self.ri = save
        return out
    def len(self, v): return self.I.seq_len(v)
    def at(self, v, k): return self.I.seq_get(v, k)
    def foreach(self, n, step, acc=()):
        """for k in 0..n: acc = step(k, *acc)   (the step may read and write state, emit, call, revert)"""
        acc = list(acc); n = simp_int(n)
        def norm(r): return [] if not acc else [r] if not isinstance(r, (tuple, list)) else list(r)
        if isinstance(n, int):
            for k in range(n): acc = norm(step(k, *acc))
            return acc[0] if len(acc) == 1 else acc
        if self.ri < len(self.recs):
            rec = self.recs[self.ri]; self.ri += 1
            r = self.match_loop(rec, n, step, acc, norm)
        else: r = self.gen_loop(n, step, acc, norm)
        return r[0] if len(r) == 1 else r
    def gen_loop(self, n, step, acc, norm):
        import loops as L
        I = self.I; cells = [self.st.new_cell(a) for a in acc]
        def stepf(st, k):
            out = []
            for s, b in I.fork(st, lt(k, n)):
                if not b: out.append((s, "exit")); continue
                for s2, o in self.sub_run(s, lambda: norm(step(k, *[self.st.mem[c] for c in cells]))):
                    if o[0] != "ok": out.append((s2, ("revert", o[1]))); continue
                    for c, v in zip(cells, o[1]): s2.mem[c] = v
                    out.append((s2, "again"))
            return out
        rec, ex = L.cut(I, self.st, stepf, "contract loop")
        s, t = ex[self.choose(len(ex))]
        self.st = s.copy()
        if t != "exit": raise SpecRevert(t[1])
        return [self.st.mem[c] for c in cells]
    def match_loop(self, rec, n, step, acc, norm):
        import loops as L, itertools
        I = self.I; k = rec.k; ob = lambda l, pc, c: I.loop_obs.append((l, list(pc), c))
        for l, c in state_eq(I, rec.entry.store, self.st.store) + event_eq(rec.entry.events, self.st.events) + call_eq(I, rec.entry.calls, self.st.calls):
            ob("loop entry: " + l, self.st.pc, c)
        leaves = [(c, sub_) for c, h in rec.cells.items() if c not in rec.dead for sub_, lf in h.items() if lf.c is None]
        val = lambda st, x: leaf_at(st.mem[x[0]], x[1])
        best = None
        for perm in itertools.permutations(leaves, len(acc)):
            if any(shape(val(rec.head, x)) != shape(a) for x, a in zip(perm, acc)): continue
            if any(z3.is_bool(val(rec.head, x)) != (isinstance(a, bool) or z3.is_bool(a)) for x, a in zip(perm, acc) if is_sym(val(rec.head, x))): continue
            obs = [("loop entry: accumulator", list(self.st.pc), val_eq(val(rec.entry, x), a)) for x, a in zip(perm, acc)]
            for i, s in enumerate(rec.again):
                pre = rec.head.copy(); pre.pc = list(s.pc)
                obs.append((f"loop body {i}: iteration within the count", list(s.pc), lt(k, n)))
                for s2, o in self.sub_run(pre, lambda: norm(step(k, *[val(rec.head, x) for x in perm]))):
                    if o[0] != "ok": obs.append((f"loop body {i}: code continues where the contract reverts ({o[1]})", s2.pc, False)); continue
                    for l, c in state_eq(I, s.store, s2.store) + event_eq(s.events, s2.events) + call_eq(I, s.calls, s2.calls): obs.append((f"loop body {i}: {l}", s2.pc, c))
                    for x, v in zip(perm, o[1]): obs.append((f"loop body {i}: accumulator", s2.pc, val_eq(val(s, x), v)))
            good = len(acc) == 0 or all(simp_bool(c) is True or I.check(pc + [zbool(Not(c))], 10000) == "unsat" for l, pc, c in obs if "accumulator" in l)
            if best is None or good: best = (perm, obs)
            if good: break
        if best is None: raise Unsupported("the code's loop has no matching accumulator")
        for l, pc, c in best[1]: ob(l, pc, c)
        self.st.store = dict(rec.head.store); self.st.events = rec.head.events; self.st.calls = rec.head.calls
        vals = [val(rec.head, x) for x in best[0]]
        if self.branch(lt(k, n)):
            step(k, *vals)
            raise Unsupported("the code leaves the loop where the contract continues")
        return vals
    # -- control
    def branch(self, c):
        c = simp_bool(c)
        if isinstance(c, bool): return c
        k = len(self.taken)
        if k < len(self.script):
            b = self.script[k]
        else:
            if self.I.poly is not None:
                self.I.poly.load(); r = self.I.poly.under(self.st.pc, c)
            else: r = None
            t = r is True or (r is None and self.I.check(self.st.pc + [c]) != "unsat")
            f = r is False or (r is None and self.I.check(self.st.pc + [z3.Not(c)]) != "unsat")
            if t and f: self.pending.append(self.taken + [False]); b = True
            elif t: b = True
            elif f: b = False
            else: raise _Infeasible()
        self.taken.append(b)
        self.st.assume(c if b else Not(c))
        return b
    def require(self, c, err=None):
        if not self.branch(c): raise SpecRevert(err)
    def fail_if(self, c, err=None):
        if self.branch(c): raise SpecRevert(err)
    # -- environment
    @property
    def sender(self): return M.sender(self.I)
    @property
    def this_address(self): return self.I.const("contract.address", 160)
    @property
    def timestamp(self): return self.I.const("block.timestamp", 64)
    @property
    def chainid(self): return self.I.const("block.chainid", 64)
    @property
    def balance(self): return self.I.const("contract.balance", 256)
    def has_code(self, a): return M.has_code(self.I, a)
    def emit(self, name, *f): self.st.events = self.st.events + ((name, tuple(f)),)
    def call(self, to, data, value=0, kind="call", maxlen=None):
        """external call; -> (ok: python bool after branching, return data)"""
        okv, r = M.ext_call(self.I, self.st, kind, to, value, data, maxlen)
        return self.branch(okv), r
    def int(self, x):
        """a byte string of fixed length as a big-endian integer"""
        from bytesv import scalar_of
        return x if isinstance(x, int) or is_sym(x) else scalar_of(x, None)
    def reads_true(self, r): return M.reads_true(self.I, r, self.st)
    def reads_int(self, r): return M.reads_int(self.I, r, self.st)
    def pow(self, x, y): return M.ipow(self.I, x, y)
    def static(self, to, sig, vals, ret):
        """typed view call: reverts when it fails or its return data does not decode"""
        okv, r = M.ext_call(self.I, self.st, "static", to, 0, self.calldata(sig, *vals))
        self.require(okv, "call"); okd, v = M.dec(self.I, ret, r); self.require(okd, "decode")
        return v.f[0] if len(v.f) == 1 else v.f
    def keccak(self, s): return keccak(self.I, s)
    def sel(self, sig): 
        from bytesv import keccak256
        return keccak256(sig.encode())[:4]
    def calldata(self, sig, *vals):
        """selector ++ abi.encode(vals)"""
        ts = sig[sig.index("("):]
        return Str([("c", self.sel(sig))] + list(M.abi_params(ts, vals).p))
    def icall(self, to, sig, vals, ret=None, value=0, kind="call"):
        """typed interface call: reverts when the call fails or its return data does not decode"""
        b, r = self.call(to, self.calldata(sig, *vals), value, kind)
        if not b: raise SpecRevert("call")
        if ret is None: return None
        okd, v = M.dec(self.I, ret, r)
        self.require(okd, "decode")
        return v.f[0] if len(v.f) == 1 else v.f

def shape(v): return "str" if isinstance(v, Str) else "seq" if isinstance(v, (Arr, E.SymSeq)) else "scalar"
def leaf_at(v, sub_):
    for i in sub_: v = v.f[i] if isinstance(v, (Agg, IterV)) else v.e[i]
    return v
def run_spec(I, st0, fn, args, recs=()):
    """all paths of a spec from state st0 (not modified) -> [(state, ('ok', v) | ('revert', err))]"""
    out = []; work = [[]]
    while work:
        script = work.pop()
        s = S(I, st0.copy(), script, recs)
        try:
            a = [Obj(s, x) if isinstance(x, SObj) else x for x in args]
            try: o = ("ok", fn(s, *a))
            except SpecRevert as e: o = ("revert", e.err)
        except _Infeasible: 
            work.extend(s.pending); continue
        out.append((s.st, o)); work.extend(s.pending)
        if len(out) > 4000: raise Unsupported("too many spec paths")
    return out

# ------------------------------------------------------------------ value conversion
def to_code(I, ty, v):
    """spec value -> code representation of type ty"""
    if isinstance(v, Raw) and not is_result(ty): return v.v
    if isinstance(v, Rel) and I.poly is not None:          # some value with that relation
        w = I.fresh_val(ty, "some"); I.rels.append(zbool(v.f(w))); return w
    if isinstance(v, Rel): raise Unsupported("a contract that leaves the result's representation open")
    if isinstance(v, Big): return big_code(I, ty, v.v)
    if ty.k == "adt":
        n = ty.name
        if n == "std::option::Option":
            if v is NONE: return M.none(ty)
            if isinstance(v, Some_): return M.some(ty, to_code(I, ty.targs()[0], v.v))
        if n == "std::result::Result": return M.ok(ty, to_code(I, ty.targs()[0], v))
        if n == "std::cmp::Ordering" and isinstance(v, Enum): return E.Opq("ordering", ["Less", "Equal", "Greater"].index(v.name) - 1)
        if isinstance(v, Enum): return M.mk(ty, v.name, *[to_code(I, t, x) for x, (_, t) in zip(v.f, ty.fields(M.vidx(ty, v.name)))])
        if leaf(ty): return v
        if isinstance(v, (tuple, list)): return Agg(ty, 0, [to_code(I, t, x) for x, (_, t) in zip(v, ty.fields())])
    if ty.k == "tuple":
        if v is None: return UNIT
        return Agg(ty, 0, [to_code(I, t, x) for x, (_, t) in zip(v, ty.fields())])
    if isinstance(v, Obj): return v.o
    if v is None: return UNIT
    return v
def spec_eq(I, ty, a, v):
    """code value a of type ty agrees with the spec value v"""
    if isinstance(v, Rel): return v.f(a)
    if isinstance(v, Big) and not isinstance(v.v, list): return eq(big_val(a), v.v)
    if ty.k == "tuple" and isinstance(v, tuple): return And(*[spec_eq(I, t, x, y) for x, y, (_, t) in zip(a.f, v, ty.fields())])
    if isinstance(v, (list, tuple)) and isinstance(a, Arr): return And(len(a.e) == len(v), *[spec_eq(I, ty, x, y) for x, y in zip(a.e, v)])
    if isinstance(v, Some_) and isinstance(v.v, (Big, Rel)): return a.vname == "Some" and spec_eq(I, ty.targs()[0], a.f[0], v.v)
    return val_eq(a, to_code(I, ty, v))
def is_result(ty): return ty.k == "adt" and ty.name == "std::result::Result"
def err_value(I, ty, name):
    """an error value of type E for a failed contract"""
    if ty.k == "adt" and ty.d["kind"] == "enum" and ty.variants():
        i = 0
        for j, v in enumerate(ty.variants()):
            if v["n"] == name: i = j
        fs = []
        for _, t in ty.fields(i):
            try: fs.append(err_value(I, t, None) if t.k == "adt" and t.d["kind"] == "enum" else I.fresh_val(t, "err"))
            except Exception: fs.append(Opq("err"))
        return Agg(ty, i, fs)
    try: return I.fresh_val(ty, "err")
    except Exception: return Opq("err")

class Contract:
    """contract of one function of /repo"""
    def __init__(self, name, spec, inv=None, post=None, pub=True, opts=None):
        self.name = name; self.spec = spec; self.inv = inv; self.post = post; self.pub = pub; self.opts = opts or {}
    # use as callee summary
    def apply(self, I, st, fn, args):
        rt = fn.local_ty(0) if fn.bb is not None else fn.ret_ty()
        a = [norm_arg(I, st, x) for x in args]
        out = []
        if self.inv:
            for x in self.inv(InvCtx(I, st), *[Obj(InvCtx(I, st), y) if isinstance(y, SObj) else y for y in a]):
                if not I.lenient and I.check(st.pc + [zbool(Not(x))], 20000) != "unsat": raise Unsupported(f"precondition of {self.name} not established at the call")
        mut = self.opts.get("mut", ())
        for s, o in run_spec(I, st, self.opts.get("summary") or self.spec, a):
            if o[0] == "ok":
                r = o[1]; I.rels = s.pc
                if mut:
                    new = r[1:]; r = r[0]
                    for j, v in zip(mut, new): I.write_ref(s, I.deref_ref(s, args[j]), boxed(s, to_code(I, fn.arg_tys()[j].elem(), v)))
                    if rt.k == "ref": out.append((s, ("ret", args[mut[0]]))); continue
                out.append((s, ("ret", to_code(I, rt, r))))
            elif is_result(rt):
                s.ghost["dirty"] = True
                out.append((s, ("ret", M.err(rt, err_value(I, rt.targs()[1], o[1])))))
            else: out.append((s, ("panic", f"contract of {self.name}")))
        return out
def boxed(st, v):
    """boxes of a written struct live in cells of their own"""
    if not (isinstance(v, Agg) and isinstance(v.ty, E.Ty) and v.ty.k == "adt" and v.ty.d["kind"] == "struct"): return v
    return Agg(v.ty, v.v, [E.BoxV(st.new_cell(x)) if t.k == "adt" and t.name == "std::boxed::Box" and isinstance(x, Arr) else x for x, (_, t) in zip(v.f, v.ty.fields())])
def norm_arg(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, (Agg, Arr)): return M.deep(I, st, v)
    return v

# ------------------------------------------------------------------ obligations
class Ob:
    def __init__(self, fn, label, status, detail="", model=None, t=0.0): self.fn = fn; self.label = label; self.status = status; self.detail = detail; self.model = model; self.t = t

def make_args(I, st, fn, opts):
    """argument vectors: fieldless enums are split by variant"""
    dbg = fn.d.get("dbg") or []
    names = {}
    for d in dbg:
        try: names[int(d[1])] = d[0]
        except Exception: pass
    out = [[]]
    for i, t in enumerate(fn.arg_tys()):
        nm = names.get(i + 1) or f"a{i}"
        alts = [opts["args"][nm]] if nm in opts.get("args", {}) else enum_alts(t)
        if i in opts.get("cases", {}): alts = [case_arg(I, t, nm, x) for x in opts["cases"][i]]
        alts = alts or [sym_arg(I, st, t, nm, opts)]
        out = [a + [x] for a in out for x in alts]
    return out
def case_arg(I, t, nm, x):
    """one case of an argument: a constant, or everything from a bound upwards"""
    if isinstance(x, int): return x
    v = I.fresh_val(t, nm); I.facts.append(v >= x[1]); return v
def enum_alts(t):
    if t.k == "adt" and t.d["kind"] == "enum" and t.name not in ("std::option::Option", "std::result::Result") and all(not v["f"] for v in t.variants()):
        return [Agg(t, i, ()) for i in range(len(t.variants()))]
    return None
def sym_arg(I, st, t, nm, opts):
    ln = opts.get("len", {})
    if t.k in ("ref", "ptr"):
        e = t.elem()
        if is_storage(e): return SObj((nm,), (), e)
        if e.k in ("slice", "str"):
            et = e.elem() if e.k == "slice" else None
            from bytesv import fresh_str
            if e.k == "str" or M.is_u8(et): return Ref(st.new_cell(fresh_str(I, nm)))
            return Ref(st.new_cell(sym_seq(I, et, nm, ln, opts)))
        return Ref(st.new_cell(sym_arg(I, st, e, nm, opts)))
    if t.k == "adt" and t.name == "std::vec::Vec" and not M.is_u8(t.targs()[0]): return sym_seq(I, t.targs()[0], nm, ln, opts)
    if t.k == "adt" and t.name.endswith("CallContext"): return Opq("ctx", 0, None)
    return I.fresh_val(t, nm)
def sym_seq(I, et, nm, ln, opts):
    if opts.get("lenq"): return Arr([I.fresh_val(et, f"{nm}[{i}]") for i in range(opts["lenq"].pop(0))])
    if nm in ln: return Arr([I.fresh_val(et, f"{nm}[{i}]") for i in range(ln[nm])])
    return I.fresh_seq(et, nm)

def M_UNIT(t): return None
def good_so_far(obs): return all(o.status == "ok" for o in obs)
def lf_default(lf): return None
def state_eq(I, a, b):
    """list of (label, condition) for: same storage, events, calls"""
    out = []
    for p in sorted(set(a) | set(b), key=str):
        ma = a.get(p); mb = b.get(p)
        if ma is mb: continue
        lf = I.path_lf[p]
        if ma is None: ma = Map(M.base_map(I, p, lf))
        if mb is None: mb = Map(M.base_map(I, p, lf))
        ups = list(ma.upd) + list(mb.upd)
        if not ups:
            if getattr(ma, "gen", None) == getattr(mb, "gen", None): continue
            elif ma.base is mb.base: continue
        nk = len(ups[0][0]) if ups else p.count("[]")
        keys = tuple(z3.Int(f"frame.k{j}") for j in range(nk))
        out.append((f"storage {'.'.join(p)}", val_eq(ma.read(keys), mb.read(keys)) if True else None))
    return out
def event_eq(ea, eb):
    """code events vs spec events"""
    if len(ea) != len(eb): return [(f"event count {len(ea)} (code) vs {len(eb)} (spec)", False)]
    out = []
    for i, ((n, f), (m, g)) in enumerate(zip(ea, eb)):
        if n.split("::")[-1] != m.split("::")[-1]: out.append((f"event {i}: {n} vs {m}", False)); continue
        if len(f) != len(g): out.append((f"event {i} {m}: arity", False)); continue
        out.append((f"event {i} {m}", And(*[val_eq(x, y) for x, y in zip(f, g)])))
    return out
def call_eq(I, ca, cb):
    if len(ca) != len(cb): return [(f"external-call count {len(ca)} (code) vs {len(cb)} (spec)", False)]
    out = []
    for i, (x, y) in enumerate(zip(ca, cb)):
        if x[0] != y[0]: out.append((f"call {i} kind {x[0]} vs {y[0]}", False)); continue
        if x[0] == "#loop" or y[0] == "#loop":
            if x[:2] != y[:2]: out.append((f"call {i}: loop", False))
            continue
        out.append((f"call {i} target", val_eq(x[1], y[1]))); out.append((f"call {i} value", val_eq(x[2], y[2])))
        out.append((f"call {i} data", str_eq(x[3], y[3])))
        for l, c in state_eq(I, x[5], y[5]): out.append((f"state at call {i}: {l}", c))
    return out

UNSUP = (Unsupported, TypeError, AttributeError, LookupError, ValueError, AssertionError, NotImplementedError, RecursionError, z3.Z3Exception)
def absf(name, a, bool_=False):
    """result of a contracted function as an uninterpreted function of its (opaque) arguments"""
    if not a: return z3.Bool(name + "#") if bool_ else z3.Int(name + "#")
    f = z3.Function(f"{name}#", *[z3.IntSort()] * len(a), z3.BoolSort() if bool_ else z3.IntSort())
    return f(*[zint(x) for x in a])
class Verifier:
    def __init__(self, mod, contracts, loops=None, modular=True, timeout=20000):
        self.m = mod; self.contracts = contracts; self.loops = loops or {}; self.modular = modular; self.timeout = timeout
    def interp(self, exclude, modular):
        cs = {k: c for k, c in self.contracts.items() if k != exclude and (modular or c.opts.get("always") or self.alg and c.opts.get("group" if self.alg == "group" else "ring"))}
        no = self.no or ()
        if self.abs: cs = {k: c for k, c in cs.items() if not c.opts.get("alg") and not c.opts.get("poly")}
        for k, (f, mut) in (self.abs or {}).items():
            try: cs[self.m.find(k).name] = Contract(k, f, opts={"mut": mut})
            except LookupError: pass
        I = Interp(self.m, {k: c for k, c in cs.items() if not any(c.name.startswith(x) for x in no)}, self.loops)
        I.abstract = bool(self.abs)
        return I
    def verify(self, c, modular=True, lens=None):
        """-> (list of Ob, stats dict)"""
        t0 = time.time(); obs = []; self.lens = lens; self.no = c.opts.get("no"); self.alg = c.opts.get("alg"); self.abs = c.opts.get("abstract")
        try: fn = self.m.find(c.name)
        except LookupError as e: return [Ob(c.name, "anchor", "missing", str(e))], {}
        I = self.interp(fn.name, modular)
        I.bigs = {}
        if self.alg:
            import alg
            I.alg = alg.make(I, self.alg); I.algkind = self.alg; I.join = c.opts.get("join")
        if c.opts.get("poly"):
            import poly
            I.poly = poly.PC(I)
        I.cuts = bool(c.opts.get("lens") or c.opts.get("loop_cands") or c.opts.get("abstract")) and lens is None
        st = State(); nok = 0; npaths = 0
        opts = c.opts
        if lens is not None: opts = dict(opts); opts["lenq"] = list(lens)
        try: alts = opts["mkargs"](I, st, fn) if opts.get("mkargs") else make_args(I, st, fn, opts)
        except UNSUP as e: return obs + [Ob(c.name, "execution", "unsupported", f"{e}\n" + tb())], self.st(I, t0)
        for ai, args in enumerate(alts):
            o, k, n = self.verify1(I, c, fn, args, st.copy(), f"case {ai}: " if len(alts) > 1 else "")
            obs += o; nok += k; npaths += n
        if nok == 0 and not c.opts.get("never_ok") and good_so_far(obs): obs.append(Ob(c.name, "a successful path exists", "failed", "no successful path: vacuous or always reverting"))
        return obs, self.st(I, t0, npaths)
    def verify1(self, I, c, fn, args, st, pre_l):
        obs = []; self.cur_args = args
        try:
            sargs = [norm_arg(I, st, a) for a in args]
            if c.opts.get("lenset") and self.lens is not None: c.opts["lenset"](I, st, sargs, self.lens)
            invs = c.inv(InvCtx(I, st), *[Obj(InvCtx(I, st), x) if isinstance(x, SObj) else x for x in sargs]) if c.inv else []
            for x in invs: st.assume(x)
            for u, v in c.opts["prod"](*sargs) if c.opts.get("prod") else ():      # u >= 0 and v >= 0 give u*v >= 0
                if all(I.check(st.pc + [zbool(lt(x, 0))], 20000) == "unsat" for x in (u, v)): st.assume(ge(mul(u, v), 0))
            st0 = st.copy()
            if invs and I.check(st.pc, 4000) == "unsat": obs.append(Ob(c.name, pre_l + "precondition satisfiable", "failed", "contract is vacuous"))
            if c.opts.get("loop_inv"): I.loop_inv = lambda I_, s_, k_: c.opts["loop_inv"](I_, s_, sargs, k_)
            if c.opts.get("loop_cands"): I.loop_cands = lambda I_, s_, v_: c.opts["loop_cands"](I_, s_, sargs, v_)
            if c.opts.get("cut_cands"): I.cut_cands = lambda I_, s_, v_: c.opts["cut_cands"](I_, s_, sargs, v_)
            I.div_hook = (lambda I_, s_, a_, b_: c.opts["div_hook"](I_, s_, sargs, a_, b_)) if c.opts.get("div_hook") else None
            E.GOAL[0] = False
            for _ in range(12):
                try: paths = I.run(fn, list(args), st.copy()); break
                except E.Restart: I.depth = 0; I.lenient = 0
            else: raise Unsupported("loops")
            E.GOAL[0] = True
        except UNSUP as e:
            return obs + [Ob(c.name, pre_l + "execution", "unsupported", f"{e}\n" + tb())], 0, 0
        rt = fn.local_ty(0)
        nok = 0
        for pi, (s, o) in enumerate(paths):
            pi = f"{pre_l}path {pi}"
            try:
                kind, val = "ok", None
                if o[0] == "panic": kind, val = "revert", o[1]
                elif is_result(rt) and isinstance(o[1], Agg) and o[1].vname == "Err": kind, val = "revert", o[1].f[0]
                elif is_result(rt): val = o[1].f[0]
                else: val = o[1]
                if kind == "ok": nok += 1
                if kind == "ok" and s.ghost.get("dirty"):
                    obs.append(Ob(c.name, pi, "unsupported", "an error of a contracted callee is swallowed")); continue
                pre = st0.copy(); pre.pc = list(s.pc)
                I.loop_obs = []
                sp = run_spec(I, pre, c.spec, sargs, s.ghost.get("loops", ()))
                for l, pc_, cnd in I.loop_obs: obs.append(self.prove(I, c, f"{pi}: {l}", pc_, cnd, s))
                for si, (s2, o2) in enumerate(sp):
                    obs.extend(self.compare(I, c, fn, rt, pi, si, kind, val, s, s2, o2))
                if kind == "ok" and c.post:
                    for l, cond in c.post(I, st0, s, sargs): obs.append(self.prove(I, c, f"{pi}: {l}", s.pc, cond, s))
                if kind == "ok" and c.opts.get("post_ret"):
                    for l, cond in c.opts["post_ret"](I, st0, s, sargs, M.deep(I, s, val)): obs.append(self.prove(I, c, f"{pi}: {l}", s.pc, cond, s))
            except UNSUP as e:
                obs.append(Ob(c.name, pi, "unsupported", f"{e}\n" + tb()))
        return obs, nok, len(paths)
    def st(self, I, t0, paths=0):
        return {"solver_s": I.stats.solver_s, "queries": I.stats.queries, "inlined": sorted(I.stats.inlined), "models": sorted(I.stats.models),
                "contracts": sorted(I.stats.contracts), "paths": paths, "wall": time.time() - t0}
    def compare(self, I, c, fn, rt, pi, si, kind, val, s, s2, o2):
        k2 = "ok" if o2[0] == "ok" else "revert"
        lab = f"{pi}/{si}"
        if kind != k2:
            what = f"code {'succeeds' if kind == 'ok' else 'reverts (' + str(val)[:120] + ')'} where the contract says {'success' if k2 == 'ok' else 'revert (' + str(o2[1]) + ')'}"
            return [self.prove(I, c, f"{lab}: {what}", s2.pc, False, s2)]
        if kind == "revert": return [Ob(c.name, f"{lab}: revert agrees", "ok")]
        conds = []
        vt = rt.targs()[0] if is_result(rt) else rt
        mut = c.opts.get("mut", ())
        if mut:
            new = o2[1][1:]; o2 = (o2[0], o2[1][0])
            for j, v in zip(mut, new):
                t = fn.arg_tys()[j].elem()
                conds.append((f"value written through argument {j}", spec_eq(I, t, M.deep(I, s, I.deref(s, self.cur_args[j])), v)))
            if rt.k == "ref":
                conds.append(("the returned reference", spec_eq(I, fn.arg_tys()[mut[0]].elem(), M.deep(I, s, I.deref(s, val)), new[0]))); vt = M_UNIT(vt)
        if vt is not None and not (vt.k == "tuple" and not vt.fields()):
            conds.append(("return value", spec_eq(I, vt, M.deep(I, s, val), o2[1])))
        conds += state_eq(I, s.store, s2.store)
        conds += event_eq(s.events, s2.events)
        conds += call_eq(I, s.calls, s2.calls)
        out = []
        for l, cnd in conds: out.append(self.prove(I, c, f"{lab}: {l}", s2.pc, cnd, s2))
        if not conds: out.append(Ob(c.name, f"{lab}: no observable effect", "ok"))
        return out
    def prove(self, I, c, label, pc, cond, st):
        cnd = simp_bool(cond)
        if cnd is True: return Ob(c.name, label, "ok")
        if I.poly is not None:
            t = time.time(); pc = [zbool(x) for x in pc]; fs = list(I.relevant_facts(pc + [zbool(cnd)]))
            I.poly.load()
            for g in cnd.children() if is_sym(cnd) and z3.is_and(cnd) else [cnd]:
                r, model = ("unsat", None) if I.poly.eq_goal(g, pc, fs, self.timeout) else I.poly.solve(fs + pc + [zbool(Not(g))], self.timeout)
                if r != "unsat": break
            if r != "unsat" and has_bv([cnd] + pc):
                r2, m2 = bvback.solve_bv(fs + pc + [zbool(Not(cnd))], min(self.timeout, 10000))
                if r2 == "unsat": r, model = r2, m2
            I.stats.solver_s += time.time() - t; I.stats.queries += 1
            if r == "unsat": return Ob(c.name, label, "ok")
            if r == "sat" and not exact_model(cnd, pc + [t_ % p_ == 0 for x in pc if z3.is_const(x) and x.decl().name() in I.poly.cgs for t_, p_ in [I.poly.cgs[x.decl().name()]]], fs, model): r = "unknown"
            return Ob(c.name, label, "failed" if r == "sat" else "unknown", "counterexample" if r == "sat" else "solver gave no answer", model)
        if getattr(I.alg, "solve", None):
            t = time.time(); r, model = I.alg.solve(list(I.relevant_facts(pc + [zbool(cnd)])) + list(pc) + [zbool(Not(cnd))], self.timeout)
            I.stats.solver_s += time.time() - t; I.stats.queries += 1
            return Ob(c.name, label, "ok" if r == "unsat" else "failed", "" if r == "unsat" else "no algebraic contradiction", model)
        r, model = solve(I, pc + [zbool(Not(cnd))], self.timeout)
        if r == "unsat": return Ob(c.name, label, "ok")
        if r == "sat": return Ob(c.name, label, "failed", "counterexample", model)
        return Ob(c.name, label, "unknown", "solver gave no answer")
def exact_model(cnd, pc, fs, model):
    """the abstraction's model is reported only when it falsifies the real goal (products recomputed)"""
    if not model: return False
    sub_ = [(z3.Int(n), z3.IntVal(int(v))) for n, v in model.items()]
    ev = lambda e: z3.simplify(z3.substitute(zbool(e), *sub_))
    return z3.is_false(ev(cnd)) and all(not z3.is_false(ev(x)) for x in list(pc) + list(fs))
def has_bv(conds):
    seen = set(); todo = [zbool(c) for c in conds]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() in (z3.Z3_OP_BV2INT, z3.Z3_OP_INT2BV) or e.decl().name() == "pow2": return True
            todo.extend(e.children())
    return False
def solve(I, conds, timeout):
    t = time.time()
    if has_bv(conds):
        r, m = bvback.solve_bv(list(I.relevant_facts(conds)) + [zbool(x) for x in conds], timeout)
        I.stats.solver_s += time.time() - t; I.stats.queries += 1
        if r != "unknown": return r, m
    s = z3.Solver(); s.set("timeout", timeout)
    s.add(*I.relevant_facts(conds)); s.add(*[zbool(x) for x in conds])
    r = s.check(); I.stats.solver_s += time.time() - t; I.stats.queries += 1
    if r == z3.sat:
        m = s.model(); d = {}
        for x in m.decls():
            try: d[x.name()] = str(m[x])[:400]
            except Exception: pass
        return "sat", d
    return str(r), None
class InvCtx:
    """evaluation context for invariant instances (no effects)"""
    def __init__(self, I, st): self.I = I; self.st = st
    @property
    def sender(self): return M.sender(self.I)
    @property
    def this_address(self): return self.I.const("contract.address", 160)
def tb():
    return "".join(traceback.format_exc().splitlines(True)[-7:])
