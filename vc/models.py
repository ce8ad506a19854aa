"""Trusted models: the semantics assumed for code outside /repo (stylus-sdk, alloy,
ruint, parts of core/alloc).  Every model that a proof used is listed in its evidence."""
import re, z3
import engine as E
from engine import *
from bytesv import Str, str_eq, val_eq, to_str, bytes_of, scalar_of, as_int, keccak, uf_of, opaque, ident, strlen

# ---------------------------------------------------------------- helpers
def vidx(ty, name):
    for i, v in enumerate(ty.variants()):
        if v["n"] == name: return i
    raise Unsupported(f"variant {name} of {ty}")
def mk(ty, name, *f): return Agg(ty, vidx(ty, name), f)
def some(ty, v): return mk(ty, "Some", v)
def none(ty): return mk(ty, "None")
def ok(ty, v): return mk(ty, "Ok", v)
def err(ty, v): return mk(ty, "Err", v)
def ret(st, v): return (st, ("ret", v))
def panic(st, m): return (st, ("panic", m))
def rty(fn):
    if fn.bb is not None: return fn.local_ty(0)
    return fn.ret_ty()
def sc(I, st, v, n=None):
    """scalar behind references"""
    v = I.deref(st, v)
    if isinstance(v, Str): return as_int(v)
    if isinstance(v, Arr): return scalar_of(v, len(v.e))
    return v
def fork_opt(I, st, cond, ty, v):
    """Some(v) if cond else None"""
    return [ret(s, some(ty, v) if b else none(ty)) for s, b in I.fork(st, cond)]
def fork_panic(I, st, cond, msg, v):
    """panic(msg) if cond else v"""
    return [panic(s, msg) if b else ret(s, v) for s, b in I.fork(st, cond)]
ORD = lambda a, b: Opq("ordering", ite(lt(a, b), -1, ite(eq(a, b), 0, 1)))
def self_ty(fn): 
    g = [x for x in fn.gargs() if isinstance(x, Ty)]
    return g[0] if g else None

# ---------------------------------------------------------------- storage
def prim_leaf(ty):
    n = ty.name.split("::")[-1]
    if n in ("StorageUint",): return (False, ty.targs()[0])
    if n == "StorageFixedBytes": return (False, 8 * ty.targs()[0])
    if n == "StorageAddress": return (False, 160)
    if n == "StorageBool": return ("bool", 1)
    if n == "StorageBlockNumber": return (False, 64)
    return None
def base_name(path): return ".".join(path)
def srange(I, t, lf):
    if lf[0] != "bool": I.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << lf[1])))
def base_map(I, path, lf, gen=""):
    nm = base_name(path) + gen
    def base(keys, nm=nm, lf=lf):
        if lf == "str":
            i = z3.Function(nm, *([z3.IntSort()] * len(keys)), z3.IntSort())(*[zint(k) for k in keys]) if keys else z3.Int(nm)
            return opaque(I, i)
        rs = z3.BoolSort() if lf[0] == "bool" else z3.IntSort()
        t = z3.Function(nm, *([z3.IntSort()] * len(keys)), rs)(*[zint(k) for k in keys]) if keys else z3.Const(nm, rs)
        srange(I, t, lf); return t
    return base
def get_map(I, st, path, lf):
    m = st.store.get(path)
    if m is None:
        m = Map(base_map(I, path, lf)); st.store[path] = m
        I.path_lf[path] = lf
    return m
def sload(I, st, o, lf=None):
    lf = lf or prim_leaf(o.ty)
    if lf is None: raise Unsupported(f"load of {o} : {o.ty}")
    return get_map(I, st, o.path, lf).read(o.keys)
def sstore(I, st, o, v, lf=None):
    lf = lf or prim_leaf(o.ty)
    if lf is None: raise Unsupported(f"store to {o} : {o.ty}")
    if lf[0] == "bool" and lf != "str" and isinstance(v, int): v = bool(v)
    st.store[o.path] = get_map(I, st, o.path, lf).write(o.keys, v)
def as_sobj(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, SObj): return v
    raise Unsupported(f"storage object expected, got {v}")
def st_of(I, st, a):
    """strip guards"""
    o = as_sobj(I, st, a)
    return o
def map_val(o):  return [a for a in o.ty.args() if isinstance(a, Ty)][1]
def elem_obj(I, st, o, k):
    return SObj(o.path + ("[]",), o.keys + (sc(I, st, k),), map_val(o))
def load_or_obj(I, st, o):
    if prim_leaf(o.ty): return sload(I, st, o)
    return o
def s_get(I, st, fn, a): return sload(I, st, st_of(I, st, a[0]))
def s_set(I, st, fn, a):
    o = st_of(I, st, a[0]); v = sc(I, st, a[1]); lf = prim_leaf(o.ty)
    sstore(I, st, o, v); return UNIT
def s_erase(I, st, fn, a):
    o = st_of(I, st, a[0]); erase(I, st, o); return UNIT
def erase(I, st, o):
    lf = prim_leaf(o.ty)
    if lf: sstore(I, st, o, False if lf[0] == "bool" else 0); return
    n = o.ty.name.split("::")[-1]
    if n in ("StorageString", "StorageBytes"): sstore(I, st, o, Str([]), "str"); return
    if o.ty.d["kind"] == "struct" and is_storage(o.ty) and n not in ("StorageMap", "StorageVec"):
        for i in range(len(o.ty.fields())):
            fo = I.sobj_field(o, i)
            if is_storage(fo.ty) and fo.ty.name.split("::")[-1] != "StorageMap": erase(I, st, fo)
        return
    raise Unsupported(f"erase {o.ty}")
def m_get(I, st, fn, a):
    return load_or_obj(I, st, elem_obj(I, st, st_of(I, st, a[0]), a[1]))
def m_obj(I, st, fn, a): return elem_obj(I, st, st_of(I, st, a[0]), a[1])
def m_insert(I, st, fn, a):
    sstore(I, st, elem_obj(I, st, st_of(I, st, a[0]), a[1]), sc(I, st, a[2])); return UNIT
def m_replace(I, st, fn, a):
    o = elem_obj(I, st, st_of(I, st, a[0]), a[1]); old = sload(I, st, o); sstore(I, st, o, sc(I, st, a[2])); return old
def m_take(I, st, fn, a):
    o = elem_obj(I, st, st_of(I, st, a[0]), a[1]); old = sload(I, st, o); erase(I, st, o); return old
def m_delete(I, st, fn, a):
    erase(I, st, elem_obj(I, st, st_of(I, st, a[0]), a[1])); return UNIT
def vlen_obj(o): return SObj(o.path + ("len",), o.keys, o.ty)
LENLF = (False, 32)
def v_len(I, st, fn, a): return sload(I, st, vlen_obj(st_of(I, st, a[0])), LENLF)
def v_elem_ty(o): return [x for x in o.ty.args() if isinstance(x, Ty)][0]
def v_elem(I, st, o, i): return SObj(o.path + ("[]",), o.keys + (i,), v_elem_ty(o))
def v_get(I, st, fn, a):
    o = st_of(I, st, a[0]); i = sc(I, st, a[1]); n = sload(I, st, vlen_obj(o), LENLF); t = rty(fn)
    out = []
    for s, b in I.fork(st, lt(i, n)):
        out.append(ret(s, some(t, load_or_obj(I, s, v_elem(I, s, o, i))) if b else none(t)))
    return out
def v_obj(I, st, fn, a):
    o = st_of(I, st, a[0]); i = sc(I, st, a[1]); n = sload(I, st, vlen_obj(o), LENLF); t = rty(fn)
    return [ret(s, some(t, v_elem(I, s, o, i)) if b else none(t)) for s, b in I.fork(st, lt(i, n))]
def v_push(I, st, fn, a):
    o = st_of(I, st, a[0]); n = sload(I, st, vlen_obj(o), LENLF)
    sstore(I, st, v_elem(I, st, o, n), sc(I, st, a[1])); sstore(I, st, vlen_obj(o), add(n, 1), LENLF); return UNIT
def v_grow(I, st, fn, a):
    o = st_of(I, st, a[0]); n = sload(I, st, vlen_obj(o), LENLF)
    sstore(I, st, vlen_obj(o), add(n, 1), LENLF); return v_elem(I, st, o, n)
def v_pop(I, st, fn, a):
    o = st_of(I, st, a[0]); n = sload(I, st, vlen_obj(o), LENLF); t = rty(fn); out = []
    for s, b in I.fork(st, gt(n, 0)):
        if not b: out.append(ret(s, none(t))); continue
        e = v_elem(I, s, o, sub(n, 1)); v = sload(I, s, e); sstore(I, s, vlen_obj(o), sub(n, 1), LENLF)
        erase(I, s, e); out.append(ret(s, some(t, v)))
    return out
def v_isempty(I, st, fn, a): return eq(sload(I, st, vlen_obj(st_of(I, st, a[0])), LENLF), 0)
def str_get(I, st, fn, a): return sload(I, st, st_of(I, st, a[0]), "str")
def str_set(I, st, fn, a):
    sstore(I, st, st_of(I, st, a[0]), to_str(I.deref(st, a[1])), "str"); return UNIT
def str_len(I, st, fn, a): return sload(I, st, st_of(I, st, a[0]), "str").length()
def ident0(I, st, fn, a): return a[0]

# ---------------------------------------------------------------- environment
def sender(I): return I.const("msg.sender", 160)
def m_sender(I, st, fn, a): return sender(I)
def has_code(I, addr): return z3.Function("has_code", z3.IntSort(), z3.BoolSort())(zint(addr))
def m_log(I, st, fn, a):
    ev = a[-1]
    st.events = st.events + ((ev.ty.name, ev.f),); return UNIT
def ext_call(I, st, kind, to, value, data, maxlen=None, gas=None):
    """one external call: recorded; its outcome is an arbitrary function of the call index.
    A static call cannot change state: its outcome is an arbitrary function of (number of
    state-changing calls so far, target, data), and it is not an observable effect itself."""
    k = len(st.calls)
    if kind == "static":
        d = to_str(data)
        okv = uf_of(f"static{k}.ok", [to, d], True); rid = uf_of(f"static{k}.ret", [to, d])
        return okv, opaque(I, rid)
    snap = dict(st.store)
    st.calls = st.calls + ((kind, to, value, to_str(data), gas, snap, len(st.events)),)
    okv = z3.Bool(f"call{k}.ok"); rid = z3.Int(f"call{k}.ret")
    r = opaque(I, rid)
    if maxlen is not None:
        I.facts.append(strlen(rid) <= maxlen)
        if 0 < maxlen <= 64: I.short[rid.get_id()] = (maxlen, rid)
    return okv, r
def lazy_split(h):
    """operations on individual bytes of short opaque data: first case-split on its length"""
    def g(I, st, fn, a):
        v = I.deref(st, a[0])
        if isinstance(v, Str) and len(v.p) == 1 and v.p[0][0] == "o" and is_sym(v.p[0][1]) and v.p[0][1].get_id() in I.short:
            out = []
            for s, w in split_len(I, st, v, I.short[v.p[0][1].get_id()][0]):
                if not I.feasible(s, True) or I.check(s.pc) == "unsat": continue
                r = h(I, s, fn, [Ref(s.new_cell(w))] + list(a[1:]))
                out += r if isinstance(r, list) else [ret(s, r)]
            return out
        return h(I, st, fn, a)
    return g
def byte_of(I, i, k):
    t = z3.Function("byte_at", z3.IntSort(), z3.IntSort(), z3.IntSort())(zint(i), zint(k))
    I.facts.append(z3.And(t >= 0, t < 256)); return t
def split_len(I, st, r, maxlen):
    """case split on the length of a short opaque string; contents become individual bytes"""
    i = ident(r); out = []
    for n in range(maxlen + 1):
        s = st.copy() if n < maxlen else st
        s.assume(strlen(i) == n); out.append((s, Str([("w", byte_of(I, i, j), 1) for j in range(n)])))
    return out
def known_len(st, i):
    if st is None: return None
    l = strlen(i).get_id()
    for c in st.pc:
        if z3.is_eq(c) and c.arg(0).get_id() == l and z3.is_int_value(c.arg(1)): return c.arg(1).as_long()
    return None
def reads_true(I, r, st=None, maxlen=32):
    """formula: the short return data r, as a big-endian integer, is one"""
    i = ident(r); cs = []; k = known_len(st, i)
    for n in range(1, maxlen + 1):
        if k is not None and n != k: continue
        cs.append(z3.And(strlen(i) == n, byte_of(I, i, n - 1) == 1, *[byte_of(I, i, j) == 0 for j in range(n - 1)]))
    return z3.Or(*cs)
def reads_int(I, r, st=None, maxlen=32):
    """the short return data as a big-endian integer"""
    i = ident(r); k = known_len(st, i)
    if k is None:
        v = z3.Function("be_int", z3.IntSort(), z3.IntSort())(zint(i)); I.facts.append(z3.And(v >= 0, v < W(256)))
        I.facts.append(z3.Implies(strlen(i) == 0, v == 0)); return v
    v = z3.IntVal(0)
    for n in range(1, maxlen + 1):
        if k is not None:
            if n == k: return z3.Sum([byte_of(I, i, j) * (1 << (8 * (n - 1 - j))) for j in range(n)])
            continue
        v = z3.If(strlen(i) == n, z3.Sum([byte_of(I, i, j) * (1 << (8 * (n - 1 - j))) for j in range(n)]), v)
    return v
def ctx_of(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, Opq) and v.tag == "ctx": return v
    return Opq("ctx", 0, None)
def m_ctx_new(I, st, fn, a): return Opq("ctx", 0, None)
def m_ctx_value(I, st, fn, a): return Opq("ctx", sc(I, st, a[1]), ctx_of(I, st, a[0]).a[1])
def m_ctx_gas(I, st, fn, a): return Opq("ctx", ctx_of(I, st, a[0]).a[0], sc(I, st, a[1]))
def call_err(I, t, k, raw):
    et = t.targs()[1]
    if leaf(et) is None and et.k == "adt" and et.d["kind"] == "enum":
        return Agg(et, vidx(et, "Revert"), [opaque(I, z3.Int(f"call{k}.err"))])
    return opaque(I, z3.Int(f"call{k}.err"))
def m_call(kind):
    def h(I, st, fn, a):
        c = ctx_of(I, st, a[0]); to = sc(I, st, a[1]); data = I.deref(st, a[2])
        k = len(st.calls); o, r = ext_call(I, st, kind, to, c.a[0], data, gas=c.a[1]); t = rty(fn)
        return [ret(s, ok(t, r) if b else err(t, call_err(I, t, k, False))) for s, b in I.fork(st, o)]
    return h
def m_raw_new(kind):
    def h(I, st, fn, a):
        v = sc(I, st, a[0]) if a else 0
        return Opq("raw", kind, v, 0, None)
    return h
def m_raw_limit(I, st, fn, a):
    r = I.deref(st, a[0]); return Opq("raw", r.a[0], r.a[1], sc(I, st, a[1]), sc(I, st, a[2]))
def m_raw_skip(I, st, fn, a):
    r = I.deref(st, a[0]); return Opq("raw", r.a[0], r.a[1], 0, 0)
def m_raw_call(I, st, fn, a):
    r = I.deref(st, a[0]); to = sc(I, st, a[1]); data = I.deref(st, a[2]); k = len(st.calls)
    if r.a[2] != 0: raise Unsupported("raw call with a return-data offset")
    lim = r.a[3] if isinstance(r.a[3], int) else None
    o, rv = ext_call(I, st, r.a[0], to, r.a[1], data, maxlen=lim); t = rty(fn)
    if lim == 0: rv = Str([])
    out = []
    for s, b in I.fork(st, o):
        if not b: out.append(ret(s, err(t, opaque(I, z3.Int(f"call{k}.err")))))
        else: out.append(ret(s, ok(t, rv)))
    return out
def m_transfer_eth(I, st, fn, a):
    k = len(st.calls); to = sc(I, st, a[-2]); o, r = ext_call(I, st, "call", to, sc(I, st, a[-1]), Str([])); t = rty(fn)
    return [ret(s, ok(t, UNIT) if b else err(t, opaque(I, z3.Int(f"call{k}.err")))) for s, b in I.fork(st, o)]

# ---------------------------------------------------------------- ABI
def solname(t):
    if t.k == "tuple": return "(" + ",".join(solname(x) for _, x in t.fields()) + ")"
    n = t.name.split("::")[-1]
    if n == "Address": return "address"
    if n == "Uint": return f"uint{t.targs()[0]}"
    if n == "Int": return f"int{t.targs()[0]}"
    if n == "FixedBytes": return f"bytes{t.targs()[0]}"
    if n == "Bool": return "bool"
    if n == "Bytes": return "bytes"
    if n == "String": return "string"
    if n == "Array": return solname(t.targs()[0]) + "[]"
    if n == "FixedArray": return solname(t.targs()[0]) + f"[{t.targs()[1]}]"
    if t.k == "adt" and t.d["kind"] == "struct": return "(" + ",".join(rustsol(x) for _, x in t.fields()) + ")"
    raise Unsupported(f"sol type {t}")
def rustsol(t):
    if t.k == "bool": return "bool"
    if t.k == "uint": return f"uint{t.d['b']}"
    if t.k == "tuple": return "(" + ",".join(rustsol(x) for _, x in t.fields()) + ")"
    if t.k == "adt":
        n = t.name
        if n == "ruint::Uint": return f"uint{t.targs()[0]}"
        if n.endswith("bits::address::Address"): return "address"
        if n.endswith("FixedBytes"): return f"bytes{t.targs()[0]}"
        if n == "std::string::String": return "string"
        if n.endswith("Bytes"): return "bytes"
        if n == "std::vec::Vec": 
            if leaf(t.targs()[0]) == (False, 8): return "bytes"
            return rustsol(t.targs()[0]) + "[]"
        if t.d["kind"] == "struct": return "(" + ",".join(rustsol(x) for _, x in t.fields()) + ")"
    raise Unsupported(f"sol type of {t}")
def split_sig(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c == "," and d == 0: out.append(cur); cur = ""; continue
        d += (c == "(") - (c == ")"); cur += c
    if cur: out.append(cur)
    return out
def is_static(s):
    if s.startswith("(") and s.endswith(")"): return all(is_static(x) for x in split_sig(s[1:-1]))
    return not (s in ("bytes", "string") or s.endswith("[]"))
def enc_static(s, v):
    if s.startswith("("):
        out = []
        for x, y in zip(split_sig(s[1:-1]), v.f): out += enc_static(x, y)
        return out
    if s.startswith("bytes"):
        n = int(s[5:])
        if isinstance(v, (Str, Arr, Agg)): v = scalar_of(v, None)
        return [("w", v, n), ("c", bytes(32 - n))]
    if isinstance(v, bool) or z3.is_bool(v): v = ite(v, 1, 0)
    return [("w", v, 32)]
def deep(I, st, v):
    """value with references resolved"""
    v = I.deref(st, v)
    if isinstance(v, Agg): return Agg(v.ty, v.v, [deep(I, st, x) for x in v.f])
    if isinstance(v, Arr): return Arr([deep(I, st, x) for x in v.e])
    return v
def unwrap_bytes(v):
    """alloy/stylus Bytes wrappers are byte strings"""
    return v
def abi_params(sig, vals):
    """abi.encode(vals...) for a tuple signature '(t1,t2,..)'"""
    if is_static(sig): return Str(enc_static(sig, Agg(None, 0, vals)))
    return Str.tagged("abi" + sig, vals)
def m_encode_params(I, st, fn, a):
    t = self_ty(fn); v = deep(I, st, a[0]); s = solname(t)
    if t.k != "tuple": return Str.tagged("abi1" + s, [v]) if not is_static(s) else Str(enc_static(s, v))
    return abi_params(s, v.f)
def m_encode(I, st, fn, a):
    t = self_ty(fn); v = deep(I, st, a[0]); s = solname(t)
    if is_static(s): return Str(enc_static(s, v))
    if t.k == "tuple": return Str.tagged("abiw" + s, v.f)
    return Str.tagged("abiw(" + s + ")", [v])
def packed(s, v):
    if s.startswith("("):
        out = []
        for x, y in zip(split_sig(s[1:-1]), v.f): out += packed(x, y)
        return out
    if s.startswith("bytes") and s != "bytes": return [("w", scalar_of(v, None) if isinstance(v, (Str, Arr, Agg)) else v, int(s[5:]))]
    if s == "address": return [("w", v, 20)]
    if s == "bool": return [("w", ite(v, 1, 0), 1)]
    if s.startswith("uint") and not s.endswith("]"): return [("w", v, int(s[4:]) // 8)]
    if s in ("bytes", "string"): return list(to_str(v).p)
    raise Unsupported(f"packed {s}")
def m_encode_packed(I, st, fn, a):
    t = self_ty(fn); v = deep(I, st, a[0]); return Str(packed(solname(t), v))
def dec_vals(I, s, i, pre):
    """decoded value of sol type s from string id i"""
    if s.startswith("("): return Agg(None, 0, [dec_vals(I, x, i, f"{pre}.{k}") for k, x in enumerate(split_sig(s[1:-1]))])
    f = lambda srt: z3.Function(pre, z3.IntSort(), srt)(zint(i))
    if s == "bool": return f(z3.BoolSort())
    if s in ("bytes", "string"): return opaque(I, f(z3.IntSort()))
    if s.endswith("[]"): raise Unsupported("decode of array")
    bits = 160 if s == "address" else int(s[4:]) if s.startswith("uint") else 8 * int(s[5:])
    t = f(z3.IntSort()); I.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << bits))); return t
def dec(I, sig, data):
    """(ok condition, decoded tuple) of ABI-decoding `data` as parameters `sig`"""
    i = ident(to_str(data))
    return z3.Function("dec_ok" + sig, z3.IntSort(), z3.BoolSort())(zint(i)), dec_vals(I, sig, i, "dec" + sig)
def m_decode_params(I, st, fn, a):
    t = self_ty(fn); s = solname(t); data = I.deref(st, a[0]); o, v = dec(I, s, data); rt = rty(fn)
    okty = rt.targs()[0]
    if isinstance(v, Agg) and okty.k == "tuple": v = Agg(okty, 0, v.f)
    return [ret(st2, ok(rt, v) if b else err(rt, Opq("decode-error"))) for st2, b in I.fork(st, o)]
def m_solcall_encode(I, st, fn, a):
    t = self_ty(fn); v = deep(I, st, a[0])
    from bytesv import keccak256
    name = t.name.split("::")[-1]
    if not name.endswith("Call"): raise Unsupported(f"SolCall {t}")
    sig = "(" + ",".join(rustsol(x) for _, x in t.fields()) + ")"
    sel = keccak256((name[:-4] + sig).encode())[:4]
    return Str([("c", sel)] + list(abi_params(sig, v.f).p))
def m_err_encode(I, st, fn, a):
    v = deep(I, st, a[0])
    try: return opaque(I, uf_of("errenc", [v]))
    except Unsupported: return opaque(I, I.fresh("errenc"))

# ---------------------------------------------------------------- ruint / fixed bytes
def bits_of(fn):
    for g in fn.gargs():
        if isinstance(g, int): return g
    t = rty(fn)
    if leaf(t): return leaf(t)[1]
    raise Unsupported(f"bits of {fn.name}")
def R(f):
    """model over scalar args with bit width"""
    def h(I, st, fn, a): return f(I, st, fn, bits_of(fn), *[sc(I, st, x) for x in a])
    return h
W = lambda n: 1 << n
def w_add(n, a, b):
    x = add(a, b)
    return x % W(n) if isinstance(x, int) else simp_int(z3.If(x >= W(n), x - W(n), x))
def w_sub(n, a, b):
    x = sub(a, b)
    return x % W(n) if isinstance(x, int) else simp_int(z3.If(x < 0, x + W(n), x))
def w_mul(n, a, b):
    x = mul(a, b); return x % W(n) if isinstance(x, int) else mod(x, W(n))
def bin_assign(f):
    def h(I, st, fn, a):
        n = bits_of(fn); x = sc(I, st, a[0]); y = sc(I, st, a[1])
        r = f(I, st, n, x, y)
        if isinstance(r, list):
            out = []
            for s, o in r:
                if o[0] == "ret": I.write_ref(s, a[0], o[1]); out.append(ret(s, UNIT))
                else: out.append((s, o))
            return out
        I.write_ref(st, a[0], r); return UNIT
    return h
def q_div(I, st, a, b):
    """a / b; a contract may supply a named quotient with lemma instances about it"""
    if I.div_hook is not None:
        q = I.div_hook(I, st, a, b)
        if q is not None: return q
    return div(a, b)
def r_div(I, st, n, a, b): return [panic(s, "division by zero") if z else ret(s, q_div(I, s, a, b)) for s, z in I.fork(st, eq(b, 0))]
def r_rem(I, st, n, a, b): return [panic(s, "division by zero") if z else ret(s, mod(a, b)) for s, z in I.fork(st, eq(b, 0))]
def pow2(I, b, bits):
    if isinstance(b, int): return 1 << b
    t = z3.Function("pow2", z3.IntSort(), z3.IntSort())(zint(b))
    I.facts.append(z3.And(t >= 1, *[z3.Implies(zint(b) == k, t == (1 << k)) for k in range(bits)]))
    return t
def r_shl(I, st, n, a, b):
    if isinstance(b, int): return 0 if b >= n else mod(mul(a, W(b)), W(n))
    return ite(ge(b, n), 0, mod(mul(a, pow2(I, b, n)), W(n)))
def r_shr(I, st, n, a, b):
    if isinstance(b, int): return 0 if b >= n else div(a, W(b))
    return ite(ge(b, n), 0, div(a, pow2(I, b, n)))
def word_bit(I, x, j):
    """bit j of x"""
    return eq(mod(div(x, pow2(I, j, 256)), 2), 1)
def r_checked(op):
    def h(I, st, fn, a):
        n = bits_of(fn); x, y = sc(I, st, a[0]), sc(I, st, a[1]); t = rty(fn)
        if op == "add": v = add(x, y); c = lt(v, W(n))
        elif op == "sub": v = sub(x, y); c = ge(v, 0)
        elif op == "mul": v = mul(x, y); c = lt(v, W(n))
        elif op in ("div", "rem"):
            c = Not(eq(y, 0))
            return [ret(s, some(t, q_div(I, s, x, y) if op == "div" else mod(x, y)) if b else none(t)) for s, b in I.fork(st, c)]
        elif op == "pow":
            v = ipow(I, x, y); c = lt(v, W(n))
        return fork_opt(I, st, c, t, v)
    return h
def r_wpow(I, n, x, y):
    v = ipow(I, x, y); return v % W(n) if isinstance(v, int) else mod(v, W(n))
def ipow(I, x, y):
    y = simp_int(y)
    if isinstance(y, int):
        if isinstance(x, int): return x ** y
        if y <= 8:
            r = 1
            for _ in range(y): r = mul(r, x)
            return r
    t = uf_of("pow", [x, y]); I.facts.append(t >= 0)
    if isinstance(x, int) and x >= 2:   # monotone table, up to the 512-bit range
        y_ = zint(y); I.facts.append(t >= 1); k = 0
        while x ** k < (1 << 512): k += 1
        I.facts.append(z3.Or(z3.And(y_ >= k, t >= x ** k), *[z3.And(y_ == j, t == x ** j) for j in range(k)]))
    return t
def r_overflowing(op):
    def h(I, st, fn, a):
        n = bits_of(fn); x, y = sc(I, st, a[0]), sc(I, st, a[1])
        ex = {"add": add, "sub": sub, "mul": mul}[op](x, y); w = {"add": w_add, "sub": w_sub, "mul": w_mul}[op](n, x, y)
        return Agg(rty(fn), 0, [w, Or(lt(ex, 0), ge(ex, W(n)))])
    return h
def r_saturating(op):
    def h(I, st, fn, a):
        n = bits_of(fn); x, y = sc(I, st, a[0]), sc(I, st, a[1])
        ex = {"add": add, "sub": sub, "mul": mul}[op](x, y)
        return ite(lt(ex, 0), 0, ite(ge(ex, W(n)), W(n) - 1, ex))
    return h
def intval(I, st, v):
    v = sc(I, st, v)
    if isinstance(v, bool) or z3.is_bool(v): return ite(v, 1, 0)
    return v
def r_from(I, st, fn, a):
    n = bits_of(fn); v = intval(I, st, a[0])
    return fork_panic(I, st, Or(lt(v, 0), ge(v, W(n))), "Uint::from out of range", v)
def r_to(I, st, fn, a):
    t = rty(fn); lf = leaf(t)
    if not lf: raise Unsupported(f"Uint::to {t}")
    v = sc(I, st, a[0]); hi = 1 << (lf[1] - (1 if lf[0] is True else 0))
    if lf[0] == "bool": return fork_panic(I, st, gt(v, 1), "Uint::to", eq(v, 1))
    return fork_panic(I, st, ge(v, hi), "Uint::to out of range", v)
def r_try(I, st, fn, a):
    t = rty(fn); to = t.targs()[0]; lf = leaf(to); v = intval(I, st, a[0])
    if not lf: raise Unsupported(f"try conversion to {to}")
    hi = 1 << (lf[1] - (1 if lf[0] is True else 0)); lo = -hi if lf[0] is True else 0
    return [ret(s, ok(t, v) if b else err(t, Opq("range-error"))) for s, b in I.fork(st, And(le(lo, v), lt(v, hi)))]
def r_wrapto(I, st, fn, a):
    lf = leaf(rty(fn)); v = intval(I, st, a[0]); return mod(v, W(lf[1])) if not isinstance(v, int) else v % W(lf[1])
def r_satto(I, st, fn, a):
    lf = leaf(rty(fn)); v = intval(I, st, a[0]); return ite(ge(v, W(lf[1])), W(lf[1]) - 1, v)
def r_cmp(I, st, fn, a): return ORD(sc(I, st, a[0]), sc(I, st, a[1]))
def r_pcmp(I, st, fn, a): return some(rty(fn), ORD(sc(I, st, a[0]), sc(I, st, a[1])))
CMP = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": lambda a, b: Not(eq(a, b))}
def scmp(op):
    def h(I, st, fn, a):
        x, y = sc(I, st, a[0]), sc(I, st, a[1])
        if isinstance(x, bool) or z3.is_bool(x): x, y = (x, y) if op in ("eq", "ne") else (ite(x, 1, 0), ite(y, 1, 0))
        return CMP[op](x, y)
    return h
def r_limbs(I, st, fn, a):
    l = I.deref(st, a[0]); t = 0; n = bits_of(fn)
    if isinstance(l, SymSeq): raise Unsupported("from_limbs of symbolic sequence")
    for j, x in enumerate(l.e): t = add(t, mul(x, 1 << (64 * j)))
    return fork_panic(I, st, ge(t, W(n)), "from_limbs", t)
def be_slice(I, st, fn, a):
    s = to_str(I.deref(st, a[0])); n = bits_of(fn)
    if s.fixed() and not isinstance(s.length(), int) : raise Unsupported("be_slice")
    if s.fixed(): v = as_int(s)
    else:
        v = z3.Function("be_int", z3.IntSort(), z3.IntSort())(zint(ident(s))); I.facts.append(v >= 0)
        L = s.length()
        I.facts.append(z3.Implies(zint(L) * 8 <= n, v < W(n)))
        I.facts.append(z3.Implies(zint(L) == 0, v == 0))
        if ident(s).get_id() in I.short: I.facts.append((v == 1) == reads_true(I, s))
    t = rty(fn)
    if t.k == "adt" and t.name == "std::option::Option": return fork_opt(I, st, lt(v, W(n)), t, v)
    return fork_panic(I, st, ge(v, W(n)), "from_be_slice", v)
def be_bytes(I, st, fn, a):
    t = rty(fn); n = t.d["n"] if t.k == "array" else bits_of(fn) // 8
    return Str.word(sc(I, st, a[0]), n)
def from_be_bytes(I, st, fn, a):
    v = I.deref(st, a[0]); return scalar_of(v, None)
RUINT = {
    "wrapping_add": R(lambda I, st, f, n, a, b: w_add(n, a, b)), "wrapping_sub": R(lambda I, st, f, n, a, b: w_sub(n, a, b)),
    "wrapping_mul": R(lambda I, st, f, n, a, b: w_mul(n, a, b)),
    "wrapping_neg": R(lambda I, st, f, n, a: w_sub(n, 0, a)), "neg": R(lambda I, st, f, n, a: w_sub(n, 0, a)),
    "add": R(lambda I, st, f, n, a, b: w_add(n, a, b)), "sub": R(lambda I, st, f, n, a, b: w_sub(n, a, b)),
    "mul": R(lambda I, st, f, n, a, b: w_mul(n, a, b)),
    "div": R(lambda I, st, f, n, a, b: r_div(I, st, n, a, b)), "rem": R(lambda I, st, f, n, a, b: r_rem(I, st, n, a, b)),
    "wrapping_div": R(lambda I, st, f, n, a, b: r_div(I, st, n, a, b)), "wrapping_rem": R(lambda I, st, f, n, a, b: r_rem(I, st, n, a, b)),
    "div_ceil": R(lambda I, st, f, n, a, b: [panic(s, "division by zero") if z else ret(s, ite(eq(mod(a, b), 0), div(a, b), add(div(a, b), 1))) for s, z in I.fork(st, eq(b, 0))]),
    "div_rem": R(lambda I, st, f, n, a, b: [panic(s, "division by zero") if z else ret(s, Agg(rty(f), 0, [div(a, b), mod(a, b)])) for s, z in I.fork(st, eq(b, 0))]),
    "add_assign": bin_assign(lambda I, st, n, a, b: w_add(n, a, b)), "sub_assign": bin_assign(lambda I, st, n, a, b: w_sub(n, a, b)),
    "mul_assign": bin_assign(lambda I, st, n, a, b: w_mul(n, a, b)),
    "div_assign": bin_assign(r_div), "rem_assign": bin_assign(r_rem),
    "shl": R(lambda I, st, f, n, a, b: r_shl(I, st, n, a, b)), "shr": R(lambda I, st, f, n, a, b: r_shr(I, st, n, a, b)),
    "wrapping_shl": R(lambda I, st, f, n, a, b: r_shl(I, st, n, a, b)), "wrapping_shr": R(lambda I, st, f, n, a, b: r_shr(I, st, n, a, b)),
    "shl_assign": bin_assign(r_shl), "shr_assign": bin_assign(r_shr),
    "bitand": R(lambda I, st, f, n, a, b: I.bitop("BitAnd", a, b, n)), "bitor": R(lambda I, st, f, n, a, b: I.bitop("BitOr", a, b, n)),
    "bitxor": R(lambda I, st, f, n, a, b: I.bitop("BitXor", a, b, n)), "not": R(lambda I, st, f, n, a: sub(W(n) - 1, a)),
    "bitand_assign": bin_assign(lambda I, st, n, a, b: I.bitop("BitAnd", a, b, n)), "bitor_assign": bin_assign(lambda I, st, n, a, b: I.bitop("BitOr", a, b, n)),
    "bitxor_assign": bin_assign(lambda I, st, n, a, b: I.bitop("BitXor", a, b, n)),
    "checked_add": r_checked("add"), "checked_sub": r_checked("sub"), "checked_mul": r_checked("mul"), "checked_div": r_checked("div"),
    "checked_rem": r_checked("rem"), "checked_pow": r_checked("pow"),
    "overflowing_add": r_overflowing("add"), "overflowing_sub": r_overflowing("sub"), "overflowing_mul": r_overflowing("mul"),
    "saturating_add": r_saturating("add"), "saturating_sub": r_saturating("sub"), "saturating_mul": r_saturating("mul"),
    "is_zero": R(lambda I, st, f, n, a: eq(a, 0)), "from_limbs": r_limbs, "from": r_from, "to": r_to, "wrapping_to": r_wrapto, "wrapping_from": r_wrapto,
    "saturating_to": r_satto, "saturating_from": r_satto, "uint_try_from": r_try, "uint_try_to": r_try, "try_from": r_try, "try_into": r_try,
    "cmp": r_cmp, "partial_cmp": r_pcmp, "eq": scmp("eq"), "ne": scmp("ne"), "lt": scmp("lt"), "le": scmp("le"), "gt": scmp("gt"), "ge": scmp("ge"),
    "clone": lambda I, st, f, a: sc(I, st, a[0]), "from_be_slice": be_slice, "try_from_be_slice": be_slice,
    "to_be_bytes": be_bytes, "to_be_bytes_vec": be_bytes, "from_be_bytes": from_be_bytes, "abs_diff": R(lambda I, st, f, n, a, b: ite(lt(a, b), sub(b, a), sub(a, b))),
    "min": R(lambda I, st, f, n, a, b: ite(le(a, b), a, b)), "max": R(lambda I, st, f, n, a, b: ite(lt(a, b), b, a)),
    "default": lambda I, st, f, a: 0, "bit": R(lambda I, st, f, n, a, b: ite(ge(b, n), False, eq(mod(div(a, pow2(I, b, n)), 2), 1))),
    "mul_mod": R(lambda I, st, f, n, a, b, m: ite(eq(m, 0), 0, mod(mul(a, b), m))), "add_mod": R(lambda I, st, f, n, a, b, m: ite(eq(m, 0), 0, mod(add(a, b), m))),
    "reduce_mod": R(lambda I, st, f, n, a, m: ite(eq(m, 0), 0, mod(a, m))),
    "pow": R(lambda I, st, f, n, a, b: r_wpow(I, n, a, b)), "wrapping_pow": R(lambda I, st, f, n, a, b: r_wpow(I, n, a, b)),
}
FB = {
    "is_zero": lambda I, st, f, a: eq(sc(I, st, a[0]), 0), "clone": lambda I, st, f, a: sc(I, st, a[0]), "eq": scmp("eq"), "ne": scmp("ne"),
    "cmp": r_cmp, "partial_cmp": r_pcmp, "lt": scmp("lt"), "le": scmp("le"), "gt": scmp("gt"), "ge": scmp("ge"), "default": lambda I, st, f, a: 0,
}
def fb_slice(I, st, fn, a):
    """reference to the bytes of a FixedBytes/Address"""
    v = I.deref(st, a[0])
    if isinstance(v, Str): return a[0]
    n = None
    t = fn.local_ty(1) if fn.bb is not None else fn.arg_tys()[0]
    while t.k in ("ref", "ptr"): t = t.elem()
    n = leaf(t)[1] // 8
    r = I.deref_ref(st, a[0])
    if isinstance(r, Ref): return Ref(r.cell, r.path + (("fb", n),))
    return Ref(st.new_cell(Str.word(v, n)))
def fb_from_slice(I, st, fn, a):
    v = I.deref(st, a[0]); t = rty(fn); n = leaf(t)[1] // 8
    s = to_str(v); L = s.length()
    if isinstance(L, int): return as_int(s) if L == n else [panic(st, "from_slice length")]
    val = z3.Function(f"be{n}", z3.IntSort(), z3.IntSort())(zint(ident(s))); I.facts.append(z3.And(val >= 0, val < W(8 * n)))
    return fork_panic(I, st, Not(eq(L, n)), "from_slice length", val)
def tail20(I, out):
    """the last 20 bytes of a 32-byte return value, as an address"""
    s = to_str(out).slice(I, 12, 32)
    if s.fixed(): return as_int(s)
    v = z3.Function("be20", z3.IntSort(), z3.IntSort())(zint(ident(s))); I.facts.append(z3.And(v >= 0, v < W(160))); return v
def dec_str(I, x):
    """decimal representation"""
    if isinstance(x, int): return Str([("c", str(x).encode())])
    s = opaque(I, uf_of("decimal", [x])); I.facts.append(zint(s.length()) >= 1); return s
def fb_word(I, st, fn, a): return sc(I, st, a[0])
def addr_from_word(I, st, fn, a): return mod(sc(I, st, a[0]), W(160))

# ---------------------------------------------------------------- sequences, vec, slices
def seq(I, st, v): return I.deref(st, v)
def is_u8(t): return leaf(t) == (False, 8) and t.k == "uint"
def elem_u8(fn):
    for g in fn.gargs():
        if isinstance(g, Ty): return is_u8(g)
    return False
def vec_new(I, st, fn, a):
    t = rty(fn)
    et = t.targs()[0] if t.name == "std::vec::Vec" else None
    return Str([]) if t.name == "std::string::String" or is_u8(et) else Arr(())
def vec_from_box(I, st, fn, a):
    v = I.deref(st, a[0])
    t = rty(fn)
    if t.k == "adt" and t.name == "std::vec::Vec" and is_u8(t.targs()[0]): return to_str(v)
    return v
def cat_vals(I, a, b):
    if isinstance(a, Str) or isinstance(b, Str): return to_str(a).cat(to_str(b))
    if isinstance(a, Arr) and isinstance(b, Arr): return Arr(a.e + b.e)
    if isinstance(a, Arr) and not a.e: return b
    if isinstance(b, Arr) and not b.e: return a
    la = I.seq_len(a)
    def at(k):
        c = simp_bool(lt(k, la))
        if c is True: return I.seq_get(a, k)
        y = b.e[0] if isinstance(b, Arr) and len(b.e) == 1 else I.seq_get(b, sub(k, la))
        return y if c is False else ite_val(c, I.seq_get(a, k), y)
    return SymSeq(at, add(la, I.seq_len(b)))
def vec_push(I, st, fn, a):
    v = seq(I, st, a[0]); x = a[1]
    nv = v.cat(Str([("w", x, 1)])) if isinstance(v, Str) else Arr(v.e + (x,)) if isinstance(v, Arr) else cat_vals(I, v, Arr((x,)))
    write_through(I, st, a[0], nv); return UNIT
def write_through(I, st, r, v):
    r = I.deref_ref(st, r)
    I.write_ref(st, r, v)
def vec_pop(I, st, fn, a):
    v = seq(I, st, a[0]); t = rty(fn); n = I.seq_len(v); out = []
    for s, b in I.fork(st, gt(n, 0)):
        if not b: out.append(ret(s, none(t))); continue
        x = I.seq_get(v, sub(n, 1)); write_through(I, s, a[0], I.seq_slice(v, 0, sub(n, 1))); out.append(ret(s, some(t, x)))
    return out
def vec_extend(I, st, fn, a):
    v = seq(I, st, a[0]); it = a[1]
    src = I.deref(st, it)
    if isinstance(src, IterV): src = iter_seq(I, st, src)
    if isinstance(src, Agg): 
        items = drain(I, st, fn, a[1]);
        raise Unsupported("extend from adapter")
    write_through(I, st, a[0], cat_vals(I, v, deep(I, st, src))); return UNIT
def s_len(I, st, fn, a): return I.seq_len(seq(I, st, a[0]))
def s_isempty(I, st, fn, a): return eq(I.seq_len(seq(I, st, a[0])), 0)
def s_contains(I, st, fn, a):
    v = seq(I, st, a[0]); n = I.seq_len(v); x = deep(I, st, a[1])
    if not isinstance(n, int): raise Unsupported("contains on a slice of unknown length")
    return Or(*[val_eq(I.seq_get(v, i), x) for i in range(n)])
def s_clone(I, st, fn, a): return deep(I, st, a[0])
def elem_ref(I, st, r, i):
    r = I.deref_ref(st, r)
    if isinstance(r, Ref): return Ref(r.cell, r.path + (("i", i),))
    return Ref(st.new_cell(I.seq_get(I.deref(st, r), i)))
def sub_ref(I, st, r, a, b):
    r = I.deref_ref(st, r)
    if isinstance(r, Ref): return Ref(r.cell, r.path + (("s", a, b),))
    return Ref(st.new_cell(I.seq_slice(I.deref(st, r), a, b)))
def s_index(I, st, fn, a):
    """Index/IndexMut by usize or a range"""
    v = seq(I, st, a[0]); n = I.seq_len(v); idx = I.deref(st, a[1])
    if isinstance(idx, Agg):
        nm = idx.ty.name.split("::")[-1]
        if nm == "Range": lo, hi = idx.f
        elif nm == "RangeFrom": lo, hi = idx.f[0], n
        elif nm == "RangeTo": lo, hi = 0, idx.f[0]
        elif nm == "RangeFull": lo, hi = 0, n
        elif nm == "RangeInclusive": lo, hi = idx.f[0], add(idx.f[1], 1)
        else: raise Unsupported(f"index by {idx.ty}")
        return [ret(s, sub_ref(I, s, a[0], lo, hi)) if b else panic(s, "slice index") for s, b in I.fork(st, And(le(lo, hi), le(hi, n)))]
    return [ret(s, elem_ref(I, s, a[0], idx)) if b else panic(s, "index out of bounds") for s, b in I.fork(st, lt(idx, n))]
def s_get_opt(I, st, fn, a):
    v = seq(I, st, a[0]); n = I.seq_len(v); idx = I.deref(st, a[1]); t = rty(fn)
    if isinstance(idx, Agg):
        nm = idx.ty.name.split("::")[-1]
        lo, hi = {"Range": lambda: idx.f, "RangeFrom": lambda: (idx.f[0], n), "RangeTo": lambda: (0, idx.f[0])}[nm]()
        return [ret(s, some(t, sub_ref(I, s, a[0], lo, hi)) if b else none(t)) for s, b in I.fork(st, And(le(lo, hi), le(hi, n)))]
    return [ret(s, some(t, elem_ref(I, s, a[0], idx)) if b else none(t)) for s, b in I.fork(st, lt(idx, n))]
def s_first(I, st, fn, a):
    t = rty(fn); n = I.seq_len(seq(I, st, a[0]))
    return [ret(s, some(t, elem_ref(I, s, a[0], 0)) if b else none(t)) for s, b in I.fork(st, gt(n, 0))]
def s_last(I, st, fn, a):
    t = rty(fn); n = I.seq_len(seq(I, st, a[0]))
    return [ret(s, some(t, elem_ref(I, s, a[0], sub(n, 1))) if b else none(t)) for s, b in I.fork(st, gt(n, 0))]
def s_split_last(I, st, fn, a):
    t = rty(fn); n = I.seq_len(seq(I, st, a[0])); out = []
    for s, b in I.fork(st, gt(n, 0)):
        out.append(ret(s, some(t, Agg(None, 0, [elem_ref(I, s, a[0], sub(n, 1)), sub_ref(I, s, a[0], 0, sub(n, 1))])) if b else none(t)))
    return out
def s_split_first(I, st, fn, a):
    t = rty(fn); n = I.seq_len(seq(I, st, a[0])); out = []
    for s, b in I.fork(st, gt(n, 0)):
        out.append(ret(s, some(t, Agg(None, 0, [elem_ref(I, s, a[0], 0), sub_ref(I, s, a[0], 1, n)])) if b else none(t)))
    return out
def s_copy_from(I, st, fn, a):
    d = seq(I, st, a[0]); s_ = deep(I, st, a[1]); nd, ns = I.seq_len(d), I.seq_len(s_); out = []
    for s, b in I.fork(st, eq(nd, ns)):
        if not b: out.append(panic(s, "copy_from_slice length")); continue
        write_through(I, s, a[0], s_); out.append(ret(s, UNIT))
    return out
def seq_eq_m(neg):
    def h(I, st, fn, a):
        x, y = deep(I, st, a[0]), deep(I, st, a[1])
        r = val_eq(x, y); return Not(r) if neg else r
    return h
def s_swap(I, st, fn, a):
    x = I.read_loc(st, ("cell", *(lambda r: (r.cell, r.path))(elem_ref(I, st, a[0], a[1]))))
    y = I.read_loc(st, ("cell", *(lambda r: (r.cell, r.path))(elem_ref(I, st, a[0], a[2]))))
    I.write_ref(st, elem_ref(I, st, a[0], a[1]), y); I.write_ref(st, elem_ref(I, st, a[0], a[2]), x); return UNIT
def s_concat(I, st, fn, a):
    v = deep(I, st, a[0]); 
    if not isinstance(v, Arr): raise Unsupported("concat of symbolic sequence")
    r = None
    for x in v.e: r = x if r is None else cat_vals(I, r, x)
    t = rty(fn)
    if r is None: return vec_new(I, st, fn, a)
    return r
def to_vec(I, st, fn, a):
    v = deep(I, st, a[0]); t = rty(fn)
    if t.k == "adt" and t.name == "std::vec::Vec" and is_u8(t.targs()[0]): return to_str(v)
    return v
def truncate(I, st, fn, a):
    v = seq(I, st, a[0]); n = I.seq_len(v); k = a[1]; out = []
    for s, b in I.fork(st, lt(k, n)):
        if b: write_through(I, s, a[0], I.seq_slice(v, 0, k))
        out.append(ret(s, UNIT))
    return out
# iterators -------------------------------------------------------
def it_new(I, st, fn, a):
    """slice iterator: yields references"""
    v = seq(I, st, a[0]); return IterV("slice", src=I.deref_ref(st, a[0]), i=0, n=I.seq_len(v))
def into_iter(I, st, fn, a):
    v = a[0]
    if isinstance(v, (Arr, Str, SymSeq)): return IterV("own", src=Ref(st.new_cell(v)), i=0, n=I.seq_len(v))
    if isinstance(v, (Ref,)):
        w = I.deref(st, v)
        if isinstance(w, (Arr, Str, SymSeq)): return IterV("slice", src=I.deref_ref(st, v), i=0, n=I.seq_len(w))
    return v
def iter_item(I, st, it, k):
    e = elem_ref(I, st, it.f["src"], k)
    if it.kind == "slice": return e
    return I.deref1(st, e)
def iter_seq(I, st, it):
    """the remaining items as a value sequence"""
    if it.kind in ("slice", "own"):
        return I.seq_slice(deep(I, st, it.f["src"]), it.f["i"], it.f["n"])
    raise Unsupported(f"iterator {it.kind} as sequence")
def it_next(I, st, fn, a):
    r = I.deref_ref(st, a[0]); it = I.deref(st, r); t = rty(fn)
    if not isinstance(it, IterV): raise Unsupported(f"next on {it}")
    out = []
    for s, b in I.fork(st, lt(it.f["i"], it.f["n"])):
        if not b: out.append(ret(s, none(t))); continue
        x = iter_item(I, s, it, it.f["i"]); I.write_ref(s, r, it.upd(i=add(it.f["i"], 1))); out.append(ret(s, some(t, x)))
    return out
def it_next_back(I, st, fn, a):
    r = I.deref_ref(st, a[0]); it = I.deref(st, r); t = rty(fn); out = []
    for s, b in I.fork(st, lt(it.f["i"], it.f["n"])):
        if not b: out.append(ret(s, none(t))); continue
        k = sub(it.f["n"], 1); x = iter_item(I, s, it, k); I.write_ref(s, r, it.upd(n=k)); out.append(ret(s, some(t, x)))
    return out
def it_len(I, st, fn, a):
    it = I.deref(st, a[0])
    if not isinstance(it, IterV): raise Unsupported("ExactSizeIterator::len")
    return sub(it.f["n"], it.f["i"])
def zip_new(I, st, fn, a):
    x = into_iter(I, st, fn, [a[0]]); y = into_iter(I, st, fn, [a[1]])
    return Agg(rty(fn), 0, [x, y])       # Zip{a,b,..}: only a and b are used
def next_of(I, st, ity, cell):
    """call <ity as Iterator>::next on the iterator in `cell`"""
    v = I.deref(st, Ref(cell))
    fn = find_next(I, ity)
    return I.call(st, fn, [Ref(cell)])
def find_next(I, ity, meth="next"):
    key = ("next", ity.id, meth)
    c = getattr(I.m, "_nextcache", None)
    if c is None: c = I.m._nextcache = {}
    if key not in c:
        r = None
        for f in I.m.fns.values():
            if f.name.endswith("::" + meth) and "Iterator" in f.defname and f.bb is not None and f.nargs == 1:
                t = f.local_ty(1)
                if t.k == "ref" and t.elem().id == ity.id: r = f; break
            elif f.name.endswith("::" + meth) and f.bb is None and "sig" in f.d and len(f.arg_tys()) == 1:
                t = f.arg_tys()[0]
                if t.k == "ref" and t.elem().id == ity.id: r = f; break
        c[key] = r
    if c[key] is None: raise Unsupported(f"Iterator::{meth} for {ity} not exported")
    return c[key]
def fn_of(x): return None
def it_step(I, st, itv_ref):
    """generic next on an iterator value: IterV, Zip, Map, Rev, Enumerate, Range ... -> [(st, item|None)]"""
    it = I.deref(st, itv_ref)
    if isinstance(it, IterV):
        out = []
        for s, b in I.fork(st, lt(it.f["i"], it.f["n"])):
            if not b: out.append((s, None)); continue
            x = iter_item(I, s, it, it.f["i"]); I.write_ref(s, itv_ref, it.upd(i=add(it.f["i"], 1))); out.append((s, x))
        return out
    if isinstance(it, Agg) and isinstance(it.ty, Ty):
        n = it.ty.name.split("::")[-1]
        fld = lambda k: Ref(itv_ref.cell, itv_ref.path + (("f", k, it.ty),))
        if n == "Zip":
            out = []
            for s, x in it_step(I, st, fld(0)):
                if x is None: out.append((s, None)); continue
                for s2, y in it_step(I, s, fld(1)):
                    out.append((s2, None if y is None else Agg(None, 0, [x, y])))
            return out
        if n == "Rev":
            inner = I.deref(st, fld(0))
            if isinstance(inner, IterV):
                out = []
                for s, b in I.fork(st, lt(inner.f["i"], inner.f["n"])):
                    if not b: out.append((s, None)); continue
                    k = sub(inner.f["n"], 1); x = iter_item(I, s, inner, k); I.write_ref(s, fld(0), inner.upd(n=k)); out.append((s, x))
                return out
            if isinstance(inner, Agg) and inner.ty.name.endswith("Range"):
                out = []
                for s, b in I.fork(st, lt(inner.f[0], inner.f[1])):
                    if not b: out.append((s, None)); continue
                    k = sub(inner.f[1], 1); I.write_ref(s, fld(0), Agg(inner.ty, 0, [inner.f[0], k])); out.append((s, k))
                return out
        if n == "Enumerate":
            out = []
            for s, x in it_step(I, st, fld(0)):
                if x is None: out.append((s, None)); continue
                c = I.deref(s, fld(1)); I.write_ref(s, fld(1), add(c, 1)); out.append((s, Agg(None, 0, [c, x])))
            return out
        if n in ("Copied", "Cloned"):
            return [(s, None if x is None else deep(I, s, x)) for s, x in it_step(I, st, fld(0))]
        if n == "Range" and len(it.f) == 2:
            out = []
            for s, b in I.fork(st, lt(it.f[0], it.f[1])):
                if not b: out.append((s, None)); continue
                I.write_ref(s, itv_ref, Agg(it.ty, 0, [add(it.f[0], 1), it.f[1]])); out.append((s, it.f[0]))
            return out
        if n == "Map":
            out = []
            for s, x in it_step(I, st, fld(0)):
                if x is None: out.append((s, None)); continue
                for s2, o in call_value(I, s, fld(1), [x]):
                    if o[0] != "ret": raise Unsupported("panic in map closure")
                    out.append((s2, o[1]))
            return out
        if n in ("Filter", "FilterMap", "TakeWhile"):
            out = []; work = [st]
            for _ in range(4000):
                if not work: return out
                s = work.pop()
                if n == "TakeWhile" and I.deref(s, fld(1)) is True: out.append((s, None)); continue
                for s2, x in it_step(I, s, fld(0)):
                    if x is None: out.append((s2, None)); continue
                    for s3, o in call_value(I, s2, fld(2 if n == "TakeWhile" else 1), [x if n == "FilterMap" else Ref(s2.new_cell(x))]):
                        if o[0] != "ret": raise Unsupported(f"panic in {n} closure")
                        if n == "FilterMap":
                            if o[1].vname == "Some": out.append((s3, o[1].f[0]))
                            else: work.append(s3)
                            continue
                        for s4, b in I.fork(s3, o[1]):
                            if b: out.append((s4, x))
                            elif n == "TakeWhile": I.write_ref(s4, fld(1), True); out.append((s4, None))
                            else: work.append(s4)
            raise Unsupported("filter too long")
        if n == "Skip":
            k = simp_int(I.deref(st, fld(1)))
            if not isinstance(k, int) or k > 4000: raise Unsupported("Skip")
            I.write_ref(st, fld(1), 0); live = [st]; out = []
            for _ in range(k):
                nx = []
                for s in live:
                    for s2, x in it_step(I, s, fld(0)): (out.append((s2, None)) if x is None else nx.append(s2))
                live = nx
            for s in live: out += it_step(I, s, fld(0))
            return out
        if n == "Chain":
            out = []; a = I.deref(st, fld(0)); b = I.deref(st, fld(1)); live = [st]
            sub_ = lambda k, t: Ref(itv_ref.cell, itv_ref.path + (("f", k, it.ty), ("f", 0, t)))
            if a.vname == "Some":
                live = []
                for s, x in it_step(I, st, sub_(0, a.ty)):
                    if x is None: I.write_ref(s, fld(0), none(a.ty)); live.append(s)
                    else: out.append((s, x))
            for s in live:
                if b.vname != "Some": out.append((s, None))
                else: out += it_step(I, s, sub_(1, b.ty))
            return out
        if it.ty.name == "std::option::Option":      # into_iter of an option keeps the option
            if it.vname == "None": return [(st, None)]
            I.write_ref(st, itv_ref, none(it.ty)); return [(st, it.f[0])]
        if it.ty.name in ("std::option::IntoIter", "std::option::Item", "std::iter::Once", "std::option::Iter"):
            if len(it.f) == 1 and isinstance(it.f[0], Agg) and it.f[0].ty.name != "std::option::Option": return it_step(I, st, fld(0))
            o = it.f[0]
            if o.vname == "None": return [(st, None)]
            I.write_ref(st, fld(0), none(o.ty)); return [(st, o.f[0])]
        if n == "SkipWhile":
            out = []; work = [st]
            for _ in range(4000):
                if not work: return out
                s = work.pop()
                for s2, x in it_step(I, s, fld(0)):
                    if x is None: out.append((s2, None)); continue
                    if I.deref(s2, fld(1)) is True: out.append((s2, x)); continue
                    for s3, o in call_value(I, s2, fld(2), [Ref(s2.new_cell(x))]):
                        if o[0] != "ret": raise Unsupported("panic in skip_while closure")
                        for s4, b in I.fork(s3, o[1]):
                            if b: work.append(s4)
                            else: I.write_ref(s4, fld(1), True); out.append((s4, x))
            raise Unsupported("skip_while too long")
        if n in ("FlatMap", "Flatten"):
            inner = I.deref(st, fld(0)); iref = fld(0); ityp = inner.ty
            f2 = lambda k: Ref(iref.cell, iref.path + (("f", k, ityp),))
            out = []; work = [st]; out_n = 0
            for _ in range(4000):
                if not work: return out
                s = work.pop(); fr = I.deref(s, f2(1))
                if fr.vname == "Some":
                    c = Ref(s.new_cell(fr.f[0]))
                    for s2, x in it_step(I, s, c):
                        if x is None: I.write_ref(s2, f2(1), none(fr.ty)); work.append(s2)
                        else: I.write_ref(s2, f2(1), some(fr.ty, I.deref(s2, c))); out.append((s2, x))
                    continue
                fz = I.deref(s, f2(0)); op = fz.f[0]
                if op.vname == "None": out.append((s, None)); continue
                c = Ref(s.new_cell(op.f[0]))
                for s2, x in it_step(I, s, c):
                    I.write_ref(s2, f2(0), Agg(fz.ty, 0, [some(op.ty, I.deref(s2, c)) if x is not None else none(op.ty)]))
                    if x is None:
                        if I.deref(s2, f2(2)).vname != "None": raise Unsupported("flat_map from both ends")
                        out.append((s2, None))
                    else: I.write_ref(s2, f2(1), some(fr.ty, into_iter(I, s2, fn_of(x), [x]))); work.append(s2)
            raise Unsupported("flat_map too long")
        if n == "Take":
            out = []
            c = I.deref(st, fld(1))
            for s, b in I.fork(st, gt(c, 0)):
                if not b: out.append((s, None)); continue
                I.write_ref(s, fld(1), sub(c, 1)); out += it_step(I, s, fld(0))
            return out
    raise Unsupported(f"iterator step on {it}")
def call_value(I, st, cref, args):
    """call a closure (by reference) or a fn item"""
    c = I.deref(st, cref)
    if isinstance(c, FnV): return I.call(st, c.fn, args)
    if isinstance(c, Agg) and isinstance(c.ty, Ty) and c.ty.k == "closure":
        f = closure_body(I, c.ty)
        self_arg = cref if f.local_ty(1).k in ("ref", "ptr") else c
        if f.local_ty(1).k in ("ref", "ptr") and not isinstance(cref, Ref): self_arg = Ref(st.new_cell(c))
        return I.run(f, [self_arg] + list(args), st)
    raise Unsupported(f"call of {c}")
def closure_body(I, cty):
    c = getattr(I.m, "_clos", None)
    if c is None:
        c = I.m._clos = {}
        for f in I.m.fns.values():
            if f.bb is None or f.nargs < 1: continue
            t = f.local_ty(1)
            if t.k in ("ref", "ptr"): t = t.elem()
            if t.k == "closure" and CLOSURE_RE.search(f.name): c.setdefault(t.id, f)
    if cty.id not in c: raise Unsupported(f"closure body of {cty}")
    return c[cty.id]
def it_next_generic(I, st, fn, a):
    t = rty(fn); r = I.deref_ref(st, a[0])
    if isinstance(I.deref(st, r), IterV) or True:
        return [ret(s, none(t) if x is None else some(t, x)) for s, x in it_step(I, st, r)]
def sym_iter(I, st, cell):
    def look(v, d=0):
        if d > 5: return False
        if isinstance(v, IterV): return not isinstance(simp_int(sub(v.f["n"], v.f["i"])), int)
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.k == "adt":
            n = v.ty.name.split("::")[-1]
            if n == "Range": return not (isinstance(v.f[0], int) and isinstance(v.f[1], int))
            if n == "Zip": return look(v.f[0], d + 1) and look(v.f[1], d + 1)
            return look(v.f[0], d + 1)
        return False
    return look(I.deref(st, cell))
def consume(I, st, it, f):
    """drive an iterator value; f(st, item) -> list of (st, ('go',)|('stop',v)|('panic',m)); -> (done states, stopped)"""
    cell = it if isinstance(it, Ref) else Ref(st.new_cell(it))
    if I.cuts and sym_iter(I, st, cell):
        import loops as L
        def step(s, k):
            out = []
            for s2, x in it_step(I, s, cell):
                if x is None: out.append((s2, "exit")); continue
                for s3, o in f(s2, x): out.append((s3, "again") if o[0] == "go" else (s3, ("stop", o)))
            return out
        rec, ex = L.cut(I, st, step, "iterator")
        return [s for s, t in ex if t == "exit"], [(s, t[1]) for s, t in ex if t != "exit"]
    done = []; stop = []; work = [(st, 0)]
    while work:
        s, k = work.pop()
        if k > I.unroll: raise Unsupported("iterator consumption exceeds unrolling limit")
        for s2, x in it_step(I, s, cell):
            if x is None: done.append(s2); continue
            for s3, o in f(s2, x):
                if o[0] == "go": work.append((s3, k + 1))
                else: stop.append((s3, o))
    return done, stop
def it_fold(I, st, fn, a):
    acc = Ref(st.new_cell(a[1])); clo = Ref(st.new_cell(a[2])) if not isinstance(a[2], FnV) else a[2]
    def f(s, x):
        out = []
        for s2, o in call_value(I, s, clo, [I.deref1(s, acc), x]):
            if o[0] == "panic": out.append((s2, o))
            else: I.write_ref(s2, acc, o[1]); out.append((s2, ("go",)))
        return out
    d, p = consume(I, st, a[0], f)
    return [ret(s, I.deref1(s, acc)) for s in d] + p
def it_sum(I, st, fn, a):
    t = rty(fn); lf = leaf(t)
    if not lf: raise Unsupported(f"sum of {t}")
    acc = Ref(st.new_cell(0))
    def f(s, x):
        I.write_ref(s, acc, w_add(lf[1], I.deref1(s, acc), sc(I, s, x))); return [(s, ("go",))]
    d, p = consume(I, st, a[0], f)
    return [ret(s, I.deref1(s, acc)) for s in d] + p
def collect_sym(I, st, fn, a, t):
    """collect of an iterator of symbolic length whose items are a function of the position alone"""
    s = st.copy(); k = z3.Int("collect.k")
    def shift(v):
        if isinstance(v, IterV): return v.upd(i=add(v.f["i"], k))
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.name.split("::")[-1] == "Range": return Agg(v.ty, v.v, [add(v.f[0], k), v.f[1]])
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.name.split("::")[-1] in ("Zip",): return Agg(v.ty, v.v, [shift(v.f[0]), shift(v.f[1])])
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.name.split("::")[-1] in ("Map", "Copied", "Cloned"): return Agg(v.ty, v.v, [shift(v.f[0])] + list(v.f[1:]))
        raise Unsupported("collect of this iterator")
    def length(v):
        if isinstance(v, IterV): return sub(v.f["n"], v.f["i"])
        if v.ty.name.split("::")[-1] == "Range": return ite(lt(v.f[0], v.f[1]), sub(v.f[1], v.f[0]), 0)
        if v.ty.name.split("::")[-1] == "Zip": x, y = length(v.f[0]), length(v.f[1]); return ite(lt(x, y), x, y)
        return length(v.f[0])
    import loops as L
    try:
        n = length(a[0]); s.assume(And(ge(k, 0), lt(k, n)))
        r = [(s2, x) for s2, x in it_step(I, s, Ref(s.new_cell(shift(a[0])))) if x is not None]
    except Unsupported:
        if I.abstract: return None
        raise
    if len(r) != 1 or not L.same_store(st.store, r[0][0].store) or r[0][0].events != st.events or r[0][0].calls != st.calls or not all(L.syn(v, r[0][0].mem.get(c)) or v is E.UNINIT for c, v in st.mem.items()):
        if I.abstract: return None
        raise Unsupported("collect with effects")
    x = deep(I, r[0][0], r[0][1])
    def at(j, x=x):
        if isinstance(x, (int, bool)): return x
        if is_sym(x): return z3.substitute(x, (k, zint(j)))
        raise Unsupported("collect of structured items")
    return SymSeq(at, n, None)
def it_collect(I, st, fn, a):
    t = rty(fn)
    if not (t.k == "adt" and t.name == "std::vec::Vec"): raise Unsupported(f"collect into {t}")
    if I.cuts and sym_iter(I, st, Ref(st.new_cell(a[0]))):
        r = collect_sym(I, st, fn, a, t)
        if r is not None: return r
    acc = Ref(st.new_cell(Str([]) if is_u8(t.targs()[0]) else Arr(())))
    def f(s, x):
        v = I.deref1(s, acc); I.write_ref(s, acc, v.cat(Str([("w", x, 1)])) if isinstance(v, Str) else cat_vals(I, v, Arr((x,)))); return [(s, ("go",))]
    d, p = consume(I, st, a[0], f)
    return [ret(s, I.deref1(s, acc)) for s in d] + p
def pure_pred(I, st, it, clo):
    """values of a branch-free closure on every item of a fixed-length iterator, or None"""
    v = I.deref(st, it)
    if not (isinstance(v, IterV) and v.kind in ("slice", "own") and isinstance(v.f["n"], int) and isinstance(v.f["i"], int)): return None
    s = st.copy(); out = []
    try:
        for k in range(v.f["i"], v.f["n"]):
            r = call_value(I, s, clo, [iter_item(I, s, v, k)])
            if len(r) != 1 or r[0][1][0] != "ret" or len(r[0][0].pc) != len(st.pc): return None
            s = r[0][0]; out.append(r[0][1][1])
    except Unsupported: return None
    if s.store != st.store or s.events != st.events or s.calls != st.calls: return None
    return out
def it_pred(kind):
    def h(I, st, fn, a):
        clo = Ref(st.new_cell(a[1])) if not isinstance(a[1], (FnV, Ref)) else a[1]
        q = pure_pred(I, st, a[0], clo)
        if q is not None: return And(*q) if kind == "all" else Or(*q)
        def f(s, x):
            out = []
            for s2, o in call_value(I, s, clo, [x]):
                if o[0] == "panic": out.append((s2, o)); continue
                for s3, b in I.fork(s2, o[1]):
                    if kind == "any" and b: out.append((s3, ("ret", True)))
                    elif kind == "all" and not b: out.append((s3, ("ret", False)))
                    else: out.append((s3, ("go",)))
            return out
        d, p = consume(I, st, a[0], f)
        return [ret(s, kind == "all") for s in d] + p
    return h
def it_for_each(I, st, fn, a):
    clo = Ref(st.new_cell(a[1])) if not isinstance(a[1], FnV) else a[1]
    def f(s, x): return [(s2, o if o[0] == "panic" else ("go",)) for s2, o in call_value(I, s, clo, [x])]
    d, p = consume(I, st, a[0], f)
    return [ret(s, UNIT) for s in d] + p
def arr_map(I, st, fn, a):
    acc = Ref(st.new_cell(Arr(()))); clo = Ref(st.new_cell(a[1])) if not isinstance(a[1], FnV) else a[1]
    def f(s, x): 
        out = []
        for s2, o in call_value(I, s, clo, [x]):
            if o[0] == "panic": out.append((s2, o)); continue
            I.write_ref(s2, acc, Arr(I.deref1(s2, acc).e + (o[1],))); out.append((s2, ("go",)))
        return out
    d, p = consume(I, st, into_iter(I, st, fn, [a[0]]), f)
    return [ret(s, I.deref1(s, acc)) for s in d] + p
def adapter(k):
    def h(I, st, fn, a):
        v = a[0]
        if isinstance(v, (Arr, Str, SymSeq)): v = into_iter(I, st, fn, [v])
        if k == "enumerate": return Agg(rty(fn), 0, [v, 0])
        if k == "take": return Agg(rty(fn), 0, [v, a[1]])
        return Agg(rty(fn), 0, [v] + list(a[1:]))
    return h

# ---------------------------------------------------------------- misc core
def m_panic(I, st, fn, a): return [panic(st, fn.name)]
def m_unit(I, st, fn, a): return UNIT
def m_opaque(I, st, fn, a): return Opq("opaque", fn.name)
def from_elem(I, st, fn, a):
    n = simp_int(a[1])
    if not isinstance(n, int): raise Unsupported("vec![x; n] of unknown length")
    v = Arr([a[0]] * n)
    return to_str(v) if is_u8(rty(fn).targs()[0]) and n else v
def box_new(I, st, fn, a): return BoxV(st.new_cell(a[0]))
def box_uninit(I, st, fn, a): return BoxV(st.new_cell(UNINIT))
def mem_swap(I, st, fn, a):
    x = I.deref1(st, a[0]); y = I.deref1(st, a[1]); I.write_ref(st, a[0], y); I.write_ref(st, a[1], x); return UNIT
def mem_replace(I, st, fn, a):
    x = I.deref1(st, a[0]); I.write_ref(st, a[0], a[1]); return x
def mem_take(I, st, fn, a):
    x = I.deref1(st, a[0]); t = rty(fn)
    d = 0 if leaf(t) else Str([]) if isinstance(x, Str) else Arr(()) if isinstance(x, Arr) else None
    if d is None: raise Unsupported("mem::take")
    I.write_ref(st, a[0], d); return x
def int_bits(fn):
    t = rty(fn)
    m = re.search(r"<impl ([ui])(\d+|size)>", fn.defname)
    if m: return (m.group(1) == "i", 64 if m.group(2) == "size" else int(m.group(2)))
    return leaf(t)
def m_int(op):
    """methods of primitive integers"""
    def h(I, st, fn, a):
        sg, n = int_bits(fn)
        if sg: raise Unsupported(f"signed {fn.name}")
        xs = [sc(I, st, x) for x in a]; t = rty(fn)
        if op.startswith("wrapping_") and op[9:] in ("add", "sub", "mul"): return {"add": w_add, "sub": w_sub, "mul": w_mul}[op[9:]](n, *xs)
        if op.startswith("overflowing_"):
            o = op[12:]; ex = {"add": add, "sub": sub, "mul": mul}[o](*xs)
            return Agg(t, 0, [{"add": w_add, "sub": w_sub, "mul": w_mul}[o](n, *xs), Or(lt(ex, 0), ge(ex, W(n)))])
        if op.startswith("saturating_"):
            o = op[11:]; ex = {"add": add, "sub": sub, "mul": mul}[o](*xs); return ite(lt(ex, 0), 0, ite(ge(ex, W(n)), W(n) - 1, ex))
        if op in ("checked_add", "checked_sub", "checked_mul"):
            ex = {"add": add, "sub": sub, "mul": mul}[op[8:]](*xs); return fork_opt(I, st, And(ge(ex, 0), lt(ex, W(n))), t, ex)
        if op in ("checked_div", "checked_rem"):
            return [ret(s, some(t, (div if op[8:] == "div" else mod)(*xs)) if b else none(t)) for s, b in I.fork(st, Not(eq(xs[1], 0)))]
        if op == "checked_pow": v = ipow(I, *xs); return fork_opt(I, st, lt(v, W(n)), t, v)
        if op == "pow": v = ipow(I, *xs); return mod(v, W(n)) if not isinstance(v, int) else v % W(n)
        if op in ("from_be_bytes",): return scalar_of(I.deref(st, a[0]), n // 8)
        if op in ("to_be_bytes",): return Str.word(xs[0], n // 8)
        if op == "from_le_bytes":
            v = I.deref(st, a[0]); es = [I.seq_get(v, k) for k in range(n // 8)]; r = 0
            for k, x in enumerate(es): r = add(r, mul(x, 1 << (8 * k)))
            return r
        if op == "abs_diff": return ite(lt(*xs), sub(xs[1], xs[0]), sub(xs[0], xs[1]))
        if op == "div_ceil": return [panic(s, "div by zero") if z else ret(s, ite(eq(mod(*xs), 0), div(*xs), add(div(*xs), 1))) for s, z in I.fork(st, eq(xs[1], 0))]
        raise Unsupported(f"integer method {op}")
    return h
INT_OPS = ["wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "overflowing_sub", "overflowing_mul", "saturating_add", "saturating_sub", "saturating_mul",
           "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_pow", "pow", "from_be_bytes", "to_be_bytes", "from_le_bytes", "abs_diff", "div_ceil"]
def leaf_conv(I, st, fn, a):
    """From/Into/TryFrom between scalar types"""
    return sc(I, st, a[0])
def m_try_conv(I, st, fn, a): return r_try(I, st, fn, a)
def arr_try_from_slice(I, st, fn, a):
    t = rty(fn); at = t.targs()[0]
    v = I.deref(st, a[0]); n = I.seq_len(v)
    if at.k == "ref": nn = at.elem().d["n"]
    else: nn = at.d["n"]
    out = []
    for s, b in I.fork(st, eq(n, nn)):
        if not b: out.append(ret(s, err(t, Opq("TryFromSliceError")))); continue
        if at.k == "ref": out.append(ret(s, ok(t, a[0])))
        else:
            x = deep(I, s, a[0])
            if isinstance(x, Str) and not isinstance(x.length(), int): x = x_fixlen(I, x, nn)
            out.append(ret(s, ok(t, x)))
    return out
def x_fixlen(I, s, n):
    v = z3.Function(f"be{n}", z3.IntSort(), z3.IntSort())(zint(ident(s))); I.facts.append(z3.And(v >= 0, v < W(8 * n)))
    return Str.word(v, n)
def transmute(I, st, v, sty, dty):
    a, b = leaf(sty), leaf(dty)
    if sty.id == dty.id: return v
    if sty.k in ("ref", "ptr") and dty.k in ("ref", "ptr"): return v
    if a and b and a[1] == b[1]: return v
    if isinstance(v, (Ref, SObj, BoxV)) : return v
    if dty.k in ("uint", "int") and isinstance(v, (Str, Arr)):        # both targets are little-endian
        r = 0
        for k in range(b[1] // 8): r = add(r, mul(I.seq_get(v, k), 1 << (8 * k)))
        return I.wrap(r, dty)
    if sty.k in ("uint", "int") and dty.k == "array" and is_u8(dty.elem()) and not isinstance(v, (Str, Arr)):
        return Str([("w", mod(div(v, 1 << (8 * k)), 256), 1) for k in range(a[1] // 8)])
    if b and isinstance(v, (Str, Arr)): return scalar_of(v, b[1] // 8) if isinstance(v, Str) or all(isinstance(x, int) for x in v.e) else v
    if sty.k == "adt" and sty.name in TRANSPARENT or dty.k == "adt" and dty.name in TRANSPARENT: return v
    raise Unsupported(f"transmute {sty} -> {dty}")
def m_transmute(I, st, fn, a):
    g = [x for x in fn.gargs() if isinstance(x, Ty)]; return transmute(I, st, a[0], g[0], g[1])
def ctor(I, st, fn, a):
    """tuple-struct / enum-variant constructors used as functions"""
    t = fn.ret_ty() if "sig" in fn.d else None
    if t is None or t.k != "adt": return None
    last = fn.name.split("::")[-1]
    last = re.sub(r"<.*", "", last)
    for i, v in enumerate(t.variants()):
        if v["n"] == last or t.d["kind"] == "struct" and t.name.split("::")[-1] == last:
            if leaf(t): return a[0]
            if t.name in TRANSPARENT: return a[0]
            return Agg(t, i, a)
    return None

# ---------------------------------------------------------------- dispatch
def seqtype(t):
    if t is None: return False
    while t.k in ("ref", "ptr"): t = t.elem()
    return t.k in ("slice", "array", "str") or t.k == "adt" and t.name in ("std::vec::Vec", "std::string::String")
SDK = {
    "StorageUint": {"get": s_get, "set": s_set, "erase": s_erase}, "StorageFixedBytes": {"get": s_get, "set": s_set, "erase": s_erase},
    "StorageAddress": {"get": s_get, "set": s_set, "erase": s_erase}, "StorageBool": {"get": s_get, "set": s_set, "erase": s_erase},
    "StorageMap": {"get": m_get, "getter": m_obj, "setter": m_obj, "insert": m_insert, "replace": m_replace, "delete": m_delete, "take": m_take},
    "StorageVec": {"len": v_len, "get": v_get, "getter": v_obj, "setter": v_obj, "get_mut": v_obj, "push": v_push, "grow": v_grow, "pop": v_pop, "is_empty": v_isempty},
    "StorageString": {"get_string": str_get, "set_str": str_set, "len": str_len, "erase": s_erase, "is_empty": lambda I, st, f, a: eq(str_len(I, st, f, a), 0)},
    "StorageBytes": {"get_bytes": str_get, "set_bytes": str_set, "len": str_len, "erase": s_erase},
}
EXACT = {
    "stylus_sdk::msg::sender": m_sender, "stylus_sdk::contract::address": lambda I, st, f, a: I.const("contract.address", 160),
    "stylus_sdk::contract::balance": lambda I, st, f, a: I.const("contract.balance", 256),
    "stylus_sdk::block::timestamp": lambda I, st, f, a: I.const("block.timestamp", 64),
    "stylus_sdk::block::chainid": lambda I, st, f, a: I.const("block.chainid", 64),
    "stylus_sdk::block::number": lambda I, st, f, a: I.const("block.number", 64),
    "stylus_sdk::msg::value": lambda I, st, f, a: I.const("msg.value", 256),
    "stylus_sdk::evm::log": m_log, "stylus_sdk::call::call": m_call("call"), "stylus_sdk::call::static_call": m_call("static"),
    "stylus_sdk::call::transfer_eth": m_transfer_eth, "stylus_sdk::call::transfer::transfer_eth": m_transfer_eth,
    "stylus_sdk::call::context::Call::<&'a mut S>::new_in": m_ctx_new, "stylus_sdk::call::context::Call::<S, HAS_VALUE>::value": m_ctx_value,
    "stylus_sdk::call::context::Call::<S, HAS_VALUE>::gas": m_ctx_gas, "stylus_sdk::call::context::Call::<()>::new": m_ctx_new,
    "stylus_sdk::call::raw::RawCall::new": m_raw_new("call"), "stylus_sdk::call::raw::RawCall::new_static": m_raw_new("static"),
    "stylus_sdk::call::raw::RawCall::new_delegate": m_raw_new("delegate"), "stylus_sdk::call::raw::RawCall::new_with_value": m_raw_new("call"),
    "stylus_sdk::call::raw::RawCall::flush_storage_cache": ident0, "stylus_sdk::call::raw::RawCall::limit_return_data": m_raw_limit,
    "stylus_sdk::call::raw::RawCall::skip_return_data": m_raw_skip, "stylus_sdk::call::raw::RawCall::gas": ident0, "stylus_sdk::call::raw::RawCall::call": m_raw_call,
    "alloy_primitives::utils::keccak256": lambda I, st, f, a: keccak(I, deep_bytes(I, st, a[0])),
    "stylus_sdk::crypto::keccak": lambda I, st, f, a: keccak(I, deep_bytes(I, st, a[0])),
    "alloy_sol_types::types::ty::SolType::abi_encode_params": m_encode_params, "alloy_sol_types::types::ty::SolType::abi_decode_params": m_decode_params,
    "alloy_sol_types::types::ty::SolType::abi_encode": m_encode, "alloy_sol_types::types::ty::SolType::abi_encode_packed": m_encode_packed,
    "alloy_sol_types::types::ty::SolType::abi_encode_sequence": m_encode_params, "alloy_sol_types::types::ty::SolType::abi_decode_sequence": m_decode_params,
    "alloy_sol_types::types::function::SolCall::abi_encode": m_solcall_encode,
    "std::boxed::Box::<T>::new_uninit": box_uninit, "std::boxed::Box::<T>::new": box_new, "std::boxed::box_assume_init_into_vec_unsafe": vec_from_box,
    "std::slice::<impl [T]>::into_vec": vec_from_box, "std::boxed::box_new": box_new,
    "std::rt::panic_fmt": m_panic, "core::panicking::panic": m_panic, "core::panicking::panic_fmt": m_panic, "std::fmt::Arguments::<'a>::from_str": m_opaque,
    "std::option::expect_failed": m_panic, "std::option::unwrap_failed": m_panic, "std::result::unwrap_failed": m_panic, "core::option::expect_failed": m_panic,
    "core::panicking::panic_bounds_check": m_panic, "core::panicking::assert_failed": m_panic, "core::panicking::panic_nounwind": m_panic,
    "std::mem::swap": mem_swap, "std::mem::replace": mem_replace, "std::mem::take": mem_take, "std::mem::forget": m_unit, "std::mem::drop": m_unit, "std::mem::transmute": m_transmute, "std::intrinsics::transmute": m_transmute,
    "core::slice::<impl [T]>::swap": s_swap, "std::ptr::drop_in_place": m_unit,
}
def deep_bytes(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, (Str, Arr)): return to_str(v)
    raise Unsupported(f"bytes of {v}")
def m_zip_next(I, st, fn, a): return it_next_generic(I, st, fn, a)
def u8arr(t):
    while t is not None and t.k == "ref": t = t.elem()
    return t is not None and t.k == "array" and is_u8(t.elem())
def word_of(I, st, v):
    """a fixed-size byte array as a big-endian integer (byte order is lexicographic order)"""
    v = to_str(I.deref(st, v)); return scalar_of(v, v.length())
def k_update(I, st, fn, a):
    h = I.deref(st, a[0])
    if not (isinstance(h, Opq) and h.tag == "keccak256"): raise Unsupported("keccak state")
    write_through(I, st, a[0], Opq("keccak256", h.a[0].cat(deep_bytes(I, st, a[1])))); return UNIT
def k_finalize(I, st, fn, a):
    h = I.deref(st, a[0])
    if I.seq_len(I.deref(st, a[1])) != 32: raise Unsupported("keccak output length")
    write_through(I, st, a[1], Str.word(keccak(I, h.a[0]), 32)); return UNIT
EXACT.update({"tiny_keccak::keccak::Keccak::v256": lambda I, st, f, a: Opq("keccak256", Str([]))})
def lookup(I, fn):
    d = fn.defname; last = d.split("::")[-1]
    if fn.crate == "tiny_keccak" and "Keccak" in d:
        if last == "update": return k_update
        if last == "finalize": return k_finalize
    h = EXACT.get(d)
    if h: return h
    if fn.crate == "stylus_sdk":
        if "StorageGuard" in d and last in ("deref", "deref_mut", "new", "into_raw"): return ident0
        m = re.search(r"storage::(?:\w+::)*(Storage\w+)", d)
        if m and m.group(1) in SDK and last in SDK[m.group(1)]: return SDK[m.group(1)][last]
        if m and last in ("deref", "deref_mut", "load", "load_mut") and "Storage" in m.group(1):
            if last in ("deref",) : return s_deref
        if last == "has_code": return lambda I, st, f, a: has_code(I, sc(I, st, a[0]))
        if last == "encode" and "MethodError" in d: return m_err_encode
        if "abi::bytes::Bytes" in d:
            if last in ("deref", "deref_mut", "as_ref"): return ident0
            if last in ("from", "into", "clone"): return lambda I, st, f, a: to_str(deep(I, st, a[0]))
            if last in ("new", "default"): return lambda I, st, f, a: Str([])
            if last == "to_vec": return s_clone
        return None
    if fn.crate == "ruint":
        if last in RUINT and RUINT[last]: return RUINT[last]
        if last == "from" and "Uint" in d: return r_from
        return None
    if fn.crate == "alloy_primitives":
        if "bits::address::Address" in d or "bits::fixed::FixedBytes" in d or "bits::" in d:
            if last in FB: return FB[last]
            if last in ("deref", "deref_mut"):
                if "Address as" in d: return ident0
                return fb_slice
            if last in ("as_slice", "as_ref", "borrow", "as_mut_slice", "as_mut"): return fb_slice
            if last == "index" : return lambda I, st, f, a: s_index(I, st, f, [fb_ref(I, st, f, a[0]), a[1]])
            if last == "into_array": return lambda I, st, f, a: Str.word(sc(I, st, a[0]), leaf(f.local_ty(1))[1] // 8)
            if last == "from_word": return addr_from_word
            if last == "into_word": return fb_word
            if last in ("from_slice", "left_padding_from", "right_padding_from"): return fb_from_slice if last == "from_slice" else None
            if last in ("new", "from", "into") : return fb_conv
            if last == "repeat_byte": return lambda I, st, f, a: int.from_bytes(bytes([a[0]] * (leaf(rty(f))[1] // 8)), "big")
        if last in ("from", "into") and "Uint" in d: return fb_conv
        if "bytes_::Bytes" in d:
            if last in ("deref", "as_ref"): return ident0
            if last in ("from", "clone", "copy_from_slice"): return lambda I, st, f, a: to_str(deep(I, st, a[0]))
        return None
    if fn.crate == "alloy_sol_types":
        if last == "encode" and "MethodError" in d: return m_err_encode
        return None
    if fn.crate in ("core", "alloc", "std"): return lookup_core(I, fn, d, last)
    # trait-derived helpers on the crates under verification
    if last == "encode" and "MethodError" in d: return m_err_encode
    return None
def s_deref(I, st, fn, a):
    """Deref of StorageUint etc. to the cached primitive value"""
    o = st_of(I, st, a[0])
    if prim_leaf(o.ty): return Ref(st.new_cell(sload(I, st, o)))
    return o
def fb_ref(I, st, fn, v): return fb_slice(I, st, fn, [v])
def fb_conv(I, st, fn, a):
    t = rty(fn)
    if leaf(t):
        v = sc(I, st, a[0]); return v
    v = I.deref(st, a[0])
    if t.k == "array" and is_u8(t.elem()): return Str.word(sc(I, st, a[0]), t.d["n"])
    raise Unsupported(f"conversion {fn.name}")
ITER_TYPES = ("Zip", "Rev", "Enumerate", "Copied", "Cloned", "Map", "Range", "Iter", "IntoIter", "Take")
def arg0_ty(fn):
    ts = [fn.local_ty(1)] if fn.bb is not None and fn.nargs else (fn.arg_tys() if "sig" in fn.d else [])
    return ts[0] if ts else None
def lookup_core(I, fn, d, last):
    a0 = arg0_ty(fn)
    s0 = a0
    while s0 is not None and s0.k in ("ref", "ptr"): s0 = s0.elem()
    if fn.x:  # compiler intrinsic
        r = intrinsic(fn)
        if r: return r
    if last in INT_OPS and re.search(r"<impl [u](\d+|size)>::", d): return m_int(last)
    # comparison on scalars
    if last in ("eq", "ne", "lt", "le", "gt", "ge") and ("PartialEq" in d or "PartialOrd" in d or "cmp::" in d):
        if s0 is not None and leaf(s0): return scmp(last)
        if last in ("eq", "ne") and seqtype(s0): return seq_eq_m(last == "ne")
        if last in ("eq", "ne") and s0 is not None and s0.k == "adt" and s0.name.endswith("Bytes"): return seq_eq_m(last == "ne")
        if last in ("lt", "le", "gt", "ge") and u8arr(s0): return lambda I, st, f, a: CMP[last](word_of(I, st, a[0]), word_of(I, st, a[1]))
    if last in ("cmp", "partial_cmp") and u8arr(s0):
        return lambda I, st, f, a: (lambda o: o if last == "cmp" else some(rty(f), o))(ORD(word_of(I, st, a[0]), word_of(I, st, a[1])))
    if last in ("cmp", "partial_cmp") and s0 is not None and leaf(s0): return r_cmp if last == "cmp" else r_pcmp
    if last in ("max", "min") and s0 is not None and leaf(s0):
        return (lambda I, st, f, a: (lambda x, y: ite(lt(x, y), y, x))(sc(I, st, a[0]), sc(I, st, a[1]))) if last == "max" else \
               (lambda I, st, f, a: (lambda x, y: ite(le(x, y), x, y))(sc(I, st, a[0]), sc(I, st, a[1])))
    if last == "to_string" and s0 is not None and leaf(s0) and leaf(s0)[0] is False and (s0.k == "uint" or s0.name.endswith("Uint")):
        return lambda I, st, f, a: dec_str(I, sc(I, st, a[0]))
    if last in ("clone", "to_owned") and s0 is not None and (leaf(s0) or seqtype(s0)): return s_clone if seqtype(s0) else (lambda I, st, f, a: sc(I, st, a[0]))
    if last == "clone" and s0 is not None and s0.k == "tuple": return s_clone
    if last == "add" and s0 is not None and s0.k == "adt" and s0.name == "std::string::String":
        return lambda I, st, f, a: to_str(deep(I, st, a[0])).cat(to_str(deep(I, st, a[1])))
    if last == "add_assign" and s0 is not None and s0.k == "adt" and s0.name == "std::string::String": return vec_extend
    # scalar conversions
    if last in ("into", "from") and ("convert" in d):
        t = rty(fn)
        if a0 is not None and leaf(a0) and leaf(t):
            if a0.id == t.id: return ident0
            if fn.d["bb"] is None or "num" in d:
                return lambda I, st, f, a: intval(I, st, a[0])
        if seqtype(a0) and t.k == "adt" and t.name in ("std::vec::Vec", "std::string::String"): return to_vec
        if t.k == "adt" and t.name == "std::boxed::Box" and seqtype(a0): return lambda I, st, f, a: BoxV(st.new_cell(deep(I, st, a[0])))
    if last in ("try_from", "try_into"):
        t = rty(fn)
        if t.k == "adt" and t.name == "std::result::Result":
            x = t.targs()[0]
            if leaf(x) and a0 is not None and leaf(a0) and x.k in ("uint", "int") and a0.k in ("uint", "int"): return r_try
            y = x.elem() if x.k == "ref" else x
            if y.k == "array" and seqtype(a0): return arr_try_from_slice
    if d.startswith("std::vec::from_elem"): return from_elem
    if last == "to_digit" and "char" in d: return to_digit
    if last == "map" and re.match(r"(std|core)::array::<impl \[", d) and not is_u8(rty(fn).elem()): return arr_map
    # vec / slice / string
    if "std::vec::Vec" in d or "std::string::String" in d or "std::slice::<impl" in d or "core::slice::" in d or "std::str::" in d or "core::str::" in d or \
       "std::array::" in d or "core::array::" in d or "std::slice::" in d:
        v = VEC.get(last)
        if v and (seqtype(a0) or last in ("new", "with_capacity") or last in ("next", "next_back", "len") and s0 is not None and s0.name.split("::")[-1] in ("Iter", "IntoIter", "IterMut")):
            if last in ("next", "next_back") : return it_next if last == "next" else it_next_back
            if last == "len" and s0.k == "adt" and s0.name.split("::")[-1] in ("Iter", "IntoIter", "IterMut"): return it_len
            return v
        if last in ("next", "next_back"): return it_next if last == "next" else it_next_back
    # iterators
    if "std::iter::" in d or "core::iter" in d or "std::ops::Range" in d:
        if last == "into_iter": return into_iter
        if last == "next" and s0 is not None and s0.k == "adt":
            n = s0.name.split("::")[-1]
            if n in ("Zip", "Rev", "Enumerate", "Copied", "Cloned", "Take", "Filter", "FilterMap", "TakeWhile", "Skip", "Chain", "SkipWhile", "FlatMap"): return it_next_generic
            if n in ("Iter", "IntoIter", "IterMut"): return it_next
            if n == "Range": return it_next_generic
        if last == "sum" and not leaf(rty(fn)): return None
        if last in ITER: return ITER[last]
    if "fmt::" in d and last in ("new_debug", "new_display", "new_v1", "new_const", "new"): return m_opaque
    if last == "default" and leaf(rty(fn)): return lambda I, st, f, a: False if leaf(rty(f))[0] == "bool" else 0
    return None
VEC = {"len": s_len, "contains": s_contains, "is_empty": s_isempty, "deref": ident0, "deref_mut": ident0, "as_slice": ident0, "as_mut_slice": ident0, "as_ref": ident0, "as_mut": ident0, "borrow": ident0, "as_bytes": ident0,
       "as_str": ident0, "push": vec_push, "pop": vec_pop, "clone": s_clone, "to_vec": to_vec, "to_owned": to_vec, "to_string": to_vec, "into_boxed_slice": lambda I, st, fn, a: BoxV(st.new_cell(I.deref(st, a[0]))),
       "new": vec_new, "with_capacity": vec_new, "reserve": m_unit, "index": lazy_split(s_index), "index_mut": s_index, "get": lazy_split(s_get_opt), "first": lazy_split(s_first), "last": lazy_split(s_last),
       "split_last": lazy_split(s_split_last), "split_first": lazy_split(s_split_first), "copy_from_slice": s_copy_from, "clone_from_slice": s_copy_from,
       "extend": vec_extend, "extend_from_slice": vec_extend, "append": vec_extend, "push_str": vec_extend, "iter": lazy_split(it_new), "iter_mut": it_new, "into_iter": into_iter, "next": it_next, "next_back": it_next_back,
       "concat": s_concat, "truncate": truncate, "into_bytes": ident0, "into_vec": vec_from_box, "as_mut_ptr": ident0, "clear": lambda I, st, f, a: (write_through(I, st, a[0], Str([]) if isinstance(seq(I, st, a[0]), Str) else Arr(())), UNIT)[1],
       "eq": seq_eq_m(False), "ne": seq_eq_m(True)}
def to_digit(I, st, fn, a):
    c, r = a
    if not isinstance(r, int): raise Unsupported("to_digit with a symbolic radix")
    if not 2 <= r <= 36: raise Unsupported("to_digit radix")
    ok = Or(And(ge(c, 48), lt(c, 48 + min(r, 10))), And(ge(c, 65), lt(c, 65 + max(0, r - 10))), And(ge(c, 97), lt(c, 97 + max(0, r - 10))))
    out = []
    val = ite(lt(c, 58), sub(c, 48), ite(lt(c, 91), sub(c, 55), sub(c, 87)))
    for s, b in I.fork(st, ok):
        d = val
        if b and I.poly is not None and is_sym(val): d = I.fresh("digit", bits=32); I.facts.append(z3.And(d >= 0, d < r)); s.assume(d == val)
        out.append((s, ("ret", some(rty(fn), d) if b else none(rty(fn)))))
    return out
ITER = {"sum": it_sum, "fold": it_fold, "collect": it_collect, "zip": zip_new, "rev": adapter("rev"), "enumerate": adapter("enumerate"), "map": adapter("map"), "copied": adapter("copied"),
        "cloned": adapter("cloned"), "take": adapter("take"), "any": it_pred("any"), "all": it_pred("all"), "for_each": it_for_each, "len": it_len}
def intrinsic(fn):
    n = fn.x
    g = [x for x in fn.gargs() if isinstance(x, Ty)]
    if n in ("transmute", "transmute_unchecked"): return m_transmute
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        o = n.split("_")[1]
        def h(I, st, f, a):
            lf = leaf(g[0]); return {"add": w_add, "sub": w_sub, "mul": w_mul}[o](lf[1], a[0], a[1])
        return h
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        o = n[:3]
        def h(I, st, f, a):
            lf = leaf(g[0])[1]; ex = {"add": add, "sub": sub, "mul": mul}[o](a[0], a[1])
            return Agg(None, 0, [{"add": w_add, "sub": w_sub, "mul": w_mul}[o](lf, a[0], a[1]), Or(lt(ex, 0), ge(ex, W(lf)))])
        return h
    if n in ("saturating_add", "saturating_sub"):
        def h(I, st, f, a):
            lf = leaf(g[0])[1]; ex = (add if n.endswith("add") else sub)(a[0], a[1]); return ite(lt(ex, 0), 0, ite(ge(ex, W(lf)), W(lf) - 1, ex))
        return h
    if n in ("likely", "unlikely", "black_box"): return lambda I, st, f, a: a[0]
    if n in ("assume", "cold_path", "assert_inhabited", "assert_zero_valid"): return m_unit
    if n == "ub_checks" : return lambda I, st, f, a: False
    if n == "size_of":
        return lambda I, st, f, a: (leaf(g[0])[1] + 7) // 8 if leaf(g[0]) else (_ for _ in ()).throw(Unsupported("size_of"))
    if n in ("needs_drop",): return lambda I, st, f, a: False
    if n in ("read_via_copy", "volatile_load"): return lambda I, st, f, a: I.deref1(st, a[0])
    if n in ("write_via_move",):
        def h(I, st, f, a): I.write_ref(st, a[0], a[1]); return UNIT
        return h
    if n in ("bswap",):
        def h(I, st, f, a):
            nb = leaf(g[0])[1] // 8
            if isinstance(a[0], int): return int.from_bytes(a[0].to_bytes(nb, "little"), "big")
            r = 0
            for k in range(nb): r = add(mul(r, 256), mod(div(a[0], 1 << (8 * k)), 256))
            return r
        return h
    if n in ("ctpop", "ctlz", "cttz"):
        def h(I, st, f, a):
            x = a[0]; nb = leaf(g[0])[1]
            if not isinstance(x, int):
                if n != "ctlz" or I.poly is None: raise Unsupported(n)
                def split(s, lo, hi):        # the number of significant bits lies in lo..=hi
                    if lo == hi: return [(s, ("ret", nb - lo))]
                    m = (lo + hi) // 2; out = []
                    for s2, b in I.fork(s, lt(x, 1 << m)): out += split(s2, lo, m) if b else split(s2, m + 1, hi)
                    return out
                return split(st, 0, nb)
            return bin(x).count("1") if n == "ctpop" else nb - x.bit_length() if n == "ctlz" else (x & -x).bit_length() - 1 if x else nb
        return h
    return None
