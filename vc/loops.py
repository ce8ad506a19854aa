"""Loops without a bound: a loop is cut at its head.

The variables and storage paths the body changes are found by a fixpoint, replaced by arbitrary values (counters
that change by a constant per iteration become `initial + c*k`), the body is executed once from that arbitrary state
(iteration k), and execution continues from the exits with the arbitrary state.  The record of the cut (entry state,
arbitrary head state, every way through the body) is compared with the loop of the contract: same entry state, the
same effect of every iteration, the same iteration count; by induction both loops then have the same effect."""
import z3
from engine import *
import engine as E

class Rec:
    def __init__(self, name, entry, head, k, paths, cells): self.name = name; self.entry = entry; self.head = head; self.k = k; self.paths = paths; self.cells = cells
    @property
    def again(self): return [s for s, t in self.paths if t == "again"]

def syn(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if is_sym(a) and is_sym(b): return a.eq(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return type(a) is type(b) and a == b
    if isinstance(a, Agg) and isinstance(b, Agg): return a.v == b.v and len(a.f) == len(b.f) and all(syn(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Arr) and isinstance(b, Arr): return len(a.e) == len(b.e) and all(syn(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, IterV) and isinstance(b, IterV): return a.kind == b.kind and a.f.keys() == b.f.keys() and all(syn(a.f[x], b.f[x]) for x in a.f)
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cell == b.cell and len(a.path) == len(b.path) and all(syn(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(syn(x, y) for x, y in zip(a, b))
    if isinstance(a, SObj) and isinstance(b, SObj): return a.path == b.path and syn(a.keys, b.keys)
    if isinstance(a, FnV) and isinstance(b, FnV): return a.fn is b.fn
    from bytesv import Str
    if isinstance(a, Str) and isinstance(b, Str): return len(a.p) == len(b.p) and all(syn(tuple(x), tuple(y)) for x, y in zip(a.p, b.p))
    if isinstance(a, (str, bytes, type(None))): return a == b
    return False

from bytesv import Str
class Leaf:
    """how one changing scalar is made arbitrary"""
    def __init__(self): self.nn = None; self.c = None; self.seq = self.seqc = self.mapf = None; self.maptried = False

class Hav:
    """havoc templates for one cell: dict subpath -> Leaf"""
    def __init__(self): self.leaves = {}
def build(I, v0, hv, pre, nm, k, ty_hint=None):
    """v0 with every leaf recorded in hv replaced"""
    lf = hv.get(pre)
    if lf is not None:
        if lf == "uninit": return E.UNINIT
        if lf.c is not None: return add(v0, mul(lf.c, k)) if lf.c != 0 else v0
        if isinstance(v0, bool) or is_sym(v0) and z3.is_bool(v0): return z3.Bool(f"{nm}{'.'.join(map(str, pre))}")
        if isinstance(v0, int) or is_sym(v0):
            x = z3.Int(f"{nm}{'.'.join(map(str, pre))}")
            if lf.rng is not None: I.facts.append(z3.And(x >= lf.rng[0], x < lf.rng[1]))
            return x
        if isinstance(v0, Str) and isinstance(v0.length(), int):
            n = v0.length(); x = z3.Int(f"{nm}{'.'.join(map(str, pre))}"); I.facts.append(z3.And(x >= 0, x < z3.IntVal(1 << (8 * n)))); return Str.word(x, n)
        if isinstance(v0, (SymSeq, Arr)) and lf.seq is not None: return hav_seq(I, v0, lf, pre, nm, k)
        raise Unsupported(f"loop changes a value of kind {type(v0).__name__}")
    if not any(p[:len(pre)] == pre for p in hv): return v0
    if isinstance(v0, Agg): return Agg(v0.ty, v0.v, [build(I, x, hv, pre + (i,), nm, k) for i, x in enumerate(v0.f)])
    if isinstance(v0, Arr): return Arr([build(I, x, hv, pre + (i,), nm, k) for i, x in enumerate(v0.e)])
    if isinstance(v0, IterV): return IterV(v0.kind, **{n: build(I, x, hv, pre + (n,), nm, k) for n, x in v0.f.items()})
    raise Unsupported(f"loop changes a value of kind {type(v0).__name__}")
def hav_seq(I, v0, lf, pre, nm, k):
    """arbitrary sequence of the same element kind; its length is entry length + c*k when every iteration appends c elements"""
    base = f"{nm}{'.'.join(map(str, pre))}"
    if lf.seqc is not None: ln = add(I.seq_len(v0), mul(lf.seqc, k))
    else: ln = z3.Int(base + ".len"); I.facts.append(z3.And(ln >= 0, ln < z3.IntVal(1 << 32)))
    nb, bits = lf.seq
    if lf.mapf is not None:         # iteration k appends mapf(k): element j is the entry's, or mapf(j - entry length)
        l0 = I.seq_len(v0)
        def at_map(i):
            t = z3.substitute(zint(lf.mapf), (k, zint(sub(i, l0)))); I.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << bits)))
            t = Str.word(t, nb) if nb else t
            if isinstance(l0, int) and l0 == 0: return t
            return ite_val(lt(i, l0), I.seq_get(v0, i), t)
        return SymSeq(at_map, ln, None)
    f = z3.Function(base + ".at", z3.IntSort(), z3.IntSort())
    def at(i):
        t = f(zint(i)); I.facts.append(z3.And(t >= 0, t < z3.IntVal(1 << bits)))
        return Str.word(t, nb) if nb else t
    return SymSeq(at, ln, None)
def appended(I, lf, v, w, pc, k, nm):
    """the value iteration k appends, when it depends on k alone (of all that the loop changes)"""
    n = I.seq_len(v); x = I.seq_get(w, n)
    if isinstance(x, Str):
        from bytesv import scalar_of
        x = scalar_of(x, None)
    if not (isinstance(x, int) or is_sym(x) and z3.is_int(x)): return None
    if is_sym(x) and not only_k(x, k, nm) and mentions(x, nm): return None
    j = z3.Int(nm + "j"); a, b = (I.seq_get(y, j) for y in (v, w))
    from bytesv import val_eq
    c = simp_bool(val_eq(a, b))
    if c is not True and I.check(list(pc) + [z3.And(j >= 0, j < zint(n)), zbool(Not(c))], 10000) != "unsat": return None
    return x
def mentions(x, nm):
    todo = [x]; seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            d = e.decl().name()
            if d.startswith(nm) or "@" + nm in d: return True
            todo.extend(e.children())
    return False
def elem_kind(I, v):
    """(bytes, bits) of the elements of a sequence of byte arrays or integers"""
    x = v.e[0] if isinstance(v, Arr) and v.e else v.fn(z3.Int("seq.probe")) if isinstance(v, SymSeq) else None
    if isinstance(x, Str) and isinstance(x.length(), int): return (x.length(), 8 * x.length())
    if isinstance(x, int) or is_sym(x) and z3.is_int(x): return (None, 256)
    return None
def diff(v, w, pre, out):
    """subpaths at which the scalar parts of v and w differ"""
    if syn(v, w): return
    if v is E.UNINIT: return
    if isinstance(v, Agg) and isinstance(w, Agg) and v.v == w.v and len(v.f) == len(w.f):
        for i, (x, y) in enumerate(zip(v.f, w.f)): diff(x, y, pre + (i,), out)
        return
    if isinstance(v, Arr) and isinstance(w, Arr) and len(v.e) == len(w.e):
        for i, (x, y) in enumerate(zip(v.e, w.e)): diff(x, y, pre + (i,), out)
        return
    if isinstance(v, IterV) and isinstance(w, IterV) and v.kind == w.kind:
        for n in v.f: diff(v.f[n], w.f[n], pre + (n,), out)
        return
    out.append((pre, v, w))
def same_store(a, b):
    return all((a.get(p) is None or not a[p].upd and p not in b) if p not in b else (not b[p].upd) if p not in a else
               a[p] is b[p] or a[p].base is b[p].base and len(a[p].upd) == len(b[p].upd) and all(syn(x, y) for x, y in zip(a[p].upd, b[p].upd)) for p in set(a) | set(b))
def rng_of(I, v):
    """value range of a scalar: [0, 2^256) covers every unsigned scalar of the code; narrower types keep their own bits"""
    return (0, 1 << 256)
def cut(I, st, step, name, ranges=None, extra_cells=()):
    """-> (rec, exits): exits are the non-'again' results of one arbitrary iteration"""
    entry = st.copy(); entry.mem = dict(st.mem)
    n = getattr(I, "nloops", 0)
    nm = f"loop{len(entry.ghost.get('loops', ()))}."
    k = z3.Int(nm + "k")
    hv = {}          # cell -> {subpath: Leaf}
    stores = set(); common = []; dead = set()
    for rnd in range(14):
        head = entry.copy(); head.mem = dict(entry.mem)
        for c, h in hv.items():
            head.mem[c] = E.UNINIT if c in dead else build(I, entry.mem[c], h, (), f"{nm}c{list(hv).index(c)}", k)
        for p in sorted(stores, key=str):
            head.store[p] = Map(I.models.base_map(I, p, I.path_lf[p], f"@{nm}"))
        head.events = entry.events + (("#loop", (nm,)),); head.calls = entry.calls + (("#loop", nm),)
        head.assume(k >= 0 if rnd else k == 0)      # the first round executes the first iteration itself, to find what changes
        for c, h in hv.items():         # counters going down: not below zero (shown to be preserved below)
            for sub_, lf in h.items() if c not in dead else ():
                if lf != "uninit" and lf.nn and lf.c is not None: head.assume(ge(leafv(head.mem[c], sub_), 0))
        if common: head.assume(Or(k == 0, And(*[z3.substitute(d, (k, k - 1)) for d in common])))
        if I.loop_inv is not None:
            for x in I.loop_inv(I, head, k): head.assume(x)
        npc = len(head.pc)
        res = step(head.copy(), k)
        ag = [s for s, t in res if t == "again"]
        changed = rnd == 0
        for s in ag:
            for c in entry.mem:
                if c in dead: continue
                d = []; diff(head.mem[c], s.mem.get(c, E.UNINIT), (), d)
                for sub_, v, w in d:
                    h = hv.setdefault(c, {})
                    if sub_ in h and h[sub_].c is None:
                        if isinstance(v, SymSeq) and h[sub_].seqc is not None and simp_int(sub(I.seq_len(w), I.seq_len(v))) != h[sub_].seqc: h[sub_].seqc = None; changed = True
                        continue
                    lf = Leaf(); lf.seq = lf.seqc = None; lf.rng = None; lf.tried = True
                    if isinstance(v, Str) and isinstance(w, Str) and isinstance(v.length(), int) and v.length() == w.length(): h[sub_] = lf; changed = True; continue
                    if isinstance(v, (SymSeq, Arr)) and isinstance(w, (SymSeq, Arr)):
                        dl = simp_int(sub(I.seq_len(w), I.seq_len(v)))
                        lf.seq = elem_kind(I, w); lf.seqc = dl if isinstance(dl, int) else None
                        if lf.seq is None: raise Unsupported("loop changes a sequence")
                        h[sub_] = lf; changed = True; continue
                    if not (isinstance(v, (int, bool)) or is_sym(v)):
                        if isinstance(v, (Ref, Agg, IterV, Opq)) or w is E.UNINIT: dead.add(c); changed = True; break   # a temporary: reading it at the head is an error
                        raise Unsupported(f"loop changes a value of kind {type(v).__name__}")
                    lf = Leaf(); lf.rng = (ranges or {}).get(c, (0, 1 << 256)); lf.tried = h[sub_].tried if sub_ in h else False
                    delta = None
                    if not isinstance(v, bool) and not (is_sym(v) and z3.is_bool(v)) and not (is_sym(w) and z3.is_bool(w)):
                        delta = simp_int(sub(w, v))
                        if not isinstance(delta, int):
                            for c_ in (1, -1):
                                if I.check(s.pc + [zint(w) != zint(v) + c_]) == "unsat": delta = c_; break
                    if sub_ in h:
                        # counter with constant step: the difference must be that constant
                        if isinstance(delta, int) and delta == h[sub_].c: continue
                        lf.c = None; lf.tried = True; h[sub_] = lf; changed = True; continue
                    lf.c = delta if isinstance(delta, int) else None
                    if lf.c is not None and lf.c < 0: lf.nn = holds(I, entry.pc, ge(leafv(entry.mem[c], sub_), 0))
                    h[sub_] = lf; changed = True
            for p, m in s.store.items():
                h0 = head.store.get(p)
                if h0 is None or h0 is not m:
                    if h0 is not None and h0.base is m.base and len(h0.upd) == len(m.upd) and all(syn(x, y) for x, y in zip(h0.upd, m.upd)): continue
                    if h0 is None and not m.upd: continue
                    if p not in stores: stores.add(p); changed = True
        for s in ag:        # a counter must advance by its constant on every way through the body
            for c, h in hv.items():
                if c in dead: continue
                for sub_, lf in h.items():
                    if lf.c is None or lf.c == 0: continue
                    try: v, w = leafv(head.mem[c], sub_), leafv(s.mem[c], sub_)
                    except Exception: continue
                    if syn(v, w): lf.c = None; lf.tried = True; changed = True
        # counters found with a constant step must not vary between iterations (checked above); conditions on k alone
        new = None
        for s in ag:
            ds = [d for d in s.pc[npc:] if only_k(d, k, nm)]
            new = ds if new is None else [d for d in new if any(d.eq(x) for x in ds)]
        new = new or []
        if not changed and (len(new) != len(common) or any(not any(d.eq(x) for x in common) for d in new)):
            common = new; changed = True
        if not changed:       # sequences that grow by one known value per iteration
            for c, h in hv.items():
                for sub_, lf in h.items() if c not in dead else ():
                    if lf.seq is None or lf.seqc != 1 or lf.maptried and lf.mapf is None: continue
                    e = None
                    for s in ag:
                        try: x = appended(I, lf, leafv(head.mem[c], sub_), leafv(s.mem[c], sub_), s.pc, k, nm)
                        except (Unsupported, AttributeError, KeyError): x = None
                        if x is None or e is not None and not syn(x, e): e = None; break
                        e = x
                    if lf.maptried:
                        if e is None or not syn(e, lf.mapf): lf.mapf = None; changed = True
                    else:
                        lf.maptried = True; lf.mapf = e
                        if e is not None: changed = True
        if not changed:
            for c, h in hv.items():
                for sub_, lf in h.items() if c not in dead else ():
                    if lf != "uninit" and lf.nn and lf.c is not None and not all(holds(I, s.pc, ge(leafv(s.mem[c], sub_), 0)) for s in ag): lf.nn = False; changed = True
        if not changed: break
    else: raise Unsupported("loop abstraction does not stabilise")
    inv = []
    if I.loop_cands is not None:
        leaves = [(c, sub_) for c, h in hv.items() if c not in dead for sub_, lf in h.items()]
        vals = lambda s: [leafv(s.mem[c], sub_) for c, sub_ in leaves]
        ce = I.loop_cands(I, entry, vals(entry))
        live = [i for i, (l, c) in enumerate(ce) if holds(I, entry.pc, c)]
        for rnd in range(40):
            h2 = head.copy(); ch = I.loop_cands(I, h2, vals(h2))
            for i in live: h2.assume(ch[i][1])
            res = step(h2.copy(), k); ag = [s for s, t in res if t == "again"]
            keep = []
            for i in live:
                if all(holds(I, s.pc, I.loop_cands(I, s, vals(s))[i][1]) for s in ag): keep.append(i)
            if len(keep) == len(live): break
            live = keep
        head = h2; npc = len(head.pc); inv = [ch[i][0] for i in live]
        meas = [(i, j) for i in range(len(leaves)) for j in range(len(leaves)) if i != j]
        hv_ = vals(head)
        ok_ = any(all(holds(I, s.pc, And(ge(sub(hv_[j], hv_[i]), 0), lt(sub(vals(s)[j], vals(s)[i]), sub(hv_[j], hv_[i])))) for s in ag) for i, j in meas)
        if not ok_: raise Unsupported("no termination measure found for the loop")
    for s in ag:
        if not isinstance(s.ghost.get("loops", ()), tuple) or len(s.ghost.get("loops", ())) != len(entry.ghost.get("loops", ())): raise Unsupported("nested loop without a bound")
    rec = Rec(name, entry, head, k, res, hv); rec.dead = dead; rec.npc = npc; rec.nm = nm; rec.stores = stores
    rec.inv = inv
    out = []
    pure = not stores and all(s.events is head.events and s.calls is head.calls for s in ag) and (I.loop_cands is not None or
        all(lf == "uninit" or lf.c is not None or lf.mapf is not None for c, h in hv.items() if c not in dead for lf in h.values()))
    for s, t in res:
        if t == "again": continue
        if pure:      # nothing but local variables changes: no trace of the loop in the observable history
            s.events = entry.events + s.events[len(head.events):]; s.calls = entry.calls + s.calls[len(head.calls):]; out.append((s, t)); continue
        s.ghost["loops"] = s.ghost.get("loops", ()) + (rec,)
        out.append((s, t))
    return rec, out
def leafv(v, sub_):
    for i in sub_: v = v.f[i] if isinstance(v, (Agg, IterV)) else v.e[i]
    return v
def holds(I, pc, c):
    c = simp_bool(c)
    if isinstance(c, bool): return c
    return I.check(list(pc) + [z3.Not(c)], 10000) == "unsat"
def only_k(d, k, nm):
    """formula mentions k and no other symbol made arbitrary by this loop"""
    todo = [d]; seen = set(); has = False
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            s = e.decl().name()
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.startswith(nm):
                if not e.eq(k): return False
                has = True
            elif "@" + nm in s: return False
            todo.extend(e.children())
    return has

# ---------------------------------------------------------------- when to cut a MIR loop
def iter_status(I, st, fr, fn):
    """'sym' / 'conc' / None: remaining length of the iterators held by the frame's locals"""
    r = None
    def look(v, d=0):
        nonlocal r
        if d > 6: return
        if isinstance(v, IterV):
            x = simp_int(sub(v.f["n"], v.f["i"]))
            if not isinstance(x, int): r = "sym"
            elif r is None: r = "conc"
        elif isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.k == "adt":
            n = v.ty.name.split("::")[-1]
            if n in ("Range", "RangeInclusive") and len(v.f) >= 2:
                if isinstance(v.f[0], int) and isinstance(v.f[1], int): r = r or "conc"
                elif v.f[0] is not E.UNINIT: r = "sym"
            elif n in I.models.ITER_TYPES:
                for x in v.f: look(x, d + 1)
        elif isinstance(v, Ref):
            try: look(I.deref(st, v), d + 1)
            except Exception: pass
    for i in range(len(fn.d["locals"])):
        v = st.mem.get(fr[i], E.UNINIT)
        if isinstance(v, (IterV, Agg, Ref)): look(v)
    return r
_LB = {}
def loop_blocks(fn, head):
    """natural loop of a head: blocks that reach it without leaving through it"""
    c = _LB
    if (fn.id, head) not in c:
        pred = {}
        for i, b in enumerate(fn.bb):
            for t in E.succ(b["t"]): pred.setdefault(t, []).append(i)
        # blocks reachable from head
        reach = set(); todo = [head]
        while todo:
            b = todo.pop()
            if b in reach: continue
            reach.add(b); todo.extend(E.succ(fn.bb[b]["t"]))
        body = {head}; todo = [p for p in pred.get(head, []) if p in reach]
        while todo:
            b = todo.pop()
            if b in body: continue
            body.add(b); todo.extend(p for p in pred.get(b, []) if p in reach)
        c[(fn.id, head)] = body
    return c[(fn.id, head)]
def cut_mir(I, fn, fr, st, head):
    """-> list of (state, target block | outcome)"""
    body = loop_blocks(fn, head)
    def step(s, k):
        out = []; work = [(s, head, True)]
        n = 0
        while work:
            s1, b, first = work.pop(); n += 1
            if n > 4000: raise Unsupported("too many paths in a loop body")
            if b == head and not first: out.append((s1, "again")); continue
            if b not in body: out.append((s1, ("goto", b))); continue
            if b != head and b in E.loop_heads(fn) and b in body: raise Unsupported("nested loop")
            blk = fn.bb[b]
            for x in blk["s"]: I.stmt(s1, fr, x)
            for s2, t in I.term(fn, fr, s1, blk["t"]):
                if isinstance(t, int): work.append((s2, t, False))
                else: out.append((s2, t))
        return out
    rng = {}
    for i in range(len(fn.d["locals"])):
        lf = leaf(fn.local_ty(i))
        if lf and lf[0] is False: rng[fr[i]] = (0, 1 << lf[1])
        elif lf and lf[0] is True: rng[fr[i]] = (-(1 << (lf[1] - 1)), 1 << (lf[1] - 1))
    rec, ex = cut(I, st, step, f"{fn.name}#bb{head}", rng)
    return [(s, t[1] if isinstance(t, tuple) and t[0] == "goto" else t) for s, t in ex]
