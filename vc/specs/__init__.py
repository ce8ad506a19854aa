"""Contracts of the functions of /repo, by module, and the registry that ties them to properties."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import *
from spec import _Infeasible
from engine import SymSeq, Arr
REG = []; LEM = []
def contract(name, props, **kw):
    """register a contract; several names share one spec when given a list"""
    props = props.split()
    def d(fn):
        for n in ([name] if isinstance(name, str) else name):
            c = Contract(n, fn, kw.get("inv"), kw.get("post"), kw.get("pub", True), kw.get("opts"))
            c.props = set(props); c.kw = kw; REG.append(c)
        return fn
    return d
def lemma(name, props):
    """a lemma over the contracts (no code): fn() -> list of (label, hypotheses, conclusion)"""
    def d(fn): LEM.append((name, set(props.split()), fn)); return fn
    return d
def opaque_val(nm): return z3.Int(nm)
def opaque_seq(I, nm):
    """a sequence of any length of values that the function only passes on"""
    n = z3.Int(nm + ".len"); I.facts.append(z3.And(n >= 0, n < z3.IntVal(1 << 32))); f = z3.Function(nm + ".at", z3.IntSort(), z3.IntSort())
    return E.SymSeq(lambda k: f(E.zint(k)), n, None)
U256 = 1 << 256
MAXU = U256 - 1
def delta(I, st0, st1, path, fil=None):
    """sum over all keys of (value after - value before), from the update chain"""
    m1 = st1.store.get(path)
    if m1 is None: return 0
    m0 = st0.store.get(path)
    d = 0
    cur = Map(m1.base, ())
    if m0 is not None and m0.upd:
        raise Unsupported("delta from a non-initial state")
    for k, v in m1.upd:
        d = add(d, sub(v, cur.read(k))); cur = Map(cur.base, cur.upd + ((k, v),))
    return d
def load_all():
    import importlib, pkgutil
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(os.path.abspath(__file__))])): importlib.import_module("specs." + m)
