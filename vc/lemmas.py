"""Lemmas: consequences of the contracts, discharged without code."""
import z3, time
from spec import Ob
from engine import zbool, Not, simp_bool
def prove(name, fn, mod):
    out = []
    for label, hyps, concl in fn():
        t = time.time(); s = z3.Solver(); s.set("timeout", 60000)
        s.add(*[zbool(h) for h in hyps])
        if s.check() == z3.unsat: out.append(Ob(name, label, "failed", "hypotheses are contradictory")); continue
        s.add(zbool(Not(concl))); r = s.check()
        out.append(Ob(name, label, "ok" if r == z3.unsat else "failed" if r == z3.sat else "unknown", "" if r == z3.unsat else str(s.model())[:800] if r == z3.sat else "no answer", t=time.time() - t))
    return out
