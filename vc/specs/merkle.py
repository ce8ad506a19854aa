from specs import *
from bytesv import scalar_of
# ---------------------------------------------------------------- Merkle proofs (openzeppelin-crypto)
def val32(x): return x if isinstance(x, int) or is_sym(x) else scalar_of(x, 32)
def h2(S, a, b):
    """commutative hash: keccak256 of the two nodes in ascending order"""
    a, b = val32(a), val32(b)
    if S.branch(gt(a, b)): a, b = b, a
    return Str.word(S.keccak(Str([("w", a, 32), ("w", b, 32)])), 32)
LN = [(k,) for k in range(0, 5)]
def verify(S, proof, root, leaf, *_):
    def step(k, cur): return h2(S, cur, S.at(proof, k))
    return eq(val32(S.foreach(S.len(proof), step, (leaf,))), val32(root))
for n_ in ("verify", "verify_with_builder"): contract("merkle::Verifier::" + n_, "C30", opts={"lens": LN})(verify)
def multi(S, proof, flags, root, leaves, *_):
    L, P, T = S.len(leaves), S.len(proof), S.len(flags)
    S.require(eq(add(L, P), add(T, 1)), "InvalidTotalHashes")
    if S.branch(eq(T, 0)):
        if S.branch(gt(L, 0)): return eq(val32(root), val32(S.at(leaves, 0)))
        return eq(val32(root), val32(S.at(proof, 0)))
    S.require(gt(L, 0), "NoLeaves")
    def step(k, q, qp, pp):
        """take a node from the queue and a second one from the queue (flag) or the proof; append their parent"""
        S.require(lt(qp, S.len(q)), "queue exhausted"); a = S.at(q, qp)
        if S.branch(S.at(flags, k)):
            S.require(lt(add(qp, 1), S.len(q)), "InvalidRootChild"); b = S.at(q, add(qp, 1)); qp = add(qp, 2)
        else:
            S.require(lt(pp, P), "InvalidProofLength"); b = S.at(proof, pp); qp = add(qp, 1); pp = add(pp, 1)
        return M.cat_vals(S.I, q, Arr([h2(S, a, b)])), qp, pp
    q, qp, pp = S.foreach(T, step, (leaves, 0, 0))
    S.require(gt(S.len(q), 0))
    return eq(val32(root), val32(S.at(q, sub(S.len(q), 1))))
ML = [(p, f, l) for f in range(0, 4) for l in range(0, f + 2) for p in (f + 1 - l,)] + [(0, 0, 0), (1, 1, 0), (2, 1, 1), (1, 2, 1)]
for n_ in ("verify_multi_proof", "verify_multi_proof_with_builder"): contract("merkle::Verifier::" + n_, "C30", opts={"lens": ML})(multi)
# the hash helpers, over the library's Keccak hasher (roots/inst/src/crypto.rs::hash calls the real generic functions)
def W32(S, s): return Str.word(S.keccak(s), 32)
contract("vinst::crypto::hash::one", "C30")(lambda S, a: W32(S, Str([("w", val32(a), 32)])))
contract("vinst::crypto::hash::pair", "C30")(lambda S, a, b: W32(S, Str([("w", val32(a), 32), ("w", val32(b), 32)])))
contract("vinst::crypto::hash::commutative", "C30")(lambda S, a, b: h2(S, a, b))
contract("vinst::crypto::hash::bytes", "C30")(lambda S, a, b: W32(S, Str(list(a.p) + list(b.p))))
