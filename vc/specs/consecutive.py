from specs import *
from specs.checkpoints import ordered, pos, n_of, key, val
from specs.structs import abm, abm_write
from specs.erc721 import authorized, WADD, erc721_received
# ---------------------------------------------------------------- ERC-721 consecutive extension
# Owner of a token: the individual record if there is one; otherwise, for ids of the batch range that are not marked burned, the value of
# the first batch whose last id is at least the token id.
U96 = 1 << 96
def next_id(t):
    q = t.sequential_ownership; n = n_of(q)
    return ite(eq(n, 0), t.first_consecutive_id.get(), add(key(q, sub(n, 1)), 1))
def cown(S, t, tok):
    """owner as a term"""
    o = t.erc721.owners[tok].get(); q = t.sequential_ownership
    if isinstance(tok, int): raise Unsupported("token")
    p = pos(S, q, tok, False, "lower")
    b = ite(eq(p, n_of(q)), 0, val(q, p))
    return ite(Or(Not(eq(o, 0)), lt(tok, t.first_consecutive_id.get()), ge(tok, U96), abm(t.sequential_burn, tok)), o, b)
owner = cown
def inv(S, t, *toks):
    return ordered(S, t.sequential_ownership)
def base_inv(S, t, tok=None, to=None):
    """history ordered; owner of the token (if any) holds at least one; the receiver's balance has room"""
    out = ordered(S, t.sequential_ownership)
    if tok is not None:
        o = cown(S, t, tok); out.append(Or(eq(o, 0), gt(t.erc721.balances[o].get(), 0)))
    if to is not None: out.append(Or(eq(to, 0), lt(t.erc721.balances[to].get(), MAXU)))
    return out
class Ctx(InvCtx): pass
def only(tokarg, newowner=None):
    """every other token keeps its owner; balances change exactly with the ownership of this token"""
    def post(I, st0, st1, args):
        t0 = Obj(InvCtx(I, st0), args[0]); t1 = Obj(InvCtx(I, st1), args[0]); tok = args[tokarg]
        y = z3.Int("any.token"); x = z3.Int("any.account"); I.range_fact(y, 256); I.range_fact(x, 160)
        C0, C1 = InvCtx(I, st0), InvCtx(I, st1)
        b0, b1 = t0.erc721.balances[x].get(), t1.erc721.balances[x].get()
        o0, o1 = cown(C0, t0, tok), cown(C1, t1, tok)
        out = [("every other token keeps its owner", Or(eq(y, tok), eq(cown(C0, t0, y), cown(C1, t1, y)))),
               ("balance of every account == number of tokens it owns, preserved", Or(eq(x, 0), eq(sub(b1, b0), sub(ite(eq(o1, x), 1, 0), ite(eq(o0, x), 1, 0)))))]
        if newowner is not None: out.append(("the token now has the requested owner", eq(o1, newowner(args))))
        return out
    return post
E7 = "Erc721Consecutive::"; N7 = "<Erc721Consecutive as IErc721>::"
@contract(E7 + "_owner_of", "C13", inv=inv)
def c_owner_of(S, t, tok): return owner(S, t, tok)
@contract(E7 + "_require_owned", "C13", inv=inv, pub=False)
def c_require(S, t, tok):
    o = owner(S, t, tok); S.fail_if(eq(o, 0), "NonexistentToken"); return o
@contract(E7 + "_approve", "C13", inv=inv)
def c_approve_(S, t, to, tok, auth, emit):
    if S.branch(Or(emit, Not(eq(auth, 0)))):
        o = c_require(S, t, tok)
        S.require(Or(eq(auth, 0), eq(o, auth), t.erc721.operator_approvals[o][auth].get()), "InvalidApprover")
        if S.branch(emit): S.emit("Approval", o, to, tok)
    t.erc721.token_approvals[tok].set(to)
@contract(E7 + "_update", "C13", inv=lambda S, t, to, tok, a: base_inv(S, t, tok, to), post=only(2, lambda a: a[1]))
def c_update(S, t, to, tok, auth):
    frm = owner(S, t, tok); e = t.erc721
    if S.branch(Not(eq(auth, 0))): S.require(authorized(e, frm, auth, tok), "unauthorised")
    if S.branch(Not(eq(frm, 0))):
        e.token_approvals[tok].set(0); e.balances[frm].set(WADD(e.balances[frm].get(), MAXU))
    if S.branch(Not(eq(to, 0))): e.balances[to].set(WADD(e.balances[to].get(), 1))
    e.owners[tok].set(to); S.emit("Transfer", frm, to, tok)
    if S.branch(eq(to, 0)):
        if S.branch(lt(tok, next_id(t))):
            if not S.branch(abm(t.sequential_burn, tok)): abm_write(S, t.sequential_burn, tok, True)
    return frm
@contract(E7 + "_mint", "C13", inv=lambda S, t, to, tok: base_inv(S, t, tok, to), post=only(2, lambda a: a[1]))
def c_mint(S, t, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = c_update(S, t, to, tok, 0); S.require(eq(p, 0), "InvalidSender")
@contract(E7 + "_burn", "C13", inv=lambda S, t, tok: base_inv(S, t, tok), post=only(1, lambda a: 0))
def c_burn(S, t, tok): p = c_update(S, t, 0, tok, 0); S.fail_if(eq(p, 0), "NonexistentToken")
@contract(E7 + "_transfer", "C13", inv=lambda S, t, f, to, tok: base_inv(S, t, tok, to), post=only(3, lambda a: a[2]))
def c_transfer_(S, t, frm, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = c_update(S, t, to, tok, 0)
    S.fail_if(eq(p, 0), "NonexistentToken"); S.require(eq(p, frm), "IncorrectOwner")
@contract(E7 + "_safe_mint", "C13", inv=lambda S, t, to, tok, d: base_inv(S, t, tok, to), post=only(2, lambda a: a[1]))
def c_safe_mint(S, t, to, tok, d): c_mint(S, t, to, tok); erc721_received(S, t.erc721, S.sender, 0, to, tok, d)
@contract(E7 + "_safe_transfer", "C13", inv=lambda S, t, f, to, tok, d: base_inv(S, t, tok, to), post=only(3, lambda a: a[2]))
def c_safe_transfer_(S, t, frm, to, tok, d): c_transfer_(S, t, frm, to, tok); erc721_received(S, t.erc721, S.sender, frm, to, tok, d)
@contract(N7 + "owner_of", "C13", inv=inv)
def c_owner(S, t, tok): return c_require(S, t, tok)
@contract(N7 + "balance_of", "C13")
def c_balance(S, t, o): S.fail_if(eq(o, 0), "InvalidOwner"); return t.erc721.balances[o].get()
@contract(N7 + "transfer_from", "C13", inv=lambda S, t, f, to, tok: base_inv(S, t, tok, to), post=only(3, lambda a: a[2]))
def c_transfer(S, t, frm, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = c_update(S, t, to, tok, S.sender); S.require(eq(p, frm), "IncorrectOwner")
@contract(N7 + "safe_transfer_from_with_data", "C13", inv=lambda S, t, f, to, tok, d: base_inv(S, t, tok, to), post=only(3, lambda a: a[2]))
def c_safe_d(S, t, frm, to, tok, d): c_transfer(S, t, frm, to, tok); erc721_received(S, t.erc721, S.sender, frm, to, tok, d)
@contract(N7 + "safe_transfer_from", "C13", inv=lambda S, t, f, to, tok: base_inv(S, t, tok, to), post=only(3, lambda a: a[2]))
def c_safe(S, t, frm, to, tok): c_safe_d(S, t, frm, to, tok, Str([]))
@contract(N7 + "approve", "C13", inv=inv)
def c_approve(S, t, to, tok): c_approve_(S, t, to, tok, S.sender, True)
@contract(N7 + "set_approval_for_all", "C13")
def c_all(S, t, op, b):
    S.fail_if(eq(op, 0), "InvalidOperator"); t.erc721.operator_approvals[S.sender][op].set(b); S.emit("ApprovalForAll", S.sender, op, b)
@contract(N7 + "get_approved", "C13", inv=inv)
def c_get(S, t, tok): c_require(S, t, tok); return t.erc721.token_approvals[tok].get()
@contract(N7 + "is_approved_for_all", "C13")
def c_is_all(S, t, o, s): return t.erc721.operator_approvals[o][s].get()
def mint_inv(S, t, to, k):
    """the batch range starts above every batch and every id at or above it is unused (no individual owner, not burned)"""
    q = t.sequential_ownership; y = z3.Int("ckpt.y"); n = n_of(q); nx = next_id(t)
    yo = zint(t.erc721.owners[y].get()); yb = abm(t.sequential_burn, y)
    return ordered(S, q) + [Or(eq(n, 0), ge(key(q, 0), t.first_consecutive_id.get())), lt(add(t.erc721.balances[to].get(), k), U256),
                            z3.ForAll([y], z3.Implies(z3.And(y >= zint(nx), y < U96), z3.And(yo == 0, z3.Not(yb))), patterns=[yo])]
def batch_owner(I, st0, st1, args):
    t0 = Obj(InvCtx(I, st0), args[0]); t1 = Obj(InvCtx(I, st1), args[0]); to, k = args[1], args[2]
    y = z3.Int("any.token"); x = z3.Int("any.account"); I.range_fact(y, 256); I.range_fact(x, 160)
    C0, C1 = InvCtx(I, st0), InvCtx(I, st1); nx = next_id(t0)
    new = And(ge(y, nx), lt(y, add(nx, k)))
    b0, b1 = t0.erc721.balances[x].get(), t1.erc721.balances[x].get()
    return [("exactly the ids of the batch go to the receiver", eq(cown(C1, t1, y), ite(new, to, cown(C0, t0, y)))),
            ("the receiver's balance grows by the batch size", eq(sub(b1, b0), ite(eq(x, to), k, 0))),
            ("batches stay ordered", ordered(C1, t1.sequential_ownership)[0])]
@contract(E7 + "_mint_consecutive", "C13", inv=mint_inv, post=batch_owner)
def c_mint_consecutive(S, t, to, k):
    nx = next_id(t)
    if S.branch(gt(k, 0)):
        S.fail_if(eq(to, 0), "InvalidReceiver"); S.fail_if(gt(k, t.max_batch_size.get()), "ExceededMaxBatchMint")
        last = sub(add(nx, k), 1); S.require(lt(last, U96), "token id beyond 96 bits")
        from specs.checkpoints import push
        push(S, t.sequential_ownership, last, to)
        t.erc721.balances[to].set(WADD(t.erc721.balances[to].get(), k)); S.emit("ConsecutiveTransfer", nx, last, 0, to)
    S.require(lt(nx, U96), "token id beyond 96 bits")
    return nx
