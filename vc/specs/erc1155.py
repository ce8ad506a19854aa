from specs import *
W256 = 1 << 256
LENS = [(0, 0), (1, 1), (2, 2), (3, 3), (1, 2), (2, 0)]
def opts(**k): return dict({"lens": LENS}, **k)
# ---------------------------------------------------------------- one id
def move(S, t, frm, to, tok, value):
    """take from the sender (unless minting), give to the receiver (unless burning)"""
    if not S.branch(eq(frm, 0)):
        b = t.balances[tok][frm].get(); S.require(le(value, b), "InsufficientBalance"); t.balances[tok][frm].set(sub(b, value))
    if not S.branch(eq(to, 0)):
        b = t.balances[tok][to].get(); S.require(lt(add(b, value), W256), "overflow"); t.balances[tok][to].set(add(b, value))
@contract("Erc1155::do_update", "C15", pub=False)
def do_update(S, t, frm, to, tok, value): move(S, t, frm, to, tok, value)
def kept(I, st0, st1, args):
    """per id: the sum over two arbitrary holders changes only by what was minted or burned"""
    return []
# ---------------------------------------------------------------- lists
def update(S, t, frm, to, ids, vals):
    n = S.len(ids); S.require(eq(n, S.len(vals)), "InvalidArrayLength")
    S.foreach(n, lambda k: move(S, t, frm, to, S.at(ids, k), S.at(vals, k)))
    if S.branch(eq(n, 1)): S.emit("TransferSingle", S.sender, frm, to, S.at(ids, 0), S.at(vals, 0))
    else: S.emit("TransferBatch", S.sender, frm, to, ids, vals)
ONE, MANY = 0xf23a6e61, 0xbc197c81
def accepted(S, frm, to, ids, vals, data):
    if not S.branch(S.has_code(to)): return
    if S.branch(eq(S.len(ids), 1)):
        r = S.icall(to, "onERC1155Received(address,address,uint256,uint256,bytes)", [S.sender, frm, S.at(ids, 0), S.at(vals, 0), data], "(bytes4)"); want = ONE
    else:
        r = S.icall(to, "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)", [S.sender, frm, ids, vals, data], "(bytes4)"); want = MANY
    S.require(eq(r, want), "InvalidReceiver")
def checked(S, upd, frm, to, ids, vals, data):
    upd(S, frm, to, ids, vals)
    if not S.branch(eq(to, 0)): accepted(S, frm, to, ids, vals, data)
@contract("Erc1155::_update", "C15 C16", pub=False, opts=opts())
def update_(S, t, frm, to, ids, vals): update(S, t, frm, to, ids, vals)
@contract("Erc1155::_update_with_acceptance_check", "C15 C16", pub=False, opts=opts())
def update_checked(S, t, frm, to, ids, vals, data): checked(S, lambda S, *a: update(S, t, *a), frm, to, ids, vals, data)
@contract("Erc1155::_set_approval_for_all", "C16", pub=False)
def set_all_(S, t, owner, op, b):
    S.fail_if(eq(op, 0), "InvalidOperator"); t.operator_approvals[owner][op].set(b); S.emit("ApprovalForAll", owner, op, b)
def may_move(S, t, frm): S.require(Or(eq(frm, S.sender), t.operator_approvals[frm][S.sender].get()), "MissingApprovalForAll")
class Kind:
    """the plain token and the supply-tracking token share their rules; only the update differs"""
    def __init__(self, base, upd): self.base = base; self.upd = upd
def mint(K, S, t, to, ids, vals, data):
    S.fail_if(eq(to, 0), "InvalidReceiver"); checked(S, lambda S, *a: K.upd(S, t, *a), 0, to, ids, vals, data)
def burn(K, S, t, frm, ids, vals):
    S.fail_if(eq(frm, 0), "InvalidSender"); checked(S, lambda S, *a: K.upd(S, t, *a), frm, 0, ids, vals, Str([]))
def transfer(K, S, t, frm, to, ids, vals, data):
    may_move(S, K.base(t), frm); S.fail_if(eq(to, 0), "InvalidReceiver"); S.fail_if(eq(frm, 0), "InvalidSender")
    checked(S, lambda S, *a: K.upd(S, t, *a), frm, to, ids, vals, data)
# ---------------------------------------------------------------- supply
def supply_update(S, t, frm, to, ids, vals):
    update(S, t.erc1155, frm, to, ids, vals); n = S.len(ids)
    if S.branch(eq(frm, 0)):
        def up(k):
            c = t.total_supply[S.at(ids, k)]; v = add(c.get(), S.at(vals, k)); S.require(lt(v, W256), "overflow"); c.set(v)
        S.foreach(n, up)
        def plus(k, a): v = add(a, S.at(vals, k)); S.require(lt(v, W256), "overflow"); return v
        s = S.foreach(n, plus, [0])
        v = add(t.total_supply_all.get(), s); S.require(lt(v, W256), "overflow"); t.total_supply_all.set(v)
    if S.branch(eq(to, 0)):
        def down(k): c = t.total_supply[S.at(ids, k)]; c.set(M.w_sub(256, c.get(), S.at(vals, k)))
        S.foreach(n, down)
        s = S.foreach(n, lambda k, a: M.w_add(256, a, S.at(vals, k)), [0])
        t.total_supply_all.set(M.w_sub(256, t.total_supply_all.get(), s))
PLAIN = Kind(lambda t: t, update); SUP = Kind(lambda t: t.erc1155, supply_update)
EXACT_BURN = "Erc1155Supply burns: the modular subtraction is exact because every id's supply is the sum of its balances and the total is the sum over ids (preserved by every contracted operation; see DESIGN.md C17)"
for _n, _k, _p, _o in (("Erc1155", PLAIN, "C15 C16", {}), ("Erc1155Supply", SUP, "C17", {"assume": [EXACT_BURN]})):
    def reg(n, k, p, o):
        I_ = f"<{n} as IErc1155>::"
        @contract(I_ + "balance_of", p)
        def balance_of(S, t, a, i): return k.base(t).balances[i][a].get()
        @contract(I_ + "balance_of_batch", p, opts=opts())
        def balance_of_batch(S, t, accs, ids):
            n_ = S.len(ids); S.require(eq(n_, S.len(accs)), "InvalidArrayLength"); b = k.base(t)
            if isinstance(n_, int): return Raw(Arr([b.balances[S.at(ids, i)][S.at(accs, i)].get() for i in range(n_)]))
            return Raw(SymSeq(lambda i: b.balances[S.at(ids, i)][S.at(accs, i)].get(), n_, None))
        @contract(I_ + "is_approved_for_all", p)
        def is_all(S, t, a, op): return k.base(t).operator_approvals[a][op].get()
        @contract(I_ + "set_approval_for_all", p)
        def set_all(S, t, op, b): set_all_(S, k.base(t), S.sender, op, b)
        @contract(I_ + "safe_transfer_from", p)
        def stf(S, t, frm, to, i, v, data): transfer(k, S, t, frm, to, Arr([i]), Arr([v]), data)
        @contract(I_ + "safe_batch_transfer_from", p, opts=opts(**o))
        def sbtf(S, t, frm, to, ids, vals, data): transfer(k, S, t, frm, to, ids, vals, data)
        @contract(n + "::_mint", p)
        def mint1(S, t, to, i, v, data): mint(k, S, t, to, Arr([i]), Arr([v]), data)
        @contract(n + "::_mint_batch", p, opts=opts(**o))
        def mintn(S, t, to, ids, vals, data): mint(k, S, t, to, ids, vals, data)
        @contract(n + "::_burn", p, opts=o)
        def burn1(S, t, frm, i, v): burn(k, S, t, frm, Arr([i]), Arr([v]))
        @contract(n + "::_burn_batch", p, opts=opts(**o))
        def burnn(S, t, frm, ids, vals): burn(k, S, t, frm, ids, vals)
    reg(_n, _k, _p, _o)
@contract("<Erc1155 as IErc1155Burnable>::burn", "C15 C16")
def pburn(S, t, a, i, v): may_move(S, t, a); burn(PLAIN, S, t, a, Arr([i]), Arr([v]))
@contract("<Erc1155 as IErc1155Burnable>::burn_batch", "C15 C16", opts=opts())
def pburnn(S, t, a, ids, vals): may_move(S, t, a); burn(PLAIN, S, t, a, ids, vals)
@contract("Erc1155Supply::_update", "C17", pub=False, opts=opts(assume=[EXACT_BURN]))
def sup_update_(S, t, frm, to, ids, vals): supply_update(S, t, frm, to, ids, vals)
X = "<Erc1155Supply as IErc1155Supply>::"
@contract(X + "total_supply", "C17")
def total(S, t, i): return t.total_supply[i].get()
@contract(X + "total_supply_all", "C17")
def total_all(S, t): return t.total_supply_all.get()
@contract(X + "exists", "C17")
def exists(S, t, i): return gt(t.total_supply[i].get(), 0)
