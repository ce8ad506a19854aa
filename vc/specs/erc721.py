from specs import *
# ---------------------------------------------------------------- invariant: balance[a] == number of tokens owned by a
def own_inv(t, *pairs):
    """instances: an owner of a token has balance >= 1; balances stay below 2^256-1 (fewer tokens than that exist)"""
    out = []
    for tok in pairs:
        o = t.owners[tok].get(); out.append(Or(eq(o, 0), gt(t.balances[o].get(), 0)))
    return out
def bal_room(t, *accs): return [Or(eq(a, 0), lt(t.balances[a].get(), MAXU)) for a in accs]
def counted(base=lambda a: a[0]):
    """re-established: for every account x != 0, the change of balance[x] is the change of the number of tokens owned by x"""
    def post(I, st0, st1, args):
        o = base(args)
        if isinstance(o, SObj): o = Obj(InvCtx(I, st1), o)
        po = o.owners.o.path + ("[]",); pb = o.balances.o.path + ("[]",)
        x = z3.Int("any.account"); m1 = st1.store.get(po); d = 0
        if m1 is not None:
            cur = Map(m1.base, ())
            for k, v in m1.upd:
                d = add(d, sub(ite(eq(v, x), 1, 0), ite(eq(cur.read(k), x), 1, 0))); cur = Map(cur.base, cur.upd + ((k, v),))
        mb = st1.store.get(pb); db = 0 if mb is None else sub(mb.read((x,)), Map(mb.base, ()).read((x,)))
        return [("balance of every account == number of tokens it owns, preserved", Or(eq(x, 0), lt(x, 0), ge(x, 1 << 160), eq(db, d)))]
    return post
WADD = lambda b, v: mod(add(b, v), U256)
def authorized(t, owner, sp, tok):
    return And(Not(eq(sp, 0)), Or(eq(owner, sp), t.operator_approvals[owner][sp].get(), eq(t.token_approvals[tok].get(), sp)))
@contract("Erc721::_owner_of", "C09", pub=False)
def owner_of_(S, t, tok): return t.owners[tok].get()
@contract("Erc721::_get_approved", "C10", pub=False)
def get_approved_(S, t, tok): return t.token_approvals[tok].get()
@contract("Erc721::_require_owned", "C09", pub=False)
def require_owned(S, t, tok):
    o = t.owners[tok].get(); S.fail_if(eq(o, 0), "NonexistentToken"); return o
@contract("Erc721::_is_authorized", "C10")
def is_authorized(S, t, o, s, tok): return authorized(t, o, s, tok)
@contract("Erc721::_check_authorized", "C10")
def check_authorized(S, t, o, s, tok): S.require(authorized(t, o, s, tok), "unauthorised")
@contract("Erc721::_increase_balance", "C09 C13")
def increase_balance(S, t, a, v): t.balances[a].set(WADD(t.balances[a].get(), v))
@contract("Erc721::_update", "C09 C10", inv=lambda S, t, to, tok, au: own_inv(t, tok) + bal_room(t, to), post=counted())
def erc721_update(S, t, to, tok, auth):
    frm = t.owners[tok].get()
    if S.branch(Not(eq(auth, 0))): S.require(authorized(t, frm, auth, tok), "unauthorised")
    if S.branch(Not(eq(frm, 0))):
        t.token_approvals[tok].set(0); t.balances[frm].set(WADD(t.balances[frm].get(), MAXU))
    if S.branch(Not(eq(to, 0))): t.balances[to].set(WADD(t.balances[to].get(), 1))
    t.owners[tok].set(to); S.emit("Transfer", frm, to, tok); return frm
@contract("Erc721::_mint", "C09", inv=lambda S, t, to, tok: own_inv(t, tok) + bal_room(t, to), post=counted())
def erc721_mint(S, t, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = erc721_update(S, t, to, tok, 0); S.require(eq(p, 0), "InvalidSender")
@contract("Erc721::_burn", "C09", inv=lambda S, t, tok: own_inv(t, tok), post=counted())
def erc721_burn_(S, t, tok): p = erc721_update(S, t, 0, tok, 0); S.fail_if(eq(p, 0), "NonexistentToken")
@contract("Erc721::_transfer", "C09", inv=lambda S, t, f, to, tok: own_inv(t, tok) + bal_room(t, to), post=counted())
def erc721_transfer_(S, t, frm, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = erc721_update(S, t, to, tok, 0)
    S.fail_if(eq(p, 0), "NonexistentToken"); S.require(eq(p, frm), "IncorrectOwner")
@contract("Erc721::_approve", "C10")
def erc721_approve_(S, t, to, tok, auth, emit):
    if S.branch(Or(emit, Not(eq(auth, 0)))):
        o = require_owned(S, t, tok)
        S.require(Or(eq(auth, 0), eq(o, auth), t.operator_approvals[o][auth].get()), "InvalidApprover")
        if S.branch(emit): S.emit("Approval", o, to, tok)
    t.token_approvals[tok].set(to)
@contract("Erc721::_set_approval_for_all", "C10")
def erc721_set_all_(S, t, owner, op, b):
    S.fail_if(eq(op, 0), "InvalidOperator"); t.operator_approvals[owner][op].set(b); S.emit("ApprovalForAll", owner, op, b)
SEL721 = 0x150b7a02
@contract("Erc721::_check_on_erc721_received", "C11")
def erc721_received(S, t, op, frm, to, tok, data):
    if not S.branch(S.has_code(to)): return
    r = S.icall(to, "onERC721Received(address,address,uint256,bytes)", [op, frm, tok, data], "(bytes4)")
    S.require(eq(r, SEL721), "InvalidReceiver")
@contract("Erc721::_safe_mint", "C09 C11", inv=lambda S, t, to, tok, d: own_inv(t, tok) + bal_room(t, to), post=counted())
def erc721_safe_mint(S, t, to, tok, data): erc721_mint(S, t, to, tok); erc721_received(S, t, S.sender, 0, to, tok, data)
@contract("Erc721::_safe_transfer", "C09 C11", inv=lambda S, t, f, to, tok, d: own_inv(t, tok) + bal_room(t, to), post=counted())
def erc721_safe_transfer_(S, t, frm, to, tok, data): erc721_transfer_(S, t, frm, to, tok); erc721_received(S, t, S.sender, frm, to, tok, data)
N = "<Erc721 as IErc721>::"
@contract(N + "balance_of", "C09")
def balance_of(S, t, o): S.fail_if(eq(o, 0), "InvalidOwner"); return t.balances[o].get()
@contract(N + "owner_of", "C09")
def owner_of(S, t, tok): return require_owned(S, t, tok)
@contract(N + "transfer_from", "C09 C10", inv=lambda S, t, f, to, tok: own_inv(t, tok) + bal_room(t, to), post=counted())
def transfer_from(S, t, frm, to, tok):
    S.fail_if(eq(to, 0), "InvalidReceiver"); p = erc721_update(S, t, to, tok, S.sender); S.require(eq(p, frm), "IncorrectOwner")
@contract(N + "safe_transfer_from_with_data", "C09 C10 C11", inv=lambda S, t, f, to, tok, d: own_inv(t, tok) + bal_room(t, to), post=counted())
def safe_from_data(S, t, frm, to, tok, data): transfer_from(S, t, frm, to, tok); erc721_received(S, t, S.sender, frm, to, tok, data)
@contract(N + "safe_transfer_from", "C09 C10 C11", inv=lambda S, t, f, to, tok: own_inv(t, tok) + bal_room(t, to), post=counted())
def safe_from(S, t, frm, to, tok): safe_from_data(S, t, frm, to, tok, Str([]))
@contract(N + "approve", "C10")
def approve(S, t, to, tok): erc721_approve_(S, t, to, tok, S.sender, True)
@contract(N + "set_approval_for_all", "C10")
def set_all(S, t, op, b): erc721_set_all_(S, t, S.sender, op, b)
@contract(N + "get_approved", "C10")
def get_approved(S, t, tok): require_owned(S, t, tok); return t.token_approvals[tok].get()
@contract(N + "is_approved_for_all", "C10")
def is_all(S, t, o, s): return t.operator_approvals[o][s].get()
@contract("<Erc721 as IErc721Burnable>::burn", "C09 C10", inv=lambda S, t, tok: own_inv(t, tok), post=counted())
def burn721(S, t, tok): erc721_update(S, t, 0, tok, S.sender)
# ---------------------------------------------------------------- ERC-721 wrapper
# ---------------------------------------------------------------- enumeration
EN = "<Erc721Enumerable as IErc721Enumerable>::"
@contract(EN + "total_supply", "C12")
def en_total(S, t): return t.all_tokens.len()
@contract(EN + "token_by_index", "C12")
def en_by_index(S, t, i):
    S.require(lt(i, t.all_tokens.len()), "OutOfBoundsIndex"); return t.all_tokens[i].get()
OWNED = lambda S: S.I.const("ghost.number_of_tokens_of_owner", 256)
def listed_inv(S, t, o, i): return [Or(lt(i, OWNED(S)), eq(t.owned_tokens[o][i].get(), 0))]
@contract(EN + "token_of_owner_by_index", "C12", inv=lambda S, t, o, i: listed_inv(S, t, o, i) + [Or(ge(i, OWNED(S)), Not(eq(t.owned_tokens[o][i].get(), 0)))], opts={"nosummary": True})
def en_of_owner(S, t, o, i):
    S.require(lt(i, OWNED(S)), "OutOfBoundsIndex"); return t.owned_tokens[o][i].get()
@contract(EN + "token_of_owner_by_index", "C12", inv=lambda S, t, o, i: [lt(i, OWNED(S)), eq(t.owned_tokens[o][i].get(), 0)], opts={"nosummary": True, "variant": "listed token id 0"})
def en_of_owner0(S, t, o, i): return en_of_owner(S, t, o, i)
@contract("Erc721Enumerable::_check_increase_balance", "C12")
def en_check(S, a): S.require(eq(a, 0), "ForbiddenBatchMint")
@contract("Erc721Enumerable::_add_token_to_all_tokens_enumeration", "C12")
def en_add_all(S, t, tok):
    n = t.all_tokens.len(); t.all_tokens_index[tok].set(n); t.all_tokens[n].set(tok); t.all_tokens.set_len(add(n, 1))
def en_pos(t, tok):
    """the token is listed at its recorded position, and so is the last token"""
    n = t.all_tokens.len(); i = t.all_tokens_index[tok].get(); l = t.all_tokens[sub(n, 1)].get()
    return [gt(n, 0), lt(i, n), eq(t.all_tokens[i].get(), tok), eq(t.all_tokens_index[l].get(), sub(n, 1))]
def en_kept(I, st0, st1, args):
    """positions stay consistent for every token, and no other token disappears"""
    t0 = Obj(InvCtx(I, st0), args[0]); t1 = Obj(InvCtx(I, st1), args[0]); x = z3.Int("any.token"); tok = args[1]
    def ok(t): i = t.all_tokens_index[x].get(); return And(lt(i, t.all_tokens.len()), eq(t.all_tokens[i].get(), x))
    return [("every other listed token stays listed once at its recorded position", Or(eq(x, tok), Not(ok(t0)), ok(t1))),
            ("one token fewer", eq(add(t1.all_tokens.len(), 1), t0.all_tokens.len()))]
@contract("Erc721Enumerable::_remove_token_from_all_tokens_enumeration", "C12", inv=lambda S, t, tok: en_pos(t, tok), post=en_kept)
def en_remove_all(S, t, tok):
    n = sub(t.all_tokens.len(), 1); i = t.all_tokens_index[tok].get(); last = t.all_tokens[n].get()
    t.all_tokens[i].set(last); t.all_tokens_index[last].set(i); t.all_tokens_index[tok].set(0)
    t.all_tokens[n].set(0); t.all_tokens.set_len(n)
@contract("Erc721Enumerable::_add_token_to_owner_enumeration", "C12", inv=lambda S, t, to, tok, e: [gt(e.balances[to].get(), 0)])
def en_add(S, t, to, tok, e):
    n = sub(balance_of(S, e, to), 1); t.owned_tokens[to][n].set(tok); t.owned_tokens_index[tok].set(n)
def en_own_pos(t, frm, tok, e):
    n = e.balances[frm].get(); i = t.owned_tokens_index[tok].get(); l = t.owned_tokens[frm][n].get()
    return [le(i, n), eq(t.owned_tokens[frm][i].get(), tok), eq(t.owned_tokens_index[l].get(), n)]
def en_own_kept(I, st0, st1, args):
    t0 = Obj(InvCtx(I, st0), args[0]); t1 = Obj(InvCtx(I, st1), args[0]); frm, tok = args[1], args[2]; e = Obj(InvCtx(I, st0), args[3])
    x = z3.Int("any.token"); n = e.balances[frm].get()
    def ok(t, last): i = t.owned_tokens_index[x].get(); return And(last(i), eq(t.owned_tokens[frm][i].get(), x))
    return [("every other token of the owner stays listed at its recorded position", Or(eq(x, tok), Not(ok(t0, lambda i: le(i, n))), ok(t1, lambda i: lt(i, n))))]
@contract("Erc721Enumerable::_remove_token_from_owner_enumeration", "C12", inv=lambda S, t, f, tok, e: en_own_pos(t, f, tok, e), post=en_own_kept)
def en_remove(S, t, frm, tok, e):
    n = balance_of(S, e, frm); i = t.owned_tokens_index[tok].get(); last = t.owned_tokens[frm][n].get()
    t.owned_tokens[frm][i].set(last); t.owned_tokens_index[last].set(i); t.owned_tokens_index[tok].set(0); t.owned_tokens[frm][n].set(0)
# ---------------------------------------------------------------- wrapper
UND_XFER, UND_SAFE = "transferFrom(address,address,uint256)", "safeTransferFrom(address,address,uint256,bytes)"
def wrap_inv(I, st, args, k):
    """the ownership invariant of ERC-721 (kept by every contracted operation, C09) at the token of this iteration"""
    e = Obj(InvCtx(I, st), args[3]); tok = I.seq_get(args[2], k); return own_inv(e, tok) + bal_room(e, args[1])
WR_OPTS = {"lens": [(0,), (1,), (2,)], "loop_inv": wrap_inv, "assume": ["inside the wrapper's loops the ERC-721 ownership invariant holds at the start of each iteration (it is preserved by every operation under contract, C09)"]}
@contract("Erc721Wrapper::underlying", "C14")
def wr_und(S, t): return t.underlying.get()
@contract("Erc721Wrapper::deposit_for", "C14", inv=lambda S, t, a, ids, e: seq_inv(S, e, a, ids), opts=WR_OPTS)
def wr_deposit(S, t, acc, ids, e):
    u = t.underlying.get()
    def one(k):
        tok = S.at(ids, k); S.icall(u, UND_XFER, [S.sender, S.this_address, tok], "(())"); erc721_safe_mint(S, e, acc, tok, Str([]))
    S.foreach(S.len(ids), one); return True
@contract("Erc721Wrapper::withdraw_to", "C14", inv=lambda S, t, a, ids, e: seq_inv(S, e, a, ids), opts=WR_OPTS)
def wr_withdraw(S, t, acc, ids, e):
    u = t.underlying.get()
    def one(k):
        tok = S.at(ids, k); erc721_update(S, e, 0, tok, S.sender); S.icall(u, UND_SAFE, [S.this_address, acc, tok, Str([])], "(())")
    S.foreach(S.len(ids), one); return True
@contract("Erc721Wrapper::on_erc721_received", "C14", inv=lambda S, t, op, f, tok, d, e: own_inv(e, tok) + bal_room(e, f))
def wr_received(S, t, op, frm, tok, data, e):
    S.require(eq(S.sender, t.underlying.get()), "UnsupportedToken"); erc721_safe_mint(S, e, frm, tok, Str([])); return SEL721
@contract("Erc721Wrapper::_recover", "C14", inv=lambda S, t, a, tok, e: own_inv(e, tok) + bal_room(e, a))
def wr_recover(S, t, acc, tok, e):
    S.require(eq(S.static(t.underlying.get(), "ownerOf(uint256)", [tok], "(address)"), S.this_address), "IncorrectOwner")
    erc721_safe_mint(S, e, acc, tok, Str([])); return tok
def seq_inv(S, e, a, ids):
    """bounded instances: the invariant at every listed token"""
    if not isinstance(ids, Arr): return []
    out = bal_room(e, a)
    for x in ids.e: out += own_inv(e, x)
    return out
