from specs import *
# ---------------------------------------------------------------- ledger invariant
def ledger_inv(t, *accs):
    """instances of: the sum of all balances equals the total supply"""
    sup = t.total_supply.get(); out = []
    for i, a in enumerate(accs):
        out.append(Or(eq(a, 0), le(t.balances[a].get(), sup)))
        for b in accs[i + 1:]: out.append(Or(eq(a, b), eq(a, 0), eq(b, 0), le(add(t.balances[a].get(), t.balances[b].get()), sup)))
    return out
def conserved(base=lambda a: a[0]):
    """invariant re-established: sum of balance changes equals the change of the total supply"""
    def post(I, st0, st1, args):
        o = base(args)
        if isinstance(o, SObj): o = Obj(InvCtx(I, st1), o)
        pb = o.balances.o.path + ("[]",); ps = o.total_supply.o.path
        return [("sum of balances == total supply preserved", eq(delta(I, st0, st1, pb), delta(I, st0, st1, ps)))]
    return post
@contract("Erc20::_update", "C01", inv=lambda S, t, f, to, v: ledger_inv(t, f, to), post=conserved())
def erc20_update(S, t, frm, to, v):
    if S.branch(eq(frm, 0)):
        s = t.total_supply.get(); S.require(lt(add(s, v), U256), "panic"); t.total_supply.set(add(s, v))
    else:
        b = t.balances[frm].get(); S.require(le(v, b), "InsufficientBalance"); t.balances[frm].set(sub(b, v))
    if S.branch(eq(to, 0)): t.total_supply.set(sub(t.total_supply.get(), v))
    else: t.balances[to].set(add(t.balances[to].get(), v))
    S.emit("Transfer", frm, to, v)
@contract("Erc20::_transfer", "C01", inv=lambda S, t, f, to, v: ledger_inv(t, f, to), post=conserved())
def erc20_transfer_(S, t, frm, to, v):
    S.fail_if(eq(frm, 0), "InvalidSender"); S.fail_if(eq(to, 0), "InvalidReceiver"); erc20_update(S, t, frm, to, v)
@contract("Erc20::_mint", "C01", inv=lambda S, t, a, v: ledger_inv(t, a), post=conserved())
def erc20_mint(S, t, acc, v):
    S.fail_if(eq(acc, 0), "InvalidReceiver"); erc20_update(S, t, 0, acc, v)
@contract("Erc20::_burn", "C01", inv=lambda S, t, a, v: ledger_inv(t, a), post=conserved())
def erc20_burn_(S, t, acc, v):
    S.fail_if(eq(acc, 0), "InvalidSender"); erc20_update(S, t, acc, 0, v)
@contract("<Erc20 as IErc20>::transfer", "C01 C02", inv=lambda S, t, to, v: ledger_inv(t, S.sender, to), post=conserved())
def erc20_transfer(S, t, to, v): erc20_transfer_(S, t, S.sender, to, v); return True
@contract("<Erc20 as IErc20Burnable>::burn", "C01 C02", inv=lambda S, t, v: ledger_inv(t, S.sender), post=conserved())
def erc20_burn(S, t, v): erc20_burn_(S, t, S.sender, v)
@contract("<Erc20 as IErc20>::total_supply", "C01")
def erc20_supply(S, t): return t.total_supply.get()
@contract("<Erc20 as IErc20>::balance_of", "C01")
def erc20_balance(S, t, a): return t.balances[a].get()
# ---------------------------------------------------------------- allowances
@contract("<Erc20 as IErc20>::allowance", "C02")
def erc20_allowance(S, t, o, s): return t.allowances[o][s].get()
@contract("Erc20::_approve", "C02")
def erc20_approve_(S, t, owner, spender, v, emit):
    S.fail_if(eq(owner, 0), "InvalidApprover"); S.fail_if(eq(spender, 0), "InvalidSpender")
    t.allowances[owner][spender].set(v)
    if S.branch(emit): S.emit("Approval", owner, spender, v)
    return True
@contract("Erc20::_spend_allowance", "C02")
def erc20_spend(S, t, owner, spender, v):
    a = t.allowances[owner][spender].get()
    if S.branch(eq(a, MAXU)): return
    S.require(le(v, a), "InsufficientAllowance"); erc20_approve_(S, t, owner, spender, sub(a, v), False)
@contract("<Erc20 as IErc20>::approve", "C02")
def erc20_approve(S, t, spender, v): return erc20_approve_(S, t, S.sender, spender, v, True)
@contract("<Erc20 as IErc20>::transfer_from", "C01 C02", inv=lambda S, t, f, to, v: ledger_inv(t, f, to), post=conserved())
def erc20_transfer_from(S, t, frm, to, v):
    erc20_spend(S, t, frm, S.sender, v); erc20_transfer_(S, t, frm, to, v); return True
@contract("<Erc20 as IErc20Burnable>::burn_from", "C01 C02", inv=lambda S, t, a, v: ledger_inv(t, a), post=conserved())
def erc20_burn_from(S, t, acc, v):
    erc20_spend(S, t, acc, S.sender, v); erc20_burn_(S, t, acc, v)
