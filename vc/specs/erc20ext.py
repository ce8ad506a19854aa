from specs import *
from specs.erc20 import *
# ---------------------------------------------------------------- SafeErc20
def opt_ret(S, token, data):
    """low-level token call: did the token really accept it?"""
    S.require(S.has_code(token), "SafeErc20FailedOperation")
    ok, r = S.call(token, data, maxlen=32)
    S.require(ok, "SafeErc20FailedOperation")
    S.require(Or(eq(r.length(), 0), S.reads_true(r)), "SafeErc20FailedOperation")
@contract("<SafeErc20 as ISafeErc20>::safe_transfer", "C08")
def safe_transfer(S, t, token, to, v): opt_ret(S, token, S.calldata("transfer(address,uint256)", to, v))
@contract("<SafeErc20 as ISafeErc20>::safe_transfer_from", "C08")
def safe_transfer_from(S, t, token, frm, to, v): opt_ret(S, token, S.calldata("transferFrom(address,address,uint256)", frm, to, v))
@contract("<SafeErc20 as ISafeErc20>::force_approve", "C08")
def force_approve(S, t, token, sp, v):
    S.require(S.has_code(token), "SafeErc20FailedOperation")
    d = S.calldata("approve(address,uint256)", sp, v)
    ok, r = S.call(token, d, maxlen=32)
    if ok and S.branch(Or(eq(r.length(), 0), S.reads_true(r))): return
    opt_ret(S, token, S.calldata("approve(address,uint256)", sp, 0)); opt_ret(S, token, d)
def tok_allowance(S, token, sp):
    S.require(S.has_code(token), "SafeErc20FailedOperation")
    ok, r = S.call(token, S.calldata("allowance(address,address)", S.this_address, sp), maxlen=32)
    S.require(ok, "SafeErc20FailedOperation"); return S.reads_int(r)
@contract("<SafeErc20 as ISafeErc20>::safe_increase_allowance", "C08")
def safe_increase(S, t, token, sp, v):
    a = tok_allowance(S, token, sp); S.require(lt(add(a, v), U256), "panic"); force_approve(S, t, token, sp, add(a, v))
@contract("<SafeErc20 as ISafeErc20>::safe_decrease_allowance", "C08")
def safe_decrease(S, t, token, sp, v):
    a = tok_allowance(S, token, sp); S.require(le(v, a), "Decrease"); force_approve(S, t, token, sp, sub(a, v))
# ---------------------------------------------------------------- flash mint
FL = "<Erc20FlashMint as IErc3156FlashLender>::"
@contract(FL + "max_flash_loan", "C04")
def max_flash_loan(S, t, token, erc20):
    if S.branch(eq(token, S.this_address)): return sub(MAXU, erc20.total_supply.get())
    return 0
@contract(FL + "flash_fee", "C04")
def flash_fee(S, t, token, v):
    S.require(eq(token, S.this_address), "UnsupportedToken"); return t.flash_fee_value.get()
MAGIC_FLASH = int.from_bytes(__import__("bytesv").keccak256(b"ERC3156FlashBorrower.onFlashLoan"), "big")
@contract(FL + "flash_loan", "C04", inv=lambda S, t, r, tok, v, d, e: ledger_inv(e, r, t.flash_fee_receiver_address.get()), post=conserved(lambda a: a[5]))
def flash_loan(S, t, receiver, token, v, data, erc20):
    S.require(le(v, max_flash_loan(S, t, token, erc20)), "ExceededMaxLoan")
    fee = flash_fee(S, t, token, v)
    S.require(S.has_code(receiver), "InvalidReceiver")
    erc20_mint(S, erc20, receiver, v)
    r = S.icall(receiver, "onFlashLoan(address,address,uint256,uint256,bytes)", [S.sender, token, v, fee, data], "(bytes32)")
    S.require(eq(r, MAGIC_FLASH), "InvalidReceiver")
    S.require(lt(add(v, fee), U256), "panic")
    erc20_spend(S, erc20, receiver, S.this_address, add(v, fee))
    fr = t.flash_fee_receiver_address.get()
    if S.branch(Or(eq(fee, 0), eq(fr, 0))): erc20_burn_(S, erc20, receiver, add(v, fee))
    else: erc20_burn_(S, erc20, receiver, v); erc20_transfer_(S, erc20, receiver, fr, fee)
    return True
# ---------------------------------------------------------------- ERC-20 wrapper
WR = "<Erc20Wrapper as IErc20Wrapper>::"
@contract(WR + "underlying", "C05")
def wr_underlying(S, t): return t.underlying.get()
@contract(WR + "decimals", "C05")
def wr_decimals(S, t): return t.underlying_decimals.get()
@contract(WR + "deposit_for", "C05", inv=lambda S, t, a, v, e: ledger_inv(e, a), post=conserved(lambda a: a[3]))
def wr_deposit(S, t, acc, v, erc20):
    S.fail_if(eq(S.sender, S.this_address), "InvalidSender"); S.fail_if(eq(acc, S.this_address), "InvalidReceiver")
    safe_transfer_from(S, t.safe_erc20, t.underlying.get(), S.sender, S.this_address, v)
    erc20_mint(S, erc20, acc, v); return True
@contract(WR + "withdraw_to", "C05", inv=lambda S, t, a, v, e: ledger_inv(e, S.sender), post=conserved(lambda a: a[3]))
def wr_withdraw(S, t, acc, v, erc20):
    S.fail_if(eq(acc, S.this_address), "InvalidReceiver")
    erc20_burn_(S, erc20, S.sender, v)
    safe_transfer(S, t.safe_erc20, t.underlying.get(), acc, v); return True
@contract("Erc20Wrapper::_recover", "C05", inv=lambda S, t, a, e: ledger_inv(e, a), post=conserved(lambda a: a[2]))
def wr_recover(S, t, acc, erc20):
    b = S.static(t.underlying.get(), "balanceOf(address)", [S.this_address], "(uint256)")
    S.require(le(erc20.total_supply.get(), b), "panic"); v = sub(b, erc20.total_supply.get())
    if S.branch(gt(v, 0)): erc20_mint(S, erc20, acc, v)
    return v
# ---------------------------------------------------------------- Math::mul_div, ERC-4626
def muldiv(S, x, y, d, ceil):
    S.fail_if(eq(d, 0), "panic")
    p = mul(x, y); q = div(add(p, sub(d, 1)) if ceil else p, d)
    S.require(lt(q, U256), "panic"); return q
def rnd(r): return r.vname == "Ceil"
@contract("<Uint<256, 4> as Math>::mul_div", "C25 C06")
def mul_div(S, x, y, d, r): return muldiv(S, x, y, d, rnd(r))
V = "<Erc4626 as IErc4626>::"
@contract(V + "asset", "C07")
def v_asset(S, t): return t.asset.get()
@contract(V + "total_assets", "C06")
def v_total(S, t): return S.static(t.asset.get(), "balanceOf(address)", [S.this_address], "(uint256)")
def v_shares(S, t, assets, erc20, ceil):
    off = S.pow(10, t.decimals_offset.get()); m = add(erc20.total_supply.get(), off)
    S.require(And(lt(off, U256), lt(m, U256)), "panic")
    d = add(v_total(S, t), 1); S.require(lt(d, U256), "panic")
    return muldiv(S, assets, m, d, ceil)
def v_assets(S, t, shares, erc20, ceil):
    m = add(v_total(S, t), 1); S.require(lt(m, U256), "panic")
    off = S.pow(10, t.decimals_offset.get()); d = add(erc20.total_supply.get(), off)
    S.require(And(lt(off, U256), lt(d, U256)), "panic")
    return muldiv(S, shares, m, d, ceil)
@contract("Erc4626::_convert_to_shares", "C06", pub=False)
def v_shares_(S, t, a, r, e): return v_shares(S, t, a, e, rnd(r))
@contract("Erc4626::_convert_to_assets", "C06", pub=False)
def v_assets_(S, t, s, r, e): return v_assets(S, t, s, e, rnd(r))
@contract([V + "convert_to_shares", V + "preview_deposit"], "C06")
def v_to_shares(S, t, a, e): return v_shares(S, t, a, e, False)
@contract([V + "convert_to_assets", V + "preview_redeem"], "C06")
def v_to_assets(S, t, s, e): return v_assets(S, t, s, e, False)
@contract(V + "preview_withdraw", "C06")
def v_prev_withdraw(S, t, a, e): return v_shares(S, t, a, e, True)
@contract(V + "preview_mint", "C06")
def v_prev_mint(S, t, s, e): return v_assets(S, t, s, e, True)
@contract([V + "max_deposit", V + "max_mint"], "C07")
def v_max(S, t, r): return MAXU
@contract(V + "max_withdraw", "C07 C06")
def v_max_withdraw(S, t, o, e): return v_assets(S, t, e.balances[o].get(), e, False)
@contract(V + "max_redeem", "C07")
def v_max_redeem(S, t, o, e): return e.balances[o].get()
@contract("Erc4626::decimals", "C06")
def v_decimals(S, t):
    d = add(t.underlying_decimals.get(), t.decimals_offset.get()); S.require(lt(d, 256), "panic"); return d
@contract("Erc4626::_deposit", "C07", pub=False, inv=lambda S, t, c, r, a, s, e: ledger_inv(e, r), post=conserved(lambda a: a[5]))
def v_deposit_(S, t, caller, receiver, assets, shares, e):
    safe_transfer_from(S, t.safe_erc20, t.asset.get(), caller, S.this_address, assets)
    erc20_mint(S, e, receiver, shares); S.emit("Deposit", caller, receiver, assets, shares)
@contract("Erc4626::_withdraw", "C07", pub=False, inv=lambda S, t, c, r, o, a, s, e: ledger_inv(e, o), post=conserved(lambda a: a[6]))
def v_withdraw_(S, t, caller, receiver, owner, assets, shares, e):
    if S.branch(Not(eq(caller, owner))): erc20_spend(S, e, owner, caller, shares)
    erc20_burn_(S, e, owner, shares)
    safe_transfer(S, t.safe_erc20, t.asset.get(), receiver, assets); S.emit("Withdraw", caller, receiver, owner, assets, shares)
@contract(V + "deposit", "C07", inv=lambda S, t, a, r, e: ledger_inv(e, r), post=conserved(lambda a: a[3]))
def v_deposit(S, t, assets, receiver, e):
    sh = v_to_shares(S, t, assets, e); v_deposit_(S, t, S.sender, receiver, assets, sh, e); return sh
@contract(V + "mint", "C07", inv=lambda S, t, a, r, e: ledger_inv(e, r), post=conserved(lambda a: a[3]))
def v_mint(S, t, shares, receiver, e):
    a = v_prev_mint(S, t, shares, e); v_deposit_(S, t, S.sender, receiver, a, shares, e); return a
@contract(V + "withdraw", "C07", inv=lambda S, t, a, r, o, e: ledger_inv(e, o), post=conserved(lambda a: a[4]))
def v_withdraw(S, t, assets, receiver, owner, e):
    S.require(le(assets, v_max_withdraw(S, t, owner, e)), "ExceededMaxWithdraw")
    sh = v_prev_withdraw(S, t, assets, e); v_withdraw_(S, t, S.sender, receiver, owner, assets, sh, e); return sh
@contract(V + "redeem", "C07", inv=lambda S, t, a, r, o, e: ledger_inv(e, o), post=conserved(lambda a: a[4]))
def v_redeem(S, t, shares, receiver, owner, e):
    S.require(le(shares, e.balances[owner].get()), "ExceededMaxRedeem")
    a = v_to_assets(S, t, shares, e); v_withdraw_(S, t, S.sender, receiver, owner, a, shares, e); return a
# Rounding in the vault's favour, as consequences of the quotients above.  X = supply + 10^offset, Y = total assets + 1.
def _vault():
    X, Y, a, s, w, r = z3.Ints("X Y a s w r")
    pos = [X >= 1, Y >= 1, a >= 0, s >= 0, w >= 0, r >= 0]
    fl = lambda q, x, m, d: [q * d <= x * m, x * m < q * d + d]
    ce = lambda q, x, m, d: [q * d >= x * m, q * d < x * m + d]
    return X, Y, a, s, w, r, pos, fl, ce
@lemma("vault rounding: no round trip in an unchanged vault returns more than was put in", "C06")
def vault_round_trips():
    X, Y, a, s, w, r, pos, fl, ce = _vault()
    return [("deposit a for s shares, redeem s for r assets: r <= a", pos + fl(s, a, X, Y) + fl(r, s, Y, X), r <= a),
            ("deposit a for s shares, withdraw w against at most s shares: w <= a", pos + fl(s, a, X, Y) + ce(r, w, X, Y) + [r <= s], w <= a),
            ("mint s shares for a assets, redeem s for r assets: r <= a", pos + ce(a, s, Y, X) + fl(r, s, Y, X), r <= a),
            ("withdraw a for s shares, mint s shares again for r assets: r >= a", pos + ce(s, a, X, Y) + ce(r, s, Y, X), r >= a),
            ("redeem s shares for a assets, deposit a again for r shares: r <= s", pos + fl(a, s, Y, X) + fl(r, a, X, Y), r <= s)]
@lemma("vault rounding: the price of a share never falls for the other holders", "C06")
def vault_price():
    X, Y, a, s, w, r, pos, fl, ce = _vault()
    return [("deposit a for s = floor", pos + fl(s, a, X, Y), (Y + a) * X >= Y * (X + s)),
            ("mint s for a = ceil", pos + ce(a, s, Y, X), (Y + a) * X >= Y * (X + s)),
            ("withdraw a for s = ceil", pos + ce(s, a, X, Y) + [a < Y, s < X], (Y - a) * X >= Y * (X - s)),
            ("redeem s for a = floor", pos + fl(a, s, Y, X) + [a < Y, s < X], (Y - a) * X >= Y * (X - s))]
