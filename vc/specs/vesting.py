from specs import *
import specs.erc20ext as X, specs.access as A
V = "<VestingWallet as IVestingWallet>::"
def end_of(t): return add(t.start.get(), t.duration.get())
@contract("VestingWallet::vesting_schedule", "C21", pub=False)
def schedule(S, t, total, ts):
    if S.branch(lt(ts, t.start.get())): return 0
    if S.branch(ge(ts, end_of(t))): return total
    v = mul(total, sub(ts, t.start.get())); S.require(lt(v, U256), "panic")
    return div(v, t.duration.get())
@contract(V + "start", "C21")
def start(S, t): return t.start.get()
@contract(V + "duration", "C21")
def duration(S, t): return t.duration.get()
@contract(V + "end", "C21")
def end(S, t): return end_of(t)
@contract(V + "released_eth", "C21")
def released_eth(S, t): return t.released.get()
@contract(V + "released_erc20", "C21")
def released_erc20(S, t, tok): return t.erc20_released[tok].get()
def vested(S, t, bal, rel, ts):
    tot = add(bal, rel); S.require(lt(tot, U256), "panic"); return schedule(S, t, tot, ts)
@contract(V + "vested_amount_eth", "C21")
def vested_eth(S, t, ts): return vested(S, t, S.balance, t.released.get(), ts)
@contract(V + "vested_amount_erc20", "C21")
def vested_erc20(S, t, tok, ts):
    bal = S.static(tok, "balanceOf(address)", [S.this_address], "(uint256)"); return vested(S, t, bal, t.erc20_released[tok].get(), ts)
# releasable is vested - released; when the allocation has shrunk below what was released there is
# nothing meaningful to report (the code wraps), and release then always reverts
@contract(V + "releasable_eth", "C21")
def releasable_eth(S, t): return mod(sub(vested_eth(S, t, S.timestamp), t.released.get()), U256)
@contract(V + "releasable_erc20", "C21")
def releasable_erc20(S, t, tok): return mod(sub(vested_erc20(S, t, tok, S.timestamp), t.erc20_released[tok].get()), U256)
@contract(V + "release_eth", "C21")
def release_eth(S, t):
    v = vested_eth(S, t, S.timestamp); rel = t.released.get(); S.require(le(rel, v), "nothing vested beyond released")
    amt = sub(v, rel); t.released.set(v)
    ok, r = S.call(t.ownable.owner.get(), Str([]), value=amt); S.require(ok, "ReleaseEtherFailed")
    S.emit("EtherReleased", amt)
@contract(V + "release_erc20", "C21")
def release_erc20(S, t, tok):
    v = vested_erc20(S, t, tok, S.timestamp); rel = t.erc20_released[tok].get(); S.require(le(rel, v), "nothing vested beyond released")
    amt = sub(v, rel); t.erc20_released[tok].set(v)
    X.safe_transfer(S, t.safe_erc20, tok, t.ownable.owner.get(), amt)
    S.emit("ERC20Released", tok, amt)
@contract(V + "owner", "C21 C19")
def vw_owner(S, t): return t.ownable.owner.get()
@contract(V + "transfer_ownership", "C21 C19")
def vw_transfer(S, t, new): A.ow_transfer(S, t.ownable, new)
@contract(V + "renounce_ownership", "C21 C19")
def vw_renounce(S, t): A.ow_renounce(S, t.ownable)
