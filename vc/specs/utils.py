from specs import *
# ---------------------------------------------------------------- Nonces
@contract("Nonces::nonces", "C22")
def nonce_of(S, t, who): return t.nonces[who].get()
@contract("Nonces::use_nonce", "C22 C03")
def use_nonce(S, t, who):
    n = t.nonces[who].get(); S.require(lt(n, MAXU), "panic"); t.nonces[who].set(add(n, 1)); return n
@contract("Nonces::use_checked_nonce", "C22")
def use_checked_nonce(S, t, who, want):
    n = use_nonce(S, t, who); S.require(eq(n, want), "InvalidAccountNonce")
# ---------------------------------------------------------------- Pausable
@contract("Pausable::paused", "C22")
def paused(S, t): return t.paused.get()
@contract("Pausable::when_not_paused", "C22")
def when_not_paused(S, t): S.fail_if(t.paused.get(), "EnforcedPause")
@contract("Pausable::when_paused", "C22")
def when_paused(S, t): S.require(t.paused.get(), "ExpectedPause")
@contract("Pausable::pause", "C22")
def pause(S, t): when_not_paused(S, t); t.paused.set(True); S.emit("Paused", S.sender)
@contract("Pausable::unpause", "C22")
def unpause(S, t): when_paused(S, t); t.paused.set(False); S.emit("Unpaused", S.sender)
