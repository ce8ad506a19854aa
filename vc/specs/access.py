from specs import *
# ---------------------------------------------------------------- Ownable
@contract("<Ownable as IOwnable>::owner", "C19")
def ow_owner(S, t): return t.owner.get()
@contract("Ownable::only_owner", "C19")
def only_owner(S, t): S.require(eq(t.owner.get(), S.sender), "UnauthorizedAccount")
@contract("Ownable::_transfer_ownership", "C19")
def ow_set(S, t, new):
    old = t.owner.get(); t.owner.set(new); S.emit("OwnershipTransferred", old, new)
@contract("<Ownable as IOwnable>::transfer_ownership", "C19")
def ow_transfer(S, t, new):
    only_owner(S, t); S.fail_if(eq(new, 0), "InvalidOwner"); ow_set(S, t, new)
@contract("<Ownable as IOwnable>::renounce_ownership", "C19")
def ow_renounce(S, t): only_owner(S, t); ow_set(S, t, 0)
# ---------------------------------------------------------------- Ownable2Step
@contract("<Ownable2Step as IOwnable2Step>::owner", "C19")
def o2_owner(S, t): return t.ownable.owner.get()
@contract("<Ownable2Step as IOwnable2Step>::pending_owner", "C19")
def o2_pending(S, t): return t.pending_owner.get()
@contract("<Ownable2Step as IOwnable2Step>::transfer_ownership", "C19")
def o2_transfer(S, t, new):
    only_owner(S, t.ownable); t.pending_owner.set(new); S.emit("OwnershipTransferStarted", t.ownable.owner.get(), new)
def o2_set(S, t, new):
    t.pending_owner.set(0); ow_set(S, t.ownable, new)
@contract("<Ownable2Step as IOwnable2Step>::accept_ownership", "C19")
def o2_accept(S, t):
    S.require(eq(S.sender, t.pending_owner.get()), "UnauthorizedAccount"); o2_set(S, t, S.sender)
@contract("<Ownable2Step as IOwnable2Step>::renounce_ownership", "C19")
def o2_renounce(S, t): only_owner(S, t.ownable); o2_set(S, t, 0)
# ---------------------------------------------------------------- AccessControl
def has(t, role, who): return t.roles[role].has_role[who]
@contract("<AccessControl as IAccessControl>::has_role", "C20")
def ac_has(S, t, role, who): return has(t, role, who).get()
@contract("<AccessControl as IAccessControl>::get_role_admin", "C20")
def ac_admin(S, t, role): return t.roles[role].admin_role.get()
@contract("AccessControl::_check_role", "C20")
def ac_check(S, t, role, who): S.require(has(t, role, who).get(), "UnauthorizedAccount")
@contract("<AccessControl as IAccessControl>::only_role", "C20")
def ac_only(S, t, role): ac_check(S, t, role, S.sender)
@contract("AccessControl::_grant_role", "C20")
def ac_grant_(S, t, role, who):
    if S.branch(has(t, role, who).get()): return False
    has(t, role, who).set(True); S.emit("RoleGranted", role, who, S.sender); return True
@contract("AccessControl::_revoke_role", "C20")
def ac_revoke_(S, t, role, who):
    if not S.branch(has(t, role, who).get()): return False
    has(t, role, who).set(False); S.emit("RoleRevoked", role, who, S.sender); return True
@contract("AccessControl::_set_role_admin", "C20")
def ac_set_admin(S, t, role, adm):
    old = t.roles[role].admin_role.get(); t.roles[role].admin_role.set(adm); S.emit("RoleAdminChanged", role, old, adm)
@contract("<AccessControl as IAccessControl>::grant_role", "C20")
def ac_grant(S, t, role, who):
    ac_check(S, t, ac_admin(S, t, role), S.sender); ac_grant_(S, t, role, who)
@contract("<AccessControl as IAccessControl>::revoke_role", "C20")
def ac_revoke(S, t, role, who):
    ac_check(S, t, ac_admin(S, t, role), S.sender); ac_revoke_(S, t, role, who)
@contract("<AccessControl as IAccessControl>::renounce_role", "C20")
def ac_renounce(S, t, role, conf):
    S.require(eq(S.sender, conf), "BadConfirmation"); ac_revoke_(S, t, role, conf)
