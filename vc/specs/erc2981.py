from specs import *
def frac_ok(t, tok=None):
    """stored fractions never exceed the denominator (constructor and setters establish it)"""
    d = t.fee_denominator.get(); out = [gt(d, 0), le(t.default_royalty_info.royalty_fraction.get(), d)]
    if tok is not None: out.append(le(t.token_royalty_info[tok].royalty_fraction.get(), d))
    return out
def kept(*toks):
    """the stored fractions still do not exceed the denominator, for the default and for every token"""
    def post(I, st0, st1, args):
        t = Obj(InvCtx(I, st1), args[0]); t0 = Obj(InvCtx(I, st0), args[0]); x = z3.Int("any.token")
        d = t.fee_denominator.get()
        pre = And(le(t0.token_royalty_info[x].royalty_fraction.get(), t0.fee_denominator.get()), le(t0.default_royalty_info.royalty_fraction.get(), t0.fee_denominator.get()))
        return [("every stored fraction stays at most the denominator", Or(Not(pre), And(le(t.token_royalty_info[x].royalty_fraction.get(), d), le(t.default_royalty_info.royalty_fraction.get(), d))))]
    return post
@contract("Erc2981::_fee_denominator", "C18")
def fee_denominator(S, t): return t.fee_denominator.get()
def within(I, st0, st1, args, ret):
    return [("royalty at most the sale price", le(ret.f[1], args[2]))]
@contract("<Erc2981 as IErc2981>::royalty_info", "C18", inv=lambda S, t, tok, p: frac_ok(t, tok), opts={"post_ret": within})
def royalty_info(S, t, tok, price):
    own = Not(eq(t.token_royalty_info[tok].receiver.get(), 0))
    if S.branch(own): r = t.token_royalty_info[tok]
    else: r = t.default_royalty_info
    v = mul(price, r.royalty_fraction.get()); S.require(lt(v, U256), "panic")
    d = t.fee_denominator.get(); S.fail_if(eq(d, 0), "panic")
    return (r.receiver.get(), div(v, d))
@contract("Erc2981::_set_default_royalty", "C18", post=kept())
def set_default(S, t, recv, num):
    S.require(le(num, t.fee_denominator.get()), "InvalidDefaultRoyalty"); S.fail_if(eq(recv, 0), "InvalidDefaultRoyaltyReceiver")
    t.default_royalty_info.receiver.set(recv); t.default_royalty_info.royalty_fraction.set(num)
@contract("Erc2981::_delete_default_royalty", "C18", post=kept())
def del_default(S, t): t.default_royalty_info.receiver.set(0); t.default_royalty_info.royalty_fraction.set(0)
@contract("Erc2981::_set_token_royalty", "C18", post=kept())
def set_token(S, t, tok, recv, num):
    S.require(le(num, t.fee_denominator.get()), "InvalidTokenRoyalty"); S.fail_if(eq(recv, 0), "InvalidTokenRoyaltyReceiver")
    t.token_royalty_info[tok].receiver.set(recv); t.token_royalty_info[tok].royalty_fraction.set(num)
@contract("Erc2981::_reset_token_royalty", "C18", post=kept())
def reset_token(S, t, tok): t.token_royalty_info[tok].receiver.set(0); t.token_royalty_info[tok].royalty_fraction.set(0)
