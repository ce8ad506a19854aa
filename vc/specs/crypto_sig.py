from specs import *
from bytesv import keccak256
import specs.erc20 as T, specs.utils as UT
HALF = 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0
NAME, VERSION = "Verified domain", "7"         # the domain instantiated by /verif/roots
K = lambda s: int.from_bytes(keccak256(s.encode()), "big")
def w(x): return Str.word(x, 32)
def cat(*xs):
    r = Str([])
    for x in xs: r = r.cat(x)
    return r
# ---------------------------------------------------------------- ECDSA
@contract("ecdsa::recover", "C26 C03")
def recover(S, t, h, v, r, s):
    S.require(le(s, HALF), "InvalidSignatureS"); S.fail_if(Or(eq(v, 0), eq(v, 1)), "InvalidSignature")
    ok, out = M.ext_call(S.I, S.st, "static", 1, 0, cat(w(h), w(v), w(r), w(s)))
    S.require(ok, "panic")
    n = to_str(out).length(); S.require(eq(n, 32), "panic")
    a = M.tail20(S.I, out); S.fail_if(eq(a, 0), "InvalidSignature"); return a
# ---------------------------------------------------------------- EIP-712
DOM = K("EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)")
def separator(S): return S.keccak(cat(w(DOM), w(K(NAME)), w(K(VERSION)), w(S.chainid), w(S.this_address)))
@contract("eip712::to_typed_data_hash", "C27")
def typed_hash(S, d, h): return S.keccak(cat(Str([("c", b"\x19\x01")]), to_str(d), to_str(h)))
I7 = "<Domain as IEip712>::"
@contract(I7 + "domain_separator_v4", "C27")
def domain_separator(S, t): return separator(S)
@contract(I7 + "hash_typed_data_v4", "C27")
def hash_typed(S, t, h): return S.keccak(cat(Str([("c", b"\x19\x01")]), w(separator(S)), w(h)))
@contract(I7 + "eip712_domain", "C27")
def domain(S, t): return (Str([("c", b"\x0f")]), Str([("c", NAME.encode())]), Str([("c", VERSION.encode())]), S.chainid, S.this_address, w(0), Arr(()))
# ---------------------------------------------------------------- permit
PT = K("Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)")
@contract("Erc20Permit::domain_separator", "C27 C03")
def permit_domain(S, t): return separator(S)
@contract("Erc20Permit::permit", "C03 C02")
def permit(S, t, owner, sp, v, dl, y, r, s, e, nn):
    S.require(le(S.timestamp, dl), "ExpiredSignature"); n = UT.use_nonce(S, nn, owner)
    h = S.keccak(cat(w(PT), w(owner), w(sp), w(v), w(n), w(dl)))
    d = S.keccak(cat(Str([("c", b"\x19\x01")]), w(separator(S)), w(h)))
    S.require(eq(recover(S, t, d, y, r, s), owner), "InvalidSigner")
    T.erc20_approve_(S, e, owner, sp, v, True)
