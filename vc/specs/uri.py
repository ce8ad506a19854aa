from specs import *
import specs.erc721 as N7
def dec(S, x): return M.dec_str(S.I, x)
@contract("Metadata::name", "C29")
def md_name(S, t): return t.name.get()
@contract("Metadata::symbol", "C29")
def md_symbol(S, t): return t.symbol.get()
for _c in ("<Erc20Metadata as IErc20Metadata>::", "<Erc721Metadata as IErc721Metadata>::"):
    @contract(_c + "name", "C29")
    def name(S, t): return t.metadata.name.get()
    @contract(_c + "symbol", "C29")
    def symbol(S, t): return t.metadata.symbol.get()
@contract("<Erc20Metadata as IErc20Metadata>::decimals", "C29")
def decimals(S, t): return 18
@contract("Capped::cap", "C29")
def cap(S, t): return t.cap.get()
@contract("Erc721Metadata::base_uri", "C29")
def base_uri(S, t): return t.base_uri.get()
def empty(s): return eq(to_str(s).length(), 0)
@contract("Erc721Metadata::token_uri", "C29")
def token_uri(S, t, tok, e):
    N7.require_owned(S, e, tok); b = t.base_uri.get()
    if S.branch(empty(b)): return Str([])
    return to_str(b).cat(dec(S, tok))
@contract("Erc721UriStorage::_set_token_uri", "C29")
def set_token_uri(S, t, tok, uri): t.token_uris[tok].set(uri); S.emit("MetadataUpdate", tok)
@contract("Erc721UriStorage::token_uri", "C29")
def storage_uri(S, t, tok, e, m):
    N7.require_owned(S, e, tok); u = t.token_uris[tok].get(); b = m.base_uri.get()
    if S.branch(empty(b)): return u
    if S.branch(empty(u)): return to_str(b).cat(dec(S, tok))
    return to_str(b).cat(to_str(u))
@contract("<Erc1155MetadataUri as IErc1155MetadataUri>::uri", "C29")
def uri_(S, t, i): return t.uri.get()
@contract("Erc1155UriStorage::uri", "C29")
def uri1155(S, t, tok, m):
    u = t.token_uris[tok].get()
    if S.branch(empty(u)): return m.uri.get()
    return to_str(t.base_uri.get()).cat(to_str(u))
@contract("Erc1155UriStorage::set_token_uri", "C29")
def set_uri1155(S, t, tok, u, m): t.token_uris[tok].set(u); S.emit("URI", uri1155(S, t, tok, m), tok)
@contract("Erc1155UriStorage::set_base_uri", "C29")
def set_base(S, t, u): t.base_uri.set(u)
