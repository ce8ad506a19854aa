from specs import *
from bytesv import keccak256
def sel(s): return int.from_bytes(keccak256(s.encode())[:4], "big")
def iid(sigs):
    r = 0
    for s in sigs.split(): r ^= sel(s)
    return r
E165 = "supportsInterface(bytes4)"
IF = {   # the interfaces, as lists of Solidity signatures
    "IErc20": "totalSupply() balanceOf(address) transfer(address,uint256) allowance(address,address) approve(address,uint256) transferFrom(address,address,uint256)",
    "IErc20Metadata": "name() symbol() decimals()",
    "IErc20Wrapper": "decimals() underlying() depositFor(address,uint256) withdrawTo(address,uint256)",
    "IErc4626": "asset() totalAssets() convertToShares(uint256) convertToAssets(uint256) maxDeposit(address) previewDeposit(uint256) deposit(uint256,address) maxMint(address) previewMint(uint256) mint(uint256,address) maxWithdraw(address) previewWithdraw(uint256) withdraw(uint256,address,address) maxRedeem(address) previewRedeem(uint256) redeem(uint256,address,address)",
    "IErc3156FlashLender": "maxFlashLoan(address) flashFee(address,uint256) flashLoan(address,address,uint256,bytes)",
    "ISafeErc20": "safeTransfer(address,address,uint256) safeTransferFrom(address,address,address,uint256) safeIncreaseAllowance(address,address,uint256) safeDecreaseAllowance(address,address,uint256) forceApprove(address,address,uint256)",
    "IErc2981": "royaltyInfo(uint256,uint256)",
    "IErc721": "balanceOf(address) ownerOf(uint256) safeTransferFrom(address,address,uint256) safeTransferFrom(address,address,uint256,bytes) transferFrom(address,address,uint256) approve(address,uint256) setApprovalForAll(address,bool) getApproved(uint256) isApprovedForAll(address,address)",
    "IErc721Metadata": "name() symbol() tokenURI(uint256)",
    "IErc721Enumerable": "totalSupply() tokenOfOwnerByIndex(address,uint256) tokenByIndex(uint256)",
    "IErc1155": "balanceOf(address,uint256) balanceOfBatch(address[],uint256[]) setApprovalForAll(address,bool) isApprovedForAll(address,address) safeTransferFrom(address,address,uint256,uint256,bytes) safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
    "IErc1155MetadataUri": "uri(uint256)",
    "IErc1155Supply": "totalSupply(uint256) totalSupply() exists(uint256)",
    "IOwnable": "owner() transferOwnership(address) renounceOwnership()",
    "IOwnable2Step": "owner() pendingOwner() transferOwnership(address) acceptOwnership() renounceOwnership()",
    "IAccessControl": "hasRole(bytes32,address) onlyRole(bytes32) getRoleAdmin(bytes32) grantRole(bytes32,address) revokeRole(bytes32,address) renounceRole(bytes32,address)",
    "IVestingWallet": "owner() transferOwnership(address) renounceOwnership() start() duration() end() released() released(address) releasable() releasable(address) release() release(address) vestedAmount(uint64) vestedAmount(address,uint64)",
}
assert iid(IF["IErc721"]) == 0x80ac58cd and iid(IF["IErc1155"]) == 0xd9b67a26 and iid(IF["IErc20"]) == 0x36372b07 and iid(E165) == 0x01ffc9a7
assert iid(IF["IErc721Enumerable"]) == 0x780e9d63 and iid(IF["IErc721Metadata"]) == 0x5b5e139f and iid(IF["IErc2981"]) == 0x2a55205a
IMPL = {"Erc165": "", "Erc20": "IErc20", "Erc20Metadata": "IErc20Metadata", "Erc20Wrapper": "IErc20Wrapper", "Erc4626": "IErc4626", "Erc20FlashMint": "IErc3156FlashLender",
        "SafeErc20": "ISafeErc20", "Erc2981": "IErc2981", "Erc721": "IErc721", "Erc721Metadata": "IErc721Metadata", "Erc721Enumerable": "IErc721Enumerable", "Erc721Consecutive": "IErc721",
        "Erc1155": "IErc1155", "Erc1155MetadataUri": "IErc1155MetadataUri", "Erc1155Supply": "IErc1155Supply IErc1155", "Ownable": "IOwnable", "Ownable2Step": "IOwnable2Step IOwnable",
        "AccessControl": "IAccessControl", "VestingWallet": "IVestingWallet"}
def mk(ids):
    def supports(S, x):
        x = S.int(x); return Or(*[eq(x, i) for i in ids])
    return supports
for _c, _i in IMPL.items():
    contract(f"<{_c} as IErc165>::supports_interface", "C28", opts={"nosummary": False})(mk([iid(E165)] + [iid(IF[x]) for x in _i.split()]))
@lemma("erc165-invalid-id", "C28")
def invalid_id():
    """no reported id is the invalid id 0xffffffff"""
    x = z3.Int("id")
    return [(c, [eq(x, 0xffffffff)], Not(Or(*[eq(x, i) for i in [iid(E165)] + [iid(IF[y]) for y in IMPL[c].split()]]))) for c in IMPL]
