#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
C = "contracts/src/"
L = "lib/crypto/src/"
P = []
def p(id, title, stmt, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(dict(id=id, title=title, statement=stmt,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

S = "The tests exercise a few fixed callers, amounts and storage states; "
p("C01", "ERC-20 balances move exactly and always add up to the total supply",
  "A successful transfer, mint or burn changes exactly the two balances (or the one balance and the total supply) it names, by exactly the requested amount, leaves every other balance and allowance untouched, and emits one matching Transfer event; the sum of all balances therefore equals the total supply after every history. A movement that the sender's balance does not cover, that would push the supply past the 256-bit maximum, or that names the zero address where the standard forbids it is refused, and nothing else is refused.",
  ["inputs", "histories"], "all storage states satisfying the ledger invariant, all callers, accounts and 256-bit amounts (including self-transfers and zero amounts), all sequences of operations",
  S + "conservation over every account and every history, and the frame on all untouched accounts, is not reachable by sampling.",
  [C+"token/erc20/mod.rs", C+"token/erc20/extensions/burnable.rs", C+"utils/math/storage/checked.rs", C+"utils/math/storage/unchecked.rs"],
  [("Erc20::_update", C+"token/erc20/mod.rs"), ("Erc20::_transfer/_mint/_burn", C+"token/erc20/mod.rs"), ("IErc20Burnable::burn", C+"token/erc20/extensions/burnable.rs")],
  [("balances, total supply", "per-account balance map and aggregate supply")])
p("C02", "Only the holder or an approved spender, within allowance, can move tokens",
  "An ERC-20 allowance only ever changes by the owner's own approval or by being spent: approving sets exactly the caller's allowance for the named non-zero spender to exactly the given value and emits Approval; spending on another's behalf (transfer-from, burn-from) succeeds only if the caller's allowance covers the amount, reduces it by exactly that amount, and leaves it unchanged only when it is the infinite (maximum) value. No other allowance changes, and a caller without sufficient allowance can never cause the holder's balance to decrease.",
  ["inputs", "histories"], "all owners, spenders, allowances (including the infinite one), amounts and storage states",
  S + "they cannot cover every (owner, spender, allowance, value) combination nor the allowances of everybody else.",
  [C+"token/erc20/mod.rs", C+"token/erc20/extensions/burnable.rs"],
  [("Erc20::_approve/_spend_allowance", C+"token/erc20/mod.rs"), ("IErc20::transfer_from/approve", C+"token/erc20/mod.rs"), ("burn_from", C+"token/erc20/extensions/burnable.rs")],
  [("allowances", "owner -> spender -> remaining amount")])
p("C03", "A permit takes effect only once, in time, and only with the owner's signature",
  "A permit call succeeds only if the block time is not past the deadline and the signature recovers, over the EIP-712 digest of exactly (owner, spender, value, the owner's current nonce, deadline) under the contract's domain, to the owner; it then consumes exactly that nonce and sets exactly that allowance. Because the nonce is consumed, the same signed message can never be accepted a second time.",
  ["inputs", "histories"], "all owners, spenders, values, deadlines, timestamps, nonces and signatures",
  S + "replay and field-substitution resistance quantify over all messages and all later states.",
  [C+"token/erc20/extensions/permit.rs", C+"utils/nonces.rs", C+"utils/cryptography/eip712.rs"],
  [("Erc20Permit::permit", C+"token/erc20/extensions/permit.rs"), ("Nonces::use_nonce", C+"utils/nonces.rs"), ("IEip712::hash_typed_data_v4", C+"utils/cryptography/eip712.rs")])
p("C04", "A flash loan is always repaid with its fee and never exceeds the limit",
  "A flash loan is granted only for the contract's own token, for an amount within the remaining 256-bit supply headroom and to a receiver that returns the mandated ERC-3156 magic value; when it succeeds, the lent amount has been burned again, the fee has been charged to the receiver (burned, or paid in full to the fee receiver when one is set) and the receiver's allowance to the contract has been spent by amount plus fee. Otherwise the whole call reverts; the advertised maximum and fee are zero/refused for any other token.",
  ["inputs", "fault_sequences"], "all loan amounts, fees, fee receivers, borrower behaviours (any return value or failure) and ledger states",
  S + "the borrower's answers and the ledger state are unbounded.",
  [C+"token/erc20/extensions/flash_mint.rs"],
  [("Erc20FlashMint::flash_loan/max_flash_loan/flash_fee", C+"token/erc20/extensions/flash_mint.rs")])
p("C05", "Wrapped ERC-20 tokens are minted and burned one for one with the underlying",
  "A wrapper deposit mints exactly the deposited amount to the chosen account after pulling exactly that amount of the underlying token from the caller, and a withdrawal burns exactly the withdrawn amount from the caller before sending exactly that amount of underlying to the chosen account. Depositing from, or delivering to, the wrapper itself is refused, and if the underlying transfer fails the whole operation fails.",
  ["inputs", "fault_sequences"], "all callers, receivers, amounts, ledger states and answers of the underlying token",
  S + "the answers of the underlying token and the account combinations are unbounded.",
  [C+"token/erc20/extensions/wrapper.rs"],
  [("Erc20Wrapper::deposit_for/withdraw_to/_recover", C+"token/erc20/extensions/wrapper.rs")])
p("C06", "ERC-4626 conversions always round in the vault's favour",
  "Converting assets to shares yields floor(assets*(supply+10^offset)/(totalAssets+1)) when the user receives shares and the ceiling when the user pays shares, and converting shares to assets is the same with the roles exchanged, so deposit and redeem previews round down, mint and withdraw previews round up, and no round trip can yield a profit. Conversions that do not fit in 256 bits are refused rather than wrapped.",
  ["inputs", "histories"], "all asset and share amounts, vault totals, supplies and decimal offsets",
  S + "rounding direction for every 256-bit quotient is not sampleable.",
  [C+"token/erc20/extensions/erc4626.rs", C+"utils/math/alloy.rs"],
  [("Erc4626::_convert_to_shares/_convert_to_assets", C+"token/erc20/extensions/erc4626.rs"), ("Math::mul_div", C+"utils/math/alloy.rs")])
p("C07", "ERC-4626 deposits and withdrawals move exactly the previewed amounts",
  "A deposit or mint pulls exactly the previewed assets from the caller and mints exactly the previewed shares to the receiver; a withdrawal or redemption burns exactly the previewed shares of the owner and sends exactly the previewed assets to the receiver. Each refuses amounts above the advertised maximum for the account, a caller who is not the share owner must hold and spends a sufficient share allowance, and the operation fails as a whole when the asset transfer fails.",
  ["inputs", "fault_sequences"], "all callers, receivers, owners, amounts, ledger states and asset-token answers",
  S + "the interaction of limits, allowances and token answers is unbounded.",
  [C+"token/erc20/extensions/erc4626.rs"],
  [("Erc4626::deposit/mint/withdraw/redeem/_deposit/_withdraw", C+"token/erc20/extensions/erc4626.rs")])
p("C08", "Safe ERC-20 operations succeed only when the token really accepted the call",
  "A safe transfer, transfer-from, approval or forced approval reports success only if the token address has code, the call did not revert and it returned either nothing or a value that reads as true (big-endian one); any revert, false return or code-less address makes the operation fail. The calldata sent is exactly the corresponding standard call with the given accounts and amount, and relative allowance changes request exactly the current allowance plus or minus the delta, refusing overflow and underflow.",
  ["inputs", "fault_sequences"], "all token addresses, amounts, return payloads and call outcomes",
  S + "return payloads and call outcomes are unbounded.",
  [C+"token/erc20/utils/safe_erc20.rs"],
  [("SafeErc20::safe_transfer/…/call_optional_return", C+"token/erc20/utils/safe_erc20.rs")])
p("C09", "Every ERC-721 token has one owner and balances count the tokens owned",
  "A successful ERC-721 mint, transfer or burn changes the owner of exactly the named token, decrements the previous owner's and increments the new owner's balance by exactly one, clears the token's approval, touches no other token or account, and emits one matching Transfer event. A mint succeeds only if the token had no owner, a transfer only if the named sender owns it, a burn only if it exists, and the zero address never becomes an owner by transfer or mint.",
  ["inputs", "histories"], "all storage states satisfying the ownership invariant, all accounts and 256-bit token ids, all histories",
  S + "the frame over all other tokens and owners and all histories is not sampleable.",
  [C+"token/erc721/mod.rs", C+"token/erc721/extensions/burnable.rs"],
  [("Erc721::_update/_mint/_transfer/_burn", C+"token/erc721/mod.rs")],
  [("owners, balances, token approvals, operator approvals", "ERC-721 ledger")])
p("C10", "Only the owner, an operator or the approved account can move an ERC-721 token",
  "A token can be transferred or burned through the public interface only by its owner, by an account the owner made operator for all, or by the account approved for that token; a token's approval can be set only by its owner or an operator and operator rights only by the account itself for a non-zero operator. Approving changes only that one approval, and no other call changes approvals except a transfer or burn clearing that token's.",
  ["inputs", "histories"], "all callers, owners, operators, approved accounts, token ids and storage states",
  S + "absence of any unauthorised path quantifies over all callers and states.",
  [C+"token/erc721/mod.rs", C+"token/erc721/extensions/burnable.rs"],
  [("Erc721::_is_authorized/_check_authorized/_approve/_set_approval_for_all", C+"token/erc721/mod.rs")])
p("C11", "Safe ERC-721 transfers complete only if a contract recipient accepts",
  "A safe mint or safe transfer to an address with code succeeds only if that contract answered the receiver hook, called with the operator, previous owner, token id and data of this very transfer, with the mandated magic value; otherwise the whole operation fails. Addresses without code are never called.",
  ["inputs", "fault_sequences"], "all recipients, data and hook outcomes (any return value, revert or absence of code)",
  S + "hook outcomes are unbounded.",
  [C+"token/erc721/mod.rs"],
  [("Erc721::_check_on_erc721_received/_safe_mint/_safe_transfer", C+"token/erc721/mod.rs")])
p("C12", "ERC-721 enumeration lists every token exactly once",
  "The global list holds each existing token exactly once and each account's list holds exactly its tokens once, with the recorded positions always consistent; adding a token appends it and removing a token fills the gap with the last one without disturbing any other position. Reading an index at or past the end is refused.",
  ["inputs", "histories"], "all list lengths, positions and token ids, all histories of additions and removals",
  S + "index bijections over arbitrary lists need induction.",
  [C+"token/erc721/extensions/enumerable.rs"],
  [("Erc721Enumerable::_add_token_to_*/_remove_token_from_*", C+"token/erc721/extensions/enumerable.rs")])
p("C13", "Consecutively minted ERC-721 batches give each token its rightful owner",
  "A batch mint assigns the whole contiguous range of ids right after the previously minted batches to the receiver, increases the receiver's balance by the batch size and emits one range event; batches above the size limit or to the zero address are refused. Until a token of a batch is transferred or burned its owner is the batch receiver, a burned batch token has no owner and can never regain its batch owner, and single mints are only possible for ids that currently have no owner.",
  ["inputs", "histories"], "all batch sizes, ids, transfers and burns in any order",
  S + "ownership lookups over arbitrary batch histories need induction.",
  [C+"token/erc721/extensions/consecutive.rs", C+"utils/structs/checkpoints/mod.rs", C+"utils/structs/bitmap.rs"],
  [("Erc721Consecutive::_owner_of/_update/_mint_consecutive", C+"token/erc721/extensions/consecutive.rs")])
p("C14", "A wrapped ERC-721 token exists exactly while the wrapper holds the original",
  "Wrapping mints the wrapped token only after the underlying token has been pulled from the caller into the wrapper, unwrapping burns the wrapped token (only for its owner or an approved account) and then hands the underlying token with the same id to the chosen account, and direct safe transfers of the underlying mint to the sender only when the caller is the underlying contract. If the underlying contract refuses, the whole operation fails.",
  ["inputs", "fault_sequences"], "all callers, ids, id lists and underlying-contract answers",
  S + "answers of the underlying contract and caller combinations are unbounded.",
  [C+"token/erc721/extensions/wrapper.rs"],
  [("Erc721Wrapper::deposit_for/withdraw_to/on_erc721_received/_recover", C+"token/erc721/extensions/wrapper.rs")])
p("C15", "ERC-1155 transfers, mints and burns move exactly the listed amounts per id",
  "A successful single or batch ERC-1155 operation moves, for each listed id in order, exactly the listed amount from the sender to the receiver (mint: only added, burn: only removed), leaves every other (id, account) balance unchanged and emits one TransferSingle event for one id or one TransferBatch event otherwise. Lists of different lengths, insufficient balances, balances that would overflow and zero addresses are refused, and nothing else is.",
  ["inputs", "histories"], "all id and amount lists of any length (with repetitions), all accounts and storage states",
  S + "lists of every length with repeated ids are not sampleable.",
  [C+"token/erc1155/mod.rs", C+"token/erc1155/extensions/burnable.rs"],
  [("Erc1155::_update/do_update", C+"token/erc1155/mod.rs"), ("require_equal_arrays_length", C+"token/erc1155/mod.rs")])
p("C16", "ERC-1155 tokens move only with authorisation and acceptance",
  "ERC-1155 balances can be moved or burned through the public interface only by their holder or by an operator the holder approved, operator rights change only for the caller's own account and a non-zero operator, and approvals never change otherwise. A mint or transfer to an address with code succeeds only if it answered the single- or batch-receiver hook, called with the data of this very transfer, with the corresponding magic value.",
  ["inputs", "fault_sequences"], "all callers, holders, operators, recipients and hook outcomes",
  S + "absence of unauthorised paths and all hook outcomes are unbounded.",
  [C+"token/erc1155/mod.rs", C+"token/erc1155/extensions/burnable.rs"],
  [("Erc1155::authorize_transfer/_set_approval_for_all/_check_on_erc1155_received", C+"token/erc1155/mod.rs")])
p("C17", "ERC-1155 supply tracking equals what was minted minus what was burned",
  "With supply tracking, every mint adds exactly the minted amounts to the per-id and the overall supply, every burn subtracts exactly the burned amounts, transfers change neither, and a mint that would push the overall supply past the 256-bit maximum is refused. The reported existence of an id is exactly that its supply is non-zero.",
  ["inputs", "histories"], "all id and amount lists of any length, all storage states and histories",
  S + "sums over lists of arbitrary length and near-overflow values are not sampled.",
  [C+"token/erc1155/extensions/supply.rs"],
  [("Erc1155Supply::_update", C+"token/erc1155/extensions/supply.rs")])
p("C18", "Royalties never exceed the sale price and follow the token's own setting first",
  "The royalty reported for a sale is floor(price * fraction / denominator) to the configured receiver, taken from the token's own setting when its receiver is non-zero and from the default otherwise; prices whose product does not fit in 256 bits are refused rather than wrapped. Settings with a fraction above the denominator or a zero receiver are refused, and each setter changes only its own entry.",
  ["inputs", "histories"], "all prices, fractions, receivers, token ids and settings",
  S + "the multiplication/rounding behaviour over all 256-bit prices is not sampled.",
  [C+"token/common/erc2981.rs"],
  [("Erc2981::royalty_info/_set_default_royalty/_set_token_royalty/_reset/_delete", C+"token/common/erc2981.rs")])
p("C19", "Only the current owner (or accepted successor) can take or give up ownership",
  "Ownership changes only by the owner transferring it to a non-zero account or renouncing it, and in the two-step variant a transfer only nominates a successor, who alone can complete it and whose nomination is cleared on every change of owner. Guarded operations succeed for the owner and for nobody else, and every change emits the matching event.",
  ["inputs", "histories"], "all callers, owners, nominees and histories",
  S + "absence of any other path to ownership quantifies over all callers and states.",
  [C+"access/ownable.rs", C+"access/ownable_two_step.rs"],
  [("Ownable::only_owner/_transfer_ownership", C+"access/ownable.rs"), ("Ownable2Step::accept_ownership", C+"access/ownable_two_step.rs")])
p("C20", "Roles are granted and revoked only by the role's admin",
  "Granting or revoking a role through the public interface succeeds only for holders of that role's admin role, renouncing only for the caller's own account; each changes exactly that one membership, reports a change (event) exactly when the membership really changed, and leaves all other memberships and admin relations untouched. A role check passes exactly for members of the role.",
  ["inputs", "histories"], "all callers, roles, accounts, admin relations and histories",
  S + "the frame over all roles and accounts is not sampleable.",
  [C+"access/control.rs"],
  [("AccessControl::_grant_role/_revoke_role/only_role/_check_role/_set_role_admin", C+"access/control.rs")])
p("C21", "A vesting wallet never releases more than has vested",
  "The vested amount of any allocation is zero before the start, the whole allocation from the end on, and floor(allocation * elapsed / duration) in between, where the allocation is the current balance plus everything already released; releasing pays exactly vested minus released to the owner and adds exactly that to the released total, for ether and for each token independently. Nothing can be released early or twice, and overflow is refused rather than wrapped.",
  ["inputs", "histories"], "all timestamps, starts, durations, balances and release histories",
  S + "the schedule over all timestamps and allocations is sampled at a few points only.",
  [C+"finance/vesting_wallet.rs"],
  [("VestingWallet::vesting_schedule/vested_amount_*/releasable_*/release_*", C+"finance/vesting_wallet.rs")])
p("C22", "Nonces only ever step by one, and pausing gates exactly as announced",
  "Using a nonce returns the account's current value and advances exactly that account's nonce by exactly one without wrapping, and a checked use succeeds only for the exact current value. The pause guard lets operations through exactly when not paused (and its converse exactly when paused), and pausing and unpausing flip the state only from the opposite state, emitting the caller in the event.",
  ["inputs", "histories"], "all accounts, nonce values, pause states and callers",
  S + "monotonicity over histories and the frame over all other accounts is not sampleable.",
  [C+"utils/nonces.rs", C+"utils/pausable.rs"],
  [("Nonces::use_nonce/use_checked_nonce", C+"utils/nonces.rs"), ("Pausable::pause/unpause/when_*", C+"utils/pausable.rs")])
p("C23", "A storage bitmap behaves as an independent boolean per 256-bit index",
  "Setting, clearing or writing an index makes reading that index return the written value and leaves the value at every other of the 2^256 indices unchanged.",
  ["inputs", "histories"], "all 256-bit indices and all prior bitmap contents",
  S + "a collision between two of 2^256 indices is not reachable by sampling.",
  [C+"utils/structs/bitmap.rs"],
  [("BitMap::get/set/unset/set_to", C+"utils/structs/bitmap.rs")])
p("C24", "Checkpoint histories stay ordered and look-ups find the right entry",
  "Keys of a checkpoint history are strictly increasing; pushing an older key is refused, pushing the newest key again overwrites only its value and pushing a newer key appends, and all other entries are unchanged. A lower lookup returns the value of the first entry with key at least the given one, an upper (and recent-upper) lookup the value of the last entry with key at most the given one, zero when there is none, and latest the last value.",
  ["inputs", "histories"], "all history lengths, keys and values",
  S + "binary-search correctness over histories of any length needs a loop invariant.",
  [C+"utils/structs/checkpoints/mod.rs"],
  [("Trace::push/_insert/lower_lookup/upper_lookup/_upper_binary_lookup/_lower_binary_lookup", C+"utils/structs/checkpoints/mod.rs")])
p("C25", "Integer helpers compute the exact mathematical result",
  "Over 256-bit integers, square root returns the floor of the real square root, average returns the floor of the mean without overflow, and multiply-divide returns the exact quotient rounded down or up as requested, panicking only for a zero divisor or a result that does not fit.",
  ["inputs"], "all 256-bit arguments and both rounding modes",
  S + "exactness over 2^256 (or 2^768) arguments is out of reach of sampling.",
  [C+"utils/math/alloy.rs"],
  [("Math::sqrt/average/mul_div", C+"utils/math/alloy.rs")])
p("C26", "Signature recovery rejects malleable and invalid signatures",
  "Recovering a signer never returns the zero address, refuses any signature whose s value is in the upper half order, and otherwise returns exactly what the ecrecover precompile answers for exactly the given hash, v, r and s; a failed or empty answer is an error.",
  ["inputs", "fault_sequences"], "all hashes, v, r, s and precompile answers",
  S + "the s boundary and precompile answers are sampled at a few values.",
  [C+"utils/cryptography/ecdsa.rs"],
  [("recover/_recover/check_if_malleable", C+"utils/cryptography/ecdsa.rs")])
p("C27", "EIP-712 digests bind name, version, chain, contract and message",
  "The domain separator is the hash of exactly the standard domain type hash, the hashed name and version, the current chain id and the contract's own address in that order, and a typed-data digest is the hash of the 0x1901 prefix, that separator and the struct hash; the advertised domain fields are the ones hashed.",
  ["inputs", "configurations"], "all chain ids, contract addresses, names, versions and struct hashes",
  S + "binding to every field over all values is not established by fixed vectors.",
  [C+"utils/cryptography/eip712.rs"],
  [("IEip712::domain_separator_v4/hash_typed_data_v4/eip712_domain", C+"utils/cryptography/eip712.rs")])
p("C28", "Contracts report exactly the interfaces they implement",
  "Interface detection answers true for the standard ERC-165 id and for exactly the ids of the interfaces the contract implements, false for the invalid id 0xffffffff and for every other id; each id is the exclusive-or of the interface's function selectors.",
  ["inputs"], "all 4-byte interface ids for every contract type",
  S + "the negative side quantifies over all 2^32 ids.",
  [C+"utils/introspection/erc165.rs", C+"token/erc20/mod.rs", C+"token/erc721/mod.rs", C+"token/erc1155/mod.rs", C+"access/control.rs", C+"token/common/erc2981.rs"],
  [("IErc165::supports_interface implementations", C+"**")])
p("C29", "Token URIs and metadata are stored and composed faithfully",
  "Setting a token's URI makes reading that token's URI return it (prefixed by the base URI when one is set), leaves every other token's URI unchanged and announces the change; with no own URI the base or default rule of the standard applies, and name, symbol, decimals and cap are reported exactly as configured, a zero cap being refused.",
  ["inputs", "histories"], "all tokens, URIs, base URIs and prior contents",
  S + "the frame over all other tokens is not sampled.",
  [C+"token/erc721/extensions/uri_storage.rs", C+"token/erc721/extensions/metadata.rs", C+"token/erc1155/extensions/uri_storage.rs", C+"token/erc1155/extensions/metadata_uri.rs", C+"utils/metadata.rs", C+"token/erc20/extensions/metadata.rs", C+"token/erc20/extensions/capped.rs"],
  [("token_uri/_set_token_uri/_set_base_uri/uri/cap", C+"token")])
p("C30", "A Merkle proof verifies exactly when it hashes up to the root",
  "Single-proof verification accepts exactly when folding the leaf with the proof elements, in order, through the commutative (sorted-pair) hash yields the root. Multi-proof verification accepts exactly when the leaves, proof and flags are consistent in number and the described reconstruction consumes them all and yields the root, and refuses inconsistent shapes instead of accepting or reading out of bounds. The Keccak hasher digests exactly the bytes fed to it in order, and the pair helpers hash exactly their two inputs, in the given or (commutative) sorted order.",
  ["inputs"], "all leaves, roots, proof lengths and flag vectors, for any hash function",
  S + "proofs of every length need induction.",
  [L+"merkle.rs", L+"hash.rs"],
  [("Verifier::verify/verify_with_builder/verify_multi_proof/verify_multi_proof_with_builder", L+"merkle.rs"), ("commutative_hash_pair", L+"hash.rs")])
p("C31", "Limb-based big-integer arithmetic is exact",
  "Big-integer addition, subtraction, comparison, doubling, halving, bitwise operations and multiplication on the supported limb counts compute exactly the mathematical result with exactly the right carry or borrow, the double-width remainder is the true remainder, and conversions to and from bytes, bits, digit strings and machine words are faithful (and refused when the value does not fit).",
  ["inputs"], "all operand values for every supported width",
  S + "carry chains over all limb values are out of reach of sampling.",
  [L+"arithmetic/uint.rs", L+"arithmetic/limb.rs", L+"bits.rs"],
  [("Uint::checked_add_assign/checked_sub_assign/ct_*", L+"arithmetic/uint.rs"), ("WideUint::ct_rem", L+"arithmetic/uint.rs"), ("limb::mac/adc/sbb", L+"arithmetic/limb.rs")])
p("C32", "Prime-field arithmetic is exact modular arithmetic",
  "For prime fields, addition, subtraction, negation, doubling, multiplication, squaring, sums of products, division and exponentiation return the canonical representative of the exact result modulo the prime, inversion returns the true inverse of every non-zero element and nothing for zero, comparison orders by value, and converting an integer into the field and back reduces it modulo the prime; all results stay canonical so equality is exact. This holds for the shipped fields and for fields whose prime uses every bit of its limbs.",
  ["inputs"], "all field elements of every shipped field, and of a 256-bit prime without a spare bit",
  S + "exactness of Montgomery arithmetic over 2^256 values is out of reach of sampling.",
  [L+"field/fp.rs", L+"field/mod.rs", L+"field/group.rs", L+"field/instance.rs"],
  [("FpParams::mul_assign/add_assign/inverse/…", L+"field/fp.rs"), ("Field::pow/sum_of_products", L+"field/mod.rs")])
p("C33", "Elliptic-curve group operations satisfy the group law",
  "On short-Weierstrass curves, addition (projective and mixed), subtraction, doubling and negation compute the chord-and-tangent sum for all inputs including the identity, equal and opposite points; conversions between affine and projective coordinates, singly or in batch, preserve the point; equality is equality of points; the on-curve and subgroup tests accept exactly the points that satisfy them; and scalar multiplication (including by the cofactor) is repeated addition.",
  ["inputs"], "all points, all scalars, for curves with zero and non-zero coefficient a",
  S + "the polynomial identities behind the formulas and the exceptional cases are sampled only.",
  [L+"curve/mod.rs", L+"curve/sw/mod.rs", L+"curve/sw/affine.rs", L+"curve/sw/projective.rs", L+"curve/helpers.rs", L+"bits.rs"],
  [("Projective::add_assign/double_in_place/eq", L+"curve/sw/projective.rs"), ("Affine::is_on_curve/neg/xy", L+"curve/sw/affine.rs"), ("SWCurveConfig::mul_projective/double_and_add", L+"curve/sw/mod.rs"), ("batch_inversion", L+"curve/mod.rs")])
p("C34", "The Poseidon2 sponge applies the specified permutation and absorbs all input",
  "The permutation is exactly the Poseidon2 composition of external linear layer, full rounds, partial rounds and full rounds with the configured constants and S-box, for every supported state size; the sponge absorbs every element in order into the rate part, permuting exactly when the rate is full and before the first squeeze, so distinct absorb sequences are never silently merged or dropped; absorbing after squeezing is refused. The shipped parameter sets are the published ones.",
  ["inputs", "histories"], "all field elements, shipped parameter sets, input lengths and absorb/squeeze histories",
  S + "fixed test vectors do not cover all lengths and state positions.",
  [L+"poseidon2/mod.rs", L+"poseidon2/params.rs", L+"poseidon2/instance"],
  [("Poseidon2::permute/absorb/squeeze/…", L+"poseidon2/mod.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
