"""Which contracts decide which property.  A unit is one harness file, the real crates it is compiled
against, and the contracts (functions of the harness file) that carry obligations of the property."""
TB_SHIM = "mini-FRAME shim (/verif/shim): storage items, origins, BoundedVec, Perbill and codec surface the real pallet code is compiled against, in place of polkadot-sdk"
TB_KANI = "Kani 0.68 / CBMC 6.11 / CaDiCaL"
TB_CCY = "currency by contract (balances, named freezes, transfer)"

def U(h, crates, fns, thorough=(), known=(), mf=None, tmf=None, tfns=()):
    return {"h": h, "crates": crates, "fns": list(fns), "known": list(known), "mf": mf or {}, "tmf": tmf or {}, "tfns": list(tfns)}

CAPM = {"MF_N": 5, "MF_CAP": 2, "MF_CFG": "b64"}
CAPT = {"MF_N": 6, "MF_CAP": 3, "MF_CFG": "b64"}
def CAP(*fns, known=()): return U("cap", ["pallet-capacity"], fns, known=known, mf=CAPM, tmf=CAPT)
MSAM = {"MF_N": 5, "MF_CAP": 4, "MF_CFG": "mf_tok"}
MSAT = {"MF_N": 6, "MF_CAP": 5, "MF_CFG": "mf_tok"}
def MSA(*fns, mf=None): return U("msa", ["pallet-msa"], fns, mf={**MSAM, **(mf or {})}, tmf=MSAT)
TB_SIG = "signature verification by contract (an arbitrary function of signature, message and signer)"
TB_ENC = "SCALE encoding of the signed payload types by contract (injective), the byte wrapper is proved separately to add fixed text around its input"
MSA_TB = [TB_SHIM, TB_SIG, TB_ENC, TB_KANI]
CAP_TB = [TB_SHIM, TB_CCY, TB_KANI]

MSG_TB = [TB_SHIM, "MSA lookup, schema lookup and grant check by contract (arbitrary functions of their arguments; their own guarantees are M01, M03, H01)", "CID parsing and multibase coding by contract (arbitrary functions, encoding injective)", TB_KANI]
def MSG(*fns, mf): return U("msg", ["pallet-messages"], fns, mf=mf)
MSG1 = MSG("onchain", "ipfs", "block_start", "nobody", mf={"MF_N": 9, "MF_CAP": 3, "MF_U": 11})
MSG2 = MSG("retrieve", mf={"MF_N": 4, "MF_CAP": 3, "MF_U": 6})
MSG3 = MSG("retrieve_ipfs", "paging", mf={"MF_N": 7, "MF_CAP": 1, "MF_U": 9})

REL_TB = [TB_SHIM, TB_CCY, "products and quotients of block numbers and balances by contract (laws proved with Verus in lemmas/arith.rs)", TB_KANI]
def REL(*fns): return U("rel", ["pallet-time-release"], fns, mf={"MF_N": 3, "MF_CAP": 2, "MF_U": 6})
REL_U = "pallet_time_release::{Pallet::{claim, claim_for, transfer, update_release_schedules} and every function they call"

STO_TB = [TB_SHIM, "MSA lookup, schema lookup and grant check by contract (arbitrary functions of their arguments; their own guarantees are M01, M03, H01)", TB_SIG, TB_ENC, "hash functions by contract (collision-free)", "child trie by contract (a map from raw keys to bytes)", TB_KANI]
def STO(*fns, mf): return U("sto", ["pallet-stateful-storage"], fns, mf=mf)
STO_P = {"MF_N": 5, "MF_CAP": 2, "MF_W": 11, "MF_T": 5, "MF_U": 13, "MF_CFG": "mf_tok"}
STO_I = {"MF_N": 7, "MF_CAP": 2, "MF_W": 8, "MF_T": 5, "MF_U": 9, "MF_CFG": "mf_tok"}
STO_2 = {"MF_N": 10, "MF_CAP": 2, "MF_W": 12, "MF_T": 8, "MF_U": 13, "MF_CFG": "mf_tok"}
STO_N = {"MF_N": 10, "MF_CAP": 2, "MF_U": 12}
STO_S = ("signed_upsert", "signed_upsert_v2", "signed_delete", "signed_delete_v2")
STO_U = "pallet_stateful_storage::Pallet::"

SCH_TB = [TB_SHIM, "JSON parsing by contract (an arbitrary classification of texts)", "the council proposal provider by contract (records what was proposed)", TB_KANI]
def SCH(*fns, mf=None, tfns=()): return U("sch", ["pallet-schemas"], fns, mf=mf or {"MF_N": 3, "MF_CAP": 3, "MF_U": 5}, tfns=tfns)
SCH_U = "pallet_schemas::Pallet::"
SCH_C = SCH_U + "{create_schema(_v2, _v3), create_schema_via_governance(_v2), create_schema_name_via_governance} and every function they call"

HND_TB = [TB_SHIM, "MSA lookup by contract (an arbitrary function of the key; its own guarantees are M01)", TB_SIG, TB_ENC, "handles-utils by contract for the pallet (/verif/shim/handles-utils): normalisation and character checks are arbitrary functions of the text (what the checks answer is in contracts hut::* of the real code; normalisation itself is trusted), the suffixes of a text an arbitrary sequence without repetition inside the range (hut::series); printing and splitting of display names are inverse", "core::str::{from_utf8, Chars::count} by contract (ASCII text; characters are the bytes that do not continue one)", TB_KANI]
def HND(*fns, mf=None): return U("hnd", ["pallet-handles"], fns, mf=mf or {"MF_N": 8, "MF_CAP": 2, "MF_W": 8, "MF_T": 4, "MF_U": 10, "MF_CFG": "mf_tok"})
def HUT(*fns, mf, known=()): return U("hut", ["handles-utils-real"], fns, known=known, mf={"MF_CAP": 1, **mf})
HUT_S = HUT("series", mf={"MF_N": 6, "MF_U": 8})
HUT_C = [HUT("characters", mf={"MF_N": 8, "MF_U": 18}), HUT("sets", known=["beyond"], mf={"MF_N": 6, "MF_U": 23}), HUT("reserved", mf={"MF_N": 14, "MF_U": 16})]
TB_HUT = "random numbers (oorandom) and xxHash by contract: any function of the seed, in the range asked for"
HND_LONG = HND("long", mf={"MF_N": 34, "MF_CAP": 1, "MF_W": 8, "MF_T": 4, "MF_U": 36, "MF_CFG": "mf_tok"})
HND_U = "pallet_handles::Pallet::{claim_handle, change_handle, retire_handle} and every function they call"

PROPS = {
    "N01": {"units": [HND("claim", "change", "retire", "resolve"), HND_LONG], "tb": HND_TB, "under": [HND_U, "pallet_handles::Pallet::{get_handle_for_msa, get_msa_id_for_handle}"]},
    "N02": {"units": [HND("claim", "change", "retire", "announced"), HUT_S], "tb": HND_TB + [TB_HUT], "under": ["handles_utils::suffix::{generate_unique_suffixes, generate_seed}", HND_U, "pallet_handles::Pallet::{get_next_suffixes, get_next_suffix_index_for_canonical_handle, generate_suffix_for_canonical_handle}"]},
    "N03": {"units": [HND("claim", "change", "retire")], "tb": HND_TB, "under": [HND_U]},
    "N04": {"units": [HND("claim", "change", "asked"), HND_LONG, *HUT_C], "tb": HND_TB, "under": ["handles_utils::validator::{contains_blocked_characters, consists_of_supported_unicode_character_sets, is_reserved_handle}", HND_U, "pallet_handles::Pallet::validate_handle"]},
    "N05": {"units": [HND("retire", "others")], "tb": HND_TB, "under": ["<pallet_handles::HandlesSignedExtension as SignedExtension>::{validate, pre_dispatch}", "pallet_handles::Pallet::retire_handle"]},
    "H01": {"units": [SCH("create", "create_gov", "create_old", "name", "reported")], "tb": SCH_TB, "under": [SCH_C, "<pallet_schemas::Pallet as SchemaProvider, SchemaValidator>"]},
    "H02": {"units": [SCH("create", "create_gov", "name", "versions", "versions_none", tfns=["versions_all"])], "tb": SCH_TB, "under": [SCH_C, SCH_U + "get_schema_versions", "pallet_schemas::types::SchemaVersionId::{add, convert_to_response}"]},
    "H03": {"units": [SCH("create", "create_gov", "create_old", "name", "propose", "limits")], "tb": SCH_TB, "under": [SCH_C, SCH_U + "{propose_to_create_schema(_v2), propose_to_create_schema_name, set_max_schema_model_bytes}"]},
    "H04": {"units": [SCH("parsed", mf={"MF_N": 8, "MF_CAP": 1, "MF_U": 10}), SCH("lengths", mf={"MF_N": 33, "MF_CAP": 1, "MF_U": 36})], "tb": [TB_SHIM, TB_KANI], "under": ["pallet_schemas::types::SchemaName::{try_parse, get_combined_name, descriptor_exists}"]},
    "S01": {"units": [STO("upsert", "delete", *STO_S, "identifies", mf=STO_P)], "tb": STO_TB, "under": [STO_U + "{upsert_page, delete_page, upsert_page_with_signature(_v2), delete_page_with_signature(_v2)} and every function they call", "Page::get_hash"]},
    "S02": {"units": [STO("apply", "signed_apply", "signed_apply_v2", "items", "reported", mf=STO_I), STO("items2", mf=STO_2)], "tb": STO_TB, "under": [STO_U + "{apply_item_actions, apply_item_actions_with_signature(_v2), get_itemized_storage} and every function they call", "<ItemizedPage as ItemizedOperations>::{apply_item_actions, try_parse}"]},
    "S03": {"units": [STO("upsert", "delete", *STO_S, "nobody", mf=STO_P), STO("apply", "nobody_items", mf=STO_I), STO("pruned", mf=STO_2)], "tb": STO_TB, "under": [STO_U + "{upsert_page, delete_page, apply_item_actions and their signed forms} and every function they call"]},
    "S04": {"units": [STO(*STO_S, mf=STO_P), STO("signed_apply", "signed_apply_v2", mf=STO_I)], "tb": STO_TB, "under": [STO_U + "{upsert_page_with_signature(_v2), delete_page_with_signature(_v2), apply_item_actions_with_signature(_v2)} and every function they call"]},
    "S05": {"units": [STO("upsert", "delete", "signed_upsert_v2", "signed_delete_v2", mf=STO_P), STO("node", "node_items", "node_removed", "node_items_removed", mf=STO_N), STO("apply", mf=STO_I)], "tb": STO_TB, "under": ["StatefulChildTree::{try_read, write, kill, get_child_tree_for_storage}", "MultipartKey::hash for the page addresses", STO_U + "{upsert_page, delete_page, apply_item_actions} and every function they call"]},
    "T01": {"units": [REL("schedule", "claim", "transfer", "update")], "tb": REL_TB, "verus": ["lemmas/arith.rs"], "under": [REL_U, "ReleaseSchedule::{end, total_amount, frozen_amount}}"]},
    "T02": {"units": [REL("schedule", "transfer")], "tb": REL_TB, "verus": ["lemmas/arith.rs"], "under": ["pallet_time_release::Pallet::transfer and every function it calls"]},
    "T03": {"units": [REL("claim", "transfer", "update", "unsigned")], "tb": REL_TB, "under": [REL_U + "}"]},
    "G01": {"units": [MSG("onchain", "ipfs", "block_start", mf=MSG1["mf"])], "tb": MSG_TB, "under": ["pallet_messages::Pallet::{add_onchain_message, add_ipfs_message, add_message}", "<pallet_messages::Pallet as Hooks>::on_initialize"]},
    "G02": {"units": [MSG("onchain", "ipfs", "nobody", mf=MSG1["mf"])], "tb": MSG_TB, "under": ["pallet_messages::Pallet::{add_onchain_message, add_ipfs_message, find_msa_id, validate_cid}"]},
    "G03": {"units": [MSG2, MSG3], "tb": MSG_TB, "under": ["pallet_messages::Pallet::get_messages_by_schema_and_block", "pallet_messages::Message::map_to_response", "common_primitives::messages::{BlockPaginationRequest::validate, BlockPaginationResponse::check_end_condition_and_set_next_pagination}"]},
    "C01": {"units": [CAP("stake", "unstake", "withdraw", known=["unstake_over_target"])], "tb": CAP_TB, "under": ["pallet_capacity::Pallet::{stake, unstake, withdraw_unstaked} and every function they call"]},
    "C02": {"units": [CAP("stake", "unstake", "withdraw")], "tb": CAP_TB, "under": ["pallet_capacity::Pallet::{stake, unstake, withdraw_unstaked} and every function they call"]},
    "C03": {"units": [CAP("stake", "unstake", "deduct", "replenish", "grant")], "tb": CAP_TB, "under": ["<pallet_capacity::Pallet as Nontransferable>::{balance, deduct, deposit}", "<pallet_capacity::Pallet as Replenishable>::{can_replenish, replenish_all_for}", "pallet_capacity::Pallet::{stake, unstake}"]},
    "C04": {"units": [CAP("stake", "unstake", "withdraw")], "tb": CAP_TB, "under": ["pallet_capacity::Pallet::{stake, unstake, withdraw_unstaked} and every function they call"]},
    "C05": {"units": [CAP("epoch", "epoch_length")], "tb": CAP_TB, "under": ["<pallet_capacity::Pallet as Hooks>::on_initialize", "pallet_capacity::Pallet::set_epoch_length"]},
    "C06": {"units": [CAP("stake", "stake_needs_signature")], "tb": CAP_TB, "under": ["pallet_capacity::Pallet::stake and every function it calls"]},
    "M01": {"units": [MSA("create", "add_key", "sponsored", "delete_key", "lookup")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::{create, add_public_key_to_msa, create_sponsored_account_with_delegation, delete_msa_public_key}", "<pallet_msa::Pallet as MsaLookup, MsaValidator>"]},
    "M02": {"units": [MSA("add_key", "sponsored", "grant", "revoke", "delete_key", "unsigned")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::{add_public_key_to_msa, create_sponsored_account_with_delegation, grant_delegation, revoke_delegation_by_delegator, revoke_delegation_by_provider}", "pallet_msa::CheckFreeExtrinsicUse"]},
    "M03": {"units": [MSA("validity", "reported")], "tb": MSA_TB, "under": ["<pallet_msa::Pallet as DelegationValidator>::ensure_valid_delegation", "<pallet_msa::Pallet as SchemaGrantValidator>::ensure_valid_schema_grant", "pallet_msa::Pallet::get_granted_schemas_by_msa_id"]},
    "M04": {"units": [MSA("sponsored", "grant", "revoke", "revoke_schemas")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::{grant_delegation, create_sponsored_account_with_delegation, revoke_delegation_by_delegator, revoke_delegation_by_provider, revoke_schema_permissions}"]},
    "M05": {"units": [MSA("add_key", "sponsored", "grant", "registry")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::{grant_delegation, add_public_key_to_msa, create_sponsored_account_with_delegation, register_signature}"]},
    "M06": {"units": [MSA("retire")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::retire_msa", "pallet_msa::CheckFreeExtrinsicUse::ensure_msa_can_retire"]},
    "M07": {"units": [MSA("delete_key", "retire", "retire_block", "free_revoke_d", "free_revoke_p", "free_nothing_else")], "tb": MSA_TB, "under": ["<pallet_msa::CheckFreeExtrinsicUse as SignedExtension>::{validate, pre_dispatch}", "pallet_msa::Pallet::{delete_msa_public_key, retire_msa, revoke_delegation_by_delegator, revoke_delegation_by_provider}"]},
    "M08": {"units": [MSA("provider", "propose", "lookup")], "tb": MSA_TB, "under": ["pallet_msa::Pallet::{create_provider, create_provider_via_governance, propose_to_be_provider}", "<pallet_msa::Pallet as TargetValidator>::validate"]},
}
# contracts that draw collections up to a stated length: counted apart, never as proved
BOUNDED = {
    **{"msa::" + f: "delegations of up to 3 schemas, calls listing up to 2, accounts with up to 4 delegations" for f in ("sponsored", "grant", "revoke", "revoke_schemas", "validity", "reported", "retire", "free_revoke_d", "free_revoke_p")},
    **{"msa::" + f: "provider names up to 3 bytes" for f in ("provider", "propose")},
    **{"msg::" + f: "payloads and content identifiers up to 4 bytes" for f in ("onchain", "ipfs", "nobody")},
    **{"msg::" + f: "up to 3 messages per block and schema, of up to 4 bytes" for f in ("retrieve", "retrieve_ipfs", "paging")},
    **{"rel::" + f: "accounts with up to 2 schedules, updates listing up to 2" for f in ("claim", "transfer", "update", "unsigned")},
    **{"sto::" + f: "pages up to 3 bytes" for f in ("upsert", "delete", "identifies", "nobody", *STO_S)},
    **{"sto::" + f: "item pages up to 4 bytes, one action" for f in ("apply", "signed_apply", "signed_apply_v2", "items", "reported", "nobody_items")},
    **{"sch::" + f: "schema models up to 2 bytes, names with up to 2 versions" for f in ("create", "create_gov", "create_old", "name", "propose", "reported", "versions")},
    "sch::versions_all": "namespaces with up to 2 names of one version each",
    **{"hnd::" + f: "handles and canonical forms up to 3 characters" for f in ("claim", "change", "retire", "resolve")},
    "hnd::asked": "handles and canonical forms up to 3 characters",
    "hnd::announced": "ranges of up to 3 suffixes, handles up to 3 characters",
    "hnd::long": "one canonical form of 33 bytes",
    "hut::series": "ranges of up to 3 suffixes",
    "hut::characters": "texts of up to 2 characters",
    "hut::sets": "one character of the basic plane, alone or before a letter",
    "hut::beyond": "one character",
    "hut::reserved": "texts up to 14 ASCII characters",
    "sch::parsed": "texts up to 7 bytes",
    **{"sto::" + f: "item pages up to 2 bytes, two actions" for f in ("items2", "pruned")},
}
def bound(h, f): return BOUNDED.get(f"{h}::{f}")
def level(pid):
    s = PROPS[pid]
    return s.get("level") or ("proof" if s.get("verus") or any(not bound(u["h"], f) for u in s["units"] for f in u["fns"] + u["known"]) else "other")
def bounds_of(pid):
    r = {}
    for u in PROPS[pid]["units"]:
        for f in u["fns"] + u["known"]:
            if bound(u["h"], f): r.setdefault(bound(u["h"], f), []).append(f)
    return r
def note(pid):
    s, b = PROPS[pid], bounds_of(pid)
    full = [f for u in s["units"] for f in u["fns"] + u["known"] if not bound(u["h"], f)]
    t = "Contracts on the real source of the pallet, for arbitrary inputs and arbitrary prior storage. "
    if full or s.get("verus"): t += "Proved without bounds: " + ", ".join(full + s.get("verus", [])) + ". "
    if b: t += "Bounded, not counted as proved: " + "; ".join(f"{', '.join(v)} ({k})" for k, v in b.items()) + ". "
    return t + "Trusted: " + "; ".join(s["tb"])
ASSUME = {
    "N": ["initial state satisfies the invariant: a taken suffix of the current range is one of those given out so far for its canonical form; a stored display handle is a base without delimiter, the delimiter and a suffix (inductive: every call re-establishes it)",
          "if the configured suffix range is ever changed, the new one does not overlap suffixes still in use (the pallet restarts the series then)",
          "texts are ASCII in the pallet contracts (any normalisation of them, of the drawn lengths)",
          "block numbers and the mortality window below 2^30",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "H": ["initial state satisfies the invariant: only issued ids have a schema, with its model; a named schema knows it is named; no schema has two names (inductive: every call re-establishes it)",
          "callers are checked against the contract of SchemaName::try_parse (a partial function of the text), which contracts `parsed` and `lengths` describe exactly",
          "text that is not ASCII may or may not be valid UTF-8 (either way it is refused)",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "S": ["block numbers and the mortality window below 2^30",
          "page limits and item limits as configured; pages, items and action lists of the drawn lengths (see bounds)",
          "callers are checked against the contract of StatefulChildTree (a map), which contracts `node*` prove of the real code, byte for byte, for collision-free hashes",
          "deleting a page also forgets its version number, so nothing is claimed about replays across a deletion",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "T": ["initial state satisfies the invariant: stored schedules are valid and the freeze covers what they still hold (inductive: every call re-establishes it)",
          "total amounts of a schedule below 2^40, free balances below 2^48, in 64-bit balances; the arithmetic of a schedule itself is proved for all 64-bit amounts, 32-bit counts and block numbers",
          "accounts with up to 2 schedules, updates listing up to 2 (length bounds of symbolic collections)",
          "callers are checked against the contracts of ReleaseSchedule::{total_amount, end, frozen_amount}, which contract `schedule` proves",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "G": ["initial state satisfies the invariant: messages exist only in past blocks and, in the current block, below the message counter (inductive: every call re-establishes it)",
          "fewer than 65,535 messages per block (one message weighs far more than 1/65,535 of a block)",
          "payloads up to 4 bytes and up to 3 messages per block and schema are drawn (length bounds of symbolic collections)",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "M": ["initial state satisfies the invariant at the keys a call touches: a registered key belongs to an issued id whose key count is positive and within the limit; an id not issued yet has no key and no delegation; revocation blocks are not in the future",
          "block numbers, the mortality window and the signature capacity below 2^30",
          "delegations of up to 3 schemas, payloads listing up to 2, accounts with up to 4 delegations (length bounds of symbolic collections; the loops over them are otherwise uninterpreted)",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
    "C": ["initial state satisfies the ledger invariant at the keys the call touches (inductive: every call re-establishes it)",
          "token amounts below 2^48 in 64-bit balances (2^96 in the 128-bit instantiation); Perbill * amount is by contract (at most the amount, functional)",
          "dispatchables that return an error are rolled back by FRAME's storage layer"],
}

NOT_APPLICABLE = {
    "P01": "pallet-frequency-tx-payment is built on polkadot-sdk's pallet-transaction-payment (OnChargeTransaction, fee details, post-dispatch refunds); the sdk sources are not in the sandbox and contracts against a hand-written stand-in of that much of the fee code would verify the stand-in. The capacity side of a payment - deduct and refill - is proved of the real code as C03",
    "K01": "pallet-passkey at this commit does not verify the passkey's signature over the call yet (work in progress upstream), so the property has no code to hold; the account signature, nonce and fee checks delegate to frame_system and pallet-transaction-payment, which are not in the sandbox",
    "R01": "the filters are arms over the RuntimeCall enumeration that construct_runtime! generates from some forty sdk pallets, none of which is in the sandbox, so the real runtime crate can be neither compiled nor extracted without inventing that enumeration",
}
