# ---------------------------------------------------------------- identities
p("M01", "A key belongs to at most one account; identifiers are never reused",
  "Each public key belongs to at most one MSA, a new MSA gets the next identifier, which was never issued before, and the number of keys of an MSA is exactly counted, at least one, and never above the configured limit. A deleted key is free again; nobody else's keys change.",
  IH, "every sequence of MSA creations, key additions, key deletions and sponsored creations, by any accounts", "tests create a handful of accounts; the bookkeeping must hold at the limits, after deletions and re-additions, and near the largest identifier",
  [MSA], [("create", f"{MSA} fn create_account, create_registered_account"), ("add", f"{MSA} fn add_key"), ("delete", f"{MSA} fn delete_key_for_msa")], ["create, add_public_key_to_msa, delete_msa_public_key extrinsics", "MsaLookup, MsaValidator traits"],
  [("public key to MSA", "owner of each key", MSA), ("key count", "keys per MSA", MSA), ("identifier maximum", "highest issued MSA id", MSA)])
p("M02", "Only the holder of a key can change its MSA's keys and delegations",
  "A key is added to an MSA only if a key of that MSA and the new key both signed exactly that request; a delegation is created or changed only if the delegator's key signed the exact payload naming the registered provider that submits it. Only the two parties can end a delegation, and a key is deleted only by another key of the same MSA.",
  IH, "every caller, key, signature, payload and prior state", "tests try a few wrong signatures; the authority must be checked on every path, for the right key, over the whole payload",
  [MSA], [("signatures", f"{MSA} fn verify_signature"), ("ownership", f"{MSA} fn ensure_msa_owner, ensure_valid_registered_provider"), ("deletion", f"{MSA} fn validate_key_delete")], ["grant_delegation, add_public_key_to_msa, create_sponsored_account_with_delegation extrinsics"])
p("M03", "Delegations and schema grants hold exactly from grant to revocation",
  "A delegation is accepted for a block if it exists, that block is not in the future, and it was not revoked before that block. A schema grant is accepted only if, in addition, that schema was granted to that provider and not revoked before that block. What the chain reports as granted agrees with what it enforces.",
  IH, "every delegation, schema, provider and block number, including the revocation block itself", "tests probe single blocks around one revocation; the answer must be right for every combination of revocation, grant and query blocks",
  [MSA], [("delegation validity", f"{MSA} impl DelegationValidator: ensure_valid_delegation"), ("grant validity", f"{MSA} impl SchemaGrantValidator: ensure_valid_schema_grant"), ("reported grants", f"{MSA} fn get_granted_schemas_by_msa_id")], ["DelegationValidator, SchemaGrantValidator traits", "granted schemas runtime api"])
p("M04", "Granting and revoking a delegation changes exactly what was asked",
  "Granting a delegation makes it active, activates exactly the listed schemas and ends every other active one at the current block. Revoking a delegation or a schema takes effect at the current block and keeps the history of the rest. A revoked delegation cannot be revoked again, and no other delegation changes.",
  IH, "every prior delegation with any schema history, every list of schemas, every block", "tests update a delegation once or twice with small lists; mixtures of active, ended and new schemas and re-grants after revocation are not enumerated",
  [MSA, "common/primitives/src/msa.rs"], [("update", f"{MSA} fn upsert_schema_permissions"), ("revoke", f"{MSA} fn revoke_provider, revoke_permissions_for_schemas"), ("schema list", "pallets/msa/src/types.rs PermittedDelegationSchemas")], ["delegations in storage"],
  [("delegation", "revocation block and schema permissions per delegator and provider", MSA)])
p("M05", "A signed payload is accepted once, and only inside its lifetime",
  "A signed delegation or key payload is accepted only while its expiration lies after the current block and within the mortality window. Once accepted, the same signature is never accepted again before it has expired, even when the registry of used signatures is full and wraps around.",
  IH, "every expiration, block number, signature history and registry fill level", "tests fill small registries in order; wrap-around, replacement of the oldest entry and boundary blocks need every state",
  [MSA], [("registry", f"{MSA} fn register_signature, enqueue_signature"), ("window", f"{MSA} fn mortality_block_limit")], ["extrinsics carrying signed payloads", "payload signature registry in storage"])
p("M06", "Retiring an MSA leaves nothing usable behind",
  "An MSA can be retired only by its last key, when it is not a registered provider, holds no handle and delegates to nobody. Retirement removes that key and the key count, changes nothing else, and the identifier is never issued again.",
  IH, "every state of keys, delegations, provider registration and handles", "tests check each obstacle alone; the conditions must all be enforced, for every set of delegations",
  [MSA], [("conditions", f"{MSA} fn ensure_msa_can_retire"), ("retire", f"{MSA} fn retire_msa, delete_key_for_msa")], ["retire_msa extrinsic"])
p("M07", "A free transaction is accepted only if it will succeed",
  "The feeless identity calls - revoking a delegation, deleting a key, retiring an MSA - pass transaction validation only in a state in which executing them succeeds, and validation treats the transaction pool and the block alike. Validation changes nothing, and other calls are not affected by it.",
  IH, "every caller, argument and prior state", "tests check one rejected and one accepted case per call; a gap between validation and execution lets anyone fill blocks without paying",
  [MSA], [("validation", f"{MSA} impl SignedExtension for CheckFreeExtrinsicUse, validate_delegation_by_delegator, validate_delegation_by_provider, validate_key_delete, ensure_msa_can_retire")], ["CheckFreeExtrinsicUse signed extension"])
p("M08", "Providers register once, for an existing MSA, with the required origin",
  "An MSA becomes a registered provider only through its own key or an approved governance call, once, with a name within the limit. A proposal registers nothing by itself and names exactly the proposer's key; the staking target check agrees with the registry.",
  IH, "every caller, origin, name and prior registry", "tests register one provider per path; duplicate registration, wrong origins and over-long names in every state are not covered",
  [MSA], [("registration", f"{MSA} fn create_provider_for, create_provider_via_governance, propose_to_be_provider")], ["create_provider, create_provider_via_governance, propose_to_be_provider extrinsics", "TargetValidator trait"])

# ---------------------------------------------------------------- messages
GM = "pallets/messages/src/lib.rs"
GH = "every sequence of messages and blocks, starting from any state that satisfies the invariant"
p("G01", "A stored message keeps its place and content forever",
  "Each accepted message is stored under the current block, its schema and the next index of that block, starting at 0 in every block. No later message, block or call of the pallet changes, moves or removes a stored message.",
  IH, GH, "tests store a few messages in fresh blocks; immutability must hold for every interleaving of schemas, kinds of message and blocks",
  [GM], [("numbering", f"{GM} fn add_message"), ("restart", f"{GM} fn on_initialize")], ["add_onchain_message, add_ipfs_message extrinsics", "get_messages_v2, get_message_index"],
  [("messages", "block, schema, index to message", GM), ("message counter", "messages stored so far in the current block", GM)])
p("G02", "Messages are accepted only from authorised providers, for the right schema",
  "A message is accepted only from a key of an MSA, for an existing schema whose payload location matches the kind of message, within the size limit. A message in someone else's name needs that user's grant for that schema in the current block, and is attributed to that user; an off-chain message needs a valid content identifier.",
  IH, "every caller, author, schema, payload and content identifier text", "tests try one wrong schema, one missing grant and one bad identifier; the checks must hold together on every path",
  [GM], [("authorisation", f"{GM} fn add_onchain_message"), ("content identifier", f"{GM} fn validate_cid")], ["add_onchain_message, add_ipfs_message extrinsics"], [])
p("G03", "Reading back messages returns all of them, in order, as stored",
  "Asking for the messages of a block and schema returns each stored message exactly once, in index order, with the stored payload or content reference, provider and author, and nothing else. Page continuation points to the successor of the last message returned, and ends exactly at the end of the range.",
  IH, "every stored set of messages and every page request", "tests read back small ordered blocks; storage iteration order is arbitrary, and the page borders are not enumerated",
  [GM, "pallets/messages/src/types.rs", "common/primitives/src/messages.rs"], [("retrieval", f"{GM} fn get_messages_by_schema_and_block"), ("response", "pallets/messages/src/types.rs fn map_to_response"), ("paging", "common/primitives/src/messages.rs")], ["get_messages_by_schema_and_block (runtime API)"], [])

# ---------------------------------------------------------------- time release
p("T01", "Vesting tokens are never released early, and always released in the end",
  "At any block, what stays frozen of a release schedule is the per-period amount times the number of whole periods not yet over since its start - everything before the first period ends, nothing once all are over. An account's vesting freeze is never less than that sum over its schedules, a claim sets it to exactly that, and a schedule disappears only when nothing of it is left.",
  IH, "every schedule, block number and set of schedules, after any sequence of transfers, claims and updates", "tests evaluate one or two schedules at a handful of blocks; rounding at period borders, huge periods and mixed schedules are not enumerated",
  [TR, "pallets/time-release/src/types.rs"], [("schedule", "pallets/time-release/src/types.rs fn frozen_amount, total_amount, end"), ("claim", f"{TR} fn do_claim, prune_schedules_for, prune_and_get_frozen_balance"), ("freeze", f"{TR} fn update_freeze, do_transfer")], ["claim, claim_for, transfer, update_release_schedules extrinsics", "vesting freeze of the account"],
  [("release schedules", "schedules per account", TR)])
p("T02", "A vesting transfer moves exactly its total, and only valid schedules are made",
  "A vesting transfer moves exactly per-period amount times number of periods from the sender to the recipient, out of tokens the sender may spend, and adds exactly the given schedule to the recipient. Schedules with a zero period or count, an overflowing total or end, or less than the minimum are refused, and so is one more than the limit.",
  IH, "every sender, recipient (also the sender itself), schedule and prior balances, freezes and schedules", "tests transfer small amounts between fresh accounts; self-transfers, full schedule lists and values near overflow need every combination",
  [TR], [("transfer", f"{TR} fn do_transfer"), ("validation", f"{TR} fn ensure_valid_release_schedule")], ["transfer extrinsic"])
p("T03", "Only root rewrites schedules; claiming moves no tokens and hurts nobody",
  "Existing schedules are rewritten only by root, and only to valid schedules the balance covers. Anyone may claim for anyone: a claim always succeeds, moves no tokens and only updates that account's freeze and drops its finished schedules. Unsigned calls change nothing, and no call touches another account's schedules or freezes.",
  IH, "every origin, account and prior state", "tests check one wrong origin per call; the frame - what must not change - is not observed by them",
  [TR], [("update", f"{TR} fn do_update_release_schedules"), ("claim", f"{TR} fn claim, claim_for, do_claim")], ["claim, claim_for, update_release_schedules extrinsics"])

# ---------------------------------------------------------------- stateful storage
ST = "pallets/stateful-storage/src/types.rs"; SC = "pallets/stateful-storage/src/stateful_child_tree.rs"
p("S01", "A stored page changes only if the caller quotes its current content",
  "A paginated page is written or removed only by a call that quotes the content hash of exactly what is stored at that moment (zero for an absent page), whatever kind of call it is. A successful write stores exactly the given payload in the next version of the page, a removal leaves nothing, and the content hash tells any two versions or contents apart.",
  IH + ["schedules"], "every stored page, version, quoted hash and call, in any order of concurrent writers", "tests replay a stale hash once; a lost update needs the check to hold in every extrinsic, for every version and content, including absent and corrupt pages",
  [SS, ST], [("staleness check", f"{SS} fn update_paginated, delete_paginated, update_itemized"), ("content hash", f"{ST} fn get_hash"), ("version", f"{ST} Page::nonce")], ["upsert_page, delete_page and their signed forms", "get_paginated_storage (runtime API)"],
  [("child tree", "pages by MSA, schema and page number", SC)])
p("S02", "Item actions apply together: what remains in order, then what was added",
  "After a successful call the page holds exactly the items that were there and were not deleted, in their old order, followed by the added items in the order given; an emptied page is removed. Deleting a missing item, exceeding the page limit or a malformed page refuses the whole call. Reading reports each item exactly as stored, with its index.",
  IH, "every page content, including malformed ones, and every list of actions", "tests use hand-made pages with a few items; length headers at the borders, repeated deletions and truncated pages are not enumerated",
  [ST, SS], [("actions", f"{ST} fn apply_item_actions"), ("parsing", f"{ST} fn try_parse"), ("write-back", f"{SS} fn update_itemized")], ["apply_item_actions and its signed forms", "get_itemized_storage (runtime API)"])
p("S03", "Stored data is written only by its owner or someone the owner allows",
  "A stateful page is changed only by its owner, or by an account whose MSA the owner has granted that schema in this block, or with the owner's signature. The schema must exist and be of that storage kind; an append-only schema is never deleted from, and a schema that requires signatures is never written by somebody else's unsigned word. Unsigned and root calls change nothing.",
  IH, "every caller, owner, schema with every combination of settings, and page", "tests try one missing grant and one wrong schema per extrinsic; eight extrinsics times all setting combinations are not covered",
  [SS], [("grants", f"{SS} fn check_msa_and_grants, check_msa"), ("schema", f"{SS} fn check_schema_for_write")], ["all extrinsics of the pallet"])
p("S04", "A signed write needs the owner's own, unexpired signature over it",
  "A call made on behalf of an owner by signature succeeds only with a signature over exactly that payload, by a key that belongs to the owner's MSA, whose expiry lies in the future and within the mortality window. It changes the owner's page and nobody else's.",
  IH, "every payload, key, signature and block number", "tests sign one valid and one wrong payload; the expiry borders and a key of another MSA must be refused in each of the six signed calls",
  [SS], [("signature", f"{SS} fn check_signature"), ("expiry", f"{SS} fn check_payload_expiration"), ("owner", f"{SS} fn check_msa")], ["the six _with_signature extrinsics"])
p("S05", "Pages are isolated: writing or removing one never affects another",
  "Every page is addressed by its owner, kind, schema and page number. Writing or removing it leaves every page with any other address unchanged, whatever is stored there, and reading an address returns what was last written to it. Page numbers and sizes beyond the limits are refused.",
  IH, "every pair of different addresses, and every content", "tests look at one or two pages; a key built from the wrong parts collides only for particular pairs of owners, schemas and page numbers",
  [SC, SS], [("page keys", f"{SC} trait MultipartKey fn hash"), ("owner's tree", f"{SC} fn get_child_tree_for_storage"), ("limits", f"{SS} fn upsert_page")], ["all extrinsics of the pallet", "get_paginated_storage, get_itemized_storage (runtime API)"])

# ---------------------------------------------------------------- schemas
SY = "pallets/schemas/src/types.rs"
p("H01", "Schema ids are given out once, in order, and what they mean never changes",
  "Every successful creation, by whatever call, issues the next schema id, never one issued before, and stores exactly the given model, model type, payload location and settings under it. No later call of the pallet changes or removes a stored schema, and what is reported for an id is what was stored; ids not issued are invalid.",
  IH, "every sequence of schema calls, any models, settings and prior state including the largest id", "tests register a few schemas from an empty registry; immutability and the id border need every state and every one of the creation calls",
  [SCH], [("creation", f"{SCH} fn create_schema_for, add_schema, get_next_schema_id"), ("reporting", f"{SCH} fn get_schema_by_id")], ["create_schema extrinsics", "get_by_schema_id (runtime API)", "SchemaProvider, SchemaValidator traits"],
  [("schema infos and payloads", "schema by id", SCH), ("identifier maximum", "highest issued schema id", SCH)])
p("H02", "A schema has at most one name, and versions of a name are append-only",
  "Naming a schema, at creation or later, adds it as the newest version of that name. Earlier versions and all other names keep their versions in place, and a schema never has two names nor is twice in one, whichever calls named it. Asking for a name lists its versions in order, numbered from 1; asking for a namespace lists those of all its names.",
  IH, "every sequence of creations and naming calls, with any names", "tests name one schema once per path; a schema named through one call and named again through another, or a version moved by a later one, needs histories",
  [SCH, SY], [("naming", f"{SCH} fn create_schema_name_via_governance, create_schema_via_governance_v2, create_schema_v3, parse_and_verify_schema_name"), ("versions", f"{SY} SchemaVersionId::add, convert_to_response"), ("listing", f"{SCH} fn get_schema_versions")], ["naming extrinsics", "get_versions_by_name (runtime API)"],
  [("names to ids", "schema ids per namespace and descriptor", SCH)])
p("H03", "Schemas are created only by the right origin, and only if they are valid",
  "A schema is stored only by a signed call or an approved governance call, as each call requires, and only if its model parses as its type, lies within the size limits and its settings fit its payload location. A proposal itself changes nothing and carries exactly what was asked; only root changes the size limit, within its bound. A valid request by the right origin is not refused.",
  IH, "every origin, model, type, location, setting combination and size limit", "tests try one broken model and one wrong origin; the checks must all be made in each of nine extrinsics",
  [SCH], [("validation", f"{SCH} fn create_schema_for, ensure_valid_model"), ("governance", f"{SCH} fn propose_to_create_schema, create_schema_via_governance"), ("limit", f"{SCH} fn set_max_schema_model_bytes")], ["all extrinsics of the pallet"])
p("H04", "Schema names have one canonical form",
  "A text is accepted as a schema name exactly if, after trimming spaces and lower-casing, it is one namespace of 3 to 30 and one descriptor of 1 to 28 ASCII letters and hyphens around a dot, neither starting nor ending with a hyphen. Texts that differ only in case or surrounding spaces are the same name; only queries may leave out the descriptor.",
  ["inputs"], "every text up to the maximum length", "tests list some valid and invalid names; the borders of length and characters, and combinations of both, are many more",
  [SY], [("parsing", f"{SY} fn try_parse"), ("combined name", f"{SY} fn get_combined_name")], ["naming extrinsics", "get_versions_by_name (runtime API)"])

# ---------------------------------------------------------------- handles
HU = "pallets/handles/src/handles-utils/src"; HX = "pallets/handles/src/handles_signed_extension.rs"
p("N01", "A handle belongs to one MSA, and an MSA has at most one handle",
  "A claim succeeds only for an MSA without a handle and gives it a handle - canonical form and suffix - that nobody holds; owner and handle then resolve to each other. Retiring removes both directions and nothing else, changing is retiring and claiming in one, and nobody else's handle is ever changed or taken over. Texts whose canonical form cannot be kept apart from others are refused.",
  IH, "every sequence of claims, changes and retirements by any accounts, with any texts", "tests claim a few handles of different people; a takeover needs two texts with related canonical forms, a changed range or a retired handle in between",
  [HD], [("claim", f"{HD} fn do_claim_handle"), ("retire", f"{HD} fn do_retire_handle"), ("resolve", f"{HD} fn get_handle_for_msa, get_msa_id_for_handle")], ["claim_handle, change_handle, retire_handle extrinsics", "get_handle_for_msa, get_msa_for_handle (runtime API)"],
  [("canonical base and suffix to MSA", "owner of each handle", HD), ("MSA to display name", "handle of each MSA, and its claim's expiry", HD)])
p("N02", "Suffixes of a name are never given out twice",
  "Each claim of a canonical form takes the next suffix of that form's series, inside the configured range, so no suffix is given out twice - not even after it was retired - and the claim fails when the series is used up. The suffixes announced as next are exactly the ones given out next.",
  IH, "every canonical form, range, and history of claims and retirements", "tests claim a few suffixes in a row; reuse shows only after retirement, at the end of the range, or for particular positions",
  [HD, f"{HU}/suffix.rs"], [("series", f"{HD} fn get_next_suffix_index_for_canonical_handle, generate_suffix_for_canonical_handle"), ("announcement", f"{HD} fn get_next_suffixes")], ["claim_handle, change_handle extrinsics", "get_next_suffixes (runtime API)"],
  [("canonical base to suffix index", "position in the series of each canonical form", HD)])
p("N03", "A handle is claimed or changed only with its owner's signature, in time",
  "A handle is claimed or changed only for an existing MSA, with a signature by one of its keys over exactly that payload, whose expiration lies after the current block and within the mortality window. A handle is retired only by a signed call of a key of its MSA. Valid calls are not refused.",
  IH, "every caller, key, signature, payload, expiration and block", "tests try a few wrong signatures and two expirations; each of the calls must check all of it, at the borders too",
  [HD], [("signature", f"{HD} fn verify_signed_payload"), ("expiry", f"{HD} fn verify_signature_mortality")], ["claim_handle, change_handle, retire_handle extrinsics"])
p("N04", "Only valid handles are accepted, and asking tells which those are",
  "A handle is accepted exactly if its base has an allowed length, is not a reserved word, has no blocked characters, and its canonical form has an allowed length and only supported characters. Asking whether a text is a valid handle gives exactly the answer a claim would.",
  ["inputs"], "every text", "tests try some valid and invalid handles; the combinations of base and canonical form, and of the five conditions, are many more",
  [HD, f"{HU}/validator.rs"], [("validation", f"{HD} fn validate_base_handle, validate_canonical_handle_length, validate_handle")], ["claim_handle, change_handle extrinsics", "validate_handle (runtime API)"])
p("N05", "Retiring a handle is free only when it will succeed",
  "The feeless call retiring a handle passes transaction validation exactly if the caller's MSA has a handle whose minimum lifetime is over, and then executing it succeeds. The transaction pool and the block agree, validation changes nothing, and other calls pass through.",
  IH, "every caller, state and block number", "tests check one early and one late retirement; a gap between validation and execution lets anyone fill blocks without paying",
  [HX, HD], [("validation", f"{HX} fn validate_retire_handle")], ["HandlesSignedExtension signed extension"])
# ---------------------------------------------------------------- listed, not decided here
p("P01", "A transaction pays with capacity only what it costs, and only if eligible",
  "Only an account of an MSA with at least the minimum key balance can pay with capacity, for calls that are eligible. Exactly the computed capacity fee is deducted, after at most one refill of the epoch; a transaction that cannot pay does not enter a block.",
  IH, "every call, length, weight, capacity balance and key", "tests pay for a few fixed calls",
  [TX], [("payment", f"{TX} fn withdraw_capacity_fee, ChargeFrqTransactionPayment::validate, pre_dispatch")], ["pay_with_capacity extrinsics", "ChargeFrqTransactionPayment signed extension"])
p("K01", "A passkey transaction runs only what its account signed",
  "A passkey call is dispatched only on behalf of the account that signed the passkey's public key, with a valid nonce and fee payment, and only if the passkey signed that call.",
  IH, "every payload, account, nonce and signature", "tests build a few payloads",
  [PK], [("validation", f"{PK} fn validate_unsigned, pre_dispatch, validate_signatures")], ["passkey proxy extrinsic"])
p("R01", "The runtime lets through only the calls it means to",
  "The base call filter refuses calls disabled on the network, also inside batches; the MSA nonce check keeps free accounts from paying nothing.",
  ["inputs", "configurations"], "every call, nested to any depth", "tests try a few calls",
  ["runtime/frequency/src/lib.rs"], [("filter", "runtime/frequency/src/lib.rs impl Contains for BaseCallFilter")], ["extrinsics"])
