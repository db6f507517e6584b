PROPS = []
GVF = "guarded value-flow (abstract interpretation of the syntax tree to guarded effects; BDD entailment)"
NOTE = ("Decides the property for every input and state from the source: each obligation is an implication between guard formulas and value terms "
        "computed by abstract interpretation of the current code. Trusted: the interpreter's model of Rust and of the FRAME storage/origin/currency API; "
        "external crates are uninterpreted functions; loops are summarised by quantified terms.")
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files,
                 "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                 "mechanism": [{"name": a, "where": b} for a, b in mech],
                 "observe_at": list(observe), "hook_needed": None},
        technique=technique or GVF, note=note or NOTE, na=na))

M = "pallets/msa/src/lib.rs"
MSTATE = [("PublicKeyToMsaId", "key -> MSA", M), ("PublicKeyCountForMsaId", "MSA -> number of keys", M), ("CurrentMsaIdentifierMaximum", "last MSA id handed out", M), ("DelegatorAndProviderToDelegation", "delegation and per-schema grants", M), ("PayloadSignatureRegistryList/Pointer", "queue of used signatures", M)]
P("C01", "MSA ids are never reused and a key controls at most one MSA",
  "Every new MSA receives the next identifier after the largest ever given out, and a key is bound to an MSA only when it is bound to none. Adding and deleting keys moves the MSA's key count by exactly one, never beyond the per-MSA limit, and touches only that key and that MSA: a key is deleted only from the MSA it belongs to.",
  ["histories", "inputs"], "every sequence of create, add-key, delete-key and retire calls by any accounts",
  "reuse or drift only shows after particular sequences of calls, and the pallet cannot be built offline",
  [M], [("create_account", M), ("add_key", M), ("delete_key_for_msa", M)], MSTATE, ["create", "create_sponsored_account_with_delegation", "add_public_key_to_msa", "delete_msa_public_key", "retire_msa"], GVF + " + who-may-write census")
P("C02", "A key joins an MSA only with both owners' signatures",
  "A key is added to an MSA only by a signed submission carrying two valid signatures over exactly the submitted payload, one by a key that controls the named MSA and one by the key being added. A sponsored account is created for a key only with that key's own signature over the payload.",
  ["inputs"], "all keys, payloads, signatures and submitters", "tests sample a few wrong signatures",
  [M], [("verify_signature", M), ("add_public_key_to_msa", M)], MSTATE, ["add_public_key_to_msa", "create_sponsored_account_with_delegation"])
P("C03", "Signed payloads expire and are never accepted twice",
  "A signed payload is accepted only while the current block is before its expiration and the expiration lies within the mortality window. A signature that is stored in the registry is rejected, every accepted signature is stored, and a stored one is dropped only when the registry is full and that signature has already expired.",
  ["histories", "inputs"], "all histories of submissions, up to and beyond a full registry", "the registry only evicts after 50,000 submissions",
  [M], [("register_signature", M), ("enqueue_signature", M), ("mortality_block_limit", M)], MSTATE, ["grant_delegation", "create_sponsored_account_with_delegation", "add_public_key_to_msa"], GVF + " + who-may-write census")
P("C04", "Only the two parties can revoke a delegation, from now on and only once",
  "A delegation is revoked only by a signer controlling the delegator's or the provider's MSA, only while it is not yet revoked, and with effect from the current block. Revoking schema permissions stamps exactly the listed grants with the current block and leaves every other grant and delegation as it was.",
  ["inputs", "histories"], "all callers, delegations and schema lists", "tests cover a handful of delegations",
  [M], [("revoke_provider", M), ("revoke_permissions_for_schemas", M)], MSTATE, ["revoke_delegation_by_delegator", "revoke_delegation_by_provider", "revoke_schema_permissions"], GVF + " + who-may-write census")
P("C05", "Delegation and grant validity are judged at the asked block",
  "A delegation is valid at a block exactly when it exists, the block is not in the future, and it is not revoked or was revoked no earlier than that block. A schema grant is valid at a block exactly when, in addition, the schema was granted and that grant was not revoked before that block. The query of granted schemas lists every grant of the asked provider, or of every provider, with its own revocation.",
  ["inputs"], "all delegations, schemas and block numbers", "tests sample a few blocks around one revocation",
  [M], [("ensure_valid_delegation", M), ("ensure_valid_schema_grant", M)], MSTATE, ["ensure_valid_delegation", "ensure_valid_schema_grant", "get_granted_schemas_by_msa_id"])
P("C06", "Granting a delegation gives exactly the signed permissions",
  "A delegation is granted only to the submitting registered provider named in a payload signed by a key of the delegator's MSA, for known schemas within the limit. Afterwards exactly the listed schemas are granted, previously active grants not listed are revoked as of now, and the delegation is active.",
  ["inputs", "histories"], "all payloads, prior delegations and schema lists", "tests use a few schema lists",
  [M], [("upsert_schema_permissions", M), ("add_provider", M)], MSTATE, ["grant_delegation", "create_sponsored_account_with_delegation"])
P("C07", "Free calls enter the pool only when they would take effect",
  "Before a fee-free call is accepted into the pool or a block, it is checked that the signer controls an MSA and that the call would take effect: the delegation being revoked is active, the key being deleted is another key of the signer's own MSA, the MSA may retire, or its handle exists and the claim it came from has expired. No other call is free.",
  ["inputs"], "all signers, calls and chain states", "tests cover one state per call",
  [M, "pallets/handles/src/handles_signed_extension.rs"], [("CheckFreeExtrinsicUse", M), ("HandlesSignedExtension", "pallets/handles/src/handles_signed_extension.rs")], MSTATE, ["SignedExtension::validate", "SignedExtension::pre_dispatch"])
P("C08", "An MSA retires only when nothing depends on it",
  "A retirement is accepted only for a signer who controls an MSA that is not a registered provider, has no handle, has exactly one key and has no active delegation. It removes that key and the key count and reports the retirement, and the identifier is never given out again.",
  ["histories", "inputs"], "all chain states", "tests cover one violation at a time",
  [M], [("ensure_msa_can_retire", M), ("retire_msa", M)], MSTATE, ["retire_msa"])
P("C09", "Provider registration is gated and happens once per MSA",
  "An MSA becomes a registered provider exactly when the caller (or the governance-approved key) controls it, its name fits the limit and it is not registered yet, and it is registered under that name. Proposing a provider only submits that governance call to the council and changes no registration.",
  ["inputs"], "all callers, origins and names", "tests sample a few",
  [M], [("create_provider_for", M), ("propose_to_be_provider", M)], [("ProviderToRegistryEntry", "registered providers", M)], ["create_provider", "create_provider_via_governance", "propose_to_be_provider"], GVF + " + who-may-write census")
MO = "pallets/msa/src/offchain_storage.rs"
P("C10", "Every key change is indexed for the off-chain key list",
  "Each successful creation, key addition, key deletion and retirement writes one index entry describing exactly that change under the next number of the block and updates the block's entry count; the numbering restarts every block. Replaying an entry adds or removes exactly that key in the MSA's stored key list.",
  ["histories"], "every sequence of key changes within and across blocks", "tests replay a short fixed sequence",
  [MO, M], [("offchain_index_event", MO), ("process_offchain_events", MO)], [("OffchainIndexEventCount", "entries indexed in this block", M)], ["off-chain worker", "get_keys_by_msa_id RPC"])
H = "pallets/handles/src/lib.rs"
HU = "pallets/handles/src/handles-utils/src"
HSTATE = [("CanonicalBaseHandleAndSuffixToMSAId", "(canonical base, suffix) -> owner", H), ("MSAIdToDisplayName", "owner -> (display handle, lock expiry)", H), ("CanonicalBaseHandleToSuffixIndex", "canonical base -> (last sequence position, suffix minimum)", H)]
P("C11", "One owner per handle, one handle per MSA, both directions agree",
  "After a successful claim or change, looking up the handle's canonical base and suffix yields exactly the claiming MSA and looking up that MSA yields exactly that display handle, and a claim never succeeds for an MSA that already has a handle. Changing removes the old handle's ownership record and retiring removes both records; nothing else ever writes them.",
  ["histories", "inputs"], "every sequence of claim, change and retire calls by any accounts",
  "tests run a handful of fixed histories with one or two MSAs; the pallet cannot even be built offline",
  [H], [("do_claim_handle", H), ("do_retire_handle", H), ("retire_handle", H), ("change_handle", H)], HSTATE,
  ["claim_handle", "change_handle", "retire_handle", "get_handle_for_msa", "get_msa_id_for_handle"],
  GVF + " + who-may-write census")
P("C12", "Suffixes are drawn from the base's sequence without reuse",
  "Every claim takes the suffix at the next position of its canonical base's pseudo-random sequence, the position restarting only when the suffix minimum changed, and records that position so that it only advances. The claim fails when the sequence is exhausted or the position would wrap, and no retirement gives a position back.",
  ["histories"], "every sequence of claims and retirements on one canonical base, up to exhaustion",
  "exhaustion and reuse only show after up to 90 claims and retirements of one base",
  [H], [("get_next_suffix_index_for_canonical_handle", H), ("generate_suffix_for_canonical_handle", H)], HSTATE, ["claim_handle", "change_handle"], GVF + " + who-may-write census")
P("C13", "A handle is accepted exactly when its base is valid",
  "A claimed or changed base handle is UTF-8 of at most 32 bytes, has 3 to 20 characters both as given and in canonical form, is not reserved, contains no blocked character, and its canonical form lies within the supported scripts and fits its storage key. A claim by an authorised owner that satisfies these and finds a free suffix is accepted.",
  ["inputs"], "every byte string",
  "tests try a few dozen strings", [H], [("do_claim_handle", H), ("validate_canonical_handle_length", H)], [], ["claim_handle", "change_handle"])
P("C14", "The handle validation query answers as a claim would",
  "The validation query returns true for a byte string exactly when claiming that string as a base handle would pass every check on the string itself.",
  ["inputs"], "every byte string", "tests compare a few strings, and the two code paths are separate",
  [H], [("validate_handle", H)], [], ["validate_handle runtime API and RPC"])
P("C15", "Only an MSA's key holder can claim, change or retire its handle",
  "A claim or change takes effect only for a signed submission carrying an unexpired payload, within the mortality window, signed by the named key over exactly that payload, where that key controls the MSA that receives the handle. Retirement takes effect only for the MSA controlled by the signer.",
  ["inputs", "histories"], "all callers, keys, payloads, proofs and block heights", "tests sample a few bad signatures and expirations",
  [H], [("claim_handle", H), ("change_handle", H), ("verify_signed_payload", H), ("retire_handle", H)], HSTATE, ["claim_handle", "change_handle", "retire_handle"])
P("C16", "Look-alike handles share one canonical form",
  "The canonical form of a string is the string with whitespace removed, compatibility-decomposed, diacritics stripped, each listed look-alike replaced by its canonical character and the result lower-cased. The look-alike table maps each character at most once, never chains, gives both cases of a Latin letter the same canonical form, and covers the common Cyrillic and Greek look-alikes of Latin letters.",
  ["inputs"], "all strings over all Unicode scalar values", "tests compare a few strings; the table has thousands of pairs",
  [HU + "/converter.rs", "pallets/handles/src/handles-utils/build.rs", HU + "/data/confusable_characters.txt"], [("convert_to_canonical", HU + "/converter.rs"), ("build_confusables_map", "pallets/handles/src/handles-utils/build.rs")], [], ["convert_to_canonical", "get_handle_for_msa"],
  GVF + " + table census")
P("C17", "A base's suffix sequence is a deterministic permutation of the range",
  "For a canonical base and an inclusive range the generator yields a Fisher-Yates shuffle of exactly that range, seeded only by a fixed hash of the canonical base, so every node computes the same sequence and no suffix repeats.",
  ["inputs"], "all bases and ranges", "tests check a few seeds and that a set has no duplicates",
  [HU + "/suffix.rs"], [("generate_unique_suffixes", HU + "/suffix.rs"), ("generate_seed", HU + "/suffix.rs")], [], ["get_next_suffixes", "claim_handle"])
P("C18", "Display handles are parsed back to the record they were built from",
  "Splitting a display handle succeeds exactly when it has one delimiter followed by a 16-bit number and yields the text before it and that number. Looking up a display handle returns the owner of the canonical form and suffix so obtained, and describing an MSA's handle returns its stored base, suffix and canonical form.",
  ["inputs", "histories"], "all strings and all stored handles", "tests look up a few handles",
  [H, HU + "/converter.rs"], [("split_display_name", HU + "/converter.rs"), ("get_msa_id_for_handle", H), ("get_handle_for_msa", H)], HSTATE, ["get_handle_for_msa", "get_msa_for_handle"])
P("C19", "Reserved words, blocked characters and scripts are enforced exactly",
  "A string is reserved exactly when it is one of the eight reserved words, blocked exactly when it contains one of the blocked punctuation characters, and supported exactly when every character lies in one of the supported Unicode ranges; characters outside the Basic Multilingual Plane are never supported.",
  ["inputs"], "all strings over all Unicode scalar values", "tests sample a few characters per range",
  [HU + "/validator.rs"], [("is_reserved_handle", HU + "/validator.rs"), ("contains_blocked_characters", HU + "/validator.rs"), ("consists_of_supported_unicode_character_sets", HU + "/validator.rs")], [], ["claim_handle", "validate_handle"])
ME = "pallets/messages/src/lib.rs"
MEP = "common/primitives/src/messages.rs"
MES = [("MessagesV2", "(block, schema, index) -> message", ME), ("BlockMessageIndex", "messages stored so far in this block", ME)]
P("C26", "Messages are stored only by an MSA with authority over the author",
  "A message is stored only for a signed submitter whose key controls an MSA, under an existing schema whose payload location fits the call. An on-chain message on behalf of another MSA needs that MSA's schema grant to the submitter valid at the current block, and the stored message names the submitter's MSA as provider and the author given.",
  ["inputs", "histories"], "all callers, schemas, grants and payloads", "tests sample a few callers and the pallet does not build offline",
  [ME], [("add_ipfs_message", ME), ("add_onchain_message", ME), ("find_msa_id", ME)], MES, ["add_ipfs_message", "add_onchain_message"], GVF + " + who-may-write census")
P("C27", "Messages of a block never collide and are listed in submission order",
  "Every message of a block is stored under the next index of that block, never over another message, and the index restarts at zero with each block. Listing a schema's messages at a block returns every stored message once, in index order, as it was stored; only the first message of a block is announced.",
  ["histories"], "every number and interleaving of messages in a block", "tests store a handful of messages per block",
  [ME, "pallets/messages/src/types.rs"], [("add_message", ME), ("on_initialize", ME), ("get_messages_by_schema_and_block", ME), ("map_to_response", "pallets/messages/src/types.rs")], MES, ["add_onchain_message", "get_messages_by_schema_and_block"], GVF + " + who-may-write census")
P("C28", "IPFS messages carry a decodable CIDv1",
  "An IPFS message is accepted exactly for a UTF-8 CID of more than two bytes that is not version 0, decodes as multibase and parses as a CID, with its binary form and length fitting the payload limit. What is stored is the decoded binary CID with the submitted payload length, without an author.",
  ["inputs"], "all byte strings submitted as CID", "tests try a few CIDs",
  [ME], [("validate_cid", ME), ("add_ipfs_message", ME)], MES, ["add_ipfs_message"])
P("C29", "Message pagination neither skips nor repeats",
  "A page request is valid exactly when its size is 1 to 10,000 and its block range is non-empty and at most 50,000 blocks. A page ends exactly when it holds the requested number of messages, and then the cursor points at the next message of the same block or the start of the next block, with more to come exactly when that block is before the end.",
  ["inputs"], "all requests, list lengths and cursor positions", "tests sample four requests and three positions",
  [MEP], [("BlockPaginationRequest::validate", MEP), ("check_end_condition_and_set_next_pagination", MEP)], [], ["messages_getBySchemaId"])
SC = "pallets/schemas/src/lib.rs"
SCT = "pallets/schemas/src/types.rs"
SCS = [("SchemaInfos", "schema id -> type, location, settings, named flag", SC), ("SchemaPayloads", "schema id -> model", SC), ("CurrentSchemaIdentifierMaximum", "last schema id handed out", SC), ("SchemaNameToIds", "namespace, descriptor -> versions", SC)]
P("C30", "A schema is registered only if well-formed and authorised",
  "A schema is registered only by a signer or, for the governance calls, by the governance origin, with a model between the minimum and the governed maximum size that parses as its model type, and append-only only with itemized location. Proposals change no registry and forward the request unchanged; only root changes the maximum size, within its hard limit.",
  ["inputs"], "all models, settings and origins", "tests use a few models and the pallet does not build offline",
  [SC], [("create_schema_for", SC), ("ensure_valid_model", SC), ("set_max_schema_model_bytes", SC)], SCS, ["create_schema*", "propose_to_create_schema*", "set_max_schema_model_bytes"], GVF + " + who-may-write census")
P("C31", "Schema ids are sequential and schemas are immutable",
  "Every new schema takes the id after the highest and stores exactly the submitted model, type, location and settings under it; no other schema is touched and no call rewrites or removes a model. A lookup returns exactly what was stored, and an id above the highest is never valid.",
  ["histories", "inputs"], "every sequence of registrations", "tests register a few schemas",
  [SC], [("add_schema", SC), ("get_next_schema_id", SC), ("get_schema_by_id", SC)], SCS, ["create_schema*", "get_schema_by_id", "are_all_schema_ids_valid"], GVF + " + who-may-write census")
P("C32", "Schema names are given once and versions only grow",
  "Naming a schema needs a valid name and either its creation or governance with an existing schema that has no name yet, which it has afterwards. It appends the schema as the newest version of exactly that name, within the version limit, and never removes or reorders versions.",
  ["histories", "inputs"], "every sequence of namings", "tests name one or two schemas",
  [SC, SCT], [("create_schema_name_via_governance", SC), ("parse_and_verify_schema_name", SC), ("SchemaVersionId::add", SCT)], SCS, ["create_schema_v3", "create_schema_via_governance_v2", "create_schema_name_via_governance"], GVF + " + who-may-write census")
P("C57", "Schema names follow the grammar and versions list in order",
  "A schema name is accepted only if it is ASCII and, lower-cased and trimmed, consists of letters, hyphens and one dot separating a namespace of at least three characters from a non-empty descriptor, neither starting or ending with a hyphen. A version query lists the versions of exactly that name, or of every name of the namespace, numbered from one.",
  ["inputs"], "all byte strings and stored versions", "tests sample a few names",
  [SCT, SC], [("SchemaName::try_parse", SCT), ("convert_to_response", SCT), ("get_schema_versions", SC)], SCS, ["create_schema_v3", "get_versions"])
P("C58", "Schema settings behave as a set of flags",
  "Enabling a setting adds exactly that flag, checking one reports exactly whether it is present, and a new set is empty.",
  ["inputs"], "all settings and sets", "tests check a few combinations",
  ["common/primitives/src/schema.rs"], [("SchemaSettings", "common/primitives/src/schema.rs")], [], ["is_enabled"])
TR = "pallets/time-release/src/lib.rs"
TRT = "pallets/time-release/src/types.rs"
TRS = [("ReleaseSchedules", "account -> its release schedules", TR)]
P("C41", "Vested transfers freeze exactly what they move",
  "A successful vested transfer moves the schedule's total from sender to recipient, prunes the recipient's finished schedules, appends the new one and freezes exactly the recipient's unvested remainder plus the new total. It requires a permitted origin, a schedule with non-zero period and count whose arithmetic does not overflow and whose total reaches the minimum, and room for it; a transfer to oneself requires the balance.",
  ["inputs", "histories"], "all schedules, block heights, balances and stored schedules",
  "tests use a few schedules and the pallet does not build offline", [TR, TRT], [("transfer", TR), ("do_transfer", TR), ("ensure_valid_release_schedule", TR)], TRS, ["transfer"])
P("C42", "Claims release exactly what has vested",
  "A claim, for oneself or by anyone for another account, drops exactly the account's fully vested schedules, freezes exactly the unvested remainder of the others, and thaws only when nothing remains. It moves no funds and touches only the account claimed for.",
  ["inputs", "histories"], "all stored schedules and block heights", "tests claim at a few block heights",
  [TR, TRT], [("claim", TR), ("claim_for", TR), ("do_claim", TR), ("prune_schedules_for", TR)], TRS, ["claim", "claim_for"])
P("C43", "Only root replaces release schedules, and what it sets is frozen",
  "Only root can replace an account's release schedules. The replacement is accepted only when every schedule is valid and the account's balance covers their total, and then exactly their total is frozen, or the freeze removed when there are none. No other call than transfer, claim and this one writes schedules.",
  ["inputs", "histories"], "all callers, accounts and schedule lists", "tests replace schedules once or twice",
  [TR], [("update_release_schedules", TR), ("do_update_release_schedules", TR)], TRS, ["update_release_schedules"], GVF + " + who-may-write census")
P("C44", "Release schedule arithmetic is exact and never wraps",
  "A schedule's end is start + period × count, its total per-period × count, each absent when it would overflow, and the amount frozen at a time is the per-period amount times the number of whole periods not yet elapsed since the start. For a valid schedule none of these panics.",
  ["inputs"], "all schedules and block heights", "tests check a few numbers", [TRT],
  [("ReleaseSchedule::end", TRT), ("ReleaseSchedule::total_amount", TRT), ("ReleaseSchedule::frozen_amount", TRT)], [], ["transfer", "claim"])
AV = "common/helpers/src/avro.rs"
P("C52", "Avro helpers accept exactly valid schemas and keep every field",
  "A raw schema validates exactly when it is UTF-8 text that parses as an Avro schema, and a stored schema translates to exactly the parse of its bytes. Serialising a record writes every supplied field under the given schema, reading one back returns every decoded field and fails when the datum is not a record.",
  ["inputs"], "all byte strings, schemas and field maps", "tests use a few schemas and records", [AV],
  [("validate_raw_avro_schema", AV), ("translate_schema", AV), ("populate_schema_and_serialize", AV), ("get_schema_data_map", AV)], [], ["public functions of common_helpers::avro"])
P("C53", "Signed payloads are wrapped in the wallet envelope unchanged",
  "Wrapping data for signature verification yields exactly the opening Bytes tag, the data unchanged and the closing Bytes tag.",
  ["inputs"], "all byte strings", "tests wrap nothing or one value", ["common/primitives/src/utils.rs"], [("wrap_binary_data", "common/primitives/src/utils.rs")], [], ["every signed-payload extrinsic"])
CU = "common/primitives/src/utils.rs"
P("C54", "Identifiers and bytes in RPC responses round-trip",
  "Text-encoded bytes serialise only when they are UTF-8 and then as that text; hex-encoded bytes serialise as their hex; optional forms serialise an absent value as null. Delegator and provider identifiers encode as their bare 64-bit number, and an event reported over RPC carries its phase's extrinsic index, pallet index, event index and exactly the remaining bytes.",
  ["inputs"], "all byte strings, identifiers and events", "tests check one or two values", [CU, "common/primitives/src/msa.rs", "common/primitives/src/rpc.rs"],
  [("as_string", CU), ("as_hex", CU), ("DelegatorId", "common/primitives/src/msa.rs"), ("RpcEvent::from", "common/primitives/src/rpc.rs")], [], ["JSON-RPC responses"])
P("C55", "Sealing modes parse and print by their own names",
  "The node offers exactly the sealing modes instant, manual and interval; each is selected on the command line by its own name and printed by its own name.",
  ["inputs"], "all command-line values", "tests do not cover the command line", ["node/cli-opt/src/lib.rs"], [("SealingMode", "node/cli-opt/src/lib.rs")], [], ["--sealing"], GVF + " + attribute table")
P("C56", "The chain is identified by its genesis hash alone",
  "A genesis hash is reported as Frequency mainnet or Paseo testnet exactly when it equals that network's fixed genesis hash, and as unknown otherwise.",
  ["inputs"], "all byte strings", "tests check one or two hashes", [CU], [("get_chain_type_by_genesis_hash", CU)], [], ["node start-up", "signature payload chain checks"])
SS = "pallets/stateful-storage/src/lib.rs"
SST = "pallets/stateful-storage/src/types.rs"
SSC = "pallets/stateful-storage/src/stateful_child_tree.rs"
SSS = [("child tree", "per-MSA child trie holding one page per (schema) or (schema, page id)", SSC)]
SSO = ["apply_item_actions*", "upsert_page*", "delete_page*"]
P("C20", "Only the owner or a granted delegate writes an MSA's state",
  "A page is written or deleted only when the submitter controls the owning MSA or holds a valid schema grant from it at the current block, or when the payload is validly signed, whole, by a key controlling the owning MSA. The write touches only that MSA's own page for the named schema and page id, and no other storage.",
  ["inputs", "histories"], "all callers, payloads, signatures and delegations", "tests use a few callers and the pallet does not build offline",
  [SS], [("check_msa_and_grants", SS), ("check_signature", SS), ("check_msa", SS)], SSS, SSO, GVF + " + effect census")
P("C21", "State changes apply only to the page version the caller saw",
  "A page changes only when the supplied target hash equals the hash of the page as stored, where an absent page is the empty page with hash zero. Each write stores exactly the new content with the page nonce advanced by one, the hash covers nonce and content, and the event reports the hashes before and after.",
  ["histories", "inputs"], "all interleavings of writers to a page", "lost updates need competing writers",
  [SS, SST], [("update_itemized", SS), ("update_paginated", SS), ("delete_paginated", SS), ("Page::get_hash", SST)], SSS, SSO)
P("C22", "State writes obey the schema's location and settings",
  "A write is accepted only for an existing schema whose payload location matches the operation and, for pages, a page id within the maximum. A signature-required schema is written only by the owner, and nothing is ever deleted from an append-only schema.",
  ["inputs"], "all schemas, settings and operations", "tests sample a few setting combinations",
  [SS], [("check_schema_for_write", SS), ("check_schema_for_read", SS)], SSS, SSO)
P("C23", "Signed state payloads are accepted only inside their window",
  "A signed state change is accepted only while its expiration block is in the future and less than the mortality window ahead, and only if its signature verifies over the wrapped encoded payload for the given key.",
  ["inputs"], "all payloads and block heights", "tests sample a few blocks",
  [SS], [("check_payload_expiration", SS), ("check_signature", SS)], SSS, ["*_with_signature", "*_with_signature_v2"])
P("C24", "Itemized pages parse and change exactly as specified",
  "A page of items parses exactly when it is a sequence of complete length-prefixed records, and yields each record's bytes under consecutive indices from zero. Applying actions removes exactly the named existing items, keeps the others in order, appends the added ones in order each with its own length header, and fails if an index does not exist, a payload is too long for the header or the page would exceed its bound.",
  ["inputs"], "all page contents and action lists (records followed exactly for up to two items and two actions, every content)", "tests use a few pages and action lists",
  [SST], [("try_parse", SST), ("apply_item_actions", SST)], SSS, ["apply_item_actions*", "statefulStorage_getItemizedStorage"])
P("C25", "State lives under collision-free keys of one tree per MSA",
  "Each MSA's pages live in a child tree named by the hashes of its id, the pallet and the storage, under the concatenated hashes of every key part followed by the encoded key. Keys decode back from storage after stripping exactly the hashes that precede them, listing by prefix returns every entry whose key decodes, and reads, writes and removals address exactly one entry.",
  ["inputs"], "all keys of up to four parts, prefixes, MSAs and stored bytes", "tests use a few keys and one hasher",
  [SSC], [("MultipartKey", SSC), ("MultipartKeyStorageHasher::reverse", SSC), ("StatefulChildTree", SSC)], SSS, ["apply_item_actions*", "upsert_page*", "delete_page*", "get_paginated_storage"], GVF + " + associated-type tables")
P("C59", "State queries report exactly what is stored",
  "A state query is answered only for an existing schema of the asked location. It lists every page, or every item in order, of exactly that MSA and schema with its true nonce, content hash and bytes; an absent itemized page reads as empty.",
  ["inputs", "histories"], "all stored pages and queries", "tests query a few pages",
  [SS], [("get_paginated_storage", SS), ("get_itemized_storage", SS), ("check_schema_for_read", SS)], SSS, ["statefulStorage_getPaginatedStorage", "statefulStorage_getItemizedStorage"])
CP = "pallets/capacity/src/lib.rs"
CPT = "pallets/capacity/src/types.rs"
CPS = [("StakingAccountLedger", "active stake per account", CP), ("StakingTargetLedger", "stake and capacity per account and target", CP), ("CapacityLedger", "capacity per MSA", CP), ("UnstakeUnlocks", "unlock chunks per account", CP), ("CurrentEpoch", "epoch number", CP)]
P("C33", "Staking credits exactly what it freezes",
  "A signed account stakes a nonzero amount, at most its balance above the minimum kept, to a valid provider, and only if its active stake then reaches the minimum. Exactly that amount is added to the account's active stake, to its stake in that target and to the target's staked total, and exactly the capacity it yields is added to the three capacity figures, without touching the last replenished epoch. The frozen total becomes the active stake plus everything still unlocking, and any overflow fails the call.",
  ["inputs", "histories"], "all accounts, amounts and ledgers", "tests stake a few amounts and the pallet does not build offline", [CP, CPT],
  [("stake", CP), ("increase_stake_and_issue_capacity", CP), ("StakingDetails::deposit", CPT), ("CapacityDetails::deposit", CPT)], CPS, ["Capacity::stake"], GVF + " + who-may-write census")
P("C34", "Unstaking takes out exactly what was staked and keeps it frozen",
  "Unstaking takes a nonzero amount, at most the account's active stake, or all of it when what would remain is not above the minimum, and never more than was staked to that target. The account, target and ledger lose exactly that amount and its share of capacity, and all of the target's capacity when its whole stake goes. The amount becomes an unlock chunk thawing after the thaw period, emptied records are removed, and no freeze changes.",
  ["inputs", "histories"], "all accounts, amounts, targets and ledgers", "tests unstake a few amounts; a partial amount spanning two targets was never tried", [CP, CPT],
  [("unstake", CP), ("reduce_capacity", CP), ("StakingDetails::withdraw", CPT), ("CapacityDetails::withdraw", CPT)], CPS, ["Capacity::unstake"])
P("C35", "Withdrawing releases exactly the thawed chunks",
  "Withdrawing removes exactly the caller's unlock chunks whose thaw epoch has been reached, and fails if their total is zero. Afterwards exactly the active stake plus the remaining chunks is frozen, or the freeze is removed when that is nothing. The event reports the withdrawn total.",
  ["inputs", "histories"], "all chunk lists and epochs", "tests withdraw once or twice", [CP, CPT],
  [("withdraw_unstaked", CP), ("unlock_chunks_reap_thawed", CPT), ("unlock_chunks_total", CPT)], CPS, ["Capacity::withdraw_unstaked"], GVF + " + who-may-write census")
P("C36", "Capacity is spent and replenished exactly",
  "A provider's balance is its remaining capacity; spending subtracts exactly the amount and fails, changing nothing, if less remains. Replenishing sets the remaining capacity to all that was issued, or adds the given amount, and stamps the current epoch; it is due exactly when the last stamp is before the current epoch. A deposit that overflows fails and changes nothing, and only these operations, staking and unstaking write the ledger.",
  ["inputs", "histories"], "all ledgers, amounts and epochs", "tests spend and replenish once or twice", [CP, CPT],
  [("deduct", CP), ("deposit", CP), ("replenish_all_for", CP), ("replenish_by_amount", CP), ("can_replenish", CP)], CPS, ["pay_with_capacity"], GVF + " + who-may-write census")
P("C37", "Epochs advance exactly when their length has passed",
  "A block starts a new epoch exactly when at least the epoch length has passed since the current epoch's start; the epoch number then grows by one and its start becomes that block. Only root changes the epoch length, never above the maximum, and nothing else writes the epoch.",
  ["histories", "inputs"], "all blocks, epoch starts and lengths", "tests run a few blocks", [CP],
  [("start_new_epoch_if_needed", CP), ("set_epoch_length", CP)], CPS, ["on_initialize", "Capacity::set_epoch_length"], GVF + " + who-may-write census")

TP = "pallets/frequency-tx-payment/src/lib.rs"
TPP = "pallets/frequency-tx-payment/src/payment.rs"
TPS = [("ChargeFrqTransactionPayment", "the signed extension that charges fees", TP), ("CapacityAdapter", "charges capacity of the key's MSA", TPP)]
P("C38", "Every transaction pays exactly its own fee in its own currency",
  "A capacity transaction is accepted only if every call in it is eligible for capacity, and only by charging the signer's capacity the fee of the summed stable weights of its calls; it is never charged tokens and carries no tip. Every other transaction is charged its token fee and tip, unless that fee is zero, and never capacity. After dispatch exactly the token payments are settled.",
  ["inputs"], "all signers, calls, batches, tips and lengths", "tests pay for a few calls and the pallet does not build offline", [TP],
  [("pre_dispatch", TP), ("validate", TP), ("withdraw_fee", TP), ("post_dispatch", TP)], TPS, ["pay_with_capacity", "pay_with_capacity_batch_all", "every signed extrinsic"])
P("C39", "Capacity is taken from the signer's own MSA, replenished first when due",
  "A capacity fee is charged only to a key whose total balance is at least the existential deposit and which controls an MSA. That MSA's capacity is replenished first, and only, when it is due; then exactly the fee is deducted from it, and the charge fails if the deduction fails.",
  ["inputs", "histories"], "all keys, fees and ledgers", "tests charge a few fees", [TPP],
  [("CapacityAdapter::withdraw_fee", TPP)], TPS, ["pay_with_capacity"])
P("C40", "Capacity calls run as their signer, in bounded batches",
  "A call paid with capacity is dispatched exactly once with the submitter's own origin and its result is the result of the transaction. A batch runs only when the submission is signed and the batch is within its bound, and then all of it runs as an all-or-nothing batch with that same origin.",
  ["inputs"], "all origins, calls and batch lengths", "tests dispatch a few calls", [TP],
  [("pay_with_capacity", TP), ("pay_with_capacity_batch_all", TP)], TPS, ["pay_with_capacity", "pay_with_capacity_batch_all"])
P("C60", "The capacity fee is the capped base, weight and length fee",
  "The capacity fee of a call is the saturated sum of the fee of the fixed base weight, the fee of its weight and the fee of its encoded length, both weights capped at the largest block. The fee details report the same base and length parts for calls with eligible inner calls, the fee of the stable plus dispatch weight, no tip, and no inclusion fee when nothing inside is eligible.",
  ["inputs"], "all weights, lengths and calls", "tests compute a few fees", [TP],
  [("compute_capacity_fee", TP), ("compute_capacity_fee_details", TP), ("weight_to_fee", TP)], TPS, ["compute_capacity_fee_details RPC", "pay_with_capacity"])
RT = "runtime/frequency/src/lib.rs"
CN = "runtime/common/src/extensions/check_nonce.rs"
PK = "pallets/passkey/src/lib.rs"
RTS = [("BaseCallFilter", "calls any account may dispatch", RT), ("RuntimeCall", "the runtime's calls", RT)]
P("C45", "Batches contain only batchable calls, and closed calls stay closed",
  "A utility batch of any kind is allowed only if every call in it is: none may be another batch, a capacity payment, a provider or schema creation, or a call that pays no fee. On mainnet provider and schema creation are not allowed directly either. Every other call is allowed.",
  ["inputs"], "all calls and batches, in the mainnet and the test-network runtime", "no test covers the runtime's filter, which does not build offline", [RT],
  [("BaseCallFilter::contains", RT), ("is_utility_call_allowed", RT), ("is_batch_call_allowed", RT)], RTS, ["Utility::batch", "Utility::batch_all", "Utility::force_batch", "every dispatch"])
P("C46", "A proxy runs only the calls of its type",
  "An Any proxy may run every call. A NonTransfer proxy may run no call that moves tokens or changes system, sudo or proxy state: of time release only the claims, otherwise calls of the named pallets. A Governance proxy runs only governance and batch calls, a Staking proxy only stake and set_candidacy_bond, a CancelProxy proxy only reject_announcement; only Any covers Any.",
  ["inputs"], "all proxy types and calls", "no test covers the runtime's proxy types", [RT],
  [("ProxyType::filter", RT), ("ProxyType::is_superset", RT)], [("ProxyType", "kinds of proxies", "runtime/common/src/proxy.rs")] + RTS[1:], ["Proxy::proxy"])
P("C47", "Exactly the listed calls can be paid with capacity, each at its own weight",
  "Only the sixteen MSA, message, stateful-storage and handle calls meant for users can be paid with capacity, each at the stable weight of its own kind, sized by what it carries. The calls inside a capacity payment are that call, or all calls of the batch, and any other call stands for itself; batches run as all-or-nothing batches. The size of item actions is the total of the added items' lengths.",
  ["inputs"], "all calls and payloads", "tests use a mock of the list", [RT, SS],
  [("CapacityEligibleCalls::get_stable_weight", RT), ("get_inner_calls", RT), ("sum_add_actions_bytes", SS)], RTS, ["pay_with_capacity", "pay_with_capacity_batch_all"])
P("C48", "Every signed transaction passes all checks of the pipeline",
  "Every signed transaction is checked, each exactly once: nonzero sender, spec and transaction version, genesis, mortality, this chain's own nonce check, weight limit, fee, validity of free calls and validity of handle calls. The nonce and the weight are checked before the fee is charged.",
  ["inputs", "schedules"], "all signed transactions, in the mainnet and the test-network runtime", "the runtime does not build offline", [RT],
  [("SignedExtra", RT), ("UncheckedExtrinsic", RT)], RTS, ["every signed extrinsic"], "typed-syntax lint over the runtime's type-level transaction pipeline")
P("C49", "A nonce is used once, in order",
  "A transaction is dispatched only if its nonce equals the account's, and then that account's nonce, and nothing else of it, grows by one, except that a free transaction never creates an account. In the pool a lower nonce is stale, a higher one waits for the same sender's previous nonce, and each transaction provides its own sender and nonce.",
  ["inputs", "histories"], "all accounts, nonces and calls", "no test covers the extension", [CN],
  [("CheckNonce::pre_dispatch", CN), ("CheckNonce::validate", CN)], [("CheckNonce", "replay protection", CN)], ["every signed extrinsic", "Passkey::proxy"])
P("C50", "A passkey transaction acts only for the account that authorised the passkey",
  "A passkey transaction is accepted only unsigned, for a token transfer, with the account's signature over exactly that passkey key, the passkey's signature over the transaction, the account's exact nonce, and after charging that account the fee of the whole transaction. The transfer is then dispatched as that account and success is reported for it. Mainnet has no passkey transactions.",
  ["inputs", "histories"], "all payloads, accounts and nonces", "tests submit a few payloads and the pallet does not build offline", [PK, RT],
  [("validate_unsigned", PK), ("pre_dispatch", PK), ("proxy", PK), ("PasskeyCallFilter", RT)], [("PasskeyPayload", "the submitted call and its proofs", "pallets/passkey/src/types.rs")], ["Passkey::proxy"])
CC = "runtime/common/src/constants.rs"
CFG = "typed-syntax analysis of the runtime's configuration types (aliases expanded, constants folded), on both network configurations"
RTC = [("impl pallet::Config for Runtime", "what each pallet is configured with", RT)]
P("C51", "Governance acts only with the listed majorities",
  "Each privileged pallet action needs root or exactly its listed share of the council or technical committee: treasury approval and collator changes 3/5 of the council, rejection and schema creation more than 1/2, provider creation one member, democracy its own listed shares; blacklisting and collective membership need root and nobody spends from the treasury directly. A call proposed to the council for a provider or schema passes with more than half its members. Mainnet has no sudo.",
  ["histories", "inputs"], "all origins and council sizes, on both networks", "the runtime does not build offline and pallet tests use mock origins", [RT],
  [("impl pallet_democracy::Config", RT), ("impl pallet_treasury::Config", RT), ("CouncilProposalProvider", RT)], RTC, ["Council::propose", "Democracy", "Treasury", "Msa::create_provider_via_governance"], CFG + " + " + GVF)
P("C61", "The runtime enforces its published limits",
  "On every network: 25 keys and 30 schema grants per MSA and delegation, provider names of 16 bytes, schema models of 8 to 65500 bytes, handle suffixes 10 to 99, messages of 3072 bytes, stateful items of 1024 and pages of 10260 or 1024 bytes with ids to 32, 5 actions per call, mortality windows of 100 and 14400 blocks, 4 unlocking chunks thawed over 30 epochs, 10 calls per capacity batch, 50 release schedules. Staked tokens give 2% capacity. An account can hold the freeze of every pallet that freezes tokens.",
  ["inputs"], "every use of the limits, on both networks", "pallet tests run with mock limits", [RT, CC],
  [("impl pallet_msa::Config", RT), ("impl pallet_stateful_storage::Config", RT), ("constants", CC)], RTC, ["every call with a limit"], CFG)
P("C62", "Pallets act on each other's real state",
  "In the runtime, messages, stateful storage and handles look up accounts, delegations and schema grants in the MSA pallet and schemas in the schema pallet; MSA validates schemas and retires handles in those pallets; capacity targets are MSA providers; capacity, time release and fees move the balances pallet's tokens. Time release counts relay-chain blocks and only signed accounts transfer with it. No wire ends in a stub.",
  ["inputs", "histories"], "all cross-pallet calls, on both networks", "pallet tests wire mocks and the runtime does not build offline", [RT],
  [("impl pallet_msa::Config", RT), ("impl pallet_messages::Config", RT), ("construct_runtime", RT)], RTC, ["every cross-pallet call"], CFG)
RPM, RPMS = "pallets/messages/src/rpc/src/lib.rs", "pallets/msa/src/rpc/src/lib.rs"
RPS = [("runtime API implementations", "what a node answers from", RT)]
P("C63", "Runtime APIs answer with the pallets' own state",
  "Every runtime API of the chain answers with the named pallet's own query on exactly the caller's arguments: messages, schemas, delegations and grants, stateful storage, handles, nonces, fees and events, in the mainnet and the test-network runtime. A delegation is reported valid exactly when it would pass the pallet's own check. Answering changes no state.",
  ["inputs", "histories"], "all arguments and chain states, on both networks", "the runtime does not build offline and no test calls its APIs", [RT],
  [("impl_runtime_apis", RT)], RPS, ["runtime APIs", "RPC"])
P("C64", "RPC handlers pass the runtime's answer on",
  "An RPC query asks the runtime at the best block with the caller's own arguments and returns its answer unchanged, or an error when the runtime failed. Suffixes are asked for one by default and at most a hundred. Delegations are reported per delegator in the order asked, and the fee query reports the capacity fee's own parts. A full node serves every handler.",
  ["inputs", "histories"], "all arguments and runtime answers", "tests query mocks with a few arguments and the crates do not build offline", [RPMS, "pallets/handles/src/rpc/src/lib.rs", "pallets/schemas/src/rpc/src/lib.rs", "node/service/src/rpc/frequency_rpc.rs", "node/service/src/rpc/mod.rs", "common/primitives/src/offchain.rs"],
  [("MsaHandler", RPMS), ("HandlesHandler", "pallets/handles/src/rpc/src/lib.rs"), ("SchemasHandler", "pallets/schemas/src/rpc/src/lib.rs"), ("map_rpc_result", "common/helpers/src/rpc.rs")], RPS, ["RPC"])
P("C65", "The paged message query walks messages in order",
  "A page of messages holds the first page_size messages of the schema from the starting block and index on, in block and index order, each once and none skipped. It has a next page exactly when the page filled up and more blocks or messages in the range remain, and then names the next position. A query is refused unless its page size and block range are within the limits and the schema exists.",
  ["inputs", "histories"], "all queries and messages; order and pointers are decided for ranges of up to two blocks with up to two messages each", "tests query mocks with a few messages", [RPM],
  [("get_messages_by_schema_id", RPM), ("check_end_condition_and_set_next_pagination", "common/primitives/src/messages.rs")], [("BlockPaginationResponse", "the page", "common/primitives/src/messages.rs")], ["messages_getBySchemaId RPC"])
MG = ["pallets/messages/src/migration/v2.rs", "pallets/schemas/src/migration/v4.rs", "pallets/time-release/src/migration/v2.rs"]
P("C66", "A storage upgrade carries every record over once",
  "The message upgrade stores every message of every old block under its block, schema and index with its own payload, provider and author, and removes the old list. The time-release upgrade freezes for each account the total it still has scheduled before it removes the old lock. The schema upgrade names exactly the six published mainnet schemas, only on mainnet. Each runs only below its version and records it; a fresh chain starts at the last version, above them all.",
  ["histories", "crash-points"], "all chain states and versions; schema names are decided for one present schema at a time", "tests migrate one small state and do not build offline", MG,
  [("migrate_to_v2", MG[0]), ("migrate_to_v4", MG[1]), ("MigrationToV2", MG[2])], [("on-chain storage version", "which upgrades ran", MG[0])], ["on_runtime_upgrade"])
P("C67", "Valid MSA calls are accepted",
  "Every MSA call that meets the published conditions succeeds: a signed caller with the right keys, proofs within the mortality window and never used before, room for one more key, grant or signature, known schemas and a registered provider. Nothing else is required, so a valid call is never refused.",
  ["inputs", "histories"], "all callers, payloads and chain states; new grants are decided for delegations of no or one schema", "tests try a few valid calls on small states and the pallet does not build offline", [M, MO],
  [("Pallet::create", M), ("Pallet::grant_delegation", M), ("Pallet::add_public_key_to_msa", M), ("Pallet::revoke_schema_permissions", M)], MSTATE, ["every MSA call"])
EVF = [M, "pallets/handles/src/lib.rs", "pallets/schemas/src/lib.rs", SS, "pallets/capacity/src/lib.rs", "pallets/time-release/src/lib.rs", "pallets/messages/src/lib.rs", PK]
P("C68", "Every change is announced once, as it happened",
  "A successful MSA, handle, schema, message, stateful-storage, time-release, capacity or passkey call emits exactly the events of what it did, each once, with the real accounts, ids, amounts, names and content hashes. It announces nothing that did not happen.",
  ["inputs", "histories"], "all successful calls and chain states", "tests look at a few events and the pallets do not build offline", EVF,
  [("deposit_event calls", f) for f in EVF], [("Event", "what the chain announces", M)], ["every successful call"])
P("C69", "Valid handle, schema and message calls are accepted",
  "Every handle, schema and message call that meets the published conditions succeeds: a caller with an MSA, a valid unclaimed name with suffixes left, a live proof, a model of permitted size and shape, a schema of the right payload location, a granted delegation and room left in the block. Nothing else is required.",
  ["inputs", "histories"], "all callers, payloads and chain states", "tests try a few valid calls on small states and the pallets do not build offline", [H, SC, ME],
  [("Pallet::claim_handle", H), ("Pallet::retire_handle", H), ("Pallet::create_schema_v3", SC), ("Pallet::add_onchain_message", ME), ("Pallet::add_ipfs_message", ME)], HSTATE + SCS + MES, ["every handle, schema and message call"])
P("C70", "Valid stateful-storage edits are accepted",
  "Every itemized or paginated edit that meets the published conditions succeeds: a schema of the right kind, the owner or a provider with a live grant where one is needed, the expected page hash, items and pages within the limits, and a live proof for signed edits. Nothing else is required.",
  ["inputs", "histories"], "all callers, payloads and chain states", "tests try a few valid edits on small states and the pallet does not build offline", [SS, SST],
  [("Pallet::apply_item_actions", SS), ("Pallet::upsert_page", SS), ("Pallet::delete_page", SS), ("Pallet::apply_item_actions_with_signature_v2", SS)], SSS, SSO)
P("C71", "Valid token and capacity calls are accepted",
  "Every time-release and capacity call that meets the published conditions succeeds: enough free tokens, amounts above the minimum, schedules that end in time and fit, a registered target, matured unlocks, stake left to withdraw. Nothing else is required, so tokens and stake can always be taken back.",
  ["inputs", "histories"], "all callers, amounts and chain states", "tests try a few valid calls on small states and the pallets do not build offline", [TR, CP, CPT],
  [("Pallet::transfer", TR), ("Pallet::claim", TR), ("Pallet::stake", CP), ("Pallet::unstake", CP), ("Pallet::withdraw_unstaked", CP)], TRS + CPS, ["every time-release and capacity call"])

P("C72", "Valid transactions are accepted into the pool",
  "A transaction that meets the published conditions passes every pool and block check: a fee-free call that would take effect, a capacity call from a key with enough capacity and a permitted inner call, a passkey call with both proofs, a live nonce and funds. Nothing else is required. Competing free calls of one signer are tagged so that one at a time is pending.",
  ["inputs", "histories"], "all transactions, signers and chain states", "tests cover one state per call and the pallets do not build offline",
  [M, "pallets/handles/src/handles_signed_extension.rs", TP, PK],
  [("CheckFreeExtrinsicUse", M), ("HandlesSignedExtension", "pallets/handles/src/handles_signed_extension.rs"), ("ChargeFrqTransactionPayment", TP), ("validate_unsigned", PK)], MSTATE + TPS, ["SignedExtension::validate", "SignedExtension::pre_dispatch", "ValidateUnsigned"])
CSP = "node/service/src/chain_spec"
VALF = ["common/primitives/src/msa.rs", "common/primitives/src/schema.rs", "common/primitives/src/utils.rs"]
P("C73", "Ids, grants, settings and pages are encoded and compared whole",
  "A delegator or provider id is encoded as its MSA id and decoded from any MSA id. Grants, delegations, settings and pages are equal exactly when every field of them is, and settings flags survive encoding and decoding. Defaults are the empty and unrevoked values the rest of the chain counts on.",
  ["inputs"], "all values of these types", "tests encode a few values", VALF,
  [("DelegatorId", VALF[0]), ("Delegation", VALF[0]), ("SchemaSettings", VALF[1])], [("stored delegations, grants and settings", "what is read back from state", VALF[0])], ["every storage read and write of these types"])
P("C74", "Published indices, names and encodings stay as they are",
  "Every call, pallet, event and error keeps the index and arguments it was published with, every storage item its name, hashers and layout, and every runtime-API, RPC and JSON type its signature and fields. No two calls or pallets share an index. So stored state, signed payloads and deployed clients keep their meaning.",
  ["histories", "inputs"], "every published item of the recorded interface", "tests use the types they were compiled with", [RT, M, SC, TR, CP, SS],
  [("construct_runtime", RT), ("#[pallet::call_index]", M), ("#[pallet::storage]", SC)], MSTATE + SCS + TRS + CPS, ["every call, storage read, runtime API and RPC"])
P("C79", "Fees, deposits and bonds have their published amounts",
  "A unit has eight decimals. The existential deposit is a hundredth of it, weight is paid linearly with the base extrinsic weight costing a tenth of that, each byte of a transaction costs a ten-thousandth of a unit, and stored items and bytes deposit twenty units and a thousandth each, which fixes the multisig, proxy, preimage and democracy deposits. A treasury proposal bonds five percent, at least 100 and at most 1000 units, and nothing is burned.",
  ["inputs"], "every fee and deposit, on both networks", "pallet tests run with mock amounts and the runtime does not build offline", [RT, CC, "runtime/common/src/fee.rs"],
  [("currency::deposit", CC), ("WeightToFee", "runtime/common/src/fee.rs"), ("impl pallet_multisig::Config", RT)], RTC, ["every fee, reserve and bond"], CFG)
P("C80", "Blocks, sessions and votes take their published time",
  "A block slot lasts 12 seconds, half a second of which is computation, three quarters of that for ordinary calls; a session lasts six hours, and motions of the council and the technical committee five days. On mainnet referenda launch and vote weekly, fast-tracked ones in at least three hours, enactment and vote locks take eight days and the treasury pays weekly. Councils have at most ten members and twenty-five open motions.",
  ["histories"], "every block, session, motion and referendum", "no test runs a session or a referendum", [RT, CC],
  [("impl pallet_democracy::Config", RT), ("CouncilMotionDuration", CC), ("SLOT_DURATION", CC)], RTC, ["block production, sessions and votes"], CFG)
P("C81", "The off-chain worker follows the finalized chain once, in order",
  "The worker acts only up to the newest recent block whose hash is the finalized head its node reports, and only under its locks. It takes the key list of every MSA once, from then on replays the indexed events of each later finalized block in order, every event to its own MSA, records the block as processed and clears the entries it replayed and no others. It stops when its lock has expired.",
  ["schedules", "histories"], "every chain history and node answer; event blocks unrolled to two events and two blocks", "tests run one worker over a few events",
  [MO, M], [("do_offchain_worker", MO), ("apply_offchain_events", MO), ("reverse_map_msa_keys", MO), ("get_finalized_block_number", MO)], [("off-chain database", "last processed block, initial-index mark, key lists", MO)], ["get_keys_by_msa_id RPC"])
P("C82", "Genesis holds the recorded supply, authorities and vesting",
  "The mainnet genesis endows its twenty holders at most a billion tokens in all, names its six authors and has no super-user. Development and test networks start with the well-known accounts, their sudo key, councils and para ids; every network writes the balances, keys, bond and councils it was given. Each vesting schedule of a genesis is valid, kept, backed by the holder's balance and frozen together with earlier ones; the schema size limit starts as configured.",
  ["inputs"], "every chain-spec builder and every genesis vesting list, unrolled over a first and a second schedule of a holder", "no test builds a genesis and the node does not build offline",
  [CSP + "/frequency.rs", CSP + "/frequency_dev.rs", CSP + "/frequency_paseo.rs", CSP + "/frequency_rococo.rs", TR, SC],
  [("frequency_genesis", CSP + "/frequency.rs"), ("testnet_genesis", CSP + "/frequency_paseo.rs"), ("development_genesis", CSP + "/frequency_dev.rs"), ("GenesisConfig::build", TR)], TRS + SCS, ["the genesis state"])
P("C83", "A node loads the chain it was asked for",
  "Each published chain name, and each build's default, selects its own chain specification, and a specification file is run only by the build made for that network. A specification's id tells which network it is.",
  ["inputs"], "every chain name on every network build", "no test of the repository loads a chain spec", ["node/cli/src/command.rs"],
  [("load_spec", "node/cli/src/command.rs"), ("IdentifyChain", "node/cli/src/command.rs")], [("chain specification", "the network a node joins", "node/cli/src/command.rs")], ["frequency --chain"])
# ---- stated, but outside what a static argument can decide here
P("C75", "The chain keeps producing and importing blocks",
  "A collator that is selected authors a block in its slot, every node imports every valid block and all reach the same state. A local network seals blocks as its sealing mode says.",
  ["schedules", "fault_sequences"], "all network schedules and node faults", "tests start no network", ["node/service/src/service.rs", "node/service/src/block_sealing.rs"],
  [("start_parachain_node", "node/service/src/service.rs")], [], ["the chain head of every node"],
  na="liveness of the consensus, networking and relay-chain crates, which are external and scheduled at run time; the repository only assembles them, and no static argument over its own source bounds their schedules")
P("C76", "Weights cover the real cost of every call",
  "Executing any call takes no longer and proves no more storage than the weight it is charged, so a block never overruns its limits.",
  ["inputs"], "all calls and states", "benchmarks sample a few sizes", ["pallets/msa/src/weights.rs", "runtime/common/src/weights/block_weights.rs"],
  [("WeightInfo", "pallets/msa/src/weights.rs")], [], ["block execution time"],
  na="execution time and proof size on reference hardware are measured quantities; the weight functions are generated data with nothing in the source to compare them with")
P("C77", "Encoded state and payloads decode to what was encoded",
  "Every stored record, signed payload and Avro datum decodes to the value it was encoded from, for every value.",
  ["inputs"], "all values of all encoded types", "tests encode a few values", ["common/helpers/src/avro.rs", "common/primitives/src/msa.rs"],
  [("Encode/Decode derives", "common/primitives/src/msa.rs")], [], ["storage, signatures and Avro records"],
  na="the coding itself is done by the external codec and Avro crates, whose source is outside the repository; what the repository contributes (whole-field derivation, hand-written codecs, field order) is decided by C73, C74, C52 and C54")
P("C78", "No two visually identical handles coexist",
  "Any two strings that a reader cannot tell apart have the same canonical form.",
  ["inputs"], "all pairs of Unicode strings in the supported scripts", "tests list a few look-alikes", ["pallets/handles/src/handles-utils/src/data/confusables.rs"],
  [("CONFUSABLES", "pallets/handles/src/handles-utils/src/data/confusables.rs")], [], ["canonical forms"],
  na="visual identity is a judgement about fonts with no definition in the source; the decidable part (the table is a function, never chains, covers both cases and the listed common look-alikes, and the pipeline applies it) is C16")
