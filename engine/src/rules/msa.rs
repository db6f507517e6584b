use super::*;
const P: &str = "pallet-msa";
const NOW: &str = "frame_system::Pallet::<T>::block_number()";

fn sig(proof: &str, key: &str, payload: &str) -> String {
    format!("{proof}.verify(&wrap_binary_data({payload}.encode())[..], &T::ConvertIntoAccountId32::convert({key}.clone()))", proof = proof, key = key, payload = payload)
}
const CREATE: &[(&str, &str)] = &[("Pallet::create", "ensure_signed(origin).unwrap()"), ("Pallet::create_sponsored_account_with_delegation", "key")];
pub fn params(f: &str) -> Vec<&'static str> {
    match f {
        "Pallet::create" => vec!["origin"],
        "Pallet::create_sponsored_account_with_delegation" | "Pallet::grant_delegation" => vec!["origin", "key", "proof", "payload"],
        "Pallet::add_public_key_to_msa" => vec!["origin", "owner", "owner_proof", "key_proof", "payload"],
        "Pallet::delete_msa_public_key" => vec!["origin", "victim"],
        "Pallet::retire_msa" => vec!["origin"],
        "Pallet::revoke_delegation_by_delegator" => vec!["origin", "provider"],
        "Pallet::revoke_delegation_by_provider" => vec!["origin", "delegator"],
        "Pallet::revoke_schema_permissions" => vec!["origin", "provider", "ids"],
        "Pallet::create_provider" | "Pallet::propose_to_be_provider" => vec!["origin", "name"],
        "Pallet::create_provider_via_governance" => vec!["origin", "key", "name"],
        _ => vec![],
    }
}
fn go<'a>(k: &'a Chk, f: &str) -> Run<'a> {
    k.run(P, f, &params(f))
}

/// identifiers are fresh, a key controls at most one MSA, the key count is exact
pub fn identity(k: &Chk) {
    for (f, key) in CREATE {
        let mut r = go(k, f);
        r.bind("k", key);
        r.bind("max", "CurrentMsaIdentifierMaximum::<T>::get()");
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ok_implies("key-unused", "PublicKeyToMsaId::<T>::get(&k).is_none()");
        r.ok_implies("id-no-wrap", "max.checked_add(1).is_some()");
        r.ok_implies("key-limit", "PublicKeyCountForMsaId::<T>::get(max + 1) < T::MaxPublicKeysPerMsa::get()");
        r.ensures("id-advances", "CurrentMsaIdentifierMaximum::<T>::get()", "max + 1");
        r.ensures("key-owns-new-id", "PublicKeyToMsaId::<T>::get(&k)", "Some(max + 1)");
        r.ensures("key-count", "PublicKeyCountForMsaId::<T>::get(max + 1)", "PublicKeyCountForMsaId::<T>::get(max + 1) + 1");
        r.args_are("only-key", "set|kill", "PublicKeyToMsaId", 1, &["k"], "_");
        r.args_are("only-count", "set|kill", "PublicKeyCountForMsaId", 1, &["max + 1"], "_");
        r.ok_does("event", "emit", "MsaCreated", &[], "Event::MsaCreated { msa_id: max + 1, key: k }");
    }
    let mut r = go(k, "Pallet::create");
    r.writes_only("create-writes", &["PublicKeyToMsaId", "PublicKeyCountForMsaId", "CurrentMsaIdentifierMaximum", "OffchainIndexEventCount"]);
    let mut r = go(k, "Pallet::add_public_key_to_msa");
    r.bind("k", "payload.new_public_key");
    r.ok_implies("key-unused", "PublicKeyToMsaId::<T>::get(&k).is_none()");
    r.ok_implies("key-limit", "PublicKeyCountForMsaId::<T>::get(payload.msa_id) < T::MaxPublicKeysPerMsa::get()");
    r.ensures("key-owned", "PublicKeyToMsaId::<T>::get(&k)", "Some(payload.msa_id)");
    r.ensures("key-count", "PublicKeyCountForMsaId::<T>::get(payload.msa_id)", "PublicKeyCountForMsaId::<T>::get(payload.msa_id) + 1");
    r.args_are("only-key", "set|kill", "PublicKeyToMsaId", 1, &["k"], "_");
    r.args_are("only-count", "set|kill", "PublicKeyCountForMsaId", 1, &["payload.msa_id"], "_");
    for (f, victim) in [("Pallet::delete_msa_public_key", "victim"), ("Pallet::retire_msa", "who")] {
        let mut r = go(k, f);
        r.bind("who", "ensure_signed(origin).unwrap()");
        r.bind("victimk", victim);
        r.bind("m", "PublicKeyToMsaId::<T>::get(&who)");
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ok_implies("key-exists", "m.is_none() || PublicKeyToMsaId::<T>::get(&victimk).is_some()");
        r.ok_implies("key-of-this-msa", "m.is_none() || PublicKeyToMsaId::<T>::get(&victimk) == m");
        r.ensures_if("key-gone", "m.is_some()", "PublicKeyToMsaId::<T>::get(&victimk)", "None");
        r.ensures_if("count-drops", "m.is_some() && PublicKeyCountForMsaId::<T>::contains_key(m.unwrap()) && PublicKeyCountForMsaId::<T>::get(m.unwrap()) > 0", "PublicKeyCountForMsaId::<T>::get(m.unwrap())", "PublicKeyCountForMsaId::<T>::get(m.unwrap()) - 1");
        r.only_when("needs-msa", "set|kill", "PublicKeyToMsaId", 1, "m.is_some()");
        r.args_are("only-key", "set|kill", "PublicKeyToMsaId", 1, &["victimk"], "_");
        r.args_are("only-count", "set|kill", "PublicKeyCountForMsaId", 1, &["m.unwrap()"], "_");
        r.no_panic("count", "PublicKeyCountForMsaId::<T>::get(m.unwrap()) > 0 || m.is_none()", &[]);
        r.writes_only("writes", &["PublicKeyToMsaId", "PublicKeyCountForMsaId", "OffchainIndexEventCount"]);
    }
    writers(k, P, &["PublicKeyToMsaId", "PublicKeyCountForMsaId"], &["Pallet::create", "Pallet::create_sponsored_account_with_delegation", "Pallet::add_public_key_to_msa", "Pallet::delete_msa_public_key", "Pallet::retire_msa"]);
    writers(k, P, &["CurrentMsaIdentifierMaximum"], &["Pallet::create", "Pallet::create_sponsored_account_with_delegation"]);
    // lookups
    for f in ["MsaLookup for Pallet::get_msa_id", "Pallet::get_owner_of"] {
        let mut r = k.run(P, f, &["k"]);
        r.returns("lookup", "PublicKeyToMsaId::<T>::get(k)");
    }
    for f in ["MsaValidator for Pallet::ensure_valid_msa_key"] {
        let mut r = k.run(P, f, &["k"]);
        r.ok_iff(&[("owned", "PublicKeyToMsaId::<T>::get(k).is_some()")]);
        r.ok_value("owner", "true", "PublicKeyToMsaId::<T>::get(k).unwrap()");
    }
}

pub fn key_auth(k: &Chk) {
    encodes_whole(k, "pallet-msa", "AddKeyData");
    let mut r = go(k, "Pallet::add_public_key_to_msa");
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("owner-signed", &sig("owner_proof", "owner", "payload"));
    r.ok_implies("new-key-signed", &sig("key_proof", "payload.new_public_key", "payload"));
    r.ok_implies("owner-owns", "PublicKeyToMsaId::<T>::get(&owner) == Some(payload.msa_id)");
    r.only_when("only-authorised", "set", "PublicKeyToMsaId", 1, &format!("{} && {} && PublicKeyToMsaId::<T>::get(&owner) == Some(payload.msa_id)", sig("owner_proof", "owner", "payload"), sig("key_proof", "payload.new_public_key", "payload")));
    r.ok_does("event", "emit", "PublicKeyAdded", &[], "Event::PublicKeyAdded { msa_id: payload.msa_id, key: payload.new_public_key }");
    r.writes_only("writes", &["PublicKeyToMsaId", "PublicKeyCountForMsaId", "PayloadSignatureRegistryList", "PayloadSignatureRegistryPointer", "OffchainIndexEventCount"]);
    // sponsored creation needs the new owner's signature
    let mut r = go(k, "Pallet::create_sponsored_account_with_delegation");
    r.ok_implies("delegator-signed", &sig("proof", "key", "payload"));
    r.only_when("only-authorised", "set", "PublicKeyToMsaId", 1, &sig("proof", "key", "payload"));
}

/// expiry window, replay registry
pub fn replay(k: &Chk) {
    for f in ["Pallet::grant_delegation", "Pallet::create_sponsored_account_with_delegation"] {
        let mut r = go(k, f);
        r.bind("now", NOW);
        r.bind("exp", "payload.expiration");
        r.bind("max", "T::MaxSignaturesStored::get().unwrap_or(0)");
        r.bind("p", "PayloadSignatureRegistryPointer::<T>::get()");
        window(&mut r, "exp");
        fresh(&mut r, "proof", "exp");
    }
    let mut r = go(k, "Pallet::add_public_key_to_msa");
    r.bind("now", NOW);
    r.bind("max", "T::MaxSignaturesStored::get().unwrap_or(0)");
    r.bind("p", "PayloadSignatureRegistryPointer::<T>::get()");
    window(&mut r, "payload.expiration");
    r.ok_implies("first-unused", "PayloadSignatureRegistryList::<T>::get(&owner_proof).is_none() && !(p.is_some() && p.unwrap().count != 0 && p.unwrap().newest == owner_proof)");
    r.ok_implies("second-unused", "max == 0 || key_proof != owner_proof");
    r.ensures("newest", "match PayloadSignatureRegistryPointer::<T>::get() { Some(q) => (q.newest, q.newest_expires_at), None => panic!() }", "(key_proof, payload.expiration)");
    r.ensures_if("first-kept", "max != 0", "PayloadSignatureRegistryList::<T>::get(&owner_proof)", "Some((payload.expiration, key_proof))");
    writers(k, P, &["PayloadSignatureRegistryList", "PayloadSignatureRegistryPointer"], &["Pallet::grant_delegation", "Pallet::create_sponsored_account_with_delegation", "Pallet::add_public_key_to_msa"]);
}
fn window(r: &mut Run, exp: &str) {
    r.ok_implies("not-expired", &format!("now < {}", exp));
    r.ok_implies("within-window", &format!("{} < now + T::MortalityWindowSize::get()", exp));
    for s in ["PublicKeyToMsaId", "DelegatorAndProviderToDelegation"] {
        if !r.evs("set", s).is_empty() {
            r.only_when(&format!("window-{}", s), "set", s, 1, &format!("now < {e} && {e} < now + T::MortalityWindowSize::get()", e = exp));
        }
    }
}
fn fresh(r: &mut Run, sg: &str, exp: &str) {
    let p = format!("match p {{ Some(q) => q, None => SignatureRegistryPointer {{ newest: {sg}, newest_expires_at: {exp}, oldest: {sg}, count: 0 }} }}", sg = sg, exp = exp);
    r.bind("ptr", &p);
    r.ok_implies("unused", &format!("PayloadSignatureRegistryList::<T>::get(&{}).is_none()", sg));
    r.ok_implies("not-newest", &format!("!(ptr.count != 0 && ptr.newest == {})", sg));
    r.ok_implies("full-drops-only-expired", "ptr.count != max || matches!(PayloadSignatureRegistryList::<T>::get(&ptr.oldest), Some((e, _n)) if e < now)");
    // the registry never holds more than its bound
    r.ensures_if("pointer", "ptr.count <= max", "PayloadSignatureRegistryPointer::<T>::get()", &format!("Some(SignatureRegistryPointer {{ newest: {sg}, newest_expires_at: {exp}, oldest: if ptr.count == max {{ PayloadSignatureRegistryList::<T>::get(&ptr.oldest).unwrap().1 }} else {{ ptr.oldest }}, count: if ptr.count == max {{ ptr.count }} else {{ ptr.count + 1 }} }})", sg = sg, exp = exp));
    r.ensures_if("previous-kept", "ptr.count != 0", "PayloadSignatureRegistryList::<T>::get(&ptr.newest)", &format!("Some((ptr.newest_expires_at, {}))", sg));
    r.args_are("drops-oldest", "kill", "PayloadSignatureRegistryList", 1, &["ptr.oldest"], "_");
    r.only_when("drops-when-full", "kill", "PayloadSignatureRegistryList", 1, "ptr.count == max && matches!(PayloadSignatureRegistryList::<T>::get(&ptr.oldest), Some((e, _n)) if e < now)");
    r.ok_does_if("drops", "ptr.count == max && ptr.oldest != ptr.newest", "kill", "PayloadSignatureRegistryList", &["ptr.oldest"], "_");
}

const DEL: &str = "DelegatorAndProviderToDelegation::<T>::get(DelegatorId(d), ProviderId(p))";
pub fn revoke(k: &Chk) {
    for (f, d, p) in [("Pallet::revoke_delegation_by_delegator", "PublicKeyToMsaId::<T>::get(&who).unwrap()", "provider"), ("Pallet::revoke_delegation_by_provider", "delegator", "PublicKeyToMsaId::<T>::get(&who).unwrap()")] {
        let mut r = go(k, f);
        r.bind("who", "ensure_signed(origin).unwrap()");
        r.bind("has", "PublicKeyToMsaId::<T>::get(&who).is_some()");
        r.bind("d", d);
        r.bind("p", p);
        r.bind("now", NOW);
        r.bind("old", DEL);
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ok_implies("active", "!has || matches!(old, Some(i) if i.revoked_at == 0)");
        r.ensures_if("revoked-now", "has", &format!("match {} {{ Some(i) => (i.revoked_at, i.schema_permissions), None => panic!() }}", DEL), "match old { Some(i) => (now, i.schema_permissions), None => panic!() }");
        r.only_when("needs-msa", "set|kill", "DelegatorAndProviderToDelegation", 1, "has && ensure_signed(origin).is_ok()");
        r.args_are("own-side", "set|kill", "DelegatorAndProviderToDelegation", 1, &["DelegatorId(d)", "ProviderId(p)"], "_");
        r.writes_only("writes", &["DelegatorAndProviderToDelegation"]);
        r.ok_does_if("event", "has", "emit", "DelegationRevoked", &[], "Event::DelegationRevoked { provider_id: ProviderId(p), delegator_id: DelegatorId(d) }");
    }
    let mut r = go(k, "Pallet::revoke_schema_permissions");
    r.bind("who", "ensure_signed(origin).unwrap()");
    r.bind("d", "PublicKeyToMsaId::<T>::get(&who).unwrap()");
    r.bind("p", "provider");
    r.bind("now", NOW);
    r.bind("old", DEL);
    r.ok_implies("signed", "ensure_signed(origin).is_ok() && PublicKeyToMsaId::<T>::get(&who).is_some()");
    r.ok_implies("exists", "old.is_some()");
    r.ok_implies("bounded", "ids.len() <= T::MaxSchemaGrantsPerDelegation::get()");
    r.ok_implies("known-schemas", "T::SchemaValidator::are_all_schema_ids_valid(&ids)");
    r.sym("q");
    r.ensures("granted-ids-revoked-now", &format!("match {} {{ Some(i) => i.schema_permissions.get(&q), None => panic!() }}", DEL), "match old { Some(i) => if ids.contains(&q) { Some(now) } else { i.schema_permissions.get(&q) }, None => panic!() }");
    r.ensures("still-delegated", &format!("match {} {{ Some(i) => i.revoked_at, None => panic!() }}", DEL), "match old { Some(i) => i.revoked_at, None => panic!() }");
    r.args_are("own-side", "set|kill", "DelegatorAndProviderToDelegation", 1, &["DelegatorId(d)", "ProviderId(p)"], "_");
    r.writes_only("writes", &["DelegatorAndProviderToDelegation"]);
    writers(k, P, &["DelegatorAndProviderToDelegation"], &["Pallet::grant_delegation", "Pallet::create_sponsored_account_with_delegation", "Pallet::revoke_delegation_by_delegator", "Pallet::revoke_delegation_by_provider", "Pallet::revoke_schema_permissions"]);
}

pub fn valid_at(k: &Chk) {
    let mut r = k.run(P, "DelegationValidator for Pallet::ensure_valid_delegation", &["prov", "deleg", "at"]);
    r.bind("i", "DelegatorAndProviderToDelegation::<T>::get(deleg, prov)");
    r.bind("now", NOW);
    r.bind("when", "match at { Some(b) => b, None => now }");
    r.ok_iff(&[("exists", "i.is_some()"), ("not-future", "now >= when"), ("active", "match i { Some(x) => x.revoked_at == 0 || x.revoked_at >= when, None => true }")]);
    r.ok_value("delegation", "true", "i.unwrap()");
    r.writes_only("pure", &[]);
    let mut r = k.run(P, "SchemaGrantValidator for Pallet::ensure_valid_schema_grant", &["prov", "deleg", "schema", "at"]);
    r.bind("i", "DelegatorAndProviderToDelegation::<T>::get(deleg, prov)");
    r.bind("now", NOW);
    r.ok_iff(&[
        ("exists", "i.is_some()"),
        ("not-future", "now >= at"),
        ("active", "match i { Some(x) => x.revoked_at == 0 || x.revoked_at >= at, None => true }"),
        ("granted", "match i { Some(x) => x.schema_permissions.get(&schema).is_some(), None => true }"),
        ("grant-active", "match i { Some(x) => match x.schema_permissions.get(&schema) { Some(e) => *e == 0 || at <= *e, None => true }, None => true }"),
    ]);
    r.writes_only("pure", &[]);
    let mut r = k.run(P, "ProviderLookup for Pallet::get_delegation_of", &["deleg", "prov"]);
    r.returns("lookup", "DelegatorAndProviderToDelegation::<T>::get(deleg, prov)");
    // what the grants query reports
    let mut r = k.run(P, "Pallet::get_granted_schemas_by_msa_id", &["deleg", "prov"]);
    r.ok_iff(&[
        ("named-provider-found", "match prov { Some(p) => DelegatorAndProviderToDelegation::<T>::get(deleg, p).is_some(), None => true }"),
        ("named-provider-grants", "match prov { Some(p) => match DelegatorAndProviderToDelegation::<T>::get(deleg, p) { Some(i) => i.schema_permissions.len() != 0, None => true }, None => true }"),
    ]);
    let list = "i.schema_permissions.iter().map(|(s, r)| SchemaGrant { schema_id: s, revoked_at: if i.revoked_at != 0 && (r == 0 || r > i.revoked_at) { i.revoked_at } else { r } }).collect()";
    r.ok_value("of-one-provider", "prov.is_some()", &format!("{{ let i = DelegatorAndProviderToDelegation::<T>::get(deleg, prov.unwrap()).unwrap(); vec![DelegationResponse {{ provider_id: prov.unwrap(), permissions: {} }}] }}", list));
    r.ok_value("of-every-provider", "prov.is_none()", &format!("DelegatorAndProviderToDelegation::<T>::iter_prefix(deleg).map(|(p, i)| DelegationResponse {{ provider_id: p, permissions: {} }}).collect()", list));
    r.writes_only("pure", &[]);
}

pub fn grant(k: &Chk) {
    encodes_whole(k, "pallet-msa", "AddProvider");
    let mut r = go(k, "Pallet::grant_delegation");
    r.bind("who", "ensure_signed(origin).unwrap()");
    r.bind("p", "PublicKeyToMsaId::<T>::get(&who).unwrap()");
    r.bind("d", "PublicKeyToMsaId::<T>::get(&key).unwrap()");
    r.bind("now", NOW);
    r.bind("old", DEL);
    r.ok_implies("signed", "ensure_signed(origin).is_ok() && PublicKeyToMsaId::<T>::get(&who).is_some()");
    r.ok_implies("delegator-msa", "PublicKeyToMsaId::<T>::get(&key).is_some()");
    r.ok_implies("delegator-signed", &sig("proof", "key", "payload"));
    r.ok_implies("payload-names-provider", "payload.authorized_msa_id == p");
    r.ok_implies("registered", "ProviderToRegistryEntry::<T>::get(ProviderId(p)).is_some()");
    r.ok_implies("not-self", "p != d");
    r.ok_implies("bounded", "payload.schema_ids.len() <= T::MaxSchemaGrantsPerDelegation::get()");
    r.ok_implies("known-schemas", "T::SchemaValidator::are_all_schema_ids_valid(&payload.schema_ids)");
    r.sym("q");
    r.ensures("permissions", &format!("match {} {{ Some(i) => i.schema_permissions.get(&q), None => panic!() }}", DEL), "if payload.schema_ids.contains(&q) { Some(0) } else { match old { Some(i) => match i.schema_permissions.get(&q) { Some(e) => if *e == 0 { Some(now) } else { Some(*e) }, None => None }, None => None } }");
    r.ensures("active", &format!("match {} {{ Some(i) => i.revoked_at, None => panic!() }}", DEL), "0");
    r.args_are("pair", "set|kill", "DelegatorAndProviderToDelegation", 1, &["DelegatorId(d)", "ProviderId(p)"], "_");
    r.ok_does("event", "emit", "DelegationGranted", &[], "Event::DelegationGranted { delegator_id: DelegatorId(d), provider_id: ProviderId(p) }");
    r.writes_only("writes", &["DelegatorAndProviderToDelegation", "PayloadSignatureRegistryList", "PayloadSignatureRegistryPointer"]);

    let mut r = go(k, "Pallet::create_sponsored_account_with_delegation");
    r.bind("who", "ensure_signed(origin).unwrap()");
    r.bind("p", "PublicKeyToMsaId::<T>::get(&who).unwrap()");
    r.bind("d", "CurrentMsaIdentifierMaximum::<T>::get() + 1");
    r.bind("old", DEL);
    r.ok_implies("signed", "ensure_signed(origin).is_ok() && PublicKeyToMsaId::<T>::get(&who).is_some()");
    r.ok_implies("delegator-signed", &sig("proof", "key", "payload"));
    r.ok_implies("payload-names-provider", "payload.authorized_msa_id == p");
    r.ok_implies("registered", "ProviderToRegistryEntry::<T>::get(ProviderId(p)).is_some()");
    r.ok_implies("new-delegation", "old.is_none()");
    r.ok_implies("bounded", "payload.schema_ids.len() <= T::MaxSchemaGrantsPerDelegation::get()");
    r.ok_implies("known-schemas", "T::SchemaValidator::are_all_schema_ids_valid(&payload.schema_ids)");
    r.sym("q");
    r.ensures("permissions", &format!("match {} {{ Some(i) => i.schema_permissions.get(&q), None => panic!() }}", DEL), "if payload.schema_ids.contains(&q) { Some(0) } else { None }");
    r.ensures("active", &format!("match {} {{ Some(i) => i.revoked_at, None => panic!() }}", DEL), "0");
    r.args_are("pair", "set|kill", "DelegatorAndProviderToDelegation", 1, &["DelegatorId(d)", "ProviderId(p)"], "_");
    r.ok_does("event", "emit", "DelegationGranted", &[], "Event::DelegationGranted { delegator_id: DelegatorId(d), provider_id: ProviderId(p) }");
    r.writes_only("writes", &["DelegatorAndProviderToDelegation", "PayloadSignatureRegistryList", "PayloadSignatureRegistryPointer", "PublicKeyToMsaId", "PublicKeyCountForMsaId", "CurrentMsaIdentifierMaximum", "OffchainIndexEventCount"]);
}

pub fn free_calls(k: &Chk) {
    let mut r = k.run(P, "SignedExtension for CheckFreeExtrinsicUse::validate", &["me", "who", "call", "info", "len"]);
    r.bind("m", "PublicKeyToMsaId::<T>::get(who)");
    r.bind("now", NOW);
    let deleg = |d: &str, p: &str| format!("m.is_some() && match DelegatorAndProviderToDelegation::<T>::get(DelegatorId({d}), ProviderId({p})) {{ Some(i) => i.revoked_at == 0 || i.revoked_at >= now, None => false }}", d = d, p = p);
    r.ok_implies("revoke-by-provider", &format!("match call.is_sub_type() {{ Some(Call::revoke_delegation_by_provider {{ delegator }}) => {}, _ => true }}", deleg("*delegator", "m.unwrap()")));
    r.ok_implies("revoke-by-delegator", &format!("match call.is_sub_type() {{ Some(Call::revoke_delegation_by_delegator {{ provider_msa_id }}) => {}, _ => true }}", deleg("m.unwrap()", "*provider_msa_id")));
    r.ok_implies("delete-key", "match call.is_sub_type() { Some(Call::delete_msa_public_key { public_key_to_delete }) => m.is_some() && who != public_key_to_delete && PublicKeyToMsaId::<T>::get(public_key_to_delete) == m, _ => true }");
    r.ok_implies("retire", "match call.is_sub_type() { Some(Call::retire_msa {}) => m.is_some() && ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())).is_none() && T::HandleProvider::get_handle_for_msa(m.unwrap()).is_none() && PublicKeyCountForMsaId::<T>::get(m.unwrap()) == 1 && !DelegatorAndProviderToDelegation::<T>::iter_key_prefix(DelegatorId(m.unwrap())).any(|p| match DelegatorAndProviderToDelegation::<T>::get(DelegatorId(m.unwrap()), p) { Some(i) => i.revoked_at == 0 || i.revoked_at >= now, None => false }), _ => true }");
    r.writes_only("pure", &[]);
    let pre = k.run(P, "SignedExtension for CheckFreeExtrinsicUse::pre_dispatch", &["me", "who", "call", "info", "len"]);
    let mut pre = pre;
    pre.bind("m", "PublicKeyToMsaId::<T>::get(who)");
    pre.bind("now", NOW);
    pre.ok_implies("delete-key", "match call.is_sub_type() { Some(Call::delete_msa_public_key { public_key_to_delete }) => m.is_some() && who != public_key_to_delete && PublicKeyToMsaId::<T>::get(public_key_to_delete) == m, _ => true }");
    pre.ok_implies("retire", "match call.is_sub_type() { Some(Call::retire_msa {}) => m.is_some() && ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())).is_none() && T::HandleProvider::get_handle_for_msa(m.unwrap()).is_none() && PublicKeyCountForMsaId::<T>::get(m.unwrap()) == 1, _ => true }");
    pre.ok_implies("revoke-by-provider", &format!("match call.is_sub_type() {{ Some(Call::revoke_delegation_by_provider {{ delegator }}) => {}, _ => true }}", deleg("*delegator", "m.unwrap()")));
    pre.ok_implies("revoke-by-delegator", &format!("match call.is_sub_type() {{ Some(Call::revoke_delegation_by_delegator {{ provider_msa_id }}) => {}, _ => true }}", deleg("m.unwrap()", "*provider_msa_id")));
    // retiring a handle is free too
    let h = "pallet-handles";
    for f in ["validate", "pre_dispatch"] {
        let mut r = k.run(h, &format!("SignedExtension for HandlesSignedExtension::{}", f), &["me", "who", "call", "info", "len"]);
        r.bind("retiring", "match call.is_sub_type() { Some(Call::retire_handle {}) => true, _ => false }");
        r.bind("m", "T::MsaInfoProvider::ensure_valid_msa_key(who)");
        r.ok_implies("controls-msa", "!retiring || m.is_ok()");
        r.ok_implies("has-handle", "!retiring || MSAIdToDisplayName::<T>::get(m.unwrap()).is_some()");
        r.ok_implies("claim-expired", "!retiring || block_number() >= MSAIdToDisplayName::<T>::get(m.unwrap()).unwrap().1");
        r.ok_when("others", "!retiring");
        r.writes_only("pure", &[]);
    }
    // and these are all the free calls there are
    let known = ["delete_msa_public_key", "retire_handle", "retire_msa", "revoke_delegation_by_delegator", "revoke_delegation_by_provider"];
    let mut free = vec![];
    let mut calls = 0;
    for f in k.ix.fns.iter().filter(|f| f.krate.starts_with("pallet-") && f.impl_attrs.iter().any(|a| a.replace(' ', "").contains("pallet::call"))) {
        calls += 1;
        if f.attrs.iter().any(|a| a.replace(' ', "").contains("Pays::No")) {
            free.push((f.name.clone(), format!("{}:{}", f.file, f.line)));
        }
    }
    let mut rp = k.rep.borrow_mut();
    rp.ob("free-call-census", "calls", calls >= 40, "the chain's dispatchables are found", "pallets", || format!("{calls}"));
    for (n, at) in &free {
        rp.ob("free-call-census", n, known.contains(&n.as_str()), "a call without a fee is one of those checked before it enters the pool", at, || format!("{n} pays no fee and no transaction extension checks it"));
    }
}

pub fn provider(k: &Chk) {
    for (f, who, gate) in [("Pallet::create_provider", "ensure_signed(origin).unwrap()", "ensure_signed(origin).is_ok()"), ("Pallet::create_provider_via_governance", "key", "T::CreateProviderViaGovernanceOrigin::ensure_origin(origin).is_ok()")] {
        let mut r = go(k, f);
        r.bind("who", who);
        r.bind("m", "PublicKeyToMsaId::<T>::get(&who)");
        r.ok_iff(&[("origin", gate), ("msa", "m.is_some()"), ("name-fits", "BoundedVec::<u8, T::MaxProviderNameSize>::try_from(name.clone()).is_ok()"), ("not-yet", "ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())).is_none()")]);
        r.ensures("registered", "match ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())) { Some(e) => e.provider_name, None => panic!() }", "name");
        r.args_are("own-msa", "set|kill", "ProviderToRegistryEntry", 1, &["ProviderId(m.unwrap())"], "_");
        r.ok_does("event", "emit", "ProviderCreated", &[], "Event::ProviderCreated { provider_id: ProviderId(m.unwrap()) }");
        r.writes_only("writes", &["ProviderToRegistryEntry"]);
    }
    let mut r = go(k, "Pallet::propose_to_be_provider");
    r.bind("who", "ensure_signed(origin).unwrap()");
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("msa", "PublicKeyToMsaId::<T>::get(&who).is_some()");
    r.ok_implies("name-fits", "BoundedVec::<u8, T::MaxProviderNameSize>::try_from(name.clone()).is_ok()");
    r.ok_does("proposes", "call", "*propose", &["who", "1", "Call::create_provider_via_governance { provider_key: who, provider_name: name }"], "_");
    r.writes_only("writes", &[]);
    writers(k, P, &["ProviderToRegistryEntry"], &["Pallet::create_provider", "Pallet::create_provider_via_governance"]);
    let mut r = k.run(P, "TargetValidator for Pallet::validate", &["t"]);
    r.returns("registered", "ProviderToRegistryEntry::<T>::get(ProviderId(t)).is_some()");
    let mut r = k.run(P, "Pallet::is_registered_provider", &["t"]);
    r.returns("registered", "ProviderToRegistryEntry::<T>::get(ProviderId(t)).is_some()");
}

pub fn retire(k: &Chk) {
    let mut r = go(k, "Pallet::retire_msa");
    r.bind("who", "ensure_signed(origin).unwrap()");
    r.bind("m", "PublicKeyToMsaId::<T>::get(&who)");
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ensures_if("key-gone", "m.is_some()", "PublicKeyToMsaId::<T>::get(&who)", "None");
    r.ensures_if("last-key-clears-count", "m.is_some() && PublicKeyCountForMsaId::<T>::contains_key(m.unwrap()) && PublicKeyCountForMsaId::<T>::get(m.unwrap()) == 1", "PublicKeyCountForMsaId::<T>::get(m.unwrap())", "0");
    r.ok_does_if("key-event", "m.is_some()", "emit", "PublicKeyDeleted", &[], "Event::PublicKeyDeleted { key: who }");
    r.ok_does_if("retired-event", "m.is_some()", "emit", "MsaRetired", &[], "Event::MsaRetired { msa_id: m.unwrap() }");
    r.only_when("event-only-owner", "emit", "MsaRetired", 1, "m.is_some()");
    for f in ["validate", "pre_dispatch"] {
        let mut r = k.run(P, &format!("SignedExtension for CheckFreeExtrinsicUse::{}", f), &["me", "who", "call", "info", "len"]);
        r.bind("m", "PublicKeyToMsaId::<T>::get(who)");
        r.bind("now", NOW);
        r.bind("retiring", "matches!(call.is_sub_type(), Some(Call::retire_msa {}))");
        r.ok_implies("controls-msa", "!retiring || m.is_some()");
        r.ok_implies("not-a-provider", "!retiring || ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())).is_none()");
        r.ok_implies("handle-retired", "!retiring || T::HandleProvider::get_handle_for_msa(m.unwrap()).is_none()");
        r.ok_implies("one-key-left", "!retiring || PublicKeyCountForMsaId::<T>::get(m.unwrap()) == 1");
        r.ok_implies("no-active-delegation", "!retiring || !DelegatorAndProviderToDelegation::<T>::iter_key_prefix(DelegatorId(m.unwrap())).any(|p| match DelegatorAndProviderToDelegation::<T>::get(DelegatorId(m.unwrap()), p) { Some(i) => i.revoked_at == 0 || i.revoked_at >= now, None => false })");
    }
    // the id of a retired MSA is never handed out again: ids only come from the advancing counter
    writers(k, P, &["CurrentMsaIdentifierMaximum"], &["Pallet::create", "Pallet::create_sponsored_account_with_delegation"]);
}

pub fn offchain(k: &Chk) {
    // every key change leaves exactly one index entry for this block and message
    for (f, who, ent, cond) in [
        ("Pallet::create", "ensure_signed(origin).unwrap()", "IndexedEvent::IndexedMsaCreated { msa_id: CurrentMsaIdentifierMaximum::<T>::get() + 1, key: k }", "true"),
        ("Pallet::create_sponsored_account_with_delegation", "key", "IndexedEvent::IndexedMsaCreated { msa_id: CurrentMsaIdentifierMaximum::<T>::get() + 1, key: k }", "true"),
        ("Pallet::add_public_key_to_msa", "payload.new_public_key", "IndexedEvent::IndexedPublicKeyAdded { msa_id: payload.msa_id, key: k }", "true"),
        ("Pallet::delete_msa_public_key", "victim", "IndexedEvent::IndexedPublicKeyDeleted { msa_id: PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap()).unwrap(), key: k }", "PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap()).is_some()"),
        ("Pallet::retire_msa", "ensure_signed(origin).unwrap()", "IndexedEvent::IndexedPublicKeyDeleted { msa_id: PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap()).unwrap(), key: k }", "PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap()).is_some()"),
    ] {
        let mut r = go(k, f);
        r.bind("k", who);
        r.bind("blk", "{ let b: u32 = frame_system::Pallet::<T>::block_number().try_into().unwrap_or_default(); b }");
        r.bind("n", "OffchainIndexEventCount::<T>::get().saturating_add(1)");
        let key = "[b\"frequency::block_event::msa::\".as_slice(), blk.encode().as_slice(), n.encode().as_slice()].concat()";
        let ck = "[b\"frequency::block_event::msa::count::\".as_slice(), blk.encode().as_slice()].concat()";
        r.ok_does_if("indexed", cond, "call", "offchain_index::set", &[key, &format!("{}.encode()", ent)], "_");
        r.ok_does_if("count-indexed", cond, "call", "offchain_index::set", &[ck, "n.encode()"], "_");
        r.each("only-own-entries", "call", "offchain_index::set", 2, &format!("a0 == {} || a0 == {}", key, ck));
        r.ensures_if("count", cond, "OffchainIndexEventCount::<T>::get()", "n");
        r.only_when("no-entry-without-change", "call", "offchain_index::set", 1, cond);
    }
    writers(k, P, &["OffchainIndexEventCount"], &["Pallet::create", "Pallet::create_sponsored_account_with_delegation", "Pallet::add_public_key_to_msa", "Pallet::delete_msa_public_key", "Pallet::retire_msa", "Pallet::on_initialize"]);
    let mut r = k.run(P, "Hooks for Pallet::on_initialize", &["b"]);
    r.ensures("count-restarts", "OffchainIndexEventCount::<T>::get()", "0");
    r.writes_only("writes", &["OffchainIndexEventCount"]);
    // the worker replays the entries it finds under the same keys into the per-MSA key list
    let old = "cell.get::<Vec<T::AccountId>>().unwrap_or(None).unwrap_or(Vec::default())";
    for (name, e, phi) in [
        ("added", "IndexedEvent::IndexedPublicKeyAdded { msa_id: m, key: k }", "a1.contains(&k)"),
        ("created", "IndexedEvent::IndexedMsaCreated { msa_id: m, key: k }", "a1.contains(&k)"),
        ("deleted", "IndexedEvent::IndexedPublicKeyDeleted { msa_id: m, key: k }", "!a1.contains(&k)"),
    ] {
        let mut r = k.expr(P, &format!("process_offchain_events/{}", name), &[("m", "MessageSourceId"), ("k", "AccountId"), ("other", "AccountId")], &format!("process_offchain_events::<T>(m, vec![{}])", e));
        r.bind_code("cell", "StorageValueRef::persistent(&common_primitives::offchain::get_msa_account_storage_key_name(m))");
        r.bind("old", old);
        r.some_does("applied", "true", "call", "set", &format!("a0 == cell && {}", phi));
        r.each("cell", "call", "set", 1, "a0 == cell");
        if name != "deleted" {
            r.each("not-twice", "call", "set", 1, "!old.contains(&k) || a1 == old");
        }
        r.each("others-kept", "call", "set", 1, "other == k || a1.contains(&other) == old.contains(&other)");
    }
}

/// nothing valid is refused
pub fn accepts(k: &Chk) {
    let count_fits = |m: &str| format!("PublicKeyCountForMsaId::<T>::get({m}).checked_add(1).is_some() && PublicKeyCountForMsaId::<T>::get({m}) < T::MaxPublicKeysPerMsa::get()");
    let registry = |sg: &str, exp: &str| {
        let p = format!("match PayloadSignatureRegistryPointer::<T>::get() {{ Some(q) => q, None => SignatureRegistryPointer {{ newest: {sg}, newest_expires_at: {exp}, oldest: {sg}, count: 0 }} }}");
        [
            format!("{NOW} < {exp} && {exp} < {NOW} + T::MortalityWindowSize::get()"),
            format!("PayloadSignatureRegistryList::<T>::get(&{sg}).is_none()"),
            format!("{{ let p = {p}; !(p.count != 0 && p.newest == {sg}) }}"),
        ]
    };
    let room = |sg: &str, exp: &str| format!("{{ let p = match PayloadSignatureRegistryPointer::<T>::get() {{ Some(q) => q, None => SignatureRegistryPointer {{ newest: {sg}, newest_expires_at: {exp}, oldest: {sg}, count: 0 }} }}; p.count != T::MaxSignaturesStored::get().unwrap_or(0) || matches!(PayloadSignatureRegistryList::<T>::get(&p.oldest), Some((e, _n)) if e < {NOW}) }}");
    let all = |r: &mut Run, parts: &[(&str, String)], extra: &str| {
        for (n, p) in parts {
            r.ok_implies(n, p);
        }
        r.complete(extra);
    };
    let max = "CurrentMsaIdentifierMaximum::<T>::get()";
    let mut r = go(k, "Pallet::create");
    all(&mut r, &[("signed", "ensure_signed(origin).is_ok()".into()), ("unused", "PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap()).is_none()".into()), ("id", format!("{max}.checked_add(1).is_some()")), ("count", count_fits(&format!("({max} + 1)")))], "true");

    let mut r = go(k, "Pallet::add_public_key_to_msa");
    let w = registry("owner_proof", "payload.expiration");
    all(
        &mut r,
        &[
            ("signed", "ensure_signed(origin).is_ok()".into()),
            ("owner-proof", sig("owner_proof", "owner", "payload")),
            ("key-proof", sig("key_proof", "payload.new_public_key", "payload")),
            ("owner", "PublicKeyToMsaId::<T>::get(&owner) == Some(payload.msa_id)".into()),
            ("unused", "PublicKeyToMsaId::<T>::get(&payload.new_public_key).is_none()".into()),
            ("count", count_fits("payload.msa_id")),
            ("window", w[0].clone()),
            ("first-fresh", w[1].clone()),
            ("first-newest", w[2].clone()),
        ],
        &format!("{} && key_proof != owner_proof && PayloadSignatureRegistryList::<T>::get(&key_proof).is_none() && {{ let max = T::MaxSignaturesStored::get().unwrap_or(0); match PayloadSignatureRegistryPointer::<T>::get() {{ None => max > 1, Some(p) => p.count + 1 < max && p.newest != key_proof }} }}", room("owner_proof", "payload.expiration")),
    );

    for (f, victim) in [("Pallet::delete_msa_public_key", "victim"), ("Pallet::retire_msa", "ensure_signed(origin).unwrap()")] {
        let mut r = go(k, f);
        let m = "PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap())";
        all(&mut r, &[("signed", "ensure_signed(origin).is_ok()".into()), ("own-key", format!("{m}.is_none() || PublicKeyToMsaId::<T>::get(&{victim}) == {m}"))], &format!("{m}.is_none() || PublicKeyCountForMsaId::<T>::get({m}.unwrap()) > 0"));
    }
    let known = "T::SchemaValidator::are_all_schema_ids_valid(&payload.schema_ids) && payload.schema_ids.len() <= T::MaxSchemaGrantsPerDelegation::get()";
    // grants: the permission map takes what the bound lets through
    for (f, d) in [("Pallet::grant_delegation", "PublicKeyToMsaId::<T>::get(&key).unwrap()"), ("Pallet::create_sponsored_account_with_delegation", "(CurrentMsaIdentifierMaximum::<T>::get() + 1)")] {
        for n in [0, 1] {
            let ids = if n == 0 { "vec![]" } else { "vec![id]" };
            let mut r = k.run_expr_n(k.ix, P, &format!("{f}/{n}"), &[("origin", "OriginFor<T>"), ("key", "T::AccountId"), ("proof", "MultiSignature"), ("msa", "MessageSourceId"), ("exp", "BlockNumberFor<T>"), ("id", "SchemaId")], &[], &format!("{f}(origin, key, proof, AddProvider {{ authorized_msa_id: msa, expiration: exp, schema_ids: {ids} }})"), 1);
            r.bind("payload", &format!("AddProvider {{ authorized_msa_id: msa, expiration: exp, schema_ids: {ids} }}"));
            let w = registry("proof", "payload.expiration");
            let p = "PublicKeyToMsaId::<T>::get(&ensure_signed(origin).unwrap())";
            let mut parts = vec![
                ("signed", format!("ensure_signed(origin).is_ok() && {p}.is_some()")),
                ("proof", sig("proof", "key", "payload")),
                ("names-provider", format!("payload.authorized_msa_id == {p}.unwrap()")),
                ("registered", format!("ProviderToRegistryEntry::<T>::get(ProviderId({p}.unwrap())).is_some()")),
                ("schemas", known.to_string()),
                ("window", w[0].clone()),
                ("fresh", w[1].clone()),
                ("newest", w[2].clone()),
                ("room", room("proof", "payload.expiration")),
            ];
            if f.contains("grant") {
                parts.push(("delegator", "PublicKeyToMsaId::<T>::get(&key).is_some()".into()));
                parts.push(("other", format!("PublicKeyToMsaId::<T>::get(&key) != {p}")));
            } else {
                parts.push(("unused", "PublicKeyToMsaId::<T>::get(&key).is_none()".into()));
                parts.push(("id", format!("{max}.checked_add(1).is_some()")));
                parts.push(("count", count_fits(d)));
            }
            all(&mut r, &parts, &format!("DelegatorAndProviderToDelegation::<T>::get(DelegatorId({d}), ProviderId({p}.unwrap())).is_none() && {{ let mut m = BoundedBTreeMap::new(); m.try_insert(id, 0).is_ok() }}"));
        }
    }
}

/// the off-chain worker follows the finalized chain
pub fn worker(k: &Chk) {
    let mut r = k.run_with(P, "do_offchain_worker", &["now"], &["get_finalized_block_number", "offchain_index_initial_state", "apply_offchain_events"]);
    r.bind_code("maybe", "get_finalized_block_number::<T>(now)");
    r.bind("fin", "match maybe { Some(x) => x, None => 0 }");
    r.args_are("initial", "call", "offchain_index_initial_state", 1, &["fin"], "_");
    r.only_when("initial-when-final", "call", "offchain_index_initial_state", 1, "maybe.is_some()");
    r.ok_does_if("initial-first", "maybe.is_some()", "call", "offchain_index_initial_state", &["fin"], "_");
    r.bind_code("st", "offchain_index_initial_state::<T>(fin)");
    r.args_are("applied", "call", "apply_offchain_events", 1, &["fin"], "_");
    r.only_when("applied-only", "call", "apply_offchain_events", 1, "maybe.is_some() && st == LockStatus::Released");
    r.ok_does_if("applied-then", "maybe.is_some() && st == LockStatus::Released", "call", "apply_offchain_events", &["fin"], "_");
    r.before("initial-before", "call", "offchain_index_initial_state", "call", "apply_offchain_events");

    let mut r = k.run_with(P, "offchain_index_initial_state", &["now"], &["init_last_processed_block", "process_offchain_events"]);
    r.bind("cell", "StorageValueRef::persistent(b\"Msa::ofw::initial-indexed\")");
    r.bind("locked", "StorageLock::with_block_and_time_deadline(b\"Msa::ofw::initial-index-lock\", 40, Duration::from_millis(3000)).try_lock()");
    r.bind("todo", "locked.is_ok() && !match cell.get::<bool>() { Ok(Some(b)) => b, _ => false }");
    r.returns("reports-lock", "if locked.is_ok() { LockStatus::Released } else { LockStatus::Locked }");
    r.only_when("starts-once", "call", "init_last_processed_block", 1, "todo");
    r.ok_does_if("starts", "todo", "call", "init_last_processed_block", &["now"], "_");
    r.before("starts-first", "call", "init_last_processed_block", "call", "process_offchain_events");
    r.only_when("keys-once", "call", "process_offchain_events", 1, "todo");
    r.each("own-key", "call", "process_offchain_events", 1, "a1 == vec![IndexedEvent::IndexedPublicKeyAdded { key: a1[0].key, msa_id: a0 }]");
    r.args_are("marks", "call", "set", 1, &["cell", "true"], "_");
    r.only_when("marks-once", "call", "set", 1, "todo");
    r.before("marks-last", "call", "process_offchain_events", "call", "set");

    let mut r = k.run(P, "init_last_processed_block", &["now"]);
    r.bind("cell", "StorageValueRef::persistent(b\"Msa::ofw::last-processed-block\")");
    r.ok_does("from-here", "call", "set", &["cell", "now.saturating_sub(1)"], "_");
    r.args_are("only-here", "call", "set", 1, &["cell", "now.saturating_sub(1)"], "_");

    // the finalized block is the newest recent one whose hash is the finalized head's
    let newest = |d: u32| format!("match fetch {{ Ok(h) => now > {d} && now.saturating_sub(1000) < now - {d} && frame_system::Pallet::<T>::block_hash(now - {d}) == h, Err(_) => false }}");
    let mut r = k.run_unrolled(P, "get_finalized_block_number", &["now"], &["fetch_finalized_block_hash"], "true", 2);
    r.bind_code("fetch", "fetch_finalized_block_hash::<T>()");
    r.returns_if("newest", &newest(0), "Some(now)");
    r.returns_if("next-newest", &format!("!({}) && {}", newest(0), newest(1)), "Some(now - 1)");
    r.returns_if("unknown-head", "fetch.is_err()", "None");
    r.returns_if("none-recent", "now == 1 && !(fetch.is_ok() && frame_system::Pallet::<T>::block_hash(now) == match fetch { Ok(h) => h, Err(_) => none })", "None");
    let mut r = k.run_unrolled(P, "get_finalized_block_number", &["now"], &["fetch_finalized_block_hash"], "now <= 2", 3);
    r.ends("search-ends");
    let mut r = k.run(P, "fetch_finalized_block_hash", &[]);
    r.each("asks", "call", "Request::post", 1, "a0 == \"http://localhost:9944\" && a1 == vec![b\"{\\\"id\\\": 10, \\\"jsonrpc\\\": \\\"2.0\\\", \\\"method\\\": \\\"chain_getFinalizedHead\\\", \\\"params\\\": []}\"]");
    r.each("in-json", "call", "add_header", 1, "a1 == \"Content-Type\" && a2 == \"application/json\"");
    r.each("in-time", "call", "Duration::from_millis", 1, "a0 == 2000");
    r.each("answered", "call", "body", 1, "a0.code == 200");
    r.each("without-0x", "panic", "slice", 0, "a1 == 2");

    // every block after the last processed one, up to the finalized one, in order
    for n in [0, 1, 2] {
        let cell = "StorageValueRef::persistent(b\"Msa::ofw::last-processed-block\")";
        let lock = "StorageLock::with_block_and_time_deadline(b\"Msa::ofw::last-processed-block-lock\", 20, Duration::from_millis(5000)).try_lock()";
        let assume = format!("{{ let last: Result<Option<BlockNumberFor<T>>, _> = {cell}.get::<BlockNumberFor<T>>(); match last {{ Ok(Some(b)) => b + {n} == now, _ => false }} }}");
        let mut r = k.run_unrolled(P, "apply_offchain_events", &["now"], &["reverse_map_msa_keys"], &assume, 3);
        r.bind("locked", &format!("{lock}.is_ok()"));
        r.bind("cell", cell);
        if n == 0 {
            r.only_when("not-twice", "call", "reverse_map_msa_keys", 0, "false");
            r.only_when("no-progress", "call", "set", 0, "false");
            continue;
        }
        r.only_when(&format!("under-lock-{n}"), "call", "reverse_map_msa_keys", n, "locked");
        r.each(&format!("in-range-{n}"), "call", "reverse_map_msa_keys", n, &format!("a0 <= now && a0 + {n} > now"));
        r.some_does(&format!("first-{n}"), "locked", "call", "reverse_map_msa_keys", &format!("a0 + {n} == now + 1"));
        r.ends(&format!("ends-{n}"));
        r.bind("extended", &format!("match {lock} {{ Ok(g) => g.extend_lock().is_ok(), Err(_) => false }}"));
        if n == 1 {
            r.bind_code("found", "reverse_map_msa_keys::<T>(now)");
            r.only_when("lock-kept", "call", "set", 1, "extended || !found");
            r.some_does(&format!("caught-up-{n}"), "locked && extended", "call", "set", "a0 == cell && a1 == now");
        }
        r.each(&format!("progress-{n}"), "call", "set", n, &format!("a0 == cell && a1 <= now && a1 + {n} > now"));
    }
    let mut r = k.run_with(P, "apply_offchain_events", &["now"], &["reverse_map_msa_keys"]);
    r.before("then-progress", "call", "reverse_map_msa_keys", "call", "set");
    let mut r = k.run_unrolled(P, "apply_offchain_events", &["now"], &["reverse_map_msa_keys"], "{ let last: Result<Option<BlockNumberFor<T>>, _> = StorageValueRef::persistent(b\"Msa::ofw::last-processed-block\").get::<BlockNumberFor<T>>(); match last { Ok(Some(_)) => false, _ => now <= 5 } }", 6);
    r.some_does("starts", "now > 0 && StorageLock::with_block_and_time_deadline(b\"Msa::ofw::last-processed-block-lock\", 20, Duration::from_millis(5000)).try_lock().is_ok()", "call", "reverse_map_msa_keys", "a0 == 1");
    r.each("recent-blocks", "call", "reverse_map_msa_keys", 1, "a0 <= now && a0 > 0");

    // the events of a block are read, replayed and then cleared
    let count = "StorageValueRef::persistent(&[b\"frequency::block_event::msa::count::\".as_slice(), blk.encode().as_slice()].concat()).get::<u16>()";
    let entry = |i: u32| format!("[b\"frequency::block_event::msa::\".as_slice(), b.encode().as_slice(), {i}u16.encode().as_slice()].concat()");
    for n in [0u32, 1, 2] {
        let assume = format!("{{ let blk: u32 = b.try_into().unwrap_or_default(); match {count} {{ Ok(Some(n)) => n == {n}, _ => false }} }}");
        let mut r = k.run_unrolled(P, "clean_offchain_events", &["b"], &[], &assume, 3);
        r.bind("blk", "{ let blk: u32 = b.try_into().unwrap_or_default(); blk }");
        let ck = "[b\"frequency::block_event::msa::count::\".as_slice(), blk.encode().as_slice()].concat()";
        r.ok_does(&format!("count-cleared-{n}"), "call", "offchain_index::clear", &[ck], "_");
        let mut only = format!("a0 == {ck}");
        for i in 1..=n {
            r.ok_does(&format!("cleared-{i}-of-{n}"), "call", "offchain_index::clear", &[&entry(i)], "_");
            only += &format!(" || a0 == {}", entry(i));
        }
        r.each(&format!("cleared-only-{n}"), "call", "offchain_index::clear", 1, &only);
    }
    let ev = |i: u32| format!("match StorageValueRef::persistent({}).get::<IndexedEvent<T>>() {{ Ok(Some(e)) => Some(e), _ => None }}", entry(i));
    let id = |e: &str| format!("match {e} {{ IndexedEvent::IndexedPublicKeyAdded {{ msa_id, .. }} => msa_id, IndexedEvent::IndexedMsaCreated {{ msa_id, .. }} => msa_id, IndexedEvent::IndexedPublicKeyDeleted {{ msa_id, .. }} => msa_id }}");
    for n in [0u32, 1, 2] {
        let mut assume = format!("{{ let blk: u32 = b.try_into().unwrap_or_default(); match {count} {{ Ok(Some(n)) => n == {n}, _ => false }} }}");
        for i in 1..=n {
            assume += &format!(" && match {} {{ Some(_) => true, None => false }}", ev(i));
        }
        let mut r = k.run_unrolled(P, "reverse_map_msa_keys", &["b"], &["process_offchain_events", "clean_offchain_events"], &assume, 3);
        r.ends(&format!("replay-ends-{n}"));
        for i in 1..=n {
            r.bind(&format!("e{i}"), &format!("match {} {{ Some(e) => e, None => none }}", ev(i)));
            r.bind(&format!("m{i}"), &id(&format!("e{i}")));
        }
        r.returns(&format!("any-{n}"), if n == 0 { "false" } else { "true" });
        match n {
            0 => {
                r.only_when("none-replayed", "call", "process_offchain_events", 0, "false");
            }
            1 => {
                r.args_are("one-replayed", "call", "process_offchain_events", 1, &["m1", "vec![e1]"], "_");
                r.some_does("one-replay", "true", "call", "process_offchain_events", "a0 == m1");
            }
            _ => {
                r.some_does("same-together", "m1 == m2", "call", "process_offchain_events", "a0 == m1 && a1 == vec![e1, e2]");
                r.some_does("other-first", "m1 != m2", "call", "process_offchain_events", "a0 == m1 && a1 == vec![e1]");
                r.some_does("other-second", "m1 != m2", "call", "process_offchain_events", "a0 == m2 && a1 == vec![e2]");
                r.each("nothing-else", "call", "process_offchain_events", 2, "a0 == m1 && m1 == m2 && a1 == vec![e1, e2] || a0 == m1 && m1 != m2 && a1 == vec![e1] || a0 == m2 && m1 != m2 && a1 == vec![e2]");
            }
        }
    }
    let mut r = k.run_with(P, "reverse_map_msa_keys", &["b"], &["read_offchain_events", "process_offchain_events", "clean_offchain_events"]);
    r.bind_code("found", "read_offchain_events::<T>(b)");
    r.returns("any-found", "!found.is_empty()");
    r.ok_does_if("cleared", "!found.is_empty()", "call", "clean_offchain_events", &["b"], "_");
    r.only_when("cleared-only", "call", "clean_offchain_events", 1, "!found.is_empty()");
    r.args_are("own-block", "call", "clean_offchain_events", 1, &["b"], "_");
    r.before("replayed-first", "call", "process_offchain_events", "call", "clean_offchain_events");
}
