//! What a successful call announces: exactly the events that describe what it did, each once.
use super::*;

pub fn announced(k: &Chk) {
    msa(k);
    let p = "pallet-handles";
    let owner = "T::MsaInfoProvider::ensure_valid_msa_key(&key).unwrap()";
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(p, f, &["origin", "key", "proof", "payload"]);
        handles::claim_binds(&mut r);
        r.bind("display", handles::DISPLAY);
        let claimed = format!("Event::HandleClaimed {{ msa_id: {owner}, handle: display }}");
        let retired = format!("Event::HandleRetired {{ msa_id: {owner}, handle: MSAIdToDisplayName::<T>::get({owner}).unwrap().0 }}");
        if f.ends_with("claim_handle") {
            r.announces(&[("HandleClaimed", "true", &claimed)]);
        } else {
            r.announces(&[("HandleClaimed", "true", &claimed), ("HandleRetired", "true", &retired)]);
        }
    }
    let mut r = k.run(p, "Pallet::retire_handle", &["origin"]);
    r.bind("m", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).unwrap()");
    r.announces(&[("HandleRetired", "true", "Event::HandleRetired { msa_id: m, handle: MSAIdToDisplayName::<T>::get(m).unwrap().0 }")]);
    let p = "pallet-messages";
    for f in ["Pallet::add_ipfs_message", "Pallet::add_onchain_message"] {
        let mut r = k.run(p, f, &[]);
        r.announces(&[("MessagesInBlock", "BlockMessageIndex::<T>::get() == 0", "Event::MessagesInBlock")]);
    }
    schemas(k);
    for e in stateful::ENTRIES {
        let mut r = stateful::go(k, e);
        match e.op {
            'D' => r.announces(&[("PaginatedPageDeleted", "raw.is_some()", "Event::PaginatedPageDeleted { msa_id: owner, schema_id: schema, page_id: pid, prev_content_hash: Page::get_hash(&page) }")]),
            'U' => {
                r.bind("new", "Page { nonce: page.nonce.wrapping_add(1), data: body }");
                r.announces(&[("PaginatedPageUpdated", "true", "Event::PaginatedPageUpdated { msa_id: owner, schema_id: schema, page_id: pid, prev_content_hash: Page::get_hash(&page), curr_content_hash: Page::get_hash(&new) }")])
            }
            _ => {
                r.bind("body", "Page::apply_item_actions(&page, &actions[..]).unwrap().data");
                r.bind("new", "Page { nonce: page.nonce.wrapping_add(1), data: body }");
                r.announces(&[
                    ("ItemizedPageUpdated", "!body.is_empty()", "Event::ItemizedPageUpdated { msa_id: owner, schema_id: schema, prev_content_hash: Page::get_hash(&page), curr_content_hash: Page::get_hash(&new) }"),
                    ("ItemizedPageDeleted", "body.is_empty()", "Event::ItemizedPageDeleted { msa_id: owner, schema_id: schema, prev_content_hash: Page::get_hash(&page) }"),
                ])
            }
        };
    }
    let p = "pallet-time-release";
    let now = "T::BlockNumberProvider::current_block_number()";
    let frozen = format!("s.per_period * (s.period_count.saturating_sub({now}.saturating_sub(s.start) / s.period))");
    for (f, params, who) in [("Pallet::claim", &["origin"][..], "ensure_signed(origin).unwrap()"), ("Pallet::claim_for", &["origin", "dest"][..], "T::Lookup::lookup(dest).unwrap()")] {
        let mut r = k.run(p, f, params);
        r.announces(&[("Claimed", "true", &format!("Event::Claimed {{ who: {who}, amount: {{ let mut v = ReleaseSchedules::<T>::get(&{who}); v.retain(|s| {frozen} != 0); v.iter().fold(0, |a, s| a + {frozen}) }} }}"))]);
    }
    let mut r = k.run(p, "Pallet::transfer", &["origin", "dest", "schedule"]);
    r.announces(&[("ReleaseScheduleAdded", "true", "Event::ReleaseScheduleAdded { from: T::TransferOrigin::ensure_origin(origin).unwrap(), to: T::Lookup::lookup(dest).unwrap(), release_schedule: schedule }")]);
    let mut r = k.run(p, "Pallet::update_release_schedules", &["origin", "who", "schedules"]);
    r.announces(&[("ReleaseSchedulesUpdated", "true", "Event::ReleaseSchedulesUpdated { who: T::Lookup::lookup(who).unwrap() }")]);
    let p = "pallet-capacity";
    for (f, params, ev) in [("Pallet::stake", &["origin", "target", "amount"][..], "Staked"), ("Pallet::unstake", &["origin", "target", "asked"][..], "UnStaked"), ("Pallet::withdraw_unstaked", &["origin"][..], "StakeWithdrawn")] {
        let mut r = k.run(p, f, params);
        r.announces(&[(ev, "true", "_")]);
    }
    let mut r = k.run(p, "Pallet::set_epoch_length", &["origin", "n"]);
    r.announces(&[("EpochLengthUpdated", "true", "Event::EpochLengthUpdated { blocks: n }")]);
    let mut r = k.run(p, "Pallet::deduct", &["msa", "amount"]);
    r.announces(&[("CapacityWithdrawn", "true", "Event::CapacityWithdrawn { msa_id: msa, amount: amount }")]);
    let mut r = k.run("pallet-passkey", "Pallet::proxy", &["origin", "payload"]);
    r.announces(&[("TransactionExecutionSuccess", "true", "Event::TransactionExecutionSuccess { account_id: payload.passkey_call.account_id }")]);
}

fn msa(k: &Chk) {
    let p = "pallet-msa";
    let who = "ensure_signed(origin).unwrap()";
    let mine = format!("PublicKeyToMsaId::<T>::get(&{who})");
    let new = "(CurrentMsaIdentifierMaximum::<T>::get() + 1)";
    let run = |f: &str| k.run(p, f, &msa::params(f));
    run("Pallet::create").announces(&[("MsaCreated", "true", &format!("Event::MsaCreated {{ msa_id: {new}, key: {who} }}"))]);
    run("Pallet::create_sponsored_account_with_delegation").announces(&[
        ("MsaCreated", "true", &format!("Event::MsaCreated {{ msa_id: {new}, key: key }}")),
        ("DelegationGranted", "true", &format!("Event::DelegationGranted {{ delegator_id: DelegatorId({new}), provider_id: ProviderId({mine}.unwrap()) }}")),
    ]);
    run("Pallet::grant_delegation").announces(&[("DelegationGranted", "true", &format!("Event::DelegationGranted {{ delegator_id: DelegatorId(PublicKeyToMsaId::<T>::get(&key).unwrap()), provider_id: ProviderId({mine}.unwrap()) }}"))]);
    run("Pallet::add_public_key_to_msa").announces(&[("PublicKeyAdded", "true", "Event::PublicKeyAdded { msa_id: payload.msa_id, key: payload.new_public_key }")]);
    run("Pallet::delete_msa_public_key").announces(&[("PublicKeyDeleted", &format!("{mine}.is_some()"), "Event::PublicKeyDeleted { key: victim }")]);
    run("Pallet::retire_msa").announces(&[
        ("PublicKeyDeleted", &format!("{mine}.is_some()"), &format!("Event::PublicKeyDeleted {{ key: {who} }}")),
        ("MsaRetired", &format!("{mine}.is_some()"), &format!("Event::MsaRetired {{ msa_id: {mine}.unwrap() }}")),
    ]);
    run("Pallet::revoke_delegation_by_delegator").announces(&[("DelegationRevoked", &format!("{mine}.is_some()"), &format!("Event::DelegationRevoked {{ delegator_id: DelegatorId({mine}.unwrap()), provider_id: ProviderId(provider) }}"))]);
    run("Pallet::revoke_delegation_by_provider").announces(&[("DelegationRevoked", &format!("{mine}.is_some()"), &format!("Event::DelegationRevoked {{ delegator_id: DelegatorId(delegator), provider_id: ProviderId({mine}.unwrap()) }}"))]);
    run("Pallet::revoke_schema_permissions").announces(&[("DelegationUpdated", "true", &format!("Event::DelegationUpdated {{ delegator_id: DelegatorId({mine}.unwrap()), provider_id: ProviderId(provider) }}"))]);
    run("Pallet::create_provider").announces(&[("ProviderCreated", "true", &format!("Event::ProviderCreated {{ provider_id: ProviderId({mine}.unwrap()) }}"))]);
    run("Pallet::create_provider_via_governance").announces(&[("ProviderCreated", "true", "Event::ProviderCreated { provider_id: ProviderId(PublicKeyToMsaId::<T>::get(&key).unwrap()) }")]);
}

fn schemas(k: &Chk) {
    let p = "pallet-schemas";
    let new = "(CurrentSchemaIdentifierMaximum::<T>::get() + 1)";
    for e in schemas::CREATE {
        let mut r = k.run(p, e.0, e.1);
        let who = if e.2 == "g" { "key" } else { "ensure_signed(origin).unwrap()" };
        let created = format!("Event::SchemaCreated {{ key: {who}, schema_id: {new} }}");
        let mut want = vec![("SchemaCreated", "true", created.as_str())];
        let named = format!("Event::SchemaNameCreated {{ schema_id: {new}, name: full }}");
        if e.1.contains(&"name") {
            r.bind_code("full", "match SchemaName::try_parse::<T>(name.unwrap(), true) { Ok(n) => n.get_combined_name(), Err(_) => panic!() }");
            want.push(("SchemaNameCreated", "name.is_some()", named.as_str()));
        }
        r.announces(&want);
    }
    let mut r = k.run(p, "Pallet::create_schema_name_via_governance", &["origin", "id", "name"]);
    r.bind_code("full", "match SchemaName::try_parse::<T>(name, true) { Ok(n) => n.get_combined_name(), Err(_) => panic!() }");
    r.announces(&[("SchemaNameCreated", "true", "Event::SchemaNameCreated { schema_id: id, name: full }")]);
    let mut r = k.run(p, "Pallet::set_max_schema_model_bytes", &["origin", "n"]);
    r.announces(&[("SchemaMaxSizeChanged", "true", "Event::SchemaMaxSizeChanged { max_size: n }")]);
}
