//! Nothing beyond the published conditions is required: a call that meets them succeeds.
use super::*;

fn all(r: &mut Run, parts: &[(&str, String)], extra: &str) {
    for (n, p) in parts {
        r.ok_implies(n, p);
    }
    r.complete(extra);
}

pub fn content(k: &Chk) {
    handles(k);
    messages(k);
    schemas(k);
}

fn handles(k: &Chk) {
    let p = "pallet-handles";
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(p, f, &["origin", "key", "proof", "payload"]);
        handles::claim_binds(&mut r);
        r.bind("display", handles::DISPLAY);
        for (n, phi) in handles::VALID {
            r.ok_implies(n, phi);
        }
        let mut parts: Vec<(&str, String)> = vec![
            ("signed", "ensure_signed(origin).is_ok()".into()),
            ("key-owns-msa", "T::MsaInfoProvider::ensure_valid_msa_key(&key).is_ok()".into()),
            ("window", "block_number() < payload.expiration && payload.expiration < block_number() + T::MortalityWindowSize::get()".into()),
            ("signature", "proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key.clone()))".into()),
            ("index", "match cur { None => true, Some((c, m)) => m != T::HandleSuffixMin::get() || c.checked_add(1).is_some() }".into()),
            ("suffix-left", "generate_unique_suffixes(T::HandleSuffixMin::get(), T::HandleSuffixMax::get(), &canon).nth(idx as usize).is_some()".into()),
            ("display-fits", "DisplayHandle::try_from(display).is_ok()".into()),
        ];
        if f.ends_with("claim_handle") {
            parts.push(("no-handle-yet", "MSAIdToDisplayName::<T>::get(msa).is_none()".into()));
            all(&mut r, &parts, "true");
        } else {
            parts.push(("has-handle", "MSAIdToDisplayName::<T>::get(msa).is_some()".into()));
            r.bind("shown", "core::str::from_utf8(&MSAIdToDisplayName::<T>::get(msa).unwrap().0)");
            all(&mut r, &parts, "shown.is_ok() && split_display_name(shown.unwrap()).is_some()");
        }
    }
}

fn messages(k: &Chk) {
    let p = "pallet-messages";
    let info = "T::SchemaProvider::get_schema_info_by_id(schema_id)";
    let base = |loc: &str| {
        vec![
            ("signed", "ensure_signed(origin).is_ok()".to_string()),
            ("has-msa", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).is_ok()".into()),
            ("schema", format!("match {info} {{ Some(s) => s.payload_location == PayloadLocation::{loc}, None => false }}")),
            ("room", "BlockMessageIndex::<T>::get().checked_add(1).is_some()".into()),
        ]
    };
    let mut r = k.run(p, "Pallet::add_ipfs_message", &["origin", "schema_id", "cid", "payload_length"]);
    r.bind("s", "sp_std::str::from_utf8(&cid[..]).unwrap()");
    r.bind("b", "multibase::decode(s).unwrap().1");
    let mut v = base("IPFS");
    v.push(("cid", "sp_std::str::from_utf8(&cid[..]).is_ok() && s.len() > 2 && !s.starts_with(\"Qm\") && multibase::decode(s).is_ok() && Cid::read_bytes(&b[..]).is_ok()".into()));
    v.push(("size", "BoundedVec::<u8, T::MessagesMaxPayloadSizeBytes>::try_from((b, payload_length).encode()).is_ok()".into()));
    all(&mut r, &v, "true");
    let mut r = k.run(p, "Pallet::add_onchain_message", &["origin", "behalf", "schema_id", "payload"]);
    r.bind("prov", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).unwrap()");
    let mut v = base("OnChain");
    v.push(("size", "BoundedVec::<u8, T::MessagesMaxPayloadSizeBytes>::try_from(payload.clone()).is_ok()".into()));
    v.push(("granted", "behalf.is_none() || T::SchemaGrantValidator::ensure_valid_schema_grant(ProviderId(prov), DelegatorId(behalf.unwrap()), schema_id, frame_system::Pallet::<T>::block_number()).is_ok()".into()));
    all(&mut r, &v, "true");
}

fn schemas(k: &Chk) {
    let p = "pallet-schemas";
    for e in schemas::CREATE {
        let mut r = k.run(p, e.0, e.1);
        let has = |x: &str| e.1.contains(&x);
        let mut v: Vec<(&str, String)> = vec![
            ("origin", if e.2 == "g" { "T::CreateSchemaViaGovernanceOrigin::ensure_origin(origin).is_ok()" } else { "ensure_signed(origin).is_ok()" }.into()),
            ("size", "model.len() >= T::MinSchemaModelSizeBytes::get() as usize && model.len() <= GovernanceSchemaModelMaxBytes::<T>::get() as usize".into()),
            ("parquet-model", "mtype != ModelType::Parquet || serde_json::from_slice::<ParquetModel>(&model).is_ok()".into()),
            ("avro-model", "mtype != ModelType::AvroBinary || (match from_slice::<Value>(&model) { Ok(Value::Object(_)) => true, _ => false })".into()),
            ("id", "CurrentSchemaIdentifierMaximum::<T>::get().checked_add(1).is_some()".into()),
        ];
        if has("settings") {
            v.push(("append-only", "!settings.contains(&SchemaSetting::AppendOnly) || loc == PayloadLocation::Itemized".into()));
        }
        if has("name") {
            r.bind_code("n", "match SchemaName::try_parse::<T>(name.unwrap(), true) { Ok(n) => n, Err(_) => panic!() }");
            r.bind_code("parse_ok", "SchemaName::try_parse::<T>(name.unwrap(), true).is_ok()");
            r.bind("sid", "(CurrentSchemaIdentifierMaximum::<T>::get() + 1)");
            r.bind("old", "SchemaNameToIds::<T>::get(&n.namespace, &n.descriptor)");
            v.push(("name", "name.is_none() || parse_ok".into()));
            v.push(("version", "name.is_none() || !parse_ok || (!old.ids.contains(&sid) && { let mut v = old.ids.clone(); v.try_push(sid).is_ok() })".into()));
        }
        all(&mut r, &v, "true");
    }
    for (f, ps, call) in [
        ("Pallet::propose_to_create_schema", &["origin", "model", "mtype", "loc", "settings"][..], "Call::create_schema_via_governance { creator_key: ensure_signed(origin).unwrap(), model: model, model_type: mtype, payload_location: loc, settings: settings }"),
        ("Pallet::propose_to_create_schema_v2", &["origin", "model", "mtype", "loc", "settings", "name"][..], "Call::create_schema_via_governance_v2 { creator_key: ensure_signed(origin).unwrap(), model: model, model_type: mtype, payload_location: loc, settings: settings, schema_name: name }"),
    ] {
        let mut r = k.run(p, f, ps);
        all(&mut r, &[("signed", "ensure_signed(origin).is_ok()".into())], &format!("T::ProposalProvider::propose_with_simple_majority(ensure_signed(origin).unwrap(), {call}).is_ok()"));
    }
    for f in ["Pallet::create_schema_name_via_governance", "Pallet::propose_to_create_schema_name"] {
        let mut r = k.run(p, f, &["origin", "id", "name"]);
        r.bind_code("n", "match SchemaName::try_parse::<T>(name, true) { Ok(n) => n, Err(_) => panic!() }");
        r.bind_code("parse_ok", "SchemaName::try_parse::<T>(name, true).is_ok()");
        r.bind("old", "SchemaNameToIds::<T>::get(&n.namespace, &n.descriptor)");
        let mut v: Vec<(&str, String)> = vec![("unnamed", "match SchemaInfos::<T>::get(id) { Some(i) => !i.has_name, None => false }".into()), ("name", "parse_ok".into())];
        if f.contains("governance") {
            v.push(("origin", "T::CreateSchemaViaGovernanceOrigin::ensure_origin(origin).is_ok()".into()));
            v.push(("version", "!old.ids.contains(&id) && { let mut v = old.ids.clone(); v.try_push(id).is_ok() }".into()));
            all(&mut r, &v, "true");
        } else {
            v.push(("origin", "ensure_signed(origin).is_ok()".into()));
            all(&mut r, &v, "T::ProposalProvider::propose_with_simple_majority(ensure_signed(origin).unwrap(), Call::create_schema_name_via_governance { schema_id: id, schema_name: name }).is_ok()");
        }
    }
    let mut r = k.run(p, "Pallet::set_max_schema_model_bytes", &["origin", "n"]);
    all(&mut r, &[("root", "ensure_root(origin).is_ok()".into()), ("limit", "n <= T::SchemaModelMaxBytesBoundedVecLimit::get()".into())], "true");
}

pub fn pages(k: &Chk) {
    for e in stateful::ENTRIES {
        let mut r = stateful::go(k, e);
        r.bind("info", "T::SchemaProvider::get_schema_info_by_id(schema)");
        let loc = if e.op == 'I' { "Itemized" } else { "Paginated" };
        let mut v: Vec<(&str, String)> = vec![
            (
                "authorised",
                match e.auth {
                    stateful::Auth::Direct => "ensure_signed(origin).is_ok() && caller.is_ok() && (caller.unwrap() == owner || T::SchemaGrantValidator::ensure_valid_schema_grant(ProviderId(caller.unwrap()), DelegatorId(owner), schema, now).is_ok())",
                    stateful::Auth::Signed => "ensure_signed(origin).is_ok() && holder.is_ok() && owner == payload.msa_id && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key))",
                    stateful::Auth::SignedV2 => "ensure_signed(origin).is_ok() && holder.is_ok() && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key))",
                }
                .into(),
            ),
            ("schema", format!("match info {{ Some(s) => s.payload_location == PayloadLocation::{loc}, None => false }}")),
            ("readable", "readable".into()),
        ];
        if e.auth == stateful::Auth::Direct {
            v.push(("signature-required", "match info { Some(s) => !s.settings.contains(&SchemaSetting::SignatureRequired) || caller.unwrap() == owner, None => false }".into()));
        } else {
            v.push(("window", "payload.expiration > now && payload.expiration < now + T::MortalityWindowSize::get().into()".into()));
        }
        if e.op != 'I' {
            v.push(("page-id", "pid <= T::MaxPaginatedPageId::get()".into()));
        }
        let fresh = "target == Page::get_hash(&page)";
        match e.op {
            'D' => {
                v.push(("append-only", "match info { Some(s) => !s.settings.contains(&SchemaSetting::AppendOnly), None => false }".into()));
                v.push(("fresh", format!("raw.is_none() || {fresh}")));
            }
            'I' => {
                v.push(("append-only", "match info { Some(s) => !s.settings.contains(&SchemaSetting::AppendOnly) || !actions.iter().any(|a| matches!(a, ItemAction::Delete { .. })), None => false }".into()));
                v.push(("fresh", fresh.into()));
                v.push(("applies", "Page::apply_item_actions(&page, &actions[..]).is_ok()".into()));
            }
            _ => v.push(("fresh", fresh.into())),
        }
        all(&mut r, &v, "true");
    }
}

pub fn tokens(k: &Chk) {
    time_release(k);
    capacity(k);
}

fn time_release(k: &Chk) {
    let p = "pallet-time-release";
    let now = "T::BlockNumberProvider::current_block_number()";
    let left = format!("s.per_period * (s.period_count.saturating_sub({now}.saturating_sub(s.start) / s.period))");
    let kept = |who: &str| format!("{{ let mut v = ReleaseSchedules::<T>::get(&{who}); v.retain(|s| {left} != 0); v }}");
    let lk = "T::Lookup::lookup";
    let mut r = k.run(p, "Pallet::transfer", &["origin", "dest", "schedule"]);
    r.bind("from", "T::TransferOrigin::ensure_origin(origin).unwrap()");
    r.bind("to", "T::Lookup::lookup(dest).unwrap()");
    r.bind("total", "schedule.per_period * schedule.period_count");
    r.bind("old", &kept("to"));
    r.bind("locked", &format!("old.iter().fold(0, |a, s| a + {left})"));
    all(
        &mut r,
        &[
            ("origin", "T::TransferOrigin::ensure_origin(origin).is_ok()".into()),
            ("valid", time_release::valid("schedule")),
            ("own-funds", "to != from || T::Currency::balance(&from) >= total".into()),
            ("no-overflow", "locked.checked_add(total).is_some()".into()),
            ("fits", "{ let mut v = old.clone(); v.try_push(schedule).is_ok() }".into()),
        ],
        &format!("{lk}(dest).is_ok() && T::Currency::transfer(&from, &to, total, Preservation::Expendable).is_ok() && T::Currency::set_freeze(&FreezeReason::TimeReleaseVesting.into(), &to, locked + total).is_ok()"),
    );
    for (f, params, who, looked) in [("Pallet::claim", &["origin"][..], "ensure_signed(origin).unwrap()", "true"), ("Pallet::claim_for", &["origin", "dest"][..], "T::Lookup::lookup(dest).unwrap()", "T::Lookup::lookup(dest).is_ok()")] {
        let mut r = k.run(p, f, params);
        r.bind("who", who);
        r.bind("locked", &format!("{}.iter().fold(0, |a, s| a + {left})", kept("who")));
        all(
            &mut r,
            &[("signed", "ensure_signed(origin).is_ok()".into())],
            &format!("{looked} && (if locked == 0 {{ T::Currency::thaw(&FreezeReason::TimeReleaseVesting.into(), &who).is_ok() }} else {{ T::Currency::set_freeze(&FreezeReason::TimeReleaseVesting.into(), &who, locked).is_ok() }})"),
        );
    }
    let mut r = k.run(p, "Pallet::update_release_schedules", &["origin", "who", "schedules"]);
    r.bind("acct", "T::Lookup::lookup(who).unwrap()");
    r.bind("total", "schedules.iter().fold(0, |a, s| a + s.per_period * s.period_count)");
    all(
        &mut r,
        &[
            ("root", "ensure_root(origin).is_ok()".into()),
            ("valid", format!("schedules.iter().all(|s| {})", time_release::valid("s"))),
            ("funded", "schedules.len() == 0 || T::Currency::balance(&acct) >= total".into()),
            ("bounded", "BoundedVec::<ReleaseScheduleOf<T>, T::MaxReleaseSchedules>::try_from(schedules.clone()).is_ok()".into()),
        ],
        &format!("{lk}(who).is_ok() && schedules.iter().try_fold(0, |a, s| a.checked_add(s.per_period * s.period_count).ok_or(1)).is_ok() && (if schedules.len() == 0 {{ T::Currency::thaw(&FreezeReason::TimeReleaseVesting.into(), &acct).is_ok() }} else {{ T::Currency::set_freeze(&FreezeReason::TimeReleaseVesting.into(), &acct, total).is_ok() }})"),
    );
}

fn capacity(k: &Chk) {
    let p = "pallet-capacity";
    let mut r = k.run(p, "Pallet::stake", &["origin", "target", "amount"]);
    capacity::stake_binds(&mut r);
    all(
        &mut r,
        &[
            ("signed", "ensure_signed(origin).is_ok()".into()),
            ("nonzero", "amount > 0".into()),
            ("target", "T::TargetValidator::validate(target)".into()),
            ("balance", "put > 0".into()),
            ("minimum", "active + put >= T::MinimumStakingAmount::get()".into()),
            ("fits", "put.checked_add(active).is_some() && put.checked_add(tgt.amount).is_some() && cap.checked_add(tgt.capacity).is_some() && put.checked_add(led.total_tokens_staked).is_some() && cap.checked_add(led.remaining_capacity).is_some() && cap.checked_add(led.total_capacity_issued).is_some() && locked.checked_add(active + put).is_some()".into()),
        ],
        "T::Currency::set_freeze(&FreezeReason::CapacityStaking.into(), &who, active + put + locked).is_ok()",
    );
    let mut r = k.run(p, "Pallet::unstake", &["origin", "target", "asked"]);
    capacity::unstake_binds(&mut r);
    all(
        &mut r,
        &[
            ("signed", "ensure_signed(origin).is_ok()".into()),
            ("nonzero", "asked > 0".into()),
            ("stake", "had && asked <= active".into()),
            ("target", "StakingTargetLedger::<T>::get(&who, target).is_some() && out <= tgt.amount".into()),
            ("ledger", "CapacityLedger::<T>::get(target).is_some()".into()),
            ("chunk-fits", "{ let mut v = old.clone(); v.try_push(chunk).is_ok() }".into()),
        ],
        "true",
    );
    let mut r = k.run(p, "Pallet::withdraw_unstaked", &["origin"]);
    capacity::withdraw_binds(&mut r);
    all(
        &mut r,
        &[("signed", "ensure_signed(origin).is_ok()".into()), ("chunks", "UnstakeUnlocks::<T>::get(&who).is_some()".into()), ("thawed", "reaped > 0".into())],
        "if total == 0 { T::Currency::thaw(&FreezeReason::CapacityStaking.into(), &who).is_ok() } else { T::Currency::set_freeze(&FreezeReason::CapacityStaking.into(), &who, total).is_ok() }",
    );
    let mut r = k.run(p, "Pallet::set_epoch_length", &["origin", "n"]);
    all(&mut r, &[("root", "ensure_root(origin).is_ok()".into()), ("limit", "n <= T::MaxEpochLength::get()".into())], "true");
}

/// the checks before inclusion let every transaction through that meets their conditions
pub fn pool(k: &Chk) {
    let now = "frame_system::Pallet::<T>::block_number()";
    let live = |d: &str, p: &str| format!("m.is_some() && match DelegatorAndProviderToDelegation::<T>::get(DelegatorId({d}), ProviderId({p})) {{ Some(i) => i.revoked_at == 0 || i.revoked_at >= now, None => false }}", d = d, p = p);
    for f in ["validate", "pre_dispatch"] {
        let mut r = k.run("pallet-msa", &format!("SignedExtension for CheckFreeExtrinsicUse::{}", f), &["me", "who", "call", "info", "len"]);
        r.bind("m", "PublicKeyToMsaId::<T>::get(who)");
        r.bind("now", now);
        r.ok_iff(&[(
            "free-call",
            &format!(
                "match call.is_sub_type() {{ \
                 Some(Call::revoke_delegation_by_provider {{ delegator }}) => {}, \
                 Some(Call::revoke_delegation_by_delegator {{ provider_msa_id }}) => {}, \
                 Some(Call::delete_msa_public_key {{ public_key_to_delete }}) => m.is_some() && who != public_key_to_delete && PublicKeyToMsaId::<T>::get(public_key_to_delete) == m, \
                 Some(Call::retire_msa {{}}) => m.is_some() && ProviderToRegistryEntry::<T>::get(ProviderId(m.unwrap())).is_none() && T::HandleProvider::get_handle_for_msa(m.unwrap()).is_none() && PublicKeyCountForMsaId::<T>::get(m.unwrap()) == 1 && !DelegatorAndProviderToDelegation::<T>::iter_key_prefix(DelegatorId(m.unwrap())).any(|p| match DelegatorAndProviderToDelegation::<T>::get(DelegatorId(m.unwrap()), p) {{ Some(i) => i.revoked_at == 0 || i.revoked_at >= now, None => false }}), \
                 _ => true }}",
                live("*delegator", "m.unwrap()"),
                live("m.unwrap()", "*provider_msa_id")
            ),
        )]);
        if f == "validate" {
            for (c, pat, tag) in [
                ("by-provider", "revoke_delegation_by_provider { delegator }", "ProviderDelegationRevocation"),
                ("by-delegator", "revoke_delegation_by_delegator { provider_msa_id }", "DelegatorDelegationRevocation"),
                ("delete-key", "delete_msa_public_key { public_key_to_delete }", "KeyRevocation"),
                ("retire", "retire_msa {}", "MSARetirement"),
            ] {
                r.ok_value(&format!("one-at-a-time/{}", c), &format!("match call.is_sub_type() {{ Some(Call::{}) => true, _ => false }}", pat), &format!("ValidTransaction::with_tag_prefix(\"{}\").and_provides(who).build().unwrap()", tag));
            }
        }
    }
    for f in ["validate", "pre_dispatch"] {
        let mut r = k.run("pallet-handles", &format!("SignedExtension for HandlesSignedExtension::{}", f), &["me", "who", "call", "info", "len"]);
        r.bind("retiring", "match call.is_sub_type() { Some(Call::retire_handle {}) => true, _ => false }");
        r.bind("m", "T::MsaInfoProvider::ensure_valid_msa_key(who)");
        r.ok_iff(&[("free-retire", &format!("!retiring || (m.is_ok() && match MSAIdToDisplayName::<T>::get(m.unwrap()) {{ Some(h) => {} >= h.1, None => false }})", now))]);
    }
    for f in ["validate", "pre_dispatch"] {
        let mut r = k.run("pallet-frequency-tx-payment", &format!("ChargeFrqTransactionPayment::{}", f), &["self_", "who", "call", "info", "len"]);
        crate::rules::payment::charge(&mut r);
        r.complete("true");
    }
    let mut r = k.run("pallet-passkey", "Pallet::pre_dispatch", &["call"]);
    crate::rules::passkey::checks(&mut r, "p.passkey_call.account_nonce == nonce");
    r.complete("true");
    let mut r = k.run("pallet-passkey", "Pallet::validate_unsigned", &["source", "call"]);
    crate::rules::passkey::checks(&mut r, "p.passkey_call.account_nonce >= nonce");
    r.complete("true");
    // what was let through runs: nothing else stands between the fee and the call
    let mut r = k.run("pallet-passkey", "Pallet::proxy", &["origin", "payload"]);
    r.ok_iff(&[("runs", "ensure_none(origin).is_ok() && payload.passkey_call.call.dispatch(RawOrigin::Signed(payload.passkey_call.account_id)).is_ok()")]);
    let mut r = k.run("pallet-frequency-tx-payment", "Pallet::pay_with_capacity", &["origin", "call"]);
    r.ok_iff(&[("runs", "ensure_signed(origin.clone()).is_ok() && call.dispatch(origin).is_ok()")]);
    let mut r = k.run("pallet-frequency-tx-payment", "Pallet::pay_with_capacity_batch_all", &["origin", "calls"]);
    r.ok_iff(&[("runs", "ensure_signed(origin.clone()).is_ok() && calls.len() as u32 <= T::MaximumCapacityBatchLength::get() && T::BatchProvider::batch_all(origin, calls).is_ok()")]);
}
