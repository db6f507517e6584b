//! Runtime APIs and RPC handlers: what a node answers.
use super::*;

const R: &str = "frequency-runtime";

/// C63: each runtime API function answers with the pallet's own query on the given arguments.
pub fn runtime_apis(k: &Chk) {
    for (n, ix) in [("test-networks", k.ix), ("mainnet", k.ixs["frequency"])] {
        let get = |f: &str, params: &[&str], want: &str| {
            let mut r = k.run_ix(ix, R, &format!("Runtime::{f}"), params, &[], "");
            r.returns(&format!("{n}/{f}"), want);
            r.writes_only(&format!("{n}/{f}/writes"), &[]);
        };
        get("get_messages_by_schema_and_block", &["s", "l", "b"], "Messages::get_messages_by_schema_and_block(s, l, b)");
        get("get_by_schema_id", &["s"], "Schemas::get_schema_by_id(s)");
        get("get_schema_by_id", &["s"], "Schemas::get_schema_by_id(s)");
        get("get_schema_versions_by_name", &["s"], "Schemas::get_schema_versions(s)");
        get("get_events", &[], "System::read_events_no_consensus()");
        get("has_delegation", &["delegator", "provider", "block", "schema"], "match schema { Some(s) => Msa::ensure_valid_schema_grant(provider, delegator, s, block).is_ok(), None => Msa::ensure_valid_delegation(provider, delegator, Some(block)).is_ok() }");
        get("get_all_granted_delegations_by_msa_id", &["delegator"], "match Msa::get_granted_schemas_by_msa_id(delegator, None) { Ok(x) => x, Err(_) => vec![] }");
        get("get_granted_schemas_by_msa_id", &["delegator", "provider"], "match Msa::get_granted_schemas_by_msa_id(delegator, Some(provider)) { Ok(x) => if x.len() != 0 { Some(x[0].permissions) } else { None }, Err(_) => None }");
        get("get_paginated_storage", &["m", "s"], "StatefulStorage::get_paginated_storage(m, s)");
        get("get_itemized_storage", &["m", "s"], "StatefulStorage::get_itemized_storage(m, s)");
        get("get_handle_for_msa", &["m"], "Handles::get_handle_for_msa(m)");
        get("get_next_suffixes", &["h", "c"], "Handles::get_next_suffixes(h, c)");
        get("get_msa_for_handle", &["h"], "Handles::get_msa_id_for_handle(h)");
        get("validate_handle", &["h"], "Handles::validate_handle(h)");
        get("account_nonce", &["a"], "System::account_nonce(a)");
        get("query_weight_to_fee", &["w"], "TransactionPayment::weight_to_fee(w)");
        get("query_length_to_fee", &["l"], "TransactionPayment::length_to_fee(l)");
        get("query_info", &["x", "l"], "TransactionPayment::query_info(x, l)");
        get("query_fee_details", &["x", "l"], "TransactionPayment::query_fee_details(x, l)");
        get("execute_block", &["b"], "Executive::execute_block(b)");
        get("initialize_block", &["b"], "Executive::initialize_block(b)");
        get("apply_extrinsic", &["b"], "Executive::apply_extrinsic(b)");
        get("finalize_block", &[], "Executive::finalize_block()");
        get("validate_transaction", &["s", "x", "h"], "Executive::validate_transaction(s, x, h)");
        let mut r = k.run_ix(ix, R, "Runtime::compute_capacity_fee", &["x", "len"], &[], "");
        r.bind("capacity", "match x.function { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { .. }) => true, RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { .. }) => true, _ => false }");
        r.returns_if(&format!("{n}/capacity-fee"), "capacity", "FrequencyTxPayment::compute_capacity_fee_details(x.function, Extrinsic::get_dispatch_info(x).weight, len)");
        r.returns_if(&format!("{n}/other-fee"), "!capacity", "FrequencyTxPayment::compute_capacity_fee_details(x.function, Weight::zero(), len)");
    }
}

/// C64: RPC handlers ask the runtime at the best block and pass the answer on.
pub fn handlers(k: &Chk) {
    let mut r = k.run("common-helpers", "map_rpc_result", &["x"]);
    r.ok_iff(&[("ok", "x.is_ok()")]);
    r.ok_value("same", "true", "x.unwrap()");
    let mut r = k.run("pallet-stateful-storage-rpc", "map_result", &["x"]);
    r.ok_iff(&[("ok", "match x { Ok(Ok(_)) => true, _ => false }")]);
    r.ok_value("same", "true", "x.unwrap().unwrap()");
    let fw = |c: &str, f: &str, params: &[&str], pre: &str, ask: &str, map: &str| {
        let mut p = vec!["me"];
        p.extend(params);
        let mut r = k.run_with(c, f, &p, &[map]);
        r.bind("at", "me.client.info().best_hash");
        r.bind("api", "me.client.runtime_api()");
        r.returns_if("answer", pre, &if map.is_empty() { ask.to_string() } else { format!("{map}({ask})") });
        r.writes_only("writes", &[]);
    };
    let c = "pallet-msa-rpc";
    fw(c, "MsaHandler::get_granted_schemas_by_msa_id", &["d", "p"], "true", "api.get_granted_schemas_by_msa_id(at, d, p)", "map_rpc_result");
    fw(c, "MsaHandler::get_all_granted_delegations_by_msa_id", &["d"], "true", "api.get_all_granted_delegations_by_msa_id(at, d)", "map_rpc_result");
    let c = "pallet-schemas-rpc";
    fw(c, "SchemasHandler::get_by_schema_id", &["s"], "true", "api.get_by_schema_id(at, s)", "map_rpc_result");
    fw(c, "SchemasHandler::get_versions", &["s"], "true", "api.get_schema_versions_by_name(at, s)", "map_rpc_result");
    let c = "pallet-stateful-storage-rpc";
    fw(c, "StatefulStorageHandler::get_paginated_storage", &["m", "s"], "true", "api.get_paginated_storage(at, m, s)", "map_result");
    fw(c, "StatefulStorageHandler::get_itemized_storage", &["m", "s"], "true", "api.get_itemized_storage(at, m, s)", "map_result");
    let c = "pallet-handles-rpc";
    fw(c, "HandlesHandler::get_handle_for_msa", &["m"], "true", "api.get_handle_for_msa(at, m)", "map_rpc_result");
    let fit = "h.try_into().is_ok()";
    fw(c, "HandlesHandler::get_msa_for_handle", &["h"], fit, "api.get_msa_for_handle(at, h)", "map_rpc_result");
    fw(c, "HandlesHandler::get_next_suffixes", &["h", "count"], fit, "api.get_next_suffixes(at, h, min(match count { Some(c) => c, None => 1 }, 100))", "map_rpc_result");
    fw(c, "HandlesHandler::validate_handle", &["h"], fit, "api.validate_handle(at, h)", "map_rpc_result");
    let mut r = k.run_with("pallet-schemas-rpc", "SchemasHandler::check_schema_validity", &["me", "model", "at"], &["validate_raw_avro_schema"]);
    r.ok_iff(&[("valid", "validate_raw_avro_schema(model).is_ok()")]);
    r.ok_value("true", "true", "true");
    let mut r = k.run("pallet-msa-rpc", "MsaHandler::check_delegations", &["me", "ids", "p", "b", "s"]);
    r.bind("at", "me.client.info().best_hash");
    r.returns("each-delegator", "Ok(ids.iter().map(|d| (d, match me.client.runtime_api().has_delegation(at, d, p, b, s) { Ok(x) => x, Err(_) => false })).collect())");
    let mut r = k.run_with("pallet-msa-rpc", "MsaHandler::get_keys_by_msa_id", &["me", "m"], &["get_msa_account_storage_key_name"]);
    r.bind("raw", "match me.offchain.try_read() { Some(r) => match r { Some(db) => db, None => never }, None => never }.get(sp_offchain::STORAGE_PREFIX, get_msa_account_storage_key_name(m))");
    r.ok_implies("readable", "match me.offchain.try_read() { Some(r) => r.is_some(), None => false }");
    r.ok_value("unknown", "raw.is_none()", "None");
    let mut r = k.run_with("pallet-frequency-tx-payment-rpc", "CapacityPaymentHandler::compute_capacity_fee_details", &["me", "xt", "at"], &[]);
    r.bind("x", "Decode::decode(xt)");
    r.bind("fee", "me.client.runtime_api().compute_capacity_fee(match at { Some(h) => h, None => me.client.info().best_hash }, x.unwrap(), xt.len() as u32)");
    r.ok_implies("decoded", "x.is_ok()");
    r.ok_implies("asked", "fee.is_ok()");
    r.result_is("fee", "true", "match result { Ok(f) => f.inclusion_fee.is_some() == fee.unwrap().inclusion_fee.is_some(), Err(_) => true }");
    r.result_is("parts", "true", "match (result, fee.unwrap().inclusion_fee) { (Ok(f), Some(i)) => f.inclusion_fee == Some(InclusionFee { base_fee: i.base_fee, len_fee: i.len_fee, adjusted_weight_fee: i.adjusted_weight_fee }), _ => true }");
    let c = "frequency-service";
    let mut r = k.run_with(c, "FrequencyRpcHandler::get_events", &["me", "at"], &["map_rpc_result"]);
    r.returns("events", "map_rpc_result(me.client.runtime_api().get_events(at))");
    let mut r = k.run_with(c, "FrequencyRpcHandler::get_missing_nonce_values", &["me", "who"], &["get_missing_nonces"]);
    r.bind("nonce", "me.client.runtime_api().account_nonce(me.client.info().best_hash, who)");
    r.ok_iff(&[("nonce", "nonce.is_ok()")]);
    r.ok_value("missing", "true", "get_missing_nonces(me.pool, who, nonce.unwrap())");
    // every handler is served
    let mut r = k.run(c, "create_full", &["deps", "offchain"]);
    for h in ["MessagesHandler", "SchemasHandler", "StatefulStorageHandler", "HandlesHandler", "CapacityPaymentHandler"] {
        r.some_does(h, "true", "call", "merge", &format!("a1 == {h} {{ client: deps.client, _marker: PhantomData::default() }}.into_rpc()"));
    }
    r.some_does("MsaHandler", "true", "call", "merge", "a1 == MsaHandler { client: deps.client, offchain: RwLock::new(offchain), _marker: PhantomData::default() }.into_rpc()");
    r.some_does("FrequencyRpcHandler", "true", "call", "merge", "a1 == FrequencyRpcHandler { client: deps.client, pool: deps.pool, _marker: PhantomData::default() }.into_rpc()");
    r.some_does("TransactionPayment", "true", "call", "merge", "a1 == TransactionPayment::new(deps.client).into_rpc()");
    r.some_does("System", "true", "call", "merge", "a1 == System::new(deps.client, deps.pool, deps.deny_unsafe).into_rpc()");
    r.some_does("manual-seal", "deps.command_sink.is_some()", "call", "merge", "a1 == ManualSeal::new(deps.command_sink.unwrap()).into_rpc()");
    for f in ["get_index_value", "get_impl"] {
        let mut r = k.run("common-primitives", f, &["key"]);
        r.bind("cell", "StorageValueRef::persistent(key).get()");
        r.ok_iff(&[("decodes", "cell.is_ok()")]);
        r.ok_value("value", "true", "cell.unwrap()");
    }
}

/// C65: the paged message query walks blocks and messages in order.
pub fn messages_walk(k: &Chk) {
    let c = "pallet-messages-rpc";
    let f = "MessagesHandler::get_messages_by_schema_id";
    let mut r = k.run_with(c, f, &["me", "id", "q"], &["map_rpc_result"]);
    r.bind("at", "me.client.info().best_hash");
    r.bind("api", "me.client.runtime_api()");
    r.bind("schema", "api.get_schema_by_id(at, id)");
    r.ok_implies("valid-page", "q.page_size > 0 && q.page_size <= 10000 && q.from_block < q.to_block && q.to_block - q.from_block <= 50000");
    r.ok_implies("known-schema", "match schema { Ok(Some(_)) => true, _ => false }");
    r.args_are("asks", "call", "get_messages_by_schema_and_block", 1, &["api", "at", "schema.unwrap().unwrap().schema_id", "schema.unwrap().unwrap().payload_location", "_"], "_");
    for blocks in [1, 2] {
        let assume = format!("q.to_block == q.from_block + {blocks}");
        let mut r = k.run_unrolled(c, f, &["me", "id", "q"], &[], &assume, 2);
        r.bind("api", "me.client.runtime_api()");
        r.bind("s", "api.get_schema_by_id(me.client.info().best_hash, id).unwrap().unwrap()");
        let all = "{ let mut all = Vec::new(); for b in q.from_block..q.to_block { let l = match api.get_messages_by_schema_and_block(me.client.info().best_hash, s.schema_id, s.payload_location, b) { Ok(l) => l, Err(_) => Vec::new() }; for i in (if b == q.from_block { q.from_index } else { 0 })..l.len() { if (all.len() as u32) < q.page_size { all.push(l[i]); } } } all }";
        r.bind("page", all);
        r.bind("next", "{ let mut all = 0; let mut next = None; for b in q.from_block..q.to_block { let l = match api.get_messages_by_schema_and_block(me.client.info().best_hash, s.schema_id, s.payload_location, b) { Ok(l) => l, Err(_) => Vec::new() }; for i in (if b == q.from_block { q.from_index } else { 0 })..l.len() { if all < q.page_size { all += 1; if all == q.page_size { next = if i + 1 != l.len() { Some((b, i + 1)) } else if b + 1 < q.to_block { Some((b + 1, 0)) } else { None }; } } } } next }");
        r.result_is(&format!("in-order-{blocks}"), "true", "match result { Ok(p) => p.content == page, Err(_) => true }");
        r.result_is(&format!("next-{blocks}"), "true", "match result { Ok(p) => p.has_next == next.is_some() && match next { Some(n) => p.next_block == Some(n.0) && p.next_index == Some(n.1), None => p.next_block == None && p.next_index == None }, Err(_) => true }");
    }
}
