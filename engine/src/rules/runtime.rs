//! The runtime's composition: which calls are allowed where, and how extensions, origins and limits are wired.
use super::*;
use crate::core::Term;
const R: &str = "frequency-runtime";

const BATCHABLE: &str = "|c| match c {
    RuntimeCall::Utility(pallet_utility::Call::batch { .. }) => false,
    RuntimeCall::Utility(pallet_utility::Call::batch_all { .. }) => false,
    RuntimeCall::Utility(pallet_utility::Call::force_batch { .. }) => false,
    RuntimeCall::FrequencyTxPayment(..) => false,
    RuntimeCall::Msa(pallet_msa::Call::create_provider { .. }) => false,
    RuntimeCall::Schemas(pallet_schemas::Call::create_schema { .. }) => false,
    RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v2 { .. }) => false,
    RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v3 { .. }) => false,
    _ => c.get_dispatch_info().pays_fee != Pays::No,
}";

pub fn call_filter(k: &Chk) {
    let utility = format!(
        "RuntimeCall::Utility(pallet_utility::Call::batch {{ calls, .. }}) => calls.iter().all({b}),
         RuntimeCall::Utility(pallet_utility::Call::batch_all {{ calls, .. }}) => calls.iter().all({b}),
         RuntimeCall::Utility(pallet_utility::Call::force_batch {{ calls, .. }}) => calls.iter().all({b}),",
        b = BATCHABLE
    );
    let direct = "RuntimeCall::Msa(pallet_msa::Call::create_provider { .. }) => false,
         RuntimeCall::Schemas(pallet_schemas::Call::create_schema { .. }) => false,
         RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v2 { .. }) => false,
         RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v3 { .. }) => false,";
    for (n, ix, d) in [("test-networks", k.ix, ""), ("mainnet", k.ixs["frequency"], direct)] {
        let mut r = k.run_ix(ix, R, "BaseCallFilter::contains", &["call"], &[], "");
        r.returns(&format!("{}-allowed-exactly", n), &format!("match call {{ {} {} _ => true }}", utility, d));
    }
    for ix in [k.ix, k.ixs["frequency"]] {
        config_is(k, ix, "frame_system", "BaseCallFilter", &["BaseCallFilter"]);
    }
}

/// `impl <pallet>::Config for Runtime { type <name> = <one of the expected>; }`
pub fn config_type(ix: &Index, pallet: &str, name: &str) -> Option<(String, String)> {
    for (c, file, im) in &ix.impls {
        if c != R {
            continue;
        }
        let Some((_, p, _)) = &im.trait_ else { continue };
        let tp = quote::quote!(#p).to_string().replace(' ', "");
        let st = &im.self_ty;
        if quote::quote!(#st).to_string() != "Runtime" || tp != format!("{}::Config", pallet) && tp != pallet {
            continue;
        }
        for ii in &im.items {
            if let syn::ImplItem::Type(t) = ii {
                if t.ident == name {
                    let ty = &t.ty;
                    return Some((quote::quote!(#ty).to_string().replace(' ', "").replace(",>", ">"), format!("{}:{}", file, t.ident.span().start().line)));
                }
            }
        }
    }
    None
}
fn last_seg(s: &str) -> String {
    // drop module paths in front of every type name so that only the named types remain
    let mut out = String::new();
    let mut word = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            word.clear();
            i += 2;
            continue;
        }
        if cs[i].is_alphanumeric() || cs[i] == '_' {
            word.push(cs[i]);
        } else {
            out.push_str(&word);
            word.clear();
            out.push(cs[i]);
        }
        i += 1;
    }
    out.push_str(&word);
    out
}
/// A type in a normal form: only the names, aliases of this crate expanded (except names that
/// the expected type itself uses), and the alternatives of an either-origin in one order.
fn norm_type(ix: &Index, t: &syn::Type, stop: &[String], depth: usize) -> String {
    match t {
        syn::Type::Paren(p) => norm_type(ix, &p.elem, stop, depth),
        syn::Type::Group(p) => norm_type(ix, &p.elem, stop, depth),
        syn::Type::Tuple(p) => format!("({})", p.elems.iter().map(|e| norm_type(ix, e, stop, depth)).collect::<Vec<_>>().join(",")),
        syn::Type::Path(p) if p.qself.is_none() => {
            let Some(l) = p.path.segments.last() else { return String::new() };
            let name = l.ident.to_string();
            let args: Vec<String> = match &l.arguments {
                syn::PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .map(|a| match a {
                        syn::GenericArgument::Type(t) => norm_type(ix, t, stop, depth),
                        a => last_seg(&quote::quote!(#a).to_string().replace(' ', "")),
                    })
                    .collect(),
                _ => vec![],
            };
            if args.is_empty() && depth < 5 && !stop.contains(&name) {
                if let Some(x) = ix.aliases.iter().find(|x| x.0 == R && x.1 == name && x.3.generics.params.is_empty()) {
                    return norm_type(ix, &x.3.ty, stop, depth + 1);
                }
            }
            if name.starts_with("EitherOf") {
                let mut args = args;
                args.sort();
                return format!("Either<{}>", args.join(","));
            }
            if args.is_empty() {
                name
            } else {
                format!("{}<{}>", name, args.join(","))
            }
        },
        t => last_seg(&quote::quote!(#t).to_string().replace(' ', "").replace(",>", ">")),
    }
}
fn type_is(ix: &Index, got: &str, expected: &str) -> bool {
    let stop: Vec<String> = expected.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect();
    let (Ok(g), Ok(e)) = (syn::parse_str::<syn::Type>(got), syn::parse_str::<syn::Type>(expected)) else { return last_seg(got) == expected };
    norm_type(ix, &g, &stop, 0) == norm_type(ix, &e, &stop, 5)
}
pub fn config_is(k: &Chk, ix: &Index, pallet: &str, name: &str, expected: &[&str]) {
    let got = config_type(ix, pallet, name);
    let (t, at) = got.clone().unwrap_or_default();
    let ok = got.is_some() && expected.iter().any(|e| type_is(ix, &t, e));
    k.rep.borrow_mut().ob("config", &format!("{}/{}", pallet, name), ok, &format!("{}::{} is {}", pallet, name, expected.join(" or ")), if at.is_empty() { R } else { &at }, || format!("found {:?}", got));
}

fn both<'a>(k: &Chk<'a>) -> [(&'static str, &'a Index); 2] {
    [("test-networks", k.ix), ("mainnet", k.ixs["frequency"])]
}

pub fn proxy_types(k: &Chk) {
    let pallets = ["Capacity", "CollatorSelection", "Council", "Democracy", "FrequencyTxPayment", "Handles", "Messages", "Msa", "Multisig", "Preimage", "Scheduler", "Schemas", "Session", "StatefulStorage", "TechnicalCommittee", "Treasury", "Utility"];
    let nt: String = pallets.iter().map(|p| format!("RuntimeCall::{}(..) => true, ", p)).collect();
    for (n, ix) in both(k) {
        let mut r = k.run_ix(ix, R, "ProxyType::filter", &["ty", "call"], &[], "");
        r.bind("non_transfer", &format!("match call {{ {} RuntimeCall::TimeRelease(pallet_time_release::Call::claim {{ .. }}) => true, RuntimeCall::TimeRelease(pallet_time_release::Call::claim_for {{ .. }}) => true, _ => false }}", nt));
        r.bind("governance", "match call { RuntimeCall::Treasury(..) => true, RuntimeCall::Democracy(..) => true, RuntimeCall::TechnicalCommittee(..) => true, RuntimeCall::Council(..) => true, RuntimeCall::Utility(..) => true, _ => false }");
        r.bind("staking", "match call { RuntimeCall::Capacity(pallet_capacity::Call::stake { .. }) => true, RuntimeCall::CollatorSelection(pallet_collator_selection::Call::set_candidacy_bond { .. }) => true, _ => false }");
        r.bind("cancel", "match call { RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement { .. }) => true, _ => false }");
        r.returns_if(&format!("{}-any", n), "match ty { ProxyType::Any => true, _ => false }", "true");
        r.returns_if(&format!("{}-non-transfer", n), "match ty { ProxyType::NonTransfer => true, _ => false }", "non_transfer");
        r.returns_if(&format!("{}-governance", n), "match ty { ProxyType::Governance => true, _ => false }", "governance");
        r.returns_if(&format!("{}-staking", n), "match ty { ProxyType::Staking => true, _ => false }", "staking");
        r.returns_if(&format!("{}-cancel", n), "match ty { ProxyType::CancelProxy => true, _ => false }", "cancel");
        let mut r = k.run_ix(ix, R, "ProxyType::is_superset", &["a", "b"], &[], "");
        r.returns(&format!("{}-superset", n), "a == b || (match a { ProxyType::Any => true, _ => false }) || (match a { ProxyType::NonTransfer => true, _ => false }) && !(match b { ProxyType::Any => true, _ => false })");
        config_is(k, ix, "pallet_proxy", "ProxyType", &["ProxyType"]);
    }
}

pub fn eligible_calls(k: &Chk) {
    let w = |f: &str, a: &str| format!("Some(capacity_stable_weights::SubstrateWeight::<Runtime>::{}({}))", f, a);
    let bytes = |a: &str| format!("StatefulStorage::sum_add_actions_bytes({})", a);
    let mut arms = String::new();
    for (p, pal, call, fields, table, arg) in [
        ("Msa", "pallet_msa", "add_public_key_to_msa", "..", "add_public_key_to_msa", String::new()),
        ("Msa", "pallet_msa", "create_sponsored_account_with_delegation", "add_provider_payload, ..", "create_sponsored_account_with_delegation", "add_provider_payload.schema_ids.len() as u32".into()),
        ("Msa", "pallet_msa", "grant_delegation", "add_provider_payload, ..", "grant_delegation", "add_provider_payload.schema_ids.len() as u32".into()),
        ("Messages", "pallet_messages", "add_ipfs_message", "..", "add_ipfs_message", String::new()),
        ("Messages", "pallet_messages", "add_onchain_message", "payload, ..", "add_onchain_message", "payload.len() as u32".into()),
        ("StatefulStorage", "pallet_stateful_storage", "apply_item_actions", "actions, ..", "apply_item_actions", bytes("actions")),
        ("StatefulStorage", "pallet_stateful_storage", "upsert_page", "payload, ..", "upsert_page", "payload.len() as u32".into()),
        ("StatefulStorage", "pallet_stateful_storage", "delete_page", "..", "delete_page", String::new()),
        ("StatefulStorage", "pallet_stateful_storage", "apply_item_actions_with_signature", "payload, ..", "apply_item_actions_with_signature", bytes("payload.actions")),
        ("StatefulStorage", "pallet_stateful_storage", "apply_item_actions_with_signature_v2", "payload, ..", "apply_item_actions_with_signature", bytes("payload.actions")),
        ("StatefulStorage", "pallet_stateful_storage", "upsert_page_with_signature", "payload, ..", "upsert_page_with_signature", "payload.payload.len() as u32".into()),
        ("StatefulStorage", "pallet_stateful_storage", "upsert_page_with_signature_v2", "payload, ..", "upsert_page_with_signature", "payload.payload.len() as u32".into()),
        ("StatefulStorage", "pallet_stateful_storage", "delete_page_with_signature", "..", "delete_page_with_signature", String::new()),
        ("StatefulStorage", "pallet_stateful_storage", "delete_page_with_signature_v2", "..", "delete_page_with_signature", String::new()),
        ("Handles", "pallet_handles", "claim_handle", "payload, ..", "claim_handle", "payload.base_handle.len() as u32".into()),
        ("Handles", "pallet_handles", "change_handle", "payload, ..", "change_handle", "payload.base_handle.len() as u32".into()),
    ] {
        arms += &format!("RuntimeCall::{}({}::Call::{} {{ {} }}) => {},\n", p, pal, call, fields, w(table, &arg));
    }
    for (n, ix) in both(k) {
        let mut r = k.run_ix(ix, R, "CapacityEligibleCalls::get_stable_weight", &["call"], &[], "");
        r.returns(&format!("{}-eligible-exactly", n), &format!("match call {{ {} _ => None }}", arms));
        let mut r = k.run_ix(ix, R, "CapacityEligibleCalls::get_inner_calls", &["outer"], &[], "");
        r.returns_if(&format!("{}-inner-call", n), "match outer { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { call, .. }) => true, _ => false }", "match outer { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { call, .. }) => Some(vec![call]), _ => panic!() }");
        r.returns_if(&format!("{}-inner-batch", n), "match outer { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls, .. }) => true, _ => false }", "match outer { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls, .. }) => Some(calls), _ => panic!() }");
        r.returns_if(&format!("{}-itself", n), "match outer { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { .. }) => false, RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { .. }) => false, _ => true }", "Some(vec![outer])");
        let mut r = k.run_ix(ix, R, "CapacityBatchProvider::batch_all", &["origin", "calls"], &[], "");
        r.returns(&format!("{}-batch", n), "Utility::batch_all(origin, calls)");
        config_is(k, ix, "pallet_frequency_tx_payment", "CapacityCalls", &["CapacityEligibleCalls"]);
        config_is(k, ix, "pallet_frequency_tx_payment", "BatchProvider", &["CapacityBatchProvider"]);
        config_is(k, ix, "pallet_frequency_tx_payment", "OnChargeCapacityTransaction", &["CapacityAdapter<Balances,Msa>"]);
        config_is(k, ix, "pallet_frequency_tx_payment", "Capacity", &["Capacity"]);
    }
    let mut r = k.run("pallet-stateful-storage", "Pallet::sum_add_actions_bytes", &["actions"]);
    r.returns("added-bytes", "actions.iter().fold(0, |a, c| match c { ItemAction::Add { data } => a.saturating_add(data.len() as u32), _ => a })");
}

fn alias_is(k: &Chk, ix: &Index, krate: &str, name: &str, expected: &str) {
    let a = ix.aliases.iter().find(|x| x.0 == krate && x.1 == name);
    let got = a.map(|x| {
        let t = &x.3.ty;
        last_seg(&quote::quote!(#t).to_string().replace(' ', "").replace(",)", ")"))
    });
    k.rep.borrow_mut().ob("wiring", &format!("{}/{}", krate, name), got.as_deref() == Some(expected), &format!("{} is {}", name, expected), krate, || format!("found {:?}", got));
}

pub fn pipeline(k: &Chk) {
    let order = ["CheckNonZeroSender", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckEra", "CheckNonce", "CheckWeight", "ChargeFrqTransactionPayment", "CheckFreeExtrinsicUse", "HandlesSignedExtension"];
    let want = format!("({})", order.iter().map(|x| format!("{}<Runtime>", x)).collect::<Vec<_>>().join(","));
    for (n, ix) in both(k) {
        let a = ix.aliases.iter().find(|x| x.0 == R && x.1 == "SignedExtra");
        let got: Vec<String> = match a.map(|x| &*x.3.ty) {
            Some(syn::Type::Tuple(t)) => t.elems.iter().map(|e| last_seg(&quote::quote!(#e).to_string().replace(' ', ""))).collect(),
            _ => vec![],
        };
        for o in order {
            let c = got.iter().filter(|g| **g == format!("{}<Runtime>", o)).count();
            k.rep.borrow_mut().ob("pipeline", &format!("{}/{}/runs-once", n, o), c == 1, &format!("every signed transaction runs {} once", o), "runtime/frequency/src/lib.rs SignedExtra", || format!("pipeline is {:?}", got));
        }
        let pos = |o: &str| got.iter().position(|g| *g == format!("{}<Runtime>", o)).unwrap_or(usize::MAX);
        for (a, b) in [("CheckNonZeroSender", "CheckNonce"), ("CheckEra", "CheckNonce"), ("CheckNonce", "ChargeFrqTransactionPayment"), ("CheckWeight", "ChargeFrqTransactionPayment")] {
            k.rep.borrow_mut().ob("pipeline", &format!("{}/{}-before-{}", n, a, b), pos(a) < pos(b), &format!("{} runs before {}", a, b), "runtime/frequency/src/lib.rs SignedExtra", || format!("pipeline is {:?}; the accepted order is {}", got, want));
        }
        // the custom nonce check, not the framework's
        let custom = match a.map(|x| &*x.3.ty) {
            Some(syn::Type::Tuple(t)) => t.elems.iter().any(|e| {
                let s = quote::quote!(#e).to_string().replace(' ', "");
                s.contains("CheckNonce<") && !s.starts_with("frame_system::")
            }),
            _ => false,
        };
        k.rep.borrow_mut().ob("pipeline", &format!("{}/own-nonce-check", n), custom, "the nonce check is the one of this repository", "runtime/frequency/src/lib.rs SignedExtra", || format!("pipeline is {:?}", got));
        alias_is(k, ix, R, "UncheckedExtrinsic", "UncheckedExtrinsic<Address,RuntimeCall,Signature,SignedExtra>");
    }
}

pub fn nonce(k: &Chk) {
    const C: &str = "common-runtime";
    let mut r = k.run(C, "CheckNonce::pre_dispatch", &["self_", "who", "call", "info", "len"]);
    r.bind("a", "Account::<T>::get(who)");
    r.bind("kept", "info.pays_fee == Pays::Yes || a.providers > 0 || a.consumers > 0 || a.sufficients > 0");
    r.ok_iff(&[("exact-nonce", "self_.0 == a.nonce")]);
    r.ensures_if("nonce-advances", "kept", "Account::<T>::get(who).nonce", "a.nonce + 1");
    r.ensures_if("rest-kept", "kept", "Account::<T>::get(who)", "{ let mut b = a; b.nonce = a.nonce + 1; b }");
    r.only_when("no-account-for-free", "set|kill", "Account", 1, "kept && self_.0 == a.nonce");
    r.args_are("own-account", "set|kill", "Account", 1, &["who"], "_");
    r.returns_if("stale", "self_.0 < a.nonce", "Err(InvalidTransaction::Stale)");
    r.returns_if("future", "self_.0 > a.nonce", "Err(InvalidTransaction::Future)");
    r.writes_only("writes", &["Account"]);
    let mut r = k.run(C, "CheckNonce::validate", &["self_", "who", "call", "info", "len"]);
    r.bind("a", "Account::<T>::get(who)");
    r.ok_iff(&[("not-stale", "self_.0 >= a.nonce")]);
    r.result_is("provides", "self_.0 >= a.nonce", "match result { Ok(v) => v.provides == vec![Encode::encode(&(who, self_.0))], Err(_) => false }");
    r.result_is("requires-previous", "self_.0 > a.nonce", "match result { Ok(v) => v.requires == vec![Encode::encode(&(who, self_.0 - 1))], Err(_) => false }");
    r.result_is("requires-nothing", "self_.0 == a.nonce", "match result { Ok(v) => v.requires == vec![], Err(_) => false }");
    r.writes_only("writes", &[]);
}

/// value of a `ConstN<{..}>` alias, a `parameter_types!` item or a constant expression
pub fn value_of<'a>(k: &Chk<'a>, ix: &'a Index, ty: &str) -> Option<i128> {
    let mut t = ty.to_string();
    for _ in 0..6 {
        if let Some(p) = t.find('<').filter(|p| t[..*p].rsplit("::").next().map_or(false, |h| h.starts_with("Const") && h != "ConstBool")) {
            let inner = t[p + 1..].trim_end_matches('>').trim_end_matches(',').trim_matches(|c| c == '{' || c == '}').to_string();
            for c in ["common-runtime", R] {
                let r = k.run_expr_n(ix, c, "limit", &[], &[], &inner, 2);
                if let Term::Int(i) = r.ev.c.t(r.res) {
                    return Some(*i);
                }
            }
            return None;
        }
        let name = last_seg(&t);
        let a = ix.aliases.iter().find(|x| (x.0 == R || x.0 == "common-runtime") && x.1 == name);
        match a {
            Some(x) => {
                let ty = &x.3.ty;
                t = quote::quote!(#ty).to_string().replace(' ', "");
            }
            None => {
                let r = k.run_expr_n(ix, "common-runtime", "limit", &[], &[], &format!("{}::get()", name), 2);
                return match r.ev.c.t(r.res) {
                    Term::Int(i) => Some(*i),
                    _ => None,
                };
            }
        }
    }
    None
}

fn either(a: &str, b: &str) -> [String; 2] {
    [format!("EitherOfDiverse<{},{}>", a, b), format!("EitherOfDiverse<{},{}>", b, a)]
}
const ROOT: &str = "EnsureRoot<AccountId>";
fn origin_is(k: &Chk, ix: &Index, pallet: &str, name: &str, other: &str) {
    let e = either(ROOT, other);
    config_is(k, ix, pallet, name, &[&e[0], &e[1]]);
}

pub fn governance(k: &Chk) {
    let at_least = |c: &str, n: u32, d: u32| format!("EnsureProportionAtLeast<AccountId,{},{},{}>", c, n, d);
    let more_than = |c: &str, n: u32, d: u32| format!("EnsureProportionMoreThan<AccountId,{},{},{}>", c, n, d);
    let (cc, tc) = ("CouncilCollective", "TechnicalCommitteeCollective");
    for (n, ix) in both(k) {
        origin_is(k, ix, "pallet_msa", "CreateProviderViaGovernanceOrigin", "EnsureMembers<AccountId,CouncilCollective,1>");
        origin_is(k, ix, "pallet_schemas", "CreateSchemaViaGovernanceOrigin", &more_than(cc, 1, 2));
        origin_is(k, ix, "pallet_preimage", "ManagerOrigin", "EnsureMember<AccountId,TechnicalCommitteeCollective>");
        origin_is(k, ix, "pallet_democracy", "ExternalDefaultOrigin", &at_least(cc, 1, 1));
        origin_is(k, ix, "pallet_democracy", "ExternalMajorityOrigin", &more_than(cc, 1, 2));
        origin_is(k, ix, "pallet_democracy", "ExternalOrigin", &at_least(cc, 1, 2));
        origin_is(k, ix, "pallet_democracy", "FastTrackOrigin", &at_least(tc, 2, 3));
        origin_is(k, ix, "pallet_democracy", "InstantOrigin", &at_least(tc, 1, 1));
        origin_is(k, ix, "pallet_democracy", "CancellationOrigin", &at_least(cc, 2, 3));
        origin_is(k, ix, "pallet_democracy", "CancelProposalOrigin", &at_least(tc, 1, 1));
        config_is(k, ix, "pallet_democracy", "BlacklistOrigin", &[ROOT]);
        origin_is(k, ix, "pallet_scheduler", "ScheduleOrigin", &at_least(cc, 1, 2));
        config_is(k, ix, "pallet_democracy", "VetoOrigin", &["EnsureMember<AccountId,TechnicalCommitteeCollective>"]);
        config_is(k, ix, "pallet_democracy", "SubmitOrigin", &["EnsureSigned<AccountId>"]);
        origin_is(k, ix, "pallet_treasury", "ApproveOrigin", &at_least(cc, 3, 5));
        origin_is(k, ix, "pallet_treasury", "RejectOrigin", &more_than(cc, 1, 2));
        config_is(k, ix, "pallet_treasury", "SpendOrigin", &["NeverEnsureOrigin<Balance>"]);
        origin_is(k, ix, "pallet_collator_selection", "UpdateOrigin", &at_least(cc, 3, 5));
        for (p, i) in [("pallet_collective::Config<CouncilCollective>", 1), ("pallet_collective::Config<TechnicalCommitteeCollective>", 2)] {
            config_is(k, ix, p, "SetMembersOrigin", &["EnsureRoot<Self::AccountId>", "EnsureRoot<AccountId>"]);
            config_is(k, ix, p, "Proposal", &["RuntimeCall"]);
            alias_is(k, ix, R, if i == 1 { cc } else { tc }, &format!("Instance{}", i));
        }
        for p in ["pallet_msa", "pallet_schemas"] {
            config_is(k, ix, p, "ProposalProvider", &["CouncilProposalProvider"]);
            config_is(k, ix, p, "Proposal", &["RuntimeCall"]);
        }
        let mut r = k.run_ix(ix, R, "CouncilProposalProvider::propose", &["who", "threshold", "proposal"], &[], "");
        r.returns(&format!("{}-proposes", n), "Council::do_propose_proposed(who, threshold, proposal, proposal.encode().len() as u32)");
        let mut r = k.run_ix(ix, R, "CouncilProposalProvider::propose_with_simple_majority", &["who", "proposal"], &[], "");
        r.returns(&format!("{}-simple-majority", n), "Council::do_propose_proposed(who, (Council::members().len() / 2 + 1) as u32, proposal, proposal.encode().len() as u32)");
    }
    let sudo = config_type(k.ixs["frequency"], "pallet_sudo", "RuntimeCall");
    k.rep.borrow_mut().ob("wiring", "mainnet/no-sudo", sudo.is_none(), "the mainnet runtime has no sudo", R, || format!("{:?}", sudo));
}

const LIMITS: &[(&str, &str, i128)] = &[
    ("pallet_msa", "MaxPublicKeysPerMsa", 25),
    ("pallet_msa", "MaxSchemaGrantsPerDelegation", 30),
    ("pallet_msa", "MaxProviderNameSize", 16),
    ("pallet_msa", "MortalityWindowSize", 100),
    ("pallet_msa", "MaxSignaturesStored", 50_000),
    ("pallet_schemas", "MinSchemaModelSizeBytes", 8),
    ("pallet_schemas", "SchemaModelMaxBytesBoundedVecLimit", 65_500),
    ("pallet_schemas", "MaxSchemaRegistrations", 65_000),
    ("pallet_schemas", "MaxSchemaSettingsPerSchema", 2),
    ("pallet_handles", "HandleSuffixMin", 10),
    ("pallet_handles", "HandleSuffixMax", 99),
    ("pallet_handles", "MortalityWindowSize", 100),
    ("pallet_messages", "MessagesMaxPayloadSizeBytes", 3072),
    ("pallet_stateful_storage", "MaxItemizedBlobSizeBytes", 1024),
    ("pallet_stateful_storage", "MaxItemizedPageSizeBytes", 10260),
    ("pallet_stateful_storage", "MaxPaginatedPageSizeBytes", 1024),
    ("pallet_stateful_storage", "MaxPaginatedPageId", 32),
    ("pallet_stateful_storage", "MaxItemizedActionsCount", 5),
    ("pallet_stateful_storage", "MortalityWindowSize", 14400),
    ("pallet_capacity", "MinimumStakingAmount", 1_000_000),
    ("pallet_capacity", "MinimumTokenBalance", 100_000_000),
    ("pallet_capacity", "MaxUnlockingChunks", 4),
    ("pallet_capacity", "UnstakingThawPeriod", 30),
    ("pallet_capacity", "MaxEpochLength", 7200),
    ("pallet_frequency_tx_payment", "MaximumCapacityBatchLength", 10),
    ("pallet_time_release", "MaxReleaseSchedules", 50),
    ("pallet_time_release", "MinReleaseTransfer", 0),
    ("pallet_balances", "ExistentialDeposit", 1_000_000),
    ("pallet_balances", "MaxFreezes", 2),
];

pub fn limits<'a>(k: &Chk<'a>) {
    for (n, ix) in both(k) {
        for (p, name, want) in LIMITS {
            let t = config_type(ix, p, name);
            let got = t.as_ref().and_then(|t| value_of(k, ix, &t.0));
            let at = t.as_ref().map_or(R.to_string(), |t| t.1.clone());
            k.rep.borrow_mut().ob("limit", &format!("{}/{}/{}", n, p, name), got == Some(*want), &format!("{}::{} is {}", p, name, want), &at, || format!("{:?} evaluates to {:?}", t, got));
        }
        let t = config_type(ix, "pallet_capacity", "CapacityPerToken").map_or(String::new(), |t| t.0);
        let mut r = k.run_expr_n(ix, "common-runtime", "capacity-per-token", &[], &[], &format!("{}::get()", last_seg(&t)), 2);
        r.returns(&format!("{}-two-percent", n), "Perbill::from_percent(2)");
        // two pallets freeze tokens; an account must be able to hold both freezes
        let freezing = ix.impls.iter().filter(|(c, _, im)| c == R && im.items.iter().any(|i| matches!(i, syn::ImplItem::Type(t) if t.ident == "RuntimeFreezeReason"))).count() as i128 - 1;
        let max = config_type(ix, "pallet_balances", "MaxFreezes").and_then(|t| value_of(k, ix, &t.0));
        k.rep.borrow_mut().ob("limit", &format!("{}/enough-freezes", n), max.map_or(false, |m| m >= freezing && freezing >= 2), "an account can hold the freeze of every pallet that freezes", R, || format!("{} freezing pallets, {:?} freezes", freezing, max));
    }
}

const WIRES: &[(&str, &str, &str)] = &[
    ("pallet_msa", "SchemaValidator", "Schemas"),
    ("pallet_msa", "HandleProvider", "Handles"),
    ("pallet_msa", "ConvertIntoAccountId32", "ConvertInto"),
    ("pallet_handles", "MsaInfoProvider", "Msa"),
    ("pallet_handles", "ConvertIntoAccountId32", "ConvertInto"),
    ("pallet_messages", "MsaInfoProvider", "Msa"),
    ("pallet_messages", "SchemaGrantValidator", "Msa"),
    ("pallet_messages", "SchemaProvider", "Schemas"),
    ("pallet_stateful_storage", "MsaInfoProvider", "Msa"),
    ("pallet_stateful_storage", "SchemaGrantValidator", "Msa"),
    ("pallet_stateful_storage", "SchemaProvider", "Schemas"),
    ("pallet_stateful_storage", "ConvertIntoAccountId32", "ConvertInto"),
    ("pallet_stateful_storage", "KeyHasher", "Twox128"),
    ("pallet_capacity", "TargetValidator", "Msa"),
    ("pallet_capacity", "Currency", "Balances"),
    ("pallet_capacity", "RuntimeFreezeReason", "RuntimeFreezeReason"),
    ("pallet_time_release", "Currency", "Balances"),
    ("pallet_time_release", "TransferOrigin", "EnsureSigned<AccountId>"),
    ("pallet_time_release", "BlockNumberProvider", "RelaychainDataProvider<Runtime>"),
    ("pallet_time_release", "RuntimeFreezeReason", "RuntimeFreezeReason"),
    ("pallet_transaction_payment", "OnChargeTransaction", "CurrencyAdapter<Balances,()>"),
    ("pallet_transaction_payment", "WeightToFee", "WeightToFee"),
    ("pallet_transaction_payment", "LengthToFee", "ConstantMultiplier<Balance,TransactionByteFee>"),
    ("pallet_balances", "AccountStore", "System"),
    ("frame_system", "AccountId", "AccountId"),
];

pub fn wiring(k: &Chk) {
    for (n, ix) in both(k) {
        for (p, name, want) in WIRES {
            config_is(k, ix, p, name, &[want]);
        }
        // every pallet a wire points to is part of the runtime
        let m = ix.macros.iter().find(|m| m.0 == R && m.2.mac.path.segments.last().map_or(false, |s| s.ident == "construct_runtime"));
        let text = m.map_or(String::new(), |m| m.2.mac.tokens.to_string().replace(' ', ""));
        for (name, pallet) in [("Msa", "pallet_msa"), ("Messages", "pallet_messages"), ("Schemas", "pallet_schemas"), ("StatefulStorage", "pallet_stateful_storage"), ("Capacity", "pallet_capacity"), ("FrequencyTxPayment", "pallet_frequency_tx_payment"), ("Handles", "pallet_handles"), ("TimeRelease", "pallet_time_release"), ("Balances", "pallet_balances"), ("Council", "pallet_collective::<Instance1>"), ("TechnicalCommittee", "pallet_collective::<Instance2>")] {
            let ok = text.contains(&format!("{}:{}:", name, pallet)) || text.contains(&format!(",{}:{}", name, pallet));
            k.rep.borrow_mut().ob("wiring", &format!("{}/{}", n, name), ok, &format!("{} is {}", name, pallet), "runtime/frequency/src/lib.rs construct_runtime", || "not found in construct_runtime!".into());
        }
    }
}

const AMOUNTS: &[(&str, &str, i128)] = &[
    ("pallet_balances", "ExistentialDeposit", 1_000_000),
    ("pallet_balances", "MaxLocks", 50),
    ("pallet_balances", "MaxReserves", 50),
    ("pallet_balances", "MaxHolds", 1),
    ("frame_system", "MaxConsumers", 16),
    ("pallet_multisig", "DepositBase", 20_0880_0000),
    ("pallet_multisig", "DepositFactor", 320_0000),
    ("pallet_multisig", "MaxSignatories", 100),
    ("pallet_proxy", "ProxyDepositBase", 20_0080_0000),
    ("pallet_proxy", "ProxyDepositFactor", 330_0000),
    ("pallet_proxy", "AnnouncementDepositBase", 20_0080_0000),
    ("pallet_proxy", "AnnouncementDepositFactor", 660_0000),
    ("pallet_proxy", "MaxProxies", 32),
    ("pallet_proxy", "MaxPending", 32),
    ("pallet_democracy", "MinimumDeposit", 100_0000_0000),
    ("pallet_treasury", "ProposalBondMinimum", 100_0000_0000),
    ("pallet_treasury", "ProposalBondMaximum", 1000_0000_0000),
    ("pallet_treasury", "MaxApprovals", 64),
    ("pallet_transaction_payment", "OperationalFeeMultiplier", 5),
];
const CONST_AMOUNTS: &[(&str, i128)] = &[
    ("TransactionByteFee", 10_000),
    ("PreimageBaseDeposit", 200_0640_0000 - 0),
    ("PreimageByteDeposit", 10_0000),
];

fn alias_value<'a>(k: &Chk<'a>, n: &str, ix: &'a Index, name: &str, want: i128) {
    let got = value_of(k, ix, name);
    k.rep.borrow_mut().ob("limit", &format!("{}/{}", n, name), got == Some(want), &format!("{} is {}", name, want), "runtime/common/src/constants.rs", || format!("evaluates to {:?}", got));
}
fn config_value<'a>(k: &Chk<'a>, n: &str, ix: &'a Index, p: &str, name: &str, want: i128) {
    let t = config_type(ix, p, name);
    let got = t.as_ref().and_then(|t| value_of(k, ix, &t.0));
    let at = t.as_ref().map_or(R.to_string(), |t| t.1.clone());
    k.rep.borrow_mut().ob("limit", &format!("{}/{}/{}", n, p, name), got == Some(want), &format!("{}::{} is {}", p, name, want), &at, || format!("{:?} evaluates to {:?}", t, got));
}

/// fees, deposits and bonds
pub fn amounts<'a>(k: &Chk<'a>) {
    for (n, ix) in both(k) {
        for (p, name, want) in AMOUNTS {
            config_value(k, n, ix, p, name, *want);
        }
        for (name, want) in CONST_AMOUNTS {
            alias_value(k, n, ix, name, *want);
        }
        config_is(k, ix, "pallet_preimage", "Consideration", &["HoldConsideration<AccountId,Balances,PreimageHoldReason,LinearStoragePrice<PreimageBaseDeposit,PreimageByteDeposit,Balance>>"]);
        config_is(k, ix, "pallet_transaction_payment", "FeeMultiplierUpdate", &["SlowAdjustingFeeUpdate<Self>", "SlowAdjustingFeeUpdate<Runtime>"]);
        config_is(k, ix, "pallet_treasury", "ProposalBond", &["ProposalBondPercent"]);
        config_is(k, ix, "pallet_treasury", "BurnDestination", &["()"]);
        config_is(k, ix, "pallet_treasury", "Burn", &["()"]);
        config_is(k, ix, "pallet_treasury", "PalletId", &["TreasuryPalletId"]);
        config_is(k, ix, "pallet_collator_selection", "PotId", &["NeverDepositIntoId"]);
        let mut r = k.run_expr_n(ix, "common-runtime", "proposal-bond", &[], &[], "ProposalBondPercent::get()", 2);
        r.returns(&format!("{}-five-percent", n), "Permill::from_percent(5)");
        let mut r = k.run_ix(ix, "common-runtime", "deposit", &["items", "bytes"], &[], "");
        r.returns(&format!("{}-twenty-per-item", n), "(items as u128) * 20_0000_0000 + (bytes as u128) * 100_000");
        let mut r = k.run_ix(ix, "common-runtime", "WeightToFee::polynomial", &[], &[], "");
        r.returns(
            &format!("{}-linear", n),
            "smallvec![WeightToFeeCoefficient { degree: 1, negative: false, coeff_frac: Perbill::from_rational(CENTS % (10 * Balance::from(ExtrinsicBaseWeight::get().ref_time())), 10 * Balance::from(ExtrinsicBaseWeight::get().ref_time())), coeff_integer: CENTS / (10 * Balance::from(ExtrinsicBaseWeight::get().ref_time())) }]",
        );
    }
}

const HOUR: i128 = 300;
const DAY: i128 = 7200;
const PERIODS: &[(&str, &str, i128)] = &[
    ("pallet_timestamp", "MinimumPeriod", 6000),
    ("pallet_aura", "MaxAuthorities", 100_000),
    ("pallet_scheduler", "MaxScheduledPerBlock", 50),
    ("pallet_collective::Config<CouncilCollective>", "MotionDuration", 5 * DAY),
    ("pallet_collective::Config<CouncilCollective>", "MaxProposals", 25),
    ("pallet_collective::Config<CouncilCollective>", "MaxMembers", 10),
    ("pallet_collective::Config<TechnicalCommitteeCollective>", "MotionDuration", 5 * DAY),
    ("pallet_collective::Config<TechnicalCommitteeCollective>", "MaxProposals", 25),
    ("pallet_collective::Config<TechnicalCommitteeCollective>", "MaxMembers", 10),
    ("pallet_democracy", "MaxProposals", 100),
    ("pallet_democracy", "MaxVotes", 100),
    ("pallet_democracy", "MaxDeposits", 100),
    ("pallet_democracy", "MaxBlacklisted", 100),
    ("pallet_collator_selection", "MaxCandidates", 50),
];
/// set per network: judged for the mainnet
const MAIN_PERIODS: &[(&str, &str, i128)] = &[
    ("pallet_democracy", "LaunchPeriod", 7 * DAY),
    ("pallet_democracy", "VotingPeriod", 7 * DAY),
    ("pallet_democracy", "FastTrackVotingPeriod", 3 * HOUR),
    ("pallet_democracy", "EnactmentPeriod", 8 * DAY),
    ("pallet_democracy", "VoteLockingPeriod", 8 * DAY),
    ("pallet_democracy", "CooloffPeriod", 7 * DAY),
    ("pallet_treasury", "SpendPeriod", 7 * DAY),
    ("pallet_collator_selection", "MinEligibleCollators", 1),
    ("pallet_collator_selection", "MaxInvulnerables", 16),
    ("pallet_collator_selection", "KickThreshold", 6 * HOUR),
    ("frame_system", "SS58Prefix", 90),
];

/// block time and weight, sessions, voting periods
pub fn periods<'a>(k: &Chk<'a>) {
    for (n, ix) in both(k) {
        for (p, name, want) in PERIODS {
            config_value(k, n, ix, p, name, *want);
        }
        alias_value(k, n, ix, "SessionPeriod", 6 * HOUR);
        alias_value(k, n, ix, "SessionOffset", 0);
        for t in ["ShouldEndSession", "NextSessionRotation"] {
            config_is(k, ix, "pallet_session", t, &["PeriodicSessions<SessionPeriod,SessionOffset>"]);
        }
        config_is(k, ix, "pallet_session", "SessionManager", &["CollatorSelection"]);
        config_is(k, ix, "pallet_aura", "AllowMultipleBlocksPerSlot", &["ConstBool<false>"]);
        config_is(k, ix, "pallet_democracy", "InstantAllowed", &["ConstBool<true>"]);
        config_is(k, ix, "pallet_democracy", "Scheduler", &["Scheduler"]);
        config_is(k, ix, "pallet_authorship", "EventHandler", &["(CollatorSelection,)"]);
        config_is(k, ix, "pallet_collator_selection", "ValidatorRegistration", &["Session"]);
        for (e, w) in [
            ("MAXIMUM_BLOCK_WEIGHT", "Weight::from_parts(WEIGHT_REF_TIME_PER_SECOND, 0).saturating_div(2).set_proof_size(cumulus_primitives_core::relay_chain::MAX_POV_SIZE as u64)"),
            ("SLOT_DURATION", "12_000u64"),
            ("NORMAL_DISPATCH_RATIO", "Perbill::from_percent(75)"),
            ("AVERAGE_ON_INITIALIZE_RATIO", "Perbill::from_percent(5)"),
        ] {
            let mut r = k.run_expr_n(ix, "common-runtime", &e.to_lowercase(), &[], &[], e, 2);
            r.returns(&format!("{}-{}", n, e), w);
        }
        for (e, w) in [("RELAY_CHAIN_SLOT_DURATION_MILLIS", "6000"), ("BLOCK_PROCESSING_VELOCITY", "1"), ("UNINCLUDED_SEGMENT_CAPACITY", "1"), ("VERSION.transaction_version", "1"), ("VERSION.state_version", "1"), ("VERSION.authoring_version", "1")] {
            let mut r = k.run_expr_n(ix, R, &e.to_lowercase(), &[], &[], e, 2);
            r.returns(&format!("{}-{}", n, e), w);
        }
        for (e, w) in [
            ("RuntimeBlockWeights::get()", "BlockWeights::builder().base_block(BlockExecutionWeight::get()).for_class(DispatchClass::all(), |weights| { weights.base_extrinsic = ExtrinsicBaseWeight::get(); }).for_class(DispatchClass::Normal, |weights| { weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT); }).for_class(DispatchClass::Operational, |weights| { weights.max_total = Some(MAXIMUM_BLOCK_WEIGHT); weights.reserved = Some(MAXIMUM_BLOCK_WEIGHT - NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT); }).avg_block_initialization(AVERAGE_ON_INITIALIZE_RATIO).build_or_panic()"),
            ("RuntimeBlockLength::get()", "BlockLength::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75))"),
            ("MaximumSchedulerWeight::get()", "Perbill::from_percent(10) * RuntimeBlockWeights::get().max_block"),
            ("MaxCollectivesProposalWeight::get()", "Perbill::from_percent(50) * RuntimeBlockWeights::get().max_block"),
        ] {
            let mut r = k.run_expr_n(ix, R, &e.replace("::get()", ""), &[], &[], e, 2);
            r.returns(&format!("{}-{}", n, e.replace("::get()", "")), w);
        }
    }
    let ix = k.ixs["frequency"];
    for (p, name, want) in MAIN_PERIODS {
        config_value(k, "mainnet", ix, p, name, *want);
    }
}
