//! Passkey transactions: an unsigned submission that acts for an account.
use super::*;
const P: &str = "pallet-passkey";

pub fn checks(r: &mut Run, nonce_ok: &str) {
    r.bind("p", "match call { Call::proxy { payload } => payload, _ => panic!() }");
    r.bind("is_proxy", "match call { Call::proxy { .. } => true, _ => false }");
    r.bind("who", "p.passkey_call.account_id");
    r.bind("nonce", "common_runtime::Account::<T>::get(who).nonce");
    r.bind("fee", "pallet_transaction_payment::Pallet::<T>::compute_fee(call.encode().len() as u32, &call.get_dispatch_info(), 0)");
    r.ok_implies("is-proxy", "is_proxy");
    r.ok_implies("call-allowed", "!is_proxy || T::PasskeyCallFilter::contains(p.passkey_call.call)");
    r.ok_implies("account-signed-passkey", "!is_proxy || p.passkey_call.account_ownership_proof.verify(&wrap_binary_data(p.passkey_public_key)[..], &T::ConvertIntoAccountId32::convert(who))");
    r.ok_implies("nonce", &format!("!is_proxy || {}", nonce_ok));
    r.ok_implies("fee-paid", "!is_proxy || OnChargeTransactionOf::<T>::withdraw_fee(who, call, call.get_dispatch_info(), fee, 0).is_ok()");
    r.args_are("payer", "call", "OnChargeTransactionOf::withdraw_fee", 1, &["who", "call", "call.get_dispatch_info()", "fee", "0"], "_");
}

pub fn transactions(k: &Chk) {
    let mut r = k.run(P, "Pallet::pre_dispatch", &["call"]);
    checks(&mut r, "p.passkey_call.account_nonce == nonce");
    r.bind("kept", "p.passkey_call.call.get_dispatch_info().pays_fee == Pays::Yes || common_runtime::Account::<T>::get(who).providers > 0 || common_runtime::Account::<T>::get(who).consumers > 0 || common_runtime::Account::<T>::get(who).sufficients > 0");
    r.ensures_if("nonce-used", "kept", "common_runtime::Account::<T>::get(who).nonce", "nonce + 1");
    r.args_are("own-account", "set|kill", "Account", 1, &["who"], "_");
    r.only_when("authorised", "set|kill", "Account", 1, "is_proxy && T::PasskeyCallFilter::contains(p.passkey_call.call) && p.passkey_call.account_ownership_proof.verify(&wrap_binary_data(p.passkey_public_key)[..], &T::ConvertIntoAccountId32::convert(who))");
    r.only_when("no-charge-unauthorised", "call", "OnChargeTransactionOf::withdraw_fee", 1, "is_proxy && T::PasskeyCallFilter::contains(p.passkey_call.call) && p.passkey_call.account_nonce == nonce && p.passkey_call.account_ownership_proof.verify(&wrap_binary_data(p.passkey_public_key)[..], &T::ConvertIntoAccountId32::convert(who))");
    r.writes_only("writes", &["Account"]);
    r.ok_depends_on("passkey-signature-verified", "verifiable_passkey_signature");
    let mut r = k.run(P, "Pallet::validate_unsigned", &["source", "call"]);
    checks(&mut r, "p.passkey_call.account_nonce >= nonce");
    r.writes_only("writes", &[]);

    let mut r = k.run(P, "Pallet::proxy", &["origin", "payload"]);
    r.ok_implies("unsigned", "ensure_none(origin).is_ok()");
    r.only_when("only-unsigned", "call", "dispatch", 1, "ensure_none(origin).is_ok()");
    r.args_are("as-the-account", "call", "dispatch", 1, &["payload.passkey_call.call", "RawOrigin::Signed(payload.passkey_call.account_id)"], "_");
    r.bind("done", "payload.passkey_call.call.dispatch(RawOrigin::Signed(payload.passkey_call.account_id))");
    r.returns_if("result", "ensure_none(origin).is_ok()", "done");
    r.only_when("event-on-success", "emit", "TransactionExecutionSuccess", 1, "done.is_ok()");
    r.ok_does("event", "emit", "TransactionExecutionSuccess", &[], "Event::TransactionExecutionSuccess { account_id: payload.passkey_call.account_id }");
    r.writes_only("writes", &[]);

    const R: &str = "frequency-runtime";
    let mut r = k.run(R, "PasskeyCallFilter::contains", &["call"]);
    r.returns("transfers-only", "match call { RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { .. }) => true, RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { .. }) => true, RuntimeCall::Balances(pallet_balances::Call::transfer_all { .. }) => true, _ => false }");
    runtime::config_is(k, k.ix, "pallet_passkey", "PasskeyCallFilter", &["PasskeyCallFilter"]);
    // never part of the mainnet runtime
    let main = k.ixs["frequency"];
    let has = runtime::config_type(main, "pallet_passkey", "PasskeyCallFilter");
    k.rep.borrow_mut().ob("wiring", "mainnet/no-passkey", has.is_none(), "the mainnet runtime has no passkey pallet", R, || format!("{:?}", has));
}
