//! Paying with capacity: C38-C40, and the eligible calls of the runtime.
use super::*;
const P: &str = "pallet-frequency-tx-payment";
const IS_CAP: &str = "match call.is_sub_type() { Some(Call::pay_with_capacity { .. }) => true, Some(Call::pay_with_capacity_batch_all { .. }) => true, _ => false }";
fn cap(w: &str) -> String {
    format!("T::WeightToFee::weight_to_fee(if T::BlockWeights::get().max_block < {w} {{ T::BlockWeights::get().max_block }} else {{ {w} }})")
}
fn fee(w: &str) -> String {
    format!("{}.saturating_add({}).saturating_add(T::LengthToFee::weight_to_fee(Weight::from_parts(len as u32, 0)))", cap("CAPACITY_EXTRINSIC_BASE_WEIGHT"), cap(w))
}

pub fn charge(r: &mut Run) {
    r.bind("capacity", IS_CAP);
    r.bind("single", "match call.is_sub_type() { Some(Call::pay_with_capacity { call }) => true, _ => false }");
    r.bind("w1", "match call.is_sub_type() { Some(Call::pay_with_capacity { call }) => (match T::CapacityCalls::get_stable_weight(&call) { Some(w) => w, None => panic!() }), _ => panic!() }");
    r.bind("wn", "match call.is_sub_type() { Some(Call::pay_with_capacity_batch_all { calls }) => calls.iter().fold(0, |a, c| a.saturating_add(match T::CapacityCalls::get_stable_weight(c) { Some(w) => w, None => panic!() })), _ => panic!() }");
    r.bind("f1", &fee("w1"));
    r.bind("fn_", &fee("wn"));
    r.bind("tf", "pallet_transaction_payment::Pallet::<T>::compute_fee(len as u32, info, self_.0)");
    r.ok_implies("eligible", "match call.is_sub_type() { Some(Call::pay_with_capacity { call }) => T::CapacityCalls::get_stable_weight(&call).is_some(), Some(Call::pay_with_capacity_batch_all { calls }) => calls.iter().all(|c| T::CapacityCalls::get_stable_weight(c).is_some()), _ => true }");
    r.ok_does_if("charges-call", "single", "call", "OnChargeCapacityTransaction::withdraw_fee", &["who", "f1"], "_");
    r.ok_does_if("charges-batch", "capacity && !single", "call", "OnChargeCapacityTransaction::withdraw_fee", &["who", "fn_"], "_");
    r.only_when("capacity-only", "call", "OnChargeCapacityTransaction::withdraw_fee", 1, "capacity");
    r.args_are("payer", "call", "OnChargeCapacityTransaction::withdraw_fee", 1, &["who", "_"], "_");
    r.ok_implies("capacity-paid", "!single || T::OnChargeCapacityTransaction::withdraw_fee(who, f1).is_ok()");
    r.ok_implies("batch-paid", "!capacity || single || T::OnChargeCapacityTransaction::withdraw_fee(who, fn_).is_ok()");
    r.ok_does_if("charges-token", "!capacity && tf != 0", "call", "OnChargeTransactionOf::withdraw_fee", &["who", "call", "info", "tf", "self_.0"], "_");
    r.args_are("token-args", "call", "OnChargeTransactionOf::withdraw_fee", 1, &["who", "call", "info", "tf", "self_.0"], "_");
    r.only_when("token-only", "call", "OnChargeTransactionOf::withdraw_fee", 1, "!capacity");
    r.ok_implies("token-paid", "capacity || tf == 0 || OnChargeTransactionOf::<T>::withdraw_fee(who, call, info, tf, self_.0).is_ok()");
}

pub fn charging(k: &Chk) {
    let mut r = k.run(P, "ChargeFrqTransactionPayment::pre_dispatch", &["self_", "who", "call", "info", "len"]);
    charge(&mut r);
    r.ok_value("pre-tip", "capacity", "(0, who, InitialPayment::Capacity)");
    r.ok_value("pre-token", "!capacity && tf != 0", "(self_.0, who, InitialPayment::Token(OnChargeTransactionOf::<T>::withdraw_fee(who, call, info, tf, self_.0).unwrap()))");
    r.ok_value("pre-free", "!capacity && tf == 0", "(self_.0, who, InitialPayment::Free)");
    let mut r = k.run(P, "ChargeFrqTransactionPayment::validate", &["self_", "who", "call", "info", "len"]);
    charge(&mut r);
    let mut r = k.run(P, "ChargeFrqTransactionPayment::tip", &["self_", "call"]);
    r.bind("capacity", IS_CAP);
    r.returns("tip", "if capacity { 0 } else { self_.0 }");
    let mut r = k.run(P, "ChargeFrqTransactionPayment::post_dispatch", &["pre", "info", "post", "len", "result"]);
    r.ok_does_if("settles-token", "match pre { Some((t, w, InitialPayment::Token(x))) => true, _ => false }", "call", "ChargeTransactionPayment::post_dispatch", &["match pre { Some((t, w, InitialPayment::Token(x))) => Some((t, w, x)), _ => panic!() }", "info", "post", "len", "result"], "_");
    r.only_when("settles-only-token", "call", "ChargeTransactionPayment::post_dispatch", 1, "match pre { Some((t, w, InitialPayment::Token(x))) => true, _ => false }");
    r.ok_iff(&[("settled", "match pre { Some((t, w, InitialPayment::Token(x))) => ChargeTransactionPayment::<T>::post_dispatch(Some((t, w, x)), info, post, len, result).is_ok(), _ => true }")]);
    never(k, P, "call", "*withdraw_fee", &["ChargeFrqTransactionPayment::post_dispatch"]);
}

pub fn adapter(k: &Chk) {
    let mut r = k.run(P, "CapacityAdapter::withdraw_fee", &["key", "fee"]);
    r.bind("msa", "Msa::ensure_valid_msa_key(key)");
    r.bind("due", "T::Capacity::can_replenish(msa.unwrap())");
    r.ok_iff(&[
        ("keeps-deposit", "Curr::total_balance(key) >= Curr::minimum_balance()"),
        ("has-msa", "msa.is_ok()"),
        ("replenished", "!due || T::Capacity::replenish_all_for(msa.unwrap()).is_ok()"),
        ("deducted", "T::Capacity::deduct(msa.unwrap(), fee).is_ok()"),
    ]);
    r.ok_value("fee", "true", "fee");
    r.ok_does("deducts", "call", "Capacity::deduct", &["msa.unwrap()", "fee"], "_");
    r.args_are("deducts-fee", "call", "Capacity::deduct", 1, &["msa.unwrap()", "fee"], "_");
    r.ok_does_if("replenishes", "due", "call", "Capacity::replenish_all_for", &["msa.unwrap()"], "_");
    r.only_when("replenishes-when-due", "call", "Capacity::replenish_all_for", 1, "due");
    r.args_are("replenishes-own", "call", "Capacity::replenish_all_for", 1, &["msa.unwrap()"], "_");
    r.before("replenish-first", "call", "Capacity::replenish_all_for", "call", "Capacity::deduct");
    r.before("check-first", "call", "Capacity::can_replenish", "call", "Capacity::deduct");
}

pub fn calls(k: &Chk) {
    let mut r = k.run(P, "Pallet::pay_with_capacity", &["origin", "call"]);
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.only_when("signed-dispatch", "call", "dispatch", 1, "ensure_signed(origin).is_ok()");
    r.args_are("dispatch", "call", "dispatch", 1, &["call", "origin"], "_");
    r.ok_does("dispatches", "call", "dispatch", &["call", "origin"], "_");
    r.returns_if("result", "ensure_signed(origin).is_ok()", "call.dispatch(origin)");
    let mut r = k.run(P, "Pallet::pay_with_capacity_batch_all", &["origin", "calls"]);
    r.only_when("bounded-batch", "call", "BatchProvider::batch_all", 1, "ensure_signed(origin).is_ok() && calls.len() <= T::MaximumCapacityBatchLength::get()");
    r.args_are("batch", "call", "BatchProvider::batch_all", 1, &["origin", "calls"], "_");
    r.returns_if("result", "ensure_signed(origin).is_ok() && calls.len() <= T::MaximumCapacityBatchLength::get()", "T::BatchProvider::batch_all(origin, calls)");
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("bounded", "calls.len() <= T::MaximumCapacityBatchLength::get()");
}

pub fn fees(k: &Chk) {
    let mut r = k.run(P, "Pallet::compute_capacity_fee", &["len", "w"]);
    r.returns("fee", &fee("w"));
    let mut r = k.run(P, "Pallet::weight_to_fee", &["w"]);
    r.returns("capped", &cap("w"));
    let mut r = k.run(P, "Pallet::compute_capacity_fee_details", &["call", "dispatch_weight", "len"]);
    r.bind("inner", "match T::CapacityCalls::get_inner_calls(call) { Some(v) => v, None => panic!() }");
    r.bind("sum", "inner.iter().fold(0, |a, c| a.saturating_add(T::CapacityCalls::get_stable_weight(&c).unwrap_or_default()))");
    r.bind("total", "match sum.checked_add(dispatch_weight) { Some(t) => t, None => panic!() }");
    r.returns_if("none-when-ineligible", "sum.is_zero()", "FeeDetails { inclusion_fee: None, tip: 0 }");
    r.returns_if("estimate", "!sum.is_zero() && sum.checked_add(dispatch_weight).is_some()", &format!("FeeDetails {{ inclusion_fee: Some(InclusionFee {{ base_fee: {}, len_fee: T::LengthToFee::weight_to_fee(Weight::from_parts(len, 0)), adjusted_weight_fee: {} }}), tip: 0 }}", cap("CAPACITY_EXTRINSIC_BASE_WEIGHT"), cap("total")));
}
