//! Capacity pallet: C33-C37.
use super::*;
const P: &str = "pallet-capacity";

fn acct(r: &mut Run, who: &str) {
    r.bind("who", who);
    r.bind("had", "StakingAccountLedger::<T>::get(&who).is_some()");
    r.bind("active", "match StakingAccountLedger::<T>::get(&who) { Some(a) => a.active, None => 0 }");
}
fn ledger(r: &mut Run, msa: &str) {
    r.bind("led", &format!("match CapacityLedger::<T>::get({msa}) {{ Some(c) => c, None => CapacityDetails {{ remaining_capacity: 0, total_tokens_staked: 0, total_capacity_issued: 0, last_replenished_epoch: 0 }} }}"));
}
fn ledger_is(r: &mut Run, msa: &str, rem: &str, staked: &str, issued: &str, epoch: &str) {
    for (f, v) in [("remaining_capacity", rem), ("total_tokens_staked", staked), ("total_capacity_issued", issued), ("last_replenished_epoch", epoch)] {
        r.ensures(f, &format!("match CapacityLedger::<T>::get({msa}) {{ Some(c) => c.{f}, None => panic!() }}"), v);
    }
}

pub fn stake_binds(r: &mut Run) {
    acct(r, "ensure_signed(origin).unwrap()");
    r.bind("free", "T::Currency::balance(&who).saturating_sub(T::MinimumTokenBalance::get())");
    r.bind("put", "if free < amount { free } else { amount }");
    r.bind("cap", "T::CapacityPerToken::get() * put");
    r.bind("tgt", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t, None => StakingTargetDetails { amount: 0, capacity: 0 } }");
    ledger(r, "target");
    r.bind("locked", "match UnstakeUnlocks::<T>::get(&who) { Some(l) => l.iter().fold(0, |a, c| a.saturating_add(c.value)), None => 0 }");
}
pub fn unstake_binds(r: &mut Run) {
    acct(r, "ensure_signed(origin).unwrap()");
    r.bind("out", "if active - asked <= T::MinimumStakingAmount::get() { active } else { asked }");
    r.bind("tgt", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t, None => StakingTargetDetails { amount: 0, capacity: 0 } }");
    ledger(r, "target");
    r.bind("cap", "if out == tgt.amount { tgt.capacity } else { Perbill::from_rational(out, led.total_tokens_staked).mul_ceil(led.total_capacity_issued) }");
    r.bind("old", "match UnstakeUnlocks::<T>::get(&who) { Some(l) => l, None => BoundedVec::new() }");
    r.bind("chunk", "UnlockChunk { value: out, thaw_at: CurrentEpoch::<T>::get().saturating_add(T::UnstakingThawPeriod::get()) }");
}
pub fn withdraw_binds(r: &mut Run) {
    acct(r, "ensure_signed(origin).unwrap()");
    r.bind("now", "CurrentEpoch::<T>::get()");
    r.bind("old", "match UnstakeUnlocks::<T>::get(&who) { Some(l) => l, None => BoundedVec::new() }");
    r.bind("left", "{ let mut v = old.clone(); v.retain(|c| now < c.thaw_at); v }");
    r.bind("reaped", "old.iter().filter(|c| now >= c.thaw_at).fold(0, |a, c| a.saturating_add(c.value))");
    r.bind("locked", "left.iter().fold(0, |a, c| a.saturating_add(c.value))");
    r.bind("total", "active.saturating_add(locked)");
}

pub fn stake(k: &Chk) {
    let mut r = k.run(P, "Pallet::stake", &["origin", "target", "amount"]);
    stake_binds(&mut r);
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("nonzero", "amount > 0");
    r.ok_implies("valid-target", "T::TargetValidator::validate(target)");
    r.ok_implies("keeps-minimum-balance", "put > 0");
    r.ok_implies("minimum-stake", "active + put >= T::MinimumStakingAmount::get()");
    r.ok_implies("no-overflow", "put.checked_add(active).is_some() && put.checked_add(tgt.amount).is_some() && cap.checked_add(tgt.capacity).is_some() && put.checked_add(led.total_tokens_staked).is_some() && cap.checked_add(led.remaining_capacity).is_some() && cap.checked_add(led.total_capacity_issued).is_some() && locked.checked_add(active + put).is_some()");
    r.ensures("active", "match StakingAccountLedger::<T>::get(&who) { Some(a) => a.active, None => 0 }", "active + put");
    r.ensures("type-kept", "match StakingAccountLedger::<T>::get(&who) { Some(a) => a.staking_type, None => panic!() }", "match StakingAccountLedger::<T>::get(&who) { Some(a) => a.staking_type, None => StakingType::MaximumCapacity }");
    r.ensures("target-amount", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t.amount, None => 0 }", "tgt.amount + put");
    r.ensures("target-capacity", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t.capacity, None => panic!() }", "tgt.capacity + cap");
    ledger_is(&mut r, "target", "led.remaining_capacity + cap", "led.total_tokens_staked + put", "led.total_capacity_issued + cap", "led.last_replenished_epoch");
    r.ok_does("freeze", "call", "*set_freeze", &["FreezeReason::CapacityStaking", "who", "active + put + locked"], "_");
    r.args_are("freeze-only", "call", "*set_freeze", 1, &["FreezeReason::CapacityStaking", "who", "active + put + locked"], "_");
    r.args_are("own-account", "set|kill", "StakingAccountLedger", 1, &["who"], "_");
    r.args_are("own-target", "set|kill", "StakingTargetLedger", 1, &["who", "target"], "_");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["target"], "_");
    r.ok_does("event", "emit", "Staked", &[], "Event::Staked { account: who, target: target, amount: put, capacity: cap }");
    r.writes_only("writes", &["StakingAccountLedger", "StakingTargetLedger", "CapacityLedger"]);
    never(k, P, "call", "*thaw", &["Pallet::stake", "Pallet::unstake", "Pallet::set_epoch_length"]);
    writers(k, P, &["StakingAccountLedger", "StakingTargetLedger"], &["Pallet::stake", "Pallet::unstake"]);
    for s in ["StakingDetails", "StakingTargetDetails", "CapacityDetails", "UnlockChunk"] {
        encodes_whole(k, P, s);
    }
}

pub fn unstake(k: &Chk) {
    let mut r = k.run(P, "Pallet::unstake", &["origin", "target", "asked"]);
    unstake_binds(&mut r);
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("nonzero", "asked > 0");
    r.ok_implies("is-staking", "had");
    r.ok_implies("within-stake", "asked <= active");
    r.ok_implies("staked-to-target", "StakingTargetLedger::<T>::get(&who, target).is_some()");
    r.ok_implies("within-target", "out <= tgt.amount");
    r.ok_implies("ledger-exists", "CapacityLedger::<T>::get(target).is_some()");
    r.ok_implies("chunk-fits", "{ let mut v = old.clone(); v.try_push(chunk).is_ok() }");
    r.ensures("active", "match StakingAccountLedger::<T>::get(&who) { Some(a) => a.active, None => 0 }", "active - out");
    r.ensures("empty-removed", "StakingAccountLedger::<T>::get(&who).is_none()", "active == out");
    r.ensures("target-amount", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t.amount, None => 0 }", "tgt.amount - out");
    r.ensures_if("target-capacity", "out < tgt.amount", "match StakingTargetLedger::<T>::get(&who, target) { Some(t) => t.capacity, None => panic!() }", "tgt.capacity.saturating_sub(cap)");
    r.ensures("target-removed", "StakingTargetLedger::<T>::get(&who, target).is_none()", "tgt.amount == out");
    r.ensures("unlocking", "match UnstakeUnlocks::<T>::get(&who) { Some(l) => l, None => panic!() }", "{ let mut v = old.clone(); v.try_push(chunk); v }");
    ledger_is(&mut r, "target", "led.remaining_capacity.saturating_sub(cap)", "led.total_tokens_staked.saturating_sub(out)", "led.total_capacity_issued.saturating_sub(cap)", "led.last_replenished_epoch");
    r.args_are("own-account", "set|kill", "StakingAccountLedger", 1, &["who"], "_");
    r.args_are("own-target", "set|kill", "StakingTargetLedger", 1, &["who", "target"], "_");
    r.args_are("own-unlocks", "set|kill", "UnstakeUnlocks", 1, &["who"], "_");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["target"], "_");
    r.ok_does("event", "emit", "UnStaked", &[], "Event::UnStaked { account: who, target: target, amount: out, capacity: cap }");
    r.writes_only("writes", &["StakingAccountLedger", "StakingTargetLedger", "CapacityLedger", "UnstakeUnlocks"]);
    // tokens stay frozen until they thaw
    never(k, P, "call", "*thaw|*set_freeze", &["Pallet::unstake", "Pallet::set_epoch_length", "Pallet::on_initialize"]);
}

pub fn withdraw(k: &Chk) {
    let mut r = k.run(P, "Pallet::withdraw_unstaked", &["origin"]);
    withdraw_binds(&mut r);
    r.ok_implies("signed", "ensure_signed(origin).is_ok()");
    r.ok_implies("has-chunks", "UnstakeUnlocks::<T>::get(&who).is_some()");
    r.ok_implies("something-thawed", "reaped > 0");
    r.ensures("chunks", "match UnstakeUnlocks::<T>::get(&who) { Some(l) => l, None => BoundedVec::new() }", "left");
    r.ok_does_if("freeze", "total != 0", "call", "*set_freeze", &["FreezeReason::CapacityStaking", "who", "total"], "_");
    r.args_are("freeze-args", "call", "*set_freeze", 1, &["FreezeReason::CapacityStaking", "who", "total"], "_");
    r.ok_does_if("thaw", "total == 0", "call", "*thaw", &["FreezeReason::CapacityStaking", "who"], "_");
    r.args_are("thaw-args", "call", "*thaw", 1, &["FreezeReason::CapacityStaking", "who"], "_");
    r.only_when("thaw-only", "call", "*thaw", 1, "total == 0");
    r.args_are("own-unlocks", "set|kill", "UnstakeUnlocks", 1, &["who"], "_");
    r.ok_does("event", "emit", "StakeWithdrawn", &[], "Event::StakeWithdrawn { account: who, amount: reaped }");
    r.writes_only("writes", &["UnstakeUnlocks"]);
    writers(k, P, &["UnstakeUnlocks"], &["Pallet::unstake", "Pallet::withdraw_unstaked"]);
}

pub fn spend(k: &Chk) {
    let mut r = k.run(P, "Pallet::balance", &["msa"]);
    r.returns("balance", "match CapacityLedger::<T>::get(msa) { Some(c) => c.remaining_capacity, None => 0 }");
    let mut r = k.run(P, "Pallet::deduct", &["msa", "amount"]);
    ledger(&mut r, "msa");
    r.ok_iff(&[("exists", "CapacityLedger::<T>::get(msa).is_some()"), ("affordable", "amount <= led.remaining_capacity")]);
    ledger_is(&mut r, "msa", "led.remaining_capacity - amount", "led.total_tokens_staked", "led.total_capacity_issued", "led.last_replenished_epoch");
    r.ok_does("event", "emit", "CapacityWithdrawn", &[], "Event::CapacityWithdrawn { msa_id: msa, amount: amount }");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["msa"], "_");
    r.writes_only("writes", &["CapacityLedger"]);
    let mut r = k.run(P, "Pallet::deposit", &["msa", "amount"]);
    ledger(&mut r, "msa");
    r.bind("cap", "T::CapacityPerToken::get() * amount");
    r.ok_iff(&[("exists", "CapacityLedger::<T>::get(msa).is_some()"), ("no-overflow", "amount.checked_add(led.total_tokens_staked).is_some() && cap.checked_add(led.remaining_capacity).is_some() && cap.checked_add(led.total_capacity_issued).is_some()")]);
    ledger_is(&mut r, "msa", "led.remaining_capacity + cap", "led.total_tokens_staked + amount", "led.total_capacity_issued + cap", "led.last_replenished_epoch");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["msa"], "_");
    r.writes_only("writes", &["CapacityLedger"]);
    let mut r = k.run(P, "Pallet::replenish_all_for", &["msa"]);
    ledger(&mut r, "msa");
    r.ok_iff(&[("exists", "CapacityLedger::<T>::get(msa).is_some()")]);
    ledger_is(&mut r, "msa", "led.total_capacity_issued", "led.total_tokens_staked", "led.total_capacity_issued", "CurrentEpoch::<T>::get()");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["msa"], "_");
    r.writes_only("writes", &["CapacityLedger"]);
    let mut r = k.run(P, "Pallet::replenish_by_amount", &["msa", "amount"]);
    ledger(&mut r, "msa");
    r.ok_iff(&[("exists", "CapacityLedger::<T>::get(msa).is_some()")]);
    ledger_is(&mut r, "msa", "amount.saturating_add(led.remaining_capacity)", "led.total_tokens_staked", "led.total_capacity_issued", "CurrentEpoch::<T>::get()");
    r.args_are("own-ledger", "set|kill", "CapacityLedger", 1, &["msa"], "_");
    r.writes_only("writes", &["CapacityLedger"]);
    let mut r = k.run(P, "Pallet::can_replenish", &["msa"]);
    ledger(&mut r, "msa");
    r.returns("once-per-epoch", "CapacityLedger::<T>::get(msa).is_some() && led.last_replenished_epoch < CurrentEpoch::<T>::get()");
    writers(k, P, &["CapacityLedger"], &["Pallet::stake", "Pallet::unstake"]);
}

pub fn epochs(k: &Chk) {
    let mut r = k.run(P, "Pallet::on_initialize", &["now"]);
    r.bind("start", "CurrentEpochInfo::<T>::get().epoch_start");
    r.bind("over", "now.saturating_sub(start) >= EpochLength::<T>::get()");
    r.ensures("epoch", "CurrentEpoch::<T>::get()", "if over { CurrentEpoch::<T>::get().saturating_add(1) } else { CurrentEpoch::<T>::get() }");
    r.ensures("epoch-start", "CurrentEpochInfo::<T>::get().epoch_start", "if over { now } else { start }");
    r.writes_only("writes", &["CurrentEpoch", "CurrentEpochInfo"]);
    r.no_panic("no-panic", "true", &[]);
    let mut r = k.run(P, "Pallet::set_epoch_length", &["origin", "length"]);
    r.ok_iff(&[("root", "ensure_root(origin).is_ok()"), ("within-maximum", "length <= T::MaxEpochLength::get()")]);
    r.ensures("length", "EpochLength::<T>::get()", "length");
    r.only_when("root-only", "set|kill", "EpochLength", 1, "ensure_root(origin).is_ok() && length <= T::MaxEpochLength::get()");
    r.ok_does("event", "emit", "EpochLengthUpdated", &[], "Event::EpochLengthUpdated { blocks: length }");
    r.writes_only("writes", &["EpochLength"]);
    writers(k, P, &["CurrentEpoch", "CurrentEpochInfo"], &["Pallet::on_initialize"]);
    writers(k, P, &["EpochLength"], &["Pallet::set_epoch_length"]);
    let mut r = k.run(P, "EpochLengthDefault", &[]);
    r.returns("default-length", "100");
}
