use super::*;
const P: &str = "pallet-time-release";

fn frozen(s: &str, now: &str) -> String {
    format!("{s}.per_period * ({s}.period_count.saturating_sub({now}.saturating_sub({s}.start) / {s}.period))", s = s, now = now)
}
pub fn valid(s: &str) -> String {
    format!("{s}.period != 0 && {s}.period_count != 0 && {s}.period.checked_mul({s}.period_count).is_some() && ({s}.period * {s}.period_count).checked_add({s}.start).is_some() && {s}.per_period.checked_mul({s}.period_count).is_some() && {s}.per_period * {s}.period_count >= T::MinReleaseTransfer::get()", s = s)
}

pub fn schedule_math(k: &Chk) {
    let mut r = k.run(P, "ReleaseSchedule::end", &["s"]);
    r.returns("end", "match s.period.checked_mul(s.period_count) { Some(x) => x.checked_add(s.start), None => None }");
    let mut r = k.run(P, "ReleaseSchedule::total_amount", &["s"]);
    r.returns("total", "s.per_period.checked_mul(s.period_count)");
    let mut r = k.run(P, "ReleaseSchedule::frozen_amount", &["s", "t"]);
    r.returns_if("frozen", "s.period != 0", &frozen("s", "t"));
    r.no_panic("valid-schedule", "s.period != 0 && s.per_period.checked_mul(s.period_count.saturating_sub(t.saturating_sub(s.start) / s.period)).is_some()", &[]);
}

pub fn transfer(k: &Chk) {
    let mut r = k.run(P, "Pallet::transfer", &["origin", "dest", "schedule"]);
    r.bind("from", "T::TransferOrigin::ensure_origin(origin).unwrap()");
    r.bind("to", "T::Lookup::lookup(dest).unwrap()");
    r.bind("now", "T::BlockNumberProvider::current_block_number()");
    r.bind("total", "schedule.per_period * schedule.period_count");
    r.bind("old", &format!("{{ let mut v = ReleaseSchedules::<T>::get(&to); v.retain(|s| {} != 0); v }}", frozen("s", "now")));
    r.bind("locked", &format!("old.iter().fold(0, |a, s| a + {})", frozen("s", "now")));
    r.ok_implies("origin", "T::TransferOrigin::ensure_origin(origin).is_ok()");
    r.ok_implies("valid-schedule", &valid("schedule"));
    r.ok_implies("self-has-funds", "to != from || T::Currency::balance(&from) >= total");
    r.ok_implies("no-overflow", "locked.checked_add(total).is_some()");
    r.ok_does("moves-total", "call", "*transfer", &["from", "to", "total"], "_");
    r.args_are("moves-only-total", "call", "*transfer", 1, &["from", "to", "total"], "_");
    r.ok_does("freezes", "call", "*set_freeze", &["FreezeReason::TimeReleaseVesting", "to", "locked + total"], "_");
    r.args_are("freezes-only", "call", "*set_freeze", 1, &["FreezeReason::TimeReleaseVesting", "to", "locked + total"], "_");
    r.ensures("schedules", "ReleaseSchedules::<T>::get(&to)", "{ let mut v = old.clone(); v.try_push(schedule); v }");
    r.ok_implies("fits", "{ let mut v = old.clone(); v.try_push(schedule).is_ok() }");
    r.ok_does("event", "emit", "ReleaseScheduleAdded", &[], "Event::ReleaseScheduleAdded { from: from, to: to, release_schedule: schedule }");
    r.writes_only("writes", &["ReleaseSchedules"]);
    never(k, P, "call", "*thaw", &["Pallet::transfer"]);
}

pub fn claim(k: &Chk) {
    for (f, params, who) in [("Pallet::claim", &["origin"][..], "ensure_signed(origin).unwrap()"), ("Pallet::claim_for", &["origin", "dest"][..], "T::Lookup::lookup(dest).unwrap()")] {
        let mut r = k.run(P, f, params);
        r.bind("who", who);
        r.bind("now", "T::BlockNumberProvider::current_block_number()");
        r.bind("left", &format!("{{ let mut v = ReleaseSchedules::<T>::get(&who); v.retain(|s| {} != 0); v }}", frozen("s", "now")));
        r.bind("locked", &format!("left.iter().fold(0, |a, s| a + {})", frozen("s", "now")));
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ensures("schedules", "ReleaseSchedules::<T>::get(&who)", "left");
        r.args_are("own-schedules", "set|kill", "ReleaseSchedules", 1, &["who"], "_");
        r.ok_does_if("freeze-remaining", "locked != 0", "call", "*set_freeze", &["FreezeReason::TimeReleaseVesting", "who", "locked"], "_");
        r.args_are("freeze-args", "call", "*set_freeze", 1, &["FreezeReason::TimeReleaseVesting", "who", "locked"], "_");
        r.only_when("freeze-nonzero", "call", "*set_freeze", 1, "locked != 0");
        r.ok_does_if("thaw-when-done", "locked == 0", "call", "*thaw", &["FreezeReason::TimeReleaseVesting", "who"], "_");
        r.only_when("thaw-only-when-done", "call", "*thaw", 1, "locked == 0");
        r.args_are("thaw-args", "call", "*thaw", 1, &["FreezeReason::TimeReleaseVesting", "who"], "_");
        r.ok_does("event", "emit", "Claimed", &[], "Event::Claimed { who: who, amount: locked }");
        r.writes_only("writes", &["ReleaseSchedules"]);
    }
    never(k, P, "call", "*transfer", &["Pallet::claim", "Pallet::claim_for", "Pallet::update_release_schedules"]);
}

pub fn update(k: &Chk) {
    let mut r = k.run(P, "Pallet::update_release_schedules", &["origin", "who", "schedules"]);
    r.bind("acct", "T::Lookup::lookup(who).unwrap()");
    r.bind("total", "schedules.iter().fold(0, |a, s| a + s.per_period * s.period_count)");
    r.ok_implies("root", "ensure_root(origin).is_ok()");
    r.only_when("root-writes", "set|kill", "ReleaseSchedules", 2, "ensure_root(origin).is_ok()");
    r.only_when("root-freeze", "call", "*set_freeze", 1, "ensure_root(origin).is_ok()");
    r.only_when("root-thaw", "call", "*thaw", 1, "ensure_root(origin).is_ok()");
    r.ok_implies("all-valid", &format!("schedules.iter().all(|s| {})", valid("s")));
    r.ok_implies("funded", "schedules.len() == 0 || T::Currency::balance(&acct) >= total");
    r.ok_implies("bounded", "BoundedVec::<ReleaseScheduleOf<T>, T::MaxReleaseSchedules>::try_from(schedules.clone()).is_ok()");
    r.ensures("schedules", "ReleaseSchedules::<T>::get(&acct)", "schedules");
    r.ok_does_if("freeze", "schedules.len() != 0", "call", "*set_freeze", &["FreezeReason::TimeReleaseVesting", "acct", "total"], "_");
    r.args_are("freeze-args", "call", "*set_freeze", 1, &["FreezeReason::TimeReleaseVesting", "acct", "total"], "_");
    r.ok_does_if("thaw", "schedules.len() == 0", "call", "*thaw", &["FreezeReason::TimeReleaseVesting", "acct"], "_");
    r.only_when("thaw-only-empty", "call", "*thaw", 1, "schedules.len() == 0");
    r.writes_only("writes", &["ReleaseSchedules"]);
    writers(k, P, &["ReleaseSchedules"], &["Pallet::claim", "Pallet::claim_for", "Pallet::transfer", "Pallet::update_release_schedules"]);
    // genesis
    let mut r = k.run(P, "GenesisConfig::build", &["me"]);
    r.floor_ev("genesis", "set", "ReleaseSchedules", 1);
}
