//! Hand-written encodings, comparisons, conversions and defaults of the shared types.
use super::*;
const C: &str = "common-primitives";

/// the hand-written implementation, unless the type now derives the (same) standard one
fn own<'a>(k: &Chk<'a>, krate: &str, trait_: &str, ty: &str, f: &str, params: &[&str]) -> Option<Run<'a>> {
    let q = format!("{} for {}::{}", trait_, ty, f);
    if k.find_fn(k.ix, krate, &q).is_none() {
        if let Some(s) = k.ix.structs.iter().find(|s| s.krate == krate && s.name == ty) {
            let derived = s.item.attrs.iter().any(|a| {
                let t = quote::quote!(#a).to_string();
                t.contains("derive") && t.split(|c: char| !c.is_alphanumeric()).any(|w| w == trait_ || (trait_ == "PartialEq" && w == "PartialEqNoBound") || (trait_ == "Default" && w == "DefaultNoBound"))
            });
            let whole = s.item.fields.iter().all(|f| f.attrs.iter().all(|a| !quote::quote!(#a).to_string().contains("skip")));
            if derived && whole {
                k.rep.borrow_mut().ob("derived", &format!("{}/{}/derived-{}", krate, ty, trait_), true, &format!("{} derives {}", ty, trait_), &s.file, || String::new());
                return None;
            }
        }
    }
    Some(k.run(krate, &q, params))
}

pub fn whole(k: &Chk) {
    for id in ["DelegatorId", "ProviderId"] {
        if let Some(mut r) = own(k, C, "Encode", id, "encode", &["d"]) {
            r.returns("as-msa-id", "d.0.encode()");
        }
        if let Some(mut r) = own(k, C, "Decode", id, "decode", &["input"]) {
            r.ok_iff(&[("any-msa-id", "u64::decode(input).is_ok()")]);
            r.ok_value("as-msa-id", "true", &format!("{}(u64::decode(input).unwrap())", id));
        }
        let mut r = k.run(C, &format!("From for {}::from", id), &["t"]);
        r.returns("same-id", &format!("{}(t)", id));
    }
    for (ty, fields) in [("DelegationResponse", ["provider_id", "permissions"]), ("SchemaGrant", ["schema_id", "revoked_at"]), ("Delegation", ["revoked_at", "schema_permissions"])] {
        let Some(mut r) = own(k, C, "PartialEq", ty, "eq", &["a", "b"]) else { continue };
        r.true_iff(&[("every-field", &format!("a.{0} == b.{0} && a.{1} == b.{1}", fields[0], fields[1]))]);
    }
    if let Some(mut r) = own(k, C, "Default", "Delegation", "default", &[]) {
        r.returns("nothing-granted", "Delegation { revoked_at: 0, schema_permissions: BTreeMap::new() }");
    }
    for n in 0..2 {
        let mut r = k.run(C, &format!("From for MessageSourceId::from#{}", n), &["t"]);
        r.returns("same-id", "t.0");
    }
    let mut r = k.run(C, "SchemaGrant::new", &["schema", "at"]);
    r.returns("as-given", "SchemaGrant { schema_id: schema, revoked_at: at }");
    let mut r = k.run("pallet-capacity", "Default for StakingDetails::default", &[]);
    r.returns("nothing-staked", "StakingDetails { active: 0, staking_type: StakingType::MaximumCapacity }");
    // settings travel as their bits
    let mut r = k.run(C, "Encode for SchemaSettings::using_encoded", &["s", "f"]);
    r.returns("bits", "s.0.bits().using_encoded(f)");
    let mut r = k.run(C, "Decode for SchemaSettings::decode", &["input"]);
    r.ok_iff(&[("bits", "u16::decode(input).is_ok()"), ("known-flags", "BitFlags::from_bits(u16::decode(input).unwrap() as u16).is_ok()")]);
    r.ok_value("bits", "true", "SchemaSettings(BitFlags::from_bits(u16::decode(input).unwrap() as u16).unwrap())");
    // pages
    if let Some(mut r) = own(k, "pallet-stateful-storage", "PartialEq", "Page", "eq", &["a", "b"]) {
        r.true_iff(&[("every-field", "a.nonce == b.nonce && a.data == b.data")]);
    }
    let mut r = k.run("pallet-stateful-storage", "From for Page::from", &["b"]);
    r.returns("fresh-page", "Page { nonce: 0, data: b }");
    let mut r = k.run("common-runtime", "Default for ProxyType::default", &[]);
    r.returns("any", "ProxyType::Any");
    // events as reported to clients
    let mut r = k.run_ix(k.ixs["std"], C, "From for RpcEvent::from", &["e"], &[], "");
    r.bind("bytes", "Encode::encode(&e.event)");
    r.returns("every-part", "RpcEvent { phase: match e.phase { Phase::ApplyExtrinsic(i) => Some(i), _ => None }, pallet: bytes[0], event: bytes[1], data: bytes[2..].to_vec() }");
}
