//! Storage upgrades of the pallets.
use super::*;

const VERSION: &str = "Pallet::<T>::on_chain_storage_version()";

pub fn migrations(k: &Chk) {
    let c = "pallet-messages";
    for f in ["MigrateToV2::on_runtime_upgrade", "migrate_to_v2"] {
        let mut r = k.run(c, f, &[]);
        let old = format!("{VERSION} < 2");
        r.effects_are("messages", "set", "MessagesV2", &format!("if {old} {{ for (block, schema, messages) in old::Messages::<T>::iter() {{ for m in messages {{ MessagesV2::<T>::insert((block, schema, m.index), Message {{ payload: m.payload, provider_msa_id: m.provider_msa_id, msa_id: m.msa_id }}); }} }} }}"));
        r.ok_does_if("old-removed", &old, "clear", "Messages", &[], "_");
        r.ok_does_if("version", &old, "call", "put", &["StorageVersion::new(2)"], "_");
        r.only_when("once", "set|kill|clear", "*", 2, &old);
        r.only_when("once-version", "call", "put", 1, &old);
        r.writes_only("writes", &["MessagesV2", "Messages"]);
    }
    let c = "pallet-time-release";
    let mut r = k.run(c, "MigrationToV2::on_runtime_upgrade", &[]);
    let old = format!("{VERSION} < 2");
    r.effects_are("freezes", "call", "*set_freeze", &format!("if {old} {{ for (a, _) in ReleaseSchedules::<T>::iter() {{ T::Currency::set_freeze(FreezeReason::TimeReleaseVesting, a, ReleaseSchedules::<T>::get(a).iter().fold(0, |acc, s| acc.saturating_add(match s.period_count.checked_mul(s.per_period) {{ Some(x) => x, None => 0 }}))); }} }}"));
    r.effects_are("unlocks", "call", "*remove_lock", &format!("if {old} {{ for (a, _) in ReleaseSchedules::<T>::iter() {{ OldCurrency::remove_lock(*b\"timeRels\", a); }} }}"));
    r.before("frozen-before-unlocked", "call", "*set_freeze", "call", "*remove_lock");
    r.ok_does_if("version", &old, "call", "put", &["StorageVersion::new(2)"], "_");
    r.only_when("once-version", "call", "put", 1, &old);
    r.writes_only("writes", &[]);
    let c = "pallet-schemas";
    let names = [(5, "update"), (6, "profile"), (7, "public-key-key-agreement"), (8, "public-follows"), (9, "private-follows"), (10, "private-connections")];
    let hash = helpers::hex("4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1");
    let mainnet = format!("frame_system::Pallet::<T>::block_hash(0).encode() == [{hash}]");
    let table = names.iter().map(|(i, n)| format!("({i}, b\"dsnp.{n}\")")).collect::<Vec<_>>().join(", ");
    let mut r = k.run(c, "get_known_schemas", &[]);
    r.returns("table", &format!("if {mainnet} {{ vec![{table}] }} else {{ vec![] }}"));
    let old = format!("{VERSION} < 4");
    // each known schema, where it is the one that exists
    for (i, n) in names {
        let alone = names.iter().filter(|x| x.0 != i).map(|x| format!("SchemaInfos::<T>::get({}).is_none()", x.0)).collect::<Vec<_>>().join(" && ");
        let mut r = k.run_unrolled(c, "MigrateToV4::on_runtime_upgrade", &[], &[], &alone, names.len());
        r.bind_code("name", &format!("match BoundedVec::try_from(b\"dsnp.{n}\".to_vec()) {{ Ok(b) => SchemaName::try_parse::<T>(b, true).ok(), Err(_) => None }}"));
        r.bind("onmain", &mainnet);
        let info = format!("match SchemaInfos::<T>::get({i}) {{ Some(mut s) => if name.is_some() {{ s.has_name = true; SchemaInfos::<T>::insert({i}, s); }}, None => {{}} }}");
        let ids = format!("if SchemaInfos::<T>::get({i}).is_some() {{ match name {{ Some(n) => {{ let mut l = BoundedVec::default(); l.try_push({i}); SchemaNameToIds::<T>::insert(n.namespace, n.descriptor, SchemaVersionId {{ ids: l }}); }}, None => {{}} }} }}");
        r.effects_are(&format!("named-{i}"), "set", "SchemaInfos", &format!("if {old} && onmain {{ {info} }}"));
        r.effects_are(&format!("versions-{i}"), "set", "SchemaNameToIds", &format!("if {old} && onmain {{ {ids} }}"));
    }
    let mut r = k.run(c, "MigrateToV4::on_runtime_upgrade", &[]);
    r.ok_does_if("version", &old, "call", "put", &["StorageVersion::new(4)"], "_");
    r.only_when("once-version", "call", "put", 1, &old);
    r.writes_only("writes", &["SchemaInfos", "SchemaNameToIds"]);
    for (c, n) in [("pallet-capacity", 3), ("pallet-messages", 2), ("pallet-msa", 1), ("pallet-passkey", 0), ("pallet-schemas", 4), ("pallet-time-release", 2)] {
        declared(k, c, n);
    }
}

/// a fresh chain starts at the version its pallet declares, so the declared version is the last upgrade's
fn declared(k: &Chk, c: &str, want: u32) {
    let attr = k.ix.structs.iter().filter(|s| s.krate == c && s.name == "Pallet").find_map(|s| {
        let a = s.item.attrs.iter().find(|a| a.path().segments.last().map_or(false, |x| x.ident == "storage_version"))?;
        Some((a.parse_args::<syn::Expr>().ok()?, s.file.clone()))
    });
    let Some((e, at)) = attr else {
        k.rep.borrow_mut().ob("declared", &format!("{c}/storage-version"), false, "the pallet declares its storage version", c, || "no #[pallet::storage_version] on the pallet".to_string());
        return;
    };
    let _ = at;
    let mut r = k.run_expr_n(k.ix, c, "storage-version", &[], &[], &quote::quote!(#e).to_string(), 2);
    r.returns(&format!("{c}-storage-version"), &format!("StorageVersion::new({want})"));
}
