//! Chain specifications: the state a chain starts from and the chain a node runs.
use super::*;

const S: &str = "frequency-service";
const C: &str = "frequency-cli";

fn with(k: &Chk, f: &[&str]) -> &'static Index {
    Box::leak(Box::new(crate::load::load(std::path::Path::new(&k.root), f)))
}

pub fn genesis(k: &Chk) {
    // the pallets' own genesis
    let mut r = k.run("pallet-schemas", "GenesisConfig::build", &["me"]);
    r.ensures("limit", "GovernanceSchemaModelMaxBytes::<T>::get()", "me.initial_max_schema_model_size");
    r.writes_only("limit-only", &["GovernanceSchemaModelMaxBytes"]);
    let mut r = k.run("pallet-schemas", "Default for GenesisConfig::default", &[]);
    r.returns("usual-limit", "GenesisConfig { initial_max_schema_model_size: 1024, _config: Default::default() }");

    // every vesting schedule of the genesis is kept, funded and frozen
    for had in [0, 1] {
        let assume = format!("me.schedules.len() == 1 && ReleaseSchedules::<T>::get(me.schedules[0].0).len() == {had}");
        let mut r = k.run_unrolled("pallet-time-release", "GenesisConfig::build", &["me"], &["ensure_valid_release_schedule"], &assume, 1);
        r.bind("who", "me.schedules[0].0");
        r.bind("item", "ReleaseSchedule { start: me.schedules[0].1, period: me.schedules[0].2, period_count: me.schedules[0].3, per_period: me.schedules[0].4 }");
        r.bind("before", "ReleaseSchedules::<T>::get(who)");
        r.bind_code("amount", "match ensure_valid_release_schedule(item) { Ok(v) => v, Err(_) => 0 }");
        r.bind_code("old", if had == 1 { "match ensure_valid_release_schedule(before[0]) { Ok(v) => v, Err(_) => 0 }" } else { "0" });
        r.ok_does(&format!("vesting-{had}/frozen"), "call", "*set_freeze", &["FreezeReason::TimeReleaseVesting", "who", "old + amount"], "_");
        r.args_are(&format!("vesting-{had}/only-frozen"), "call", "*set_freeze", 1, &["FreezeReason::TimeReleaseVesting", "who", "old + amount"], "_");
        r.ok_implies(&format!("vesting-{had}/valid"), "ensure_valid_release_schedule(item).is_ok()");
        r.ok_implies(&format!("vesting-{had}/funded"), "T::Currency::balance(who) >= old + amount");
        r.ensures(&format!("vesting-{had}/kept"), "ReleaseSchedules::<T>::get(who)", "{ let mut l = before; l.try_push(item); l }");
        r.writes_only(&format!("vesting-{had}/only"), &["ReleaseSchedules"]);
        r.ends(&format!("vesting-{had}"));
    }

    // the networks for development and testing
    let local = with(k, &["frequency-local"]);
    let dev = with(k, &["frequency-no-relay"]);
    let main = k.ixs["frequency"];
    let to_json = |r: &mut Run, accounts: &str, bond: &str, endowed: &str| {
        for (n, phi) in [
            ("balances", format!("a0.balances.balances == {endowed}")),
            ("para-id", "a0.parachain_info.parachain_id == id".into()),
            ("collators", format!("a0.collator_selection.invulnerables == {accounts}.iter().map(|x| x.0).collect()")),
            ("bond", format!("a0.collator_selection.candidacy_bond == {bond}")),
            ("session-keys", format!("a0.session.keys == {accounts}.iter().map(|x| (x.0, x.0, SessionKeys {{ aura: x.1 }})).collect()")),
            ("council", "a0.council.members == council".into()),
            ("committee", "a0.technical_committee.members == committee".into()),
        ] {
            r.each(n, "call", "serde_json::to_value", 1, &phi);
        }
    };
    for (ix, f) in [(local, "frequency_paseo::testnet_genesis"), (local, "frequency_rococo::testnet_genesis"), (dev, "frequency_dev::development_genesis")] {
        let mut r = k.run_ix(ix, S, f, &["inv", "root", "endowed", "council", "committee", "id"], &[], "");
        to_json(&mut r, "inv", "16000000", "endowed.iter().map(|k| (k, 1152921504606846976)).collect()");
        r.each("sudo", "call", "serde_json::to_value", 1, "a0.sudo.key == root");
    }
    let mut r = k.run_ix(main, S, "frequency::frequency_genesis", &["inv", "endowed", "council", "committee", "bond", "id"], &[], "");
    to_json(&mut r, "inv", "bond", "endowed");
    r.each("no-candidates", "call", "serde_json::to_value", 1, "a0.collator_selection.desired_candidates == 0");

    let acct = |n: &str| format!("get_account_id_from_seed::<sr25519::Public>(\"{n}\")");
    let accts = |v: &[&str]| v.iter().map(|n| acct(n)).collect::<Vec<_>>().join(", ");
    let known = ["Alice", "Bob", "Charlie", "Dave", "Eve", "Ferdie", "Alice//stash", "Bob//stash", "Charlie//stash", "Dave//stash", "Eve//stash", "Ferdie//stash"];
    for (ix, f, g, id, relay, kind) in [
        (local, "frequency_paseo::local_paseo_testnet_config", "testnet_genesis", 2000, "paseo-local", "Local"),
        (local, "frequency_rococo::local_rococo_testnet_config", "testnet_genesis", 2000, "rococo-local", "Local"),
        (dev, "frequency_dev::development_config", "development_genesis", 1000, "dev", "Development"),
    ] {
        let mut r = k.run_ix(ix, S, f, &[], &[g, "get_account_id_from_seed", "get_collator_keys_from_seed"], "");
        r.bind_code("authors", &format!("vec![({}, get_collator_keys_from_seed(\"Alice\")), ({}, get_collator_keys_from_seed(\"Bob\"))]", acct("Alice"), acct("Bob")));
        r.bind_code("alice", &acct("Alice"));
        r.bind_code("endowed", &format!("vec![{}, common_runtime::constants::TREASURY_PALLET_ID.into_account_truncating()]", accts(&known)));
        r.bind_code("council", &format!("vec![{}]", accts(&["Alice", "Charlie", "Eve"])));
        r.bind_code("committee", &format!("vec![{}]", accts(&["Bob", "Dave"])));
        r.args_are("genesis", "call", g, 1, &["authors", "Some(alice)", "endowed", "council", "committee", &id.to_string()], "_");
        r.bind("spec", &format!("{g}(authors, Some(alice), endowed, council, committee, {id})"));
        r.each("started-from", "call", "with_genesis_config", 1, "a1 == spec");
        r.each("para", "call", "ChainSpec::builder", 1, &format!("a1 == Extensions {{ relay_chain: \"{relay}\", para_id: {id} }}"));
        r.each("kind", "call", "with_chain_type", 1, &format!("a1 == ChainType::{kind}"));
    }
    // the main network: a fixed supply, no super-user
    let mut r = k.run_ix(main, S, "frequency::benchmark_mainnet_config", &[], &["frequency_genesis"], "");
    r.each("supply", "call", "frequency_genesis", 1, &format!("{} <= 100000000000000000", (0..20).map(|i| format!("a1[{i}].1")).collect::<Vec<_>>().join(" + ")));
    r.each("authors", "call", "frequency_genesis", 1, "a0.len() == 6");
    r.each("holders", "call", "frequency_genesis", 1, "a1.len() == 20");
    r.each("para-id", "call", "frequency_genesis", 1, "a5 == 2091");
    r.each("bond", "call", "frequency_genesis", 1, "a4 == 10000000000000");
    r.each("para", "call", "ChainSpec::builder", 1, "a1 == Extensions { relay_chain: \"polkadot\", para_id: 2091 }");
    r.each("kind", "call", "with_chain_type", 1, "a1 == ChainType::Live");
    for (ix, f, symbol) in [(main, "frequency::benchmark_mainnet_config", "FRQCY"), (local, "frequency_paseo::local_paseo_testnet_config", "UNIT"), (local, "frequency_rococo::local_rococo_testnet_config", "UNIT"), (dev, "frequency_dev::development_config", "UNIT")] {
        let mut r = k.run_ix(ix, S, f, &[], &["frequency_genesis", "testnet_genesis", "development_genesis", "get_properties"], "");
        r.args_are("token", "call", "get_properties", 1, &[&format!("\"{symbol}\""), "8", "90"], "_");
    }
    let mut r = k.run(S, "get_properties", &["symbol", "decimals", "ss58"]);
    r.bind("p", "{ let mut p = Properties::new(); p.insert(\"tokenSymbol\", symbol); p.insert(\"tokenDecimals\", decimals); p.insert(\"ss58Format\", ss58); p }");
    r.returns("properties", "p");
    // well-known accounts come from their well-known seeds
    let mut r = k.run(S, "get_public_from_seed", &["seed"]);
    r.each("derived", "call", "*from_string", 1, "a0 == [\"//\", seed].concat()");
}

pub fn which(k: &Chk) {
    let specs = ["benchmark_mainnet_config", "load_frequency_spec", "development_config", "local_rococo_testnet_config", "local_paseo_testnet_config", "load_frequency_paseo_spec", "load_frequency_rococo_spec", "identify"];
    for (feat, ids) in [
        ("frequency", vec![("frequency-bench", "benchmark_mainnet_config"), ("frequency", "load_frequency_spec"), ("", "load_frequency_spec")]),
        ("frequency-no-relay", vec![("dev", "development_config"), ("frequency-no-relay", "development_config"), ("", "development_config")]),
        ("frequency-local", vec![("frequency-rococo-local", "local_rococo_testnet_config"), ("frequency-paseo-local", "local_paseo_testnet_config"), ("", "local_paseo_testnet_config")]),
        (
            "frequency-testnet",
            vec![
                ("frequency-testnet", "load_frequency_paseo_spec"),
                ("frequency-paseo", "load_frequency_paseo_spec"),
                ("paseo", "load_frequency_paseo_spec"),
                ("testnet", "load_frequency_paseo_spec"),
                ("frequency-rococo", "load_frequency_rococo_spec"),
                ("rococo", "load_frequency_rococo_spec"),
                ("", "load_frequency_paseo_spec"),
            ],
        ),
    ] {
        let ix = with(k, &[feat, "cli"]);
        let mut r = k.run_ix(ix, C, "load_spec", &["id"], &specs, "");
        let named: String = ids.iter().filter(|x| !x.0.is_empty()).map(|x| format!(" && id != \"{}\"", x.0)).collect();
        for (id, f) in ids {
            r.ok_value(&format!("{feat}/{}", if id.is_empty() { "default" } else { id }), &if id.is_empty() { format!("id.is_empty(){named}") } else { format!("id == \"{id}\"") }, &format!("{f}()"));
        }
        let own = match feat {
            "frequency" => "who == ChainIdentity::Frequency",
            "frequency-no-relay" => "who == ChainIdentity::FrequencyDev",
            "frequency-local" => "who == ChainIdentity::FrequencyLocal",
            _ => "who == ChainIdentity::FrequencyRococo || who == ChainIdentity::FrequencyPaseo",
        };
        r.bind_code("who", "match chain_spec::DummyChainSpec::from_json_file(std::path::PathBuf::from(id)) { Ok(s) => s.identify(), Err(_) => none }");
        r.only_when(&format!("{feat}/own-file"), "call", "ChainSpec::from_json_file", 1, own);
    }
    let ix = with(k, &["cli"]);
    let mut r = k.run_ix(ix, C, "IdentifyChain for identify", &["me"], &[], "");
    for (id, who) in [("frequency", "Frequency"), ("frequency-rococo", "FrequencyRococo"), ("frequency-paseo", "FrequencyPaseo"), ("frequency-local", "FrequencyLocal"), ("dev", "FrequencyDev")] {
        r.returns_if(who, &format!("me.id() == \"{id}\""), &format!("ChainIdentity::{who}"));
    }
}
