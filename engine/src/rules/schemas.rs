use super::*;
const P: &str = "pallet-schemas";
const MAX: &str = "CurrentSchemaIdentifierMaximum::<T>::get()";
/// entry point, parameters, creator, name expression (Option<payload>)
pub const CREATE: &[(&str, &[&str], &str)] = &[
    ("Pallet::create_schema", &["origin", "model", "mtype", "loc"], ""),
    ("Pallet::create_schema_v2", &["origin", "model", "mtype", "loc", "settings"], ""),
    ("Pallet::create_schema_v3", &["origin", "model", "mtype", "loc", "settings", "name"], ""),
    ("Pallet::create_schema_via_governance", &["origin", "key", "model", "mtype", "loc", "settings"], "g"),
    ("Pallet::create_schema_via_governance_v2", &["origin", "key", "model", "mtype", "loc", "settings", "name"], "g"),
];
const WRITES: &[&str] = &["SchemaInfos", "SchemaPayloads", "CurrentSchemaIdentifierMaximum", "SchemaNameToIds"];

fn go<'a>(k: &'a Chk, e: &(&str, &[&str], &str)) -> Run<'a> {
    let mut r = k.run(P, e.0, e.1);
    r.bind("max", MAX);
    r
}
fn has(e: &(&str, &[&str], &str), p: &str) -> bool {
    e.1.contains(&p)
}

/// what a schema must satisfy to be registered, and who may register it
pub fn creation(k: &Chk) {
    for e in CREATE {
        let mut r = go(k, e);
        let auth = if e.2 == "g" { "T::CreateSchemaViaGovernanceOrigin::ensure_origin(origin).is_ok()" } else { "ensure_signed(origin).is_ok()" };
        r.ok_implies("origin", auth);
        r.only_when("origin-writes", "set|kill", "SchemaInfos", 1, auth);
        r.ok_implies("min-size", "model.len() >= T::MinSchemaModelSizeBytes::get() as usize");
        r.ok_implies("max-size", "model.len() <= GovernanceSchemaModelMaxBytes::<T>::get() as usize");
        r.ok_implies("parquet-model", "mtype != ModelType::Parquet || serde_json::from_slice::<ParquetModel>(&model).is_ok()");
        r.ok_implies("avro-model", "mtype != ModelType::AvroBinary || (match from_slice::<Value>(&model) { Ok(Value::Object(_)) => true, _ => false })");
        if has(e, "settings") {
            r.ok_implies("append-only", "!settings.contains(&SchemaSetting::AppendOnly) || loc == PayloadLocation::Itemized");
        }
        let who = if e.2 == "g" { "key" } else { "ensure_signed(origin).unwrap()" };
        r.ok_does("event", "emit", "SchemaCreated", &[], &format!("Event::SchemaCreated {{ key: {who}, schema_id: max + 1 }}"));
        r.writes_only("writes", WRITES);
    }
    // proposals change nothing and carry the request unchanged
    for (f, ps, call) in [
        ("Pallet::propose_to_create_schema", &["origin", "model", "mtype", "loc", "settings"][..], "Call::create_schema_via_governance { creator_key: ensure_signed(origin).unwrap(), model: model, model_type: mtype, payload_location: loc, settings: settings }"),
        ("Pallet::propose_to_create_schema_v2", &["origin", "model", "mtype", "loc", "settings", "name"][..], "Call::create_schema_via_governance_v2 { creator_key: ensure_signed(origin).unwrap(), model: model, model_type: mtype, payload_location: loc, settings: settings, schema_name: name }"),
        ("Pallet::propose_to_create_schema_name", &["origin", "id", "name"][..], "Call::create_schema_name_via_governance { schema_id: id, schema_name: name }"),
    ] {
        let mut r = k.run(P, f, ps);
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ok_does("proposes", "call", "*propose_with_simple_majority", &["ensure_signed(origin).unwrap()", call], "_");
        r.args_are("only-proposal", "call", "*propose_with_simple_majority", 1, &["ensure_signed(origin).unwrap()", call], "_");
        r.writes_only("no-writes", &[]);
    }
    let mut r = k.run(P, "Pallet::set_max_schema_model_bytes", &["origin", "n"]);
    r.ok_implies("root", "ensure_root(origin).is_ok()");
    r.ok_implies("limit", "n <= T::SchemaModelMaxBytesBoundedVecLimit::get()");
    r.ensures("set", "GovernanceSchemaModelMaxBytes::<T>::get()", "n");
    r.only_when("root-only", "set|kill", "GovernanceSchemaModelMaxBytes", 1, "ensure_root(origin).is_ok()");
    r.writes_only("limit-writes", &["GovernanceSchemaModelMaxBytes"]);
    writers(k, P, &["GovernanceSchemaModelMaxBytes"], &["Pallet::set_max_schema_model_bytes"]);
}

/// sequential ids, stored once, returned as stored
pub fn registry(k: &Chk) {
    for e in CREATE {
        let mut r = go(k, e);
        r.sym("z");
        r.ok_implies("id-no-wrap", "max.checked_add(1).is_some()");
        r.ensures("id-advances", MAX, "max + 1");
        r.ensures("payload", "SchemaPayloads::<T>::get(max + 1)", "Some(model)");
        r.ensures("model-type", "match SchemaInfos::<T>::get(max + 1) { Some(i) => i.model_type, None => panic!() }", "mtype");
        r.ensures("location", "match SchemaInfos::<T>::get(max + 1) { Some(i) => i.payload_location, None => panic!() }", "loc");
        r.ensures("settings", "match SchemaInfos::<T>::get(max + 1) { Some(i) => i.settings.0.contains(z), None => panic!() }", if has(e, "settings") { "settings.contains(&z)" } else { "false" });
        r.ensures("has-name", "match SchemaInfos::<T>::get(max + 1) { Some(i) => i.has_name, None => panic!() }", if has(e, "name") { "name.is_some()" } else { "false" });
        for s in ["SchemaInfos", "SchemaPayloads"] {
            r.args_are("only-new-id", "set|kill", s, 1, &["max + 1"], "_");
        }
    }
    let names: Vec<&str> = CREATE.iter().map(|e| e.0).collect();
    writers(k, P, &["SchemaPayloads", "CurrentSchemaIdentifierMaximum"], &names);
    let mut n2 = names.clone();
    n2.push("Pallet::create_schema_name_via_governance");
    writers(k, P, &["SchemaInfos"], &n2);
    // retrieval
    for f in ["Pallet::get_schema_by_id", "SchemaProvider for Pallet::get_schema_by_id"] {
        let mut r = k.run(P, f, &["id"]);
        r.returns("by-id", "match (SchemaInfos::<T>::get(id), SchemaPayloads::<T>::get(id)) { (Some(i), Some(p)) => Some(SchemaResponse { schema_id: id, model: p.into_inner(), model_type: i.model_type, payload_location: i.payload_location, settings: i.settings.0.iter().collect() }), _ => None }");
    }
    for f in ["Pallet::get_schema_info_by_id", "SchemaProvider for Pallet::get_schema_info_by_id"] {
        let mut r = k.run(P, f, &["id"]);
        r.returns("info-by-id", "match SchemaInfos::<T>::get(id) { Some(i) => Some(SchemaInfoResponse { schema_id: id, model_type: i.model_type, payload_location: i.payload_location, settings: i.settings.0.iter().collect() }), None => None }");
    }
    let mut r = k.run(P, "SchemaValidator for Pallet::are_all_schema_ids_valid", &["ids"]);
    r.true_iff(&[("known", &format!("ids.iter().all(|i| *i <= {MAX})"))]);
}

/// names and versions
pub fn names(k: &Chk) {
    let parsed = |strict: &str| format!("SchemaName::try_parse::<T>(nm, {strict})");
    for (f, ps, id, nm, named) in [
        ("Pallet::create_schema_v3", &["origin", "model", "mtype", "loc", "settings", "name"][..], "(CurrentSchemaIdentifierMaximum::<T>::get() + 1)", "name.unwrap()", "name.is_some()"),
        ("Pallet::create_schema_via_governance_v2", &["origin", "key", "model", "mtype", "loc", "settings", "name"][..], "(CurrentSchemaIdentifierMaximum::<T>::get() + 1)", "name.unwrap()", "name.is_some()"),
        ("Pallet::create_schema_name_via_governance", &["origin", "id", "name"][..], "id", "name", "true"),
    ] {
        let mut r = k.run(P, f, ps);
        r.bind("nm", nm);
        r.bind("sid", id);
        r.bind_code("n", &format!("match {} {{ Ok(n) => n, Err(_) => panic!() }}", parsed("true")));
        r.bind_code("parse_ok", &format!("{}.is_ok()", parsed("true")));
        r.bind("old", "SchemaNameToIds::<T>::get(&n.namespace, &n.descriptor)");
        r.ok_implies("name-valid", &format!("!({named}) || parse_ok"));
        r.ok_implies("not-a-version-yet", &format!("!({named}) || !old.ids.contains(&sid)"));
        r.ok_implies("version-limit", &format!("!({named}) || {{ let mut v = old.ids.clone(); v.try_push(sid).is_ok() }}"));
        r.ensures_if("appended", named, "SchemaNameToIds::<T>::get(&n.namespace, &n.descriptor).ids", "{ let mut v = old.ids.clone(); v.try_push(sid); v }");
        r.only_when("name-writes", "set|kill", "SchemaNameToIds", 1, named);
        r.args_are("only-this-name", "set|kill", "SchemaNameToIds", 1, &["n.namespace", "n.descriptor"], "_");
        r.only_when("event-if-named", "emit", "SchemaNameCreated", 1, named);
        r.ok_does_if("event", named, "emit", "SchemaNameCreated", &[], "Event::SchemaNameCreated { schema_id: sid, name: vec![n.namespace, vec![46u8], n.descriptor].concat() }");
        if f.ends_with("name_via_governance") {
            r.ok_implies("governance", "T::CreateSchemaViaGovernanceOrigin::ensure_origin(origin).is_ok()");
            r.only_when("governance-writes", "set|kill", "SchemaNameToIds", 1, "T::CreateSchemaViaGovernanceOrigin::ensure_origin(origin).is_ok()");
            r.ok_implies("unnamed", "match SchemaInfos::<T>::get(id) { Some(i) => !i.has_name, None => false }");
            r.ensures("now-named", "match SchemaInfos::<T>::get(id) { Some(i) => i.has_name, None => panic!() }", "true");
            for fld in ["model_type", "payload_location", "settings"] {
                r.ensures(&format!("keeps-{fld}"), &format!("match SchemaInfos::<T>::get(id) {{ Some(i) => i.{fld}, None => panic!() }}"), &format!("match SchemaInfos::<T>::get(id) {{ Some(i) => i.{fld}, None => panic!() }}"));
            }
            r.args_are("only-this-schema", "set|kill", "SchemaInfos", 1, &["id"], "_");
            r.writes_only("writes", &["SchemaNameToIds", "SchemaInfos"]);
        }
    }
    let mut r = k.run(P, "Pallet::propose_to_create_schema_name", &["origin", "id", "name"]);
    r.bind("nm", "name");
    r.bind_code("parse_ok", &format!("{}.is_ok()", parsed("true")));
    r.ok_implies("unnamed", "match SchemaInfos::<T>::get(id) { Some(i) => !i.has_name, None => false }");
    r.ok_implies("name-valid", "parse_ok");
    writers(k, P, &["SchemaNameToIds"], &["Pallet::create_schema_v3", "Pallet::create_schema_via_governance_v2", "Pallet::create_schema_name_via_governance"]);
}

/// the name grammar and the version listing
pub fn name_format(k: &Chk) {
    let mut r = k.run(P, "SchemaName::try_parse", &["p", "strict"]);
    r.bind("s", "String::from_utf8(p).unwrap().to_lowercase().trim()");
    r.bind("c", "s.split('.').collect::<Vec<_>>()");
    r.ok_implies("ascii", "String::from_utf8(p).is_ok() && String::from_utf8(p).unwrap().is_ascii()");
    r.ok_implies("characters", "s.chars().all(|c| c.is_ascii_alphabetic() || c == '-' || c == '.')");
    r.ok_implies("parts", "c.len() == 2 || (c.len() == 1 && !strict)");
    r.ok_implies("namespace-length", "c[0].as_bytes().len() >= 3");
    r.ok_implies("namespace-max", "BoundedVec::<u8, ConstU32<30>>::try_from(c[0].as_bytes().to_vec()).is_ok()");
    r.ok_implies("namespace-hyphen", "!c[0].as_bytes().starts_with(b\"-\") && !c[0].as_bytes().ends_with(b\"-\")");
    r.ok_implies("descriptor", "c.len() != 2 || (c[1].as_bytes().len() >= 1 && !c[1].as_bytes().starts_with(b\"-\") && !c[1].as_bytes().ends_with(b\"-\"))");
    r.ok_value("parsed-namespace", "true", "SchemaName { namespace: c[0].as_bytes().to_vec(), descriptor: if c.len() == 2 { c[1].as_bytes().to_vec() } else { Vec::new() } }");
    let mut r = k.run(P, "SchemaName::get_combined_name", &["me"]);
    r.returns("combined", "vec![me.namespace, vec![46u8], me.descriptor].concat()");
    let mut r = k.run(P, "SchemaVersionId::convert_to_response", &["me", "name"]);
    r.returns("versions", "me.ids.iter().enumerate().map(|(i, id)| SchemaVersionResponse { schema_name: vec![name.namespace, vec![46u8], name.descriptor].concat(), schema_id: *id, schema_version: (i + 1) as u8 }).collect()");
    let mut r = k.run(P, "Pallet::get_schema_versions", &["name"]);
    r.bind_code("bounded", "SchemaNamePayload::try_from(name.clone())");
    r.bind_code("parsed", "match bounded { Ok(b) => SchemaName::try_parse::<T>(b, false).ok(), Err(_) => None }");
    r.bind_code("exact", "match parsed { Some(n) => SchemaNameToIds::<T>::get(&n.namespace, &n.descriptor).convert_to_response(&n), None => panic!() }");
    r.returns_if("exact-name", "match parsed { Some(n) => n.descriptor.len() > 0, None => false }", "Some(exact)");
    r.returns_if("bad-name", "parsed.is_none()", "None");
    r.bind_code("space", "match parsed { Some(n) => SchemaNameToIds::<T>::iter_prefix(&n.namespace).flat_map(|(d, v)| v.convert_to_response(&n.new_with_descriptor(d))).collect::<Vec<_>>(), None => panic!() }");
    r.returns_if("namespace", "match parsed { Some(n) => n.descriptor.len() == 0, None => false }", "Some(space)");
}

/// the bit set behind schema settings
pub fn settings(k: &Chk) {
    let c = "common-primitives";
    let mut r = k.run(c, "SchemaSettings::is_enabled", &["me", "x"]);
    r.returns("contains", "me.0.contains(x)");
    let mut r = k.run(c, "SchemaSettings::set", &["me", "x"]);
    r.sym("y");
    r.final_param("set", "true", "me", "{ let mut m = me; m.0.insert(x); m }");
    let mut r = k.run(c, "SchemaSettings::all_disabled", &[]);
    r.returns("empty", "SchemaSettings(BitFlags::EMPTY)");
    let mut r = k.run(c, "SchemaSettings::get_enabled", &["me"]);
    r.returns("get", "me.0");
}
