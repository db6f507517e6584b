use super::*;
const P: &str = "common-primitives";
const H: &str = "common-helpers";

pub fn avro(k: &Chk) {
    let mut r = k.run(H, "validate_raw_avro_schema", &["s"]);
    r.ok_iff(&[("utf8", "String::from_utf8(s.clone()).is_ok()"), ("parses", "Schema::parse_str(&String::from_utf8(s.clone()).unwrap()).is_ok()")]);
    let mut r = k.run(H, "fingerprint_raw_schema", &["s"]);
    r.ok_iff(&[("parses", "Schema::parse_str(s).is_ok()")]);
    r.ok_value("canonical", "true", "(Schema::parse_str(s).unwrap(), Schema::parse_str(s).unwrap().canonical_form().as_bytes().to_vec())");
    let mut r = k.run(H, "translate_schema", &["s"]);
    r.ok_iff(&[("utf8", "core::str::from_utf8(&s).is_ok()"), ("parses", "Schema::parse_str(core::str::from_utf8(&s).unwrap()).is_ok()")]);
    r.ok_value("schema", "true", "Schema::parse_str(core::str::from_utf8(&s).unwrap()).unwrap()");
    let mut r = k.run(H, "get_schema_data_writer", &["s"]);
    r.returns("writer", "Writer::with_codec(s, Vec::new(), Codec::Snappy)");
    let mut r = k.run(H, "populate_schema_and_serialize", &["s", "records"]);
    r.bind("blank", "Record::new(Writer::with_codec(s, Vec::new(), Codec::Snappy).schema())");
    r.bind("filled", "{ match blank { Some(b) => { let mut l = b; for (n, v) in records.iter() { l.put(n, v.clone()); } to_avro_datum(s, l) }, None => panic!() } }");
    r.ok_iff(&[("record-schema", "blank.is_some()"), ("encodes", "filled.is_ok()")]);
    r.ok_value("every-field", "true", "filled.unwrap()");
    let mut r = k.run(H, "get_schema_data_map", &["data", "s"]);
    r.bind("datum", "from_avro_datum(s, &mut Cursor::new(data), None)");
    r.ok_iff(&[("decodes", "datum.is_ok()"), ("is-record", "matches!(datum.unwrap(), SchemaValue::Record(_))")]);
    r.ok_value("every-field", "true", "match datum.unwrap() { SchemaValue::Record(record) => { let mut m = HashMap::<String, SchemaValue>::new(); for (n, v) in record.iter() { m.insert(n.clone(), v.clone()); } m }, _ => HashMap::new() }");
}

pub fn wrapping(k: &Chk) {
    let mut r = k.run(P, "wrap_binary_data", &["data"]);
    r.returns("envelope", "{ let mut v: Vec<u8> = vec![]; v.extend(\"<Bytes>\".as_bytes()); v.extend(data); v.extend(\"</Bytes>\".as_bytes()); v }");
}
pub fn hex(s: &str) -> String {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap().to_string()).collect::<Vec<_>>().join(", ")
}
pub fn chain_type(k: &Chk) {
    let main = hex("4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1");
    let test = hex("203c6838fc78ea3660a2f298a58d859519c72a5efdc0f194abd6f0d5ce1838e0");
    let mut r = k.run(P, "get_chain_type_by_genesis_hash", &["h"]);
    r.returns("chain", &format!("if h == [{}] {{ DetectedChainType::FrequencyMainNet }} else if h == [{}] {{ DetectedChainType::FrequencyPaseoTestNet }} else {{ DetectedChainType::Unknown }}", main, test));
}

/// serde adapters used by every RPC response type
pub fn byte_text(k: &Chk) {
    let std = k.ixs["std"];
    let mut r = k.run_ix(std, P, "as_string::serialize", &["b", "s"], &[], "");
    r.ok_implies("utf8", "std::str::from_utf8(b).is_ok()");
    r.returns_if("text", "std::str::from_utf8(b).is_ok()", "std::str::from_utf8(b).unwrap().serialize(s)");
    let mut r = k.run_ix(std, P, "as_string::deserialize", &["d"], &[], "");
    r.ok_iff(&[("text", "String::deserialize(d).is_ok()")]);
    r.ok_value("bytes", "true", "String::deserialize(d).unwrap().into_bytes()");
    let mut r = k.run_ix(std, P, "as_string_option::serialize", &["b", "s"], &[], "");
    r.ok_implies("utf8", "b.is_none() || std::str::from_utf8(b.unwrap()).is_ok()");
    r.returns_if("text", "b.is_some() && std::str::from_utf8(b.unwrap()).is_ok()", "std::str::from_utf8(b.unwrap()).unwrap().serialize(s)");
    r.returns_if("none", "b.is_none()", "s.serialize_none()");
    let mut r = k.run_ix(std, P, "as_string_option::deserialize", &["d"], &[], "");
    r.ok_iff(&[("text", "String::deserialize(d).is_ok()")]);
    r.ok_value("bytes", "true", "if String::deserialize(d).unwrap().into_bytes().len() == 0 { None } else { Some(String::deserialize(d).unwrap().into_bytes()) }");
    let mut r = k.run_ix(std, P, "as_hex::serialize", &["b", "s"], &[], "");
    r.returns("hex", "impl_serde::serialize::serialize(b.as_slice(), s)");
    let mut r = k.run_ix(std, P, "as_hex::deserialize", &["d"], &[], "");
    r.returns("hex", "impl_serde::serialize::deserialize(d)");
    let mut r = k.run_ix(std, P, "as_hex_option::serialize", &["b", "s"], &[], "");
    r.returns("hex", "match b { Some(x) => impl_serde::serialize::serialize(x.as_slice(), s), None => s.serialize_none() }");
    let mut r = k.run_ix(std, P, "as_hex_option::deserialize", &["d"], &[], "");
    r.ok_iff(&[("hex", "impl_serde::serialize::deserialize(d).is_ok()")]);
    r.ok_value("some", "true", "Some(impl_serde::serialize::deserialize(d).unwrap())");
    // identifiers travel as their plain 64-bit number
    for t in ["DelegatorId", "ProviderId"] {
        let mut r = k.run(P, &format!("{}::encode", t), &["x"]);
        r.returns("encode", "x.0.encode()");
        let mut r = k.run(P, &format!("{}::decode", t), &["i"]);
        r.ok_iff(&[("decodes", "u64::decode(i).is_ok()")]);
        r.ok_value("value", "true", &format!("{}(u64::decode(i).unwrap())", t));
    }
    let mut r = k.run(P, "RpcEvent::from", &["e"]);
    r.bind("bytes", "Encode::encode(&e.event)");
    r.returns("event", "RpcEvent { phase: match e.phase { Phase::ApplyExtrinsic(i) => Some(i), _ => None }, pallet: bytes[0], event: bytes[1], data: bytes[2..].to_vec() }");
}

pub fn sealing_mode(k: &Chk) {
    let mut r = k.run("cli-opt", "SealingMode::fmt", &["m", "f"]);
    r.returns("names", "match m { SealingMode::Instant => f.write_str(\"Instant\"), SealingMode::Manual => f.write_str(\"Manual\"), SealingMode::Interval => f.write_str(\"Interval\") }");
    // the parsed names come from the variants themselves
    let e = k.ix.enums.iter().find(|e| e.krate == "cli-opt" && e.name == "SealingMode");
    let mut rp = k.rep.borrow_mut();
    let names: Vec<String> = e.map_or(vec![], |e| e.variants.clone());
    rp.ob("table", "SealingMode/variants", names == ["Instant", "Manual", "Interval"], "the sealing modes are instant, manual and interval", "cli-opt SealingMode", || format!("{:?}", names));
    let mut attrs: Vec<String> = vec![];
    if let Some(e) = e {
        attrs.extend(e.item.attrs.iter().map(|a| quote::quote!(#a).to_string()));
        for v in &e.item.variants {
            attrs.extend(v.attrs.iter().map(|a| quote::quote!(#a).to_string()));
        }
    }
    let renamed: Vec<&String> = attrs.iter().filter(|a| (a.contains("clap") || a.contains("value")) && (a.contains("rename_all") || a.contains("name =") || a.contains("skip")) && !a.contains("doc")).collect();
    rp.ob("table", "SealingMode/derived", attrs.iter().any(|a| a.contains("ValueEnum")), "sealing modes are parsed from their names", "cli-opt SealingMode", || format!("{:?}", attrs));
    rp.ob("table", "SealingMode/renamed", renamed.is_empty(), "no attribute renames a sealing mode on the command line", "cli-opt SealingMode", || format!("{:?}", renamed));
}
