use super::*;
const P: &str = "pallet-stateful-storage";
const NOW: &str = "frame_system::Pallet::<T>::block_number()";
#[derive(Clone, Copy, PartialEq)]
pub enum Auth {
    Direct,
    Signed,
    SignedV2,
}
pub struct Entry {
    pub f: &'static str,
    pub ps: &'static [&'static str],
    pub auth: Auth,
    pub op: char,
}
const fn e(f: &'static str, ps: &'static [&'static str], auth: Auth, op: char) -> Entry {
    Entry { f, ps, auth, op }
}
const SIG: &[&str] = &["origin", "key", "proof", "payload"];
pub const ENTRIES: &[Entry] = &[
    e("Pallet::apply_item_actions", &["origin", "owner", "schema", "target", "actions"], Auth::Direct, 'I'),
    e("Pallet::upsert_page", &["origin", "owner", "schema", "pid", "target", "body"], Auth::Direct, 'U'),
    e("Pallet::delete_page", &["origin", "owner", "schema", "pid", "target"], Auth::Direct, 'D'),
    e("Pallet::apply_item_actions_with_signature", SIG, Auth::Signed, 'I'),
    e("Pallet::upsert_page_with_signature", SIG, Auth::Signed, 'U'),
    e("Pallet::delete_page_with_signature", SIG, Auth::Signed, 'D'),
    e("Pallet::apply_item_actions_with_signature_v2", SIG, Auth::SignedV2, 'I'),
    e("Pallet::upsert_page_with_signature_v2", SIG, Auth::SignedV2, 'U'),
    e("Pallet::delete_page_with_signature_v2", SIG, Auth::SignedV2, 'D'),
];
const WRITE: &str = "*put_raw|*child::kill|*clear_storage|*kill_storage|*put";

pub fn go<'a>(k: &'a Chk, e: &Entry) -> Run<'a> {
    let mut r = k.run_with(P, e.f, e.ps, &["Page::apply_item_actions", "Page::get_hash"]);
    r.bind("now", NOW);
    match e.auth {
        Auth::Direct => {
            r.bind("caller", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap())");
        }
        _ => {
            r.bind("holder", "T::MsaInfoProvider::ensure_valid_msa_key(&key)");
            r.bind("owner", "holder.unwrap()");
            r.bind("schema", "payload.schema_id");
            r.bind("target", "payload.target_hash");
            match e.op {
                'I' => {
                    r.bind("actions", "payload.actions");
                }
                'U' => {
                    r.bind("pid", "payload.page_id");
                    r.bind("body", "payload.payload");
                }
                _ => {
                    r.bind("pid", "payload.page_id");
                }
            }
        }
    }
    let (kind, key) = if e.op == 'I' { ("itemized", "(schema,)") } else { ("paginated", "(schema, pid)") };
    r.bind("root", &format!("child::ChildInfo::new_default(&[Blake2_128::hash(&[&owner.encode()[..], b\"::\"].concat()[..]).as_ref(), twox_64(b\"stateful-storage\").as_ref(), twox_64(b\"{kind}\").as_ref()].concat())"));
    r.bind("slot", &format!("{key}.hash()"));
    r.bind("raw", "child::get_raw(&root, &slot)");
    r.bind("readable", "match raw { Some(v) => Decode::decode(&mut &v[..]).is_ok(), None => true }");
    r.bind("page", "match raw { Some(v) => (match Decode::decode(&mut &v[..]) { Ok(p) => p, Err(_) => panic!() }), None => Page { nonce: 0, data: Vec::new() } }");
    r
}
const WRITES: [&str; 2] = ["*put_raw", "*child::kill"];
fn writes_of(e: &Entry) -> &'static [&'static str] {
    match e.op {
        'I' => &WRITES,
        'U' => &WRITES[..1],
        _ => &WRITES[1..],
    }
}

/// who may write a page
pub fn authority(k: &Chk) {
    for e in ENTRIES {
        let mut r = go(k, e);
        let auth = match e.auth {
            Auth::Direct => "ensure_signed(origin).is_ok() && caller.is_ok() && (caller.unwrap() == owner || T::SchemaGrantValidator::ensure_valid_schema_grant(ProviderId(caller.unwrap()), DelegatorId(owner), schema, now).is_ok())",
            Auth::Signed => "ensure_signed(origin).is_ok() && holder.is_ok() && owner == payload.msa_id && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key))",
            Auth::SignedV2 => "ensure_signed(origin).is_ok() && holder.is_ok() && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key))",
        };
        r.ok_implies("authorised", auth);
        for w in writes_of(e) {
            r.only_when("authorised-write", "call", w, 1, auth);
            r.args_are("owner-tree", "call", w, 1, &["root", "slot"], "_");
        }
        r.writes_only("no-other-storage", &[]);
        for w in ["*put_raw", "*child::kill"] {
            if !writes_of(e).contains(&w) {
                let n = r.evs("call", w).len();
                r.fact("effect-absent", &format!("never-{w}"), n == 0, &format!("{} never does {w}", e.f), "");
            }
        }
    }
    let _ = WRITE;
}

/// optimistic concurrency: content hash and nonce
pub fn concurrency(k: &Chk) {
    for e in ENTRIES {
        let mut r = go(k, e);
        let fresh = "target == Page::get_hash(&page)";
        r.ok_implies("readable", "readable");
        if e.op == 'D' {
            r.ok_implies("fresh", &format!("raw.is_none() || {fresh}"));
            r.only_when("fresh-write", "call", "*child::kill", 1, &format!("raw.is_some() && {fresh}"));
            r.ok_does_if("deleted", "raw.is_some()", "call", "*child::kill", &["root", "slot"], "_");
            r.ok_does_if("event", "raw.is_some()", "emit", "PaginatedPageDeleted", &[], "Event::PaginatedPageDeleted { msa_id: owner, schema_id: schema, page_id: pid, prev_content_hash: Page::get_hash(&page) }");
            r.only_when("event-guard", "emit", "PaginatedPageDeleted", 1, "raw.is_some()");
            continue;
        }
        r.ok_implies("fresh", fresh);
        for w in writes_of(e) {
            r.only_when("fresh-write", "call", w, 1, fresh);
        }
        if e.op == 'U' {
            r.bind("new", "Page { nonce: page.nonce.wrapping_add(1), data: body }");
            r.ok_does("stored", "call", "*put_raw", &["root", "slot", "new.encode()"], "_");
            r.args_are("only-stored", "call", "*put_raw", 1, &["root", "slot", "new.encode()"], "_");
            r.ok_does("event", "emit", "PaginatedPageUpdated", &[], "Event::PaginatedPageUpdated { msa_id: owner, schema_id: schema, page_id: pid, prev_content_hash: Page::get_hash(&page), curr_content_hash: Page::get_hash(&new) }");
        } else {
            r.bind("applied", "Page::apply_item_actions(&page, &actions[..])");
            r.bind("body", "applied.unwrap().data");
            r.bind("new", "Page { nonce: page.nonce.wrapping_add(1), data: body }");
            r.ok_implies("applied", "applied.is_ok()");
            r.ok_does_if("stored", "!body.is_empty()", "call", "*put_raw", &["root", "slot", "new.encode()"], "_");
            r.args_are("only-stored", "call", "*put_raw", 1, &["root", "slot", "new.encode()"], "_");
            r.only_when("stored-guard", "call", "*put_raw", 1, "!body.is_empty()");
            r.ok_does_if("emptied", "body.is_empty()", "call", "*child::kill", &["root", "slot"], "_");
            r.only_when("emptied-guard", "call", "*child::kill", 1, "body.is_empty()");
            r.ok_does_if("event", "!body.is_empty()", "emit", "ItemizedPageUpdated", &[], "Event::ItemizedPageUpdated { msa_id: owner, schema_id: schema, prev_content_hash: Page::get_hash(&page), curr_content_hash: Page::get_hash(&new) }");
            r.ok_does_if("event-deleted", "body.is_empty()", "emit", "ItemizedPageDeleted", &[], "Event::ItemizedPageDeleted { msa_id: owner, schema_id: schema, prev_content_hash: Page::get_hash(&page) }");
        }
    }
    let mut r = k.run(P, "Page::get_hash", &["p"]);
    r.returns("hash", "if p.data.is_empty() { 0 } else { let mut h = XxHash64::with_seed(0); h.write(&p.nonce.encode()); h.write(&p.data[..]); PageHash::from_be_bytes(h.finish().to_be_bytes()[..4]) }");
}

/// page ids, schema location and settings
pub fn schema_rules(k: &Chk) {
    for e in ENTRIES {
        let mut r = go(k, e);
        r.bind("info", "T::SchemaProvider::get_schema_info_by_id(schema)");
        let loc = if e.op == 'I' { "Itemized" } else { "Paginated" };
        let mut conds = vec![("schema-location", format!("match info {{ Some(s) => s.payload_location == PayloadLocation::{loc}, None => false }}"))];
        if e.op != 'I' {
            conds.push(("page-id", "pid <= T::MaxPaginatedPageId::get()".into()));
        }
        if e.auth == Auth::Direct {
            conds.push(("signature-required", "match info { Some(s) => !s.settings.contains(&SchemaSetting::SignatureRequired) || caller.unwrap() == owner, None => false }".into()));
        }
        match e.op {
            'D' => conds.push(("append-only", "match info { Some(s) => !s.settings.contains(&SchemaSetting::AppendOnly), None => false }".into())),
            'I' => conds.push(("append-only", "match info { Some(s) => !s.settings.contains(&SchemaSetting::AppendOnly) || !actions.iter().any(|a| matches!(a, ItemAction::Delete { .. })), None => false }".into())),
            _ => {}
        }
        for (n, c) in conds {
            r.ok_implies(n, &c);
            for w in writes_of(e) {
                r.only_when(&format!("{n}-write"), "call", w, 1, &c);
            }
        }
    }
}

/// signed payloads: expiry window and binding
pub fn expiry(k: &Chk) {
    for s in ["ItemizedSignaturePayload", "ItemizedSignaturePayloadV2", "PaginatedUpsertSignaturePayload", "PaginatedUpsertSignaturePayloadV2", "PaginatedDeleteSignaturePayload", "PaginatedDeleteSignaturePayloadV2"] {
        encodes_whole(k, P, s);
    }
    for e in ENTRIES.iter().filter(|e| e.auth != Auth::Direct) {
        let mut r = go(k, e);
        let win = "payload.expiration > now && payload.expiration < now + T::MortalityWindowSize::get().into()";
        r.ok_implies("window", win);
        for w in writes_of(e) {
            r.only_when("window-write", "call", w, 1, win);
        }
    }
    let mut r = k.run(P, "Pallet::check_payload_expiration", &["now", "exp"]);
    r.ok_iff(&[("not-expired", "exp > now"), ("not-too-far", "exp < now + T::MortalityWindowSize::get().into()")]);
    let mut r = k.run(P, "Pallet::check_signature", &["sig", "who", "payload"]);
    r.ok_iff(&[("verifies", "sig.verify(&wrap_binary_data(payload)[..], &T::ConvertIntoAccountId32::convert(who))")]);
}

/// item pages: parsing and applying actions
pub fn items(k: &Chk) {
    
    // pages of up to two items, every size
    for inc in ["true", "false"] {
        let mut r = k.run_unrolled(P, "Page::try_parse", &["page", "inc"], &[], &format!("inc == {inc}"), 3);
        let from = if inc == "true" { "0" } else { "2" };
        r.bind("d", "page.data");
        r.bind("h0", "ItemHeader::decode(&mut &d[0..])");
        r.bind("e0", "2 + h0.unwrap().payload_len as usize");
        r.bind("h1", "ItemHeader::decode(&mut &d[e0..])");
        r.bind("e1", "e0 + (2 + h1.unwrap().payload_len as usize)");
        let first = "d.len() >= 2 && h0.is_ok() && d.len() >= e0";
        let second = "d.len() >= e0 + 2 && h1.is_ok() && d.len() >= e1";
        r.ok_iff(&[("well-formed", &format!("d.len() == 0 || {first} && (d.len() == e0 || {second} && d.len() == e1)"))]);
        r.ok_value("empty", "d.len() == 0", "ParsedItemPage { page_size: d.len(), items: BTreeMap::new() }");
        r.ok_value("one", "d.len() != 0 && d.len() == e0", &format!("{{ let mut m = BTreeMap::new(); m.insert(0u16, &d[{from}..e0]); ParsedItemPage {{ page_size: d.len(), items: m }} }}"));
        r.ok_value("two", "d.len() != 0 && d.len() != e0 && d.len() == e1", &format!("{{ let mut m = BTreeMap::new(); m.insert(0u16, &d[{from}..e0]); m.insert(1u16, &d[e0 + {from}..e1]); ParsedItemPage {{ page_size: d.len(), items: m }} }}"));
        r.no_panic("no-panic", "true", &[]);
    }
    // up to two actions on any parsed page
    const PS: &[(&str, &str)] = &[("page", "Page<Z>"), ("a", "BoundedVec<u8,Z>"), ("b", "BoundedVec<u8,Z>"), ("i", "u16"), ("j", "u16")];
    let add = |x: &str| format!("ItemAction::Add {{ data: {x} }}");
    let del = |x: &str| format!("ItemAction::Delete {{ index: {x} }}");
    let rec = |x: &str| format!("ItemHeader {{ payload_len: {x}.len().try_into().unwrap() }}.encode(), {x}.to_vec()");
    // name, actions, items removed in order, payloads added in order
    let cases: Vec<(&str, Vec<String>, Vec<&str>, Vec<&str>)> = vec![
        ("none", vec![], vec![], vec![]),
        ("add", vec![add("a")], vec![], vec!["a"]),
        ("delete", vec![del("i")], vec!["i"], vec![]),
        ("add-add", vec![add("a"), add("b")], vec![], vec!["a", "b"]),
        ("delete-delete", vec![del("i"), del("j")], vec!["i", "j"], vec![]),
        ("add-delete", vec![add("a"), del("i")], vec!["i"], vec!["a"]),
        ("delete-add", vec![del("i"), add("a")], vec!["i"], vec!["a"]),
    ];
    for (n, acts, dels, adds) in cases {
        let mut r = k.run_expr_n(k.ix, P, &format!("Page::apply_item_actions/{n}"), PS, &["Page::try_parse"], &format!("page.apply_item_actions(&[{}])", acts.join(", ")), 0);
        r.bind("parsed", "Page::try_parse(&page, true)");
        r.bind("items", "parsed.unwrap().items");
        let mut pre = vec!["parsed.is_ok()".to_string()];
        let mut left = "items".to_string();
        for (q, x) in dels.iter().enumerate() {
            pre.push(format!("{left}.contains_key(&{x})"));
            let nm = format!("left{q}");
            r.bind(&nm, &format!("{{ let mut m = {left}; m.remove(&{x}); m }}"));
            left = nm;
        }
        let mut parts = vec![format!("{left}.values().flat_map(|s| s.to_vec()).collect::<Vec<_>>()")];
        for x in &adds {
            pre.push(format!("u16::try_from({x}.len()).is_ok()"));
            parts.push(rec(x));
        }
        r.bind("body", &format!("[{}].concat()", parts.join(", ")));
        pre.push("BoundedVec::try_from(body).is_ok()".into());
        r.ok_iff(&[("accepted", &pre.join(" && "))]);
        r.ok_value("content", "true", "Page { nonce: 0, data: body }");
        r.no_panic("no-panic", "true", &[]);
    }
}

/// keys of the per-MSA child tree
pub fn child_keys(k: &Chk) {
    for s in ["Page", "ItemHeader"] {
        encodes_whole(k, P, s);
    }
    for n in 0..5usize {
        let hs: Vec<String> = (0..n).map(|i| format!("H::hash(&key.{i}.encode()).as_ref().to_vec()")).collect();
        let mut r = k.run(P, &format!("Tuple{n}::hash"), &["key"]);
        if n == 0 {
            r.returns("hash", "Vec::new()");
        } else {
            r.returns("hash", &format!("[{}, key.encode()].concat()", hs.join(", ")));
        }
        let mut r = k.run(P, &format!("Tuple{n}::hash_prefix_only"), &["key"]);
        r.returns("prefix", &if n == 0 { "Vec::new()".to_string() } else { format!("[{}].concat()", hs.join(", ")) });
        let parts: Vec<String> = (1..=n).map(|i| format!("T{i}")).collect();
        let st = match n {
            0 => "()".to_string(),
            1 => "(T1,)".to_string(),
            _ => format!("({})", parts.join(",")),
        };
        let a = assoc_type(k, P, "MultipartKey", &st, "Arity").unwrap_or_default();
        r.fact("table", "arity", a == format!("ConstU8<{n}>"), &format!("a key of {n} parts declares arity {n}"), &a);
    }
    for (h, n) in [("Blake2_128", 16), ("Blake2_256", 32), ("Twox128", 16), ("Twox256", 32)] {
        let a = assoc_type(k, P, "MultipartKeyStorageHasher", h, "HashSize").unwrap_or_default();
        k.rep.borrow_mut().ob("table", &format!("{P}/{h}/hash-size"), a == format!("ConstU8<{n}>"), &format!("{h} declares its {n}-byte output size"), &format!("{P} {h}"), || a.clone());
    }
    let mut r = k.run(P, "MultipartKeyStorageHasher::reverse", &["x", "parts"]);
    r.bind("skip", "Self::HashSize::get() * parts");
    r.returns("strip", "if x.len() < skip { &[] } else { &x[skip..] }");
    r.no_panic("no-panic", "true", &[]);
    let mut r = k.run(P, "MultipartKey::decode", &["raw"]);
    r.returns("decode", "<Self as Decode>::decode(&mut H::reverse(raw, Self::Arity::get()))");
    let mut r = k.run(P, "MultipartKey::decode_without_prefix", &["raw", "n"]);
    r.bind("rest", "<Self as Decode>::decode(&mut H::reverse(raw, Self::Arity::get() - n))");
    r.ok_iff(&[("prefix-fits", "n <= Self::Arity::get()"), ("decodes", "rest.is_ok()")]);
    r.ok_value("key", "true", "rest.unwrap()");
    let mut r = k.run(P, "Tuple0::decode", &["raw"]);
    r.ok_iff(&[("always", "true")]);
    // the tree of one MSA and storage
    const TREE: &str = "child::ChildInfo::new_default(&[Blake2_128::hash(&[&msa.encode()[..], b\"::\"].concat()[..]).as_ref(), twox_64(pallet).as_ref(), twox_64(storage).as_ref()].concat())";
    let mut r = k.run(P, "StatefulChildTree::try_read", &["msa", "pallet", "storage", "key"]);
    r.bind("raw", &format!("child::get_raw(&{TREE}, &key.hash())"));
    r.ok_iff(&[("readable", "match raw { Some(v) => Decode::decode(&mut &v[..]).is_ok(), None => true }")]);
    r.ok_value("value", "true", "match raw { Some(v) => Some(Decode::decode(&mut &v[..]).unwrap()), None => None }");
    let mut r = k.run(P, "StatefulChildTree::write", &["msa", "pallet", "storage", "key", "v"]);
    r.bind("tree", TREE);
    r.ok_does("write", "call", "*put_raw", &["tree", "key.hash()", "v.encode()"], "_");
    r.args_are("write-only", "call", "*put_raw", 1, &["tree", "key.hash()", "v.encode()"], "_");
    let mut r = k.run(P, "StatefulChildTree::kill", &["msa", "pallet", "storage", "key"]);
    r.bind("tree", TREE);
    r.ok_does("kill", "call", "*child::kill", &["tree", "key.hash()"], "_");
    r.args_are("kill-only", "call", "*child::kill", 1, &["tree", "key.hash()"], "_");
    let mut r = k.run(P, "StatefulChildTree::prefix_iterator", &["msa", "pallet", "storage", "prefix"]);
    r.bind("tree", TREE);
    r.returns("entries", "ChildTriePrefixIterator::<(Vec<u8>, V)>::with_prefix(&tree, &prefix.hash_prefix_only()).filter_map(|(k, v)| if K::decode_without_prefix(&k, PrefixKey::Arity::get()).is_ok() { Some((K::decode_without_prefix(&k, PrefixKey::Arity::get()).unwrap(), v)) } else { None }).collect()");
}

/// read interface
pub fn reads(k: &Chk) {
    let tree = |s: &str| format!("child::ChildInfo::new_default(&[Blake2_128::hash(&[&msa.encode()[..], b\"::\"].concat()[..]).as_ref(), twox_64(b\"stateful-storage\").as_ref(), twox_64(b\"{s}\").as_ref()].concat())");
    let mut r = k.run_with(P, "Pallet::get_paginated_storage", &["msa", "schema"], &["Page::get_hash"]);
    r.bind("info", "T::SchemaProvider::get_schema_info_by_id(schema)");
    r.bind("tree", &tree("paginated"));
    r.ok_iff(&[("known-schema", "info.is_some()"), ("location", "match info { Some(i) => i.payload_location == PayloadLocation::Paginated, None => false }")]);
    r.ok_value("pages", "true", "ChildTriePrefixIterator::<(Vec<u8>, V)>::with_prefix(&tree, &(schema,).hash_prefix_only()).filter_map(|(k, v)| if K::decode_without_prefix(&k, PrefixKey::Arity::get()).is_ok() { Some((K::decode_without_prefix(&k, PrefixKey::Arity::get()).unwrap(), v)) } else { None }).map(|(k, v)| PaginatedStorageResponse { page_id: k.1, msa_id: msa, schema_id: schema, content_hash: Page::get_hash(&v), nonce: v.nonce, payload: v.data.into_inner() }).collect()");
    let mut r = k.run_with(P, "Pallet::get_itemized_storage", &["msa", "schema"], &["Page::get_hash", "Page::try_parse"]);
    r.bind("info", "T::SchemaProvider::get_schema_info_by_id(schema)");
    r.bind("raw", &format!("child::get_raw(&{}, &(schema,).hash())", tree("itemized")));
    r.bind("page", "match raw { Some(v) => (match Decode::decode(&mut &v[..]) { Ok(p) => p, Err(_) => panic!() }), None => Page { nonce: 0, data: Vec::new() } }");
    r.bind("parsed", "Page::try_parse(&page, false)");
    r.ok_iff(&[("known-schema", "info.is_some()"), ("location", "match info { Some(i) => i.payload_location == PayloadLocation::Itemized, None => false }"), ("readable", "match raw { Some(v) => Decode::decode(&mut &v[..]).is_ok(), None => true }"), ("parses", "parsed.is_ok()")]);
    r.ok_value("items", "true", "ItemizedStoragePageResponse { msa_id: msa, schema_id: schema, content_hash: Page::get_hash(&page), nonce: page.nonce, items: parsed.unwrap().items.iter().map(|(i, v)| ItemizedStorageResponse { index: i, payload: v.to_vec() }).collect() }");
}
