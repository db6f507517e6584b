use super::*;
const P: &str = "pallet-messages";
const C: &str = "common-primitives";
const NOW: &str = "frame_system::Pallet::<T>::block_number()";
const SCHEMA: &str = "T::SchemaProvider::get_schema_info_by_id(schema_id)";
const WRITES: &[&str] = &["MessagesV2", "BlockMessageIndex"];

fn go<'a>(k: &'a Chk, f: &str) -> Run<'a> {
    let ps: &[&str] = match f {
        "Pallet::add_ipfs_message" => &["origin", "schema_id", "cid", "payload_length"],
        _ => &["origin", "behalf", "schema_id", "payload"],
    };
    let mut r = k.run(P, f, ps);
    r.bind("now", NOW);
    r.bind("idx", "BlockMessageIndex::<T>::get()");
    r.bind("prov", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).unwrap()");
    r
}

/// who may write which message
pub fn authority(k: &Chk) {
    for f in ["Pallet::add_ipfs_message", "Pallet::add_onchain_message"] {
        let mut r = go(k, f);
        r.ok_implies("signed", "ensure_signed(origin).is_ok()");
        r.ok_implies("has-msa", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).is_ok()");
        r.ok_implies("schema-known", &format!("{SCHEMA}.is_some()"));
        let loc = if f.contains("ipfs") { "IPFS" } else { "OnChain" };
        r.ok_implies("location", &format!("match {SCHEMA} {{ Some(s) => s.payload_location == PayloadLocation::{loc}, None => false }}"));
        r.only_when("guarded-write", "set", "MessagesV2", 1, &format!("T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).is_ok() && (match {SCHEMA} {{ Some(s) => s.payload_location == PayloadLocation::{loc}, None => false }})"));
        if f.contains("onchain") {
            let grant = "T::SchemaGrantValidator::ensure_valid_schema_grant(ProviderId(prov), DelegatorId(behalf.unwrap()), schema_id, now).is_ok()";
            r.ok_implies("granted", &format!("behalf.is_none() || {grant}"));
            r.only_when("granted-write", "set", "MessagesV2", 1, &format!("behalf.is_none() || {grant}"));
            r.ok_implies("size", "BoundedVec::<u8, T::MessagesMaxPayloadSizeBytes>::try_from(payload.clone()).is_ok()");
            r.ensures("stored", "MessagesV2::<T>::get((now, schema_id, idx))", "Some(Message { payload: payload, provider_msa_id: prov, msa_id: Some(match behalf { Some(d) => d, None => prov }) })");
        }
        r.writes_only("writes", WRITES);
    }
    writers(k, P, &["MessagesV2"], &["Pallet::add_ipfs_message", "Pallet::add_onchain_message"]);
}

/// one slot per message, in submission order; retrieval
pub fn order(k: &Chk) {
    for f in ["Pallet::add_ipfs_message", "Pallet::add_onchain_message"] {
        let mut r = go(k, f);
        r.ensures("index-advances", "BlockMessageIndex::<T>::get()", "idx + 1");
        r.ok_implies("index-no-wrap", "idx.checked_add(1).is_some()");
        r.args_are("only-this-slot", "set|kill", "MessagesV2", 1, &["now", "schema_id", "idx"], "_");
        r.ok_does_if("event-first", "idx == 0", "emit", "MessagesInBlock", &[], "_");
        r.only_when("event-only-first", "emit", "MessagesInBlock", 1, "idx == 0");
    }
    let mut r = k.run(P, "Hooks for Pallet::on_initialize", &["n"]);
    r.ensures("index-reset", "BlockMessageIndex::<T>::get()", "0");
    r.writes_only("init-writes", &["BlockMessageIndex"]);
    writers(k, P, &["BlockMessageIndex"], &["Pallet::add_ipfs_message", "Pallet::add_onchain_message", "Pallet::on_initialize"]);
    let mut r = k.run(P, "Pallet::get_messages_by_schema_and_block", &["schema", "loc", "block"]);
    r.bind_code("list", "match loc { PayloadLocation::Itemized | PayloadLocation::Paginated => Vec::new(), _ => { let mut v: Vec<_> = MessagesV2::<T>::iter_prefix((block, schema)).map(|(i, m)| m.map_to_response(u32::try_from(block).unwrap_or_default(), loc, i)).collect(); v.sort_by(|a, b| a.index.cmp(&b.index)); v } }");
    r.returns("listing", "list");
    let mut r = k.run(P, "Message::map_to_response", &["me", "block", "loc", "index"]);
    r.returns_if("onchain", "loc == PayloadLocation::OnChain", "MessageResponse { provider_msa_id: me.provider_msa_id, index: index, block_number: block, msa_id: me.msa_id, payload: Some(me.payload.to_vec()), cid: None, payload_length: None }");
    r.returns_if("ipfs", "loc == PayloadLocation::IPFS", "{ let (c, l) = OffchainPayloadType::decode(&mut &me.payload[..]).unwrap_or_default(); MessageResponse { provider_msa_id: me.provider_msa_id, index: index, block_number: block, msa_id: None, payload: None, cid: Some(multibase::encode(Base::Base32Lower, c).as_bytes().to_vec()), payload_length: Some(l) } }");
}

pub fn cid(k: &Chk) {
    let mut r = k.run(P, "Pallet::validate_cid", &["cid"]);
    r.bind("s", "sp_std::str::from_utf8(&cid[..]).unwrap()");
    r.ok_iff(&[
        ("utf8", "sp_std::str::from_utf8(&cid[..]).is_ok()"),
        ("length", "s.len() > 2"),
        ("not-v0", "!s.starts_with(\"Qm\")"),
        ("multibase", "multibase::decode(s).is_ok()"),
        ("parses", "Cid::read_bytes(&multibase::decode(s).unwrap().1[..]).is_ok()"),
    ]);
    r.ok_value("bytes", "true", "multibase::decode(s).unwrap().1");
    let mut r = go(k, "Pallet::add_ipfs_message");
    r.bind("s", "sp_std::str::from_utf8(&cid[..]).unwrap()");
    r.bind("b", "multibase::decode(s).unwrap().1");
    r.ok_implies("valid-cid", "sp_std::str::from_utf8(&cid[..]).is_ok() && s.len() > 2 && !s.starts_with(\"Qm\") && multibase::decode(s).is_ok() && Cid::read_bytes(&b[..]).is_ok()");
    r.ok_implies("size", "BoundedVec::<u8, T::MessagesMaxPayloadSizeBytes>::try_from((b, payload_length).encode()).is_ok()");
    r.ensures("stored", "MessagesV2::<T>::get((now, schema_id, idx))", "Some(Message { payload: (b, payload_length).encode(), provider_msa_id: prov, msa_id: None })");
}

pub fn pagination(k: &Chk) {
    let mut r = k.run(C, "BlockPaginationRequest::validate", &["q"]);
    r.true_iff(&[("valid", "q.page_size > 0 && q.page_size <= 10000 && q.from_block < q.to_block && q.to_block - q.from_block <= 50000")]);
    r.no_panic("total", "true", &[]);
    let mut r = k.run(C, "BlockPaginationResponse::check_end_condition_and_set_next_pagination", &["me", "block", "i", "n", "q"]);
    let full = "me.content.len() as u32 == q.page_size";
    r.true_iff(&[("full-page", full)]);
    let last = "(i + 1 == n)";
    r.final_param("next", "true", "me", &format!("if {full} && (if {last} {{ block + 1 }} else {{ block }}) < q.to_block {{ let mut m = me; m.has_next = true; m.next_block = Some(if {last} {{ block + 1 }} else {{ block }}); m.next_index = Some(if {last} {{ 0 }} else {{ i + 1 }}); m }} else {{ me }}"));
    let mut r = k.run(C, "BlockPaginationResponse::new", &[]);
    r.returns("empty", "BlockPaginationResponse { content: Vec::new(), has_next: false, next_block: None, next_index: None }");
}
