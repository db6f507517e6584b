use super::*;
const P: &str = "pallet-handles";
const U: &str = "handles-utils";

/// entry-state abbreviations of a signed claim/change
pub fn claim_binds(r: &mut Run) {
    r.bind("msa", "T::MsaInfoProvider::ensure_valid_msa_key(&key).unwrap()");
    r.bind("name", "String::from_utf8(payload.base_handle.clone()).unwrap()");
    r.bind("canon", "convert_to_canonical(&name)");
    r.bind("base", "CanonicalBase::try_from(canon.as_bytes().to_vec()).unwrap_or_default()");
    r.bind("cur", "CanonicalBaseHandleToSuffixIndex::<T>::get(base)");
    r.bind("idx", "match cur { None => 0, Some((c, m)) => if m != T::HandleSuffixMin::get() { 0 } else { c + 1 } }");
    r.bind("suffix", "generate_unique_suffixes(T::HandleSuffixMin::get(), T::HandleSuffixMax::get(), &canon).nth(idx as usize).unwrap()");
}
pub const DISPLAY: &str = "{ let mut v: Vec<u8> = vec![]; v.extend(name.as_bytes()); v.push(46); let mut buff = [0u8; 5]; v.extend(suffix.numtoa(10, &mut buff)); v }";
const CLAIM: [&str; 4] = ["origin", "key", "proof", "payload"];

pub fn unique(k: &Chk) {
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(P, f, &CLAIM);
        claim_binds(&mut r);
        r.bind("display", DISPLAY);
        r.ensures("owner-of-handle", "CanonicalBaseHandleAndSuffixToMSAId::<T>::get(base, suffix)", "Some(msa)");
        r.ensures("handle-of-owner", "MSAIdToDisplayName::<T>::get(msa)", "Some((display, payload.expiration))");
        r.ok_implies("display-fits", "DisplayHandle::try_from(display).is_ok()");
        r.writes_only("writes", &["CanonicalBaseHandleAndSuffixToMSAId", "MSAIdToDisplayName", "CanonicalBaseHandleToSuffixIndex"]);
        r.args_are("claimed-event", "emit", "HandleClaimed", 1, &[], "Event::HandleClaimed { msa_id: msa, handle: display }");
        r.ok_does("claimed-event-always", "emit", "HandleClaimed", &[], "_");
        if f.ends_with("claim_handle") {
            r.ok_implies("no-second-handle", "MSAIdToDisplayName::<T>::get(msa).is_none()");
        } else {
            r.ok_implies("had-handle", "MSAIdToDisplayName::<T>::get(msa).is_some()");
            r.bind("old", "split_display_name(core::str::from_utf8(&MSAIdToDisplayName::<T>::get(msa).unwrap().0).unwrap()).unwrap()");
            r.bind("oldbase", "CanonicalBase::try_from(convert_to_canonical(&old.0).as_bytes().to_vec()).unwrap_or_default()");
            r.ok_does("old-unmapped", "kill", "CanonicalBaseHandleAndSuffixToMSAId", &["oldbase", "old.1"], "_");
            r.ok_does("retired-event", "emit", "HandleRetired", &[], "Event::HandleRetired { msa_id: msa, handle: MSAIdToDisplayName::<T>::get(msa).unwrap().0 }");
        }
    }
    let mut r = k.run(P, "Pallet::retire_handle", &["origin"]);
    r.bind("msa", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).unwrap()");
    r.bind("shown", "core::str::from_utf8(&MSAIdToDisplayName::<T>::get(msa).unwrap().0)");
    r.bind("old", "split_display_name(shown.unwrap())");
    r.bind("oldbase", "CanonicalBase::try_from(convert_to_canonical(&old.unwrap().0).as_bytes().to_vec()).unwrap_or_default()");
    r.ok_iff(&[
        ("signed", "ensure_signed(origin).is_ok()"),
        ("msa-owner", "T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).is_ok()"),
        ("has-handle", "MSAIdToDisplayName::<T>::get(msa).is_some()"),
        ("utf8", "shown.is_ok()"),
        ("well-formed", "old.is_some()"),
    ]);
    r.ensures("gone", "MSAIdToDisplayName::<T>::get(msa)", "None");
    r.ensures("unmapped", "CanonicalBaseHandleAndSuffixToMSAId::<T>::get(oldbase, old.unwrap().1)", "None");
    r.args_are("kill-display", "kill", "MSAIdToDisplayName", 1, &["msa"], "_");
    r.args_are("kill-map", "kill", "CanonicalBaseHandleAndSuffixToMSAId", 1, &["oldbase", "old.unwrap().1"], "_");
    r.writes_only("writes", &["CanonicalBaseHandleAndSuffixToMSAId", "MSAIdToDisplayName"]);
    r.ok_does("event", "emit", "HandleRetired", &[], "Event::HandleRetired { msa_id: msa, handle: MSAIdToDisplayName::<T>::get(msa).unwrap().0 }");
    writers(k, P, &["CanonicalBaseHandleAndSuffixToMSAId", "MSAIdToDisplayName"], &["Pallet::claim_handle", "Pallet::change_handle", "Pallet::retire_handle"]);
}

pub fn suffix_fresh(k: &Chk) {
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(P, f, &CLAIM);
        claim_binds(&mut r);
        r.ensures("index-advances", "CanonicalBaseHandleToSuffixIndex::<T>::get(base)", "Some((idx, T::HandleSuffixMin::get()))");
        r.ok_implies("index-no-wrap", "match cur { None => true, Some((c, m)) => m != T::HandleSuffixMin::get() || c.checked_add(1).is_some() }");
        r.ok_implies("sequence-not-exhausted", "generate_unique_suffixes(T::HandleSuffixMin::get(), T::HandleSuffixMax::get(), &canon).nth(idx as usize).is_some()");
        r.args_are("suffix-from-index", "set", "CanonicalBaseHandleAndSuffixToMSAId", 1, &["base", "suffix"], "msa");
        r.args_are("index-keyed-by-canonical", "set", "CanonicalBaseHandleToSuffixIndex", 1, &["base"], "_");
        r.ok_implies("canonical-key-not-truncated", "canon.len() <= 32");
    }
    writers(k, P, &["CanonicalBaseHandleToSuffixIndex"], &["Pallet::claim_handle", "Pallet::change_handle"]);
    never(k, P, "kill", "CanonicalBaseHandleToSuffixIndex", &["Pallet::claim_handle", "Pallet::change_handle", "Pallet::retire_handle"]);
    let mut r = k.run(P, "Pallet::get_next_suffixes", &["handle", "count"]);
    r.bind("canon", "convert_to_canonical(core::str::from_utf8(&handle).unwrap_or_default())");
    r.ok_does("suffix-source", "call", "generate_unique_suffixes", &["T::HandleSuffixMin::get()", "T::HandleSuffixMax::get()", "canon"], "_");
    // the offered suffixes are the next `count` of the sequence, from the stored cursor on
    for (idx, count) in [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 1)] {
        let cur = "CanonicalBaseHandleToSuffixIndex::<T>::get(match BoundedVec::try_from(convert_to_canonical(core::str::from_utf8(&handle).unwrap_or_default()).as_bytes().to_vec()) { Ok(b) => b, Err(_) => Default::default() })";
        let at = match idx {
            0 => format!("{cur}.is_none()"),
            n => format!("match {cur} {{ Some((c, m)) => m == T::HandleSuffixMin::get() && c == {}, None => false }}", n - 1),
        };
        let mut r = k.run_walked(P, "Pallet::get_next_suffixes", &["handle", "count"], &["generate_unique_suffixes"], &format!("count == {count} && {at}"), 4);
        r.bind("seq", "generate_unique_suffixes(T::HandleSuffixMin::get(), T::HandleSuffixMax::get(), convert_to_canonical(core::str::from_utf8(&handle).unwrap_or_default()))");
        let tag = format!("next-{idx}-{count}");
        r.result_is(&format!("{tag}/handle"), "true", "result.base_handle == handle");
        r.result_is(&format!("{tag}/count"), "true", &format!("result.suffixes.len() <= {count}"));
        for i in 0..count {
            r.result_is(&format!("{tag}/suffix-{i}"), "true", &format!("match seq.nth({}) {{ Some(x) => result.suffixes.len() > {i} && result.suffixes[{i}] == x, None => result.suffixes.len() <= {i} }}", idx + i));
        }
        r.ends(&tag);
    }
}

pub const VALID: [(&str, &str); 10] = [
    ("byte-length", "payload.base_handle.len() <= 32"),
    ("utf8", "String::from_utf8(payload.base_handle.clone()).is_ok()"),
    ("min-chars", "name.chars().count() >= 3"),
    ("max-chars", "name.chars().count() <= 20"),
    ("not-reserved", "!is_reserved_handle(&name)"),
    ("no-blocked-char", "!contains_blocked_characters(&name)"),
    ("supported-chars", "consists_of_supported_unicode_character_sets(&canon)"),
    ("canonical-min", "canon.chars().count() >= 3"),
    ("canonical-max", "canon.chars().count() <= 20"),
    ("canonical-bytes", "canon.len() <= 32"),
];

pub fn claim_valid(k: &Chk) {
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(P, f, &CLAIM);
        claim_binds(&mut r);
        for (key, phi) in VALID {
            r.ok_implies(key, phi);
        }
    }
    // and a claim is rejected for no other reason than these, authorisation, or exhaustion
    let mut r = k.run(P, "Pallet::claim_handle", &CLAIM);
    claim_binds(&mut r);
    r.bind("display", DISPLAY);
    let v: Vec<String> = VALID.iter().map(|x| format!("({})", x.1)).collect();
    let auth = "ensure_signed(origin).is_ok() && T::MsaInfoProvider::ensure_valid_msa_key(&key).is_ok() && block_number() < payload.expiration && payload.expiration < block_number() + T::MortalityWindowSize::get() && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key.clone()))";
    let fresh = "MSAIdToDisplayName::<T>::get(msa).is_none() && match cur { None => true, Some((c, m)) => m != T::HandleSuffixMin::get() || c.checked_add(1).is_some() } && generate_unique_suffixes(T::HandleSuffixMin::get(), T::HandleSuffixMax::get(), &canon).nth(idx as usize).is_some() && DisplayHandle::try_from(display).is_ok()";
    r.ok_when("accepts-valid", &format!("{} && {} && {}", v.join(" && "), auth, fresh));
}

pub fn validate_agrees(k: &Chk) {
    let mut r = k.run(P, "Pallet::validate_handle", &["handle"]);
    r.bind("name", "String::from_utf8(handle.clone()).unwrap()");
    r.bind("canon", "convert_to_canonical(&name)");
    let parts: Vec<(&str, String)> = VALID.iter().map(|(a, b)| (*a, b.replace("payload.base_handle", "handle"))).collect();
    let ps: Vec<(&str, &str)> = parts.iter().map(|(a, b)| (*a, b.as_str())).collect();
    r.true_iff(&ps);
}

pub fn signed_claim(k: &Chk) {
    encodes_whole(k, "common-primitives", "ClaimHandlePayload");
    for f in ["Pallet::claim_handle", "Pallet::change_handle"] {
        let mut r = k.run(P, f, &CLAIM);
        r.ok_implies("signed-origin", "ensure_signed(origin).is_ok()");
        r.ok_implies("key-owns-msa", "T::MsaInfoProvider::ensure_valid_msa_key(&key).is_ok()");
        r.ok_implies("not-expired", "block_number() < payload.expiration");
        r.ok_implies("within-window", "payload.expiration < block_number() + T::MortalityWindowSize::get()");
        r.ok_implies("signature", "proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key.clone()))");
        for s in ["CanonicalBaseHandleAndSuffixToMSAId", "MSAIdToDisplayName", "CanonicalBaseHandleToSuffixIndex"] {
            r.only_when(&format!("guard-{}", s), "set|kill", s, 1, "ensure_signed(origin).is_ok() && T::MsaInfoProvider::ensure_valid_msa_key(&key).is_ok() && block_number() < payload.expiration && payload.expiration < block_number() + T::MortalityWindowSize::get() && proof.verify(&wrap_binary_data(payload.encode())[..], &T::ConvertIntoAccountId32::convert(key.clone()))");
        }
        r.bind("msa", "T::MsaInfoProvider::ensure_valid_msa_key(&key).unwrap()");
        r.args_are("owner", "set|kill", "MSAIdToDisplayName", 1, &["msa"], "_");
        r.args_are("owner2", "set", "CanonicalBaseHandleAndSuffixToMSAId", 1, &[], "msa");
    }
    let mut r = k.run(P, "Pallet::retire_handle", &["origin"]);
    r.only_when("retire-guard", "kill", "*", 2, "ensure_signed(origin).is_ok() && T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).is_ok()");
    r.args_are("retire-own", "kill", "MSAIdToDisplayName", 1, &["T::MsaInfoProvider::ensure_valid_msa_key(&ensure_signed(origin).unwrap()).unwrap()"], "_");
}

pub fn canonical(k: &Chk) {
    let mut r = k.run(U, "convert_to_canonical", &["s"]);
    r.returns("pipeline", "s.chars().filter(|c| !c.is_whitespace()).collect::<String>().nfkd().filter(|c| !is_combining_mark(*c)).map(|c| match CONFUSABLES.get(&c) { Some(v) => *v, None => c }).collect::<String>().to_ascii_lowercase()");
    let mut r = k.run(U, "replace_confusables", &["s"]);
    r.returns("map", "s.chars().map(|c| match CONFUSABLES.get(&c) { Some(v) => *v, None => c }).collect::<String>()");
    let mut r = k.run(U, "strip_diacriticals", &["s"]);
    r.returns("filter", "s.nfkd().filter(|c| !is_combining_mark(*c)).collect::<String>()");
    let mut r = k.run(U, "strip_unicode_whitespace", &["s"]);
    r.returns("filter", "s.chars().filter(|c| !c.is_whitespace()).collect::<String>()");
    confusables(k);
}

/// census of the homoglyph table the build script compiles
fn confusables(k: &Chk) {
    let path = std::path::Path::new(&k.root).join("pallets/handles/src/handles-utils/src/data/confusable_characters.txt");
    let at = path.display().to_string();
    let txt = std::fs::read_to_string(&path).unwrap_or_default();
    let mut rp = k.rep.borrow_mut();
    let mut map: std::collections::BTreeMap<char, char> = Default::default();
    let mut heads = vec![];
    let mut dup = vec![];
    for l in txt.lines() {
        let mut c = l.chars();
        if let Some(v) = c.next() {
            heads.push(v);
            for h in c {
                if map.insert(h, v).is_some() {
                    dup.push(h);
                }
            }
        }
    }
    rp.ob("table", "confusables/present", map.len() >= 500, &format!("the homoglyph table is present ({} homoglyphs, {} canonical characters)", map.len(), heads.len()), &at, || format!("{} entries", map.len()));
    rp.ob("table", "confusables/functional", dup.is_empty(), "each homoglyph has one canonical character", &at, || format!("{:?}", dup));
    // only pairs of supported characters reach the compiled table
    let ok = |c: char| RANGES.iter().any(|(a, b)| *a <= c as u32 && c as u32 <= *b);
    map.retain(|h, v| ok(*h) && ok(*v));
    let one = |c: char| map.get(&c).copied().unwrap_or(c).to_ascii_lowercase();
    let chain: Vec<String> = map.iter().filter(|(_, v)| one(**v) != v.to_ascii_lowercase() && **v != 'L').map(|(h, v)| format!("{}->{}", h, v)).collect();
    rp.ob("table", "confusables/idempotent", chain.is_empty(), "no canonical character is itself a homoglyph of another one", &at, || format!("{:?}", chain));
    for c in 'a'..='z' {
        let u = c.to_ascii_uppercase();
        rp.ob("table", &format!("confusables/case-{}", c), one(c) == one(u), &format!("{} and {} have one canonical form", u, c), &at, || format!("{:?} and {:?}", one(u), one(c)));
    }
    // characters that render like a Latin letter collapse onto the same character as that letter
    for (h, v) in [('а', 'a'), ('е', 'e'), ('о', 'o'), ('р', 'p'), ('с', 'c'), ('у', 'y'), ('х', 'x'), ('і', 'i'), ('ο', 'o'), ('ν', 'v'), ('α', 'a'), ('Α', 'a'), ('В', 'b'), ('Ε', 'e'), ('Н', 'h'), ('К', 'k'), ('М', 'm'), ('Τ', 't'), ('0', 'o'), ('1', 'i'), ('ѕ', 's'), ('ј', 'j')] {
        rp.ob("table", &format!("confusables/U+{:04x}", h as u32), one(h) == one(v), &format!("U+{:04X} collapses onto the same character as {}", h as u32, v), &at, || format!("{:?} and {:?}", one(h), one(v)));
    }
}
const RANGES: [(u32, u32); 13] = [
    (0x20, 0x17f), (0x370, 0x52f), (0x590, 0x6ff), (0x900, 0x9ff), (0xe00, 0xe7f), (0x1100, 0x11ff), (0x1e00, 0x1fff), (0x3040, 0x30ff), (0x3400, 0x4dbf), (0x4e00, 0x9fff), (0xac00, 0xd7af), (0xf900, 0xfaff), (0xfb50, 0xfdff),
];

pub fn suffix_gen(k: &Chk) {
    let mut r = k.run(U, "generate_unique_suffixes", &["min", "max", "canon"]);
    r.bind("seed", "{ let mut h = XxHash64::with_seed(0); h.write(canon.as_bytes()); let z: [u8; 4] = [0; 4]; h.write(&z); h.finish() }");
    r.returns(
        "fisher-yates",
        "{ let mut rng = Rand32::new(seed); let mut indices: Vec<u16> = (min..=max).collect(); (min..=max).rev().map(move |i| { let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16; indices.swap((i - min) as usize, (j - min) as usize); indices[(i - min) as usize] }) }",
    );
    let mut r = k.run(U, "generate_seed", &["canon"]);
    r.returns("seed", "{ let mut h = XxHash64::with_seed(0); h.write(canon.as_bytes()); let z: [u8; 4] = [0; 4]; h.write(&z); h.finish() }");
}

pub fn display_split(k: &Chk) {
    let mut r = k.run(U, "split_display_name", &["s"]);
    r.returns("split", "{ let parts: Vec<&str> = s.split('.').collect(); if parts.len() == 2 { match parts[1].parse::<u16>() { Ok(n) => Some((parts[0].to_string(), n)), Err(_) => None } } else { None } }");
    let mut r = k.run_expr_n(k.ix, U, "split_display_name/empty", &[], &[], "split_display_name(\"\")", 2);
    r.returns("empty", "None");
    let mut r = k.run(P, "Pallet::get_msa_id_for_handle", &["d"]);
    r.bind("sp", "split_display_name(core::str::from_utf8(&d).unwrap_or_default())");
    // text that is not UTF-8 names nobody, as the empty text does
    r.returns_if("lookup", "core::str::from_utf8(&d).is_ok() || sp.is_none()", "match sp { None => None, Some((b, n)) => CanonicalBaseHandleAndSuffixToMSAId::<T>::get(CanonicalBase::try_from(convert_to_canonical(&b).as_bytes().to_vec()).unwrap_or_default(), n) }");
    let mut r = k.run(P, "Pallet::get_handle_for_msa", &["m"]);
    r.bind("shown", "core::str::from_utf8(&MSAIdToDisplayName::<T>::get(m).unwrap().0)");
    r.bind("sp", "split_display_name(shown.unwrap())");
    r.returns(
        "display",
        "if MSAIdToDisplayName::<T>::get(m).is_some() && shown.is_ok() && sp.is_some() { Some(HandleResponse { base_handle: sp.unwrap().0.as_bytes().to_vec(), suffix: sp.unwrap().1, canonical_base: CanonicalBase::try_from(convert_to_canonical(&sp.unwrap().0).as_bytes().to_vec()).unwrap_or_default() }) } else { None }",
    );
}

pub fn validators(k: &Chk) {
    let mut r = k.run(U, "is_reserved_handle", &["s"]);
    r.returns("reserved", "[\"admin\", \"everyone\", \"all\", \"administrator\", \"mod\", \"moderator\", \"here\", \"channel\"].contains(&s)");
    let mut r = k.run(U, "contains_blocked_characters", &["s"]);
    r.returns("blocked", "s.chars().any(|c| ['\"', '#', '%', '(', ')', ',', '.', ':', ';', '<', '>', '@', '\\\\', '`', '{', '}'].contains(&c))");
    let mut r = k.run(U, "consists_of_supported_unicode_character_sets", &["s"]);
    let cond = RANGES.iter().map(|(a, b)| format!("({} <= c as u32 && c as u32 <= {})", a, b)).collect::<Vec<_>>().join(" || ");
    r.returns("ranges", &format!("s.chars().all(|c| {})", cond));
}
