//! Rule sets: one function per property.
use crate::rule::*;
use crate::load::*;
pub type Rule = fn(&Chk);
pub mod accept;
pub mod capacity;
pub mod events;
pub mod handles;
pub mod helpers;
pub mod messages;
pub mod msa;
pub mod passkey;
pub mod rpc;
pub mod payment;
pub mod runtime;
pub mod schemas;
pub mod stateful;
pub mod time_release;
pub mod chain;
pub mod upgrade;
pub mod values;
pub mod layout;
pub const RULES: &[(&str, &str, Rule)] = &[
    ("C01", "MSA identifiers and key registry.", msa::identity),
    ("C02", "Authorisation of key additions.", msa::key_auth),
    ("C03", "Signature windows and the replay registry.", msa::replay),
    ("C04", "Delegation revocation.", msa::revoke),
    ("C05", "Delegation and grant validity at a block.", msa::valid_at),
    ("C06", "Delegation granting.", msa::grant),
    ("C07", "Free calls are validated.", msa::free_calls),
    ("C08", "MSA retirement.", msa::retire),
    ("C10", "Off-chain key index.", msa::offchain),
    ("C81", "The off-chain worker.", msa::worker),
    ("C82", "Genesis stores what the chain specification describes.", chain::genesis),
    ("C83", "A node runs the chain its identifier names.", chain::which),
    ("C09", "Provider registration.", msa::provider),
    ("C11", "Handle claim/change/retire: both maps agree, one handle per MSA, one owner per handle.", handles::unique),
    ("C12", "Suffix index monotonicity and suffix choice.", handles::suffix_fresh),
    ("C13", "Handle validity at claim time.", handles::claim_valid),
    ("C14", "Validation query equals claim-time validity.", handles::validate_agrees),
    ("C15", "Authorisation of handle claims, changes and retirements.", handles::signed_claim),
    ("C16", "Canonicalisation pipeline and homoglyph table.", handles::canonical),
    ("C17", "Suffix sequence generator.", handles::suffix_gen),
    ("C18", "Display-handle splitting and lookups.", handles::display_split),
    ("C26", "Message authority.", messages::authority),
    ("C27", "Message ordering and retrieval.", messages::order),
    ("C28", "IPFS message CIDs.", messages::cid),
    ("C29", "Message pagination.", messages::pagination),
    ("C30", "Schema creation.", schemas::creation),
    ("C31", "Schema registry.", schemas::registry),
    ("C32", "Schema names.", schemas::names),
    ("C57", "Schema name format and listing.", schemas::name_format),
    ("C58", "Schema settings.", schemas::settings),
    ("C20", "Stateful storage write authority.", stateful::authority),
    ("C21", "Stateful storage content hash and nonce.", stateful::concurrency),
    ("C22", "Stateful storage schema rules.", stateful::schema_rules),
    ("C23", "Stateful storage signed payloads.", stateful::expiry),
    ("C24", "Itemized pages parse and change exactly as specified.", stateful::items),
    ("C25", "Child-tree keys and values.", stateful::child_keys),
    ("C59", "Stateful storage reads.", stateful::reads),
    ("C41", "Time-release transfers lock exactly what they move.", time_release::transfer),
    ("C42", "Claims release exactly what has vested.", time_release::claim),
    ("C43", "Replacing schedules.", time_release::update),
    ("C44", "Release schedule arithmetic.", time_release::schedule_math),
    ("C33", "Staking.", capacity::stake),
    ("C34", "Unstaking.", capacity::unstake),
    ("C35", "Withdrawing unstaked tokens.", capacity::withdraw),
    ("C36", "Spending and replenishing capacity.", capacity::spend),
    ("C37", "Epochs.", capacity::epochs),
    ("C38", "Capacity payment: eligibility and charging.", payment::charging),
    ("C39", "Capacity payment: the ledger side.", payment::adapter),
    ("C40", "Capacity calls and batches.", payment::calls),
    ("C60", "Capacity fee computation.", payment::fees),
    ("C45", "Allowed calls.", runtime::call_filter),
    ("C46", "Proxy types.", runtime::proxy_types),
    ("C47", "Calls payable with capacity.", runtime::eligible_calls),
    ("C48", "Transaction checks.", runtime::pipeline),
    ("C49", "Nonces.", runtime::nonce),
    ("C50", "Passkey transactions.", passkey::transactions),
    ("C51", "Governance origins.", runtime::governance),
    ("C61", "Runtime limits.", runtime::limits),
    ("C79", "Fees, deposits and bonds.", runtime::amounts),
    ("C80", "Block time, sessions and voting periods.", runtime::periods),
    ("C62", "Wiring.", runtime::wiring),
    ("C63", "Runtime APIs answer with the pallets' own state.", rpc::runtime_apis),
    ("C64", "RPC handlers pass the runtime's answer on.", rpc::handlers),
    ("C65", "The paged message query walks messages in order.", rpc::messages_walk),
    ("C67", "Valid MSA calls are accepted.", msa::accepts),
    ("C68", "Every change is announced once, as it happened.", events::announced),
    ("C69", "Valid handle, schema and message calls are accepted.", accept::content),
    ("C70", "Valid stateful-storage edits are accepted.", accept::pages),
    ("C71", "Valid token and capacity calls are accepted.", accept::tokens),
    ("C72", "Valid transactions are accepted into the pool.", accept::pool),
    ("C73", "Ids, grants, settings and pages are encoded and compared whole.", values::whole),
    ("C74", "Published indices, names and encodings stay as they are.", layout::unchanged),
    ("C66", "A storage upgrade carries every record over once.", upgrade::migrations),
    ("C52", "Avro helper functions.", helpers::avro),
    ("C53", "Signed-payload envelope.", helpers::wrapping),
    ("C54", "Byte, text and identifier encodings of RPC responses.", helpers::byte_text),
    ("C55", "Sealing modes.", helpers::sealing_mode),
    ("C56", "Chain detection by genesis hash.", helpers::chain_type),
    ("C19", "Reserved words, blocked characters, supported ranges.", handles::validators),
];

/// all public entry points of a pallet: dispatchables and hooks
pub fn entry_points(ix: &Index, krate: &str) -> Vec<String> {
    let mut v: Vec<String> = ix
        .fns
        .iter()
        .filter(|f| f.krate == krate && f.self_ty.as_deref() == Some("Pallet") && (f.impl_attrs.iter().any(|a| a.replace(' ', "").contains("pallet::call") || a.replace(' ', "").contains("pallet::hooks"))))
        .map(|f| format!("Pallet::{}", f.name))
        .collect();
    v.sort();
    v.dedup();
    v
}
/// every dispatchable/hook of the pallet that may write one of the storages is in the allowed list
pub fn writers(k: &Chk, krate: &str, storages: &[&str], allowed: &[&str]) {
    let eps = entry_points(k.ix, krate);
    k.rep.borrow_mut().ob("write-census", &format!("{}/entry-points", krate), !eps.is_empty(), &format!("{} has dispatchables", krate), krate, || "none found".into());
    for e in &eps {
        if allowed.contains(&e.as_str()) {
            continue;
        }
        let mut r = k.run(krate, e, &[]);
        for s in storages {
            let n = r.evs("set|kill|clear", s);
            let w = n.first().map(|e| format!("{}:{} {}", e.file, e.line, e.func)).unwrap_or_default();
            r.fact("write-census", &format!("{}-not-written", s), n.is_empty(), &format!("{} does not write {}", e, s), &w);
        }
    }
}
/// an effect occurs in none of the entry points
pub fn never(k: &Chk, krate: &str, kind: &str, name: &str, eps: &[&str]) {
    for e in eps {
        let mut r = k.run(krate, e, &[]);
        let n = r.evs(kind, name);
        let w = n.first().map(|e| format!("{}:{} {}", e.file, e.line, e.func)).unwrap_or_default();
        r.fact("never", &format!("never-{}-{}", kind, name), n.is_empty(), &format!("{} never performs {} {}", e, kind, name), &w);
    }
}
/// associated type of an impl block: (impl'd trait, self type) -> declared type, spaces removed
pub fn assoc_type(k: &Chk, krate: &str, trait_: &str, self_ty: &str, name: &str) -> Option<String> {
    for (c, _, im) in &k.ix.impls {
        if c != krate {
            continue;
        }
        let tr = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
        let st = &im.self_ty;
        let st = quote::quote!(#st).to_string().replace(' ', "");
        if tr.as_deref() != Some(trait_) || st != self_ty {
            continue;
        }
        for ii in &im.items {
            if let syn::ImplItem::Type(t) = ii {
                if t.ident == name {
                    let ty = &t.ty;
                    return Some(quote::quote!(#ty).to_string().replace(' ', ""));
                }
            }
        }
    }
    None
}
/// a stored or signed structure encodes and decodes all of its fields, in the derived way
pub fn encodes_whole(k: &Chk, krate: &str, name: &str) {
    let s = k.ix.structs.iter().find(|s| s.krate == krate && s.name == name);
    let mut attrs = vec![];
    let mut skipped = vec![];
    if let Some(s) = s {
        attrs.extend(s.item.attrs.iter().map(|a| quote::quote!(#a).to_string()));
        for f in &s.item.fields {
            for a in &f.attrs {
                let t = quote::quote!(#a).to_string().replace(' ', "");
                if t.contains("skip") && t.contains("codec") || t.contains("encoded_as") {
                    skipped.push(format!("{}: {}", f.ident.as_ref().map_or(String::new(), |i| i.to_string()), t));
                }
            }
        }
    }
    let derives = |d: &str| attrs.iter().any(|a| a.contains("derive") && a.split(|c: char| !c.is_alphanumeric()).any(|w| w == d));
    let manual: Vec<String> = k.ix.impls.iter().filter(|(c, _, im)| c == krate && im.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().map_or(false, |s| s.ident == "Encode" || s.ident == "Decode")) && quote::quote!(#im).to_string().contains(&format!("for {}", name))).map(|x| x.1.clone()).collect();
    let at = s.map_or(krate.to_string(), |s| format!("{} {}", s.file, name));
    let mut rp = k.rep.borrow_mut();
    rp.ob("encoding", &format!("{}/{}/derived", krate, name), s.is_some() && derives("Encode") && derives("Decode") && manual.is_empty(), &format!("{} has the derived encoding", name), &at, || format!("{:?} {:?}", attrs, manual));
    rp.ob("encoding", &format!("{}/{}/whole", krate, name), skipped.is_empty(), &format!("every field of {} is encoded", name), &at, || format!("{:?}", skipped));
}
