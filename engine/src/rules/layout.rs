//! The published interface: indices, names and encoded layouts that wallets, indexers and stored
//! state depend on, compared with the recorded ones.
use super::*;
use serde_json::{json, Map, Value};
use syn::{GenericArgument, PathArguments, Type};

pub const RECORDED: &str = include_str!("../../layout.json");

type Env = Vec<(String, Value)>;

struct Lay<'a> {
    ix: &'a Index,
    stack: Vec<String>,
}

fn args_of(a: &PathArguments) -> Vec<&Type> {
    match a {
        PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t) } else { None }).collect(),
        _ => vec![],
    }
}
fn has(attrs: &[syn::Attribute], outer: &str, word: &str) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        t.contains(outer) && t.contains(word)
    })
}
fn index_of(attrs: &[syn::Attribute]) -> Option<i64> {
    attrs.iter().find_map(|a| {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        let p = t.find("codec(index=")?;
        t[p + 12..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    })
}
fn params_of(g: &syn::Generics) -> Vec<String> {
    g.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect()
}

impl<'a> Lay<'a> {
    fn ty(&mut self, krate: &str, t: &Type, env: &Env) -> Value {
        match t {
            Type::Reference(r) => self.ty(krate, &r.elem, env),
            Type::Paren(p) => self.ty(krate, &p.elem, env),
            Type::Group(p) => self.ty(krate, &p.elem, env),
            Type::Slice(s) => json!({"seq": self.ty(krate, &s.elem, env)}),
            Type::Array(s) => {
                let n = &s.len;
                let n = quote::quote!(#n).to_string().replace(' ', "");
                json!({"array": [n, self.ty(krate, &s.elem, env)]})
            }
            Type::Tuple(x) if x.elems.is_empty() => json!("()"),
            Type::Tuple(x) => json!({"tuple": x.elems.iter().map(|e| self.ty(krate, e, env)).collect::<Vec<_>>()}),
            Type::Path(p) => {
                let Some(seg) = p.path.segments.last() else { return json!("?") };
                let n = seg.ident.to_string();
                let args = args_of(&seg.arguments);
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    if let Some((_, v)) = env.iter().rev().find(|e| e.0 == n) {
                        return v.clone();
                    }
                }
                match (n.as_str(), args.len()) {
                    ("Box" | "Rc" | "Arc" | "Cow", 1..) => return self.ty(krate, args[0], env),
                    ("Vec" | "BoundedVec" | "WeakBoundedVec" | "VecDeque" | "BTreeSet" | "BoundedBTreeSet", 1..) => return json!({"seq": self.ty(krate, args[0], env)}),
                    ("BTreeMap" | "BoundedBTreeMap", 2..) => return json!({"seq": {"tuple": [self.ty(krate, args[0], env), self.ty(krate, args[1], env)]}}),
                    ("PhantomData", _) => return json!("()"),
                    ("String", 0) => return json!({"seq": "u8"}),
                    _ => {}
                }
                // an associated type of a generic parameter is named by its last segment
                let assoc = p.qself.is_some() || (p.path.segments.len() == 2 && matches!(p.path.segments[0].ident.to_string().as_str(), "T" | "Self"));
                if !assoc {
                    let ix = self.ix;
                    if let Some(a) = ix.aliases.iter().filter(|x| x.1 == n).find(|x| x.0 == krate).or_else(|| ix.aliases.iter().find(|x| x.1 == n && x.0.starts_with("common-"))) {
                        let key = format!("alias {}", n);
                        if !self.stack.contains(&key) {
                            let env2 = self.bind(krate, &a.3.generics, &args, env);
                            self.stack.push(key);
                            let r = self.ty(&a.0, &a.3.ty, &env2);
                            self.stack.pop();
                            return r;
                        }
                    }
                    let structs: Vec<&StructInfo> = ix.structs.iter().filter(|s| s.name == n && !s.item.attrs.iter().any(|a| a.path().segments.len() == 2)).collect();
                    if let Some(s) = structs.iter().find(|s| s.krate == krate).or_else(|| structs.iter().find(|s| s.krate.starts_with("common-"))) {
                        if self.stack.contains(&n) {
                            return json!({"rec": n});
                        }
                        let env2 = self.bind(krate, &s.item.generics, &args, env);
                        self.stack.push(n);
                        let r = self.fields(&s.krate, &s.item.fields, &env2);
                        self.stack.pop();
                        return r;
                    }
                    if let Some(e) = ix.enums.iter().find(|s| s.name == n && s.krate == krate).or_else(|| ix.enums.iter().find(|s| s.name == n && s.krate.starts_with("common-"))) {
                        if self.stack.contains(&n) {
                            return json!({"rec": n});
                        }
                        let env2 = self.bind(krate, &e.item.generics, &args, env);
                        self.stack.push(n);
                        let r = self.variants(&e.krate, e.item, &env2);
                        self.stack.pop();
                        return r;
                    }
                }
                if args.is_empty() || matches!(&*n, "BlockNumberFor") {
                    json!(n)
                } else {
                    json!({"app": [n, args.iter().map(|a| self.ty(krate, a, env)).collect::<Vec<_>>()]})
                }
            }
            _ => json!("?"),
        }
    }
    fn bind(&mut self, krate: &str, g: &syn::Generics, args: &[&Type], env: &Env) -> Env {
        let vals: Vec<Value> = args.iter().map(|a| self.ty(krate, a, env)).collect();
        params_of(g).into_iter().zip(vals).collect()
    }
    fn list(&mut self, krate: &str, f: &syn::Fields, env: &Env) -> Vec<Value> {
        let mut out = vec![];
        for (i, x) in f.iter().enumerate() {
            if has(&x.attrs, "codec(", "skip") {
                continue;
            }
            let mut t = self.ty(krate, &x.ty, env);
            if matches!(&x.ty, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "PhantomData")) {
                continue;
            }
            if has(&x.attrs, "codec(", "compact") {
                t = json!({"compact": t});
            }
            out.push(json!([x.ident.as_ref().map_or(i.to_string(), |n| n.to_string()), t]));
        }
        out
    }
    fn fields(&mut self, krate: &str, f: &syn::Fields, env: &Env) -> Value {
        let l = self.list(krate, f, env);
        match l.len() {
            0 => json!("()"),
            1 => l[0][1].clone(),
            _ => json!({ "struct": l }),
        }
    }
    fn variants(&mut self, krate: &str, e: &syn::ItemEnum, env: &Env) -> Value {
        let mut out = vec![];
        let mut next = 0i64;
        for x in &e.variants {
            if has(&x.attrs, "codec(", "skip") {
                continue;
            }
            let explicit = index_of(&x.attrs).or_else(|| {
                x.discriminant.as_ref().and_then(|(_, d)| {
                    let s = quote::quote!(#d).to_string();
                    s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
                })
            });
            let i = explicit.unwrap_or(next);
            // the derived index of an unmarked variant is its position
            next += 1;
            let fs = self.list(krate, &x.fields, env);
            out.push(json!([i, x.ident.to_string(), fs]));
        }
        json!({ "enum": out })
    }
}

fn named<'t>(seg: &'t syn::PathSegment, n: &str) -> Option<&'t Type> {
    match &seg.arguments {
        PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
            GenericArgument::AssocType(x) if x.ident == n => Some(&x.ty),
            _ => None,
        }),
        _ => None,
    }
}

/// everything published: key -> layout
pub fn published(ix: &Index) -> Map<String, Value> {
    let mut out = Map::new();
    let none: Env = vec![];
    let mut l = Lay { ix, stack: vec![] };
    // calls
    for f in ix.fns.iter().filter(|f| f.krate.starts_with("pallet-") && f.impl_attrs.iter().any(|a| a.replace(' ', "").contains("pallet::call"))) {
        let idx = f.attrs.iter().find_map(|a| {
            let a = a.replace(' ', "");
            let p = a.find("call_index(")?;
            a[p + 11..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<i64>().ok()
        });
        let mut args = vec![];
        for i in f.sig.inputs.iter().skip(1) {
            if let syn::FnArg::Typed(t) = i {
                let mut v = l.ty(&f.krate, &t.ty, &none);
                if has(&t.attrs, "pallet::", "compact") {
                    v = json!({"compact": v});
                }
                let p = &t.pat;
                args.push(json!([quote::quote!(#p).to_string().trim_start_matches('_'), v]));
            }
        }
        out.insert(format!("{}/call/{}", f.krate, f.name), json!({"index": idx, "args": {"struct": args}}));
    }
    // events, errors, reasons
    for e in ix.enums.iter().filter(|e| e.krate.starts_with("pallet-")) {
        for kind in ["event", "error", "composite_enum"] {
            if has(&e.item.attrs, &format!("pallet::{}", kind), "") {
                let v = l.variants(&e.krate, e.item, &none);
                out.insert(format!("{}/{}/{}", e.krate, kind, e.name), v);
            }
        }
    }
    // storage
    for st in ix.storages.iter() {
        let (krate, name) = (&st.krate, &st.name);
        let Some(item) = st.item else { continue };
        let Type::Path(p) = &*item.ty else { continue };
        let Some(seg) = p.path.segments.last() else { continue };
        let kind = seg.ident.to_string();
        let args = args_of(&seg.arguments);
        let mut keys = vec![];
        let (n, vi) = match kind.trim_start_matches("Counted") {
            "StorageMap" => (1, 3),
            "StorageDoubleMap" => (2, 5),
            "StorageNMap" => (0, 2),
            _ => (0, 1),
        };
        for i in 0..n {
            let sfx = if n == 1 { String::new() } else { (i + 1).to_string() };
            let h = named(seg, &format!("Hasher{}", sfx)).or(args.get(1 + 2 * i).copied());
            let k = named(seg, &format!("Key{}", sfx)).or(args.get(2 + 2 * i).copied());
            if let (Some(h), Some(k)) = (h, k) {
                let h = l.ty(krate, h, &none);
                let k = l.ty(krate, k, &none);
                keys.push(json!([h, k]));
            }
        }
        if kind.ends_with("NMap") {
            if let Some(k) = named(seg, "Key").or(args.get(1).copied()) {
                keys.push(l.ty(krate, k, &none));
            }
        }
        let v = named(seg, "Value").or(args.get(vi).copied());
        let v = v.map_or(json!("?"), |v| l.ty(krate, v, &none));
        // a prefix set by attribute replaces the type's name
        let name = item
            .attrs
            .iter()
            .find_map(|a| {
                let t = quote::quote!(#a).to_string().replace(' ', "");
                let p = t.find("storage_prefix=\"")?;
                Some(t[p + 16..].split('"').next().unwrap_or("").to_string())
            })
            .unwrap_or(name.clone());
        out.insert(format!("{}/storage/{}", krate, name), json!({"keys": keys, "value": v}));
    }
    // signed data and API answers reach clients through these
    for m in ix.macros.iter() {
        let n = m.2.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "decl_runtime_apis" {
            if let Ok(f) = syn::parse2::<syn::File>(m.2.mac.tokens.clone()) {
                for it in &f.items {
                    if let syn::Item::Trait(t) = it {
                        for i in &t.items {
                            if let syn::TraitItem::Fn(f) = i {
                                let old = f.attrs.iter().any(|a| quote::quote!(#a).to_string().contains("changed_in"));
                                if !old {
                                    out.insert(format!("{}/api/{}/{}", m.0, t.ident, f.sig.ident), signature(&mut l, &m.0, &f.sig));
                                }
                            }
                        }
                    }
                }
            }
        }
        if n == "construct_runtime" && m.0 == "frequency-runtime" {
            pallets(m.2.mac.tokens.clone(), &mut out);
        }
    }
    for (file, src) in &ix.raw {
        if !src.contains("#[method(") {
            continue;
        }
        let Ok(f) = syn::parse_file(src) else { continue };
        for it in &f.items {
            if let syn::Item::Trait(t) = it {
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        for a in &f.attrs {
                            let s = quote::quote!(#a).to_string();
                            if a.path().is_ident("method") {
                                let name = s.split('"').nth(1).unwrap_or("").to_string();
                                let krate = ix.fns.iter().find(|x| &x.file == file).map_or("", |x| x.krate.as_str()).to_string();
                                out.insert(format!("rpc/{}", name), signature(&mut l, &krate, &f.sig));
                            }
                        }
                    }
                }
            }
        }
    }
    // every encoded type
    for s in ix.structs.iter().filter(|s| has(&s.item.attrs, "derive(", "Encode") && !s.krate.starts_with("frequency")) {
        let v = l.list(&s.krate, &s.item.fields, &none);
        out.insert(format!("record/{}/{}", s.krate, s.name), json!({ "struct": v }));
    }
    for e in ix.enums.iter().filter(|e| has(&e.item.attrs, "derive(", "Encode") && !e.krate.starts_with("frequency")) {
        let v = l.variants(&e.krate, e.item, &none);
        out.insert(format!("record/{}/{}", e.krate, e.name), v);
    }
    // JSON names
    for s in ix.structs.iter().filter(|s| has(&s.item.attrs, "derive", "Serialize") && (s.krate.starts_with("common-") || s.krate.starts_with("pallet-"))) {
        let fs: Vec<Value> = s
            .item
            .fields
            .iter()
            .filter_map(|f| {
                let mut at: Vec<String> = f.attrs.iter().filter(|a| a.path().is_ident("serde")).map(|a| quote::quote!(#a).to_string().replace(' ', "").replace(",)", ")")).collect();
                at.sort();
                f.ident.as_ref().map(|i| json!([i.to_string(), at]))
            })
            .collect();
        let mut at: Vec<String> = s.item.attrs.iter().filter(|a| a.path().is_ident("serde")).map(|a| quote::quote!(#a).to_string().replace(' ', "")).collect();
        at.sort();
        out.insert(format!("json/{}/{}", s.krate, s.name), json!({"fields": fs, "attrs": at}));
    }
    out
}

fn signature(l: &mut Lay, krate: &str, sig: &syn::Signature) -> Value {
    let none = vec![];
    let mut args = vec![];
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            let p = &t.pat;
            let v = l.ty(krate, &t.ty, &none);
            args.push(json!([quote::quote!(#p).to_string().trim_start_matches('_'), v]));
        }
    }
    let r = match &sig.output {
        syn::ReturnType::Default => json!("()"),
        syn::ReturnType::Type(_, t) => l.ty(krate, t, &none),
    };
    json!({"args": {"struct": args}, "returns": r})
}

fn pallets(ts: proc_macro2::TokenStream, out: &mut Map<String, Value>) {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    // descend into the body
    for t in &v {
        if let T::Group(g) = t {
            pallets(g.stream(), out);
        }
    }
    for w in v.split(|t| matches!(t, T::Punct(p) if p.as_char() == ',')) {
        let mut w = w;
        while let [T::Punct(p), T::Group(_), rest @ ..] = w {
            if p.as_char() != '#' {
                break;
            }
            w = rest;
        }
        if let ([T::Ident(n), T::Punct(c), ..], [.., T::Punct(eq), T::Literal(i)]) = (w, w) {
            if c.as_char() == ':' && eq.as_char() == '=' {
                if let Ok(i) = i.to_string().parse::<i64>() {
                    out.insert(format!("runtime/pallet/{}", n), json!(i));
                }
            }
        }
    }
}

/// why a layout is not the recorded one, if it is not
fn differs(b: &Value, c: &Value) -> Option<String> {
    let name = |v: &Value| v[0].as_str().unwrap_or("").to_string();
    match (b, c) {
        (Value::Object(x), Value::Object(y)) if x.contains_key("struct") && y.contains_key("struct") => {
            let (xs, ys) = (x["struct"].as_array().unwrap(), y["struct"].as_array().unwrap());
            if xs.len() != ys.len() {
                return Some(format!("{} fields, recorded {}", ys.len(), xs.len()));
            }
            let (nx, ny): (Vec<String>, Vec<String>) = (xs.iter().map(name).collect(), ys.iter().map(name).collect());
            let (mut sx, mut sy) = (nx.clone(), ny.clone());
            sx.sort();
            sy.sort();
            if sx == sy && nx != ny {
                return Some(format!("field order {:?}, recorded {:?}", ny, nx));
            }
            for (p, q) in xs.iter().zip(ys) {
                if let Some(w) = differs(&p[1], &q[1]) {
                    return Some(format!("{}: {}", name(q), w));
                }
            }
            None
        }
        (Value::Object(x), Value::Object(y)) if x.contains_key("enum") && y.contains_key("enum") => {
            let (xs, ys) = (x["enum"].as_array().unwrap(), y["enum"].as_array().unwrap());
            for p in xs {
                match ys.iter().find(|q| q[0] == p[0]) {
                    None => return Some(format!("no variant {} ({})", p[0], p[1])),
                    Some(q) if q[1] != p[1] => return Some(format!("variant {} is {}, recorded {}", p[0], q[1], p[1])),
                    Some(q) => {
                        if let Some(w) = differs(&json!({"struct": p[2]}), &json!({"struct": q[2]})) {
                            return Some(format!("{}: {}", p[1], w));
                        }
                    }
                }
            }
            for (i, p) in ys.iter().enumerate() {
                if ys[..i].iter().any(|q| q[0] == p[0]) {
                    return Some(format!("two variants share index {}", p[0]));
                }
            }
            None
        }
        (Value::Object(x), Value::Object(y)) => {
            if x.keys().ne(y.keys()) {
                return Some(format!("{}, recorded {}", c, b));
            }
            x.iter().find_map(|(k, v)| differs(v, &y[k]).map(|w| if k == "seq" || k == "args" || k == "value" { w } else { format!("{}: {}", k, w) }))
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{}, recorded {}", c, b));
            }
            x.iter().zip(y).find_map(|(p, q)| differs(p, q))
        }
        _ if b == c => None,
        _ => Some(format!("{}, recorded {}", c, b)),
    }
}

/// the file that declares a published item
fn declared_in(ix: &Index, key: &str) -> String {
    let p: Vec<&str> = key.split('/').collect();
    let (krate, name) = match p[0] {
        "rpc" => return ix.raw.iter().find(|(_, s)| s.contains(&format!("\"{}\"", p[1]))).map_or(String::new(), |x| x.0.clone()),
        "runtime" => return "runtime/frequency/src/lib.rs".into(),
        "json" | "record" => (p[1], p[2]),
        _ => (p[0], *p.last().unwrap()),
    };
    let pool = |f: &str| f.to_string();
    ix.structs
        .iter()
        .filter(|s| s.krate == krate && s.name == name)
        .map(|s| pool(&s.file))
        .chain(ix.enums.iter().filter(|e| e.krate == krate && e.name == name).map(|e| pool(&e.file)))
        .chain(ix.storages.iter().filter(|e| e.krate == krate && e.name == name).map(|e| pool(&e.file)))
        .chain(ix.fns.iter().filter(|e| e.krate == krate && e.name == name && e.impl_attrs.iter().any(|a| a.contains("call"))).map(|e| pool(&e.file)))
        .chain(ix.macros.iter().filter(|e| e.0 == krate).map(|e| pool(&e.1)))
        .next()
        .unwrap_or(krate.to_string())
}

pub fn unchanged(k: &Chk) {
    let rec: Map<String, Value> = serde_json::from_str(RECORDED).unwrap();
    let cur = published(k.ixs["std"]);
    let mut rp = k.rep.borrow_mut();
    for (key, b) in &rec {
        let strict = !key.starts_with("json/") && !key.starts_with("record/");
        let w = match cur.get(key) {
            None if strict => Some("is gone".to_string()),
            None => None,
            Some(c) => differs(b, c),
        };
        let file = declared_in(k.ixs["std"], key);
        let at = format!("{} {}", file, key);
        rp.files.insert(file);
        rp.ob("layout", key, w.is_none(), &format!("{} keeps its recorded names, indices and layout", key), &at, || w.clone().unwrap_or_default());
    }
    // no two calls or pallets share an index
    for (kind, get) in [("call", "index"), ("pallet", "")] {
        let mut seen: Vec<(String, String)> = vec![];
        for (key, v) in &cur {
            let Some((p, _)) = key.split_once(&format!("/{}/", kind)) else { continue };
            let i = if get.is_empty() { v.to_string() } else { v[get].to_string() };
            let me = (p.to_string(), i.clone());
            let dup = seen.contains(&me);
            rp.ob("layout", &format!("{}/own-index", key), !dup && i != "null", "an index names one thing", key, || format!("index {} is used twice or missing", i));
            seen.push(me);
        }
    }
}
