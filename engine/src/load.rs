//! Parses the repository's current source, applies cfg selection, and indexes items.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Named(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Unknown,
}
impl Ty {
    pub fn name(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            _ => "",
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::Named(_, a) => a.get(i).cloned().unwrap_or(Ty::Unknown),
            Ty::Tuple(a) => a.get(i).cloned().unwrap_or(Ty::Unknown),
            _ => Ty::Unknown,
        }
    }
}

pub fn ty_of_syn(t: &syn::Type, self_ty: Option<&str>) -> Ty {
    match t {
        syn::Type::Reference(r) => ty_of_syn(&r.elem, self_ty),
        syn::Type::Paren(p) => ty_of_syn(&p.elem, self_ty),
        syn::Type::Group(p) => ty_of_syn(&p.elem, self_ty),
        syn::Type::Slice(s) => Ty::Named("Vec".into(), vec![ty_of_syn(&s.elem, self_ty)]),
        syn::Type::Array(s) => Ty::Named("Vec".into(), vec![ty_of_syn(&s.elem, self_ty)]),
        syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| ty_of_syn(e, self_ty)).collect()),
        syn::Type::Path(p) => {
            let seg = match p.path.segments.last() {
                Some(s) => s,
                None => return Ty::Unknown,
            };
            let mut n = seg.ident.to_string();
            if n == "Self" && p.path.segments.len() == 1 {
                if let Some(s) = self_ty {
                    n = s.to_string();
                }
            }
            let mut args = vec![];
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                for g in &a.args {
                    if let syn::GenericArgument::Type(t) = g {
                        args.push(ty_of_syn(t, self_ty));
                    }
                }
            }
            if n == "Box" || n == "Rc" || n == "Arc" {
                return args.into_iter().next().unwrap_or(Ty::Unknown);
            }
            if matches!(n.as_str(), "BoundedVec" | "WeakBoundedVec" | "VecDeque" | "BoundedBTreeSet" | "BTreeSet" | "HashSet") {
                n = if n.ends_with("Set") { "Set".into() } else { "Vec".into() };
            }
            Ty::Named(n, args)
        }
        syn::Type::ImplTrait(_) => Ty::Unknown,
        _ => Ty::Unknown,
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub krate: String,
    pub file: String,
    pub modpath: Vec<String>,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub name: String,
    pub sig: &'static syn::Signature,
    pub block: &'static syn::Block,
    pub attrs: Vec<String>,
    pub is_pub: bool,
    pub line: usize,
    pub generics: Vec<String>,
    /// impl-level cfg-resolved attributes such as #[pallet::call]
    pub impl_attrs: Vec<String>,
}
#[derive(Clone)]
pub struct StorageInfo {
    pub krate: String,
    pub name: String,
    pub kind: String, // StorageValue, StorageMap, ...
    pub nkeys: usize,
    pub value: Ty,
    pub value_query: bool,
    pub getter: Option<String>,
    pub hashers: Vec<String>,
    pub file: String,
    pub line: usize,
    pub item: Option<&'static syn::ItemType>,
}
#[derive(Clone)]
pub struct StructInfo {
    pub krate: String,
    pub file: String,
    pub name: String,
    pub fields: Vec<(String, Ty)>,
    pub item: &'static syn::ItemStruct,
}
#[derive(Clone)]
pub struct EnumInfo {
    pub krate: String,
    pub file: String,
    pub name: String,
    pub variants: Vec<String>,
    pub item: &'static syn::ItemEnum,
}
#[derive(Clone)]
pub struct ConstInfo {
    pub krate: String,
    pub file: String,
    pub owner: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub expr: &'static syn::Expr,
}

#[derive(Default)]
pub struct Index {
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub storages: Vec<StorageInfo>,
    pub structs: Vec<StructInfo>,
    pub enums: Vec<EnumInfo>,
    pub consts: Vec<ConstInfo>,
    pub aliases: Vec<(String, String, Ty, &'static syn::ItemType)>,
    pub macros: Vec<(String, String, &'static syn::ItemMacro)>, // crate, file
    pub impls: Vec<(String, String, &'static syn::ItemImpl)>,
    pub files: BTreeSet<String>,
    pub parse_errors: Vec<String>,
    pub raw: BTreeMap<String, String>,
    /// return types declared by traits (methods without a default body)
    pub trait_sigs: HashMap<String, Vec<Ty>>,
    /// names given by `use … as …`: (file, name) -> the path it stands for
    pub renames: HashMap<(String, String), Vec<String>>,
}
fn renames_of(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            renames_of(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((r.rename.to_string(), v));
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                renames_of(x, pre, out);
            }
        }
        _ => {}
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub features: BTreeSet<String>,
}
impl Cfg {
    pub fn eval(&self, m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => {
                if p.is_ident("test") || p.is_ident("doc") {
                    false
                } else if p.is_ident("debug_assertions") {
                    false
                } else {
                    false
                }
            }
            syn::Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            syn::Meta::List(l) => {
                let inner: syn::punctuated::Punctuated<syn::Meta, syn::Token![,]> =
                    match l.parse_args_with(syn::punctuated::Punctuated::parse_terminated) {
                        Ok(x) => x,
                        Err(_) => return false,
                    };
                if l.path.is_ident("any") {
                    inner.iter().any(|m| self.eval(m))
                } else if l.path.is_ident("all") {
                    inner.iter().all(|m| self.eval(m))
                } else if l.path.is_ident("not") {
                    !inner.iter().any(|m| self.eval(m))
                } else {
                    false
                }
            }
        }
    }
    pub fn keep(&self, attrs: &[syn::Attribute]) -> bool {
        for a in attrs {
            if a.path().is_ident("cfg") {
                if let syn::Meta::List(l) = &a.meta {
                    if let Ok(m) = l.parse_args::<syn::Meta>() {
                        if !self.eval(&m) {
                            return false;
                        }
                    }
                }
            }
            if a.path().is_ident("test") {
                return false;
            }
        }
        true
    }
}

struct Strip<'a>(&'a Cfg);
fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        ExternCrate(x) => &x.attrs,
        Fn(x) => &x.attrs,
        ForeignMod(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        Type(x) => &x.attrs,
        Union(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}
pub fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs,
        Call(x) => &x.attrs,
        If(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Match(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Return(x) => &x.attrs,
        Assign(x) => &x.attrs,
        _ => &[],
    }
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain(|i| self.0.keep(item_attrs(i)));
        syn::visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| self.0.keep(item_attrs(i)));
        }
        syn::visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut syn::ItemImpl) {
        m.items.retain(|i| match i {
            syn::ImplItem::Fn(f) => self.0.keep(&f.attrs),
            syn::ImplItem::Const(f) => self.0.keep(&f.attrs),
            syn::ImplItem::Type(f) => self.0.keep(&f.attrs),
            _ => true,
        });
        syn::visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_trait_mut(&mut self, m: &mut syn::ItemTrait) {
        m.items.retain(|i| match i {
            syn::TraitItem::Fn(f) => self.0.keep(&f.attrs),
            syn::TraitItem::Type(f) => self.0.keep(&f.attrs),
            syn::TraitItem::Const(f) => self.0.keep(&f.attrs),
            _ => true,
        });
        syn::visit_mut::visit_item_trait_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => self.0.keep(&l.attrs),
            syn::Stmt::Item(i) => self.0.keep(item_attrs(i)),
            syn::Stmt::Expr(e, _) => self.0.keep(expr_attrs(e)),
            syn::Stmt::Macro(m) => self.0.keep(&m.attrs),
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| self.0.keep(&a.attrs));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, f: &mut syn::FieldsNamed) {
        let v: Vec<syn::Field> = f.named.iter().filter(|x| self.0.keep(&x.attrs)).cloned().collect();
        f.named = v.into_iter().collect();
        syn::visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_expr_struct_mut(&mut self, f: &mut syn::ExprStruct) {
        let v: Vec<syn::FieldValue> = f.fields.iter().filter(|x| self.0.keep(&x.attrs)).cloned().collect();
        f.fields = v.into_iter().collect();
        syn::visit_mut::visit_expr_struct_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        let v: Vec<syn::Variant> = e.variants.iter().filter(|x| self.0.keep(&x.attrs)).cloned().collect();
        e.variants = v.into_iter().collect();
        syn::visit_mut::visit_item_enum_mut(self, e);
    }
}

fn attr_strings(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| {
            let m = &a.meta;
            quote::quote!(#m).to_string()
        })
        .collect()
}

pub struct Loader<'a> {
    pub root: PathBuf,
    pub cfg: Cfg,
    pub ix: &'a mut Index,
    krate: String,
}

const SKIP: &[&str] = &["target", "e2e", "js", "docker", "node_modules", ".git", "scripts", "tools", "designdocs", "docs", "resources"];

pub fn load(root: &Path, features: &[&str]) -> Index {
    let mut ix = Index::default();
    let cfg = Cfg { features: features.iter().map(|s| s.to_string()).collect() };
    let mut crates = vec![];
    find_crates(root, &mut crates);
    crates.sort();
    for dir in crates {
        let toml = std::fs::read_to_string(dir.join("Cargo.toml")).unwrap_or_default();
        if !toml.contains("[package]") {
            continue;
        }
        let name = toml
            .lines()
            .skip_while(|l| l.trim() != "[package]")
            .find_map(|l| l.trim().strip_prefix("name").map(|r| r.trim_start_matches(|c| c == ' ' || c == '=').trim().trim_matches('"').to_string()))
            .unwrap_or_else(|| dir.file_name().unwrap().to_string_lossy().to_string());
        let mut cfg = cfg.clone();
        // crates of the node only, never part of the wasm runtime
        if name.ends_with("-rpc") || name == "common-helpers" {
            cfg.features.insert("std".into());
        }
        let mut ld = Loader { root: root.to_path_buf(), cfg, ix: &mut ix, krate: name.clone() };
        // explicit lib path
        let mut lib = dir.join("src/lib.rs");
        if let Some(p) = toml.lines().skip_while(|l| l.trim() != "[lib]").find_map(|l| l.trim().strip_prefix("path").map(|r| r.trim_start_matches(|c| c == ' ' || c == '=').trim().trim_matches('"').to_string())) {
            lib = dir.join(p);
        }
        for r in [lib, dir.join("src/main.rs")] {
            if r.exists() {
                ld.file(&r, &mut vec![], true);
            }
        }
        let b = dir.join("build.rs");
        if b.exists() {
            ld.krate = format!("{}/build.rs", name);
            ld.file(&b, &mut vec![], true);
        }
    }
    expand_macros(&mut ix, root, cfg);
    // the one framework storage the repository writes directly
    ix.storages.push(StorageInfo {
        krate: "common-runtime".into(),
        name: "Account".into(),
        kind: "StorageMap".into(),
        nkeys: 1,
        value: Ty::Named("AccountInfo".into(), vec![]),
        value_query: true,
        getter: None,
        hashers: vec!["Blake2_128Concat".into()],
        file: "frame_system".into(),
        line: 0,
        item: None,
    });
    // impl blocks written for an alias of one of the crate's own structs
    let al: Vec<(String, String, String)> = ix.aliases.iter().filter(|x| !ix.structs.iter().any(|s| s.name == x.1) && ix.structs.iter().any(|s| s.krate == x.0 && s.name == x.2.name())).map(|x| (x.0.clone(), x.1.clone(), x.2.name().to_string())).collect();
    for f in ix.fns.iter_mut() {
        if let Some(t) = f.self_ty.clone() {
            if let Some(x) = al.iter().find(|x| x.0 == f.krate && x.1 == t) {
                f.self_ty = Some(x.2.clone());
            }
        }
    }
    for (i, f) in ix.fns.iter().enumerate() {
        ix.by_name.entry(f.name.clone()).or_default().push(i);
    }
    ix
}

/// items produced by the repository's own non-repeating macros
fn expand_macros(ix: &mut Index, root: &Path, cfg: Cfg) {
    use proc_macro2::{TokenStream, TokenTree};
    let mut rules: HashMap<String, (Vec<String>, TokenStream)> = HashMap::new();
    for (_, _, m) in &ix.macros {
        let Some(name) = m.ident.as_ref().filter(|_| m.mac.path.is_ident("macro_rules")) else { continue };
        let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let groups: Vec<&proc_macro2::Group> = ts.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
        if groups.len() != 2 {
            continue;
        }
        let pat: Vec<TokenTree> = groups[0].stream().into_iter().collect();
        if pat.iter().any(|t| matches!(t, TokenTree::Group(_))) {
            continue;
        }
        let mut ps = vec![];
        for w in pat.windows(2) {
            if let (TokenTree::Punct(d), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                if d.as_char() == '$' {
                    ps.push(i.to_string());
                }
            }
        }
        if !ps.is_empty() {
            rules.insert(name.to_string(), (ps, groups[1].stream()));
        }
    }
    fn subst(ts: TokenStream, env: &HashMap<String, TokenStream>) -> TokenStream {
        let mut out = vec![];
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(ref d) if d.as_char() == '$' => match it.peek() {
                    Some(TokenTree::Ident(i)) if env.contains_key(&i.to_string()) => {
                        out.extend(env[&i.to_string()].clone());
                        it.next();
                    }
                    _ => out.push(t),
                },
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), env));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    let uses: Vec<(String, String, &'static syn::ItemMacro)> = ix.macros.clone();
    for (krate, rel, m) in uses {
        let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let Some((ps, body)) = rules.get(&n) else { continue };
        let mut args: Vec<TokenStream> = vec![TokenStream::new()];
        for t in m.mac.tokens.clone() {
            match &t {
                TokenTree::Punct(c) if c.as_char() == ',' => args.push(TokenStream::new()),
                _ => args.last_mut().unwrap().extend(std::iter::once(t)),
            }
        }
        if args.len() != ps.len() {
            continue;
        }
        let env: HashMap<String, TokenStream> = ps.iter().cloned().zip(args).collect();
        if let Ok(mut f) = syn::parse2::<syn::File>(subst(body.clone(), &env)) {
            Strip(&cfg).visit_file_mut(&mut f);
            let f: &'static syn::File = Box::leak(Box::new(f));
            let mut ld = Loader { root: root.to_path_buf(), cfg: cfg.clone(), ix, krate };
            ld.items(&f.items, &mut vec![], &rel, root);
        }
    }
}

fn find_crates(d: &Path, out: &mut Vec<PathBuf>) {
    if d.join("Cargo.toml").exists() {
        out.push(d.to_path_buf());
    }
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            if p.is_dir() && !SKIP.contains(&n.as_str()) && !n.starts_with('.') && n != "tests" {
                find_crates(&p, out);
            }
        }
    }
}

impl<'a> Loader<'a> {
    fn rel(&self, p: &Path) -> String {
        p.strip_prefix(&self.root).unwrap_or(p).to_string_lossy().to_string()
    }
    fn file(&mut self, p: &Path, modpath: &mut Vec<String>, is_root: bool) {
        let src = match std::fs::read_to_string(p) {
            Ok(s) => s,
            Err(_) => return,
        };
        let rel = self.rel(p);
        let mut f = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                self.ix.parse_errors.push(format!("{}: {}", rel, e));
                return;
            }
        };
        Strip(&self.cfg).visit_file_mut(&mut f);
        self.ix.files.insert(rel.clone());
        self.ix.raw.insert(rel.clone(), src);
        let f: &'static syn::File = Box::leak(Box::new(f));
        let dir = if is_root || p.file_name().map_or(false, |n| n == "mod.rs") {
            p.parent().unwrap().to_path_buf()
        } else {
            p.with_extension("")
        };
        self.items(&f.items, modpath, &rel, &dir);
    }
    fn items(&mut self, items: &'static [syn::Item], modpath: &mut Vec<String>, rel: &str, dir: &Path) {
        for it in items {
            match it {
                syn::Item::Use(u) => {
                    let mut v = Vec::new();
                    renames_of(&u.tree, &mut Vec::new(), &mut v);
                    for (n, p) in v {
                        self.ix.renames.insert((rel.to_string(), n), p);
                    }
                }
                syn::Item::Mod(m) => {
                    let n = m.ident.to_string();
                    modpath.push(n.clone());
                    match &m.content {
                        Some((_, its)) => {
                            let d = dir.join(&n);
                            self.items(its, modpath, rel, &d)
                        }
                        None => {
                            let mut cands = vec![dir.join(format!("{}.rs", n)), dir.join(&n).join("mod.rs")];
                            for a in &m.attrs {
                                if a.path().is_ident("path") {
                                    if let syn::Meta::NameValue(nv) = &a.meta {
                                        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                                            cands.insert(0, dir.join(s.value()));
                                        }
                                    }
                                }
                            }
                            for c in cands {
                                if c.exists() {
                                    self.file(&c, modpath, false);
                                    break;
                                }
                            }
                        }
                    }
                    modpath.pop();
                }
                syn::Item::Fn(f) => self.add_fn(&f.sig, &f.block, &f.attrs, matches!(f.vis, syn::Visibility::Public(_)), None, None, modpath, rel, vec![], vec![]),
                syn::Item::Impl(im) => {
                    self.ix.impls.push((self.krate.clone(), rel.to_string(), im));
                    let st = match &*im.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                        _ => {
                            let t = ty_of_syn(&im.self_ty, None);
                            match t {
                                Ty::Named(n, _) => Some(n),
                                Ty::Tuple(x) => Some(format!("Tuple{}", x.len())),
                                _ => None,
                            }
                        }
                    };
                    let tr = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                    let gens: Vec<String> = im.generics.type_params().map(|t| t.ident.to_string()).collect();
                    let ia = attr_strings(&im.attrs);
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                self.add_fn(&f.sig, &f.block, &f.attrs, matches!(f.vis, syn::Visibility::Public(_)) || tr.is_some(), st.clone(), tr.clone(), modpath, rel, gens.clone(), ia.clone());
                            }
                            syn::ImplItem::Const(c) => self.ix.consts.push(ConstInfo { krate: self.krate.clone(), file: rel.into(), owner: st.clone(), name: c.ident.to_string(), ty: ty_of_syn(&c.ty, st.as_deref()), expr: &c.expr }),
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ii in &t.items {
                        if let syn::TraitItem::Fn(f) = ii {
                            let rt = match &f.sig.output {
                                syn::ReturnType::Type(_, t) => ty_of_syn(t, None),
                                _ => Ty::Tuple(vec![]),
                            };
                            self.ix.trait_sigs.entry(f.sig.ident.to_string()).or_default().push(rt);
                            if let Some(b) = &f.default {
                                let n = t.ident.to_string();
                                self.add_fn(&f.sig, b, &f.attrs, true, Some(n.clone()), Some(n), modpath, rel, vec![], vec![]);
                            }
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    let fields = match &s.fields {
                        syn::Fields::Named(n) => n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), ty_of_syn(&f.ty, None))).collect(),
                        syn::Fields::Unnamed(n) => n.unnamed.iter().enumerate().map(|(i, f)| (i.to_string(), ty_of_syn(&f.ty, None))).collect(),
                        _ => vec![],
                    };
                    self.ix.structs.push(StructInfo { krate: self.krate.clone(), file: rel.into(), name: s.ident.to_string(), fields, item: s });
                }
                syn::Item::Enum(e) => {
                    self.ix.enums.push(EnumInfo { krate: self.krate.clone(), file: rel.into(), name: e.ident.to_string(), variants: e.variants.iter().map(|v| v.ident.to_string()).collect(), item: e });
                }
                syn::Item::Const(c) => self.ix.consts.push(ConstInfo { krate: self.krate.clone(), file: rel.into(), owner: None, name: c.ident.to_string(), ty: ty_of_syn(&c.ty, None), expr: &c.expr }),
                syn::Item::Static(c) => self.ix.consts.push(ConstInfo { krate: self.krate.clone(), file: rel.into(), owner: None, name: c.ident.to_string(), ty: ty_of_syn(&c.ty, None), expr: &c.expr }),
                syn::Item::Type(t) => {
                    let is_storage = t.attrs.iter().any(|a| {
                        let p = a.path();
                        p.segments.len() == 2 && p.segments[0].ident == "pallet" && p.segments[1].ident == "storage"
                    });
                    let is_alias = t.attrs.iter().any(|a| a.path().is_ident("storage_alias"));
                    if is_storage || is_alias {
                        self.storage(t, rel);
                    } else {
                        self.ix.aliases.push((self.krate.clone(), t.ident.to_string(), ty_of_syn(&t.ty, None), t));
                    }
                }
                syn::Item::Macro(m) => {
                    self.ix.macros.push((self.krate.clone(), rel.to_string(), m));
                    let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if n == "impl_runtime_apis" || n == "decl_runtime_apis" {
                        if let Ok(mut f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                            Strip(&self.cfg).visit_file_mut(&mut f);
                            let f: &'static syn::File = Box::leak(Box::new(f));
                            self.items(&f.items, modpath, rel, dir);
                        } else {
                            self.ix.parse_errors.push(format!("{}: {}! body", rel, n));
                        }
                    }
                    if n == "parameter_types" {
                        self.param_types(m.mac.tokens.clone(), rel);
                    }
                }
                _ => {}
            }
        }
    }
    fn param_types(&mut self, ts: proc_macro2::TokenStream, rel: &str) {
        // `pub const NAME: TY = EXPR;` with optional attributes / missing const
        use proc_macro2::TokenTree as TT;
        let mut cur: Vec<TT> = vec![];
        let mut decls = vec![];
        for t in ts {
            if let TT::Punct(p) = &t {
                if p.as_char() == ';' {
                    decls.push(std::mem::take(&mut cur));
                    continue;
                }
            }
            cur.push(t);
        }
        for d in decls {
            let mut i = 0;
            let mut name = None;
            let mut eq = None;
            let mut colon = None;
            while i < d.len() {
                match &d[i] {
                    TT::Punct(p) if p.as_char() == '#' => i += 1,
                    TT::Punct(p) if p.as_char() == ':' && colon.is_none() => colon = Some(i),
                    TT::Punct(p) if p.as_char() == '=' && eq.is_none() => eq = Some(i),
                    TT::Ident(id) if colon.is_none() && id != "pub" && id != "const" && id != "storage" && id != "static" => name = Some(id.to_string()),
                    _ => {}
                }
                i += 1;
            }
            if let (Some(n), Some(e), Some(c)) = (name, eq, colon) {
                let ts: proc_macro2::TokenStream = d[e + 1..].iter().cloned().collect();
                let tt: proc_macro2::TokenStream = d[c + 1..e].iter().cloned().collect();
                if let (Ok(ex), Ok(ty)) = (syn::parse2::<syn::Expr>(ts), syn::parse2::<syn::Type>(tt)) {
                    let ex: &'static syn::Expr = Box::leak(Box::new(ex));
                    self.ix.consts.push(ConstInfo { krate: self.krate.clone(), file: rel.into(), owner: Some("parameter_types".into()), name: n, ty: ty_of_syn(&ty, None), expr: ex });
                }
            }
        }
    }
    fn storage(&mut self, t: &'static syn::ItemType, rel: &str) {
        if let syn::Type::Path(p) = &*t.ty {
            let seg = p.path.segments.last().unwrap();
            let kind = seg.ident.to_string();
            let mut args: Vec<&syn::Type> = vec![];
            let mut named: BTreeMap<String, &syn::Type> = BTreeMap::new();
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                for g in &a.args {
                    match g {
                        syn::GenericArgument::Type(t) => args.push(t),
                        syn::GenericArgument::AssocType(a) => {
                            named.insert(a.ident.to_string(), &a.ty);
                        }
                        _ => {}
                    }
                }
            }
            let (nkeys, vi, qi, hi): (usize, usize, usize, Vec<usize>) = match kind.as_str() {
                "StorageValue" => (0, 1, 2, vec![]),
                "StorageMap" | "CountedStorageMap" => (1, 3, 4, vec![1]),
                "StorageDoubleMap" => (2, 5, 6, vec![1, 3]),
                "StorageNMap" | "CountedStorageNMap" => {
                    let n = match args.get(1) {
                        Some(syn::Type::Tuple(t)) => t.elems.len(),
                        _ => 1,
                    };
                    (n, 2, 3, vec![])
                }
                _ => (0, 1, 2, vec![]),
            };
            let value = named.get("Value").copied().or(args.get(vi).copied());
            let q = named.get("QueryKind").copied().or(args.get(qi).copied());
            let value_query = q.map_or(false, |q| ty_of_syn(q, None).name() == "ValueQuery");
            let mut hashers: Vec<String> = hi.iter().filter_map(|i| args.get(*i).map(|t| ty_of_syn(t, None).name().to_string())).collect();
            if kind.ends_with("NMap") {
                if let Some(syn::Type::Tuple(t)) = args.get(1) {
                    for e in &t.elems {
                        hashers.push(ty_of_syn(e, None).arg(0).name().to_string());
                    }
                }
            }
            let mut getter = None;
            for a in &t.attrs {
                let p = a.path();
                if p.segments.len() == 2 && p.segments[1].ident == "getter" {
                    if let syn::Meta::List(l) = &a.meta {
                        getter = l.tokens.clone().into_iter().last().map(|x| x.to_string());
                    }
                }
            }
            self.ix.storages.push(StorageInfo {
                krate: self.krate.clone(),
                name: t.ident.to_string(),
                kind,
                nkeys,
                value: value.map_or(Ty::Unknown, |t| ty_of_syn(t, None)),
                value_query,
                getter,
                hashers,
                file: rel.into(),
                line: t.ident.span().start().line,
                item: Some(t),
            });
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn add_fn(&mut self, sig: &'static syn::Signature, block: &'static syn::Block, attrs: &[syn::Attribute], is_pub: bool, self_ty: Option<String>, trait_: Option<String>, modpath: &[String], rel: &str, mut generics: Vec<String>, impl_attrs: Vec<String>) {
        generics.extend(sig.generics.type_params().map(|t| t.ident.to_string()));
        self.ix.fns.push(FnInfo {
            krate: self.krate.clone(),
            file: rel.into(),
            modpath: modpath.to_vec(),
            self_ty,
            trait_,
            name: sig.ident.to_string(),
            sig,
            block,
            attrs: attr_strings(attrs),
            is_pub,
            line: sig.ident.span().start().line,
            generics,
            impl_attrs,
        });
        // nested fns
        for s in &block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
                self.add_fn(&f.sig, &f.block, &f.attrs, false, None, None, modpath, rel, vec![], vec![]);
            }
        }
    }
}
