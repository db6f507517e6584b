// Calls: path resolution, storage semantics, method semantics, macros.
// (included into eval.rs)

fn segs_of(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
fn is_upper(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_uppercase())
}
fn crate_matches(krate: &str, seg: &str) -> bool {
    krate.replace('-', "_") == seg
}

thread_local! {
    static MAC_ARGS: std::cell::RefCell<HashMap<usize, Vec<&'static Expr>>> = std::cell::RefCell::new(HashMap::new());
    static MAC_MATCH: std::cell::RefCell<HashMap<usize, Option<&'static MatchesArgs>>> = std::cell::RefCell::new(HashMap::new());
}
pub struct MatchesArgs {
    e: Expr,
    p: Pat,
    g: Option<Expr>,
}
impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e: Expr = i.parse()?;
        let _: syn::Token![,] = i.parse()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(syn::Token![if]) {
            let _: syn::Token![if] = i.parse()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _: Option<syn::Token![,]> = i.parse()?;
        Ok(MatchesArgs { e, p, g })
    }
}
fn mac_args(m: &'static syn::Macro) -> Vec<&'static Expr> {
    let key = m as *const _ as usize;
    if let Some(x) = MAC_ARGS.with(|c| c.borrow().get(&key).cloned()) {
        return x;
    }
    let r: Vec<&'static Expr> = match m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
        Ok(p) => p.into_iter().map(|e| &*Box::leak(Box::new(e))).collect(),
        Err(_) => vec![],
    };
    MAC_ARGS.with(|c| c.borrow_mut().insert(key, r.clone()));
    r
}

impl<'a> Ev<'a> {
    /// text produced by a format string: literal pieces and displayed arguments, concatenated
    fn format_term(&mut self, a: &[&'static Expr], st: &mut State, fr: &mut Fr) -> Tid {
        let mut vals: Vec<(Option<String>, V)> = vec![];
        for e in a.iter().skip(1) {
            let (n, e) = match e {
                Expr::Assign(x) => match &*x.left {
                    Expr::Path(p) => (p.path.get_ident().map(|i| i.to_string()), &*x.right),
                    _ => (None, *e),
                },
                _ => (None, *e),
            };
            let x = self.ex(e, st, fr);
            let t = self.val(st, x.t);
            vals.push((n, V { t, ty: x.ty }));
        }
        let lit = match a.first() {
            Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => {
                let mut ts = vec![];
                if let Some(e) = a.first() {
                    let x = self.ex(e, st, fr).t;
                    ts.push(self.val(st, x));
                }
                ts.extend(vals.iter().map(|x| x.1.t));
                return self.c.call("format", ts);
            }
        };
        let mut out: Vec<Tid> = vec![];
        let mut cur = String::new();
        let mut pos = 0;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let ch = cs[i];
            if (ch == '{' || ch == '}') && cs.get(i + 1) == Some(&ch) {
                cur.push(ch);
                i += 2;
                continue;
            }
            if ch == '{' {
                let mut j = i + 1;
                let mut spec = String::new();
                while j < cs.len() && cs[j] != '}' {
                    spec.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                let (nm, fmt) = spec.split_once(':').map(|(a, b)| (a.trim().to_string(), b.to_string())).unwrap_or((spec.trim().to_string(), String::new()));
                let x = if nm.is_empty() {
                    pos += 1;
                    vals.get(pos - 1).map(|x| x.1.clone())
                } else if let Ok(n) = nm.parse::<usize>() {
                    vals.get(n).map(|x| x.1.clone())
                } else if let Some(x) = vals.iter().find(|x| x.0.as_deref() == Some(nm.as_str())) {
                    Some(x.1.clone())
                } else {
                    syn::parse_str::<Expr>(&nm).ok().map(|e| {
                        let e: &'static Expr = Box::leak(Box::new(e));
                        let x = self.ex(e, st, fr);
                        let t = self.val(st, x.t);
                        V { t, ty: x.ty }
                    })
                };
                let x = match x {
                    Some(x) => x,
                    None => vu(self.never()),
                };
                if !cur.is_empty() {
                    out.push(self.c.mk(Term::Str(cur.as_str().into())));
                    cur.clear();
                }
                let is_str = matches!(x.ty.name(), "str" | "String") || matches!(self.c.t(x.t), Term::Str(_));
                let p = if fmt.is_empty() && is_str {
                    x.t
                } else if fmt.is_empty() {
                    self.c.call("to_string", vec![x.t])
                } else {
                    let f = self.c.mk(Term::Str(fmt.as_str().into()));
                    self.c.call("format", vec![f, x.t])
                };
                out.push(p);
                continue;
            }
            cur.push(ch);
            i += 1;
        }
        if !cur.is_empty() || out.is_empty() {
            out.push(self.c.mk(Term::Str(cur.as_str().into())));
        }
        if out.len() == 1 {
            out[0]
        } else {
            self.c.cat(&out)
        }
    }
    fn empty(&mut self) -> Tid {
        self.c.mk(Term::Ctor("[]".into(), vec![]))
    }
    fn path_value(&mut self, p: &'static syn::ExprPath, st: &mut State, fr: &mut Fr) -> V {
        let segs = segs_of(&p.path);
        let last = segs.last().unwrap().clone();
        if segs.len() == 1 && p.qself.is_none() {
            if let Some(id) = self.lookup(fr, &last) {
                let t = match st.vars.get(&id) {
                    Some(t) => *t,
                    None => self.never(),
                };
                return v(t, self.vty[id as usize].clone());
            }
            if last == "None" {
                return v(self.c.ctor0("None"), named("Option", vec![]));
            }
        }
        let prev = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        let owner = if prev == "Self" { fr.cx.self_ty.clone().unwrap_or_default() } else { prev.clone() };
        // constants
        if owner == "BitFlags" && last == "EMPTY" {
            let e = self.empty();
            return v(e, tname("BitFlags"));
        }
        let is_variant = self.ix.enums.iter().any(|e| e.name == owner && e.variants.contains(&last));
        if is_upper(&last) && !last.chars().any(|c| c.is_lowercase()) && !is_variant {
            if !owner.is_empty() && is_upper(&owner) {
                if last == "MAX" || last == "MIN" {
                    let w = width(&owner);
                    if w > 0 {
                        return v(self.c.konst(&format!("{}::{}", owner, last)), tname(&owner));
                    }
                }
                if let Some(x) = self.find_const(&last, Some(&owner), &fr.cx.clone()) {
                    return x;
                }
            } else if let ("u8" | "u16" | "u32" | "u64" | "u128" | "usize", "MAX") = (owner.as_str(), last.as_str()) {
                let m: Option<i128> = match owner.as_str() {
                    "u8" => Some(255),
                    "u16" => Some(65535),
                    "u32" => Some(u32::MAX as i128),
                    "u64" => Some(u64::MAX as i128),
                    _ => None,
                };
                if let Some(m) = m {
                    return v(self.c.int(m), tname(&owner));
                }
                return v(self.c.konst(&format!("{}::MAX", owner)), tname(&owner));
            } else if let Some(x) = self.find_const(&last, None, &fr.cx.clone()) {
                return x;
            }
            let n = if prev.is_empty() { last } else { format!("{}::{}", prev, last) };
            return vu(self.c.konst(&n));
        }
        if is_upper(&last) {
            if segs.len() == 1 {
                if let Some(x) = self.find_const(&last, None, &fr.cx.clone()) {
                    return x;
                }
                // function-like constructors used as values
                if matches!(last.as_str(), "Some" | "Ok" | "Err") || self.ix.structs.iter().any(|s| s.name == last && matches!(s.item.fields, syn::Fields::Unnamed(_))) {
                    let id = self.callables.len() as u32;
                    self.callables.push(Callable::Path(p, fr.cx.clone()));
                    return vu(self.c.mk(Term::Closure(id)));
                }
                return vu(self.c.ctor0(&last));
            }
            // enum unit variant or tuple-variant constructor
            if let Some(e) = self.ix.enums.iter().find(|e| e.name == owner && e.variants.contains(&last)) {
                let vr = e.item.variants.iter().find(|x| x.ident == last).unwrap();
                if matches!(vr.fields, syn::Fields::Unnamed(_)) {
                    let id = self.callables.len() as u32;
                    self.callables.push(Callable::Path(p, fr.cx.clone()));
                    return vu(self.c.mk(Term::Closure(id)));
                }
                let en = e.name.clone();
                if en == "Error" {
                    return v(self.c.konst(&format!("{}::{}", owner, last)), tname(&en));
                }
                return v(self.c.ctor0(&last), tname(&en));
            }
            if owner.ends_with("Error") || owner == "InvalidTransaction" || owner == "UnknownTransaction" {
                return vu(self.c.konst(&format!("{}::{}", owner, last)));
            }
            return vu(self.c.ctor0(&last));
        }
        // function item used as a value
        let id = self.callables.len() as u32;
        self.callables.push(Callable::Path(p, fr.cx.clone()));
        vu(self.c.mk(Term::Closure(id)))
    }

    pub fn find_storage(&self, name: &str, cx: &Ctx, segs: &[String]) -> Option<&'a StorageInfo> {
        let ix = self.ix;
        let c: Vec<&'a StorageInfo> = ix.storages.iter().filter(|s| s.name == name).collect();
        if c.is_empty() {
            return None;
        }
        if let Some(s) = c.iter().find(|s| s.krate == cx.krate && s.file == cx.file) {
            return Some(s);
        }
        if let Some(s) = c.iter().find(|s| crate_matches(&s.krate, &segs[0])) {
            return Some(s);
        }
        if let Some(s) = c.iter().find(|s| s.krate == cx.krate) {
            return Some(s);
        }
        None
    }
    pub fn resolve_assoc(&self, ty: &str, name: &str, cx: &Ctx, segs: &[String], nargs: usize, arg0: Option<&Ty>) -> Option<usize> {
        let ix = self.ix;
        let all: Vec<usize> = ix.by_name.get(name)?.iter().copied().filter(|i| ix.fns[*i].self_ty.as_deref() == Some(ty) && ix.fns[*i].sig.inputs.len() == nargs).collect();
        if all.is_empty() {
            return None;
        }
        let by_arg = |v: &Vec<usize>| -> Option<usize> {
            if v.len() > 1 {
                if let Some(t) = arg0 {
                    if t.name() != "" {
                        for i in v {
                            if let Some(syn::FnArg::Typed(pt)) = ix.fns[*i].sig.inputs.first() {
                                if ty_of_syn(&pt.ty, None).name() == t.name() {
                                    return Some(*i);
                                }
                            }
                        }
                    }
                }
            }
            v.first().copied()
        };
        let explicit: Vec<usize> = all.iter().copied().filter(|i| segs.iter().any(|s| crate_matches(&ix.fns[*i].krate, s))).collect();
        if !explicit.is_empty() {
            return by_arg(&explicit);
        }
        let same: Vec<usize> = all.iter().copied().filter(|i| ix.fns[*i].krate == cx.krate).collect();
        if !same.is_empty() {
            let f: Vec<usize> = same.iter().copied().filter(|i| ix.fns[*i].file == cx.file).collect();
            // same (type,name) in several files: prefer inherent/near definition
            if same.len() > 1 && !f.is_empty() {
                return by_arg(&f);
            }
            return by_arg(&same);
        }
        let crates: BTreeSet<&str> = all.iter().map(|i| ix.fns[*i].krate.as_str()).collect();
        if crates.len() == 1 && ty != "Pallet" {
            return by_arg(&all);
        }
        None
    }
    pub fn resolve_free(&self, name: &str, cx: &Ctx, segs: &[String]) -> Option<usize> {
        let ix = self.ix;
        // `use a::b::{self as c}`: a path through `c` is a path through `b`
        let full: Vec<String>;
        let (name, segs) = match segs.first().and_then(|s| ix.renames.get(&(cx.file.clone(), s.clone()))) {
            Some(p) if !p.is_empty() => {
                full = p.iter().chain(segs[1..].iter()).cloned().collect();
                (if segs.len() == 1 { full.last().unwrap().as_str() } else { name }, &full[..])
            }
            _ => (name, segs),
        };
        let mut c: Vec<usize> = ix.by_name.get(name)?.iter().copied().filter(|i| ix.fns[*i].self_ty.is_none()).collect();
        if segs.len() >= 2 {
            let q = &segs[segs.len() - 2];
            let f: Vec<usize> = c
                .iter()
                .copied()
                .filter(|i| match q.as_str() {
                    "crate" | "super" | "self" => ix.fns[*i].krate == cx.krate,
                    q => ix.fns[*i].modpath.last().map_or(false, |m| m == q) || crate_matches(&ix.fns[*i].krate, q) || ix.fns[*i].file.ends_with(&format!("/{}.rs", q)),
                })
                .collect();
            if f.is_empty() {
                // a module alias or re-export of another crate of the repository
                if !segs.iter().any(|s| ix.fns.iter().any(|g| crate_matches(&g.krate, s))) {
                    return None;
                }
            } else {
                c = f;
            }
        }
        if c.is_empty() {
            return None;
        }
        if let Some(i) = c.iter().copied().find(|i| ix.fns[*i].file == cx.file) {
            return Some(i);
        }
        if let Some(i) = c.iter().copied().find(|i| ix.fns[*i].krate == cx.krate) {
            return Some(i);
        }
        let c2: Vec<usize> = c.iter().copied().filter(|i| !ix.fns[*i].krate.ends_with("build.rs")).collect();
        if c2.len() == 1 {
            return Some(c2[0]);
        }
        None
    }
    fn opaque_ret(&self, name: &str) -> Ty {
        if let Some(v) = self.ix.trait_sigs.get(name) {
            let n: Vec<Ty> = v.iter().map(|t| self.norm_ty(t.clone())).collect();
            if !n.is_empty() && n.iter().all(|t| *t == n[0]) {
                return n[0].clone();
            }
        }
        match name {
            // reads of raw state, outside the repository
            "get_raw" => named("Option", vec![named("Vec", vec![tname("u8")])]),
            "decode" | "decode_all" | "from_utf8" => named("Result", vec![]),
            _ => Ty::Unknown,
        }
    }
    /// the largest value of an integer type, whichever way it is written
    fn type_max(&mut self, t: Tid, ty: &Ty) -> Tid {
        let m: Option<i128> = match width(ty.name()) {
            0 => None,
            w if w < 100 => Some((1i128 << w) - 1),
            _ => None,
        };
        match self.c.t(t) {
            Term::Int(n) if Some(*n) == m => self.c.konst("max_value"),
            _ => t,
        }
    }
    fn try_conv(&mut self, name: &str, x: Tid, ty: Ty) -> V {
        if let (Term::Int(_), "try_into") = (self.c.t(x).clone(), name) {
            // constant conversions are decided by the compiler; keep them total
        }
        // integer narrowing succeeds exactly on the representable values
        if matches!(ty.name(), "u8" | "u16" | "u32") && name == "try_into" {
            let k = self.c.int(1i128 << width(ty.name()));
            let ok = self.c.lt(x, k);
            let good = self.c.ctor1("Ok", x);
            let e = self.c.call("TryFromIntError", vec![]);
            let bad = self.c.ctor1("Err", e);
            return v(self.c.ite(ok, good, bad), named("Result", vec![ty]));
        }
        let call = self.c.call(name, vec![x]);
        let ok = self.c.is(call, "Ok");
        let good = self.c.ctor1("Ok", x);
        let e = self.c.payload(call, "Err", "0");
        let bad = self.c.ctor1("Err", e);
        v(self.c.ite(ok, good, bad), named("Result", vec![ty]))
    }
    pub fn call_path(&mut self, p: &'static syn::ExprPath, args: Vec<V>, st: &mut State, fr: &mut Fr, line: usize) -> V {
        let mut segs = segs_of(&p.path);
        let last = segs.last().unwrap().clone();
        let mut prev = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        let mut prev_ty = Ty::Unknown;
        if segs.len() >= 2 {
            // keep the generic arguments of `Type::<..>::f`
            let mut q = p.path.clone();
            q.segments.pop();
            q.segments.pop_punct();
            prev_ty = self.norm_ty(ty_of_syn(&syn::Type::Path(syn::TypePath { qself: None, path: q }), fr.cx.self_ty.as_deref()));
        }
        if let Some(q) = &p.qself {
            let t = ty_of_syn(&q.ty, fr.cx.self_ty.as_deref());
            if q.position + 1 == p.path.segments.len() || q.position == 0 {
                // <Type as Trait>::f or <Type>::f
                let qs = match &*q.ty {
                    syn::Type::Path(tp) => segs_of(&tp.path),
                    _ => vec![t.name().to_string()],
                };
                segs = qs;
                segs.push(last.clone());
                prev = segs[segs.len() - 2].clone();
                prev_ty = self.norm_ty(t);
            }
        }
        let self_name = fr.cx.self_ty.clone().unwrap_or_default();
        let owner = if prev == "Self" { self_name.clone() } else { prev.clone() };
        // ---- storage ----
        if segs.len() >= 2 {
            if let Some(s) = self.find_storage(&prev, &fr.cx, &segs) {
                let s = s.clone();
                return self.storage_call(&s, &last, args, st, fr, line);
            }
            if owner == "Pallet" || prev == "Self" {
                let ix = self.ix;
                if let Some(s) = ix.storages.iter().find(|s| s.getter.as_deref() == Some(&last) && (s.krate == fr.cx.krate || crate_matches(&s.krate, &segs[0]))) {
                    let s = s.clone();
                    return self.storage_call(&s, "get", args, st, fr, line);
                }
            }
        }
        let a: Vec<Tid> = args.iter().map(|x| self.val(st, x.t)).collect();
        // ---- constructors ----
        if is_upper(&last) {
            match last.as_str() {
                "Some" | "Ok" | "Err" => {
                    let at = args.first().map_or(Ty::Unknown, |x| x.ty.clone());
                    let raw = args.first().map_or(0, |x| x.t);
                    let x = if self.has_ref(raw) { raw } else { a.first().copied().unwrap_or(0) };
                    let t = self.c.ctor1(&last, x);
                    let ty = match last.as_str() {
                        "Some" => named("Option", vec![at]),
                        "Ok" => named("Result", vec![at]),
                        _ => named("Result", vec![Ty::Unknown, at]),
                    };
                    return v(t, ty);
                }
                _ => {}
            }
            let n = if last == "Self" { self_name.clone() } else { last.clone() };
            if self.transparent.contains(&n) && a.len() == 1 {
                return v(a[0], tname(&n));
            }
            let ty = if segs.len() >= 2 && self.ix.enums.iter().any(|e| e.name == owner) { tname(&owner) } else { tname(&n) };
            let fs = args.iter().enumerate().map(|(i, x)| (Str::from(i.to_string()), if self.has_ref(x.t) { x.t } else { a[i] })).collect();
            return v(self.c.mk(Term::Ctor(n.as_str().into(), fs)), ty);
        }
        if last == "deposit_event" && a.len() == 1 {
            for (g, leaf) in self.leaves(a[0]) {
                let pc = self.c.and(st.pc, g);
                let n = match self.c.t(leaf).clone() {
                    Term::Ctor(n, _) => n.to_string(),
                    _ => "?".into(),
                };
                self.emit("emit", n, vec![], Some(leaf), pc, fr, line);
            }
            return v(self.c.unit(), Ty::Tuple(vec![]));
        }
        // ---- well-known functions ----
        match (prev.as_str(), last.as_str(), a.len()) {
            (_, "block_number", 0) => return v(self.c.call("block_number", vec![]), tname("BlockNumberFor")),
            ("cmp" | "", "min" | "max", 2) => {
                // of two equal ones either
                let (x, y) = (a[0].min(a[1]), a[0].max(a[1]));
                let l = self.c.lt(x, y);
                let t = if last == "min" { self.c.ite(l, x, y) } else { self.c.ite(l, y, x) };
                return v(t, args[0].ty.clone());
            }
            ("mem", "take", 1) => {
                if let Term::RefMut(vv, pr) = self.c.t(args[0].t).clone() {
                    let k = fr.cx.krate.clone();
                    let d = self.default_of(&args[0].ty, &k, st, fr);
                    self.write_place(st, vv, &pr, d);
                }
                return v(a[0], args[0].ty.clone());
            }
            ("mem", "replace", 2) => {
                if let Term::RefMut(vv, pr) = self.c.t(args[0].t).clone() {
                    self.write_place(st, vv, &pr, a[1]);
                }
                return v(a[0], args[0].ty.clone());
            }
            ("Box" | "Rc" | "Arc" | "Cow" | "Reverse" | "Wrapping" | "Mutex", "new", 1) => return v(args[0].t, args[0].ty.clone()),
            ("Vec" | "VecDeque", "from_iter", 1) => {
                let et = self.elem_ty(&args[0].ty);
                return v(args[0].t, named("Vec", vec![et]));
            }
            ("Vec" | "BoundedVec" | "WeakBoundedVec" | "String" | "BTreeMap" | "BoundedBTreeMap" | "HashMap" | "BTreeSet" | "HashSet" | "BoundedBTreeSet" | "VecDeque" | "BitFlags", "new" | "default" | "empty", 0) => {
                let ty = match prev.as_str() {
                    "String" => tname("String"),
                    "BTreeSet" | "HashSet" | "BoundedBTreeSet" => named("Set", vec![Ty::Unknown]),
                    "BTreeMap" | "HashMap" | "BoundedBTreeMap" => prev_ty,
                    _ => named("Vec", vec![prev_ty.arg(0)]),
                };
                return v(self.empty(), ty);
            }
            ("Vec" | "String", "with_capacity", 1) => return v(self.empty(), named("Vec", vec![Ty::Unknown])),
            ("Default", "default", 0) => {
                let k = self.c.konst("?");
                return vu(self.c.call("default", vec![k]));
            }
            ("String" | "str", "from_utf8", 1) => return self.try_conv("from_utf8", a[0], tname("String")),
            ("char", "from_u32", 1) => return v(self.c.call("char_from_u32", a), named("Option", vec![tname("char")])),
            ("Ok" | "Some", _, _) => {}
            _ => {}
        }
        if segs.len() >= 2 && a.is_empty() && last == "get" && is_upper(&prev) {
            // associated / parameter constants
            if let Some(x) = self.find_const(&prev, Some("parameter_types"), &fr.cx.clone()) {
                if segs.len() == 2 {
                    return x;
                }
            }
            // an associated constant of another type parameter is that parameter's own
            let of = match &p.qself {
                Some(q) => ty_of_syn(&q.ty, None).name().to_string(),
                None if segs.len() >= 3 => segs[0].clone(),
                None => String::new(),
            };
            let of = if matches!(of.as_str(), "" | "T" | "Self" | "Runtime" | "Test" | "C" | "I") || !is_upper(&of) { prev.clone() } else { format!("{}::{}", of, prev) };
            return vu(self.c.call(&of, vec![]));
        }
        let numeric = width(&prev) > 0 && prev.chars().next().map_or(false, |c| c.is_lowercase());
        if numeric {
            match (last.as_str(), a.len()) {
                ("from", 1) => {
                    let bools = matches!(self.c.t(a[0]), Term::Bool(_)) || args[0].ty.name() == "bool";
                    let t = if bools { self.cast(a[0], &tname("bool"), &prev) } else { a[0] };
                    return v(t, tname(&prev));
                }
                ("try_from", 1) => return self.try_conv("try_into", a[0], tname(&prev)),
                ("max_value", 0) => return vu(self.c.konst(&format!("{}::MAX", prev))),
                ("min_value", 0) => return v(self.c.int(0), tname(&prev)),
                _ => {}
            }
        }
        if last == "max_encoded_len" && a.is_empty() {
            if let Some(n) = self.encoded_len(&prev_ty, 0) {
                return v(self.c.int(n), tname("usize"));
            }
        }
        // ---- repository functions ----
        let nargs = args.len();
        let a0 = args.first().map(|x| x.ty.clone());
        let q_t = p.qself.as_ref().map_or(false, |q| matches!(ty_of_syn(&q.ty, None).name(), "T")) && segs.len() >= 3;
        let generic_self = q_t || segs.len() >= 2 && (segs[0] == "T" || segs[0].len() == 1 && is_upper(&segs[0])) && segs.len() >= 2 && p.qself.is_none();
        if segs.len() >= 2 && is_upper(&owner) && !generic_self && owner != "SubstrateWeight" {
            let tyname = match self.ix.aliases.iter().find(|x| x.1 == owner && x.0 == fr.cx.krate) {
                Some(x) if !self.ix.structs.iter().any(|s| s.name == owner) => x.2.name().to_string(),
                _ => owner.clone(),
            };
            // `<X as Trait>::f` is the method of that trait only
            let qtrait = p.qself.as_ref().and_then(|q| q.position.checked_sub(1)).and_then(|i| p.path.segments.iter().nth(i)).map(|s| s.ident.to_string());
            if let Some(fi) = self.resolve_assoc(&tyname, &last, &fr.cx, &segs, nargs, a0.as_ref()).filter(|i| match (&qtrait, &self.ix.fns[*i].trait_) {
                (Some(q), Some(t)) => q == t || !self.ix.fns.iter().any(|f| f.trait_.as_ref() == Some(t) && f.self_ty == f.trait_),
                _ => true,
            }) {
                return self.invoke(fi, args, st, fr, line);
            }
            // Trait::method(value, ..): the implementation for the value's type, or the only one
            if let Some(c) = self.ix.by_name.get(&last) {
                let c: Vec<usize> = c.iter().copied().filter(|i| {
                    let f = &self.ix.fns[*i];
                    f.trait_.as_deref() == Some(owner.as_str()) && f.self_ty != f.trait_ && f.krate == fr.cx.krate && f.sig.inputs.len() == nargs && matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_)))
                }).collect();
                let t = a0.as_ref().map_or("", |t| t.name());
                let pick = c.iter().copied().find(|i| self.ix.fns[*i].self_ty.as_deref() == Some(t)).or(if c.len() == 1 { Some(c[0]) } else { None });
                if let Some(fi) = pick {
                    return self.invoke(fi, args, st, fr, line);
                }
            }
            // Self:: inside a trait default method / trait static
            if last == "default" && a.is_empty() {
                let k = fr.cx.krate.clone();
                if prev_ty.name() == "XxHash64" {
                    let z = self.c.int(0);
                    return v(self.c.call("XxHash64::with_seed", vec![z]), prev_ty);
                }
                let t = self.default_of(&prev_ty, &k, st, fr);
                return v(t, prev_ty);
            }
            if a.len() == 1 {
                match last.as_str() {
                    "from_be_bytes" | "from_le_bytes" => {
                        if let Some(b) = self.run_of(a[0]) {
                            let ty = self.norm_ty(prev_ty);
                            return v(self.c.call(&format!("{}::{}", ty.name(), last), vec![b]), ty);
                        }
                    }
                    "from" | "new_call_variant" if last == "from" => return v(a[0], prev_ty),
                    "try_from" => return self.try_conv("try_into", a[0], prev_ty),
                    "truncate_from" => return v(self.c.call("truncate", a), prev_ty),
                    _ => {}
                }
            }
        } else if !generic_self && (segs.len() == 1 || !is_upper(&prev)) {
            if let Some(fi) = self.resolve_free(&last, &fr.cx, &segs) {
                return self.invoke(fi, args, st, fr, line);
            }
        }
        // `char::is_whitespace(c)` is `c.is_whitespace()`
        const STD: &[&str] = &["char", "str", "String", "bool", "u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128", "Vec", "Option", "Result", "Iterator", "IntoIterator", "ToString", "ToOwned", "Clone", "Into", "AsRef", "BTreeMap", "HashMap", "BTreeSet", "Ord", "Encode"];
        let ctor = ["from", "new", "with_", "default", "max_value", "min_value", "decode", "try_from"].iter().any(|p| last.starts_with(p));
        if segs.len() == 2 && STD.contains(&prev.as_str()) && !args.is_empty() && !ctor && !is_upper(&last) {
            let m = match self.ufcs.get(&last) {
                Some(m) => *m,
                None => {
                    let id = syn::Ident::new(&last, proc_macro2::Span::call_site());
                    let m: syn::ExprMethodCall = syn::parse_quote!(__ufcs.#id());
                    let m: &'static syn::ExprMethodCall = Box::leak(Box::new(m));
                    self.ufcs.insert(last.clone(), m);
                    m
                }
            };
            let mut it = args.into_iter();
            let mut r = it.next().unwrap();
            if r.ty == Ty::Unknown && !matches!(prev.as_str(), "Iterator" | "IntoIterator" | "ToString" | "ToOwned" | "Clone" | "Into" | "AsRef" | "Ord" | "Encode") {
                r.ty = tname(&prev);
            }
            return self.method_on(m, r, it.collect(), st, fr);
        }
        // weight tables share a type name; the module tells them apart
        let owner = if owner == "SubstrateWeight" && segs.len() >= 3 { format!("{}::{}", segs[segs.len() - 3], owner) } else { owner };
        let owner = match (segs.len(), self.ix.aliases.iter().find(|x| x.1 == owner).map(|x| x.2.name().to_string())) {
            // a number type under another name
            (2, Some(n)) if matches!(n.as_str(), "u8" | "u16" | "u32" | "u64" | "u128") => n,
            // a decoded value is of whatever type it is used at
            (2, None) if last == "decode" && owner.len() <= 2 && is_upper(&owner) => "Decode".to_string(),
            _ => owner,
        };
        let name = if segs.len() >= 2 { format!("{}::{}", owner, last) } else { last.clone() };
        let ty = self.opaque_ret(&last);
        if matches!(last.as_str(), "zero") && a.is_empty() {
            return v(self.c.int(0), prev_ty);
        }
        if matches!(last.as_str(), "max_value") && a.is_empty() {
            return v(self.c.konst("max_value"), prev_ty);
        }
        if matches!(last.as_str(), "one") && a.is_empty() {
            return v(self.c.int(1), prev_ty);
        }
        if last == "from" && a.len() == 1 && generic_self {
            return v(a[0], Ty::Unknown);
        }
        self.opaque_call(&name, args, ty, st, fr, line)
    }

    // ---------------- storage ----------------
    fn vq_get(&mut self, s: &StorageInfo, cell: Tid, st: &mut State, fr: &Fr) -> Tid {
        match self.c.t(cell).clone() {
            Term::Ite(c, a, b) => {
                let x = self.vq_get(s, a, st, fr);
                let y = self.vq_get(s, b, st, fr);
                self.c.ite(c, x, y)
            }
            Term::Ctor(n, _) if &*n == "None" => {
                let ty = self.norm_ty(s.value.clone());
                self.default_of(&ty, &s.krate, st, fr)
            }
            _ => self.c.payload(cell, "Some", "0"),
        }
    }
    fn storage_call(&mut self, s: &StorageInfo, f: &str, args: Vec<V>, st: &mut State, fr: &mut Fr, line: usize) -> V {
        let vt = self.norm_ty(s.value.clone());
        let opt_t = named("Option", vec![vt.clone()]);
        // split keys / rest
        let mut keys: Vec<Tid> = vec![];
        let mut rest: Vec<V> = vec![];
        let mut it = args.into_iter();
        let nk = s.nkeys;
        if s.kind.ends_with("NMap") {
            if let Some(k) = it.next() {
                let kt = self.val(st, k.t);
                match self.c.t(kt).clone() {
                    Term::Ctor(n, fs) if &*n == "()" => keys.extend(fs.iter().map(|x| x.1)),
                    _ => {
                        for i in 0..nk {
                            keys.push(self.c.field(kt, &i.to_string()));
                        }
                    }
                }
            }
        } else {
            for _ in 0..nk {
                if let Some(k) = it.next() {
                    let kt = self.val(st, k.t);
                    keys.push(kt);
                } else {
                    break;
                }
            }
        }
        rest.extend(it);
        let x = s.name.clone();
        let unit = self.c.unit();
        match f {
            "get" | "take" | "try_get" | "get_or" => {
                let cell = self.read_store(st, &x, &keys);
                let out = match f {
                    "try_get" => {
                        let i = self.c.is(cell, "Some");
                        let p = self.c.payload(cell, "Some", "0");
                        let ok = self.c.ctor1("Ok", p);
                        let er = self.c.ctor1("Err", unit);
                        v(self.c.ite(i, ok, er), named("Result", vec![vt]))
                    }
                    _ if s.value_query => v(self.vq_get(s, cell, st, fr), vt),
                    _ => v(cell, opt_t),
                };
                if f == "take" {
                    let n = self.c.ctor0("None");
                    self.write_store(st, &x, &keys, n, fr, line);
                }
                out
            }
            "insert" | "put" | "set" => {
                let val = match rest.first() {
                    Some(r) => self.val(st, r.t),
                    None => unit,
                };
                let cell = if f == "set" && !s.value_query { val } else { self.c.ctor1("Some", val) };
                self.write_store(st, &x, &keys, cell, fr, line);
                v(unit, Ty::Tuple(vec![]))
            }
            "remove" | "kill" => {
                let n = self.c.ctor0("None");
                self.write_store(st, &x, &keys, n, fr, line);
                v(unit, Ty::Tuple(vec![]))
            }
            "contains_key" | "exists" => {
                let cell = self.read_store(st, &x, &keys);
                let i = self.c.is(cell, "Some");
                v(self.c.boolt(i), tname("bool"))
            }
            "mutate" | "mutate_exists" | "try_mutate" | "try_mutate_exists" => {
                let cell = self.read_store(st, &x, &keys);
                let as_opt = f.ends_with("_exists") || !s.value_query;
                let (init, ity) = if as_opt { (cell, opt_t) } else { (self.vq_get(s, cell, st, fr), vt.clone()) };
                let id = self.newvar(st, init, ity.clone(), true);
                let r = self.c.mk(Term::RefMut(id, vec![]));
                let clo = match rest.last() {
                    Some(c) => c.t,
                    None => unit,
                };
                let res = self.apply(clo, vec![v(r, ity)], st, fr, line);
                if st.pc == FALSE {
                    return vu(self.never());
                }
                let fin = st.vars[&id];
                let rv = self.val(st, res.t);
                if fin != init {
                    let ncell = if as_opt { fin } else { self.c.ctor1("Some", fin) };
                    let ncell = if f.starts_with("try") {
                        let ok = self.c.is(rv, "Ok");
                        self.c.ite(ok, ncell, cell)
                    } else {
                        ncell
                    };
                    self.write_store(st, &x, &keys, ncell, fr, line);
                }
                let ty = if f.starts_with("try") && res.ty.name() != "Result" { named("Result", vec![]) } else { res.ty };
                v(rv, ty)
            }
            "mutate_extant" => {
                let cell = self.read_store(st, &x, &keys);
                let ok = self.c.is(cell, "Some");
                let p = self.c.payload(cell, "Some", "0");
                let clo = match rest.last() {
                    Some(c) => c.t,
                    None => unit,
                };
                let (x2, k2) = (x.clone(), keys.clone());
                let out = self.gated(
                    ok,
                    st,
                    fr,
                    &mut |ev, s2, fr| {
                        let id = ev.newvar(s2, p, vt.clone(), true);
                        let r = ev.c.mk(Term::RefMut(id, vec![]));
                        let res = ev.apply(clo, vec![v(r, vt.clone())], s2, fr, line);
                        let fin = s2.vars[&id];
                        if fin != p {
                            let n = ev.c.ctor1("Some", fin);
                            ev.write_store(s2, &x2, &k2, n, fr, line);
                        }
                        res
                    },
                    &mut |_, _, _| v(unit, Ty::Tuple(vec![])),
                );
                v(out.t, Ty::Unknown)
            }
            "append" | "try_append" => {
                let cell = self.read_store(st, &x, &keys);
                let item = match rest.first() {
                    Some(r) => self.val(st, r.t),
                    None => unit,
                };
                let cur = self.vq_append_base(cell);
                let nv = self.c.call("push", vec![cur, item]);
                let ncell = self.c.ctor1("Some", nv);
                if f == "append" {
                    self.write_store(st, &x, &keys, ncell, fr, line);
                    return v(unit, Ty::Tuple(vec![]));
                }
                let call = self.c.call("try_push", vec![cur, item]);
                let ok = self.c.is(call, "Ok");
                let w = self.c.ite(ok, ncell, cell);
                self.write_store(st, &x, &keys, w, fr, line);
                let g = self.c.ctor1("Ok", unit);
                let b = self.c.ctor1("Err", unit);
                v(self.c.ite(ok, g, b), named("Result", vec![]))
            }
            "iter" | "iter_prefix" | "iter_prefix_values" | "iter_keys" | "iter_key_prefix" | "iter_values" | "drain" | "drain_prefix" | "iter_from" => {
                let a = self.arr(st, &x);
                let mut ts = vec![a];
                ts.extend(keys.iter().copied());
                ts.extend(rest.iter().map(|r| r.t));
                let base_f = f.replace("drain_prefix", "iter_prefix").replace("drain", "iter");
                // values / keys are projections of the (key, value) iteration
                let (core, proj) = match base_f.as_str() {
                    "iter_prefix_values" => ("iter_prefix", Some("1")),
                    "iter_key_prefix" => ("iter_prefix", Some("0")),
                    "iter_values" => ("iter", Some("1")),
                    "iter_keys" => ("iter", Some("0")),
                    o => (o, None),
                };
                let core = core.to_string();
                let src = self.c.call(&format!("{}:{}", core, x), ts);
                if f.starts_with("drain") {
                    self.clear_store(st, &x, &keys, fr, line);
                }
                let out = match proj {
                    Some(p) => {
                        let e = self.c.mk(Term::Elem(src, 0));
                        let fv = self.c.field(e, p);
                        self.c.mk(Term::Compr(src, 0, TRUE, fv))
                    }
                    None => src,
                };
                let ety = match proj {
                    Some("1") => vt,
                    Some(_) => Ty::Unknown,
                    None => Ty::Tuple(vec![Ty::Unknown, vt]),
                };
                v(out, named("Iter", vec![ety]))
            }
            "clear_prefix" | "remove_prefix" | "remove_all" | "clear" => {
                self.clear_store(st, &x, &keys, fr, line);
                let r = self.c.call("clear_result", vec![]);
                vu(r)
            }
            "count" => {
                let a = self.arr(st, &x);
                v(self.c.call("storage_count", vec![a]), tname("u32"))
            }
            "decode_len" => {
                let cell = self.read_store(st, &x, &keys);
                let p = self.c.payload(cell, "Some", "0");
                let l = self.len_of(p);
                let i = self.c.is(cell, "Some");
                let g = self.c.ctor1("Some", l);
                let n = self.c.ctor0("None");
                v(self.c.ite(i, g, n), named("Option", vec![tname("usize")]))
            }
            "hashed_key_for" | "storage_prefix" | "pallet_prefix" | "module_prefix" | "final_prefix" | "prefix_hash" => {
                let k = self.c.konst(&x);
                let mut ts = vec![k];
                ts.extend(keys);
                vu(self.c.call(f, ts))
            }
            _ => {
                let k = self.c.konst(&x);
                let mut ts: Vec<V> = vec![vu(k)];
                ts.extend(keys.into_iter().map(vu));
                ts.extend(rest);
                self.unsup(&format!("storage fn {}", f));
                self.opaque_call(&format!("{}::{}", x, f), ts, Ty::Unknown, st, fr, line)
            }
        }
    }
    fn vq_append_base(&mut self, cell: Tid) -> Tid {
        match self.c.t(cell).clone() {
            Term::Ctor(n, _) if &*n == "None" => self.empty(),
            Term::Ite(c, a, b) => {
                let x = self.vq_append_base(a);
                let y = self.vq_append_base(b);
                self.c.ite(c, x, y)
            }
            _ => self.c.payload(cell, "Some", "0"),
        }
    }
    fn clear_store(&mut self, st: &mut State, x: &str, keys: &[Tid], fr: &Fr, line: usize) {
        self.emit("clear", x.to_string(), keys.to_vec(), None, st.pc, fr, line);
        let a = self.arr(st, x);
        let mut v2 = vec![a];
        v2.extend_from_slice(keys);
        let n = self.c.call("#clear", v2);
        st.arr.insert(x.into(), n);
    }

    // ---------------- methods ----------------
    /// evaluate `yes` under condition c and join with value `no`
    #[allow(clippy::type_complexity)]
    fn gated(&mut self, c: Bid, st: &mut State, fr: &mut Fr, yes: &mut dyn FnMut(&mut Ev<'a>, &mut State, &mut Fr) -> V, no: &mut dyn FnMut(&mut Ev<'a>, &mut State, &mut Fr) -> V) -> V {
        let mut s1 = st.clone();
        let mut s2 = st.clone();
        self.assume(&mut s1, c);
        let nc = self.c.not(c);
        self.assume(&mut s2, nc);
        let mut ty = Ty::Unknown;
        let r1 = if s1.pc != FALSE {
            let r = yes(self, &mut s1, fr);
            ty = r.ty.clone();
            r.t
        } else {
            self.never()
        };
        let r2 = if s2.pc != FALSE {
            let r = no(self, &mut s2, fr);
            if ty == Ty::Unknown {
                ty = r.ty.clone();
            }
            r.t
        } else {
            self.never()
        };
        let (s, t) = self.merge_vals(vec![(s1, r1), (s2, r2)]);
        *st = s;
        v(t, ty)
    }
    fn mutate_place(&mut self, m: &'static syn::ExprMethodCall, r: &V, st: &mut State, fr: &mut Fr) -> Option<(u32, Vec<Proj>)> {
        if let Term::RefMut(vv, p) = self.c.t(r.t).clone() {
            return Some((vv, p));
        }
        self.place(&m.receiver, st, fr).map(|x| (x.0, x.1))
    }
    fn method(&mut self, m: &'static syn::ExprMethodCall, st: &mut State, fr: &mut Fr) -> V {
        let r = self.ex(&m.receiver, st, fr);
        if st.pc == FALSE {
            return vu(self.never());
        }
        let args: Vec<V> = m.args.iter().map(|a| self.ex(a, st, fr)).collect();
        if st.pc == FALSE {
            return vu(self.never());
        }
        self.method_on(m, r, args, st, fr)
    }
    fn method_on(&mut self, m: &'static syn::ExprMethodCall, r: V, args: Vec<V>, st: &mut State, fr: &mut Fr) -> V {
        let name = m.method.to_string();
        let line = {
            m.method.span().start().line
        };
        if name == "collect" || name == "sum" || name == "parse" {
            let hint = match &m.turbofish {
                Some(t) => match t.args.first() {
                    Some(syn::GenericArgument::Type(t)) => self.norm_ty(ty_of_syn(t, fr.cx.self_ty.as_deref())),
                    _ => Ty::Unknown,
                },
                None => self.try_hint.get(&(m as *const _ as usize)).cloned().unwrap_or(Ty::Unknown),
            };
            if name == "collect" {
                return self.collect(r, &hint, st);
            }
            if name == "parse" {
                let t = self.val(st, r.t);
                let c = self.c.call(&format!("parse_{}", hint.name()), vec![t]);
                return v(c, named("Result", vec![hint]));
            }
        }
        // methods the repository defines on the receiver's type
        let nargs = args.len() + 1;
        if !r.ty.name().is_empty() && !matches!(r.ty.name(), "Option" | "Result" | "Vec" | "Iter" | "MapIter" | "Set" | "String" | "str" | "char") {
            if let Some(fi) = self.resolve_assoc(r.ty.name(), &name, &fr.cx, &[], nargs, None) {
                if matches!(self.ix.fns[fi].sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    return self.invoke_method(fi, m, r, args, st, fr, line);
                }
            }
        }
        if let Some(x) = self.builtin(&name, m, &r, &args, st, fr, line) {
            return x;
        }
        // unknown receiver type: a method of that name defined once in this repository
        let ix = self.ix;
        let generic = matches!(name.as_str(), "set" | "get" | "insert" | "contains" | "push" | "remove" | "len" | "is_empty" | "encode" | "decode" | "lock" | "clear" | "new" | "clone" | "into");
        if !generic && (r.ty == Ty::Unknown || !ix.structs.iter().any(|s| s.name == r.ty.name())) {
            if let Some(c) = ix.by_name.get(&name) {
                let c: Vec<usize> = c
                    .iter()
                    .copied()
                    .filter(|i| {
                        let f = &ix.fns[*i];
                        f.self_ty.is_some() && matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) && f.sig.inputs.len() == nargs && f.trait_ != f.self_ty
                    })
                    .collect();
                let same: Vec<usize> = c.iter().copied().filter(|i| ix.fns[*i].krate == fr.cx.krate).collect();
                let pick = if same.len() == 1 {
                    Some(same[0])
                } else if c.len() == 1 && ix.fns[c[0]].krate.starts_with("common") {
                    Some(c[0])
                } else {
                    None
                };
                if let Some(fi) = pick {
                    return self.invoke_method(fi, m, r, args, st, fr, line);
                }
            }
        }
        // opaque method; a mutable receiver may be changed by it
        let rv = self.clean(st, r.t);
        let mut ts = vec![v(rv, r.ty.clone())];
        ts.extend(args);
        let mut ty = self.opaque_ret(&name);
        // a runtime API called by the node answers `Result<_, ApiError>`
        if matches!(self.c.t(rv), Term::Call(n, _) if &**n == "runtime_api") {
            ty = named("Result", vec![ty]);
        }
        // a stored off-chain value: `cell.get::<V>()`
        if let (true, Some(g)) = (name == "get" && nargs == 1, &m.turbofish) {
            if let Some(syn::GenericArgument::Type(t)) = g.args.first() {
                ty = named("Result", vec![named("Option", vec![self.norm_ty(ty_of_syn(t, fr.cx.self_ty.as_deref()))])]);
            }
        }
        let out = self.opaque_call(&name, ts.clone(), ty, st, fr, line);
        let is_mut = match self.c.t(r.t) {
            Term::RefMut(..) => true,
            _ => match &*m.receiver {
                Expr::Path(p) if p.path.segments.len() == 1 => self.lookup(fr, &p.path.segments[0].ident.to_string()).map_or(false, |i| self.vmut[i as usize]),
                _ => false,
            },
        };
        if is_mut {
            if let Some((vv, p)) = self.mutate_place(m, &r, st, fr) {
                let vals: Vec<Tid> = ts.iter().map(|a| self.clean(st, a.t)).collect();
                let mut n = self.c.call(&format!("after:{}", name), vals.clone());
                // a streaming hasher sees one run of bytes
                if name == "write" && vals.len() == 2 {
                    if let Term::Call(f, xs) = self.c.t(vals[0]).clone() {
                        if &*f == "after:write" && self.streams(xs[0]) {
                            let all = self.c.cat(&[xs[1], vals[1]]);
                            n = self.c.call("after:write", vec![xs[0], all]);
                        }
                    }
                }
                self.write_place(st, vv, &p, n);
            }
        }
        // the schema a writer was made for
        if name == "schema" {
            if let Term::Call(f, xs) = self.c.t(rv).clone() {
                if matches!(&*f, "Writer::with_codec" | "Writer::new") {
                    return v(xs[0], tname("Schema"));
                }
            }
        }
        out
    }
    fn invoke_method(&mut self, fi: usize, m: &'static syn::ExprMethodCall, r: V, args: Vec<V>, st: &mut State, fr: &mut Fr, line: usize) -> V {
        let by_mut = match self.ix.fns[fi].sig.inputs.first() {
            Some(syn::FnArg::Receiver(rc)) => rc.reference.is_some() && rc.mutability.is_some(),
            _ => false,
        };
        let recv = if by_mut {
            match self.mutate_place(m, &r, st, fr) {
                Some((vv, p)) => v(self.c.mk(Term::RefMut(vv, p)), r.ty.clone()),
                None => {
                    let id = self.newvar(st, r.t, r.ty.clone(), true);
                    v(self.c.mk(Term::RefMut(id, vec![])), r.ty.clone())
                }
            }
        } else {
            v(self.val(st, r.t), r.ty.clone())
        };
        let mut a = vec![recv];
        a.extend(args);
        self.invoke(fi, a, st, fr, line)
    }
    fn iterish(&self, ty: &Ty) -> bool {
        matches!(ty.name(), "Vec" | "Set" | "Iter" | "MapIter" | "Range" | "RangeInclusive" | "BTreeMap" | "HashMap" | "BoundedBTreeMap")
    }
    #[allow(clippy::too_many_arguments)]
    fn builtin(&mut self, name: &str, m: &'static syn::ExprMethodCall, r: &V, args: &[V], st: &mut State, fr: &mut Fr, line: usize) -> Option<V> {
        let t = self.val(st, r.t);
        let a: Vec<Tid> = args.iter().map(|x| self.val(st, x.t)).collect();
        let unit = self.c.unit();
        let unit_v = v(unit, Ty::Tuple(vec![]));
        let boolv = |ev: &mut Self, b: Bid| Some(v(ev.c.boolt(b), tname("bool")));
        let bool_ty = tname("bool");
        let _ = &bool_ty;
        let gv = self.good_variant(t, &r.ty);
        let raw_keep = if self.has_ref(r.t) && !matches!(self.c.t(r.t), Term::RefMut(..)) { r.t } else { t };
        let out = match (name, a.len()) {
            // ---- identity-like ----
            ("clone" | "into" | "as_ref" | "to_vec" | "to_owned" | "as_slice" | "as_bytes" | "as_str" | "into_inner" | "borrow" | "cloned" | "copied" | "by_ref" | "unique_saturated_into" | "saturated_into" | "as_deref" | "deref" | "into_bytes" | "boxed" | "peekable" | "as_bytes_ref" | "into_boxed_slice" | "fuse" | "into_string" | "as_mut_slice" | "defensive" | "to_u256" | "as_ptr", 0) => {
                let ty = match name {
                    "into_bytes" | "as_bytes" => named("Vec", vec![tname("u8")]),
                    "into" | "unique_saturated_into" | "saturated_into" => match r.ty.name() {
                        n if width(n) > 0 && n != "DelegatorId" && n != "ProviderId" => r.ty.clone(),
                        _ => Ty::Unknown,
                    },
                    "into_inner" if r.ty.name().is_empty() => Ty::Unknown,
                    "as_str" | "into_string" => tname("str"),
                    _ => r.ty.clone(),
                };
                v(t, ty)
            }
            ("write_str" | "pad" | "push_str" | "fmt", 1) if matches!(r.ty.name(), "Formatter") || (name == "fmt" && args[0].ty.name() == "Formatter" && (matches!(r.ty.name(), "str" | "String") || matches!(self.c.t(t), Term::Str(_)))) => {
                let x = if name == "fmt" { t } else { a[0] };
                self.emit("call", "write_str".into(), vec![x], None, st.pc, fr, line);
                v(self.c.call("write_str", vec![x]), named("Result", vec![Ty::Tuple(vec![])]))
            }
            // the separators of a string, one fewer than the parts
            ("matches", 1) if matches!(r.ty.name(), "str" | "String") && matches!(self.c.t(a[0]), Term::Char(_)) => {
                let parts = self.c.call("split", vec![t, a[0]]);
                let one = self.c.int(1);
                v(self.c.call("skip", vec![parts, one]), named("Iter", vec![tname("str")]))
            }
            ("to_string", 0) => {
                if matches!(r.ty.name(), "str" | "String") || matches!(self.c.t(t), Term::Str(_)) {
                    v(t, tname("String"))
                } else {
                    v(self.c.call("to_string", vec![t]), tname("String"))
                }
            }
            ("as_mut", 0) => match self.mutate_place(m, r, st, fr) {
                Some((vv, p)) if gv == Some("Some") || r.ty.name() == "Option" => {
                    let mut q = p.clone();
                    q.push(Proj::Payload("Some".into(), "0".into()));
                    let rf = self.c.mk(Term::RefMut(vv, q));
                    let s = self.c.ctor1("Some", rf);
                    let n = self.c.ctor0("None");
                    let i = self.c.is(t, "Some");
                    v(self.c.mk(Term::Ite(i, s, n)), r.ty.clone())
                }
                Some((vv, p)) => v(self.c.mk(Term::RefMut(vv, p)), r.ty.clone()),
                None => v(t, r.ty.clone()),
            },
            ("iter" | "into_iter" | "par_iter" | "into_par_iter" | "values" | "drain", _) if name != "drain" || a.len() == 1 => {
                if name == "values" {
                    let e = self.c.mk(Term::Elem(t, 0));
                    let e = self.map_elem(&r.ty, t, e);
                    let f1 = self.c.field(e, "1");
                    let co = self.c.mk(Term::Compr(t, 0, TRUE, f1));
                    return Some(v(co, named("Iter", vec![r.ty.arg(1)])));
                }
                if gv.is_some() && r.ty.name() == "Option" {
                    // Option as iterator of 0/1 elements
                    let e = self.c.call("opt_iter", vec![t]);
                    return Some(v(e, named("Iter", vec![r.ty.arg(0)])));
                }
                if name == "drain" {
                    if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                        let e = self.empty();
                        self.write_place(st, vv, &p, e);
                    }
                }
                if let Ty::Named(n, a) = &r.ty {
                    if n.contains("Map") && a.len() >= 2 {
                        return Some(v(t, named("MapIter", a.clone())));
                    }
                }
                let et = self.elem_ty(&r.ty);
                v(t, named("Iter", vec![et]))
            }
            ("keys", 0) => {
                let (b, l, c, e) = self.gen_of(t);
                let f1 = self.c.field(e, "0");
                v(self.c.mk(Term::Compr(b, l, c, f1)), named("Iter", vec![r.ty.arg(0)]))
            }
            ("iter_mut" | "values_mut", 0) => match self.mutate_place(m, r, st, fr) {
                Some((vv, p)) => {
                    let et = self.elem_ty(&r.ty);
                    v(self.c.mk(Term::RefMut(vv, p)), named("Iter", vec![et]))
                }
                None => v(t, r.ty.clone()),
            },
            ("chars", 0) => v(self.c.call("chars", vec![t]), named("Iter", vec![tname("char")])),
            ("bytes", 0) => v(t, named("Iter", vec![tname("u8")])),
            ("len" | "count", 0) => v(self.len_of(t), tname("usize")),
            ("is_empty", 0) => {
                let l = self.len_of(t);
                let z = self.c.int(0);
                let e = self.c.eq(l, z);
                return boolv(self, e);
            }
            ("is_zero", 0) => {
                let z = self.c.int(0);
                let e = self.c.eq(t, z);
                return boolv(self, e);
            }
            // ---- comparison ----
            ("eq" | "ne" | "lt" | "le" | "gt" | "ge", 1) => {
                let b = match name {
                    "eq" => self.c.eq(t, a[0]),
                    "ne" => {
                        let e = self.c.eq(t, a[0]);
                        self.c.not(e)
                    }
                    "lt" => self.c.lt(t, a[0]),
                    "le" => self.c.le(t, a[0]),
                    "gt" => self.c.lt(a[0], t),
                    _ => self.c.le(a[0], t),
                };
                return boolv(self, b);
            }
            ("min" | "max", 1) => {
                let (p, q) = (t.min(a[0]), t.max(a[0]));
                let l = self.c.lt(p, q);
                let x = if name == "min" { self.c.ite(l, p, q) } else { self.c.ite(l, q, p) };
                v(x, r.ty.clone())
            }
            // ---- arithmetic ----
            ("checked_add" | "checked_mul", 1) => {
                let op = &name[8..];
                let o = self.c.ovf(op, t, a[0]);
                let s = self.c.arith(op, t, a[0]);
                let g = self.c.ctor1("Some", s);
                let n = self.c.ctor0("None");
                v(self.c.ite(o, n, g), named("Option", vec![r.ty.clone()]))
            }
            ("checked_sub", 1) => {
                let o = self.c.lt(t, a[0]);
                let s = self.c.arith("sub", t, a[0]);
                let g = self.c.ctor1("Some", s);
                let n = self.c.ctor0("None");
                v(self.c.ite(o, n, g), named("Option", vec![r.ty.clone()]))
            }
            ("checked_div" | "checked_rem", 1) => {
                let z = self.c.int(0);
                let o = self.c.eq(a[0], z);
                let s = self.c.arith(&name[8..], t, a[0]);
                let g = self.c.ctor1("Some", s);
                let n = self.c.ctor0("None");
                v(self.c.ite(o, n, g), named("Option", vec![r.ty.clone()]))
            }
            ("saturating_sub", 1) => {
                let o = self.c.lt(t, a[0]);
                let s = self.c.arith("sub", t, a[0]);
                let z = self.c.int(0);
                v(self.c.ite(o, z, s), r.ty.clone())
            }
            ("saturating_add" | "saturating_mul", 1) => {
                if let (Term::Int(_), Term::Int(_)) = (self.c.t(t), self.c.t(a[0])) {
                    return Some(v(self.c.arith(&name[11..], t, a[0]), r.ty.clone()));
                }
                v(self.c.sat_op(&name[11..], t, a[0]), r.ty.clone())
            }
            ("pow" | "saturating_pow", 1) if matches!((self.c.t(t), self.c.t(args[0].t)), (Term::Int(_), Term::Int(0..=30))) => {
                let (b, e) = match (self.c.t(t), self.c.t(args[0].t)) {
                    (Term::Int(b), Term::Int(e)) => (*b, *e as u32),
                    _ => unreachable!(),
                };
                match b.checked_pow(e) {
                    Some(x) => v(self.c.int(x), r.ty.clone()),
                    None => vu(self.c.call(name, vec![t, args[0].t])),
                }
            }
            ("saturating_pow" | "saturating_div" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "pow" | "abs_diff" | "rem_euclid" | "checked_pow" | "overflowing_sub", 1) => {
                let n = match name {
                    "saturating_div" => {
                        return Some(v(self.c.arith("div", t, a[0]), r.ty.clone()));
                    }
                    n => n,
                };
                v(self.c.call(n, vec![t, a[0]]), r.ty.clone())
            }
            ("overflowing_add" | "overflowing_mul", 1) => {
                // the wrapped result and whether it wrapped
                let kind = &name["overflowing_".len()..];
                let w = self.c.call(&format!("wrapping_{}", kind), vec![t, a[0]]);
                let o = self.c.call(&format!("overflows_{}", kind), vec![t, a[0]]);
                v(self.c.tuple(vec![w, o]), Ty::Tuple(vec![r.ty.clone(), tname("bool")]))
            }
            ("add" | "sub" | "mul" | "div" | "rem", 1) => v(self.bin_arith(name, t, a[0], &r.ty.clone(), st, fr, line), r.ty.clone()),
            ("saturating_inc" | "saturating_dec", 0) | ("saturating_accrue" | "saturating_reduce", 1) => {
                let one = self.c.int(1);
                let y = a.first().copied().unwrap_or(one);
                let n = if name == "saturating_inc" || name == "saturating_accrue" {
                    self.c.sat_add(t, y)
                } else {
                    let o = self.c.lt(t, y);
                    let s = self.c.arith("sub", t, y);
                    let z = self.c.int(0);
                    self.c.ite(o, z, s)
                };
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("try_into", 0) => {
                // a byte vector converts into a (bounded) collection
                let to = match self.try_hint.get(&(m as *const _ as usize)) {
                    Some(ty) if width(ty.name()) > 0 => ty.clone(),
                    _ if matches!(r.ty.name(), "Vec" | "BoundedVec") => r.ty.clone(),
                    _ => Ty::Unknown,
                };
                self.try_conv("try_into", t, to)
            }
            // ---- Option / Result ----
            ("is_some", 0) => {
                let b = self.c.is(t, "Some");
                return boolv(self, b);
            }
            ("is_none", 0) => {
                let b = self.c.is(t, "None");
                return boolv(self, b);
            }
            ("build", 0) if self.tx_builder(t) => {
                let x = self.c.ctor1("Ok", t);
                v(x, named("Result", vec![named("ValidTransaction", vec![]), named("TransactionValidityError", vec![])]))
            }
            ("is_ok", 0) => {
                let b = self.c.is(t, "Ok");
                return boolv(self, b);
            }
            ("is_err", 0) => {
                let b = self.c.is(t, "Err");
                return boolv(self, b);
            }
            ("unwrap", 0) | ("expect", 1) => {
                let g = gv.unwrap_or("Ok");
                let ok = self.c.is(t, g);
                let nok = self.c.not(ok);
                let pc = self.c.and(st.pc, nok);
                self.emit("panic", name.to_string(), vec![t], None, pc, fr, line);
                self.assume(st, ok);
                let p = self.c.payload(raw_keep, g, "0");
                v(p, r.ty.arg(0))
            }
            ("unwrap_err" | "expect_err", _) => v(self.c.payload(t, "Err", "0"), r.ty.arg(1)),
            ("unwrap_or", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let ty = if r.ty.arg(0) == Ty::Unknown { args[0].ty.clone() } else { r.ty.arg(0) };
                let d = self.type_max(a[0], &ty);
                v(self.c.ite(ok, p, d), ty)
            }
            ("unwrap_or_default", 0) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let ty = r.ty.arg(0);
                let k = fr.cx.krate.clone();
                let d = self.default_of(&ty, &k, st, fr);
                v(self.c.ite(ok, p, d), ty)
            }
            ("unwrap_or_else", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let e = self.c.payload(t, "Err", "0");
                let f = args[0].t;
                let pt = r.ty.arg(0);
                let res = g == "Ok";
                return Some(self.gated(ok, st, fr, &mut |_, _, _| v(p, pt.clone()), &mut |ev, s, fr| {
                    let mut d = ev.apply(f, if res { vec![vu(e)] } else { vec![] }, s, fr, line);
                    d.t = ev.type_max(d.t, &pt);
                    d
                }));
            }
            ("ok_or" | "ok_or_else", 1) => {
                let ok = self.c.is(t, "Some");
                let p = self.c.payload(raw_keep, "Some", "0");
                let good = self.c.ctor1("Ok", p);
                let f = args[0].t;
                let rty = named("Result", vec![r.ty.arg(0)]);
                if name == "ok_or" {
                    let bad = self.c.ctor1("Err", a[0]);
                    let t = if self.has_ref(good) { self.c.mk(Term::Ite(ok, good, bad)) } else { self.c.ite(ok, good, bad) };
                    v(t, rty)
                } else {
                    let x = self.gated(ok, st, fr, &mut |_, _, _| v(good, rty.clone()), &mut |ev, s, fr| {
                        let e = ev.apply(f, vec![], s, fr, line);
                        let et = ev.val(s, e.t);
                        v(ev.c.ctor1("Err", et), Ty::Unknown)
                    });
                    return Some(v(x.t, rty));
                }
            }
            ("ok", 0) => {
                let ok = self.c.is(t, "Ok");
                let p = self.c.payload(t, "Ok", "0");
                let good = self.c.ctor1("Some", p);
                let n = self.c.ctor0("None");
                v(self.c.ite(ok, good, n), named("Option", vec![r.ty.arg(0)]))
            }
            ("err", 0) => {
                let ok = self.c.is(t, "Ok");
                let p = self.c.payload(t, "Err", "0");
                let good = self.c.ctor1("Some", p);
                let n = self.c.ctor0("None");
                v(self.c.ite(ok, n, good), named("Option", vec![r.ty.arg(1)]))
            }
            ("map_err", 1) => {
                let ok = self.c.is(t, "Ok");
                let p = self.c.payload(t, "Ok", "0");
                let e = self.c.payload(t, "Err", "0");
                let good = self.c.ctor1("Ok", p);
                let f = args[0].t;
                let rty = r.ty.clone();
                let x = self.gated(ok, st, fr, &mut |_, _, _| v(good, Ty::Unknown), &mut |ev, s, fr| {
                    let y = ev.apply(f, vec![vu(e)], s, fr, line);
                    let yt = ev.val(s, y.t);
                    v(ev.c.ctor1("Err", yt), Ty::Unknown)
                });
                v(x.t, if rty.name() == "Result" { rty } else { named("Result", vec![]) })
            }
            ("and_then", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(raw_keep, g, "0");
                let f = args[0].t;
                let pt = r.ty.arg(0);
                let bad = if g == "Some" {
                    self.c.ctor0("None")
                } else {
                    let e = self.c.payload(t, "Err", "0");
                    self.c.ctor1("Err", e)
                };
                let x = self.gated(
                    ok,
                    st,
                    fr,
                    &mut |ev, s, fr| {
                        let y = ev.apply(f, vec![v(p, pt.clone())], s, fr, line);
                        let yt = ev.val(s, y.t);
                        v(yt, y.ty)
                    },
                    &mut |_, _, _| v(bad, Ty::Unknown),
                );
                return Some(v(x.t, if x.ty == Ty::Unknown { named(if g == "Some" { "Option" } else { "Result" }, vec![]) } else { x.ty }));
            }
            ("or_else", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let f = args[0].t;
                let e = self.c.payload(t, "Err", "0");
                let rty = r.ty.clone();
                return Some(self.gated(ok, st, fr, &mut |_, _, _| v(t, rty.clone()), &mut |ev, s, fr| ev.apply(f, if g == "Ok" { vec![vu(e)] } else { vec![] }, s, fr, line)));
            }
            ("or", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                v(self.c.ite(ok, t, a[0]), r.ty.clone())
            }
            ("and", 1) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                v(self.c.ite(ok, a[0], t), args[0].ty.clone())
            }
            ("is_some_and" | "is_ok_and" | "is_none_or", 1) => {
                let g = if name == "is_ok_and" { "Ok" } else { "Some" };
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let f = args[0].t;
                let pt = r.ty.arg(0);
                let no = self.c.boolt(if name == "is_none_or" { TRUE } else { FALSE });
                return Some(self.gated(ok, st, fr, &mut |ev, s, fr| ev.apply(f, vec![v(p, pt.clone())], s, fr, line), &mut |_, _, _| v(no, tname("bool"))));
            }
            ("map_or", 2) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let f = args[1].t;
                let d = a[0];
                let pt = r.ty.arg(0);
                let dt = args[0].ty.clone();
                return Some(self.gated(ok, st, fr, &mut |ev, s, fr| ev.apply(f, vec![v(p, pt.clone())], s, fr, line), &mut |_, _, _| v(d, dt.clone())));
            }
            ("map_or_else", 2) => {
                let g = gv.unwrap_or("Some");
                let ok = self.c.is(t, g);
                let p = self.c.payload(t, g, "0");
                let e = self.c.payload(t, "Err", "0");
                let (d, f) = (args[0].t, args[1].t);
                let pt = r.ty.arg(0);
                return Some(self.gated(ok, st, fr, &mut |ev, s, fr| ev.apply(f, vec![v(p, pt.clone())], s, fr, line), &mut |ev, s, fr| ev.apply(d, if g == "Ok" { vec![vu(e)] } else { vec![] }, s, fr, line)));
            }
            ("then" | "then_some", 1) if r.ty.name() == "bool" || matches!(self.c.t(t), Term::Bool(_)) => {
                let c = self.c.cond(t);
                let f = args[0].clone();
                if name == "then_some" {
                    let (s, n) = (self.c.ctor1("Some", a[0]), self.c.ctor0("None"));
                    return Some(v(self.c.ite(c, s, n), named("Option", vec![f.ty])));
                }
                return Some(self.gated(
                    c,
                    st,
                    fr,
                    &mut |ev, s, fr| {
                        let x = ev.apply(f.t, vec![], s, fr, line);
                        v(ev.c.ctor1("Some", x.t), named("Option", vec![x.ty]))
                    },
                    &mut |ev, _, _| v(ev.c.ctor0("None"), named("Option", vec![])),
                ));
            }
            ("transpose" | "flatten", 0) if gv.is_some() => {
                if name == "flatten" {
                    let ok = self.c.is(t, "Some");
                    let p = self.c.payload(t, "Some", "0");
                    let n = self.c.ctor0("None");
                    v(self.c.ite(ok, p, n), r.ty.arg(0))
                } else if gv == Some("Some") {
                    // absent is fine; present takes the outcome of what is inside
                    let (some, none) = (self.c.is(t, "Some"), self.c.ctor0("None"));
                    let p = self.c.payload(t, "Some", "0");
                    let pok = self.c.is(p, "Ok");
                    let (px, pe) = (self.c.payload(p, "Ok", "0"), self.c.payload(p, "Err", "0"));
                    let sx = self.c.ctor1("Some", px);
                    let val = self.c.ite(some, sx, none);
                    let np = self.c.not(some);
                    let okc = self.c.or(np, pok);
                    let (good, bad) = (self.c.ctor1("Ok", val), self.c.ctor1("Err", pe));
                    let inner = r.ty.arg(0);
                    v(self.c.ite(okc, good, bad), named("Result", vec![named("Option", vec![inner.arg(0)]), inner.arg(1)]))
                } else {
                    let (ok, none) = (self.c.is(t, "Ok"), self.c.ctor0("None"));
                    let (p, e) = (self.c.payload(t, "Ok", "0"), self.c.payload(t, "Err", "0"));
                    let ps = self.c.is(p, "Some");
                    let px = self.c.payload(p, "Some", "0");
                    let (g, b) = (self.c.ctor1("Ok", px), self.c.ctor1("Err", e));
                    let res = self.c.ite(ok, g, b);
                    let some = self.c.ctor1("Some", res);
                    let bad = self.c.not(ok);
                    let present = self.c.or(bad, ps);
                    v(self.c.ite(present, some, none), named("Option", vec![named("Result", vec![r.ty.arg(0).arg(0), r.ty.arg(1)])]))
                }
            }
            ("map", 1) if gv.is_some() || (!self.iterish(&r.ty) && !self.iter_syntax(&m.receiver)) => {
                let g = gv.unwrap_or("Ok");
                let ok = self.c.is(t, g);
                let p = self.c.payload(raw_keep, g, "0");
                let f = args[0].t;
                let pt = r.ty.arg(0);
                let bad = if g == "Some" {
                    self.c.ctor0("None")
                } else {
                    let e = self.c.payload(t, "Err", "0");
                    self.c.ctor1("Err", e)
                };
                let mut it = Ty::Unknown;
                let x = self.gated(
                    ok,
                    st,
                    fr,
                    &mut |ev, s, fr| {
                        let y = ev.apply(f, vec![v(p, pt.clone())], s, fr, line);
                        let yt = ev.val(s, y.t);
                        it = y.ty;
                        v(ev.c.ctor1(g, yt), Ty::Unknown)
                    },
                    &mut |_, _, _| v(bad, Ty::Unknown),
                );
                v(x.t, named(if g == "Some" { "Option" } else { "Result" }, vec![it]))
            }
            ("filter", 1) if gv == Some("Some") => {
                let ok = self.c.is(t, "Some");
                let p = self.c.payload(t, "Some", "0");
                let f = args[0].t;
                let pt = r.ty.arg(0);
                let n = self.c.ctor0("None");
                let x = self.gated(
                    ok,
                    st,
                    fr,
                    &mut |ev, s, fr| {
                        let y = ev.apply(f, vec![v(p, pt.clone())], s, fr, line);
                        let yt = ev.val(s, y.t);
                        let c = ev.c.cond(yt);
                        v(ev.c.ite(c, t, n), Ty::Unknown)
                    },
                    &mut |_, _, _| v(n, Ty::Unknown),
                );
                v(x.t, r.ty.clone())
            }
            ("take", 0) | ("replace", 1) | ("insert", 1) if gv == Some("Some") => {
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    let n = if name == "take" { self.c.ctor0("None") } else { self.c.ctor1("Some", a[0]) };
                    self.write_place(st, vv, &p, n);
                }
                v(t, r.ty.clone())
            }
            ("zip", 1) if gv == Some("Some") => {
                let (i, j) = (self.c.is(t, "Some"), self.c.is(a[0], "Some"));
                let b = self.c.and(i, j);
                let (p, q) = (self.c.payload(t, "Some", "0"), self.c.payload(a[0], "Some", "0"));
                let tu = self.c.tuple(vec![p, q]);
                let g = self.c.ctor1("Some", tu);
                let n = self.c.ctor0("None");
                v(self.c.ite(b, g, n), named("Option", vec![]))
            }
            // ---- iterators / collections ----
            ("map" | "inspect", 1) => {
                if let Some(xs) = self.concrete(t) {
                    let et = self.elem_ty(&r.ty);
                    let mut fs = vec![];
                    let mut ty = Ty::Unknown;
                    for (i, x) in xs.into_iter().enumerate() {
                        let y = self.apply(args[0].t, vec![v(x, et.clone())], st, fr, line);
                        let yt = self.val(st, y.t);
                        ty = y.ty;
                        fs.push((Str::from(i.to_string()), yt));
                    }
                    return Some(v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Iter", vec![ty])));
                }
                let (b, l, c, _e, y) = self.over_elem(r, args[0].t, st, fr, line);
                v(self.compr(b, l, c, y.t), named("Iter", vec![y.ty]))
            }
            ("partition", 1) => {
                let ty = Ty::Tuple(vec![named("Vec", vec![self.elem_ty(&r.ty)]), named("Vec", vec![self.elem_ty(&r.ty)])]);
                if let Some(xs) = self.concrete(t).filter(|xs| xs.len() <= 3) {
                    let et = self.elem_ty(&r.ty);
                    let e = self.c.mk(Term::Ctor("[]".into(), vec![]));
                    let (mut yes, mut no) = (e, e);
                    for x in &xs {
                        let y = self.apply(args[0].t, vec![v(*x, et.clone())], st, fr, line);
                        let yt = self.val(st, y.t);
                        let k = self.c.cond(yt);
                        let (p, q) = (self.push_item(yes, *x), self.push_item(no, *x));
                        yes = self.c.ite(k, p, yes);
                        no = self.c.ite(k, no, q);
                    }
                    return Some(v(self.c.tuple(vec![yes, no]), ty));
                }
                let (b, l, c, e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let k = self.c.cond(y.t);
                let nk = self.c.not(k);
                let (c1, c2) = (self.c.and(c, k), self.c.and(c, nk));
                let (yes, no) = (self.compr(b, l, c1, e), self.compr(b, l, c2, e));
                v(self.c.tuple(vec![yes, no]), ty)
            }
            ("filter" | "take_while" | "skip_while", 1) => {
                if let (Some(xs), "filter") = (self.concrete(t), name) {
                    let et = self.elem_ty(&r.ty);
                    let mut keep = vec![];
                    let mut all_const = true;
                    for x in &xs {
                        let mut s = st.clone();
                        let y = self.apply(args[0].t, vec![v(*x, et.clone())], &mut s, fr, line);
                        let yt = self.val(&s, y.t);
                        match self.c.cond(yt) {
                            TRUE => keep.push(*x),
                            FALSE => {}
                            _ => all_const = false,
                        }
                    }
                    if !all_const && xs.len() <= 3 {
                        // each item is there or not, in order
                        let mut acc = self.c.mk(Term::Ctor("[]".into(), vec![]));
                        for x in &xs {
                            let y = self.apply(args[0].t, vec![v(*x, et.clone())], st, fr, line);
                            let yt = self.val(st, y.t);
                            let k = self.c.cond(yt);
                            let with = self.push_item(acc, *x);
                            acc = self.c.ite(k, with, acc);
                        }
                        return Some(v(acc, r.ty.clone()));
                    }
                    if all_const {
                        let fs = keep.into_iter().enumerate().map(|(i, x)| (Str::from(i.to_string()), x)).collect();
                        return Some(v(self.c.mk(Term::Ctor("[]".into(), fs)), r.ty.clone()));
                    }
                }
                let (b, l, c, e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let k = self.c.cond(y.t);
                if name == "filter" {
                    let cc = self.c.and(c, k);
                    v(self.compr(b, l, cc, e), r.ty.clone())
                } else {
                    let co = self.compr(b, l, c, e);
                    let kb = self.c.mk(Term::Compr(b, l, k, e));
                    v(self.c.call(name, vec![co, kb]), r.ty.clone())
                }
            }
            ("retain", 1) => {
                let (b, l, c, e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let k = self.c.cond(y.t);
                let cc = self.c.and(c, k);
                let n = self.compr(b, l, cc, e);
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("filter_map" | "flat_map", 1) => {
                let (b, l, c, _e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let some = self.c.is(y.t, "Some");
                let opt = y.ty.name() == "Option" || matches!(self.c.t(y.t), Term::Ctor(n, _) if matches!(&**n, "Some" | "None")) || some == TRUE;
                if name == "flat_map" && !opt {
                    let co = self.compr(b, l, c, y.t);
                    v(self.c.call("flatten", vec![co]), named("Iter", vec![self.elem_ty(&y.ty)]))
                } else {
                    let i = self.c.is(y.t, "Some");
                    let p = self.c.payload(y.t, "Some", "0");
                    let cc = self.c.and(c, i);
                    v(self.compr(b, l, cc, p), named("Iter", vec![y.ty.arg(0)]))
                }
            }
            ("flatten" | "concat", 0) => v(match self.concrete(t) { Some(xs) => self.c.cat(&xs), None => self.c.call("flatten", vec![t]) }, named("Iter", vec![self.elem_ty(&r.ty.arg(0))])),
            ("any" | "all", 1) => {
                if let Some(xs) = self.concrete(t) {
                    let et = self.elem_ty(&r.ty);
                    let mut acc = if name == "any" { FALSE } else { TRUE };
                    for x in xs {
                        let y = self.apply(args[0].t, vec![v(x, et.clone())], st, fr, line);
                        let yt = self.val(st, y.t);
                        let k = self.c.cond(yt);
                        acc = if name == "any" { self.c.or(acc, k) } else { self.c.and(acc, k) };
                    }
                    return boolv(self, acc);
                }
                let (b, l, c, _e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let k = self.c.cond(y.t);
                let bb = if name == "any" {
                    let cc = self.c.and(c, k);
                    self.c.exists(b, l, cc)
                } else {
                    let nk = self.c.not(k);
                    let cc = self.c.and(c, nk);
                    let e = self.c.exists(b, l, cc);
                    self.c.not(e)
                };
                return boolv(self, bb);
            }
            // the first match of a character pattern (its place is not interpreted)
            ("find" | "rfind", 1) if matches!(r.ty.name(), "str" | "String") => {
                let at = t;
                match self.over_pattern(t, a[0], st, fr, line) {
                    Some((b, l, c, _, k)) => {
                        let cc = self.c.and(c, k);
                        let ex = self.c.exists(b, l, cc);
                        let w = self.compr(b, l, cc, at);
                        let at = self.c.call(name, vec![w]);
                        let g = self.c.ctor1("Some", at);
                        let n = self.c.ctor0("None");
                        v(self.c.ite(ex, g, n), named("Option", vec![tname("usize")]))
                    }
                    None => {
                        let p = self.clean(st, a[0]);
                        v(self.c.call(name, vec![t, p]), named("Option", vec![tname("usize")]))
                    }
                }
            }
            ("replace", 2) if matches!(r.ty.name(), "str" | "String") => {
                let to = self.val(st, a[1]);
                let empty = matches!(self.c.t(to), Term::Str(x) if x.is_empty());
                let one = match self.c.t(to) { Term::Str(x) if x.chars().count() == 1 => x.chars().next(), _ => None };
                match (empty, one, self.over_pattern(t, a[0], st, fr, line)) {
                    (true, _, Some((b, l, c, e, k))) => {
                        let nk = self.c.not(k);
                        let cc = self.c.and(c, nk);
                        v(self.compr(b, l, cc, e), tname("String"))
                    }
                    (_, Some(ch), Some((b, l, c, e, k))) => {
                        let ch = self.c.mk(Term::Char(ch));
                        let x = self.c.ite(k, ch, e);
                        v(self.compr(b, l, c, x), tname("String"))
                    }
                    _ => {
                        let p = self.clean(st, a[0]);
                        v(self.c.call("replace", vec![t, p, to]), tname("String"))
                    }
                }
            }
            ("find" | "find_map" | "position", 1) => {
                let (b, l, c, e, y) = self.over_elem(r, args[0].t, st, fr, line);
                let (k, val) = if name == "find_map" {
                    let i = self.c.is(y.t, "Some");
                    (i, self.c.payload(y.t, "Some", "0"))
                } else {
                    (self.c.cond(y.t), e)
                };
                let cc = self.c.and(c, k);
                let ex = self.c.exists(b, l, cc);
                let co = self.compr(b, l, cc, val);
                // the first of a few written-out items
                if let Some(xs) = self.concrete(b).filter(|xs| xs.len() <= 8 && name != "position") {
                    let el = self.c.mk(Term::Elem(b, l));
                    let mut t = self.c.ctor0("None");
                    for x in xs.into_iter().rev() {
                        let k = self.c.subst_bdd(cc, el, x);
                        let y = self.c.subst(val, el, x);
                        let y = self.c.ctor1("Some", y);
                        t = self.c.ite(k, y, t);
                    }
                    let et = self.elem_ty(&r.ty);
                    return Some(v(t, named("Option", vec![et])));
                }
                let w = self.c.call(if name == "position" { "position_of" } else { "first_of" }, vec![co]);
                let g = self.c.ctor1("Some", w);
                let n = self.c.ctor0("None");
                let et = self.elem_ty(&r.ty);
                v(self.c.ite(ex, g, n), named("Option", vec![et]))
            }
            // one flag has nothing but itself in common with a set of flags
            ("contains" | "intersects", 1) if name == "contains" || args[0].ty.name() != "BitFlags" && self.ix.enums.iter().any(|e| e.name == args[0].ty.name()) => {
                match self.c.t(t).clone() {
                    Term::Ctor(n, fs) if &*n == "RangeInclusive" || &*n == "Range" => {
                        let g = |k: &str| fs.iter().find(|x| &*x.0 == k).map(|x| x.1).unwrap();
                        let lo = self.c.le(g("start"), a[0]);
                        let hi = if &*n == "Range" { self.c.lt(a[0], g("end")) } else { self.c.le(a[0], g("end")) };
                        let b = self.c.and(lo, hi);
                        return boolv(self, b);
                    }
                    _ if r.ty.name() == "RangeInclusive" || r.ty.name() == "Range" => {
                        let s = self.c.field(t, "start");
                        let e = self.c.field(t, "end");
                        let lo = self.c.le(s, a[0]);
                        let hi = if r.ty.name() == "Range" { self.c.lt(a[0], e) } else { self.c.le(a[0], e) };
                        let b = self.c.and(lo, hi);
                        return boolv(self, b);
                    }
                    _ if matches!(r.ty.name(), "str" | "String") => {
                        if let Some((b, l, c, _, k)) = self.over_pattern(t, a[0], st, fr, line) {
                            let cc = self.c.and(c, k);
                            let ex = self.c.exists(b, l, cc);
                            return boolv(self, ex);
                        }
                        let x = self.c.call("str_contains", vec![t, a[0]]);
                        let b = self.c.cond(x);
                        return boolv(self, b);
                    }
                    _ => {}
                }
                let (b, l, c, e) = self.gen_of(t);
                let q = self.c.eq(e, a[0]);
                let cc = self.c.and(c, q);
                let ex = self.c.exists(b, l, cc);
                return boolv(self, ex);
            }
            ("contains_key", 1) => {
                let g = self.map_get(t, a[0]);
                let b = self.c.is(g, "Some");
                return boolv(self, b);
            }
            ("split_at", 1) => {
                let (z, l) = (self.c.int(0), self.len_of(t));
                let bad = self.c.lt(l, a[0]);
                let pc = self.c.and(st.pc, bad);
                self.emit("panic", "slice".into(), vec![t, a[0], l], None, pc, fr, line);
                let (x, y) = (self.slice_term(t, z, a[0]), self.slice_term(t, a[0], l));
                v(self.c.tuple(vec![x, y]), Ty::Tuple(vec![r.ty.clone(), r.ty.clone()]))
            }
            // a key-value store outside the repository
            ("get", 2) => {
                let mut all = vec![v(t, r.ty.clone())];
                all.extend(args.iter().cloned());
                return Some(self.opaque_call("get", all, named("Option", vec![]), st, fr, line));
            }
            ("get", 1) => {
                if r.ty.name().contains("Map") || matches!(self.c.t(t), Term::Const(_)) {
                    v(self.map_get(t, a[0]), named("Option", vec![r.ty.arg(1)]))
                } else {
                    let l = self.len_of(t);
                    let i = self.c.lt(a[0], l);
                    let x = self.index_term(t, a[0]);
                    let g = self.c.ctor1("Some", x);
                    let n = self.c.ctor0("None");
                    if let Term::Ctor(rn, _) = self.c.t(a[0]).clone() {
                        if rn.starts_with("Range") {
                            let from = self.c.field(a[0], "start");
                            let mut to = self.c.field(a[0], "end");
                            if matches!(self.c.t(to), Term::Const(k) if &**k == "unbounded") {
                                to = l;
                            } else if &*rn == "RangeInclusive" {
                                let one = self.c.int(1);
                                to = self.c.arith("add", to, one);
                            }
                            let o1 = self.c.le(from, to);
                            let o2 = self.c.le(to, l);
                            let inb = self.c.and(o1, o2);
                            let s = self.slice_term(t, from, to);
                            let s = self.c.ctor1("Some", s);
                            return Some(v(self.c.ite(inb, s, n), named("Option", vec![r.ty.clone()])));
                        }
                    }
                    v(self.c.ite(i, g, n), named("Option", vec![self.elem_ty(&r.ty)]))
                }
            }
            ("get_mut", 1) => match self.mutate_place(m, r, st, fr) {
                Some((vv, p)) => {
                    let g = self.map_get(t, a[0]);
                    let i = self.c.is(g, "Some");
                    let mut q = p.clone();
                    q.push(Proj::Index(a[0]));
                    let rf = self.c.mk(Term::RefMut(vv, q));
                    let s = self.c.ctor1("Some", rf);
                    let n = self.c.ctor0("None");
                    let et = if r.ty.name().contains("Map") { r.ty.arg(1) } else { self.elem_ty(&r.ty) };
                    v(self.c.mk(Term::Ite(i, s, n)), named("Option", vec![et]))
                }
                None => return None,
            },
            // the place of a key in a map, filled when it is empty
            ("entry", 1) if r.ty.name().contains("Map") => match self.mutate_place(m, r, st, fr) {
                Some((vv, mut p)) => {
                    let old = self.map_get(t, a[0]);
                    p.push(Proj::Index(a[0]));
                    let place = self.c.mk(Term::RefMut(vv, p));
                    let e = self.c.mk(Term::Ctor("MapEntry".into(), vec![("old".into(), old), ("place".into(), place)]));
                    v(e, named("MapEntry", vec![r.ty.arg(1)]))
                }
                None => return None,
            },
            ("or_default" | "or_insert" | "or_insert_with", _) if r.ty.name() == "MapEntry" => {
                let (old, place) = (self.c.field(t, "old"), self.c.field(r.t, "place"));
                let Term::RefMut(vv, p) = self.c.t(place).clone() else { return None };
                let vt = r.ty.arg(0);
                let d = match name {
                    "or_default" => {
                        let k = fr.cx.krate.clone();
                        self.default_of(&vt, &k, st, fr)
                    }
                    "or_insert" => a[0],
                    _ => return None,
                };
                let has = self.c.is(old, "Some");
                let x = self.c.payload(old, "Some", "0");
                let n = self.c.ite(has, x, d);
                self.write_place(st, vv, &p, n);
                v(place, vt)
            }
            ("first" | "last" | "next" | "next_back" | "pop" | "pop_front" | "nth", _) => {
                let l = self.len_of(t);
                let z = self.c.int(0);
                // no item at that position: `skip(n)` starts at n
                let (from, at) = match self.c.t(t).clone() {
                    Term::Call(f, xs) if &*f == "skip" && xs.len() == 2 => (xs[0], xs[1]),
                    _ => (t, z),
                };
                let e = if name == "nth" || from != t {
                    let k = if name == "nth" { a[0] } else { z };
                    let k = self.c.arith("add", at, k);
                    let l = self.len_of(from);
                    let some = self.c.lt(k, l);
                    self.c.not(some)
                } else {
                    self.c.eq(l, z)
                };
                let x = match name {
                    "first" | "next" | "pop_front" => self.index_term(t, z),
                    "nth" => self.index_term(t, a[0]),
                    _ => self.c.call("last", vec![t]),
                };
                let g = self.c.ctor1("Some", x);
                let n = self.c.ctor0("None");
                if matches!(name, "next" | "pop" | "pop_front" | "next_back") {
                    if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                        // the rest
                        let nt = match self.c.t(t).clone() {
                            _ if !matches!(name, "next" | "pop_front") || matches!(self.c.t(t), Term::Havoc(_)) || self.is_symbolic_range(t) => self.c.call(&format!("after:{}", name), vec![t]),
                            Term::Ctor(n, fs) if &*n == "[]" => {
                                let fs = fs.iter().skip(1).enumerate().map(|(i, x)| (Str::from(i.to_string()), x.1)).collect();
                                self.c.mk(Term::Ctor(n, fs))
                            }
                            _ => {
                                let one = self.c.int(1);
                                let n = self.c.arith("add", at, one);
                                self.c.call("skip", vec![from, n])
                            }
                        };
                        self.write_place(st, vv, &p, nt);
                    }
                }
                v(self.c.ite(e, n, g), named("Option", vec![self.elem_ty(&r.ty)]))
            }
            ("enumerate", 0) => {
                let (b, l, c, e) = self.gen_of(t);
                let be = self.c.mk(Term::Elem(b, l));
                let i = self.rank(t, be, c);
                let tu = self.c.tuple(vec![i, e]);
                let et = self.elem_ty(&r.ty);
                if let Some(xs) = self.concrete(t) {
                    let mut fs = vec![];
                    for (i, x) in xs.into_iter().enumerate() {
                        let it = self.c.int(i as i128);
                        let tu = self.c.tuple(vec![it, x]);
                        fs.push((Str::from(i.to_string()), tu));
                    }
                    return Some(v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Iter", vec![Ty::Tuple(vec![tname("usize"), et])])));
                }
                v(self.compr(b, l, c, tu), named("Iter", vec![Ty::Tuple(vec![tname("usize"), et])]))
            }
            // counting along
            ("zip", 1) if self.from_on(a[0]).is_some() && self.concrete(t).is_none() => {
                let k = self.from_on(a[0]).unwrap();
                let (b, l, c, e) = self.gen_of(t);
                let be = self.c.mk(Term::Elem(b, l));
                let i = self.rank(t, be, c);
                let i = self.c.arith("add", k, i);
                let tu = self.c.tuple(vec![e, i]);
                let e2 = self.elem_ty(&args[0].ty);
                v(self.compr(b, l, c, tu), named("Iter", vec![Ty::Tuple(vec![self.elem_ty(&r.ty), e2])]))
            }
            ("zip", 1) if self.from_on(t).is_some() && self.concrete(a[0]).is_none() => {
                let k = self.from_on(t).unwrap();
                let (b, l, c, e) = self.gen_of(a[0]);
                let be = self.c.mk(Term::Elem(b, l));
                let i = self.rank(a[0], be, c);
                let i = self.c.arith("add", k, i);
                let tu = self.c.tuple(vec![i, e]);
                let e2 = self.elem_ty(&args[0].ty);
                v(self.compr(b, l, c, tu), named("Iter", vec![Ty::Tuple(vec![self.elem_ty(&r.ty), e2])]))
            }
            ("zip", 1) => {
                let e2 = self.elem_ty(&args[0].ty);
                v(self.c.call("zip", vec![t, a[0]]), named("Iter", vec![Ty::Tuple(vec![self.elem_ty(&r.ty), e2])]))
            }
            ("chain", 1) => {
                if let (Some(x), Some(y)) = (self.concrete(t), self.concrete(a[0])) {
                    let fs = x.into_iter().chain(y).enumerate().map(|(i, z)| (Str::from(i.to_string()), z)).collect();
                    return Some(v(self.c.mk(Term::Ctor("[]".into(), fs)), r.ty.clone()));
                }
                v(self.c.cat(&[t, a[0]]), r.ty.clone())
            }
            ("take" | "skip" | "step_by" | "chunks" | "windows", 1) => v(self.c.call(name, vec![t, a[0]]), r.ty.clone()),
            ("rev", 0) => v(self.c.call("rev", vec![t]), r.ty.clone()),
            ("sum", 0) => {
                let (b, l, c, e) = self.gen_of(t);
                v(self.sum(b, l, c, e), self.elem_ty(&r.ty))
            }
            ("fold", 2) => {
                if let Some(xs) = self.concrete(t) {
                    let et = self.elem_ty(&r.ty);
                    let mut acc = v(a[0], args[0].ty.clone());
                    for x in xs {
                        acc = self.apply(args[1].t, vec![acc, v(x, et.clone())], st, fr, line);
                    }
                    return Some(acc);
                }
                let id = self.newvar(st, a[0], args[0].ty.clone(), true);
                let f = args[1].t;
                let at = args[0].ty.clone();
                self.iterate(
                    v(t, r.ty.clone()),
                    None,
                    st,
                    fr,
                    &mut |ev, el, s, fr| {
                        let cur = s.vars[&id];
                        let y = ev.apply(f, vec![v(cur, at.clone()), el], s, fr, line);
                        let yt = ev.val(s, y.t);
                        s.vars.insert(id, yt);
                    },
                    line,
                );
                v(st.vars[&id], args[0].ty.clone())
            }
            ("try_fold", 2) => {
                let id = self.newvar(st, a[0], args[0].ty.clone(), true);
                let f = args[1].t;
                let at = args[0].ty.clone();
                let g0 = std::cell::Cell::new("Ok");
                fr.loops.push(LoopFr { label: Some("#tf".into()), breaks: vec![], conts: vec![] });
                let nret = fr.returns.len();
                self.iterate(
                    v(t, r.ty.clone()),
                    None,
                    st,
                    fr,
                    &mut |ev, el, s, fr| {
                        let cur = s.vars[&id];
                        let y = ev.apply(f, vec![v(cur, at.clone()), el], s, fr, line);
                        if s.pc == FALSE {
                            return;
                        }
                        let yt = ev.val(s, y.t);
                        let g = ev.good_variant(yt, &y.ty).unwrap_or("Ok");
                        g0.set(g);
                        let ok = ev.c.is(yt, g);
                        let nok = ev.c.not(ok);
                        let mut s2 = s.clone();
                        ev.assume(&mut s2, nok);
                        if s2.pc != FALSE {
                            fr.returns.push((s2, yt));
                        }
                        ev.assume(s, ok);
                        let p = ev.c.payload(yt, g, "0");
                        s.vars.insert(id, p);
                    },
                    line,
                );
                fr.loops.pop();
                let acc = st.vars.get(&id).copied().unwrap_or(unit);
                let good = self.c.ctor1(g0.get(), acc);
                let mut outs = vec![(st.clone(), good)];
                outs.extend(fr.returns.drain(nret..));
                let (s, tt) = self.merge_vals(outs);
                *st = s;
                v(tt, named(if g0.get() == "Ok" { "Result" } else { "Option" }, vec![at]))
            }
            ("for_each", 1) => {
                let f = args[0].t;
                self.iterate(
                    v(r.t, r.ty.clone()),
                    None,
                    st,
                    fr,
                    &mut |ev, el, s, fr| {
                        let _ = ev.apply(f, vec![el], s, fr, line);
                    },
                    line,
                );
                unit_v
            }
            ("try_for_each", 1) => {
                let f = args[0].t;
                let nret = fr.returns.len();
                let g0 = std::cell::Cell::new("Ok");
                self.iterate(
                    v(r.t, r.ty.clone()),
                    None,
                    st,
                    fr,
                    &mut |ev, el, s, fr| {
                        let y = ev.apply(f, vec![el], s, fr, line);
                        if s.pc == FALSE {
                            return;
                        }
                        let yt = ev.val(s, y.t);
                        let g = ev.good_variant(yt, &y.ty).unwrap_or("Ok");
                        g0.set(g);
                        let ok = ev.c.is(yt, g);
                        let nok = ev.c.not(ok);
                        let mut s2 = s.clone();
                        ev.assume(&mut s2, nok);
                        if s2.pc != FALSE {
                            fr.returns.push((s2, yt));
                        }
                        ev.assume(s, ok);
                    },
                    line,
                );
                let good = self.c.ctor1(g0.get(), unit);
                let mut outs = vec![(st.clone(), good)];
                outs.extend(fr.returns.drain(nret..));
                let (s, tt) = self.merge_vals(outs);
                *st = s;
                v(tt, named(if g0.get() == "Ok" { "Result" } else { "Option" }, vec![Ty::Tuple(vec![])]))
            }
            ("min" | "max", 0) | ("min_by" | "max_by" | "min_by_key" | "max_by_key", 1) => v(self.c.call(name, vec![t]), named("Option", vec![self.elem_ty(&r.ty)])),
            ("push" | "push_back" | "push_str", 1) => {
                let n = match name {
                    "push" => self.push_item(t, a[0]),
                    "push_str" => self.c.cat(&[t, a[0]]),
                    _ => self.c.call("push", vec![t, a[0]]),
                };
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("try_push" | "try_append" | "try_extend", 1) if !matches!(r.ty.name(), "" ) || name == "try_push" => {
                let call = self.c.call("try_push", vec![t, a[0]]);
                let ok = self.c.is(call, "Ok");
                let n = if name == "try_push" { self.c.call("push", vec![t, a[0]]) } else { self.c.cat(&[t, a[0]]) };
                let nn = self.c.ite(ok, n, t);
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, nn);
                }
                let g = self.c.ctor1("Ok", unit);
                let b = self.c.ctor1("Err", unit);
                v(self.c.ite(ok, g, b), named("Result", vec![]))
            }
            ("extend" | "append" | "extend_from_slice", 1) => {
                let opt = name == "extend" && (args[0].ty.name() == "Option" || self.c.is_option(a[0]));
                let n = match (self.c.t(t).clone(), name) {
                    _ if opt => {
                        let has = self.c.is(a[0], "Some");
                        let p = self.c.payload(a[0], "Some", "0");
                        let m = self.push_item(t, p);
                        self.c.ite(has, m, t)
                    }
                    (Term::Ctor(cn, fs), _) if &*cn == "[]" && fs.is_empty() => a[0],
                    _ => self.c.cat(&[t, a[0]]),
                };
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("insert" | "try_insert", 2) => {
                // map / vec insertion at a key
                let vt = if r.ty.name().contains("Map") { r.ty.arg(1) } else { self.elem_ty(&r.ty) };
                let mut a = a.clone();
                a[1] = self.refine(a[1], &vt, st, fr, 0);
                let is_vec = matches!(r.ty.name(), "Vec" | "VecDeque" | "BoundedVec");
                let n = self.c.call(if is_vec { "vec_insert" } else { "mapins" }, vec![t, a[0], a[1]]);
                if is_vec && name == "insert" && r.ty.name() != "BoundedVec" {
                    if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                        self.write_place(st, vv, &p, n);
                    }
                    return Some(unit_v);
                }
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    if name == "try_insert" {
                        let call = self.c.call("try_insert", vec![t, a[0]]);
                        let ok = self.c.is(call, "Ok");
                        let nn = self.c.ite(ok, n, t);
                        self.write_place(st, vv, &p, nn);
                        let old = self.map_get(t, a[0]);
                        let g = self.c.ctor1("Ok", old);
                        let b = self.c.ctor1("Err", unit);
                        return Some(v(self.c.ite(ok, g, b), named("Result", vec![])));
                    }
                    self.write_place(st, vv, &p, n);
                    let old = self.map_get(t, a[0]);
                    return Some(v(old, named("Option", vec![])));
                }
                return None;
            }
            ("insert", 1) => {
                // set insertion: true when the element was not present
                let (b, l, c, e) = self.gen_of(t);
                let q = self.c.eq(e, a[0]);
                let cc = self.c.and(c, q);
                let ex = self.c.exists(b, l, cc);
                let n = self.c.call("push", vec![t, a[0]]);
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                let ne = self.c.not(ex);
                return boolv(self, ne);
            }
            ("remove" | "swap_remove", 1) => {
                let old = self.map_get(t, a[0]);
                let n = self.c.call("removeidx", vec![t, a[0]]);
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                if r.ty.name().contains("Map") {
                    v(old, named("Option", vec![r.ty.arg(1)]))
                } else {
                    v(self.index_term(t, a[0]), self.elem_ty(&r.ty))
                }
            }
            ("clear", 0) => {
                let e = self.empty();
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, e);
                }
                unit_v
            }
            ("sort" | "sort_unstable" | "dedup" | "reverse", 0) | ("sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" | "sort_by_cached_key" | "truncate" | "resize" | "swap" | "shuffle" | "rotate_left" | "split_off" | "fill", _) => {
                let mut xs = vec![t];
                for x in &a {
                    let c = self.clean(st, *x);
                    xs.push(c);
                }
                let label = match name {
                    "sort" | "sort_unstable" | "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" | "sort_by_cached_key" => "sorted",
                    "reverse" => "rev",
                    o => o,
                };
                let n = if name == "swap" && xs.len() == 3 { self.swapped(xs[0], xs[1], xs[2]) } else { self.c.call(label, xs) };
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("binary_search", 1) => {
                // only meaningful on a sorted slice: a constant table that is not sorted is an
                // unknown predicate, not membership
                let sorted = match self.concrete(t) {
                    Some(xs) => xs.windows(2).all(|w| self.c.lt(w[0], w[1]) == TRUE),
                    None => true,
                };
                let (b, l, c, e) = self.gen_of(t);
                let q = self.c.eq(e, a[0]);
                let cc = self.c.and(c, q);
                let ex = if sorted {
                    self.c.exists(b, l, cc)
                } else {
                    let x = self.c.call("binary_search_unsorted", vec![t, a[0]]);
                    self.c.cond(x)
                };
                let i = self.c.call("position_eq", vec![t, a[0]]);
                let ok = self.c.ctor1("Ok", i);
                let er = self.c.ctor1("Err", i);
                self.emit("binary_search", name.to_string(), vec![t, a[0]], None, st.pc, fr, line);
                v(self.c.ite(ex, ok, er), named("Result", vec![tname("usize"), tname("usize")]))
            }
            ("cmp" | "partial_cmp", 1) => {
                let (l, e) = (self.c.lt(t, a[0]), self.c.eq(t, a[0]));
                let (less, equal, greater) = (self.c.ctor0("Less"), self.c.ctor0("Equal"), self.c.ctor0("Greater"));
                let x = self.c.ite(e, equal, greater);
                let x = self.c.ite(l, less, x);
                if name == "cmp" {
                    v(x, tname("Ordering"))
                } else {
                    v(self.c.ctor1("Some", x), named("Option", vec![tname("Ordering")]))
                }
            }
            // letters and digits, by their ranges
            ("is_ascii_alphabetic" | "is_ascii_digit" | "is_ascii_alphanumeric" | "is_ascii_uppercase" | "is_ascii_lowercase", 0) if matches!(r.ty.name(), "char" | "u8") => {
                let (up, low, dig) = (('A', 'Z'), ('a', 'z'), ('0', '9'));
                let ranges: &[(char, char)] = match name {
                    "is_ascii_alphabetic" => &[low, up],
                    "is_ascii_digit" => &[dig],
                    "is_ascii_alphanumeric" => &[low, up, dig],
                    "is_ascii_uppercase" => &[up],
                    _ => &[low],
                };
                let byte = r.ty.name() == "u8";
                let mut any = FALSE;
                for (l, h) in ranges {
                    let one = |s: &mut Self, x: char| if byte { s.c.int(x as i128) } else { s.c.mk(Term::Char(x)) };
                    let (l, h) = (one(self, *l), one(self, *h));
                    let (l, h) = (self.c.le(l, t), self.c.le(t, h));
                    let x = self.c.and(l, h);
                    any = self.c.or(any, x);
                }
                return boolv(self, any);
            }
            // one known byte at an end
            ("starts_with" | "ends_with", 1) if matches!(r.ty.name(), "Vec" | "BoundedVec" | "WeakBoundedVec" | "str" | "String") && self.one_byte(a[0]).is_some() => {
                let x = self.one_byte(a[0]).unwrap();
                let x = self.c.int(x as i128);
                let (l, z) = (self.len_of(t), self.c.int(0));
                let e = self.c.eq(l, z);
                let at = if name == "starts_with" { self.index_term(t, z) } else { self.c.call("last", vec![t]) };
                let q = self.c.eq(at, x);
                let ne = self.c.not(e);
                let b = self.c.and(ne, q);
                return boolv(self, b);
            }
            ("starts_with" | "ends_with" | "is_whitespace" | "is_ascii" | "is_ascii_alphabetic" | "is_alphanumeric" | "is_ascii_digit" | "is_numeric" | "is_ascii_alphanumeric" | "is_uppercase", _) => {
                let mut xs = vec![t];
                xs.extend(a.iter().copied());
                let x = self.c.call(name, xs);
                let b = self.c.cond(x);
                return boolv(self, b);
            }
            ("using_encoded", 1) => {
                let e = self.c.call("encode", vec![t]);
                return Some(self.apply(a[0], vec![v(e, named("Vec", vec![tname("u8")]))], st, fr, line));
            }
            // a string is serialised as a string
            ("serialize_str", 1) => v(self.c.call("serialize", vec![a[0], t]), Ty::Unknown),
            ("encode", 0) => v(self.c.call("encode", vec![t]), named("Vec", vec![tname("u8")])),
            // letter by letter
            ("to_ascii_lowercase" | "to_ascii_uppercase", 0) if matches!(r.ty.name(), "str" | "String") => v(self.ascii_case(name, t), tname("String")),
            ("make_ascii_lowercase" | "make_ascii_uppercase", 0) => {
                let f = name.replace("make", "to");
                let n = if matches!(r.ty.name(), "str" | "String" | "Vec") { self.ascii_case(&f, t) } else { self.c.call(&f, vec![t]) };
                if let Some((vv, p)) = self.mutate_place(m, r, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                unit_v
            }
            ("start" | "end", 0) if matches!(self.c.t(t), Term::Ctor(n, _) if n.starts_with("Range")) || r.ty.name().starts_with("Range") => v(self.c.field(t, name), r.ty.arg(0)),
            // the bytes of a known number
            ("to_le_bytes" | "to_be_bytes", 0) if width(r.ty.name()) > 0 && matches!(self.c.t(t), Term::Int(i) if *i >= 0) => {
                let Term::Int(i) = self.c.t(t).clone() else { unreachable!() };
                let n = width(r.ty.name()) / 8;
                let mut bs = (0..n).map(|k| (i >> (8 * k)) & 255).collect::<Vec<_>>();
                if name == "to_be_bytes" {
                    bs.reverse();
                }
                let fs = bs.into_iter().enumerate().map(|(k, x)| (Str::from(k.to_string()), self.c.int(x))).collect();
                v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Vec", vec![tname("u8")]))
            }
            // known parts with a separator between them
            ("join", 1) if matches!(self.c.t(t), Term::Ctor(n, _) if &**n == "[]") => {
                let parts = self.concrete(t)?;
                let sep = match self.c.t(a[0]) {
                    Term::Int(_) => self.c.mk(Term::Ctor("[]".into(), vec![("0".into(), a[0])])),
                    _ => a[0],
                };
                let mut xs = vec![];
                for (i, x) in parts.into_iter().enumerate() {
                    if i > 0 {
                        xs.push(sep);
                    }
                    xs.push(x);
                }
                let ty = self.elem_ty(&r.ty);
                v(self.c.cat(&xs), ty)
            }
            // a buffer filled with as many items
            ("copy_from_slice" | "clone_from_slice", 1) if self.len_of(t) == self.len_of(a[0]) && matches!(self.c.t(t), Term::Ctor(..)) => {
                let (vv, p) = self.mutate_place(m, r, st, fr)?;
                self.write_place(st, vv, &p, a[0]);
                unit_v
            }
            // cutting white space off the ends and changing case are independent
            ("to_lowercase" | "to_ascii_lowercase" | "to_uppercase" | "to_ascii_uppercase", 0) if matches!(self.c.t(t), Term::Call(f, _) if &**f == "trim") => {
                let Term::Call(_, xs) = self.c.t(t).clone() else { unreachable!() };
                let x = self.c.call(name, xs);
                v(self.c.call("trim", vec![x]), tname("String"))
            }
            ("encoded_size" | "hash" | "to_lowercase" | "to_ascii_lowercase" | "nfkd" | "to_be_bytes" | "to_le_bytes" | "trim" | "ref_time" | "proof_size" | "to_uppercase" | "to_ascii_uppercase" | "lines" | "bits" | "split" | "split_whitespace", _) => {
                let mut xs = vec![t];
                for x in &a {
                    let c = self.clean(st, *x);
                    xs.push(c);
                }
                let ty = match name {
                    "to_lowercase" | "to_ascii_lowercase" | "trim" => tname("String"),
                    "nfkd" => named("Iter", vec![tname("char")]),
                    "split" | "lines" | "split_whitespace" => named("Iter", vec![tname("str")]),
                    "encoded_size" => tname("usize"),
                    "ref_time" | "proof_size" | "bits" => tname("u64"),
                    _ => Ty::Unknown,
                };
                v(self.c.call(name, xs), ty)
            }
            _ => return None,
        };
        Some(out)
    }
    /// items 0, 1, 2, ... of one list, written out
    fn run_of(&mut self, t: Tid) -> Option<Tid> {
        let xs = self.concrete(t)?;
        let (mut of, z) = (None, self.c.int(0));
        for (i, x) in xs.iter().enumerate() {
            match self.c.t(*x).clone() {
                Term::Call(f, a) if &*f == "index" && matches!(self.c.t(a[1]), Term::Int(k) if *k == i as i128) && of.map_or(true, |o| o == a[0]) => of = Some(a[0]),
                _ => return None,
            }
        }
        let n = self.c.int(xs.len() as i128);
        Some(self.slice_term(of?, z, n))
    }
    /// position among the items of `t`, of which `c` keeps some
    fn rank(&mut self, t: Tid, be: Tid, c: Bid) -> Tid {
        if c == TRUE {
            self.c.call("index_of", vec![be])
        } else {
            self.c.call("rank", vec![t, be])
        }
    }
    /// `k..`
    fn from_on(&self, t: Tid) -> Option<Tid> {
        match self.c.t(t) {
            Term::Ctor(n, fs) if &**n == "Range" => {
                let end = fs.iter().find(|x| &*x.0 == "end")?.1;
                if !matches!(self.c.t(end), Term::Const(x) if &**x == "unbounded") {
                    return None;
                }
                fs.iter().find(|x| &*x.0 == "start").map(|x| x.1)
            }
            _ => None,
        }
    }
    /// a list of one known byte
    fn one_byte(&self, t: Tid) -> Option<u8> {
        match self.c.t(t) {
            Term::Str(s) if s.len() == 1 => Some(s.as_bytes()[0]),
            Term::Char(c) if c.is_ascii() => Some(*c as u8),
            Term::Ctor(n, fs) if &**n == "[]" && fs.len() == 1 => match self.c.t(fs[0].1) {
                Term::Int(i) => u8::try_from(*i).ok(),
                _ => None,
            },
            _ => None,
        }
    }
    fn iter_syntax(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "par_iter" | "into_par_iter" | "chars" | "filter" | "filter_map" | "enumerate" | "zip" | "chain" | "rev" | "take" | "skip" | "keys" | "values" | "iter_mut" | "flat_map" | "bytes" | "lines" | "split" | "drain" | "nfkd" | "windows" | "chunks" | "flatten"),
            Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)) || self.iter_syntax(&p.expr),
            _ => false,
        }
    }
    /// bytes taken by a type of fixed size under SCALE
    fn encoded_len(&self, t: &Ty, d: u32) -> Option<i128> {
        let n = t.name();
        if d > 4 {
            return None;
        }
        match n {
            "u8" | "i8" | "bool" => return Some(1),
            "u16" | "i16" => return Some(2),
            "u32" | "i32" => return Some(4),
            "u64" | "i64" => return Some(8),
            "u128" | "i128" => return Some(16),
            _ => {}
        }
        if let Some(x) = self.ix.aliases.iter().find(|x| x.1 == n) {
            return self.encoded_len(&x.2, d + 1);
        }
        let mut it = self.ix.structs.iter().filter(|s| s.name == n);
        let s = it.next()?;
        if it.next().is_some() || s.fields.is_empty() {
            return None;
        }
        s.fields.iter().map(|f| self.encoded_len(&f.1, d + 1)).sum()
    }
    pub fn slice_term(&mut self, t: Tid, from: Tid, to: Tid) -> Tid {
        let full = self.len_of(t);
        if to == full && matches!(self.c.t(from), Term::Int(0)) {
            return t;
        }
        if let Term::Call(f, xs) = self.c.t(t).clone() {
            if &*f == "slice" && xs.len() == 3 {
                let f2 = self.c.arith("add", xs[1], from);
                let t2 = if to == full { xs[2] } else { self.c.arith("add", xs[1], to) };
                return self.slice_term(xs[0], f2, t2);
            }
            if &*f == "skip" && xs.len() == 2 {
                let f2 = self.c.arith("add", xs[1], from);
                if to == full {
                    return self.c.call("skip", vec![xs[0], f2]);
                }
                let t2 = self.c.arith("add", xs[1], to);
                return self.slice_term(xs[0], f2, t2);
            }
        }
        if to == self.len_of(t) {
            return self.c.call("skip", vec![t, from]);
        }
        self.c.call("slice", vec![t, from, to])
    }
    pub fn map_get(&mut self, t: Tid, k: Tid) -> Tid {
        // a key taken from the map is in the map
        if let Term::Field(e, f) = self.c.t(k).clone() {
            if &*f == "0" && matches!(self.c.t(e), Term::Elem(b, _) if *b == t) {
                let x = self.c.call("index", vec![t, k]);
                return self.c.ctor1("Some", x);
            }
        }
        match self.c.t(t).clone() {
            Term::Ctor(n, fs) if &*n == "[]" && fs.is_empty() => self.c.ctor0("None"),
            Term::Ite(c, a, b) => {
                let x = self.map_get(a, k);
                let y = self.map_get(b, k);
                self.c.ite(c, x, y)
            }
            Term::Call(f, xs) if &*f == "removeidx" => {
                let e = self.c.eq(xs[1], k);
                let n = self.c.ctor0("None");
                if e == TRUE {
                    return n;
                }
                let o = self.map_get(xs[0], k);
                self.c.ite(e, n, o)
            }
            Term::Call(f, xs) if matches!(&*f, "setidx" | "mapins") => {
                let e = self.c.eq(xs[1], k);
                let s = self.c.ctor1("Some", xs[2]);
                if e == TRUE {
                    return s;
                }
                let o = self.map_get(xs[0], k);
                self.c.ite(e, s, o)
            }
            Term::Call(f, xs) if &*f == "map_extend" && xs.len() == 2 => {
                let (b, l, c, e) = self.gen_of(xs[1]);
                let ek = self.c.field(e, "0");
                let ev = self.c.field(e, "1");
                let q = self.c.eq(ek, k);
                let cq = self.c.and(c, q);
                let hit = self.c.exists(b, l, cq);
                let el = self.c.mk(Term::Elem(b, l));
                let mut x = if self.c.mentions(ev, el) { self.c.subst(ev, ek, k) } else { ev };
                if self.c.mentions(x, el) {
                    x = self.c.call("last_value", vec![xs[1], k]);
                }
                let s = self.c.ctor1("Some", x);
                let o = self.map_get(xs[0], k);
                self.c.ite(hit, s, o)
            }
            _ => {
                let g = self.c.call("map_get", vec![t, k]);
                let i = self.c.is(g, "Some");
                let x = self.c.call("index", vec![t, k]);
                let s = self.c.ctor1("Some", x);
                let n = self.c.ctor0("None");
                self.c.ite(i, s, n)
            }
        }
    }
    // ---------------- macros ----------------
    fn mac(&mut self, m: &'static syn::Macro, st: &mut State, fr: &mut Fr) -> V {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let line = {
            use syn::spanned::Spanned;
            m.path.span().start().line
        };
        let unit = v(self.c.unit(), Ty::Tuple(vec![]));
        match name.as_str() {
            // production, testnet, local: neither analysed configuration selects the latter two
            "prod_or_testnet_or_local" => match mac_args(m).first() {
                Some(x) => self.ex(x, st, fr),
                None => unit,
            },
            "ensure" | "frame_ensure" => {
                let a = mac_args(m);
                if a.len() < 2 {
                    self.unsup("ensure");
                    return unit;
                }
                let c = self.cond_ex(a[0], st, fr);
                let mut s2 = st.clone();
                let nc = self.c.not(c);
                self.assume(&mut s2, nc);
                if s2.pc != FALSE {
                    let e = self.ex(a[1], &mut s2, fr);
                    let et = self.val(&s2, e.t);
                    let ev = self.c.ctor1("Err", et);
                    fr.returns.push((s2, ev));
                }
                self.assume(st, c);
                unit
            }
            "fail" => {
                let a = mac_args(m);
                let e = if let Some(x) = a.first() { self.ex(x, st, fr).t } else { unit.t };
                let er = self.c.ctor1("Err", e);
                fr.returns.push((st.clone(), er));
                st.pc = FALSE;
                vu(self.never())
            }
            "matches" => {
                let key = m as *const _ as usize;
                let got = MAC_MATCH.with(|c| c.borrow().get(&key).copied());
                let ma = match got {
                    Some(x) => x,
                    None => {
                        let x: Option<&'static MatchesArgs> = m.parse_body::<MatchesArgs>().ok().map(|x| &*Box::leak(Box::new(x)));
                        MAC_MATCH.with(|c| c.borrow_mut().insert(key, x));
                        x
                    }
                };
                match ma {
                    Some(ma) => {
                        let x = self.ex(&ma.e, st, fr);
                        let mark = fr.env.len();
                        let mut c = self.bind(&ma.p, x.t, &x.ty, st, fr);
                        if let Some(g) = &ma.g {
                            let mut s2 = st.clone();
                            self.assume(&mut s2, c);
                            if s2.pc != FALSE {
                                let gc = self.cond_ex(g, &mut s2, fr);
                                c = self.c.and(c, gc);
                            }
                        }
                        fr.env.truncate(mark);
                        v(self.c.boolt(c), tname("bool"))
                    }
                    None => {
                        self.unsup("matches!");
                        let n = self.c.fresh();
                        let b = self.c.atom(Atom::Nondet(n));
                        v(self.c.boolt(b), tname("bool"))
                    }
                }
            }
            "assert" | "assert_eq" | "assert_ne" | "debug_assert" | "debug_assert_eq" | "defensive_assert" => {
                if name.starts_with("debug") {
                    return unit;
                }
                let a = mac_args(m);
                let c = match (name.as_str(), a.len()) {
                    ("assert" | "defensive_assert", n) if n >= 1 => self.cond_ex(a[0], st, fr),
                    ("assert_eq", n) if n >= 2 => {
                        let x = self.ex(a[0], st, fr).t;
                        let y = self.ex(a[1], st, fr).t;
                        let (x, y) = (self.val(st, x), self.val(st, y));
                        self.c.eq(x, y)
                    }
                    ("assert_ne", n) if n >= 2 => {
                        let x = self.ex(a[0], st, fr).t;
                        let y = self.ex(a[1], st, fr).t;
                        let (x, y) = (self.val(st, x), self.val(st, y));
                        let e = self.c.eq(x, y);
                        self.c.not(e)
                    }
                    _ => TRUE,
                };
                let nc = self.c.not(c);
                let pc = self.c.and(st.pc, nc);
                self.emit("panic", name.clone(), vec![], None, pc, fr, line);
                self.assume(st, c);
                unit
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.emit("panic", name.clone(), vec![], None, st.pc, fr, line);
                st.pc = FALSE;
                vu(self.never())
            }
            "vec" | "bounded_vec" => {
                let a = mac_args(m);
                let toks = m.tokens.to_string();
                if a.is_empty() && !toks.trim().is_empty() {
                    // vec![x; n]
                    let key = m as *const _ as usize;
                    let got = MAC_ARGS.with(|c| c.borrow().get(&(key + 1)).cloned());
                    let pair = match got {
                        Some(p) => p,
                        None => {
                            let s = format!("[{}]", toks);
                            let p: Vec<&'static Expr> = match syn::parse_str::<Expr>(&s) {
                                Ok(e) => vec![&*Box::leak(Box::new(e))],
                                Err(_) => vec![],
                            };
                            MAC_ARGS.with(|c| c.borrow_mut().insert(key + 1, p.clone()));
                            p
                        }
                    };
                    if let Some(e) = pair.first() {
                        return self.ex(e, st, fr);
                    }
                }
                let xs: Vec<V> = a.iter().map(|e| self.ex(e, st, fr)).collect();
                let et = xs.first().map_or(Ty::Unknown, |x| x.ty.clone());
                let mut fs = vec![];
                for (i, x) in xs.iter().enumerate() {
                    let t = self.val(st, x.t);
                    fs.push((Str::from(i.to_string()), t));
                }
                v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Vec", vec![et]))
            }
            "format" | "format_args" | "concat" => {
                let a = mac_args(m);
                let t = self.format_term(&a, st, fr);
                v(t, tname("String"))
            }
            "write" | "writeln" => {
                let a = mac_args(m);
                let t = self.format_term(&a[a.len().min(1)..], st, fr);
                let ts = vec![t];
                let nm = if name == "write" { "write_str" } else { "writeln!" };
                self.emit("call", nm.into(), ts.clone(), None, st.pc, fr, line);
                v(self.c.call(nm, ts), named("Result", vec![Ty::Tuple(vec![])]))
            }
            "debug" | "info" | "warn" | "error" | "trace" | "log" | "println" | "eprintln" | "print" | "defensive" | "dbg" => unit,
            "parameter_types" | "impl_runtime_apis" => unit,
            _ => {
                let a = mac_args(m);
                let mut ts = vec![];
                for e in a {
                    let x = self.ex(e, st, fr).t;
                    let x = self.val(st, x);
                    ts.push(vu(x));
                }
                if a_is_empty(m) {
                    let s = m.tokens.to_string();
                    ts.push(vu(self.c.mk(Term::Str(s.as_str().into()))));
                }
                self.opaque_call(&format!("{}!", name), ts, Ty::Unknown, st, fr, line)
            }
        }
    }
}
fn a_is_empty(m: &'static syn::Macro) -> bool {
    mac_args(m).is_empty()
}
impl Ev<'_> {
    /// a pool-validity description under construction: building it cannot fail
    fn tx_builder(&self, t: Tid) -> bool {
        match self.c.t(t) {
            Term::Call(n, a) => &**n == "ValidTransaction::with_tag_prefix" || (["and_provides", "and_requires", "priority", "longevity", "propagate"].contains(&&**n) && a.first().map_or(false, |x| self.tx_builder(*x))),
            _ => false,
        }
    }
}
