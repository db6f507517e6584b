//! Guarded value-flow analysis: a forward abstract interpreter over the syntax tree.
//! Values are hash-consed terms (global value numbering), program points carry a Boolean guard
//! (BDD over source predicates), joins merge values into gated (`Ite`) terms, loops are summarised
//! to a fixpoint form. Every effect (storage write/removal, external call, emitted event, panic) is
//! recorded together with its guard.
use crate::core::*;
use crate::load::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{Expr, Pat};

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub name: String,
    pub args: Vec<Tid>,
    pub val: Option<Tid>,
    pub pc: Bid,
    pub loops: Vec<(Tid, u32)>,
    pub func: String,
    pub file: String,
    pub line: usize,
}

#[derive(Clone, Debug)]
pub struct State {
    pub pc: Bid,
    pub vars: BTreeMap<u32, Tid>,
    pub arr: BTreeMap<Str, Tid>,
}

#[derive(Clone)]
pub struct Ctx {
    pub krate: String,
    pub self_ty: Option<String>,
    pub fname: String,
    pub file: String,
    pub ret: Ty,
    pub modpath: Vec<String>,
}

pub struct LoopFr {
    label: Option<String>,
    breaks: Vec<(State, Tid)>,
    conts: Vec<State>,
}
pub struct Fr {
    pub cx: Ctx,
    pub env: Vec<(String, u32)>,
    pub returns: Vec<(State, Tid)>,
    pub loops: Vec<LoopFr>,
    /// the type of an explicitly returned value
    pub rty: Ty,
}

#[derive(Clone)]
pub enum Callable {
    Closure(&'static syn::ExprClosure, Vec<(String, u32)>, Ctx),
    Path(&'static syn::ExprPath, Ctx),
}

#[derive(Clone, Debug)]
pub struct V {
    pub t: Tid,
    pub ty: Ty,
}
fn v(t: Tid, ty: Ty) -> V {
    V { t, ty }
}
fn vu(t: Tid) -> V {
    V { t, ty: Ty::Unknown }
}
fn named(n: &str, a: Vec<Ty>) -> Ty {
    Ty::Named(n.into(), a)
}
fn tname(n: &str) -> Ty {
    Ty::Named(n.into(), vec![])
}

pub struct Ev<'a> {
    pub c: Cx,
    pub ix: &'a Index,
    pub vty: Vec<Ty>,
    pub vmut: Vec<bool>,
    pub callables: Vec<Callable>,
    pub events: Vec<Event>,
    pub stack: Vec<usize>,
    pub active: Vec<(Tid, u32)>,
    pub loops: Vec<(Tid, u32)>,
    pub opaque: BTreeSet<String>,
    pub visited: BTreeSet<usize>,
    pub ncalls: usize,
    pub axioms: Vec<Bid>,
    pub muted: u32,
    /// effects are recorded while `muted` is at most this
    pub record_at: u32,
    pub max_depth: usize,
    const_memo: HashMap<usize, Option<V>>,
    const_busy: BTreeSet<usize>,
    pub unsupported: BTreeMap<String, usize>,
    pub transparent: BTreeSet<String>,
    /// evaluating a specification: repository functions stay uninterpreted
    pub spec: bool,
    /// the `try_into` call whose target type the context fixes
    pub try_hint: HashMap<usize, Ty>,
    pub ufcs: HashMap<String, &'static syn::ExprMethodCall>,
    /// loops over unknown ranges: iterations followed exactly (0: summarised)
    pub unroll: usize,
    /// lists of unknown length are followed for `unroll` elements
    pub lossy: bool,
    /// executions a bounded loop had to give up on
    pub lost: Bid,
}

const NARROW: &[&str] = &["u8", "u16", "u32", "i8", "i16", "i32"];
fn width(t: &str) -> u32 {
    match t {
        "u8" | "i8" | "bool" => 8,
        "u16" | "i16" => 16,
        "char" => 21,
        "u32" | "i32" => 32,
        "u64" | "i64" | "usize" | "isize" | "SchemaId64" | "MessageSourceId" | "DelegatorId" | "ProviderId" => 64,
        "u128" | "i128" => 128,
        "SchemaId" | "HandleSuffix" | "SuffixRangeType" | "SchemaVersion16" | "PageId" | "PageNonce" => 16,
        "SchemaVersion" => 8,
        _ => 0,
    }
}

fn next_loop(w: &syn::ExprWhile) -> Option<(&syn::Pat, &Expr)> {
    let Expr::Let(l) = &*w.cond else { return None };
    let syn::Pat::TupleStruct(p) = &*l.pat else { return None };
    let Expr::MethodCall(m) = &*l.expr else { return None };
    let Expr::Path(it) = &*m.receiver else { return None };
    let name = it.path.get_ident()?.to_string();
    if !p.path.is_ident("Some") || p.elems.len() != 1 || m.method != "next" || !m.args.is_empty() {
        return None;
    }
    // (a field of the same name is something else)
    fn uses(ts: proc_macro2::TokenStream, name: &str) -> bool {
        let mut dots = 0;
        for t in ts {
            match &t {
                proc_macro2::TokenTree::Ident(i) if i == name && dots != 1 => return true,
                proc_macro2::TokenTree::Group(g) if uses(g.stream(), name) => return true,
                _ => {}
            }
            dots = if matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.') { dots + 1 } else { 0 };
        }
        false
    }
    if uses(quote::ToTokens::to_token_stream(&w.body), &name) {
        return None;
    }
    Some((&p.elems[0], &*m.receiver))
}

fn is_ident(e: &Expr, x: &str) -> bool {
    match e {
        Expr::Path(p) => p.path.is_ident(x),
        Expr::Paren(p) => is_ident(&p.expr, x),
        Expr::MethodCall(m) if m.method == "clone" => is_ident(&m.receiver, x),
        _ => false,
    }
}
/// `Ok(v) => v`
fn payload_arm(p: &Pat, body: &Expr) -> bool {
    match p {
        Pat::TupleStruct(t) if t.elems.len() == 1 && matches!(t.path.segments.last(), Some(s) if s.ident == "Ok" || s.ident == "Some") => match &t.elems[0] {
            Pat::Ident(i) => is_ident(body, &i.ident.to_string()),
            _ => false,
        },
        _ => false,
    }
}
fn ends_in_try_into(e: &Expr) -> bool {
    match e {
        Expr::Try(t) => ends_in_try_into(&t.expr),
        Expr::Paren(t) => ends_in_try_into(&t.expr),
        Expr::Match(m) => ends_in_try_into(&m.expr),
        Expr::If(i) => matches!(&*i.cond, Expr::Let(l) if ends_in_try_into(&l.expr)),
        Expr::MethodCall(m) => m.method == "try_into" || m.method == "parse" && m.turbofish.is_none() || ends_in_try_into(&m.receiver),
        _ => false,
    }
}

impl<'a> Ev<'a> {
    pub fn new(ix: &'a Index) -> Self {
        let mut c = Cx::new();
        for e in &ix.enums {
            if e.variants.len() != 2 || e.variants.iter().any(|v| matches!(v.as_str(), "Some" | "None" | "Ok" | "Err" | "Yes" | "No")) {
                continue;
            }
            // a variant name another enum also uses says nothing about its sibling
            let shared = |v: &String| ix.enums.iter().any(|o| o.variants != e.variants && o.variants.contains(v));
            if !shared(&e.variants[0]) && !shared(&e.variants[1]) {
                c.two.insert(e.variants[1].as_str().into(), e.variants[0].as_str().into());
            }
        }
        Ev {
            c,
            ix,
            vty: vec![],
            vmut: vec![],
            callables: vec![],
            events: vec![],
            stack: vec![],
            active: vec![],
            loops: vec![],
            opaque: BTreeSet::new(),
            try_hint: HashMap::new(),
            ufcs: HashMap::new(),
            visited: BTreeSet::new(),
            ncalls: 0,
            axioms: vec![],
            muted: 0,
            record_at: 0,
            max_depth: 48,
            const_memo: HashMap::new(),
            const_busy: BTreeSet::new(),
            unsupported: BTreeMap::new(),
            transparent: ["DelegatorId", "ProviderId"].iter().map(|s| s.to_string()).collect(),
            spec: false,
            unroll: 0,
            lost: FALSE,
            lossy: false,
        }
    }
    /// entailment under the exhaustiveness facts of the matches seen
    pub fn entails(&mut self, a: Bid, b: Bid) -> bool {
        if self.c.implies(a, b) {
            return true;
        }
        let x = self.with_axioms(a, b);
        self.c.implies(x, b)
    }
    pub fn with_axioms(&mut self, a: Bid, b: Bid) -> Bid {
        let mut x = a;
        let sup = self.c.support_many(&[a, b]);
        for ax in self.axioms.clone() {
            if self.c.support(ax).iter().any(|v| sup.contains(v)) {
                x = self.c.and(x, ax);
            }
        }
        x
    }
    pub fn state(&mut self) -> State {
        State { pc: TRUE, vars: BTreeMap::new(), arr: BTreeMap::new() }
    }
    fn unsup(&mut self, s: &str) {
        *self.unsupported.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn newvar(&mut self, st: &mut State, t: Tid, ty: Ty, m: bool) -> u32 {
        let i = self.vty.len() as u32;
        self.vty.push(ty);
        self.vmut.push(m);
        st.vars.insert(i, t);
        i
    }
    fn never(&mut self) -> Tid {
        self.c.call("#never", vec![])
    }
    // ---------------- places ----------------
    pub fn read_place(&mut self, st: &State, var: u32, pr: &[Proj]) -> Tid {
        let mut t = match st.vars.get(&var) {
            Some(t) => *t,
            None => return self.never(),
        };
        for (i, p) in pr.iter().enumerate() {
            if let Term::RefMut(v2, p2) = self.c.t(t).clone() {
                let mut q = p2;
                q.extend_from_slice(&pr[i..]);
                return self.read_place(st, v2, &q);
            }
            t = self.proj(t, p);
        }
        if let Term::RefMut(v2, p2) = self.c.t(t).clone() {
            return self.read_place(st, v2, &p2);
        }
        t
    }
    fn proj(&mut self, t: Tid, p: &Proj) -> Tid {
        match p {
            Proj::Field(f) => self.c.field(t, f),
            Proj::Payload(v, f) => self.c.payload(t, v, f),
            Proj::Index(k) => self.index_term(t, *k),
            Proj::Elem(l) => self.c.mk(Term::Elem(t, *l)),
        }
    }
    /// a map with a sequence of pairs put in
    fn map_extend(&mut self, m: Tid, pairs: Tid) -> Tid {
        let mut pairs = pairs;
        if let Term::Compr(b, l, c, x) = self.c.t(pairs).clone() {
            let e = self.c.mk(Term::Elem(b, l));
            let (k, y) = (self.c.field(e, "0"), self.c.field(e, "1"));
            if x == self.c.tuple(vec![k, y]) {
                pairs = self.compr(b, l, c, e);
            }
        }
        self.c.call("map_extend", vec![m, pairs])
    }
    fn swapped(&mut self, t: Tid, a: Tid, b: Tid) -> Tid {
        self.c.call("swap", vec![t, a.min(b), a.max(b)])
    }
    /// is this a hasher that only sees the concatenation of what is written to it?
    fn streams(&self, h: Tid) -> bool {
        matches!(self.c.t(h), Term::Call(f, _) if f.starts_with("XxHash64::"))
    }
    /// a string with each letter's case changed
    fn ascii_case(&mut self, f: &str, t: Tid) -> Tid {
        if let Term::Str(x) = self.c.t(t).clone() {
            let y = if f == "to_ascii_lowercase" { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
            return self.c.mk(Term::Str(y.as_str().into()));
        }
        let s = if matches!(self.c.t(t), Term::Compr(..)) { t } else { self.c.call("chars", vec![t]) };
        let (b, l, c, e) = self.gen_of(s);
        let y = self.c.call(f, vec![e]);
        self.compr(b, l, c, y)
    }
    /// the characters of a string and the condition that one matches a character pattern
    fn over_pattern(&mut self, s: Tid, p: Tid, st: &mut State, fr: &mut Fr, line: usize) -> Option<(Tid, u32, Bid, Tid, Bid)> {
        let p = self.val(st, p);
        let src = if matches!(self.c.t(s), Term::Compr(..)) { s } else { self.c.call("chars", vec![s]) };
        match self.c.t(p).clone() {
            Term::Closure(_) => {
                let (b, l, c, e, y) = self.over_elem(&v(src, named("Iter", vec![tname("char")])), p, st, fr, line);
                let k = self.c.cond(y.t);
                Some((b, l, c, e, k))
            }
            Term::Char(_) => {
                let (b, l, c, e) = self.gen_of(src);
                let k = self.c.eq(e, p);
                Some((b, l, c, e, k))
            }
            Term::Ctor(n, fs) if &*n == "[]" => {
                let (b, l, c, e) = self.gen_of(src);
                let mut k = FALSE;
                for f in fs {
                    let q = self.c.eq(e, f.1);
                    k = self.c.or(k, q);
                }
                Some((b, l, c, e, k))
            }
            _ => None,
        }
    }
    fn index_term(&mut self, t: Tid, k: Tid) -> Tid {
        if let (Term::Ctor(n, fs), Term::Int(i)) = (self.c.t(t).clone(), self.c.t(k).clone()) {
            if &*n == "[]" && i >= 0 && (i as usize) < fs.len() {
                return fs[i as usize].1;
            }
        }
        if let Term::Ite(c, x, y) = self.c.t(t).clone() {
            if self.filled(x) && self.filled(y) || matches!(self.c.t(k), Term::Int(_)) && self.literal(x) && self.literal(y) {
                let (a, b) = (self.index_term(x, k), self.index_term(y, k));
                return self.c.ite(c, a, b);
            }
        }
        if let Term::Call(f, xs) = self.c.t(t).clone() {
            if matches!(&*f, "setidx" | "mapins") {
                let e = self.c.eq(xs[1], k);
                if e == TRUE {
                    return xs[2];
                }
                let o = self.index_term(xs[0], k);
                return self.c.ite(e, xs[2], o);
            }
            if &*f == "swap" && xs.len() == 3 {
                if k == xs[1] || k == xs[2] {
                    return self.index_term(xs[0], if k == xs[1] { xs[2] } else { xs[1] });
                }
            }
            if &*f == "slice" && xs.len() == 3 {
                let j = self.c.arith("add", xs[1], k);
                return self.index_term(xs[0], j);
            }
            if &*f == "take" && xs.len() == 2 {
                return self.index_term(xs[0], k);
            }
            if &*f == "skip" && xs.len() == 2 {
                let j = self.c.arith("add", xs[1], k);
                let mut t = self.index_term(xs[0], j);
                if self.lossy {
                    for j in 0..=self.unroll {
                        let n = self.c.int(j as i128);
                        let q = self.c.eq(xs[1], n);
                        let at = self.c.arith("add", n, k);
                        let x = self.index_term(xs[0], at);
                        t = self.c.ite(q, x, t);
                    }
                }
                return t;
            }
            if &*f == "map_extend" {
                let g = self.map_get(t, k);
                return self.c.payload(g, "Some", "0");
            }
        }
        self.c.call("index", vec![t, k])
    }
    pub fn write_place(&mut self, st: &mut State, var: u32, pr: &[Proj], val: Tid) {
        let cur = match st.vars.get(&var) {
            Some(t) => *t,
            None => return,
        };
        if let Term::RefMut(v2, p2) = self.c.t(cur).clone() {
            let mut q = p2;
            q.extend_from_slice(pr);
            return self.write_place(st, v2, &q, val);
        }
        let n = self.put(st, cur, pr, val);
        let n = self.spell_out(var, cur, n);
        st.vars.insert(var, n);
    }
    /// a struct value after a field assignment, written as a literal when its type is known
    fn spell_out(&mut self, var: u32, old: Tid, t: Tid) -> Tid {
        if old == t || !self.loops.is_empty() || !matches!(self.c.t(t), Term::Update(..)) {
            return t;
        }
        let n = self.vty[var as usize].name().to_string();
        let mut it = self.ix.structs.iter().filter(|s| s.name == n);
        let (Some(info), None) = (it.next(), it.next()) else { return t };
        if !matches!(info.item.fields, syn::Fields::Named(_)) || info.fields.len() > 10 {
            return t;
        }
        let mut fs: Vec<(Str, Tid)> = vec![];
        for (f, _) in &info.fields {
            let x = self.c.field(t, f);
            fs.push((f.as_str().into(), x));
        }
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        self.c.mk(Term::Ctor(n.as_str().into(), fs))
    }
    fn put(&mut self, st: &mut State, cur: Tid, pr: &[Proj], val: Tid) -> Tid {
        if pr.is_empty() {
            return val;
        }
        if let Term::RefMut(v2, p2) = self.c.t(cur).clone() {
            let mut q = p2;
            q.extend_from_slice(pr);
            self.write_place(st, v2, &q, val);
            return cur;
        }
        let inner = self.proj(cur, &pr[0]);
        let nv = self.put(st, inner, &pr[1..], val);
        match &pr[0] {
            Proj::Field(f) => self.c.update(cur, f, nv),
            Proj::Payload(v, f) => {
                if &**f == "0" && is_variantish(v) {
                    // write is only reached when the variant matches
                    let nn = self.c.ctor1(v, nv);
                    let i = self.c.is(cur, v);
                    self.c.ite(i, nn, cur)
                } else {
                    let old = self.proj(cur, &pr[0]);
                    if old == nv {
                        cur
                    } else {
                        self.c.call(&format!("setpayload:{}.{}", v, f), vec![cur, nv])
                    }
                }
            }
            Proj::Index(k) => {
                // `x = v[a]; v[a] = v[b]; v[b] = x`
                if let Term::Call(f, xs) = self.c.t(cur).clone() {
                    if &*f == "setidx" && xs[2] == self.index_term(xs[0], *k) && nv == self.index_term(xs[0], xs[1]) {
                        return self.swapped(xs[0], xs[1], *k);
                    }
                }
                // one of several maps that were filled from empty: put it into each
                if let Term::Ite(c, x, y) = self.c.t(cur).clone() {
                    if self.filled(x) && self.filled(y) {
                        let a = self.put(st, x, &pr[..1], nv);
                        let b = self.put(st, y, &pr[..1], nv);
                        return self.c.ite(c, a, b);
                    }
                }
                // the later value at the same place is the one that stays
                if let Term::Call(f, xs) = self.c.t(cur).clone() {
                    if matches!(&*f, "setidx" | "mapins") && xs[1] == *k {
                        return self.c.call(&f, vec![xs[0], *k, nv]);
                    }
                }
                self.c.call("setidx", vec![cur, *k, nv])
            }
            Proj::Elem(_) => self.c.call("setelems", vec![cur, nv]),
        }
    }
    pub fn val(&mut self, st: &State, t: Tid) -> Tid {
        match self.c.t(t).clone() {
            Term::RefMut(vv, p) => self.read_place(st, vv, &p),
            Term::Ite(c, a, b) if self.has_ref(t) => {
                let x = self.val(st, a);
                let y = self.val(st, b);
                self.c.ite(c, x, y)
            }
            Term::Ctor(n, fs) if self.has_ref(t) => {
                let g = fs.into_iter().map(|(k, x)| (k, self.val(st, x))).collect();
                self.c.mk(Term::Ctor(n, g))
            }
            _ => t,
        }
    }
    fn has_ref(&self, t: Tid) -> bool {
        match self.c.t(t) {
            Term::RefMut(..) => true,
            Term::Ctor(_, fs) => fs.iter().any(|x| self.has_ref(x.1)),
            Term::Ite(_, a, b) => self.has_ref(*a) || self.has_ref(*b),
            _ => false,
        }
    }
    // ---------------- merge ----------------
    pub fn merge(&mut self, a: State, b: State) -> State {
        if a.pc == FALSE {
            return b;
        }
        if b.pc == FALSE {
            return a;
        }
        let pc = self.c.or(a.pc, b.pc);
        let cond = self.c.constrain(a.pc, pc);
        let mut vars = BTreeMap::new();
        let keys: BTreeSet<u32> = a.vars.keys().chain(b.vars.keys()).copied().collect();
        for k in keys {
            let x = match (a.vars.get(&k), b.vars.get(&k)) {
                (Some(&x), Some(&y)) => {
                    if x == y {
                        x
                    } else {
                        self.c.ite(cond, x, y)
                    }
                }
                (Some(&x), None) | (None, Some(&x)) => x,
                _ => unreachable!(),
            };
            vars.insert(k, x);
        }
        let mut arr = BTreeMap::new();
        let keys: BTreeSet<Str> = a.arr.keys().chain(b.arr.keys()).cloned().collect();
        for k in keys {
            let base = self.c.konst(&k);
            let x = a.arr.get(&k).copied().unwrap_or(base);
            let y = b.arr.get(&k).copied().unwrap_or(base);
            let z = if x == y { x } else { self.c.mk(Term::Ite(cond, x, y)) };
            arr.insert(k, z);
        }
        State { pc, vars, arr }
    }
    pub fn merge_vals(&mut self, xs: Vec<(State, Tid)>) -> (State, Tid) {
        let mut it = xs.into_iter().filter(|x| x.0.pc != FALSE).collect::<Vec<_>>().into_iter();
        let (mut s, mut t) = match it.next() {
            Some(x) => x,
            None => {
                let n = self.never();
                return (State { pc: FALSE, vars: BTreeMap::new(), arr: BTreeMap::new() }, n);
            }
        };
        for (s2, t2) in it {
            let u = self.c.or(s.pc, s2.pc);
            let cond = self.c.constrain(s.pc, u);
            t = self.c.ite(cond, t, t2);
            s = self.merge(s, s2);
        }
        (s, t)
    }
    fn assume(&mut self, st: &mut State, c: Bid) {
        st.pc = self.c.and(st.pc, c);
    }
    // ---------------- events ----------------
    fn emit(&mut self, kind: &'static str, name: String, args: Vec<Tid>, val: Option<Tid>, pc: Bid, fr: &Fr, line: usize) {
        if self.muted > self.record_at || pc == FALSE {
            return;
        }
        self.events.push(Event { kind, name, args, val, pc, loops: self.loops.clone(), func: fr.cx.fname.clone(), file: fr.cx.file.clone(), line });
    }
    // ---------------- storage ----------------
    fn arr(&mut self, st: &State, x: &str) -> Tid {
        match st.arr.get(x) {
            Some(t) => *t,
            None => self.c.konst(x),
        }
    }
    pub fn read_store(&mut self, st: &State, x: &str, keys: &[Tid]) -> Tid {
        let a = self.arr(st, x);
        self.read_arr(a, x, keys)
    }
    fn read_arr(&mut self, a: Tid, x: &str, keys: &[Tid]) -> Tid {
        match self.c.t(a).clone() {
            Term::Const(_) => self.c.mk(Term::Read(x.into(), keys.to_vec())),
            Term::Ite(c, p, q) => {
                let r = self.read_arr(p, x, keys);
                let s = self.read_arr(q, x, keys);
                self.c.ite(c, r, s)
            }
            Term::Call(f, xs) if &*f == "#store" => {
                let ks = &xs[2..];
                let mut e = TRUE;
                for (p, q) in ks.iter().zip(keys) {
                    let y = self.c.eq(*p, *q);
                    e = self.c.and(e, y);
                }
                if e == TRUE {
                    return xs[1];
                }
                let o = self.read_arr(xs[0], x, keys);
                self.c.ite(e, xs[1], o)
            }
            Term::Call(f, xs) if &*f == "#clear" => {
                let ks = &xs[1..];
                let mut e = TRUE;
                for (p, q) in ks.iter().zip(keys) {
                    let y = self.c.eq(*p, *q);
                    e = self.c.and(e, y);
                }
                let n = self.c.ctor0("None");
                if e == TRUE {
                    return n;
                }
                let o = self.read_arr(xs[0], x, keys);
                self.c.ite(e, n, o)
            }
            _ => {
                let mut v = vec![a];
                v.extend_from_slice(keys);
                self.c.call(&format!("#read:{}", x), v)
            }
        }
    }
    pub fn write_store(&mut self, st: &mut State, x: &str, keys: &[Tid], cell: Tid, fr: &Fr, line: usize) {
        let old = self.read_store(st, x, keys);
        if old == cell {
            return;
        }
        let p = self.c.is(cell, "Some");
        let np = self.c.not(p);
        let pc1 = self.c.and(st.pc, p);
        let pc0 = self.c.and(st.pc, np);
        // drop the part of the guard where the cell keeps its old value
        let same = self.same_cell(cell, old);
        let ns = self.c.not(same);
        let pc1 = self.c.and(pc1, ns);
        let pc0 = self.c.and(pc0, ns);
        let pay = self.c.payload(cell, "Some", "0");
        self.emit("set", x.to_string(), keys.to_vec(), Some(pay), pc1, fr, line);
        self.emit("kill", x.to_string(), keys.to_vec(), None, pc0, fr, line);
        let a = self.arr(st, x);
        let mut base = a;
        if let Term::Call(f, xs) = self.c.t(a).clone() {
            if &*f == "#store" && xs[2..] == *keys {
                base = xs[0];
            }
        }
        let mut v = vec![base, cell];
        v.extend_from_slice(keys);
        let n = self.c.call("#store", v);
        st.arr.insert(x.into(), n);
    }
    /// condition under which two gated cells are syntactically the same value
    fn same_cell(&mut self, new: Tid, old: Tid) -> Bid {
        if new == old {
            return TRUE;
        }
        match self.c.t(new).clone() {
            Term::Ite(c, a, b) => {
                let x = self.same_cell(a, old);
                let y = self.same_cell(b, old);
                self.c.bite(c, x, y)
            }
            _ => FALSE,
        }
    }
    // ---------------- calls ----------------
    pub fn fn_ctx(&self, fi: usize) -> Ctx {
        let f = &self.ix.fns[fi];
        Ctx {
            krate: f.krate.clone(),
            self_ty: f.self_ty.clone(),
            fname: match &f.self_ty {
                Some(s) => format!("{}::{}", s, f.name),
                None => f.name.clone(),
            },
            file: f.file.clone(),
            ret: match &f.sig.output {
                syn::ReturnType::Default => Ty::Tuple(vec![]),
                syn::ReturnType::Type(_, t) => self.norm_ty(ty_of_syn(t, f.self_ty.as_deref())),
            },
            modpath: f.modpath.clone(),
        }
    }
    pub fn norm_ty(&self, t: Ty) -> Ty {
        match t {
            Ty::Named(n, a) if n == "DispatchResult" || n == "DispatchResultWithPostInfo" || n == "RpcResult" || n == "TransactionValidity" || n.ends_with("Result") && n != "Result" => named("Result", a),
            Ty::Named(n, a) => {
                // aliases to containers
                if !a.is_empty() && !self.ix.structs.iter().any(|x| x.name == n) {
                    // generic alias of a container
                    let mut al = self.ix.aliases.iter().filter(|x| x.1 == n);
                    if let (Some(x), None) = (al.next(), al.next()) {
                        if matches!(x.2.name(), "Vec" | "Set") && x.3.generics.params.len() == a.len() {
                            return x.2.clone();
                        }
                    }
                }
                if a.is_empty() {
                    // alias of an alias (CanonicalBase = Handle = BoundedVec<..>)
                    if let Some((_, _, Ty::Named(m, b), _)) = self.ix.aliases.iter().find(|x| x.1 == n) {
                        if b.is_empty() && *m != n && width(m) == 0 {
                            if let Some((_, _, t, _)) = self.ix.aliases.iter().find(|x| x.1 == *m && matches!(x.2.name(), "Vec")) {
                                return t.clone();
                            }
                        }
                    }
                    if let Some((_, _, t, _)) = self.ix.aliases.iter().find(|x| x.1 == n && matches!(x.2.name(), "Vec" | "Set" | "Option" | "Result" | "u8" | "u16" | "u32" | "u64" | "u128")) {
                        return t.clone();
                    }
                }
                // aliases of the repository's own structs
                if !self.ix.structs.iter().any(|x| x.name == n) {
                    let mut al = self.ix.aliases.iter().filter(|x| x.1 == n);
                    if let (Some((kr, _, Ty::Named(m, b), _)), None) = (al.next(), al.next()) {
                        if self.ix.structs.iter().any(|x| x.name == *m && x.krate == *kr) {
                            return named(m, b.clone());
                        }
                    }
                }
                Ty::Named(n, a.into_iter().map(|x| self.norm_ty(x)).collect())
            }
            Ty::Tuple(a) => Ty::Tuple(a.into_iter().map(|x| self.norm_ty(x)).collect()),
            t => t,
        }
    }
    fn is_opaque(&self, fi: usize) -> bool {
        let f = &self.ix.fns[fi];
        let q = match &f.self_ty {
            Some(s) => format!("{}::{}", s, f.name),
            None => f.name.clone(),
        };
        self.opaque.contains(&q)
    }
    pub fn invoke(&mut self, fi: usize, args: Vec<V>, st: &mut State, caller: &Fr, line: usize) -> V {
        let f = self.ix.fns[fi].clone();
        let cx = self.fn_ctx(fi);
        let ret = cx.ret.clone();
        if self.spec || self.stack.contains(&fi) || self.stack.len() > self.max_depth || self.is_opaque(fi) {
            let q = match &f.self_ty {
                Some(s) => format!("{}::{}", s, f.name),
                None => f.name.clone(),
            };
            return self.opaque_call(&q, args, ret, st, caller, line);
        }
        self.visited.insert(fi);
        self.stack.push(fi);
        let mut fr = Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown };
        let mut it = args.into_iter();
        for inp in &f.sig.inputs {
            let a = it.next().unwrap_or_else(|| vu(0));
            match inp {
                syn::FnArg::Receiver(rc) => {
                    let muts = rc.mutability.is_some() || rc.reference.is_none();
                    let ty = f.self_ty.clone().map_or(Ty::Unknown, |s| tname(&s));
                    let known = f.self_ty.as_ref().map_or(false, |n| self.ix.structs.iter().any(|x| x.name == *n));
                    let ty = if a.ty == Ty::Unknown || known && a.ty.name() != ty.name() { ty } else { a.ty };
                    let id = self.newvar(st, a.t, ty, muts);
                    fr.env.push(("self".into(), id));
                }
                syn::FnArg::Typed(pt) => {
                    let dty = self.norm_ty(ty_of_syn(&pt.ty, f.self_ty.as_deref()));
                    let ty = self.pick_ty(dty, a.ty, &f.generics);
                    let at = self.refine(a.t, &ty, st, &fr, 0);
                    let _ = self.bind(&pt.pat, at, &ty, st, &mut fr);
                }
            }
        }
        self.note_results(f.block, &ret);
        let r = self.block(f.block, st, &mut fr);
        let mut outs = vec![];
        let rv = r.t;
        outs.push((st.clone(), rv));
        outs.append(&mut fr.returns);
        let (s, t) = self.merge_vals(outs);
        *st = s;
        let t = self.refine(t, &ret, st, &fr, 0);
        self.stack.pop();
        let got = if r.ty == Ty::Unknown { fr.rty } else { r.ty };
        let ty = if matches!(&ret, Ty::Named(n, _) if f.generics.contains(n)) || ret == Ty::Unknown { got } else { ret };
        v(t, ty)
    }
    fn pick_ty(&self, declared: Ty, actual: Ty, generics: &[String]) -> Ty {
        match &declared {
            Ty::Unknown => actual,
            Ty::Named(n, _) if generics.contains(n) => actual,
            Ty::Named(n, a) if a.is_empty() || n == "T" => {
                let _ = n;
                if actual != Ty::Unknown && actual.name() != "" && self.ix.structs.iter().any(|s| s.name == actual.name()) {
                    actual
                } else {
                    declared
                }
            }
            _ => declared,
        }
    }
    fn clean(&mut self, st: &State, t: Tid) -> Tid {
        let t = self.val(st, t);
        if let Term::Closure(_) = self.c.t(t) {
            return self.c.konst("closure");
        }
        t
    }
    pub fn opaque_call(&mut self, name: &str, args: Vec<V>, ret: Ty, st: &mut State, fr: &Fr, line: usize) -> V {
        self.ncalls += 1;
        let ts: Vec<Tid> = args.iter().map(|a| self.clean(st, a.t)).collect();
        self.emit("call", name.to_string(), ts.clone(), None, st.pc, fr, line);
        let t = self.c.call(name, ts.clone());
        // mutable references handed to unknown code are overwritten by it
        for (i, a) in args.iter().enumerate() {
            if let Term::RefMut(vv, p) = self.c.t(a.t).clone() {
                let n = self.c.call(&format!("after:{}#{}", name, i), ts.clone());
                self.write_place(st, vv, &p, n);
            }
        }
        v(t, ret)
    }
    /// apply a closure / function path to arguments
    pub fn apply(&mut self, f: Tid, args: Vec<V>, st: &mut State, fr: &mut Fr, line: usize) -> V {
        let id = match self.c.t(f).clone() {
            Term::Closure(i) => i,
            Term::Ite(c, a, b) => {
                // choice between two closures
                let mut s1 = st.clone();
                let mut s2 = st.clone();
                let nc = self.c.not(c);
                self.assume(&mut s1, c);
                self.assume(&mut s2, nc);
                let x = self.apply(a, args.clone(), &mut s1, fr, line);
                let y = self.apply(b, args, &mut s2, fr, line);
                let (s, t) = self.merge_vals(vec![(s1, x.t), (s2, y.t)]);
                *st = s;
                return v(t, x.ty);
            }
            _ => {
                let mut ts = vec![v(f, Ty::Unknown)];
                ts.extend(args);
                return self.opaque_call("apply", ts, Ty::Unknown, st, fr, line);
            }
        };
        match self.callables[id as usize].clone() {
            Callable::Closure(cl, env, cx) => {
                let ret = match &cl.output {
                    syn::ReturnType::Type(_, t) => self.norm_ty(ty_of_syn(t, cx.self_ty.as_deref())),
                    _ => Ty::Unknown,
                };
                let mut ncx = cx.clone();
                ncx.ret = ret.clone();
                let mut nf = Fr { cx: ncx, env, returns: vec![], loops: vec![], rty: Ty::Unknown };
                if self.stack.len() > self.max_depth {
                    return self.opaque_call("deep", args, Ty::Unknown, st, fr, line);
                }
                self.stack.push(usize::MAX - id as usize);
                let args = if cl.inputs.len() > 1 && args.len() == 1 {
                    // never happens in Rust; keep total
                    args
                } else {
                    args
                };
                for (p, a) in cl.inputs.iter().zip(args) {
                    let ty = a.ty.clone();
                    let _ = self.bind(p, a.t, &ty, st, &mut nf);
                }
                let r = self.ex(&cl.body, st, &mut nf);
                let mut outs = vec![(st.clone(), r.t)];
                outs.append(&mut nf.returns);
                let (s, t) = self.merge_vals(outs);
                *st = s;
                self.stack.pop();
                v(t, if ret == Ty::Unknown { r.ty } else { ret })
            }
            Callable::Path(p, cx) => {
                let mut nf = Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown };
                self.call_path(p, args, st, &mut nf, line)
            }
        }
    }
    // ---------------- consts ----------------
    pub fn const_by_index(&mut self, i: usize) -> Option<V> {
        if let Some(x) = self.const_memo.get(&i) {
            return x.clone();
        }
        if !self.const_busy.insert(i) {
            return None;
        }
        let ci = self.ix.consts[i].clone();
        let cx = Ctx { krate: ci.krate.clone(), self_ty: ci.owner.clone(), fname: format!("const {}", ci.name), file: ci.file.clone(), ret: Ty::Unknown, modpath: vec![] };
        let mut fr = Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown };
        let mut st = self.state();
        self.muted += 1;
        let r = self.ex(ci.expr, &mut st, &mut fr);
        self.muted -= 1;
        self.const_busy.remove(&i);
        let ty = if ci.ty == Ty::Unknown { r.ty } else { self.norm_ty(ci.ty) };
        let out = Some(v(r.t, ty));
        self.const_memo.insert(i, out.clone());
        out
    }
    fn find_const(&mut self, name: &str, owner: Option<&str>, cx: &Ctx) -> Option<V> {
        let cands: Vec<usize> = self
            .ix
            .consts
            .iter()
            .enumerate()
            .filter(|(_, c)| c.name == name && (owner.map_or(true, |o| c.owner.as_deref() == Some(o)) && (owner.is_some() || c.owner.as_deref().map_or(true, |o| o == "parameter_types"))))
            .map(|x| x.0)
            .collect();
        let pick = cands
            .iter()
            .copied()
            .find(|i| self.ix.consts[*i].file == cx.file)
            .or_else(|| cands.iter().copied().find(|i| self.ix.consts[*i].krate == cx.krate))
            .or_else(|| if cands.len() == 1 { Some(cands[0]) } else { None })?;
        self.const_by_index(pick)
    }
    // ---------------- struct info ----------------
    fn struct_info(&self, n: &str, krate: &str) -> Option<&'a StructInfo> {
        let ix = self.ix;
        ix.structs.iter().find(|s| s.name == n && s.krate == krate).or_else(|| ix.structs.iter().find(|s| s.name == n))
    }
    fn field_ty(&self, t: &Ty, f: &str, krate: &str) -> Ty {
        match t {
            Ty::Tuple(a) => f.parse::<usize>().ok().and_then(|i| a.get(i).cloned()).unwrap_or(Ty::Unknown),
            // an external structure's field
            Ty::Unknown if f == "inclusion_fee" => named("Option", vec![named("InclusionFee", vec![])]),
            Ty::Named(n, _) => {
                if let Some(s) = self.struct_info(n, krate) {
                    if let Some((_, t)) = s.fields.iter().find(|x| x.0 == f) {
                        return self.norm_ty(t.clone());
                    }
                } else if f == "inclusion_fee" {
                    return named("Option", vec![named("InclusionFee", vec![])]);
                }
                Ty::Unknown
            }
            _ => Ty::Unknown,
        }
    }
    pub fn elem_ty(&self, t: &Ty) -> Ty {
        match t {
            Ty::Named(n, a) if matches!(n.as_str(), "Vec" | "Set" | "Iter" | "Option" | "Range" | "RangeInclusive") => a.first().cloned().unwrap_or(Ty::Unknown),
            Ty::Named(n, a) if n.contains("Map") && a.len() >= 2 => Ty::Tuple(vec![a[0].clone(), a[1].clone()]),
            _ => Ty::Unknown,
        }
    }
    /// a default value whose type was inferred from the context
    pub fn refine(&mut self, t: Tid, ty: &Ty, st: &mut State, fr: &Fr, d: u32) -> Tid {
        if *ty == Ty::Unknown || d > 10 {
            return t;
        }
        match self.c.t(t).clone() {
            Term::Call(f, xs) if &*f == "default" && matches!(self.c.t(xs[0]), Term::Const(k) if &**k == "?") => {
                let k = fr.cx.krate.clone();
                self.default_of(ty, &k, st, fr)
            }
            Term::Ite(c, a, b) => {
                let x = self.refine(a, ty, st, fr, d + 1);
                let y = self.refine(b, ty, st, fr, d + 1);
                if x == a && y == b {
                    t
                } else {
                    self.c.ite(c, x, y)
                }
            }
            Term::Ctor(n, fs) if fs.len() == 1 && (&*n == "Ok" || &*n == "Some") => {
                let x = self.refine(fs[0].1, &ty.arg(0), st, fr, d + 1);
                if x == fs[0].1 {
                    t
                } else {
                    self.c.ctor1(&n, x)
                }
            }
            Term::Ctor(n, fs) if &*n == "()" => {
                if let Ty::Tuple(ts) = ty {
                    if ts.len() == fs.len() {
                        let xs: Vec<Tid> = fs.iter().zip(ts).map(|(x, y)| self.refine(x.1, y, st, fr, d + 1)).collect();
                        return self.c.tuple(xs);
                    }
                }
                t
            }
            _ => t,
        }
    }
    fn default_of(&mut self, ty: &Ty, krate: &str, st: &mut State, fr: &Fr) -> Tid {
        let ty = &self.norm_ty(ty.clone());
        match ty {
            Ty::Tuple(a) => {
                let xs = a.iter().map(|t| self.default_of(t, krate, st, fr)).collect();
                self.c.tuple(xs)
            }
            Ty::Named(n, _) => {
                if width(n) > 0 && n != "char" && n != "bool" || n.contains("Balance") || n == "BlockNumberFor" || n == "Weight" || matches!(n.as_str(), "EpochNumber" | "BlockNumber") {
                    return self.c.int(0);
                }
                match n.as_str() {
                    "bool" => return self.c.boolt(FALSE),
                    "Option" => return self.c.ctor0("None"),
                    "Vec" | "Set" | "BTreeMap" | "BoundedBTreeMap" | "HashMap" | "String" | "str" | "BitFlags" => return self.c.mk(Term::Ctor("[]".into(), vec![])),
                    _ => {}
                }
                // hand-written Default
                let cand: Vec<usize> = self.ix.by_name.get("default").into_iter().flatten().copied().filter(|i| self.ix.fns[*i].self_ty.as_deref() == Some(n) && self.ix.fns[*i].trait_.as_deref() == Some("Default")).collect();
                let pick = cand.iter().copied().find(|i| self.ix.fns[*i].krate == krate).or(cand.first().copied());
                if let Some(fi) = pick {
                    return self.invoke(fi, vec![], st, fr, 0).t;
                }
                if self.transparent.contains(n) {
                    return self.c.int(0);
                }
                if let Some(s) = self.struct_info(n, krate).cloned() {
                    let mut fs = vec![];
                    for (f, t) in &s.fields {
                        let t = self.norm_ty(t.clone());
                        let d = self.default_of(&t, &s.krate, st, fr);
                        fs.push((Str::from(f.as_str()), d));
                    }
                    fs.sort_by(|a, b| a.0.cmp(&b.0));
                    return self.c.mk(Term::Ctor(n.as_str().into(), fs));
                }
                let k = self.c.konst(n);
                self.c.call("default", vec![k])
            }
            _ => {
                let k = self.c.konst("?");
                self.c.call("default", vec![k])
            }
        }
    }
    // ---------------- patterns ----------------
    fn declare(&mut self, name: String, t: Tid, ty: Ty, m: bool, st: &mut State, fr: &mut Fr) {
        let id = self.newvar(st, t, ty, m);
        fr.env.push((name, id));
    }
    /// bind pattern; returns the condition under which it matches
    pub fn bind(&mut self, p: &'static Pat, t: Tid, ty: &Ty, st: &mut State, fr: &mut Fr) -> Bid {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if let Some((_, sp)) = &i.subpat {
                    let c = self.bind(sp, t, ty, st, fr);
                    self.declare(n, t, ty.clone(), i.mutability.is_some(), st, fr);
                    return c;
                }
                if n.chars().next().map_or(false, |c| c.is_uppercase()) {
                    if let Some(k) = self.find_const(&n, None, &fr.cx.clone()) {
                        let x = self.val(st, t);
                        return self.c.eq(x, k.t);
                    }
                    let x = self.val(st, t);
                    return self.c.is(x, &n);
                }
                self.declare(n, t, ty.clone(), i.mutability.is_some(), st, fr);
                TRUE
            }
            Pat::Wild(_) | Pat::Rest(_) => TRUE,
            Pat::Paren(p) => self.bind(&p.pat, t, ty, st, fr),
            Pat::Reference(r) => {
                let x = self.val(st, t);
                self.bind(&r.pat, x, ty, st, fr)
            }
            Pat::Type(pt) => {
                let d = self.norm_ty(ty_of_syn(&pt.ty, fr.cx.self_ty.as_deref()));
                let d = match &d {
                    Ty::Named(n, a) if a.iter().all(|x| *x == Ty::Unknown) && n == ty.name() => ty.clone(),
                    Ty::Unknown => ty.clone(),
                    _ => d,
                };
                self.bind(&pt.pat, t, &d, st, fr)
            }
            Pat::Tuple(tp) => {
                let rest = tp.elems.iter().position(|e| matches!(e, Pat::Rest(_)));
                let mut c = TRUE;
                let tv = self.val_keep(st, t);
                for (i, e) in tp.elems.iter().enumerate() {
                    if rest.map_or(false, |r| i >= r) {
                        break;
                    }
                    let (x, xt) = self.sub_field(tv, ty, &i.to_string(), &fr.cx.krate);
                    let b = self.bind(e, x, &xt, st, fr);
                    c = self.c.and(c, b);
                }
                if let (Some(r), Ty::Tuple(a)) = (rest, ty) {
                    let k = tp.elems.len() - r - 1;
                    for j in 0..k {
                        let i = a.len().saturating_sub(k) + j;
                        let (x, xt) = self.sub_field(tv, ty, &i.to_string(), &fr.cx.krate);
                        let b = self.bind(&tp.elems[r + 1 + j], x, &xt, st, fr);
                        c = self.c.and(c, b);
                    }
                }
                c
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                let (is_struct, n) = self.variant_name(&n, &ts.path, fr);
                let mut c = if is_struct {
                    TRUE
                } else {
                    let x = self.val(st, t);
                    self.c.is(x, &n)
                };
                for (i, e) in ts.elems.iter().enumerate() {
                    if matches!(e, Pat::Rest(_)) {
                        break;
                    }
                    let f = i.to_string();
                    let (x, xt) = if is_struct {
                        if self.transparent.contains(&n) {
                            (t, ty.clone())
                        } else {
                            self.sub_field(t, ty, &f, &fr.cx.krate)
                        }
                    } else {
                        let xt = match (ty.name(), n.as_str()) {
                            ("Option", "Some") | ("Result", "Ok") => ty.arg(0),
                            ("Result", "Err") => ty.arg(1),
                            _ => self.variant_ty(ty, &n, i),
                        };
                        (self.sub_payload(t, &n, &f), xt)
                    };
                    let b = self.bind(e, x, &xt, st, fr);
                    c = self.c.and(c, b);
                }
                c
            }
            Pat::Struct(ps) => {
                let n = ps.path.segments.last().unwrap().ident.to_string();
                let (is_struct, n) = self.variant_name(&n, &ps.path, fr);
                let mut c = if is_struct {
                    TRUE
                } else {
                    let x = self.val(st, t);
                    self.c.is(x, &n)
                };
                for fp in &ps.fields {
                    let f = match &fp.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let (x, xt) = if is_struct { self.sub_field(t, &if *ty == Ty::Unknown { tname(&n) } else { ty.clone() }, &f, &fr.cx.krate) } else { (self.sub_payload(t, &n, &f), Ty::Unknown) };
                    let b = self.bind(&fp.pat, x, &xt, st, fr);
                    c = self.c.and(c, b);
                }
                c
            }
            Pat::Path(pp) => {
                let x = self.val(st, t);
                let last = pp.path.segments.last().unwrap().ident.to_string();
                if pp.path.segments.len() >= 2 {
                    let owner = pp.path.segments[pp.path.segments.len() - 2].ident.to_string();
                    if last.chars().all(|c| !c.is_lowercase()) {
                        let o = if owner == "Self" { fr.cx.self_ty.clone().unwrap_or_default() } else { owner };
                        if let Some(k) = self.find_const(&last, Some(&o), &fr.cx.clone()) {
                            return self.c.eq(x, k.t);
                        }
                    }
                }
                if last.chars().all(|c| !c.is_lowercase()) {
                    if let Some(k) = self.find_const(&last, None, &fr.cx.clone()) {
                        return self.c.eq(x, k.t);
                    }
                }
                self.c.is(x, &last)
            }
            Pat::Lit(l) => {
                let x = self.val(st, t);
                let k = self.lit(&l.lit);
                self.c.eq(x, k.t)
            }
            Pat::Range(r) => {
                let x = self.val(st, t);
                let mut c = TRUE;
                if let Some(s) = &r.start {
                    let k = self.ex(s, st, fr);
                    let b = self.c.le(k.t, x);
                    c = self.c.and(c, b);
                }
                if let Some(e) = &r.end {
                    let k = self.ex(e, st, fr);
                    let b = match r.limits {
                        syn::RangeLimits::Closed(_) => self.c.le(x, k.t),
                        syn::RangeLimits::HalfOpen(_) => self.c.lt(x, k.t),
                    };
                    c = self.c.and(c, b);
                }
                c
            }
            Pat::Or(o) => {
                // bindings of the alternatives are merged under the alternative's condition
                let mark = fr.env.len();
                let mut c = TRUE;
                let mut acc = FALSE;
                let mut merged: Vec<(String, Tid, Ty)> = vec![];
                for (k, alt) in o.cases.iter().enumerate() {
                    let b = self.bind(alt, t, ty, st, fr);
                    let bound: Vec<(String, u32)> = fr.env.drain(mark..).collect();
                    let na = self.c.not(acc);
                    let here = self.c.and(na, b);
                    for (n, id) in bound {
                        let tv = st.vars[&id];
                        let vt = self.vty[id as usize].clone();
                        if let Some(m) = merged.iter_mut().find(|m| m.0 == n) {
                            let z = self.c.ite(here, tv, m.1);
                            m.1 = z;
                        } else {
                            merged.push((n, tv, vt));
                        }
                    }
                    acc = self.c.or(acc, b);
                    let _ = k;
                }
                c = self.c.and(c, acc);
                for (n, tv, vt) in merged {
                    self.declare(n, tv, vt, false, st, fr);
                }
                c
            }
            Pat::Slice(s) => {
                let x = self.val(st, t);
                let rest = s.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if matches!(&i.subpat, Some((_, p)) if matches!(**p, Pat::Rest(_)))));
                let l = self.len_of(x);
                let n = s.elems.len() as i128;
                let mut c = match rest {
                    None => {
                        let k = self.c.int(n);
                        self.c.eq(l, k)
                    }
                    Some(_) => {
                        let k = self.c.int(n - 1);
                        self.c.le(k, l)
                    }
                };
                let et = self.elem_ty(ty);
                for (i, e) in s.elems.iter().enumerate() {
                    if rest == Some(i) {
                        if let Pat::Ident(id) = e {
                            let k = self.c.int(i as i128);
                            let r = self.c.call("slice_rest", vec![x, k]);
                            self.declare(id.ident.to_string(), r, ty.clone(), false, st, fr);
                        }
                        continue;
                    }
                    let idx = if rest.map_or(false, |r| i > r) {
                        let k = self.c.int(n - i as i128);
                        self.c.arith("sub", l, k)
                    } else {
                        self.c.int(i as i128)
                    };
                    let y = self.index_term(x, idx);
                    let b = self.bind(e, y, &et, st, fr);
                    c = self.c.and(c, b);
                }
                c
            }
            _ => {
                self.unsup("pattern");
                let n = self.c.fresh();
                self.c.atom(Atom::Nondet(n))
            }
        }
    }
    /// keep mutable references intact, otherwise the value
    fn val_keep(&mut self, _st: &State, t: Tid) -> Tid {
        t
    }
    fn variant_ty(&self, ty: &Ty, variant: &str, i: usize) -> Ty {
        if let Some(e) = self.ix.enums.iter().find(|e| e.name == ty.name()) {
            if let Some(vr) = e.item.variants.iter().find(|x| x.ident == variant) {
                if let Some(f) = vr.fields.iter().nth(i) {
                    return self.norm_ty(ty_of_syn(&f.ty, Some(&e.name)));
                }
            }
        }
        Ty::Unknown
    }
    fn variant_name(&self, n: &str, path: &syn::Path, fr: &Fr) -> (bool, String) {
        if n == "Self" {
            return (true, fr.cx.self_ty.clone().unwrap_or_default());
        }
        if matches!(n, "Some" | "Ok" | "Err" | "None") {
            return (false, n.into());
        }
        let is_variant = path.segments.len() >= 2 && {
            let q = path.segments[path.segments.len() - 2].ident.to_string();
            q == "Self" && self.ix.enums.iter().any(|e| Some(&e.name) == fr.cx.self_ty.as_ref()) || q.chars().next().map_or(false, |c| c.is_uppercase()) && !self.ix.structs.iter().any(|s| s.name == n)
        };
        if is_variant {
            return (false, n.into());
        }
        let is_struct = self.ix.structs.iter().any(|s| s.name == n);
        (is_struct, n.into())
    }
    fn sub_field(&mut self, t: Tid, ty: &Ty, f: &str, krate: &str) -> (Tid, Ty) {
        let ft = self.field_ty(ty, f, krate);
        match self.c.t(t).clone() {
            Term::RefMut(vv, mut p) => {
                p.push(Proj::Field(f.into()));
                (self.c.mk(Term::RefMut(vv, p)), ft)
            }
            _ => (self.c.field(t, f), ft),
        }
    }
    fn sub_payload(&mut self, t: Tid, v: &str, f: &str) -> Tid {
        match self.c.t(t).clone() {
            Term::RefMut(vv, mut p) => {
                p.push(Proj::Payload(v.into(), f.into()));
                self.c.mk(Term::RefMut(vv, p))
            }
            _ => self.c.payload(t, v, f),
        }
    }
    pub fn lit(&mut self, l: &syn::Lit) -> V {
        match l {
            syn::Lit::Int(i) => {
                let n = i.base10_parse::<i128>().unwrap_or(-1);
                let ty = if i.suffix().is_empty() { Ty::Unknown } else { tname(i.suffix()) };
                v(self.c.int(n), ty)
            }
            syn::Lit::Bool(b) => v(self.c.boolt(if b.value { TRUE } else { FALSE }), tname("bool")),
            syn::Lit::Str(s) => {
                let t = self.c.mk(Term::Str(s.value().as_str().into()));
                v(t, tname("str"))
            }
            syn::Lit::ByteStr(s) => {
                let t = self.c.mk(Term::Str(String::from_utf8_lossy(&s.value()).as_ref().into()));
                v(t, named("Vec", vec![tname("u8")]))
            }
            syn::Lit::Char(c) => v(self.c.mk(Term::Char(c.value())), tname("char")),
            syn::Lit::Byte(b) => v(self.c.int(b.value() as i128), tname("u8")),
            syn::Lit::Float(f) => vu(self.c.konst(f.base10_digits())),
            _ => vu(self.c.konst("lit")),
        }
    }
    // ---------------- blocks / statements ----------------
    pub fn block(&mut self, b: &'static syn::Block, st: &mut State, fr: &mut Fr) -> V {
        let mark = fr.env.len();
        let mut last = v(self.c.unit(), Ty::Tuple(vec![]));
        let n = b.stmts.len();
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                let hint = self.norm_ty(ty_of_syn(&c.ty, fr.cx.self_ty.as_deref()));
                let mut r = self.ex_hint(&c.expr, st, fr, &hint);
                r.t = self.refine(r.t, &hint, st, fr, 0);
                let id = self.newvar(st, r.t, hint, false);
                fr.env.push((c.ident.to_string(), id));
            }
        }
        for (i, s) in b.stmts.iter().enumerate() {
            last = v(self.c.unit(), Ty::Tuple(vec![]));
            match s {
                syn::Stmt::Local(l) => {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if ends_in_try_into(&init.expr) {
                            let hint = self.used_as(&p.ident.to_string(), &b.stmts[i + 1..], fr);
                            self.note_try(&init.expr, &hint);
                        }
                    }
                    self.local(l, st, fr)
                }
                syn::Stmt::Item(_) => {}
                syn::Stmt::Expr(e, semi) => {
                    let r = self.ex(e, st, fr);
                    if semi.is_none() && i + 1 == n {
                        last = r;
                    }
                }
                syn::Stmt::Macro(m) => {
                    let r = self.mac(&m.mac, st, fr);
                    if m.semi_token.is_none() && i + 1 == n {
                        last = r;
                    }
                }
            }
        }
        fr.env.truncate(mark);
        if st.pc == FALSE {
            let ty = if last.ty == Ty::Tuple(vec![]) { Ty::Unknown } else { last.ty };
            last = v(self.never(), ty);
        }
        last
    }
    fn local(&mut self, l: &'static syn::Local, st: &mut State, fr: &mut Fr) {
        match &l.init {
            None => {
                let n = self.never();
                let _ = self.bind(&l.pat, n, &Ty::Unknown, st, fr);
            }
            Some(init) => {
                let hint = match &l.pat {
                    Pat::Type(pt) => self.norm_ty(ty_of_syn(&pt.ty, fr.cx.self_ty.as_deref())),
                    _ => Ty::Unknown,
                };
                let mut r = self.ex_hint(&init.expr, st, fr, &hint);
                r.t = self.refine(r.t, &hint, st, fr, 0);
                // moving out of a place: plain values are copied, references kept
                match &init.diverge {
                    None => {
                        let _ = self.bind(&l.pat, r.t, &r.ty, st, fr);
                    }
                    Some((_, els)) => {
                        let mut probe = st.clone();
                        let mark = fr.env.len();
                        let c = self.bind(&l.pat, r.t, &r.ty, &mut probe, fr);
                        let bound: Vec<(String, u32)> = fr.env.drain(mark..).collect();
                        let mut s2 = st.clone();
                        let nc = self.c.not(c);
                        self.assume(&mut s2, nc);
                        if s2.pc != FALSE {
                            let _ = self.ex(els, &mut s2, fr);
                        }
                        *st = probe;
                        self.assume(st, c);
                        fr.env.extend(bound);
                    }
                }
            }
        }
    }
    /// the type a local gets from the place it is put in later
    fn used_as(&mut self, x: &str, rest: &'static [syn::Stmt], fr: &Fr) -> Ty {
        struct Uses<'x> {
            x: &'x str,
            fields: Vec<(String, String)>,
            args: Vec<(String, usize)>,
        }
        impl<'x> syn::visit::Visit<'static> for Uses<'x> {
            fn visit_expr_struct(&mut self, s: &'static syn::ExprStruct) {
                for f in &s.fields {
                    if is_ident(&f.expr, self.x) {
                        if let (Some(n), syn::Member::Named(k)) = (s.path.segments.last(), &f.member) {
                            self.fields.push((n.ident.to_string(), k.to_string()));
                        }
                    }
                }
                syn::visit::visit_expr_struct(self, s);
            }
            fn visit_expr_call(&mut self, c: &'static syn::ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    for (i, a) in c.args.iter().enumerate() {
                        if is_ident(a, self.x) {
                            self.args.push((p.path.segments.last().unwrap().ident.to_string(), i));
                        }
                    }
                }
                syn::visit::visit_expr_call(self, c);
            }
        }
        let mut u = Uses { x, fields: vec![], args: vec![] };
        for s in rest {
            syn::visit::Visit::visit_stmt(&mut u, s);
        }
        let krate = fr.cx.krate.clone();
        for (n, k) in u.fields {
            let n = if n == "Self" { fr.cx.self_ty.clone().unwrap_or(n) } else { n };
            let t = self.field_ty(&tname(&n), &k, &krate);
            if t != Ty::Unknown {
                return t;
            }
        }
        for (n, i) in u.args {
            let mut c = self.ix.fns.iter().filter(|f| f.krate == krate && f.name == n);
            if let (Some(f), None) = (c.next(), c.next()) {
                if let Some(syn::FnArg::Typed(pt)) = f.sig.inputs.iter().nth(i) {
                    let t = self.norm_ty(ty_of_syn(&pt.ty, f.self_ty.as_deref()));
                    if t != Ty::Unknown {
                        return t;
                    }
                }
            }
        }
        Ty::Unknown
    }
    /// note the target of a `try_into` whose result reaches a place of this type
    fn note_try(&mut self, e: &'static Expr, hint: &Ty) {
        self.note_ty(e, hint, false);
    }
    /// note the types that conversions and collections in e are inferred to have, when e is a
    /// `ty` (or, with `inner`, a Result or Option of it)
    fn note_ty(&mut self, e: &'static Expr, ty: &Ty, inner: bool) {
        match ty {
            Ty::Unknown => return,
            Ty::Named(n, a) if !inner && matches!(n.as_str(), "Result" | "Option") => {
                if let Some(t) = a.first().cloned() {
                    self.note_ty(e, &t, true);
                }
                return;
            }
            _ => {}
        }
        match e {
            Expr::Try(t) if !inner => self.note_ty(&t.expr, ty, true),
            Expr::Paren(t) => self.note_ty(&t.expr, ty, inner),
            Expr::Match(m) => {
                // `match x { Ok(v) => v, .. }` has the type of `x?`
                for a in &m.arms {
                    if payload_arm(&a.pat, &a.body) {
                        if !inner {
                            self.note_ty(&m.expr, ty, true);
                        }
                    } else {
                        self.note_ty(&a.body, ty, inner);
                    }
                }
            }
            Expr::If(i) => {
                let own = matches!(&*i.cond, Expr::Let(l) if matches!(&i.then_branch.stmts[..], [syn::Stmt::Expr(b, None)] if payload_arm(&l.pat, b)));
                match &*i.cond {
                    Expr::Let(l) if own && !inner => self.note_ty(&l.expr, ty, true),
                    _ => {
                        if let Some(syn::Stmt::Expr(t, None)) = i.then_branch.stmts.last() {
                            self.note_ty(t, ty, inner);
                        }
                    }
                }
                if let Some((_, e)) = &i.else_branch {
                    self.note_ty(e, ty, inner);
                }
            }
            Expr::Block(b) => {
                if let Some(syn::Stmt::Expr(t, None)) = b.block.stmts.last() {
                    self.note_ty(t, ty, inner);
                }
            }
            Expr::Call(c) if inner && c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().map_or(false, |s| s.ident == "Ok" || s.ident == "Some") {
                        self.note_ty(&c.args[0], ty, false);
                    }
                }
            }
            Expr::MethodCall(m) => match (m.method.to_string().as_str(), inner) {
                ("try_into" | "parse", true) if width(ty.name()) > 0 => {
                    self.try_hint.insert(m as *const _ as usize, ty.clone());
                }
                ("collect", _) if m.turbofish.is_none() && !matches!(ty, Ty::Tuple(_)) => {
                    let t = if inner { named("Result", vec![ty.clone()]) } else { ty.clone() };
                    self.try_hint.insert(m as *const _ as usize, t);
                }
                ("map_err" | "ok" | "ok_or" | "ok_or_else", true) => self.note_ty(&m.receiver, ty, true),
                ("unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" | "defensive", false) => self.note_ty(&m.receiver, ty, true),
                _ => {}
            },
            _ => {}
        }
    }
    /// note what the results of a function are inferred to be
    fn note_results(&mut self, b: &'static syn::Block, ret: &Ty) {
        struct Rets(Vec<&'static Expr>);
        impl syn::visit::Visit<'static> for Rets {
            fn visit_expr_return(&mut self, r: &'static syn::ExprReturn) {
                if let Some(e) = &r.expr {
                    self.0.push(e);
                }
                syn::visit::visit_expr_return(self, r);
            }
            fn visit_expr_closure(&mut self, _: &'static syn::ExprClosure) {}
            fn visit_item(&mut self, _: &'static syn::Item) {}
        }
        if *ret == Ty::Unknown {
            return;
        }
        let mut r = Rets(vec![]);
        syn::visit::Visit::visit_block(&mut r, b);
        for e in r.0 {
            self.note_ty(e, ret, false);
        }
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.note_ty(e, ret, false);
        }
    }
    pub fn ex_hint(&mut self, e: &'static Expr, st: &mut State, fr: &mut Fr, hint: &Ty) -> V {
        self.note_try(e, hint);
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.turbofish.is_none() {
                let r = self.ex(&m.receiver, st, fr);
                return self.collect(r, hint, st);
            }
            if matches!(m.method.to_string().as_str(), "into" | "unwrap_or_default") && *hint != Ty::Unknown {
                let mut r = self.ex(e, st, fr);
                if r.ty == Ty::Unknown {
                    r.ty = hint.clone();
                }
                return r;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.last().map_or(false, |s| s == "default") && segs.len() == 2 && segs[0] == "Default" && c.args.is_empty() {
                    let k = fr.cx.krate.clone();
                    let t = self.default_of(hint, &k, st, fr);
                    return v(t, hint.clone());
                }
            }
        }
        self.ex(e, st, fr)
    }
    pub fn line(e: &Expr) -> usize {
        use syn::spanned::Spanned;
        e.span().start().line
    }
    // ---------------- places from expressions ----------------
    fn lookup(&self, fr: &Fr, n: &str) -> Option<u32> {
        fr.env.iter().rev().find(|x| x.0 == n).map(|x| x.1)
    }
    fn place(&mut self, e: &'static Expr, st: &mut State, fr: &mut Fr) -> Option<(u32, Vec<Proj>, Ty)> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                let id = self.lookup(fr, &n)?;
                let ty = self.vty[id as usize].clone();
                let cur = *st.vars.get(&id)?;
                if let Term::RefMut(vv, p) = self.c.t(cur).clone() {
                    return Some((vv, p, ty));
                }
                Some((id, vec![], ty))
            }
            Expr::Field(f) => {
                let (vv, mut p, ty) = self.place(&f.base, st, fr)?;
                let n = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                if n == "0" && self.transparent.contains(ty.name()) {
                    return Some((vv, p, tname("u64")));
                }
                // a place that currently holds a reference
                let cur = self.read_raw(st, vv, &p);
                if let Term::RefMut(v2, p2) = self.c.t(cur).clone() {
                    let mut q = p2;
                    q.push(Proj::Field(n.as_str().into()));
                    let ft = self.field_ty(&ty, &n, &fr.cx.krate);
                    return Some((v2, q, ft));
                }
                p.push(Proj::Field(n.as_str().into()));
                let ft = self.field_ty(&ty, &n, &fr.cx.krate);
                Some((vv, p, ft))
            }
            Expr::Index(i) => {
                let (vv, mut p, ty) = self.place(&i.expr, st, fr)?;
                if matches!(&*i.index, Expr::Range(_)) {
                    return None;
                }
                let k = self.ex(&i.index, st, fr);
                let k = self.val(st, k.t);
                p.push(Proj::Index(k));
                let et = self.elem_ty(&ty);
                Some((vv, p, et))
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.place(&u.expr, st, fr),
            Expr::Paren(p) => self.place(&p.expr, st, fr),
            Expr::Reference(r) => self.place(&r.expr, st, fr),
            Expr::Group(p) => self.place(&p.expr, st, fr),
            _ => None,
        }
    }
    fn read_raw(&mut self, st: &State, var: u32, pr: &[Proj]) -> Tid {
        let mut t = match st.vars.get(&var) {
            Some(t) => *t,
            None => return self.never(),
        };
        for p in pr {
            if let Term::RefMut(..) = self.c.t(t) {
                break;
            }
            t = self.proj(t, p);
        }
        t
    }
    /// how many leaves a choice has, 0 if it has too many or one fails the test
    fn count_leaves(&self, t: Tid, max: usize, ok: &dyn Fn(&Term) -> bool) -> usize {
        match self.c.t(t) {
            Term::Ite(_, a, b) => {
                let x = self.count_leaves(*a, max, ok);
                if x == 0 {
                    return 0;
                }
                let y = self.count_leaves(*b, max, ok);
                if y == 0 || x + y > max {
                    return 0;
                }
                x + y
            }
            x if ok(x) => 1,
            _ => 0,
        }
    }
    pub fn push_item(&mut self, t: Tid, x: Tid) -> Tid {
        match self.c.t(t).clone() {
            Term::Ctor(n, mut fs) if &*n == "[]" => {
                fs.push((Str::from(fs.len().to_string()), x));
                self.c.mk(Term::Ctor("[]".into(), fs))
            }
            Term::Ite(c, a, b) if self.count_leaves(t, 32, &|y| matches!(y, Term::Ctor(n, _) if &**n == "[]")) > 0 => {
                let p = self.push_item(a, x);
                let q = self.push_item(b, x);
                self.c.ite(c, p, q)
            }
            _ => self.c.call("push", vec![t, x]),
        }
    }
    pub fn len_of(&mut self, t: Tid) -> Tid {
        match self.c.t(t).clone() {
            Term::Ctor(n, fs) if &*n == "[]" => self.c.int(fs.len() as i128),
            Term::Str(s) => self.c.int(s.len() as i128),
            Term::Compr(s, _, TRUE, _) => self.len_of(s),
            Term::Ite(c, a, b) => {
                let x = self.len_of(a);
                let y = self.len_of(b);
                self.c.ite(c, x, y)
            }
            Term::Call(f, xs) if &*f == "push" => {
                let l = self.len_of(xs[0]);
                let one = self.c.int(1);
                self.c.arith("add", l, one)
            }
            Term::Call(f, xs) if matches!(&*f, "rev" | "sorted" | "setidx" | "setelems") => self.len_of(xs[0]),
            Term::Call(f, xs) if &*f == "slice" && xs.len() == 3 => self.c.arith("sub", xs[2], xs[1]),
            Term::Call(f, xs) if &*f == "take" && xs.len() == 2 => {
                let l = self.len_of(xs[0]);
                let c = self.c.lt(xs[1], l);
                self.c.ite(c, xs[1], l)
            }
            Term::Call(f, xs) if &*f == "skip" && xs.len() == 2 => {
                let l = self.len_of(xs[0]);
                let left = |ev: &mut Self, i: Tid| {
                    let some = ev.c.lt(i, l);
                    let d = ev.c.arith("sub", l, i);
                    let z = ev.c.int(0);
                    ev.c.ite(some, d, z)
                };
                let mut t = left(self, xs[1]);
                if self.lossy {
                    for j in 0..=self.unroll {
                        let k = self.c.int(j as i128);
                        let q = self.c.eq(xs[1], k);
                        let x = left(self, k);
                        t = self.c.ite(q, x, t);
                    }
                }
                t
            }
            _ => self.c.call("len", vec![t]),
        }
    }
    // ---------------- expressions ----------------
    pub fn ex(&mut self, e: &'static Expr, st: &mut State, fr: &mut Fr) -> V {
        if st.pc == FALSE {
            return vu(self.never());
        }
        match e {
            Expr::Lit(l) => self.lit(&l.lit),
            Expr::Paren(p) => self.ex(&p.expr, st, fr),
            Expr::Group(p) => self.ex(&p.expr, st, fr),
            Expr::Path(p) => self.path_value(p, st, fr),
            Expr::Block(b) => {
                if let Some(l) = &b.label {
                    fr.loops.push(LoopFr { label: Some(l.name.ident.to_string()), breaks: vec![], conts: vec![] });
                    let r = self.block(&b.block, st, fr);
                    let lf = fr.loops.pop().unwrap();
                    let mut outs = vec![(st.clone(), r.t)];
                    outs.extend(lf.breaks);
                    let (s, t) = self.merge_vals(outs);
                    *st = s;
                    return v(t, r.ty);
                }
                self.block(&b.block, st, fr)
            }
            Expr::Unsafe(b) => self.block(&b.block, st, fr),
            Expr::Const(b) => self.block(&b.block, st, fr),
            Expr::Async(b) => self.block(&b.block, st, fr),
            Expr::Await(a) => self.ex(&a.base, st, fr),
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some((vv, p, ty)) = self.place(&r.expr, st, fr) {
                        return v(self.c.mk(Term::RefMut(vv, p)), ty);
                    }
                    let x = self.ex(&r.expr, st, fr);
                    let id = self.newvar(st, x.t, x.ty.clone(), true);
                    return v(self.c.mk(Term::RefMut(id, vec![])), x.ty);
                }
                let x = self.ex(&r.expr, st, fr);
                let t = if let Expr::Path(_) = &*r.expr { x.t } else { x.t };
                v(t, x.ty)
            }
            Expr::Unary(u) => {
                let x = self.ex(&u.expr, st, fr);
                let t = self.val(st, x.t);
                match u.op {
                    syn::UnOp::Deref(_) => v(t, x.ty),
                    syn::UnOp::Not(_) => {
                        if x.ty == tname("bool") || matches!(self.c.t(t), Term::Bool(_)) || width(x.ty.name()) == 0 {
                            let b = self.c.cond(t);
                            let nb = self.c.not(b);
                            v(self.c.boolt(nb), tname("bool"))
                        } else {
                            v(self.c.call("bitnot", vec![t]), x.ty)
                        }
                    }
                    syn::UnOp::Neg(_) => {
                        if let Term::Int(i) = self.c.t(t).clone() {
                            return v(self.c.int(-i), x.ty);
                        }
                        v(self.c.call("neg", vec![t]), x.ty)
                    }
                    _ => vu(t),
                }
            }
            Expr::Binary(b) => self.binary(b, st, fr),
            Expr::Assign(a) => {
                let r = self.ex(&a.right, st, fr);
                let rv = self.val(st, r.t);
                match &*a.left {
                    Expr::Infer(_) => {}
                    Expr::Tuple(t) => {
                        for (i, x) in t.elems.iter().enumerate() {
                            if let Some((vv, p, _)) = self.place(x, st, fr) {
                                let y = self.c.field(rv, &i.to_string());
                                self.write_place(st, vv, &p, y);
                            }
                        }
                    }
                    l => {
                        if let Some((vv, p, _)) = self.place(l, st, fr) {
                            if p.is_empty() {
                                // (re)assignment of a binding that itself is a reference is rare; write through
                            }
                            self.write_place(st, vv, &p, rv);
                        } else {
                            self.unsup("assign target");
                        }
                    }
                }
                v(self.c.unit(), Ty::Tuple(vec![]))
            }
            Expr::Cast(c) => {
                let x = self.ex(&c.expr, st, fr);
                let t = self.val(st, x.t);
                let ty = self.norm_ty(ty_of_syn(&c.ty, fr.cx.self_ty.as_deref()));
                let n = ty.name().to_string();
                // a value known to fit
                let w = width(&n);
                if w > 0 && w < width(x.ty.name()) && n.starts_with('u') && x.ty.name().starts_with('u') && !matches!(self.c.t(t), Term::Int(_)) {
                    let top = self.c.int((1i128 << w) - 1);
                    let fits = self.c.le(t, top);
                    if fits == TRUE || self.c.implies(st.pc, fits) {
                        return v(t, ty);
                    }
                }
                v(self.cast(t, &x.ty, &n), ty)
            }
            Expr::If(i) => {
                let mut r = self.if_(i, st, fr);
                r.t = self.refine(r.t, &r.ty.clone(), st, fr, 0);
                r
            }
            Expr::Let(l) => {
                let x = self.ex(&l.expr, st, fr);
                let c = self.bind(&l.pat, x.t, &x.ty, st, fr);
                v(self.c.boolt(c), tname("bool"))
            }
            Expr::Match(m) => {
                let mut r = self.match_(m, st, fr);
                r.t = self.refine(r.t, &r.ty.clone(), st, fr, 0);
                r
            }
            Expr::Tuple(t) => {
                let xs: Vec<V> = t.elems.iter().map(|e| self.ex(e, st, fr)).collect();
                let tys = xs.iter().map(|x| x.ty.clone()).collect();
                let ts = xs.iter().map(|x| x.t).collect();
                v(self.c.tuple(ts), Ty::Tuple(tys))
            }
            Expr::Array(a) => {
                let xs: Vec<V> = a.elems.iter().map(|e| self.ex(e, st, fr)).collect();
                let et = xs.first().map_or(Ty::Unknown, |x| x.ty.clone());
                let fs = xs.iter().enumerate().map(|(i, x)| (Str::from(i.to_string()), x.t)).collect();
                v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Vec", vec![et]))
            }
            Expr::Repeat(r) => {
                let x = self.ex(&r.expr, st, fr);
                let n = self.ex(&r.len, st, fr);
                let nt = self.val(st, n.t);
                let xt = self.val(st, x.t);
                if let Term::Int(k @ 1..=64) = *self.c.t(nt) {
                    let fs = (0..k).map(|i| (Str::from(i.to_string()), xt)).collect();
                    return v(self.c.mk(Term::Ctor("[]".into(), fs)), named("Vec", vec![x.ty]));
                }
                v(self.c.call("repeat", vec![xt, nt]), named("Vec", vec![x.ty]))
            }
            Expr::Struct(s) => self.struct_lit(s, st, fr),
            Expr::Field(f) => {
                let n = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let b = self.ex(&f.base, st, fr);
                if n == "0" && self.transparent.contains(b.ty.name()) {
                    return v(self.val(st, b.t), tname("u64"));
                }
                let ft = self.field_ty(&b.ty, &n, &fr.cx.krate);
                let bt = self.val(st, b.t);
                let t = self.c.field(bt, &n);
                v(t, ft)
            }
            Expr::Index(i) => {
                let b = self.ex(&i.expr, st, fr);
                let bt = self.val(st, b.t);
                if let Expr::Range(r) = &*i.index {
                    let s = match &r.start {
                        Some(x) => {
                            let y = self.ex(x, st, fr).t;
                            self.val(st, y)
                        }
                        None => self.c.int(0),
                    };
                    let e2 = match &r.end {
                        Some(x) => {
                            let y = self.ex(x, st, fr).t;
                            let y = self.val(st, y);
                            if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                                let one = self.c.int(1);
                                self.c.arith("add", y, one)
                            } else {
                                y
                            }
                        }
                        None => self.len_of(bt),
                    };
                    let l = self.len_of(bt);
                    let o1 = self.c.lt(l, e2);
                    let o2 = self.c.lt(e2, s);
                    let bad = self.c.or(o1, o2);
                    let pc = self.c.and(st.pc, bad);
                    self.emit("panic", "slice".into(), vec![bt, s, e2], None, pc, fr, Self::line(e));
                    let t = self.slice_term(bt, s, e2);
                    return v(t, b.ty);
                }
                let k = self.ex(&i.index, st, fr);
                let k = self.val(st, k.t);
                let et = self.elem_ty(&b.ty);
                let l = self.len_of(bt);
                let bad = self.c.le(l, k);
                let pc = self.c.and(st.pc, bad);
                self.emit("panic", "index".into(), vec![bt, k], None, pc, fr, Self::line(e));
                v(self.index_term(bt, k), et)
            }
            Expr::Range(r) => {
                let s = match &r.start {
                    Some(x) => self.ex(x, st, fr),
                    None => vu(self.c.int(0)),
                };
                let e2 = match &r.end {
                    Some(x) => self.ex(x, st, fr),
                    None => vu(self.c.konst("unbounded")),
                };
                let n = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "RangeInclusive" } else { "Range" };
                let st_ = self.val(st, s.t);
                let et_ = self.val(st, e2.t);
                let ty = if s.ty != Ty::Unknown { s.ty } else { e2.ty };
                let t = self.c.mk(Term::Ctor(n.into(), vec![("end".into(), et_), ("start".into(), st_)]));
                v(t, named(n, vec![ty]))
            }
            Expr::Return(r) => {
                let x = match &r.expr {
                    Some(x) => {
                        let y = self.ex(x, st, fr);
                        if fr.rty == Ty::Unknown {
                            fr.rty = y.ty.clone();
                        }
                        self.val(st, y.t)
                    }
                    None => self.c.unit(),
                };
                if st.pc != FALSE {
                    fr.returns.push((st.clone(), x));
                }
                st.pc = FALSE;
                vu(self.never())
            }
            Expr::Break(b) => {
                let x = match &b.expr {
                    Some(x) => self.ex(x, st, fr).t,
                    None => self.c.unit(),
                };
                let lab = b.label.as_ref().map(|l| l.ident.to_string());
                if let Some(l) = fr.loops.iter_mut().rev().find(|l| lab.is_none() || l.label == lab) {
                    l.breaks.push((st.clone(), x));
                }
                st.pc = FALSE;
                vu(self.never())
            }
            Expr::Continue(c) => {
                let lab = c.label.as_ref().map(|l| l.ident.to_string());
                if let Some(l) = fr.loops.iter_mut().rev().find(|l| lab.is_none() || l.label == lab) {
                    l.conts.push(st.clone());
                }
                st.pc = FALSE;
                vu(self.never())
            }
            Expr::Try(t) => {
                let x = self.ex(&t.expr, st, fr);
                let tv = self.val(st, x.t);
                self.question(tv, &x.ty, x.t, st, fr)
            }
            Expr::Macro(m) => self.mac(&m.mac, st, fr),
            Expr::Closure(c) => {
                let id = self.callables.len() as u32;
                self.callables.push(Callable::Closure(c, fr.env.clone(), fr.cx.clone()));
                v(self.c.mk(Term::Closure(id)), tname("closure"))
            }
            Expr::Call(c) => {
                let args: Vec<V>;
                match &*c.func {
                    Expr::Path(p) => {
                        // local closure variable
                        if p.path.segments.len() == 1 && p.qself.is_none() {
                            let n = p.path.segments[0].ident.to_string();
                            if let Some(id) = self.lookup(fr, &n) {
                                let f = st.vars[&id];
                                args = c.args.iter().map(|a| self.ex(a, st, fr)).collect();
                                return self.apply(f, args, st, fr, Self::line(e));
                            }
                        }
                        args = c.args.iter().map(|a| self.ex(a, st, fr)).collect();
                        if st.pc == FALSE {
                            return vu(self.never());
                        }
                        self.call_path(p, args, st, fr, Self::line(e))
                    }
                    f => {
                        let fv = self.ex(f, st, fr);
                        args = c.args.iter().map(|a| self.ex(a, st, fr)).collect();
                        self.apply(fv.t, args, st, fr, Self::line(e))
                    }
                }
            }
            Expr::MethodCall(m) => self.method(m, st, fr),
            Expr::ForLoop(f) => {
                let src = self.ex(&f.expr, st, fr);
                let line = Self::line(e);
                let pat = &f.pat;
                let body = &f.body;
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                self.iterate(
                    src,
                    label,
                    st,
                    fr,
                    &mut |ev, el, s, fr| {
                        let mark = fr.env.len();
                        let _ = ev.bind(pat, el.t, &el.ty, s, fr);
                        ev.block(body, s, fr);
                        fr.env.truncate(mark);
                    },
                    line,
                );
                v(self.c.unit(), Ty::Tuple(vec![]))
            }
            Expr::While(w) => {
                // `while let Some(p) = it.next()` with an iterator used for nothing else is a `for`
                if let Some((pat, it)) = next_loop(w) {
                    let src = self.ex(it, st, fr);
                    let line = Self::line(e);
                    let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                    let body = &w.body;
                    self.iterate(
                        src,
                        label,
                        st,
                        fr,
                        &mut |ev, el, s, fr| {
                            let mark = fr.env.len();
                            let _ = ev.bind(pat, el.t, &el.ty, s, fr);
                            ev.block(body, s, fr);
                            fr.env.truncate(mark);
                        },
                        line,
                    );
                    if let Some((vv, p, _)) = self.place(it, st, fr) {
                        let h = self.c.fresh();
                        let left = self.c.mk(Term::Havoc(h));
                        self.write_place(st, vv, &p, left);
                    }
                    return v(self.c.unit(), Ty::Tuple(vec![]));
                }
                // summarised like an unbounded iteration whose element is unknown
                let h = self.c.fresh();
                let src = self.c.mk(Term::Havoc(h));
                let cond = &*w.cond;
                let body = &w.body;
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                let line = Self::line(e);
                self.iterate(
                    vu(src),
                    label,
                    st,
                    fr,
                    &mut |ev, _el, s, fr| {
                        let mark = fr.env.len();
                        let c = ev.ex(cond, s, fr);
                        let ct = ev.val(s, c.t);
                        let cb = ev.c.cond(ct);
                        let mut skip = s.clone();
                        let nc = ev.c.not(cb);
                        ev.assume(&mut skip, nc);
                        ev.assume(s, cb);
                        ev.block(body, s, fr);
                        fr.env.truncate(mark);
                        if ev.unroll > 0 {
                            let unit = ev.c.unit();
                            if let Some(l) = fr.loops.last_mut() {
                                l.breaks.push((skip, unit));
                            }
                            return;
                        }
                        let a = s.clone();
                        *s = ev.merge(a, skip);
                    },
                    line,
                );
                v(self.c.unit(), Ty::Tuple(vec![]))
            }
            Expr::Loop(w) => {
                let h = self.c.fresh();
                let src = self.c.mk(Term::Havoc(h));
                let body = &w.body;
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                let line = Self::line(e);
                let t = self.iterate(
                    vu(src),
                    label,
                    st,
                    fr,
                    &mut |ev, _el, s, fr| {
                        ev.block(body, s, fr);
                    },
                    line,
                );
                vu(t)
            }
            _ => {
                self.unsup("expr");
                let n = self.c.fresh();
                vu(self.c.mk(Term::Havoc(n)))
            }
        }
    }
    pub fn cast(&mut self, t: Tid, from: &Ty, to: &str) -> Tid {
        let from_n = match self.norm_ty(from.clone()) {
            Ty::Named(n, _) => n,
            _ => String::new(),
        };
        let to_n = match self.norm_ty(tname(to)) {
            Ty::Named(n, _) => n,
            _ => to.to_string(),
        };
        if let Term::Char(c) = self.c.t(t).clone() {
            return self.c.int(c as i128);
        }
        if let Term::Int(i) = self.c.t(t).clone() {
            let w = width(&to_n);
            if w > 0 && w < 128 && to_n.starts_with('u') && i >= 0 {
                return self.c.int(i & ((1i128 << w) - 1));
            }
            return t;
        }
        if let Term::Bool(b) = self.c.t(t).clone() {
            let (o, z) = (self.c.int(1), self.c.int(0));
            return self.c.ite(b, o, z);
        }
        if let (Term::Ite(c, a, b), true) = (self.c.t(t).clone(), self.count_leaves(t, 16, &|x| matches!(x, Term::Int(_)) || matches!(x, Term::Call(f, _) if &**f == "len")) > 0) {
            let x = self.cast(a, from, to);
            let y = self.cast(b, from, to);
            return self.c.ite(c, x, y);
        }
        let (wf, wt) = (width(&from_n), width(&to_n));
        // in-memory lengths fit in 32 bits
        if wt >= 32 && matches!(self.c.t(t), Term::Call(f, _) if &**f == "len") {
            return t;
        }
        if NARROW.contains(&to_n.as_str()) {
            if wf > 0 && wf <= wt {
                return t;
            }
            return self.c.call(&format!("as_{}", to_n), vec![t]);
        }
        if wf > 0 && wt > 0 && wf > wt {
            return self.c.call(&format!("as_{}", to_n), vec![t]);
        }
        t
    }
    fn good_variant(&self, t: Tid, ty: &Ty) -> Option<&'static str> {
        match ty.name() {
            "Option" => return Some("Some"),
            "Result" => return Some("Ok"),
            _ => {}
        }
        match self.c.t(t) {
            Term::Ctor(n, _) => match &**n {
                "Some" | "None" => Some("Some"),
                "Ok" | "Err" => Some("Ok"),
                _ => None,
            },
            Term::Ite(_, a, b) => self.good_variant(*a, &Ty::Unknown).or(self.good_variant(*b, &Ty::Unknown)),
            Term::Read(..) => Some("Some"),
            _ => None,
        }
    }
    fn question(&mut self, tv: Tid, ty: &Ty, raw: Tid, st: &mut State, fr: &mut Fr) -> V {
        let g = self.good_variant(tv, ty).unwrap_or(if fr.cx.ret.name() == "Option" { "Some" } else { "Ok" });
        let ok = self.c.is(tv, g);
        let nok = self.c.not(ok);
        let mut s2 = st.clone();
        self.assume(&mut s2, nok);
        if s2.pc != FALSE {
            let rv = if g == "Some" {
                self.c.ctor0("None")
            } else {
                let e = self.c.payload(tv, "Err", "0");
                self.c.ctor1("Err", e)
            };
            fr.returns.push((s2, rv));
        }
        self.assume(st, ok);
        if st.pc == FALSE {
            return vu(self.never());
        }
        // keep mutable references inside Some(&mut x)
        let p = if self.has_ref(raw) { self.c.payload(raw, g, "0") } else { self.c.payload(tv, g, "0") };
        let pt = if matches!(ty.name(), "Option" | "Result") { ty.arg(0) } else { Ty::Unknown };
        v(p, pt)
    }
    fn struct_lit(&mut self, s: &'static syn::ExprStruct, st: &mut State, fr: &mut Fr) -> V {
        let mut n = s.path.segments.last().unwrap().ident.to_string();
        if n == "Self" {
            n = fr.cx.self_ty.clone().unwrap_or(n);
        }
        let mut fs: Vec<(Str, Tid)> = vec![];
        for f in &s.fields {
            let k = match &f.member {
                syn::Member::Named(i) => i.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let hint = self.field_ty(&tname(&n), &k, &fr.cx.krate);
            let x = self.ex_hint(&f.expr, st, fr, &hint);
            let t = self.val(st, x.t);
            let t = if let Term::RefMut(..) = self.c.t(x.t) { x.t } else { t };
            fs.push((k.as_str().into(), t));
        }
        if let Some(r) = &s.rest {
            let b = self.ex_hint(r, st, fr, &tname(&n));
            let bt = self.val(st, b.t);
            if let Some(info) = self.struct_info(&n, &fr.cx.krate).cloned() {
                for (f, _) in &info.fields {
                    if !fs.iter().any(|x| &*x.0 == f.as_str()) {
                        let y = self.c.field(bt, f);
                        fs.push((f.as_str().into(), y));
                    }
                }
            } else {
                let mut t = bt;
                for (k, x) in fs {
                    t = self.c.update(t, &k, x);
                }
                return v(t, tname(&n));
            }
        }
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        v(self.c.mk(Term::Ctor(n.as_str().into(), fs)), tname(&n))
    }
    fn cond_ex(&mut self, e: &'static Expr, st: &mut State, fr: &mut Fr) -> Bid {
        // condition with let-chains: bindings stay visible in fr.env
        match e {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let l = self.cond_ex(&b.left, st, fr);
                let mut s2 = st.clone();
                self.assume(&mut s2, l);
                if s2.pc == FALSE {
                    return FALSE;
                }
                let r = self.cond_ex(&b.right, &mut s2, fr);
                let keep = s2.pc;
                let _ = keep;
                // state effects of the right operand
                let mut s1 = st.clone();
                let nl = self.c.not(l);
                self.assume(&mut s1, nl);
                *st = self.merge(s1, s2);
                self.c.and(l, r)
            }
            Expr::Paren(p) => self.cond_ex(&p.expr, st, fr),
            _ => {
                let x = self.ex(e, st, fr);
                if st.pc == FALSE {
                    return FALSE;
                }
                let t = self.val(st, x.t);
                self.c.cond(t)
            }
        }
    }
    fn if_(&mut self, i: &'static syn::ExprIf, st: &mut State, fr: &mut Fr) -> V {
        let mark = fr.env.len();
        let c = self.cond_ex(&i.cond, st, fr);
        let mut s1 = st.clone();
        self.assume(&mut s1, c);
        let mut s2 = st.clone();
        let nc = self.c.not(c);
        self.assume(&mut s2, nc);
        let mut r1 = vu(self.never());
        if s1.pc != FALSE {
            r1 = self.block(&i.then_branch, &mut s1, fr);
        }
        fr.env.truncate(mark);
        let mut r2 = v(self.c.unit(), Ty::Tuple(vec![]));
        if s2.pc != FALSE {
            if let Some((_, e)) = &i.else_branch {
                r2 = self.ex(e, &mut s2, fr);
            }
        }
        let live1 = s1.pc != FALSE;
        let (s, t) = self.merge_vals(vec![(s1, r1.t), (s2, r2.t)]);
        *st = s;
        v(t, if live1 && r1.ty != Ty::Unknown { r1.ty } else { r2.ty })
    }
    fn match_(&mut self, m: &'static syn::ExprMatch, st: &mut State, fr: &mut Fr) -> V {
        let x = self.ex(&m.expr, st, fr);
        if st.pc == FALSE {
            return vu(self.never());
        }
        let mut outs = vec![];
        let mut rem = st.clone();
        let mut ty = Ty::Unknown;
        let n = m.arms.len();
        let mut cover = FALSE;
        for (i, arm) in m.arms.iter().enumerate() {
            if rem.pc == FALSE {
                // the arms so far cover every value that reaches here
                let npc = self.c.not(st.pc);
                cover = self.c.or(cover, npc);
                break;
            }
            let mark = fr.env.len();
            let mut s = rem.clone();
            let c = self.bind(&arm.pat, x.t, &x.ty, &mut s, fr);
            if arm.guard.is_none() {
                cover = self.c.or(cover, c);
            }
            let pre = rem.pc;
            self.assume(&mut s, c);
            let mut cc = c;
            if let Some((_, g)) = &arm.guard {
                if s.pc != FALSE {
                    let gb = self.cond_ex(g, &mut s, fr);
                    self.assume(&mut s, gb);
                    cc = self.c.and(cc, gb);
                }
            }
            let last = i + 1 == n && arm.guard.is_none();
            if last {
                // exhaustive: the final arm takes everything left
                s.pc = rem.pc;
                rem.pc = FALSE;
            } else {
                let ncc = self.c.not(cc);
                rem.pc = self.c.and(pre, ncc);
            }
            if s.pc == FALSE {
                fr.env.truncate(mark);
                continue;
            }
            let r = self.ex(&arm.body, &mut s, fr);
            fr.env.truncate(mark);
            if ty == Ty::Unknown && s.pc != FALSE {
                ty = r.ty;
            }
            outs.push((s, r.t));
        }
        if cover != TRUE && cover != FALSE && m.arms.iter().all(|a| a.guard.is_none()) {
            self.axioms.push(cover);
        }
        let (s, t) = self.merge_vals(outs);
        *st = s;
        v(t, ty)
    }
    fn binary(&mut self, b: &'static syn::ExprBinary, st: &mut State, fr: &mut Fr) -> V {
        use syn::BinOp::*;
        let line = 0usize;
        let _ = line;
        match b.op {
            And(_) | Or(_) => {
                let is_and = matches!(b.op, And(_));
                let l = self.ex(&b.left, st, fr);
                if st.pc == FALSE {
                    return l;
                }
                let lt = self.val(st, l.t);
                let lc = self.c.cond(lt);
                let go = if is_and { lc } else { self.c.not(lc) };
                let mut s2 = st.clone();
                self.assume(&mut s2, go);
                let mut s1 = st.clone();
                let ngo = self.c.not(go);
                self.assume(&mut s1, ngo);
                let rc = if s2.pc == FALSE {
                    if is_and {
                        FALSE
                    } else {
                        TRUE
                    }
                } else {
                    let r = self.ex(&b.right, &mut s2, fr);
                    let rt = self.val(&s2, r.t);
                    self.c.cond(rt)
                };
                *st = self.merge(s1, s2);
                let c = if is_and { self.c.and(lc, rc) } else { self.c.or(lc, rc) };
                return v(self.c.boolt(c), tname("bool"));
            }
            _ => {}
        }
        let l = self.ex(&b.left, st, fr);
        let r = self.ex(&b.right, st, fr);
        if st.pc == FALSE {
            return vu(self.never());
        }
        let (x, y) = (self.val(st, l.t), self.val(st, r.t));
        let ty = if l.ty != Ty::Unknown { l.ty.clone() } else { r.ty.clone() };
        // a flag joins a set of flags
        if ty.name() == "BitFlags" && matches!(b.op, BitOr(_) | BitOrAssign(_)) {
            let (set, one) = if l.ty.name() == "BitFlags" { (x, &r) } else { (y, &l) };
            let o = if set == x { y } else { x };
            let n = self.c.call(if one.ty.name() == "BitFlags" { "concat" } else { "push" }, vec![set, o]);
            if matches!(b.op, BitOrAssign(_)) {
                if let Some((vv, p, _)) = self.place(&b.left, st, fr) {
                    self.write_place(st, vv, &p, n);
                }
                return v(self.c.unit(), Ty::Tuple(vec![]));
            }
            return v(n, ty);
        }
        let bool_v = |ev: &mut Self, b: Bid| v(ev.c.boolt(b), tname("bool"));
        match b.op {
            Eq(_) => {
                let e = self.c.eq(x, y);
                bool_v(self, e)
            }
            Ne(_) => {
                let e = self.c.eq(x, y);
                let n = self.c.not(e);
                bool_v(self, n)
            }
            Lt(_) => {
                let e = self.c.lt(x, y);
                bool_v(self, e)
            }
            Gt(_) => {
                let e = self.c.lt(y, x);
                bool_v(self, e)
            }
            Le(_) => {
                let e = self.c.le(x, y);
                bool_v(self, e)
            }
            Ge(_) => {
                let e = self.c.le(y, x);
                bool_v(self, e)
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                let op = match b.op {
                    AddAssign(_) => "add",
                    SubAssign(_) => "sub",
                    MulAssign(_) => "mul",
                    DivAssign(_) => "div",
                    RemAssign(_) => "rem",
                    BitOrAssign(_) => "bitor",
                    BitAndAssign(_) => "bitand",
                    BitXorAssign(_) => "bitxor",
                    ShlAssign(_) => "shl",
                    _ => "shr",
                };
                let nv = self.bin_arith(op, x, y, &ty, st, fr, Self::line(&b.left));
                if let Some((vv, p, _)) = self.place(&b.left, st, fr) {
                    self.write_place(st, vv, &p, nv);
                }
                v(self.c.unit(), Ty::Tuple(vec![]))
            }
            _ => {
                let op = match b.op {
                    Add(_) => "add",
                    Sub(_) => "sub",
                    Mul(_) => "mul",
                    Div(_) => "div",
                    Rem(_) => "rem",
                    BitAnd(_) => "bitand",
                    BitOr(_) => "bitor",
                    BitXor(_) => "bitxor",
                    Shl(_) => "shl",
                    Shr(_) => "shr",
                    _ => "op",
                };
                let t = self.bin_arith(op, x, y, &ty, st, fr, Self::line(&b.left));
                v(t, ty)
            }
        }
    }
    fn bin_arith(&mut self, op: &str, x: Tid, y: Tid, ty: &Ty, st: &State, fr: &Fr, line: usize) -> Tid {
        let isb = matches!(self.c.t(x), Term::Bool(_)) || *ty == tname("bool");
        if isb && op.starts_with("bit") {
            let (p, q) = (self.c.cond(x), self.c.cond(y));
            let r = match op {
                "bitand" => self.c.and(p, q),
                "bitor" => self.c.or(p, q),
                _ => {
                    let e = self.c.biff(p, q);
                    self.c.not(e)
                }
            };
            return self.c.boolt(r);
        }
        if matches!(op, "add" | "sub" | "mul" | "div" | "rem" | "shl" | "shr") && !(matches!(self.c.t(x), Term::Int(_)) && matches!(self.c.t(y), Term::Int(_))) {
            self.emit("arith", op.to_string(), vec![x, y], None, st.pc, fr, line);
        }
        if op == "add" && ty.name() == "String" {
            return self.c.cat(&[x, y]);
        }
        self.c.arith(op, x, y)
    }
    // ---------------- loops ----------------
    pub fn gen_of(&mut self, s: Tid) -> (Tid, u32, Bid, Tid) {
        // the characters of a string collected from a character iterator are that iterator
        if let Term::Call(f, xs) = self.c.t(s).clone() {
            if &*f == "chars" && matches!(self.c.t(xs[0]), Term::Compr(..)) {
                return self.gen_of(xs[0]);
            }
        }
        match self.c.t(s).clone() {
            Term::Compr(b, l, c, vv) => {
                let n = self.active.iter().filter(|a| a.0 == b).count() as u32;
                if self.active.contains(&(b, l)) || l < n {
                    let e1 = self.c.mk(Term::Elem(b, l));
                    let e2 = self.c.mk(Term::Elem(b, n.max(l)));
                    if e1 != e2 {
                        let c2 = self.c.subst_bdd(c, e1, e2);
                        let v2 = self.c.subst(vv, e1, e2);
                        return (b, n.max(l), c2, v2);
                    }
                }
                (b, l, c, vv)
            }
            Term::Ite(g, a, b) if matches!(self.c.t(b), Term::Ctor(n, fs) if &**n == "[]" && fs.is_empty()) => {
                let (base, l, c, e) = self.gen_of(a);
                let c = self.c.and(c, g);
                (base, l, c, e)
            }
            Term::Ite(g, a, b) if matches!(self.c.t(a), Term::Ctor(n, fs) if &**n == "[]" && fs.is_empty()) => {
                let (base, l, c, e) = self.gen_of(b);
                let ng = self.c.not(g);
                let c = self.c.and(c, ng);
                (base, l, c, e)
            }
            _ => {
                let n = self.active.iter().filter(|a| a.0 == s).count() as u32;
                let e = self.c.mk(Term::Elem(s, n));
                (s, n, TRUE, e)
            }
        }
    }
    /// elements of a map are (key, value stored under that key)
    pub fn map_elem(&mut self, ty: &Ty, base: Tid, elem: Tid) -> Tid {
        if ty.name().contains("Map") && matches!(self.c.t(elem), Term::Elem(b, _) if *b == base) {
            let k = self.c.field(elem, "0");
            let x = self.c.call("index", vec![base, k]);
            return self.c.tuple(vec![k, x]);
        }
        elem
    }
    pub fn compr(&mut self, b: Tid, l: u32, c: Bid, val: Tid) -> Tid {
        let e = self.c.mk(Term::Elem(b, l));
        if c == TRUE && e == val {
            return b;
        }
        if c == FALSE {
            return self.c.mk(Term::Ctor("[]".into(), vec![]));
        }
        if let Some((p, c1, c0)) = self.c.invariant_split(e, c) {
            let x = self.compr(b, l, c1, val);
            let y = self.compr(b, l, c0, val);
            return self.c.ite(p, x, y);
        }
        // normalise the binder level when nothing else uses it
        if l > 0 && !self.active.iter().any(|a| a.0 == b) {
            let e0 = self.c.mk(Term::Elem(b, 0));
            let c2 = self.c.subst_bdd(c, e, e0);
            let v2 = self.c.subst(val, e, e0);
            return self.c.mk(Term::Compr(b, 0, c2, v2));
        }
        self.c.mk(Term::Compr(b, l, c, val))
    }
    /// the keys of a map built by insertions into an empty one
    fn keys_put_in(&self, m: Tid) -> Option<Vec<Tid>> {
        match self.c.t(m) {
            Term::Ctor(n, fs) if &**n == "[]" && fs.is_empty() => Some(vec![]),
            Term::Call(f, xs) if matches!(&**f, "setidx" | "mapins") => {
                let mut v = self.keys_put_in(xs[0])?;
                if !v.contains(&xs[1]) {
                    v.push(xs[1]);
                }
                Some(v)
            }
            _ => None,
        }
    }
    /// one of several written-out lists
    fn literal(&self, m: Tid) -> bool {
        match self.c.t(m) {
            Term::Ite(_, x, y) => self.literal(*x) && self.literal(*y),
            Term::Ctor(n, fs) => &**n == "[]" && fs.len() <= 8,
            _ => false,
        }
    }
    /// a map built by insertions, at least one on some branch
    fn mapped(&self, m: Tid) -> bool {
        match self.c.t(m) {
            Term::Ite(_, x, y) => (self.mapped(*x) || self.literal(*x)) && (self.mapped(*y) || self.literal(*y)) && (self.mapped(*x) || self.mapped(*y)),
            Term::Call(..) => self.keys_put_in(m).is_some(),
            _ => false,
        }
    }
    fn filled(&self, m: Tid) -> bool {
        match self.c.t(m) {
            Term::Ite(_, x, y) => self.filled(*x) && self.filled(*y),
            Term::Call(..) => self.keys_put_in(m).is_some(),
            _ => false,
        }
    }
    fn is_symbolic_range(&self, s: Tid) -> bool {
        matches!(self.c.t(s), Term::Ctor(n, _) if matches!(&**n, "Range" | "RangeInclusive"))
    }
    fn concrete(&mut self, s: Tid) -> Option<Vec<Tid>> {
        match self.c.t(s).clone() {
            Term::Ctor(n, fs) if &*n == "[]" && fs.len() <= 64 => Some(fs.iter().map(|x| x.1).collect()),
            Term::Ctor(n, _) if matches!(&*n, "Range" | "RangeInclusive") => {
                let (a, b) = (self.c.field(s, "start"), self.c.field(s, "end"));
                let (Term::Int(a), Term::Int(b)) = (self.c.t(a).clone(), self.c.t(b).clone()) else { return None };
                let b = if &*n == "RangeInclusive" { b + 1 } else { b };
                if b - a > 16 {
                    return None;
                }
                Some((a..b).map(|i| self.c.int(i)).collect())
            }
            _ => None,
        }
    }
    /// no execution has more elements than were walked
    fn whole(&mut self, st: &State, lost: Bid) -> bool {
        let x = self.c.and(st.pc, lost);
        !self.c.sat(x)
    }
    /// the list of the walked elements
    pub fn listed(&mut self, s: Tid, st: &mut State) -> Option<Tid> {
        let (l, lost) = self.listing(s)?;
        let more = self.c.and(st.pc, lost);
        self.lost = self.c.or(self.lost, more);
        let done = self.c.not(lost);
        self.assume(st, done);
        Some(l)
    }
    fn listing(&mut self, s: Tid) -> Option<(Tid, Bid)> {
        if let Term::Ite(c, x, y) = self.c.t(s).clone() {
            let (a, la) = self.listing(x)?;
            let (b, lb) = self.listing(y)?;
            let nc = self.c.not(c);
            let (p, q) = (self.c.and(c, la), self.c.and(nc, lb));
            return Some((self.c.ite(c, a, b), self.c.or(p, q)));
        }
        let (xs, lost) = self.walk(s)?;
        let mut l = self.c.mk(Term::Ctor("[]".into(), vec![]));
        for (here, x) in xs {
            let m = self.push_item(l, x);
            l = self.c.ite(here, m, l);
        }
        Some((l, lost))
    }
    /// the integer after one of several written-out ones
    fn next_int(&mut self, n: Tid) -> Tid {
        if let Term::Ite(c, x, y) = self.c.t(n).clone() {
            let (a, b) = (self.next_int(x), self.next_int(y));
            return self.c.ite(c, a, b);
        }
        let one = self.c.int(1);
        self.c.arith("add", n, one)
    }
    fn walkable(&mut self, s: Tid, map: bool, st: &State) -> bool {
        match self.c.t(s).clone() {
            Term::Ite(_, x, y) => self.walkable(x, map, st) && self.walkable(y, map, st),
            _ if self.concrete(s).is_some() || self.is_symbolic_range(s) => true,
            _ if map => self.keys_put_in(s).is_some(),
            _ => self.walk(s).map_or(false, |w| self.lossy || self.whole(st, w.1)),
        }
    }
    /// the first elements of a list and the condition that there are more
    fn walk(&mut self, s: Tid) -> Option<(Vec<(Tid, Tid)>, Tid)> {
        match self.c.t(s).clone() {
            Term::Call(n, a) if &*n == "push" && a.len() == 2 => {
                let (mut xs, lost) = self.walk(a[0])?;
                xs.push((TRUE, a[1]));
                Some((xs, lost))
            }
            Term::Ctor(n, xs) if &*n == "[]" => Some((xs.into_iter().map(|x| (TRUE, x.1)).collect(), FALSE)),
            Term::Call(f, a) if self.lossy && matches!(&*f, "take" | "skip") && a.len() == 2 => {
                let (mut xs, lost) = self.walk(a[0])?;
                let mut n = self.c.int(0);
                for x in xs.iter_mut() {
                    let before = self.c.lt(n, a[1]);
                    let m = self.next_int(n);
                    n = self.c.ite(x.0, m, n);
                    let keep = if &*f == "take" { before } else { self.c.not(before) };
                    x.0 = self.c.and(x.0, keep);
                }
                let short = self.c.lt(n, a[1]);
                Some((xs, if &*f == "take" { self.c.and(lost, short) } else { lost }))
            }
            Term::Ite(c, x, y) if self.lossy => {
                let nc = self.c.not(c);
                let mut out = vec![];
                let mut lost = FALSE;
                for (g, t) in [(c, x), (nc, y)] {
                    let (xs, l) = self.walk(t)?;
                    for (here, x) in xs {
                        out.push((self.c.and(g, here), x));
                    }
                    let l = self.c.and(g, l);
                    lost = self.c.or(lost, l);
                }
                Some((out, lost))
            }
            Term::Compr(b, l, c, vv) if self.lossy => {
                let (mut xs, lost) = self.walk(b)?;
                let e = self.c.mk(Term::Elem(b, l));
                let at = self.c.call("index_of", vec![e]);
                let plain = matches!(self.c.t(b), Term::Param(..) | Term::Field(..) | Term::Payload(..)) || matches!(self.c.t(b), Term::Call(f, _) if !matches!(&**f, "take" | "skip"));
                let mut n = self.c.int(0);
                for (i, x) in xs.iter_mut().enumerate() {
                    let k = if plain { self.c.int(i as i128) } else { n };
                    let m = self.next_int(n);
                    n = self.c.ite(x.0, m, n);
                    let c2 = self.c.subst_bdd(c, at, k);
                    let v2 = self.c.subst(vv, at, k);
                    let c2 = self.c.subst_bdd(c2, e, x.1);
                    x.1 = self.c.subst(v2, e, x.1);
                    x.0 = self.c.and(x.0, c2);
                }
                Some((xs, lost))
            }
            Term::Param(..) | Term::Field(..) | Term::Payload(..) | Term::Call(..) => {
                if !self.lossy && matches!(self.c.t(s), Term::Call(..)) {
                    return None;
                }
                let len = self.len_of(s);
                let mut xs = vec![];
                for i in 0..self.unroll {
                    let k = self.c.int(i as i128);
                    let here = self.c.lt(k, len);
                    let x = self.index_term(s, k);
                    xs.push((here, x));
                }
                let n = self.c.int(self.unroll as i128);
                let lost = self.c.lt(n, len);
                Some((xs, lost))
            }
            _ => None,
        }
    }
    /// abstract iteration; returns the value of `break` (for `loop`)
    #[allow(clippy::type_complexity)]
    pub fn iterate(&mut self, src: V, label: Option<String>, st: &mut State, fr: &mut Fr, body: &mut dyn FnMut(&mut Ev<'a>, V, &mut State, &mut Fr), _line: usize) -> Tid {
        let unit = self.c.unit();
        // iteration over &mut collection
        let mut mutplace = None;
        if let Term::RefMut(vv, p) = self.c.t(src.t).clone() {
            mutplace = Some((vv, p));
        }
        let s = self.val(st, src.t);
        let et = self.elem_ty(&src.ty);
        // either of two collections: one loop for each
        if let (Term::Ite(c, x, y), None) = (self.c.t(s).clone(), &mutplace) {
            let nil = |ev: &Self, t: Tid| matches!(ev.c.t(t), Term::Ctor(n, fs) if &**n == "[]" && fs.is_empty());
            if self.unroll > 0 || !nil(self, x) && !nil(self, y) {
                let mut s1 = st.clone();
                self.assume(&mut s1, c);
                let nc = self.c.not(c);
                let mut s2 = st.clone();
                self.assume(&mut s2, nc);
                let mut outs = vec![];
                for (mut z, t) in [(s1, x), (s2, y)] {
                    if z.pc == FALSE {
                        continue;
                    }
                    let r = self.iterate(v(t, src.ty.clone()), label.clone(), &mut z, fr, body, _line);
                    outs.push((z, r));
                }
                let (m, t) = self.merge_vals(outs);
                *st = m;
                return t;
            }
        }
        if let (Some(xs), None) = (self.concrete(s), &mutplace) {
            let mut breaks = vec![];
            for x in xs {
                if st.pc == FALSE {
                    break;
                }
                fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
                body(self, v(x, et.clone()), st, fr);
                let lf = fr.loops.pop().unwrap();
                breaks.extend(lf.breaks);
                let mut outs = vec![(st.clone(), unit)];
                outs.extend(lf.conts.into_iter().map(|s| (s, unit)));
                *st = self.merge_vals(outs).0;
            }
            let mut outs = vec![(st.clone(), unit)];
            outs.extend(breaks);
            let (s, t) = self.merge_vals(outs);
            *st = s;
            return t;
        }
        // bounded: some elements of a list that is itself walked element by element
        if let (Term::Compr(b, l, c, vv), None) = (self.c.t(s).clone(), &mutplace) {
            let put = self.mapped(b);
            let map = put || src.ty.name().contains("Map");
            let bt = if put && !src.ty.name().contains("Map") { named("BTreeMap", vec![]) } else { src.ty.clone() };
            if self.unroll > 0 && self.walkable(b, map, st) {
                let e = self.c.mk(Term::Elem(b, l));
                if let Term::Ite(g, x, y) = self.c.t(b).clone() {
                    let mut arms = vec![];
                    for z in [x, y] {
                        let ez = self.c.mk(Term::Elem(z, l));
                        let c2 = self.c.subst_bdd(c, e, ez);
                        let c2 = self.c.subst_bdd(c2, b, z);
                        let v2 = self.c.subst(vv, e, ez);
                        let v2 = self.c.subst(v2, b, z);
                        arms.push(self.compr(z, l, c2, v2));
                    }
                    let t = self.c.ite(g, arms[0], arms[1]);
                    if t != s {
                        return self.iterate(v(t, src.ty.clone()), label, st, fr, body, _line);
                    }
                }
                let st0 = st;
                return self.iterate(
                    v(b, bt),
                    label,
                    st0,
                    fr,
                    &mut |ev, el, s, fr| {
                        let (mut c, mut vv) = (c, vv);
                        if let Term::Call(f, xs) = ev.c.t(el.t).clone() {
                            if &*f == "index" {
                                let at = ev.c.call("index_of", vec![e]);
                                c = ev.c.subst_bdd(c, at, xs[1]);
                                vv = ev.c.subst(vv, at, xs[1]);
                            }
                        }
                        let mut c2 = ev.c.subst_bdd(c, e, el.t);
                        let mut v2 = ev.c.subst(vv, e, el.t);
                        if put {
                            let k = ev.c.field(el.t, "0");
                            let (at, x) = (ev.c.call("index", vec![b, k]), ev.index_term(b, k));
                            c2 = ev.c.subst_bdd(c2, at, x);
                            v2 = ev.c.subst(v2, at, x);
                        }
                        let nc = ev.c.not(c2);
                        let mut skip = s.clone();
                        ev.assume(&mut skip, nc);
                        ev.assume(s, c2);
                        if s.pc == FALSE {
                            *s = skip;
                            return;
                        }
                        body(ev, v(v2, el.ty.clone()), s, fr);
                        let a = s.clone();
                        *s = ev.merge(a, skip);
                    },
                    _line,
                );
            }
        }
        let (base, lvl, cond, elem) = self.gen_of(s);
        let is_unknown = matches!(self.c.t(base), Term::Havoc(_));
        if is_unknown && self.unroll > 0 {
            // bounded: executions that leave the loop within `unroll` rounds
            let mut outs = vec![];
            for _ in 0..self.unroll {
                if st.pc == FALSE {
                    break;
                }
                fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
                body(self, v(elem, et.clone()), st, fr);
                let lf = fr.loops.pop().unwrap();
                outs.extend(lf.breaks);
                let mut go = vec![(st.clone(), unit)];
                go.extend(lf.conts.into_iter().map(|s| (s, unit)));
                *st = self.merge_vals(go).0;
            }
            self.lost = self.c.or(self.lost, st.pc);
            if outs.is_empty() {
                st.pc = FALSE;
                return unit;
            }
            let (s, t) = self.merge_vals(outs);
            *st = s;
            return t;
        }
        // bounded: a range with unknown ends, walked for at most `unroll` values
        if self.unroll > 0 && mutplace.is_none() && self.is_symbolic_range(s) {
            let (a, b) = (self.c.field(s, "start"), self.c.field(s, "end"));
            let closed = matches!(self.c.t(s), Term::Ctor(n, _) if &**n == "RangeInclusive");
            let mut outs = vec![];
            for i in 0..=self.unroll {
                if st.pc == FALSE {
                    break;
                }
                let ki = self.c.int(i as i128);
                let x = self.c.arith("add", a, ki);
                let more = if closed {
                    let past = self.c.lt(b, x);
                    self.c.not(past)
                } else {
                    self.c.lt(x, b)
                };
                let done = self.c.not(more);
                let mut stop = st.clone();
                self.assume(&mut stop, done);
                outs.push((stop, unit));
                self.assume(st, more);
                if i == self.unroll || st.pc == FALSE {
                    self.lost = self.c.or(self.lost, st.pc);
                    break;
                }
                fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
                body(self, v(x, et.clone()), st, fr);
                let lf = fr.loops.pop().unwrap();
                outs.extend(lf.breaks);
                let mut go = vec![(st.clone(), unit)];
                go.extend(lf.conts.into_iter().map(|s| (s, unit)));
                *st = self.merge_vals(go).0;
            }
            let (s, t) = self.merge_vals(outs);
            *st = s;
            return t;
        }
        // bounded: a map filled from empty, its keys in the order they were put in
        if self.unroll > 0 && mutplace.is_none() && src.ty.name().contains("Map") {
            if let Some(keys) = self.keys_put_in(s) {
                let mut outs = vec![];
                for (i, k) in keys.iter().enumerate() {
                    let mut seen = FALSE;
                    for j in &keys[..i] {
                        let q = self.c.eq(*j, *k);
                        seen = self.c.or(seen, q);
                    }
                    let mut skip = st.clone();
                    self.assume(&mut skip, seen);
                    let new = self.c.not(seen);
                    self.assume(st, new);
                    if st.pc != FALSE {
                        let x = self.index_term(s, *k);
                        let kv = self.c.tuple(vec![*k, x]);
                        fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
                        body(self, v(kv, et.clone()), st, fr);
                        let lf = fr.loops.pop().unwrap();
                        outs.extend(lf.breaks);
                        let mut go = vec![(st.clone(), unit), (skip, unit)];
                        go.extend(lf.conts.into_iter().map(|s| (s, unit)));
                        *st = self.merge_vals(go).0;
                    } else {
                        *st = skip;
                    }
                }
                outs.push((st.clone(), unit));
                let (s, t) = self.merge_vals(outs);
                *st = s;
                return t;
            }
        }
        // bounded: a list of unknown length, walked for at most `unroll` elements
        if self.unroll > 0 && mutplace.is_none() && !src.ty.name().contains("Map") {
            if let Some((items, lost)) = self.walk(s).filter(|w| self.lossy || self.whole(st, w.1)) {
                let mut outs = vec![];
                for (here, x) in items {
                    let mut skip = st.clone();
                    let no = self.c.not(here);
                    self.assume(&mut skip, no);
                    self.assume(st, here);
                    if st.pc == FALSE {
                        *st = skip;
                        continue;
                    }
                    fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
                    body(self, v(x, et.clone()), st, fr);
                    let lf = fr.loops.pop().unwrap();
                    outs.extend(lf.breaks);
                    let mut go = vec![(st.clone(), unit), (skip, unit)];
                    go.extend(lf.conts.into_iter().map(|s| (s, unit)));
                    *st = self.merge_vals(go).0;
                }
                if self.lossy {
                    let more = self.c.and(st.pc, lost);
                    self.lost = self.c.or(self.lost, more);
                    let done = self.c.not(lost);
                    self.assume(st, done);
                }
                outs.push((st.clone(), unit));
                let (s, t) = self.merge_vals(outs);
                *st = s;
                return t;
            }
        }
        self.active.push((base, lvl));
        self.loops.push((base, lvl));
        let depth = self.loops.len() as u32;
        let elem_v = match &mutplace {
            Some((vv, p)) => {
                let mut q = p.clone();
                q.push(Proj::Elem(lvl));
                self.c.mk(Term::RefMut(*vv, q))
            }
            None => self.map_elem(&src.ty, base, elem),
        };
        // pass 1: which variables / storages change
        let mut changed: BTreeSet<u32> = BTreeSet::new();
        let mut changed_arr: BTreeSet<Str> = BTreeSet::new();
        self.muted += 1;
        for round in 0..3 {
            let mut s1 = st.clone();
            self.havoc(&mut s1, depth, &changed, &changed_arr);
            let s0 = s1.clone();
            self.assume(&mut s1, cond);
            fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
            let nret = fr.returns.len();
            body(self, v(elem_v, et.clone()), &mut s1, fr);
            fr.returns.truncate(nret);
            let lf = fr.loops.pop().unwrap();
            let mut ends = vec![s1];
            ends.extend(lf.conts);
            ends.extend(lf.breaks.into_iter().map(|x| x.0));
            let mut grew = false;
            for e in ends {
                if e.pc == FALSE {
                    continue;
                }
                for (k, t0) in &s0.vars {
                    if let Some(t1) = e.vars.get(k) {
                        if t1 != t0 && changed.insert(*k) {
                            grew = true;
                        }
                    }
                }
                for (k, t1) in &e.arr {
                    let b = self.c.konst(k);
                    let t0 = s0.arr.get(k).copied().unwrap_or(b);
                    if *t1 != t0 && changed_arr.insert(k.clone()) {
                        grew = true;
                    }
                }
            }
            if !grew {
                break;
            }
            let _ = round;
        }
        self.muted -= 1;
        // pass 2
        let pre = st.clone();
        let mut s2 = st.clone();
        self.havoc(&mut s2, depth, &changed, &changed_arr);
        self.assume(&mut s2, cond);
        fr.loops.push(LoopFr { label: label.clone(), breaks: vec![], conts: vec![] });
        let nret = fr.returns.len();
        body(self, v(elem_v, et.clone()), &mut s2, fr);
        let lf = fr.loops.pop().unwrap();
        self.active.pop();
        self.loops.pop();
        let mut outs = vec![(s2, unit)];
        outs.extend(lf.conts.into_iter().map(|s| (s, unit)));
        let (end, _) = self.merge_vals(outs);
        // normal exit: summarise
        let mut after = pre.clone();
        let mut fixups: Vec<(Tid, Tid)> = vec![]; // loopvar -> summarised value
        let order: Vec<u32> = changed.iter().copied().collect();
        let mut own: Vec<(Tid, Tid, Tid)> = vec![];
        for (i, k) in order.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, i as u32));
            own.push((lv, pre.vars[k], end.vars.get(k).copied().unwrap_or(lv)));
        }
        let accs = if is_unknown { vec![] } else { self.accumulators(base, lvl, cond, end.pc, depth, &own) };
        for (k, (lv, init, fin)) in order.iter().zip(own.clone()) {
            let nv = if is_unknown {
                self.c.call("#loop", vec![base, init, fin])
            } else {
                let fin = self.named(fin, lv, &accs);
                self.summary(base, lvl, cond, end.pc, pre.pc, init, lv, fin)
            };
            fixups.push((lv, nv));
            after.vars.insert(*k, nv);
        }
        for (i, k) in changed_arr.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, 1000 + i as u32));
            let b = self.c.konst(k);
            let init = pre.arr.get(k).copied().unwrap_or(b);
            let fin = end.arr.get(k).copied().unwrap_or(lv);
            let nv = self.c.call("#arrloop", vec![base, init, fin]);
            after.arr.insert(k.clone(), nv);
        }
        // early exits
        let mut bad = FALSE;
        let rets: Vec<(State, Tid)> = fr.returns.drain(nret..).collect();
        let mut exits: Vec<(State, Tid, bool)> = rets.into_iter().map(|(s, t)| (s, t, true)).collect();
        exits.extend(lf.breaks.into_iter().map(|(s, t)| (s, t, false)));
        let mut brk_states = vec![];
        for (mut s, mut t, is_ret) in exits {
            let mut rel = self.c.constrain(s.pc, pre.pc);
            for (lv, a) in &accs {
                rel = self.c.subst_bdd(rel, *lv, *a);
                t = self.c.subst(t, *lv, *a);
            }
            bad = self.c.or(bad, rel);
            let ex = if is_unknown {
                let n = self.c.fresh();
                self.c.atom(Atom::Nondet(n))
            } else {
                self.c.exists(base, lvl, rel)
            };
            s.pc = self.c.and(pre.pc, ex);
            let mut t = self.restrict(t, rel);
            // leaving at one given place: with the item there
            if !is_unknown {
                let el = self.c.mk(Term::Elem(base, lvl));
                let at = self.c.call("index_of", vec![el]);
                if self.c.bdd_mentions(rel, &|u, _| u == at) {
                    t = self.settled(base, lvl, rel, t, 0);
                    let ks: Vec<u32> = s.vars.keys().copied().collect();
                    for k in ks {
                        let y = s.vars[&k];
                        if self.c.mentions(y, el) {
                            let y = self.settled(base, lvl, rel, y, 0);
                            s.vars.insert(k, y);
                        }
                    }
                }
            }
            if is_ret {
                fr.returns.push((s, t));
            } else {
                brk_states.push((s, t));
            }
        }
        let exb = if bad == FALSE {
            FALSE
        } else if is_unknown {
            let n = self.c.fresh();
            self.c.atom(Atom::Nondet(n))
        } else {
            self.c.exists(base, lvl, bad)
        };
        let nb = self.c.not(exb);
        after.pc = self.c.and(pre.pc, nb);
        let mut outs = vec![(after, unit)];
        outs.extend(brk_states);
        let (s, t) = self.merge_vals(outs);
        *st = s;
        t
    }
    /// `t` at the one place where `rel` lets a walk stop, case by case
    fn settled(&mut self, base: Tid, lvl: u32, rel: Bid, t: Tid, depth: u32) -> Tid {
        let el = self.c.mk(Term::Elem(base, lvl));
        if let Some((_, at, q)) = self.c.placed(base, lvl, rel) {
            let x = self.c.call("index", vec![base, q]);
            let t = self.c.subst(t, at, q);
            return self.c.subst(t, el, x);
        }
        if depth < 6 {
            for a in self.c.support(rel) {
                let p = self.c.node(a, FALSE, TRUE);
                if self.c.bdd_mentions(p, &|t, x| t == el || matches!(x, Term::LoopVar(..))) {
                    continue;
                }
                let np = self.c.not(p);
                let (x, y) = (self.c.and(rel, p), self.c.and(rel, np));
                if x == FALSE || y == FALSE {
                    continue;
                }
                let (tx, ty) = (self.restrict(t, x), self.restrict(t, y));
                let (x, y) = (self.settled(base, lvl, x, tx, depth + 1), self.settled(base, lvl, y, ty, depth + 1));
                return self.c.ite(p, x, y);
            }
        }
        t
    }
    /// accumulators' values during a walk, named by how they are built rather than by their loop
    fn accumulators(&mut self, base: Tid, lvl: u32, cond: Bid, endpc: Bid, depth: u32, vars: &[(Tid, Tid, Tid)]) -> Vec<(Tid, Tid)> {
        let mut accs: Vec<(Tid, Tid)> = vec![];
        if depth != 1 {
            return accs;
        }
        let el = self.c.mk(Term::Elem(base, lvl));
        let own = self.c.mk(Term::LoopVar(0, 0));
        loop {
            let n = accs.len();
            for (lv, init, fin) in vars {
                if fin == lv || accs.iter().any(|x| x.0 == *lv) {
                    continue;
                }
                let fin = self.restrict(*fin, endpc);
                let fin = self.c.ite(cond, fin, *lv);
                let fin = self.named(fin, *lv, &accs);
                let inside = Self::is_loopvar;
                if self.c.mentions_p(fin, &|i, x| i != *lv && inside(x) && !matches!(x, Term::LoopVar(0, _))) {
                    continue;
                }
                let fin = self.c.subst(fin, *lv, own);
                let a = self.c.call("#acc", vec![base, el, *init, fin]);
                accs.push((*lv, a));
            }
            if accs.len() == n {
                return accs;
            }
        }
    }
    /// t with the accumulators other than `but` named
    fn named(&mut self, mut t: Tid, but: Tid, accs: &[(Tid, Tid)]) -> Tid {
        for (lv, a) in accs {
            if *lv != but {
                t = self.c.subst(t, *lv, *a);
            }
        }
        t
    }
    /// the part of a gated value that is possible under c
    pub fn restrict(&mut self, t: Tid, c: Bid) -> Tid {
        if let Term::Ite(g, a, b) = self.c.t(t).clone() {
            let p = self.c.and(c, g);
            if p == FALSE {
                return self.restrict(b, c);
            }
            let ng = self.c.not(g);
            let q = self.c.and(c, ng);
            if q == FALSE {
                return self.restrict(a, c);
            }
            let x = self.restrict(a, p);
            let y = self.restrict(b, q);
            return self.c.ite(g, x, y);
        }
        if let Term::Update(b, g, x) = self.c.t(t).clone() {
            let b2 = self.restrict(b, c);
            let x2 = self.restrict(x, c);
            if b2 != b || x2 != x {
                return self.c.update(b2, &g, x2);
            }
        }
        t
    }
    fn havoc(&mut self, st: &mut State, depth: u32, ch: &BTreeSet<u32>, ca: &BTreeSet<Str>) {
        for (i, k) in ch.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, i as u32));
            st.vars.insert(*k, lv);
        }
        for (i, k) in ca.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, 1000 + i as u32));
            st.arr.insert(k.clone(), lv);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn summary(&mut self, base: Tid, lvl: u32, cond: Bid, endpc: Bid, _prepc: Bid, init: Tid, lv: Tid, fin: Tid) -> Tid {
        let el = self.c.mk(Term::Elem(base, lvl));
        if fin == lv {
            return init;
        }
        // the normal end of the body
        let fin = self.restrict(fin, endpc);
        // unconditional part: the body only runs when cond holds
        let fin = self.c.ite(cond, fin, lv);
        if let Some(r) = self.summary2(base, lvl, init, lv, fin, el) {
            return r;
        }
        self.c.call("#fold", vec![base, init, fin])
    }
    fn is_loopvar(t: &Term) -> bool {
        matches!(t, Term::LoopVar(..))
    }
    fn summary2(&mut self, base: Tid, lvl: u32, init: Tid, lv: Tid, fin: Tid, el: Tid) -> Option<Tid> {
        let ment_lv = |ev: &Self, t: Tid| ev.c.mentions_p(t, &|_, x| Self::is_loopvar(x));
        let ment_lv_b = |ev: &Self, b: Bid| ev.c.bdd_mentions(b, &|_, x| Self::is_loopvar(x));
        // boolean flags
        if let Term::Bool(_) = self.c.t(fin) {
            let (f0, f1) = (self.c.boolt(FALSE), self.c.boolt(TRUE));
            let a = self.c.subst(fin, lv, f0);
            let b = self.c.subst(fin, lv, f1);
            if let (Term::Bool(a), Term::Bool(b)) = (self.c.t(a).clone(), self.c.t(b).clone()) {
                if !ment_lv_b(self, a) && !ment_lv_b(self, b) {
                    let i = self.c.cond(init);
                    if b == TRUE {
                        let e = self.c.exists(base, lvl, a);
                        let o = self.c.or(i, e);
                        return Some(self.c.boolt(o));
                    }
                    if a == FALSE {
                        let nb = self.c.not(b);
                        let e = self.c.exists(base, lvl, nb);
                        let ne = self.c.not(e);
                        let o = self.c.and(i, ne);
                        return Some(self.c.boolt(o));
                    }
                }
            }
            return None;
        }
        // field-wise updates of a structure
        let fields: BTreeSet<Str> = {
            let ls = self.leaves(fin);
            let mut fs = BTreeSet::new();
            let mut ok = true;
            for (_, x) in &ls {
                let mut t = *x;
                while let Term::Update(b, g, _) = self.c.t(t).clone() {
                    fs.insert(g);
                    t = b;
                }
                ok &= t == lv;
            }
            if ok {
                fs
            } else {
                BTreeSet::new()
            }
        };
        if !fields.is_empty() {
            let depth = match self.c.t(lv) {
                Term::LoopVar(d, _) => *d,
                _ => 0,
            };
            let mut out = init;
            let mut ok = true;
            for (i, g) in fields.iter().enumerate() {
                let lvf0 = self.c.field(lv, g);
                let lvf = self.c.mk(Term::LoopVar(depth, 500 + i as u32));
                let ff = self.c.field(fin, g);
                let ff = self.c.subst(ff, lvf0, lvf);
                let fi = self.c.field(init, g);
                if self.c.mentions(ff, lv) {
                    ok = false;
                    break;
                }
                match self.summary2(base, lvl, fi, lvf, ff, el) {
                    Some(r) => out = self.c.update(out, g, r),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Some(out);
            }
        }
        // concatenation: lv ++ f(element)
        {
            let ls = self.leaves(fin);
            let mut val: Option<Tid> = None;
            let mut cc = FALSE;
            let mut ok = true;
            for (c, x) in ls.iter().rev() {
                if *x == lv {
                    continue;
                }
                match self.c.t(*x).clone() {
                    Term::Call(f, xs) if &*f == "concat" && xs[0] == lv && !xs[1..].iter().any(|y| ment_lv(self, *y)) => {
                        let y = self.c.cat(&xs[1..]);
                        val = Some(match val {
                            None => y,
                            Some(o) => self.c.ite(*c, y, o),
                        });
                        cc = self.c.or(cc, *c);
                    }
                    _ => ok = false,
                }
            }
            if let (true, Some(x)) = (ok && !ment_lv_b(self, cc), val) {
                let co = self.compr(base, lvl, cc, x);
                let fl = self.c.call("flatten", vec![co]);
                return Some(self.c.cat(&[init, fl]));
            }
        }
        // map updates: lv[k] = v
        {
            let ls = self.leaves(fin);
            let mut k: Option<Tid> = None;
            let mut val: Option<Tid> = None;
            let mut cc = FALSE;
            let mut ok = true;
            for (c, x) in ls.iter().rev() {
                if *x == lv {
                    continue;
                }
                match self.c.t(*x).clone() {
                    Term::Call(f, xs) if matches!(&*f, "setidx" | "mapins") && xs[0] == lv && !ment_lv(self, xs[1]) && !ment_lv(self, xs[2]) => {
                        ok &= k.map_or(true, |y| y == xs[1]);
                        k = Some(xs[1]);
                        val = Some(match val {
                            None => xs[2],
                            Some(o) => self.c.ite(*c, xs[2], o),
                        });
                        cc = self.c.or(cc, *c);
                    }
                    _ => ok = false,
                }
            }
            if let (true, Some(k), Some(x)) = (ok, k, val) {
                // "insert if absent" with a value determined by the key looks at the initial map
                let kv = self.c.konst("#key");
                let det = {
                    let y = self.c.subst(x, k, kv);
                    !self.c.mentions(y, el)
                };
                if det && ment_lv_b(self, cc) {
                    let g = self.c.call("map_get", vec![lv, k]);
                    let gi = self.map_get(init, k);
                    cc = self.c.map_atoms(cc, &mut |cx, a| match cx.atoms[a as usize].clone() {
                        Atom::Is(t, s) if t == g => cx.is(gi, &s),
                        _ => cx.atom_bid(a),
                    });
                }
                if !ment_lv_b(self, cc) {
                    let p = self.c.tuple(vec![k, x]);
                    let co = self.compr(base, lvl, cc, p);
                    return Some(self.map_extend(init, co));
                }
            }
        }
        // gated assignment of a loop-invariant value
        let leaves = self.leaves(fin);
        let changed: Vec<(Bid, Tid)> = leaves.iter().filter(|x| x.1 != lv).cloned().collect();
        if changed.iter().any(|x| ment_lv_b(self, x.0)) {
            return None;
        }
        let mut cc = FALSE;
        for x in &changed {
            cc = self.c.or(cc, x.0);
        }
        // bool constant leaves
        let vals: BTreeSet<Tid> = changed.iter().map(|x| x.1).collect();
        if vals.len() == 1 {
            let val = *vals.iter().next().unwrap();
            if !ment_lv(self, val) && !self.c.mentions(val, el) {
                let e = self.c.exists(base, lvl, cc);
                if let (Term::Bool(k), i) = (self.c.t(val).clone(), init) {
                    let ib = self.c.cond(i);
                    let r = self.c.bite(e, k, ib);
                    return Some(self.c.boolt(r));
                }
                return Some(self.c.ite(e, val, init));
            }
        }
        // sums: lv + g
        let mut g_total: Option<Tid> = None;
        let mut ok = true;
        let mut gated = self.c.int(0);
        for (c, x) in changed.iter().rev() {
            if let Term::Call(f, xs) = self.c.t(*x).clone() {
                if (&*f == "add" || &*f == "sat_add") && xs.len() == 2 && (xs[0] == lv) != (xs[1] == lv) {
                    let g = if xs[0] == lv { xs[1] } else { xs[0] };
                    if !ment_lv(self, g) {
                        gated = self.c.ite(*c, g, gated);
                        g_total = Some(g);
                        continue;
                    }
                }
            }
            ok = false;
        }
        if ok && g_total.is_some() {
            let g = if changed.len() == 1 { g_total.unwrap() } else { gated };
            let s = self.sum(base, lvl, cc, g);
            return Some(self.c.arith("add", init, s));
        }
        // pushes
        let mut ok = true;
        let mut gated: Option<Tid> = None;
        for (c, x) in changed.iter().rev() {
            if let Term::Call(f, xs) = self.c.t(*x).clone() {
                if &*f == "push" && xs[0] == lv && !ment_lv(self, xs[1]) {
                    gated = Some(match gated {
                        None => xs[1],
                        Some(g) => self.c.ite(*c, xs[1], g),
                    });
                    continue;
                }
            }
            ok = false;
        }
        if ok {
            if let Some(g) = gated {
                let co = self.compr(base, lvl, cc, g);
                if let Term::Ctor(n, fs) = self.c.t(init).clone() {
                    if &*n == "[]" && fs.is_empty() {
                        return Some(co);
                    }
                }
                return Some(self.c.cat(&[init, co]));
            }
        }
        None
    }
    pub fn sum(&mut self, base: Tid, lvl: u32, c: Bid, g: Tid) -> Tid {
        if c == FALSE {
            return self.c.int(0);
        }
        let el = self.c.mk(Term::Elem(base, lvl));
        if let Some((p, c1, c0)) = self.c.invariant_split(el, c) {
            let x = self.sum(base, lvl, c1, g);
            let y = self.sum(base, lvl, c0, g);
            return self.c.ite(p, x, y);
        }
        // elements that contribute nothing are not selected
        if let Term::Ite(i, a, b) = self.c.t(g).clone() {
            let zero = self.c.int(0);
            if a == zero || b == zero {
                let (i, g) = if b == zero { (i, a) } else { (self.c.not(i), b) };
                let c = self.c.and(c, i);
                return self.sum(base, lvl, c, g);
            }
        }
        if let Term::Int(1) = self.c.t(g) {
            let el = self.c.mk(Term::Elem(base, lvl));
            let co = self.compr(base, lvl, c, el);
            return self.len_of(co);
        }
        self.c.mk(Term::Sum(base, lvl, c, g))
    }
    /// (guard, leaf) decomposition of a gated value
    pub fn leaves(&mut self, t: Tid) -> Vec<(Bid, Tid)> {
        let mut out = vec![];
        self.leaves_rec(t, TRUE, &mut out);
        out
    }
    fn leaves_rec(&mut self, t: Tid, g: Bid, out: &mut Vec<(Bid, Tid)>) {
        if g == FALSE {
            return;
        }
        if let Term::Ite(c, a, b) = self.c.t(t).clone() {
            let x = self.c.and(g, c);
            self.leaves_rec(a, x, out);
            let nc = self.c.not(c);
            let y = self.c.and(g, nc);
            self.leaves_rec(b, y, out);
        } else if let Some(e) = out.iter_mut().find(|e| e.1 == t) {
            e.0 = self.c.or(e.0, g);
        } else {
            out.push((g, t));
        }
    }
    /// evaluate a closure on an arbitrary element of a source; returns (base, lvl, cond, result)
    fn over_elem(&mut self, src: &V, f: Tid, st: &mut State, fr: &mut Fr, line: usize) -> (Tid, u32, Bid, Tid, V) {
        let s = self.val(st, src.t);
        let (base, lvl, cond, elem) = self.gen_of(s);
        let elem = self.map_elem(&src.ty, base, elem);
        let et = self.elem_ty(&src.ty);
        self.active.push((base, lvl));
        self.loops.push((base, lvl));
        // effects of the closure: find modified variables
        let depth = self.loops.len() as u32;
        let mut changed = BTreeSet::new();
        let mut changed_arr = BTreeSet::new();
        {
            self.muted += 1;
            let mut s1 = st.clone();
            self.assume(&mut s1, cond);
            let _ = self.apply(f, vec![v(elem, et.clone())], &mut s1, fr, line);
            self.muted -= 1;
            for (k, t0) in &st.vars {
                if s1.pc != FALSE && s1.vars.get(k).map_or(false, |t| t != t0) {
                    changed.insert(*k);
                }
            }
            for (k, t1) in &s1.arr {
                if st.arr.get(k) != Some(t1) {
                    changed_arr.insert(k.clone());
                }
            }
        }
        let mut s1 = st.clone();
        self.havoc(&mut s1, depth, &changed, &changed_arr);
        self.assume(&mut s1, cond);
        let r = self.apply(f, vec![v(elem, et)], &mut s1, fr, line);
        self.active.pop();
        self.loops.pop();
        let pre = st.clone();
        let mut own: Vec<(Tid, Tid, Tid)> = vec![];
        for (i, k) in changed.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, i as u32));
            own.push((lv, pre.vars[k], s1.vars.get(k).copied().unwrap_or(lv)));
        }
        let accs = self.accumulators(base, lvl, cond, s1.pc, depth, &own);
        for (k, (lv, init, fin)) in changed.iter().zip(&own) {
            let fin = self.named(*fin, *lv, &accs);
            let nv = self.summary(base, lvl, cond, s1.pc, pre.pc, *init, *lv, fin);
            st.vars.insert(*k, nv);
        }
        for (i, k) in changed_arr.iter().enumerate() {
            let lv = self.c.mk(Term::LoopVar(depth, 1000 + i as u32));
            let b = self.c.konst(k);
            let init = pre.arr.get(k).copied().unwrap_or(b);
            let fin = s1.arr.get(k).copied().unwrap_or(lv);
            let nv = self.c.call("#arrloop", vec![base, init, fin]);
            st.arr.insert(k.clone(), nv);
        }
        let rt = self.val(&s1, r.t);
        let rt = self.named(rt, 0, &accs);
        (base, lvl, cond, elem, v(rt, r.ty))
    }
    fn collect(&mut self, r: V, hint: &Ty, st: &mut State) -> V {
        // a bounded view of a selection from a sequence of any length
        let t = self.val(st, r.t);
        let picked = matches!(self.c.t(t), Term::Compr(..) | Term::Ite(..)) || matches!(self.c.t(t), Term::Call(f, _) if matches!(&**f, "take" | "skip"));
        if self.lossy && !self.spec && picked && !self.literal(t) && matches!(hint.name(), "Vec" | "") {
            if let Some(l) = self.listed(t, st).filter(|l| *l != t) {
                return v(l, named("Vec", vec![self.elem_ty(&r.ty)]));
            }
        }
        let t = self.val(st, r.t);
        match hint.name() {
            "Result" | "Option" => {
                let g = if hint.name() == "Result" { "Ok" } else { "Some" };
                let (b, l, c, val) = self.gen_of(t);
                let ok = self.c.is(val, g);
                let nok = self.c.not(ok);
                let bad = self.c.and(c, nok);
                let ex = self.c.exists(b, l, bad);
                let pay = self.c.payload(val, g, "0");
                let co = self.compr(b, l, c, pay);
                let good = self.c.ctor1(g, co);
                let err = if g == "Ok" {
                    let e = self.c.payload(val, "Err", "0");
                    self.c.ctor1("Err", e)
                } else {
                    self.c.ctor0("None")
                };
                v(self.c.ite(ex, err, good), hint.clone())
            }
            "BTreeMap" | "HashMap" => {
                let e = self.empty();
                v(self.map_extend(e, t), hint.clone())
            }
            "Set" => v(self.c.call("to_set", vec![t]), hint.clone()),
            "String" if matches!(self.c.t(t), Term::Call(f, _) if &**f == "split_whitespace") => {
                let Term::Call(_, xs) = self.c.t(t).clone() else { unreachable!() };
                let src = if matches!(self.c.t(xs[0]), Term::Compr(..)) { xs[0] } else { self.c.call("chars", vec![xs[0]]) };
                let (b, l, c, e) = self.gen_of(src);
                let w = self.c.call("is_whitespace", vec![e]);
                let w = self.c.cond(w);
                let nw = self.c.not(w);
                let c = self.c.and(c, nw);
                v(self.compr(b, l, c, e), tname("String"))
            }
            "String" => v(t, tname("String")),
            _ => {
                let et = self.elem_ty(&r.ty);
                v(t, named("Vec", vec![et]))
            }
        }
    }
}
include!("calls.rs");
