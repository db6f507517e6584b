//! Hash-consed value terms and Boolean conditions (ROBDDs over predicates of terms).
//! This is the abstract domain of the dataflow analysis: every program value is a term that says
//! where it came from, every program point carries the Boolean function of source predicates under
//! which it is reached.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Tid = u32;
pub type Bid = u32;
pub type Str = Rc<str>;

pub const FALSE: Bid = 0;
pub const TRUE: Bid = 1;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Int(i128),
    Str(Str),
    Char(char),
    Bool(Bid),
    Const(Str),
    Param(Str),
    /// constructor application: struct literal, enum variant, tuple ("()"), array ("[]")
    Ctor(Str, Vec<(Str, Tid)>),
    Field(Tid, Str),
    Payload(Tid, Str, Str),
    Call(Str, Vec<Tid>),
    Ite(Bid, Tid, Tid),
    Update(Tid, Str, Tid),
    Closure(u32),
    /// content of a storage cell before the analysed entry ran (Option-like)
    Read(Str, Vec<Tid>),
    /// an arbitrary element of a collection (level = binder nesting over the same collection)
    Elem(Tid, u32),
    LoopVar(u32, u32),
    Havoc(u32),
    /// mutable reference to a place: variable id + projection
    RefMut(u32, Vec<Proj>),
    /// comprehension { value | elem in src, cond }
    Compr(Tid, u32, Bid, Tid),
    Sum(Tid, u32, Bid, Tid),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Proj {
    Field(Str),
    Payload(Str, Str),
    Index(Tid),
    /// arbitrary element (iter_mut)
    Elem(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    B(Tid),
    Eq(Tid, Tid),
    Lt(Tid, Tid),
    Is(Tid, Str),
    Exists(Tid, u32, Bid),
    Ovf(Str, Tid, Tid),
    Nondet(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Node {
    var: u32,
    lo: Bid,
    hi: Bid,
}

pub struct Cx {
    pub terms: Vec<Term>,
    tmap: HashMap<Term, Tid>,
    pub atoms: Vec<Atom>,
    amap: HashMap<Atom, u32>,
    nodes: Vec<Node>,
    nmap: HashMap<Node, Bid>,
    ite_cache: HashMap<(Bid, Bid, Bid), Bid>,
    con_cache: HashMap<(Bid, Bid), Bid>,
    pub fresh: u32,
    /// two-variant enums of the repository: the second variant is "not the first"
    pub two: HashMap<Str, Str>,
}

impl Cx {
    pub fn new() -> Self {
        let n0 = Node { var: u32::MAX, lo: 0, hi: 0 };
        let n1 = Node { var: u32::MAX, lo: 1, hi: 1 };
        Cx {
            terms: vec![],
            tmap: HashMap::new(),
            atoms: vec![],
            amap: HashMap::new(),
            nodes: vec![n0, n1],
            nmap: HashMap::new(),
            ite_cache: HashMap::new(),
            con_cache: HashMap::new(),
            fresh: 0,
            two: HashMap::new(),
        }
    }
    pub fn fresh(&mut self) -> u32 {
        self.fresh += 1;
        self.fresh
    }
    // ---------- terms ----------
    pub fn mk(&mut self, t: Term) -> Tid {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        // what was just put there
        if let Term::Call(f, a) = &t {
            if &**f == "index" && a.len() == 2 {
                if let Term::Call(g, xs) = self.t(a[0]) {
                    if matches!(&**g, "setidx" | "mapins") && xs[1] == a[1] {
                        return xs[2];
                    }
                }
            }
        }
        // the empty text is its own only part
        if let Term::Call(f, a) = &t {
            if &**f == "split" && a.len() == 2 && matches!(self.t(a[1]), Term::Char(_)) {
                let e = a[0];
                let empty = match self.t(e) {
                    Term::Ctor(n, fs) => &**n == "[]" && fs.is_empty(),
                    Term::Str(x) => x.is_empty(),
                    _ => false,
                };
                if empty {
                    return self.mk(Term::Ctor("[]".into(), vec![("0".into(), e)]));
                }
            }
        }
        let i = self.terms.len() as Tid;
        self.terms.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn t(&self, i: Tid) -> &Term {
        &self.terms[i as usize]
    }
    pub fn int(&mut self, v: i128) -> Tid {
        self.mk(Term::Int(v))
    }
    pub fn boolt(&mut self, b: Bid) -> Tid {
        if b > 1 {
            // the truth of a value is that value
            if let (v, FALSE, TRUE) = self.node_of(b) {
                if let Atom::B(t) = self.atoms[v as usize] {
                    return t;
                }
            }
        }
        self.mk(Term::Bool(b))
    }
    pub fn unit(&mut self) -> Tid {
        self.mk(Term::Ctor("()".into(), vec![]))
    }
    pub fn konst(&mut self, s: &str) -> Tid {
        self.mk(Term::Const(s.into()))
    }
    pub fn ctor1(&mut self, v: &str, x: Tid) -> Tid {
        // eta: Some(payload(t, Some)) stays explicit
        self.mk(Term::Ctor(v.into(), vec![("0".into(), x)]))
    }
    pub fn ctor0(&mut self, v: &str) -> Tid {
        self.mk(Term::Ctor(v.into(), vec![]))
    }
    pub fn tuple(&mut self, xs: Vec<Tid>) -> Tid {
        let f = xs.into_iter().enumerate().map(|(i, x)| (Str::from(i.to_string()), x)).collect();
        self.mk(Term::Ctor("()".into(), f))
    }
    pub fn call(&mut self, f: &str, args: Vec<Tid>) -> Tid {
        self.mk(Term::Call(f.into(), args))
    }
    /// n-ary concatenation, flattened, without empty parts
    pub fn cat(&mut self, xs: &[Tid]) -> Tid {
        let mut o: Vec<Tid> = vec![];
        let mut todo: Vec<Tid> = xs.iter().rev().copied().collect();
        while let Some(x) = todo.pop() {
            match self.t(x).clone() {
                Term::Call(f, ys) if &*f == "concat" => todo.extend(ys.iter().rev()),
                // a pushed item is a one-item list at the end
                Term::Call(f, ys) if &*f == "push" && ys.len() == 2 => {
                    let one = self.mk(Term::Ctor("[]".into(), vec![("0".into(), ys[1])]));
                    todo.push(one);
                    todo.push(ys[0]);
                }
                Term::Ctor(n, fs) if &*n == "[]" && fs.is_empty() => {}
                Term::Ctor(n, fs) if &*n == "[]" => match o.last().map(|y| self.t(*y).clone()) {
                    Some(Term::Ctor(m, mut gs)) if &*m == "[]" => {
                        for (_, y) in fs {
                            gs.push((Str::from(gs.len().to_string()), y));
                        }
                        let j = self.mk(Term::Ctor("[]".into(), gs));
                        *o.last_mut().unwrap() = j;
                    }
                    _ => o.push(x),
                },
                Term::Str(s) if s.is_empty() => {}
                _ => o.push(x),
            }
        }
        if o.len() > 1 {
            if let Term::Ctor(n, fs) = self.t(o[o.len() - 1]).clone() {
                if &*n == "[]" {
                    o.pop();
                    let mut t = self.cat(&o);
                    for (_, x) in fs {
                        t = self.call("push", vec![t, x]);
                    }
                    return t;
                }
            }
        }
        match o.len() {
            0 => self.mk(Term::Ctor("[]".into(), vec![])),
            1 => o[0],
            _ => self.call("concat", o),
        }
    }
    pub fn ite(&mut self, c: Bid, a: Tid, b: Tid) -> Tid {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        // the smaller / larger of two values, however the tie is written
        if !matches!(self.t(a), Term::Ctor(..) | Term::Bool(_)) && !matches!(self.t(b), Term::Ctor(..) | Term::Bool(_)) {
            let sup = self.support(c);
            if sup.len() <= 8 && sup.iter().any(|v| matches!(self.atoms[*v as usize], Atom::Lt(..))) {
                let (x, y) = if a < b { (a, b) } else { (b, a) };
                let lt = self.lt(x, y);
                let gt = self.lt(y, x);
                let (ge, le) = (self.not(lt), self.not(gt));
                if lt > 1 && gt > 1 {
                    if (a == x && (c == le || c == lt)) || (b == x && (c == ge || c == gt)) {
                        // smaller
                        return self.mk(Term::Ite(lt, x, y));
                    }
                    if (a == y && (c == le || c == lt)) || (b == y && (c == ge || c == gt)) {
                        return self.mk(Term::Ite(lt, y, x));
                    }
                }
            }
        }
        // a - b above zero, or a + b up to the maximum, however it is written
        for (g, z, w) in [(c, a, b), (self.not(c), b, a)] {
            let (zero, top) = match self.t(z) {
                Term::Int(0) => (true, false),
                Term::Const(m) => (false, m.ends_with("max_value") || m.ends_with("::MAX")),
                _ => (false, false),
            };
            if !zero && !top {
                continue;
            }
            let (var, lo, hi) = self.node_of(g);
            match self.atoms[var as usize].clone() {
                Atom::Lt(y, x) if zero && (lo, hi) == (TRUE, FALSE) => {
                    if self.arith("sub", x, y) == w {
                        let lt = self.lt(x, y);
                        return self.mk(Term::Ite(lt, z, w));
                    }
                }
                Atom::Ovf(op, x, y) if top && (lo, hi) == (FALSE, TRUE) && (&*op == "add" || &*op == "mul") => {
                    if self.arith(&op, x, y) == w {
                        return self.sat_op(&op, x, y);
                    }
                }
                _ => {}
            }
        }
        // a selection that is empty under the gate is already the empty list or zero sum there
        for (g, z, w) in [(c, a, b), (self.not(c), b, a)] {
            let zero = match self.t(z) {
                Term::Int(0) => true,
                Term::Ctor(n, fs) => &**n == "[]" && fs.is_empty(),
                _ => false,
            };
            if !zero {
                continue;
            }
            if let Term::Compr(s, l, k, _) | Term::Sum(s, l, k, _) = self.t(w).clone() {
                let e = self.exists(s, l, k);
                let ne = self.not(e);
                if self.leq(g, ne) {
                    return w;
                }
            }
        }
        // boolean ite
        if matches!(self.t(a), Term::Bool(_)) || matches!(self.t(b), Term::Bool(_)) {
            let (x, y) = (self.cond(a), self.cond(b));
            let r = self.bite(c, x, y);
            return self.boolt(r);
        }
        // same constructor with same shape: push inside
        if let (Term::Ctor(n1, f1), Term::Ctor(n2, f2)) = (self.t(a).clone(), self.t(b).clone()) {
            if n1 == n2 && f1.len() == f2.len() && f1.iter().zip(&f2).all(|(x, y)| x.0 == y.0) && !f1.is_empty() {
                let mut nf = vec![];
                for (x, y) in f1.iter().zip(&f2) {
                    let v = self.ite(c, x.1, y.1);
                    nf.push((x.0.clone(), v));
                }
                return self.mk(Term::Ctor(n1, nf));
            }
        }
        // "[] if the list is empty, else the list" is the list
        if self.nil(a) && !matches!(self.t(b), Term::Ctor(..) | Term::Ite(..)) {
            let e = self.is_empty(b);
            if self.leq(c, e) {
                return b;
            }
        }
        if self.nil(b) && !matches!(self.t(a), Term::Ctor(..) | Term::Ite(..)) {
            let e = self.is_empty(a);
            let nc = self.not(c);
            if self.leq(nc, e) {
                return a;
            }
        }
        // flatten: ite(c, ite(c, x, y), z) = ite(c, x, z)
        let a2 = self.simp_under(a, c, true);
        let b2 = self.simp_under(b, c, false);
        if a2 == b2 {
            return a2;
        }
        self.mk(Term::Ite(c, a2, b2))
    }
    fn simp_under(&mut self, t: Tid, c: Bid, pos: bool) -> Tid {
        if let Term::Ite(d, x, y) = self.t(t).clone() {
            let care = if pos { c } else { self.not(c) };
            if self.leq(care, d) {
                return self.simp_under(x, c, pos);
            }
            let nd = self.not(d);
            if self.leq(care, nd) {
                return self.simp_under(y, c, pos);
            }
        }
        t
    }
    pub fn field(&mut self, t: Tid, f: &str) -> Tid {
        match self.t(t).clone() {
            Term::Ctor(_, fs) => {
                for (n, v) in &fs {
                    if &**n == f {
                        return *v;
                    }
                }
                self.mk(Term::Field(t, f.into()))
            }
            Term::Update(b, g, v) => {
                if &*g == f {
                    v
                } else {
                    self.field(b, f)
                }
            }
            Term::Ite(c, a, b) => {
                let x = self.field(a, f);
                let y = self.field(b, f);
                self.ite(c, x, y)
            }
            _ => self.mk(Term::Field(t, f.into())),
        }
    }
    pub fn payload(&mut self, t: Tid, v: &str, f: &str) -> Tid {
        match self.t(t).clone() {
            Term::Ctor(n, fs) => {
                if &*n == v {
                    for (g, x) in &fs {
                        if &**g == f {
                            return *x;
                        }
                    }
                }
                self.mk(Term::Payload(t, v.into(), f.into()))
            }
            Term::Ite(c, a, b) => {
                let ia = self.is(a, v);
                let ib = self.is(b, v);
                if ia == FALSE && ib != FALSE {
                    return self.payload(b, v, f);
                }
                if ib == FALSE && ia != FALSE {
                    return self.payload(a, v, f);
                }
                let x = self.payload(a, v, f);
                let y = self.payload(b, v, f);
                self.ite(c, x, y)
            }
            _ => self.mk(Term::Payload(t, v.into(), f.into())),
        }
    }
    pub fn update(&mut self, t: Tid, f: &str, v: Tid) -> Tid {
        match self.t(t).clone() {
            Term::Ctor(n, mut fs) => {
                for e in fs.iter_mut() {
                    if &*e.0 == f {
                        e.1 = v;
                        return self.mk(Term::Ctor(n, fs));
                    }
                }
                self.mk(Term::Update(t, f.into(), v))
            }
            Term::Update(b, g, old) => {
                if &*g == f {
                    return self.update(b, f, v);
                }
                // keep updates sorted by field name for canonicity
                if &*g > f {
                    let inner = self.update(b, f, v);
                    return self.mk(Term::Update(inner, g, old));
                }
                self.mk_update(t, f, v)
            }
            _ => self.mk_update(t, f, v),
        }
    }
    fn mk_update(&mut self, t: Tid, f: &str, v: Tid) -> Tid {
        // writing back the same field value is the identity
        if let Term::Field(b, g) = self.t(v).clone() {
            if b == t && &*g == f {
                return t;
            }
        }
        self.mk(Term::Update(t, f.into(), v))
    }
    // ---------- predicates ----------
    pub fn atom(&mut self, a: Atom) -> Bid {
        let id = match self.amap.get(&a) {
            Some(&i) => i,
            None => {
                let i = self.atoms.len() as u32;
                self.atoms.push(a.clone());
                self.amap.insert(a, i);
                i
            }
        };
        self.node(id, FALSE, TRUE)
    }
    pub fn node_of(&self, b: Bid) -> (u32, Bid, Bid) {
        let n = self.nodes[b as usize];
        (n.var, n.lo, n.hi)
    }
    pub fn atom_bid(&mut self, a: u32) -> Bid {
        self.node(a, FALSE, TRUE)
    }
    /// condition denoted by a boolean-valued term
    pub fn cond(&mut self, t: Tid) -> Bid {
        match self.t(t).clone() {
            Term::Bool(b) => b,
            Term::Ite(c, a, b) => {
                let x = self.cond(a);
                let y = self.cond(b);
                self.bite(c, x, y)
            }
            _ => self.atom(Atom::B(t)),
        }
    }
    pub fn is(&mut self, t: Tid, v: &str) -> Bid {
        // Complementary encodings
        match v {
            "None" => {
                let b = self.is(t, "Some");
                return self.not(b);
            }
            "Err" => {
                let b = self.is(t, "Ok");
                return self.not(b);
            }
            // frame_support's two-valued Pays
            "Yes" if !matches!(self.t(t), Term::Ctor(..)) => {
                let b = self.is(t, "No");
                return self.not(b);
            }
            _ => {
                if !matches!(self.t(t), Term::Ctor(..) | Term::Const(_)) {
                    if let Some(first) = self.two.get(v).cloned() {
                        let b = self.is(t, &first);
                        return self.not(b);
                    }
                }
            }
        }
        match self.t(t).clone() {
            Term::Ctor(n, _) => {
                if &*n == v {
                    TRUE
                } else {
                    FALSE
                }
            }
            Term::Const(n) => {
                let last = n.rsplit("::").next().unwrap_or("");
                if last == v {
                    TRUE
                } else if n.contains("::") || last.chars().next().map_or(false, |c| c.is_uppercase()) {
                    // a named unit variant/const of unknown kind: a different variant name
                    if last.chars().any(|c| c.is_lowercase()) {
                        FALSE
                    } else {
                        self.atom(Atom::Is(t, v.into()))
                    }
                } else {
                    self.atom(Atom::Is(t, v.into()))
                }
            }
            Term::Ite(c, a, b) => {
                let x = self.is(a, v);
                let y = self.is(b, v);
                self.bite(c, x, y)
            }
            Term::Update(b, ..) => self.is(b, v),
            _ => self.atom(Atom::Is(t, v.into())),
        }
    }
    fn nil(&self, t: Tid) -> bool {
        matches!(self.t(t), Term::Ctor(n, fs) if &**n == "[]" && fs.is_empty())
    }
    pub fn is_empty(&mut self, t: Tid) -> Bid {
        match self.t(t).clone() {
            Term::Ctor(n, fs) if &*n == "[]" => {
                if fs.is_empty() {
                    TRUE
                } else {
                    FALSE
                }
            }
            Term::Str(x) => {
                if x.is_empty() {
                    TRUE
                } else {
                    FALSE
                }
            }
            Term::Ite(c, a, b) => {
                let p = self.is_empty(a);
                let q = self.is_empty(b);
                self.bite(c, p, q)
            }
            Term::Compr(s, l, c, _) => {
                let e = self.exists(s, l, c);
                self.not(e)
            }
            Term::Call(f, _) if matches!(&*f, "push") => FALSE,
            _ => {
                let l = self.call("len", vec![t]);
                let z = self.int(0);
                self.eq(l, z)
            }
        }
    }
    /// contains a guarded value
    fn guarded(&self, t: Tid) -> bool {
        self.mentions_p(t, &|_, x| matches!(x, Term::Ite(..) | Term::Bool(..)))
    }
    pub fn eq(&mut self, a: Tid, b: Tid) -> Bid {
        if a == b {
            return TRUE;
        }
        match (self.t(a).clone(), self.t(b).clone()) {
            (Term::Bool(x), _) => {
                let y = self.cond(b);
                return self.biff(x, y);
            }
            (_, Term::Bool(y)) => {
                let x = self.cond(a);
                return self.biff(x, y);
            }
            (Term::Ite(c, x, y), _) => {
                let p = self.eq(x, b);
                let q = self.eq(y, b);
                return self.bite(c, p, q);
            }
            (_, Term::Ite(c, x, y)) => {
                let p = self.eq(a, x);
                let q = self.eq(a, y);
                return self.bite(c, p, q);
            }
            // emptiness
            (Term::Call(f, xs), Term::Int(0)) | (Term::Int(0), Term::Call(f, xs)) if &*f == "len" && xs.len() == 1 && matches!(self.t(xs[0]), Term::Compr(..)) => {
                if let Term::Compr(s, l, c, _) = self.t(xs[0]).clone() {
                    let e = self.exists(s, l, c);
                    return self.not(e);
                }
            }
            // an exact difference is zero exactly when its sides agree
            (Term::Call(f, xs), Term::Int(0)) | (Term::Int(0), Term::Call(f, xs)) if &*f == "sub" && xs.len() == 2 => {
                return self.eq(xs[0], xs[1]);
            }
            (Term::Ctor(n, fs), _) if &*n == "[]" && fs.is_empty() && !matches!(self.t(b), Term::Ctor(..)) => {
                return self.is_empty(b);
            }
            (_, Term::Ctor(n, fs)) if &*n == "[]" && fs.is_empty() && !matches!(self.t(a), Term::Ctor(..)) => {
                return self.is_empty(a);
            }
            (Term::Int(_), Term::Int(_)) | (Term::Str(_), Term::Str(_)) | (Term::Char(_), Term::Char(_)) => return FALSE,
            (Term::Ctor(n, fs), Term::Ctor(m, gs)) => {
                if n != m {
                    return FALSE;
                }
                if fs.len() == gs.len() && fs.iter().zip(&gs).all(|(x, y)| x.0 == y.0) {
                    let mut r = TRUE;
                    for (x, y) in fs.iter().zip(&gs) {
                        let e = self.eq(x.1, y.1);
                        r = self.and(r, e);
                    }
                    return r;
                }
            }
            (Term::Ctor(n, fs), _) if fs.is_empty() && &*n != "()" && &*n != "[]" => return self.is(b, &n),
            (_, Term::Ctor(n, fs)) if fs.is_empty() && &*n != "()" && &*n != "[]" => return self.is(a, &n),
            (Term::Ctor(n, fs), _) if is_variantish(&n) && fs.len() == 1 && &*fs[0].0 == "0" => {
                // x == Some(v)  ->  is(x,Some) && payload == v
                let i = self.is(b, &n);
                let p = self.payload(b, &n, "0");
                let e = self.eq(p, fs[0].1);
                return self.and(i, e);
            }
            (_, Term::Ctor(n, fs)) if is_variantish(&n) && fs.len() == 1 && &*fs[0].0 == "0" => {
                let i = self.is(a, &n);
                let p = self.payload(a, &n, "0");
                let e = self.eq(p, fs[0].1);
                return self.and(i, e);
            }
            // a record rebuilt from the record itself: part by part
            (Term::Ctor(n, fs), t) | (t, Term::Ctor(n, fs))
                if !is_variantish(&n) && !matches!(t, Term::Ctor(..) | Term::Ite(..) | Term::Update(..)) && {
                    let r = if matches!(self.t(a), Term::Ctor(..)) { b } else { a };
                    fs.iter().any(|x| &*x.0 != "0" && matches!(self.t(x.1), Term::Field(y, f) if *y == r && *f == x.0))
                } =>
            {
                let r = if matches!(self.t(a), Term::Ctor(..)) { b } else { a };
                let mut q = TRUE;
                for (f, x) in fs {
                    let y = self.field(r, &f);
                    let e = self.eq(y, x);
                    q = self.and(q, e);
                }
                return q;
            }
            // x - k == m  is  x == m + k;  x + k == m  is  x == m - k  (no wrap: overflow is a separate event)
            (Term::Call(f, xs), Term::Int(m)) | (Term::Int(m), Term::Call(f, xs)) if (&*f == "sub" || &*f == "add") && xs.len() == 2 && xs.iter().any(|x| matches!(self.t(*x), Term::Int(_))) => {
                if let Term::Int(k) = self.t(xs[1]).clone() {
                    if &*f == "sub" {
                        let v = self.int(m + k);
                        return self.eq(xs[0], v);
                    }
                    if m < k {
                        return FALSE;
                    }
                    let v = self.int(m - k);
                    return self.eq(xs[0], v);
                }
                if let (Term::Int(k), "add") = (self.t(xs[0]).clone(), &*f) {
                    if m < k {
                        return FALSE;
                    }
                    let v = self.int(m - k);
                    return self.eq(xs[1], v);
                }
            }
            // storage cells are optional values
            (Term::Read(..), Term::Read(..)) => {
                let i = self.is(a, "Some");
                let j = self.is(b, "Some");
                let p = self.payload(a, "Some", "0");
                let q = self.payload(b, "Some", "0");
                let (x, y) = if p < q { (p, q) } else { (q, p) };
                let e = self.atom(Atom::Eq(x, y));
                let e = self.imp(i, e);
                let s = self.biff(i, j);
                return self.and(s, e);
            }
            // congruence: same shape with provably equal parts
            (Term::Call(f, xs), Term::Call(g, ys)) if f == g && xs.len() == ys.len() => {
                let mut r = TRUE;
                for (x, y) in xs.iter().zip(&ys) {
                    let e = self.eq(*x, *y);
                    r = self.and(r, e);
                    if r == FALSE {
                        break;
                    }
                }
                if r == TRUE || (r != FALSE && self.implies(TRUE, r)) {
                    return TRUE;
                }
                // equal wherever the arguments are (they may be guarded values)
                if r != FALSE && (self.guarded(a) || self.guarded(b)) {
                    let (x, y) = if a < b { (a, b) } else { (b, a) };
                    let e = self.atom(Atom::Eq(x, y));
                    return self.or(r, e);
                }
            }
            (Term::Compr(s1, l1, c1, v1), Term::Compr(s2, l2, c2, v2)) if l1 == l2 => {
                if s1 == s2 && self.equiv(c1, c2) {
                    let e = self.eq(v1, v2);
                    if e == TRUE || self.implies(c1, e) {
                        return TRUE;
                    }
                }
            }
            _ => {}
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.atom(Atom::Eq(x, y))
    }
    pub fn lt(&mut self, a: Tid, b: Tid) -> Bid {
        if a == b {
            return FALSE;
        }
        match (self.t(a).clone(), self.t(b).clone()) {
            (Term::Int(x), Term::Int(y)) => return if x < y { TRUE } else { FALSE },
            (Term::Char(x), Term::Char(y)) => return if x < y { TRUE } else { FALSE },
            (Term::Ite(c, x, y), _) => {
                let p = self.lt(x, b);
                let q = self.lt(y, b);
                return self.bite(c, p, q);
            }
            (_, Term::Ite(c, x, y)) => {
                let p = self.lt(a, x);
                let q = self.lt(a, y);
                return self.bite(c, p, q);
            }
            // unsigned domain: nothing below zero; x < 1 is x == 0; 0 < x is x != 0
            (_, Term::Int(0)) => return FALSE,
            (_, Term::Int(1)) => {
                let z = self.int(0);
                return self.eq(a, z);
            }
            (Term::Int(0), _) => {
                let e = self.eq(a, b);
                return self.not(e);
            }
            // a < x + 1  is  not (x < a)
            (_, Term::Call(f, xs)) if &*f == "add" && xs.len() == 2 && xs.iter().any(|x| matches!(self.t(*x), Term::Int(1))) => {
                let x = if matches!(self.t(xs[0]), Term::Int(1)) { xs[1] } else { xs[0] };
                let l = self.lt(x, a);
                return self.not(l);
            }
            // k < x  is  not (x < k+1)
            (Term::Int(k), _) => {
                let k1 = self.int(k + 1);
                let l = self.lt(b, k1);
                return self.not(l);
            }
            _ => {}
        }
        self.atom(Atom::Lt(a, b))
    }
    pub fn le(&mut self, a: Tid, b: Tid) -> Bid {
        let l = self.lt(b, a);
        self.not(l)
    }
    pub fn ovf(&mut self, op: &str, a: Tid, b: Tid) -> Bid {
        if let (Term::Int(_), Term::Int(_)) = (self.t(a), self.t(b)) {
            return FALSE;
        }
        let (x, y) = if op == "sub" || a < b { (a, b) } else { (b, a) };
        self.atom(Atom::Ovf(op.into(), x, y))
    }
    /// a condition over an element, split on a predicate that does not depend on the element
    pub fn invariant_split(&mut self, el: Tid, c: Bid) -> Option<(Bid, Bid, Bid)> {
        if c <= 1 {
            return None;
        }
        let sup: Vec<u32> = self.support(c).into_iter().collect();
        let mut indep = vec![];
        for a in &sup {
            let n = self.node(*a, FALSE, TRUE);
            if !self.bdd_mentions(n, &|t, x| t == el || matches!(x, Term::LoopVar(..))) && !matches!(self.atoms[*a as usize], Atom::Nondet(_)) {
                indep.push(n);
            }
        }
        if indep.is_empty() || indep.len() > 6 {
            return None;
        }
        let p = indep[0];
        let np = self.not(p);
        let c1 = self.constrain(c, p);
        let c0 = self.constrain(c, np);
        Some((p, c1, c0))
    }
    pub fn exists(&mut self, src: Tid, lvl: u32, c: Bid) -> Bid {
        if c == FALSE {
            return FALSE;
        }
        if let Term::Ctor(n, fs) = self.t(src).clone() {
            if &*n == "[]" {
                // explicit array: expand
                let el = self.mk(Term::Elem(src, lvl));
                let mut r = FALSE;
                for (_, x) in fs {
                    let s = self.subst_bdd(c, el, x);
                    r = self.or(r, s);
                }
                return r;
            }
        }
        match self.t(src).clone() {
            Term::Ite(g, a, b) => {
                let el0 = self.mk(Term::Elem(src, lvl));
                let el = self.konst("#elem");
                let c = self.subst_bdd(c, el0, el);
                let mut rs = vec![];
                for x in [a, b] {
                    let ex = self.mk(Term::Elem(x, lvl));
                    if self.bdd_mentions(c, &|t, _| t == ex) {
                        break;
                    }
                    let cx = self.subst_bdd(c, el, ex);
                    rs.push(self.exists(x, lvl, cx));
                }
                if rs.len() == 2 {
                    return self.bite(g, rs[0], rs[1]);
                }
            }
            Term::Call(f, xs) if &*f == "push" && xs.len() == 2 => {
                let el0 = self.mk(Term::Elem(src, lvl));
                let el = self.konst("#elem");
                let c = self.subst_bdd(c, el0, el);
                let ex = self.mk(Term::Elem(xs[0], lvl));
                if !self.bdd_mentions(c, &|t, _| t == ex) {
                    let hit = self.subst_bdd(c, el, xs[1]);
                    let cx = self.subst_bdd(c, el, ex);
                    let rest = self.exists(xs[0], lvl, cx);
                    return self.or(hit, rest);
                }
            }
            Term::Compr(b2, l2, c2, v2) => {
                let el0 = self.mk(Term::Elem(src, lvl));
                let el = self.konst("#elem");
                let c = self.subst_bdd(c, el0, el);
                let ex = self.mk(Term::Elem(b2, l2));
                if !self.bdd_mentions(c, &|t, _| t == ex) {
                    let cx = self.subst_bdd(c, el, v2);
                    let cx = self.and(c2, cx);
                    return self.exists(b2, l2, cx);
                }
            }
            _ => {}
        }
        if c == TRUE {
            let l = self.call("len", vec![src]);
            let z = self.int(0);
            let e = self.eq(l, z);
            return self.not(e);
        }
        let el = self.mk(Term::Elem(src, lvl));
        let sup: Vec<u32> = self.support(c).into_iter().collect();
        let mut indep = vec![];
        for a in &sup {
            let n = self.node(*a, FALSE, TRUE);
            if !self.bdd_mentions(n, &|t, x| t == el || matches!(x, Term::LoopVar(..))) && !matches!(self.atoms[*a as usize], Atom::Nondet(_)) {
                indep.push(n);
            }
        }
        // conditions that do not depend on the element move out of the quantifier
        if !indep.is_empty() && indep.len() <= 10 {
            let p = indep[0];
            let np = self.not(p);
            let c1 = self.constrain(c, p);
            let c0 = self.constrain(c, np);
            let x = self.exists(src, lvl, c1);
            let y = self.exists(src, lvl, c0);
            return self.bite(p, x, y);
        }
        // the item in one given place
        if let Some((n, at, q)) = self.placed(src, lvl, c) {
            let rest = self.constrain(c, n);
            let rest = self.subst_bdd(rest, at, q);
            let x = self.call("index", vec![src, q]);
            let phi = self.subst_bdd(rest, el, x);
            if !self.bdd_mentions(phi, &|u, _| u == el) {
                let l = self.call("len", vec![src]);
                let base = self.lt(q, l);
                return self.and(base, phi);
            }
        }
        // one-point rule: exists x: t(x) == q && phi(t(x))  is  (exists x: t(x) == q) && phi(q)
        for a in &sup {
            if let Atom::Eq(x, y) = self.atoms[*a as usize].clone() {
                let n = self.node(*a, FALSE, TRUE);
                if !self.leq(c, n) {
                    continue;
                }
                for (t, q) in [(x, y), (y, x)] {
                    if !self.mentions(t, el) || self.mentions_p(q, &|u, z| u == el || matches!(z, Term::LoopVar(..))) {
                        continue;
                    }
                    let key = match self.t(t) {
                        Term::Field(b, f) if *b == el && &**f == "0" => true,
                        _ => false,
                    };
                    let rest = self.constrain(c, n);
                    let phi = self.subst_bdd(rest, t, q);
                    if self.bdd_mentions(phi, &|u, _| u == el) {
                        continue;
                    }
                    let base = if key {
                        let g = self.call("map_get", vec![src, q]);
                        self.is(g, "Some")
                    } else {
                        self.atom(Atom::Exists(src, lvl, n))
                    };
                    return self.and(base, phi);
                }
            }
        }
        self.atom(Atom::Exists(src, lvl, c))
    }
    /// the place an item must have for `c` to hold: the condition, the place's term, its value
    pub fn placed(&mut self, src: Tid, lvl: u32, c: Bid) -> Option<(Bid, Tid, Tid)> {
        let el = self.mk(Term::Elem(src, lvl));
        let at = self.call("index_of", vec![el]);
        for a in self.support(c) {
            if let Atom::Eq(x, y) = self.atoms[a as usize].clone() {
                let q = if x == at { y } else if y == at { x } else { continue };
                let n = self.node(a, FALSE, TRUE);
                if self.leq(c, n) && !self.mentions_p(q, &|u, z| u == el || matches!(z, Term::LoopVar(..))) {
                    return Some((n, at, q));
                }
            }
        }
        None
    }
    // ---------- arithmetic ----------
    pub fn sat_add(&mut self, a: Tid, b: Tid) -> Tid {
        if let Term::Int(0) = self.t(a) {
            return b;
        }
        if let Term::Int(0) = self.t(b) {
            return a;
        }
        let (p, q) = if a <= b { (a, b) } else { (b, a) };
        self.call("sat_add", vec![p, q])
    }
    pub fn sat_op(&mut self, op: &str, a: Tid, b: Tid) -> Tid {
        if op == "add" {
            return self.sat_add(a, b);
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        self.call(&format!("sat_{}", op), vec![x, y])
    }
    pub fn arith(&mut self, op: &str, a: Tid, b: Tid) -> Tid {
        if let (Term::Int(x), Term::Int(y)) = (self.t(a).clone(), self.t(b).clone()) {
            let r = match op {
                "add" => x.checked_add(y),
                "sub" => x.checked_sub(y),
                "mul" => x.checked_mul(y),
                "div" => {
                    if y != 0 {
                        Some(x / y)
                    } else {
                        None
                    }
                }
                "rem" => {
                    if y != 0 {
                        Some(x % y)
                    } else {
                        None
                    }
                }
                "bitand" => Some(x & y),
                "bitor" => Some(x | y),
                "bitxor" => Some(x ^ y),
                "shl" => if y < 100 { x.checked_shl(y as u32) } else { None },
                "shr" => if y < 100 { x.checked_shr(y as u32) } else { None },
                _ => None,
            };
            if let Some(r) = r {
                return self.int(r);
            }
        }
        match (op, self.t(a).clone(), self.t(b).clone()) {
            ("add", Term::Int(0), _) => return b,
            ("add" | "sub", _, Term::Int(0)) => return a,
            ("mul", Term::Int(1), _) => return b,
            ("mul" | "div", _, Term::Int(1)) => return a,
            // (x + a) + b with ints
            ("add" | "sub", Term::Call(f, xs), Term::Int(k)) if &*f == "add" && xs.len() == 2 => {
                for (i, j) in [(0, 1), (1, 0)] {
                    if let Term::Int(m) = self.t(xs[j]).clone() {
                        let kk = if op == "add" { m + k } else { m - k };
                        if kk >= 0 {
                            let kt = self.int(kk);
                            return self.arith("add", xs[i], kt);
                        }
                    }
                }
            }
            _ => {}
        }
        if op == "sub" {
            // what is added on both sides cancels
            let addends = |c: &Self, t: Tid| {
                let (mut o, mut q) = (vec![], vec![t]);
                while let Some(x) = q.pop() {
                    match c.t(x) {
                        Term::Call(f, ys) if &**f == "add" && ys.len() == 2 => q.extend(ys.iter().copied()),
                        _ => o.push(x),
                    }
                }
                o
            };
            let mut p = addends(self, a);
            let mut m = addends(self, b);
            let n0 = p.len();
            m.retain(|x| match p.iter().position(|y| y == x) {
                Some(i) => {
                    p.remove(i);
                    false
                }
                None => true,
            });
            if p.len() < n0 {
                let mut x = self.int(0);
                for y in p {
                    x = self.arith("add", x, y);
                }
                let mut z = self.int(0);
                for y in m {
                    z = self.arith("add", z, y);
                }
                return self.arith("sub", x, z);
            }
        }
        if op == "add" {
            let is_add = |c: &Self, t: Tid| matches!(c.t(t), Term::Call(f, xs) if &**f == "add" && xs.len() == 2);
            if is_add(self, a) || is_add(self, b) {
                let (mut xs, mut k, mut q) = (vec![], 0i128, vec![a, b]);
                while let Some(t) = q.pop() {
                    match self.t(t).clone() {
                        Term::Int(m) => k = k.saturating_add(m),
                        Term::Call(_, ys) if is_add(self, t) => q.extend(ys),
                        _ => xs.push(t),
                    }
                }
                xs.sort();
                let mut acc = xs[0];
                for x in &xs[1..] {
                    let (p, q) = if acc <= *x { (acc, *x) } else { (*x, acc) };
                    acc = self.call("add", vec![p, q]);
                }
                if k != 0 {
                    let kt = self.int(k);
                    let (p, q) = if acc <= kt { (acc, kt) } else { (kt, acc) };
                    acc = self.call("add", vec![p, q]);
                }
                return acc;
            }
        }
        if op == "mul" {
            // products are flat, their constants multiplied out
            let is_mul = |c: &Self, t: Tid| matches!(c.t(t), Term::Call(f, xs) if &**f == "mul" && xs.len() == 2);
            if is_mul(self, a) || is_mul(self, b) {
                let (mut xs, mut k, mut q) = (vec![], Some(1i128), vec![a, b]);
                while let Some(t) = q.pop() {
                    match self.t(t).clone() {
                        Term::Int(m) => k = k.and_then(|k| k.checked_mul(m)),
                        Term::Call(_, ys) if is_mul(self, t) => q.extend(ys),
                        _ => xs.push(t),
                    }
                }
                if let (Some(k), false) = (k, xs.is_empty()) {
                    xs.sort();
                    if k != 1 {
                        let kt = self.int(k);
                        xs.push(kt);
                    }
                    let mut acc = xs[0];
                    for x in &xs[1..] {
                        let (p, q) = if acc <= *x { (acc, *x) } else { (*x, acc) };
                        acc = self.call("mul", vec![p, q]);
                    }
                    return acc;
                }
            }
        }
        match op {
            "add" | "mul" | "bitand" | "bitor" | "bitxor" | "min" | "max" => {
                let (x, y) = if a <= b { (a, b) } else { (b, a) };
                self.call(op, vec![x, y])
            }
            _ => self.call(op, vec![a, b]),
        }
    }
    // ---------- BDD ----------
    pub fn node(&mut self, var: u32, lo: Bid, hi: Bid) -> Bid {
        if lo == hi {
            return lo;
        }
        let n = Node { var, lo, hi };
        if let Some(&i) = self.nmap.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Bid;
        self.nodes.push(n);
        self.nmap.insert(n, i);
        i
    }
    fn top(&self, b: Bid) -> u32 {
        self.nodes[b as usize].var
    }
    fn cof(&self, b: Bid, v: u32) -> (Bid, Bid) {
        let n = self.nodes[b as usize];
        if n.var == v {
            (n.lo, n.hi)
        } else {
            (b, b)
        }
    }
    pub fn bite(&mut self, f: Bid, g: Bid, h: Bid) -> Bid {
        if f == TRUE {
            return g;
        }
        if f == FALSE {
            return h;
        }
        if g == h {
            return g;
        }
        if g == TRUE && h == FALSE {
            return f;
        }
        if let Some(&r) = self.ite_cache.get(&(f, g, h)) {
            return r;
        }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.bite(f0, g0, h0);
        let hi = self.bite(f1, g1, h1);
        let r = self.node(v, lo, hi);
        self.ite_cache.insert((f, g, h), r);
        r
    }
    pub fn not(&mut self, a: Bid) -> Bid {
        self.bite(a, FALSE, TRUE)
    }
    pub fn and(&mut self, a: Bid, b: Bid) -> Bid {
        self.bite(a, b, FALSE)
    }
    pub fn or(&mut self, a: Bid, b: Bid) -> Bid {
        self.bite(a, TRUE, b)
    }
    pub fn biff(&mut self, a: Bid, b: Bid) -> Bid {
        let nb = self.not(b);
        self.bite(a, b, nb)
    }
    pub fn imp(&mut self, a: Bid, b: Bid) -> Bid {
        self.bite(a, b, TRUE)
    }
    /// purely Boolean entailment
    pub fn leq(&mut self, a: Bid, b: Bid) -> bool {
        self.imp(a, b) == TRUE
    }
    /// generalised cofactor: value of f where c holds
    pub fn constrain(&mut self, f: Bid, c: Bid) -> Bid {
        if c == TRUE || f <= 1 {
            return f;
        }
        if c == FALSE {
            return FALSE;
        }
        if f == c {
            return TRUE;
        }
        if let Some(&r) = self.con_cache.get(&(f, c)) {
            return r;
        }
        let v = self.top(f).min(self.top(c));
        let (c0, c1) = self.cof(c, v);
        let (f0, f1) = self.cof(f, v);
        let r = if c0 == FALSE {
            self.constrain(f1, c1)
        } else if c1 == FALSE {
            self.constrain(f0, c0)
        } else if self.top(f) != v {
            // f does not depend on v: existentially abstract v from the care set
            let cc = self.or(c0, c1);
            self.constrain(f, cc)
        } else {
            let lo = self.constrain(f0, c0);
            let hi = self.constrain(f1, c1);
            self.node(v, lo, hi)
        };
        self.con_cache.insert((f, c), r);
        r
    }
    pub fn support(&self, b: Bid) -> BTreeSet<u32> {
        let mut seen = HashSet::new();
        let mut out = BTreeSet::new();
        let mut st = vec![b];
        while let Some(x) = st.pop() {
            if x <= 1 || !seen.insert(x) {
                continue;
            }
            let n = self.nodes[x as usize];
            out.insert(n.var);
            st.push(n.lo);
            st.push(n.hi);
        }
        out
    }
    pub fn support_many(&self, bs: &[Bid]) -> BTreeSet<u32> {
        let mut o = BTreeSet::new();
        for b in bs {
            o.extend(self.support(*b));
        }
        o
    }
    /// rebuild a BDD with each atom replaced by a condition
    pub fn map_atoms(&mut self, b: Bid, f: &mut dyn FnMut(&mut Cx, u32) -> Bid) -> Bid {
        let mut memo: HashMap<Bid, Bid> = HashMap::new();
        self.map_atoms_rec(b, f, &mut memo)
    }
    fn map_atoms_rec(&mut self, b: Bid, f: &mut dyn FnMut(&mut Cx, u32) -> Bid, memo: &mut HashMap<Bid, Bid>) -> Bid {
        if b <= 1 {
            return b;
        }
        if let Some(&r) = memo.get(&b) {
            return r;
        }
        let n = self.nodes[b as usize];
        let lo = self.map_atoms_rec(n.lo, f, memo);
        let hi = self.map_atoms_rec(n.hi, f, memo);
        let c = f(self, n.var);
        let r = self.bite(c, hi, lo);
        memo.insert(b, r);
        r
    }
    pub fn is_option(&self, t: Tid) -> bool {
        match self.t(t) {
            Term::Ctor(n, _) => matches!(&**n, "Some" | "None"),
            Term::Const(n) => &**n == "None",
            Term::Ite(_, x, y) => self.is_option(*x) && self.is_option(*y),
            _ => false,
        }
    }
    pub fn subst_bdd(&mut self, b: Bid, from: Tid, to: Tid) -> Bid {
        self.map_atoms(b, &mut |cx, a| cx.subst_atom(a, from, to))
    }
    pub fn subst_atom(&mut self, a: u32, from: Tid, to: Tid) -> Bid {
        let at = self.atoms[a as usize].clone();
        match at {
            Atom::B(t) => {
                let x = self.subst(t, from, to);
                self.cond(x)
            }
            Atom::Eq(x, y) => {
                let p = self.subst(x, from, to);
                let q = self.subst(y, from, to);
                self.eq(p, q)
            }
            Atom::Lt(x, y) => {
                let p = self.subst(x, from, to);
                let q = self.subst(y, from, to);
                self.lt(p, q)
            }
            Atom::Is(t, v) => {
                let x = self.subst(t, from, to);
                self.is(x, &v)
            }
            Atom::Exists(s, l, c) => {
                let x = self.subst(s, from, to);
                let cc = self.subst_bdd(c, from, to);
                self.exists(x, l, cc)
            }
            Atom::Ovf(o, x, y) => {
                let p = self.subst(x, from, to);
                let q = self.subst(y, from, to);
                self.ovf(&o, p, q)
            }
            Atom::Nondet(_) => self.node(a, FALSE, TRUE),
        }
    }
    pub fn subst(&mut self, t: Tid, from: Tid, to: Tid) -> Tid {
        if t == from {
            return to;
        }
        if !self.mentions(t, from) {
            return t;
        }
        match self.t(t).clone() {
            Term::Ctor(n, fs) => {
                let g = fs.into_iter().map(|(k, v)| (k, self.subst(v, from, to))).collect();
                self.mk(Term::Ctor(n, g))
            }
            Term::Field(b, f) => {
                let x = self.subst(b, from, to);
                self.field(x, &f)
            }
            Term::Payload(b, v, f) => {
                let x = self.subst(b, from, to);
                self.payload(x, &v, &f)
            }
            Term::Call(f, xs) => {
                let ys: Vec<Tid> = xs.into_iter().map(|x| self.subst(x, from, to)).collect();
                if &*f == "sat_add" && ys.len() == 2 {
                    return self.sat_add(ys[0], ys[1]);
                }
                if ys.len() == 2 && matches!(&*f, "add" | "sub" | "mul" | "div" | "rem" | "bitand" | "bitor" | "bitxor" | "min" | "max") {
                    return self.arith(&f, ys[0], ys[1]);
                }
                self.mk(Term::Call(f, ys))
            }
            Term::Ite(c, a, b) => {
                let cc = self.subst_bdd(c, from, to);
                let x = self.subst(a, from, to);
                let y = self.subst(b, from, to);
                self.ite(cc, x, y)
            }
            Term::Update(b, f, v) => {
                let x = self.subst(b, from, to);
                let y = self.subst(v, from, to);
                self.update(x, &f, y)
            }
            Term::Read(s, ks) => {
                let ys = ks.into_iter().map(|x| self.subst(x, from, to)).collect();
                self.mk(Term::Read(s, ys))
            }
            Term::Elem(c, l) => {
                let x = self.subst(c, from, to);
                self.mk(Term::Elem(x, l))
            }
            Term::Bool(b) => {
                let x = self.subst_bdd(b, from, to);
                self.boolt(x)
            }
            Term::Compr(s, l, c, v) => {
                let s2 = self.subst(s, from, to);
                let c2 = self.subst_bdd(c, from, to);
                let v2 = self.subst(v, from, to);
                self.mk(Term::Compr(s2, l, c2, v2))
            }
            Term::Sum(s, l, c, v) => {
                let s2 = self.subst(s, from, to);
                let c2 = self.subst_bdd(c, from, to);
                let v2 = self.subst(v, from, to);
                self.mk(Term::Sum(s2, l, c2, v2))
            }
            _ => t,
        }
    }
    pub fn atom_terms(&self, a: u32) -> Vec<Tid> {
        match &self.atoms[a as usize] {
            Atom::B(t) | Atom::Is(t, _) => vec![*t],
            Atom::Eq(x, y) | Atom::Lt(x, y) | Atom::Ovf(_, x, y) => vec![*x, *y],
            Atom::Exists(s, _, _) => vec![*s],
            Atom::Nondet(_) => vec![],
        }
    }
    pub fn children(&self, t: Tid) -> Vec<Tid> {
        let mut o = vec![];
        let mut bs = vec![];
        match self.t(t) {
            Term::Ctor(_, fs) => o.extend(fs.iter().map(|x| x.1)),
            Term::Field(b, _) | Term::Payload(b, _, _) | Term::Elem(b, _) => o.push(*b),
            Term::Call(_, xs) | Term::Read(_, xs) => o.extend(xs.iter().copied()),
            Term::Ite(c, a, b) => {
                bs.push(*c);
                o.push(*a);
                o.push(*b);
            }
            Term::Update(b, _, v) => {
                o.push(*b);
                o.push(*v);
            }
            Term::Bool(b) => bs.push(*b),
            Term::Compr(s, _, c, v) | Term::Sum(s, _, c, v) => {
                o.push(*s);
                o.push(*v);
                bs.push(*c);
            }
            _ => {}
        }
        for b in bs {
            for a in self.support(b) {
                o.extend(self.atom_terms(a));
                if let Atom::Exists(_, _, c) = &self.atoms[a as usize] {
                    for a2 in self.support(*c) {
                        o.extend(self.atom_terms(a2));
                    }
                }
            }
        }
        o
    }
    /// does `t` depend on `x` (sub-term, through conditions too)
    pub fn mentions(&self, t: Tid, x: Tid) -> bool {
        self.mentions_p(t, &|u, _| u == x)
    }
    pub fn mentions_p(&self, t: Tid, p: &dyn Fn(Tid, &Term) -> bool) -> bool {
        let mut seen = HashSet::new();
        let mut st = vec![t];
        while let Some(u) = st.pop() {
            if !seen.insert(u) {
                continue;
            }
            if p(u, self.t(u)) {
                return true;
            }
            st.extend(self.children(u));
        }
        false
    }
    pub fn subterms(&self, t: Tid) -> BTreeSet<Tid> {
        let mut seen = BTreeSet::new();
        let mut st = vec![t];
        while let Some(u) = st.pop() {
            if !seen.insert(u) {
                continue;
            }
            st.extend(self.children(u));
        }
        seen
    }
    pub fn bdd_mentions(&self, b: Bid, p: &dyn Fn(Tid, &Term) -> bool) -> bool {
        for a in self.support(b) {
            for t in self.atom_terms(a) {
                if self.mentions_p(t, p) {
                    return true;
                }
            }
            if let Atom::Exists(_, _, c) = &self.atoms[a as usize] {
                if self.bdd_mentions(*c, p) {
                    return true;
                }
            }
        }
        false
    }
    // ---------- theory-aware entailment ----------
    pub fn theory(&mut self, vars: &BTreeSet<u32>) -> Bid {
        let mut ax = TRUE;
        let atoms: Vec<(u32, Atom)> = vars.iter().map(|v| (*v, self.atoms[*v as usize].clone())).collect();
        let mut by_is: BTreeMap<Tid, Vec<u32>> = BTreeMap::new();
        for (v, a) in &atoms {
            if let Atom::Is(t, _) = a {
                by_is.entry(*t).or_default().push(*v);
            }
        }
        for (_, vs) in by_is {
            for i in 0..vs.len() {
                for j in i + 1..vs.len() {
                    let (p, q) = (self.node(vs[i], FALSE, TRUE), self.node(vs[j], FALSE, TRUE));
                    let b = self.and(p, q);
                    let nb = self.not(b);
                    ax = self.and(ax, nb);
                }
            }
        }
        for i in 0..atoms.len() {
            for j in 0..atoms.len() {
                if i == j {
                    continue;
                }
                let (vi, vj) = (self.node(atoms[i].0, FALSE, TRUE), self.node(atoms[j].0, FALSE, TRUE));
                let mut add: Option<Bid> = None;
                match (&atoms[i].1, &atoms[j].1) {
                    // a<b and b<a, a<b and a==b exclusive
                    (Atom::Lt(a, b), Atom::Lt(c, d)) if a == d && b == c && i < j => {
                        let x = self.and(vi, vj);
                        add = Some(self.not(x));
                        // totality when Eq is also there is handled below
                    }
                    (Atom::Lt(a, b), Atom::Eq(c, d)) if (a == c && b == d) || (a == d && b == c) => {
                        let x = self.and(vi, vj);
                        add = Some(self.not(x));
                    }
                    // a small number plus a small one does not overflow
                    (Atom::Ovf(o, a, b), Atom::Eq(c, d)) if &**o == "add" => {
                        for (x, n, y, m) in [(a, b, c, d), (a, b, d, c), (b, a, c, d), (b, a, d, c)] {
                            if x == y && matches!((self.t(*n), self.t(*m)), (Term::Int(n), Term::Int(m)) if *n >= 0 && *m >= 0 && n + m < 128) {
                                let x = self.and(vi, vj);
                                add = Some(self.not(x));
                            }
                        }
                    }
                    (Atom::Lt(a, k1), Atom::Lt(c, k2)) if a == c => {
                        if let (Term::Int(x), Term::Int(y)) = (self.t(*k1).clone(), self.t(*k2).clone()) {
                            if x < y {
                                add = Some(self.imp(vi, vj));
                            }
                        }
                    }
                    (Atom::Eq(a, b), Atom::Lt(c, k)) => {
                        // x == m, x < k
                        for (x, m) in [(*a, *b), (*b, *a)] {
                            if x == *c {
                                if let (Term::Int(m), Term::Int(k)) = (self.t(m).clone(), self.t(*k).clone()) {
                                    add = Some(if m < k {
                                        self.imp(vi, vj)
                                    } else {
                                        let z = self.and(vi, vj);
                                        self.not(z)
                                    });
                                }
                            }
                        }
                    }
                    (Atom::Eq(a, b), Atom::Eq(c, d)) if i < j => {
                        for (x, m) in [(*a, *b), (*b, *a)] {
                            for (y, n) in [(*c, *d), (*d, *c)] {
                                if x == y && m != n && self.distinct_consts(m, n) {
                                    let z = self.and(vi, vj);
                                    add = Some(self.not(z));
                                }
                            }
                        }
                    }
                    (Atom::Exists(s1, l1, c1), Atom::Exists(s2, l2, c2)) if s1 == s2 && l1 == l2 => {
                        if self.implies(*c1, *c2) {
                            add = Some(self.imp(vi, vj));
                        }
                    }
                    // nonempty: Exists(src, c) => not (len(src) == 0)
                    (Atom::Exists(s1, _, _), Atom::Eq(a, b)) => {
                        let l = self.call("len", vec![*s1]);
                        let z = self.int(0);
                        if (*a == l && *b == z) || (*b == l && *a == z) {
                            let nb = self.not(vj);
                            add = Some(self.imp(vi, nb));
                        }
                    }
                    _ => {}
                }
                if let Some(x) = add {
                    ax = self.and(ax, x);
                }
            }
        }
        // an element with one property has one of the properties it entails together
        let mut groups: BTreeMap<(Tid, u32), Vec<(u32, Bid)>> = BTreeMap::new();
        for (v, a) in &atoms {
            if let Atom::Exists(s, l, c) = a {
                groups.entry((*s, *l)).or_default().push((*v, *c));
            }
        }
        for ((src, _), mut g) in groups {
            // "there is an element" is the existence of one with no particular property
            let l = self.call("len", vec![src]);
            let z = self.int(0);
            let (x, y) = if l < z { (l, z) } else { (z, l) };
            let empty = self.amap.get(&Atom::Eq(x, y)).copied().filter(|e| vars.contains(e));
            if let Some(e) = empty {
                g.push((e, TRUE));
            }
            if g.len() < 3 || g.len() > 12 {
                continue;
            }
            for i in 0..g.len() {
                let mut others: Vec<(u32, Bid)> = g.iter().enumerate().filter(|x| x.0 != i && Some(x.1 .0) != empty).map(|x| *x.1).collect();
                let covers = |me: &mut Self, o: &[(u32, Bid)]| {
                    let mut u = FALSE;
                    for x in o {
                        u = me.or(u, x.1);
                    }
                    me.implies(g[i].1, u)
                };
                if !covers(self, &others) {
                    continue;
                }
                let mut k = 0;
                while k < others.len() {
                    let mut fewer = others.clone();
                    fewer.remove(k);
                    if !fewer.is_empty() && covers(self, &fewer) {
                        others = fewer;
                    } else {
                        k += 1;
                    }
                }
                if others.len() > 1 {
                    let mut u = FALSE;
                    for x in others {
                        let n = self.node(x.0, FALSE, TRUE);
                        u = self.or(u, n);
                    }
                    let mut e = self.node(g[i].0, FALSE, TRUE);
                    if Some(g[i].0) == empty {
                        e = self.not(e);
                    }
                    let x = self.imp(e, u);
                    ax = self.and(ax, x);
                }
            }
        }
        // totality: Lt(a,b) | Lt(b,a) | Eq(a,b) when all three are present
        for i in 0..atoms.len() {
            if let Atom::Lt(a, b) = atoms[i].1 {
                let (x, y) = if a < b { (a, b) } else { (b, a) };
                let e = self.amap.get(&Atom::Eq(x, y)).copied();
                let r = self.amap.get(&Atom::Lt(b, a)).copied();
                if let (Some(e), Some(r)) = (e, r) {
                    if vars.contains(&e) && vars.contains(&r) {
                        let p = self.node(atoms[i].0, FALSE, TRUE);
                        let q = self.node(e, FALSE, TRUE);
                        let s = self.node(r, FALSE, TRUE);
                        let o = self.or(p, q);
                        let o = self.or(o, s);
                        ax = self.and(ax, o);
                    }
                }
            }
        }
        // transitivity of Lt over three terms
        for i in 0..atoms.len() {
            if let Atom::Lt(a, b) = atoms[i].1 {
                for j in 0..atoms.len() {
                    if let Atom::Lt(b2, c) = atoms[j].1 {
                        if b == b2 && a != c {
                            if let Some(k) = self.amap.get(&Atom::Lt(a, c)).copied() {
                                if vars.contains(&k) {
                                    let p = self.node(atoms[i].0, FALSE, TRUE);
                                    let q = self.node(atoms[j].0, FALSE, TRUE);
                                    let s = self.node(k, FALSE, TRUE);
                                    let pq = self.and(p, q);
                                    let im = self.imp(pq, s);
                                    ax = self.and(ax, im);
                                }
                            }
                        }
                    }
                }
            }
        }
        ax
    }
    fn distinct_consts(&self, a: Tid, b: Tid) -> bool {
        match (self.t(a), self.t(b)) {
            (Term::Int(x), Term::Int(y)) => x != y,
            (Term::Str(x), Term::Str(y)) => x != y,
            (Term::Char(x), Term::Char(y)) => x != y,
            _ => false,
        }
    }
    pub fn implies(&mut self, a: Bid, b: Bid) -> bool {
        if self.leq(a, b) {
            return true;
        }
        let vars = self.support_many(&[a, b]);
        let th = self.theory(&vars);
        let x = self.and(a, th);
        self.leq(x, b)
    }
    pub fn sat(&mut self, a: Bid) -> bool {
        !self.implies(a, FALSE)
    }
    pub fn equiv(&mut self, a: Bid, b: Bid) -> bool {
        self.implies(a, b) && self.implies(b, a)
    }
    /// one satisfying assignment of a & !b, for reports
    pub fn witness(&mut self, a: Bid, b: Bid) -> String {
        let nb = self.not(b);
        let x = self.and(a, nb);
        let vars = self.support_many(&[a, b]);
        let th = self.theory(&vars);
        let mut x = self.and(x, th);
        if x == FALSE {
            return "(none)".into();
        }
        let mut out = vec![];
        let want = if b > 1 { self.support(b) } else { Default::default() };
        while x > 1 {
            let n = self.nodes[x as usize];
            if !want.is_empty() && !want.contains(&n.var) {
                x = if n.hi != FALSE && (n.lo == FALSE || self.support(n.hi).len() <= self.support(n.lo).len()) { n.hi } else { n.lo };
                continue;
            }
            let n = self.nodes[x as usize];
            if n.hi != FALSE && (n.lo == FALSE || self.support(n.hi).len() <= self.support(n.lo).len()) {
                out.push(self.show_atom(n.var, true));
                x = n.hi;
            } else {
                out.push(self.show_atom(n.var, false));
                x = n.lo;
            }
        }
        out.join(" && ")
    }
    // ---------- printing ----------
    pub fn show_atom(&self, a: u32, pos: bool) -> String {
        let s = match &self.atoms[a as usize] {
            Atom::B(t) => self.show(*t),
            Atom::Eq(x, y) => {
                return format!("{} {} {}", self.show(*x), if pos { "==" } else { "!=" }, self.show(*y));
            }
            Atom::Lt(x, y) => {
                return if pos { format!("{} < {}", self.show(*x), self.show(*y)) } else { format!("{} >= {}", self.show(*x), self.show(*y)) };
            }
            Atom::Is(t, v) => format!("{} is {}", self.show(*t), v),
            Atom::Exists(s, _, c) => format!("exists x in {}: [{}]", self.show(*s), self.show_b(*c)),
            Atom::Ovf(o, x, y) => format!("overflow({} {}, {})", o, self.show(*x), self.show(*y)),
            Atom::Nondet(n) => format!("nondet#{}", n),
        };
        if pos {
            s
        } else {
            format!("!({})", s)
        }
    }
    pub fn show_b(&self, b: Bid) -> String {
        if b == TRUE {
            return "true".into();
        }
        if b == FALSE {
            return "false".into();
        }
        // list of cubes (limited)
        let mut cubes = vec![];
        let mut path: Vec<(u32, bool)> = vec![];
        let lim = std::env::var("FSA_CUBES").ok().and_then(|x| x.parse().ok()).unwrap_or(5);
        self.cubes(b, &mut path, &mut cubes, lim + 1);
        let mut s: Vec<String> = cubes
            .iter()
            .take(lim)
            .map(|c| c.iter().map(|(v, p)| self.show_atom(*v, *p)).collect::<Vec<_>>().join(" && "))
            .collect();
        if cubes.len() > lim {
            s.push("...".into());
        }
        s.join(" || ")
    }
    fn cubes(&self, b: Bid, path: &mut Vec<(u32, bool)>, out: &mut Vec<Vec<(u32, bool)>>, lim: usize) {
        if out.len() >= lim || b == FALSE {
            return;
        }
        if b == TRUE {
            out.push(path.clone());
            return;
        }
        let n = self.nodes[b as usize];
        path.push((n.var, true));
        self.cubes(n.hi, path, out, lim);
        path.pop();
        path.push((n.var, false));
        self.cubes(n.lo, path, out, lim);
        path.pop();
    }
    pub fn show(&self, t: Tid) -> String {
        let s = self.show_d(t, 0);
        let lim = if std::env::var("FSA_CUBES").is_ok() { 100_000 } else { 600 };
        if s.len() > lim {
            let mut e = lim;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            format!("{}…", &s[..e])
        } else {
            s
        }
    }
    fn show_d(&self, t: Tid, d: usize) -> String {
        if d > 12 {
            return "…".into();
        }
        let l = |xs: &Vec<Tid>| xs.iter().map(|x| self.show_d(*x, d + 1)).collect::<Vec<_>>().join(", ");
        match self.t(t) {
            Term::Int(i) => i.to_string(),
            Term::Str(s) => format!("{:?}", s),
            Term::Char(c) => format!("{:?}", c),
            Term::Bool(b) => {
                if d > 4 {
                    "{cond}".into()
                } else {
                    format!("{{{}}}", self.show_b(*b))
                }
            }
            Term::Const(s) => s.to_string(),
            Term::Param(s) => format!("${}", s),
            Term::Ctor(n, fs) => {
                if fs.is_empty() {
                    return n.to_string();
                }
                format!("{}({})", n, fs.iter().map(|(k, v)| if k.parse::<u32>().is_ok() { self.show_d(*v, d + 1) } else { format!("{}: {}", k, self.show_d(*v, d + 1)) }).collect::<Vec<_>>().join(", "))
            }
            Term::Field(b, f) => format!("{}.{}", self.show_d(*b, d + 1), f),
            Term::Payload(b, v, f) => format!("{}?{}{}", self.show_d(*b, d + 1), v, if &**f == "0" { String::new() } else { format!(".{}", f) }),
            Term::Call(f, xs) => format!("{}({})", f, l(xs)),
            Term::Ite(c, a, b) => {
                if d > 4 {
                    format!("ite(…, {}, {})", self.show_d(*a, d + 1), self.show_d(*b, d + 1))
                } else {
                    format!("if [{}] {{{}}} else {{{}}}", self.show_b(*c), self.show_d(*a, d + 1), self.show_d(*b, d + 1))
                }
            }
            Term::Update(b, f, v) => format!("{}{{{} := {}}}", self.show_d(*b, d + 1), f, self.show_d(*v, d + 1)),
            Term::Closure(i) => format!("closure#{}", i),
            Term::Read(s, ks) => format!("{}[{}]", s, l(ks)),
            Term::Elem(c, n) => format!("elem{}({})", n, self.show_d(*c, d + 1)),
            Term::LoopVar(a, b) => format!("loopvar{}_{}", a, b),
            Term::Havoc(i) => format!("havoc{}", i),
            Term::RefMut(v, p) => format!("&mut v{}{:?}", v, p),
            Term::Compr(s, _, c, v) => format!("[{} for x in {} if {}]", self.show_d(*v, d + 1), self.show_d(*s, d + 1), if d > 4 { "…".into() } else { self.show_b(*c) }),
            Term::Sum(s, _, c, v) => format!("sum({} for x in {} if {})", self.show_d(*v, d + 1), self.show_d(*s, d + 1), if d > 4 { "…".into() } else { self.show_b(*c) }),
        }
    }
}

pub fn is_variantish(n: &str) -> bool {
    matches!(n, "Some" | "Ok" | "Err")
}
