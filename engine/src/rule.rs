//! Rule API: run the value-flow analysis on an entry point, state facts about it in Rust
//! expressions over the entry state, and record obligations.
use crate::core::*;
use crate::eval::*;
use crate::load::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub what: String,
    pub at: String,
    pub witness: String,
}
#[derive(Default)]
pub struct Report {
    pub obligations: usize,
    pub discharged: usize,
    pub by_rule: BTreeMap<String, usize>,
    pub violations: Vec<Viol>,
    pub fns: BTreeSet<String>,
    pub files: BTreeSet<String>,
    pub effects: usize,
    pub calls: usize,
    pub guards: usize,
    pub unsupported: BTreeSet<String>,
    pub samples: Vec<String>,
}
impl Report {
    pub fn ob(&mut self, rule: &str, key: &str, ok: bool, what: &str, at: &str, witness: impl FnOnce() -> String) {
        self.obligations += 1;
        *self.by_rule.entry(rule.to_string()).or_insert(0) += 1;
        if ok {
            self.discharged += 1;
            if self.samples.len() < 12 {
                self.samples.push(format!("[{}] {} @ {}", rule, what, at));
            }
        } else {
            self.violations.push(Viol { key: key.to_string(), what: format!("[{}] {}", rule, what), at: at.to_string(), witness: witness() });
        }
    }
}

/// pure helpers that are analysed on their own and kept symbolic in their callers
pub const PURE: &[&str] = &["convert_to_canonical", "split_display_name", "generate_unique_suffixes", "is_reserved_handle", "contains_blocked_characters", "consists_of_supported_unicode_character_sets", "wrap_binary_data"];

pub struct Chk<'a> {
    pub ix: &'a Index,
    pub ixs: BTreeMap<&'static str, &'a Index>,
    pub prop: String,
    pub root: String,
    pub rep: Rc<RefCell<Report>>,
}

pub struct Run<'a> {
    pub ev: Ev<'a>,
    pub id: String,
    pub fi: Option<usize>,
    pub init: State,
    pub end: State,
    pub res: Tid,
    pub res_ty: Ty,
    pub events: Vec<Event>,
    pub ok: Bid,
    pub fr: Fr,
    pub at: String,
    pub rep: Rc<RefCell<Report>>,
    pub missing: bool,
    /// the assumption the analysed execution starts under
    pub assume: Bid,
    /// what success has been shown to require
    pub req: Vec<Bid>,
}

pub fn fn_qual(f: &FnInfo) -> String {
    match &f.self_ty {
        Some(s) => format!("{}::{}", s, f.name),
        None => f.name.clone(),
    }
}

impl<'a> Chk<'a> {
    pub fn find_fn(&self, ix: &Index, krate: &str, q: &str) -> Option<usize> {
        // "..#1" is the second of several, "Trait for Type::f" selects a trait impl
        let (q, nth) = match q.split_once('#') {
            Some((a, n)) => (a, n.parse::<usize>().unwrap_or(0)),
            None => (q, 0),
        };
        let (tr, q2) = match q.split_once(" for ") {
            Some((a, b)) => (Some(a), b),
            None => (None, q),
        };
        let mut c: Vec<usize> = ix.fns.iter().enumerate().filter(|(_, f)| f.krate == krate && fn_qual(f) == q2 && tr.map_or(true, |t| f.trait_.as_deref() == Some(t))).map(|x| x.0).collect();
        if c.is_empty() {
            // module-qualified function
            if let Some((m, n)) = q2.rsplit_once("::") {
                c = ix.fns.iter().enumerate().filter(|(_, f)| f.krate == krate && f.self_ty.is_none() && f.name == n && f.modpath.last().map(|s| s.as_str()) == Some(m)).map(|x| x.0).collect();
            }
        }
        if tr.is_none() {
            if let Some(i) = c.iter().copied().find(|i| ix.fns[*i].trait_.is_none()) {
                return Some(i);
            }
        }
        c.get(nth).copied()
    }
    pub fn run(&self, krate: &str, q: &str, params: &[&str]) -> Run<'a> {
        self.run_with(krate, q, params, &[])
    }
    pub fn expr(&self, krate: &str, name: &str, params: &[(&str, &str)], expr: &str) -> Run<'a> {
        self.run_expr(self.ix, krate, name, params, expr)
    }
    pub fn run_with(&self, krate: &str, q: &str, params: &[&str], opaque: &[&str]) -> Run<'a> {
        self.run_ix(self.ix, krate, q, params, opaque, "")
    }
    pub fn run_ix(&self, ix: &'a Index, krate: &str, q: &str, params: &[&str], opaque: &[&str], assume: &str) -> Run<'a> {
        self.run_n(ix, krate, q, params, opaque, assume, 0, false)
    }
    /// executions whose loops over unknown ranges end within `n` rounds, starting where `assume` holds
    pub fn run_unrolled(&self, krate: &str, q: &str, params: &[&str], opaque: &[&str], assume: &str, n: usize) -> Run<'a> {
        self.run_n(self.ix, krate, q, params, opaque, assume, n, false)
    }
    /// the same, and only the first `n` elements of lists of any length
    pub fn run_walked(&self, krate: &str, q: &str, params: &[&str], opaque: &[&str], assume: &str, n: usize) -> Run<'a> {
        self.run_n(self.ix, krate, q, params, opaque, assume, n, true)
    }
    #[allow(clippy::too_many_arguments)]
    fn run_n(&self, ix: &'a Index, krate: &str, q: &str, params: &[&str], opaque: &[&str], assume: &str, unroll: usize, lossy: bool) -> Run<'a> {
        let mut ev = Ev::new(ix);
        ev.unroll = unroll;
        ev.lossy = lossy;
        for o in opaque {
            ev.opaque.insert(o.to_string());
        }
        for o in PURE {
            if !q.ends_with(o) && krate != "handles-utils" {
                ev.opaque.insert(o.to_string());
            }
        }
        let fi = self.find_fn(ix, krate, q);
        let id = format!("{}/{}", krate, q);
        let st = ev.state();
        let unit = ev.c.unit();
        let mut run = match fi {
            None => {
                let cx = Ctx { krate: krate.into(), self_ty: None, fname: q.into(), file: String::new(), ret: Ty::Unknown, modpath: vec![] };
                Run { ev, id: id.clone(), fi: None, init: st.clone(), end: st, res: unit, res_ty: Ty::Unknown, events: vec![], ok: TRUE, fr: Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown }, at: id.clone(), rep: self.rep.clone(), missing: true, assume: TRUE, req: vec![] }
            }
            Some(i) => {
                let cx = ev.fn_ctx(i);
                let f = &ix.fns[i];
                let at = format!("{}:{} {}", f.file, f.line, fn_qual(f));
                let fr = Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown };
                Run { ev, id: id.clone(), fi, init: st.clone(), end: st, res: unit, res_ty: Ty::Unknown, events: vec![], ok: TRUE, fr, at, rep: self.rep.clone(), missing: false, assume: TRUE, req: vec![] }
            }
        };
        self.rep.borrow_mut().ob("anchor", &format!("{}/anchor", id), !run.missing, &format!("analysed function {} exists", id), &run.at, || "function not found in the current source".into());
        if let Some(i) = run.fi {
            let f = &ix.fns[i];
            let mut st = run.init.clone();
            let mut args = vec![];
            for (n, inp) in f.sig.inputs.iter().enumerate() {
                let nm = params.get(n).map(|s| s.to_string()).unwrap_or_else(|| format!("p{}", n));
                let (ty, by_mut) = match inp {
                    syn::FnArg::Receiver(r) => (f.self_ty.clone().map_or(Ty::Unknown, |s| Ty::Named(s, vec![])), r.reference.is_some() && r.mutability.is_some()),
                    syn::FnArg::Typed(p) => (run.ev.norm_ty(ty_of_syn(&p.ty, f.self_ty.as_deref())), matches!(&*p.ty, syn::Type::Reference(r) if r.mutability.is_some())),
                };
                let t = run.ev.c.mk(Term::Param(nm.as_str().into()));
                let id = run.ev.newvar(&mut st, t, ty.clone(), true);
                run.fr.env.push((nm, id));
                let a = if by_mut { run.ev.c.mk(Term::RefMut(id, vec![])) } else { t };
                args.push(V { t: a, ty });
            }
            let nparams_ok = params.is_empty() || params.len() == f.sig.inputs.len();
            self.rep.borrow_mut().ob("anchor", &format!("{}/arity", id), nparams_ok, &format!("{} takes {} parameters", id, params.len()), &run.at, || format!("it takes {}", f.sig.inputs.len()));
            run.init = st.clone();
            let caller = Fr { cx: run.fr.cx.clone(), env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown };
            if !assume.is_empty() {
                let b = run.spec_b(assume);
                st.pc = b;
                run.assume = b;
                run.init.pc = TRUE;
            }
            let r = run.ev.invoke(i, args, &mut st, &caller, 0);
            run.res = run.ev.val(&st, r.t);
            run.res_ty = r.ty;
            run.end = st;
            run.events = std::mem::take(&mut run.ev.events);
            let okv = run.ev.c.is(run.res, "Ok");
            run.ok = if run.res_ty.name() == "Result" { run.ev.c.and(run.end.pc, okv) } else { run.end.pc };
            self.account(&run, &id);
            run.reachable();
        }
        run
    }
    /// analyse a composition of the crate's functions: parameters (name, type) and an expression
    pub fn run_expr(&self, ix: &'a Index, krate: &str, name: &str, params: &[(&str, &str)], expr: &str) -> Run<'a> {
        self.run_expr_n(ix, krate, name, params, &[], expr, 0)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn run_expr_n(&self, ix: &'a Index, krate: &str, name: &str, params: &[(&str, &str)], opaque: &[&str], expr: &str, unroll: usize) -> Run<'a> {
        let mut ev = Ev::new(ix);
        ev.unroll = unroll;
        for o in opaque {
            ev.opaque.insert(o.to_string());
        }
        for o in PURE {
            if krate != "handles-utils" && !expr.contains(o) {
                ev.opaque.insert(o.to_string());
            }
        }
        let st = ev.state();
        let unit = ev.c.unit();
        let id = format!("{}/{}", krate, name);
        let cx = Ctx { krate: krate.into(), self_ty: None, fname: name.into(), file: String::new(), ret: Ty::Unknown, modpath: vec![] };
        let mut run = Run { ev, id: id.clone(), fi: None, init: st.clone(), end: st, res: unit, res_ty: Ty::Unknown, events: vec![], ok: TRUE, fr: Fr { cx, env: vec![], returns: vec![], loops: vec![], rty: Ty::Unknown }, at: id.clone(), rep: self.rep.clone(), missing: false, assume: TRUE, req: vec![] };
        let mut st = run.init.clone();
        for (n, ty) in params {
            let ty = match syn::parse_str::<syn::Type>(ty) {
                Ok(t) => run.ev.norm_ty(ty_of_syn(Box::leak(Box::new(t)), None)),
                Err(_) => Ty::Unknown,
            };
            let t = run.ev.c.mk(Term::Param((*n).into()));
            let v = run.ev.newvar(&mut st, t, ty, true);
            run.fr.env.push((n.to_string(), v));
        }
        run.init = st.clone();
        let e = parse_expr(expr);
        let mut fr = Fr { cx: run.fr.cx.clone(), env: run.fr.env.clone(), returns: vec![], loops: vec![], rty: Ty::Unknown };
        let r = run.ev.ex(e, &mut st, &mut fr);
        run.res = run.ev.val(&st, r.t);
        run.res_ty = r.ty;
        run.end = st;
        run.events = std::mem::take(&mut run.ev.events);
        let okv = run.ev.c.is(run.res, "Ok");
        run.ok = if run.res_ty.name() == "Result" { run.ev.c.and(run.end.pc, okv) } else { run.end.pc };
        if let Some(v) = run.ev.visited.iter().next() {
            let f = &ix.fns[*v];
            run.at = format!("{}:{} {}", f.file, f.line, fn_qual(f));
        }
        self.account(&run, &id);
        run.reachable();
        run
    }
    fn account(&self, run: &Run<'a>, id: &str) {
        let ix = run.ev.ix;
        let mut rp = self.rep.borrow_mut();
        for v in &run.ev.visited {
            let f = &ix.fns[*v];
            rp.fns.insert(format!("{}::{}", f.krate, fn_qual(f)));
            rp.files.insert(f.file.clone());
        }
        for u in run.ev.unsupported.keys() {
            rp.unsupported.insert(format!("{}: {}", id, u));
        }
        rp.effects += run.events.len();
        rp.calls += run.ev.ncalls;
        rp.guards += run.events.iter().map(|e| e.pc).collect::<BTreeSet<_>>().len();
    }
}

impl<'a> Run<'a> {
    fn parse(&self, s: &str) -> &'static syn::Expr {
        parse_expr(s)
    }
}
fn parse_expr(s: &str) -> &'static syn::Expr {
        match syn::parse_str::<syn::Expr>(s) {
            Ok(e) => Box::leak(Box::new(e)),
            Err(e) => panic!("bad specification expression `{}`: {}", s, e),
        }
}
impl<'a> Run<'a> {
    fn eval_in(&mut self, s: &str, st0: &State) -> V {
        let e = self.parse(s);
        let mut st = st0.clone();
        // parameters keep their entry value; storage is the state asked for
        for (k, v) in &self.init.vars {
            st.vars.insert(*k, *v);
        }
        st.pc = TRUE;
        self.ev.muted += 1;
        let op = self.ev.opaque.clone();
        self.ev.spec = true;
        let mut fr = Fr { cx: self.fr.cx.clone(), env: self.fr.env.clone(), returns: vec![], loops: vec![], rty: Ty::Unknown };
        let r = self.ev.ex(e, &mut st, &mut fr);
        self.ev.spec = false;
        self.ev.opaque = op;
        self.ev.muted -= 1;
        let t = self.ev.val(&st, r.t);
        V { t, ty: r.ty }
    }
    /// value of a Rust expression in the entry state
    pub fn spec(&mut self, s: &str) -> Tid {
        let st = self.init.clone();
        self.eval_in(s, &st).t
    }
    pub fn spec_end(&mut self, s: &str) -> Tid {
        let st = self.end.clone();
        self.eval_in(s, &st).t
    }
    pub fn spec_b(&mut self, s: &str) -> Bid {
        let t = self.spec(s);
        self.ev.c.cond(t)
    }
    /// name a value for later specifications
    pub fn bind(&mut self, name: &str, s: &str) -> &mut Self {
        let st = self.init.clone();
        let v = self.eval_in(s, &st);
        let mut i = self.init.clone();
        let id = self.ev.newvar(&mut i, v.t, v.ty, false);
        self.init = i;
        self.fr.env.push((name.into(), id));
        self
    }
    /// name a value computed by the repository's own functions
    pub fn bind_code(&mut self, name: &str, s: &str) -> &mut Self {
        let e = parse_expr(s);
        let mut st = self.init.clone();
        st.pc = TRUE;
        self.ev.muted += 1;
        let mut fr = Fr { cx: self.fr.cx.clone(), env: self.fr.env.clone(), returns: vec![], loops: vec![], rty: Ty::Unknown };
        let r = self.ev.ex(e, &mut st, &mut fr);
        self.ev.muted -= 1;
        let t = self.ev.val(&st, r.t);
        self.bind_t(name, t)
    }
    /// a value about which nothing is known
    pub fn sym(&mut self, name: &str) -> &mut Self {
        let t = self.ev.c.mk(Term::Param(format!("?{}", name).as_str().into()));
        self.bind_t(name, t)
    }
    pub fn bind_t(&mut self, name: &str, t: Tid) -> &mut Self {
        let mut i = self.init.clone();
        let id = self.ev.newvar(&mut i, t, Ty::Unknown, false);
        self.init = i;
        self.fr.env.push((name.into(), id));
        self
    }
    fn ob(&mut self, rule: &str, key: &str, a: Bid, b: Bid, what: &str, at: &str) -> bool {
        if self.missing {
            return false;
        }
        let mut ok = self.ev.entails(a, b);
        let mut w = String::new();
        if !ok {
            let a = self.ev.with_axioms(a, b);
            let rest = self.ev.c.residual(a, b);
            ok = rest == FALSE;
            if !ok {
                w = self.ev.c.witness(rest, b);
            }
        }
        let k = format!("{}/{}", self.id, key);
        self.rep.borrow_mut().ob(rule, &k, ok, what, at, || w);
        ok
    }
    /// some input makes the analysed code succeed, so that statements about success say something
    fn reachable(&mut self) {
        let mut x = self.ok;
        if x != FALSE {
            x = self.ev.with_axioms(x, FALSE);
            x = self.ev.c.residual(x, FALSE);
        }
        let what = format!("{} can succeed", self.id);
        self.fact("reachable", "reachable", x != FALSE, &what, "every path fails");
    }
    /// record a plain Boolean obligation
    pub fn fact(&mut self, rule: &str, key: &str, ok: bool, what: &str, witness: &str) {
        if self.missing {
            return;
        }
        let k = format!("{}/{}", self.id, key);
        let at = self.at.clone();
        self.rep.borrow_mut().ob(rule, &k, ok, what, &at, || witness.to_string());
    }
    /// every successful exit satisfies phi (over the entry state)
    pub fn ok_implies(&mut self, key: &str, phi: &str) -> &mut Self {
        let b = self.spec_b(phi);
        let at = self.at.clone();
        self.req.push(b);
        self.ob("ok-requires", key, self.ok, b, &format!("success of {} requires {}", self.id, phi), &at);
        self
    }
    /// success depends on a field of the input
    pub fn ok_depends_on(&mut self, key: &str, field: &str) -> &mut Self {
        let atoms = self.ev.c.support(self.ok);
        let mut found = false;
        for a in atoms {
            let ts: Vec<Tid> = match self.ev.c.atoms[a as usize].clone() {
                Atom::B(t) | Atom::Is(t, _) | Atom::Exists(t, _, _) => vec![t],
                Atom::Eq(x, y) | Atom::Lt(x, y) | Atom::Ovf(_, x, y) => vec![x, y],
                Atom::Nondet(_) => vec![],
            };
            for t in ts {
                found |= self.ev.c.mentions_p(t, &|_, n| matches!(n, Term::Field(_, f) if &**f == field));
            }
        }
        let what = format!("success of {} depends on {}", self.id, field);
        let w = format!("no condition of success of {} looks at {}", self.id, field);
        self.fact("ok-depends", key, found, &what, &w);
        self
    }
    /// success is exactly the conjunction of the named conditions
    pub fn ok_iff(&mut self, parts: &[(&str, &str)]) -> &mut Self {
        for (k, p) in parts {
            self.ok_implies(k, p);
        }
        let conj = parts.iter().map(|x| format!("({})", x.1)).collect::<Vec<_>>().join(" && ");
        self.ok_when("accepts", &conj)
    }
    /// the Boolean result is exactly the conjunction of the named conditions
    pub fn true_iff(&mut self, parts: &[(&str, &str)]) -> &mut Self {
        let r = self.res;
        let rb = self.ev.c.cond(r);
        let rb = self.ev.c.and(rb, self.end.pc);
        let at = self.at.clone();
        let mut all = TRUE;
        for (k, p) in parts {
            let b = self.spec_b(p);
            all = self.ev.c.and(all, b);
            self.ob("true-requires", k, rb, b, &format!("{} returning true requires {}", self.id, p), &at);
        }
        let all = self.ev.c.and(all, self.end.pc);
        self.ob("true-when", "complete", all, rb, &format!("{} returns true whenever all of {:?} hold", self.id, parts.iter().map(|x| x.1).collect::<Vec<_>>()), &at);
        self
    }
    /// whenever phi holds the call succeeds
    pub fn ok_when(&mut self, key: &str, phi: &str) -> &mut Self {
        let b = self.spec_b(phi);
        let b = self.ev.c.and(b, self.assume);
        let at = self.at.clone();
        self.ob("ok-when", key, b, self.ok, &format!("{} succeeds whenever {}", self.id, phi), &at);
        self
    }
    /// the requirements stated so far, with `extra`, are also sufficient for success
    pub fn complete(&mut self, extra: &str) -> &mut Self {
        let mut b = self.spec_b(extra);
        b = self.ev.c.and(b, self.assume);
        for r in std::mem::take(&mut self.req) {
            b = self.ev.c.and(b, r);
        }
        let at = self.at.clone();
        let x = self.ev.with_axioms(b, FALSE);
        let sat = x != FALSE && self.ev.c.residual(x, FALSE) != FALSE;
        self.fact("ok-when", "acceptable", sat, "the requirements can hold together", "they contradict each other");
        self.ob("ok-when", "accepts", b, self.ok, &format!("{} succeeds whenever its stated requirements and {} hold", self.id, extra), &at);
        self
    }
    /// after success, `post` (evaluated in the final storage) equals `pre` (evaluated in the entry storage)
    pub fn ensures(&mut self, key: &str, post: &str, pre: &str) -> &mut Self {
        let a = self.spec_end(post);
        let b = self.spec(pre);
        let e = self.ev.c.eq(a, b);
        let at = self.at.clone();
        let ok = self.ok;
        if !self.ob("final-state", key, ok, e, &format!("after {}: {} == {}", self.id, post, pre), &at) {
            let (x, y) = (self.ev.c.show(a), self.ev.c.show(b));
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("differs when {} ; final value is {} ; required {}", v.witness, x, y);
            }
        }
        self
    }
    /// same, under an additional entry condition
    pub fn ensures_if(&mut self, key: &str, cond: &str, post: &str, pre: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let a = self.spec_end(post);
        let b = self.spec(pre);
        let e = self.ev.c.eq(a, b);
        let g = self.ev.c.and(self.ok, c);
        let at = self.at.clone();
        if !self.ob("final-state", key, g, e, &format!("after {} when {}: {} == {}", self.id, cond, post, pre), &at) {
            let (x, y) = (self.ev.c.show(a), self.ev.c.show(b));
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("differs when {} ; final value is {} ; required {}", v.witness, x, y);
            }
        }
        self
    }
    pub fn evs(&self, kind: &str, name: &str) -> Vec<Event> {
        self.events.iter().filter(|e| (kind.is_empty() || kind.split('|').any(|k| k == e.kind)) && name.split('|').any(|name| name == e.name || name == "*" || name.strip_prefix('*').map_or(false, |s| e.name.ends_with(s)))).cloned().collect()
    }
    /// every effect matching (kind, name) only happens under phi; at least `min` such sites must exist
    pub fn only_when(&mut self, key: &str, kind: &str, name: &str, min: usize, phi: &str) -> &mut Self {
        let b = self.spec_b(phi);
        let es = self.evs(kind, name);
        self.floor(key, kind, name, es.len(), min);
        for e in es {
            let at = format!("{}:{} {}", e.file, e.line, e.func);
            let what = format!("{} {} happens only when {}", e.kind, e.name, phi);
            self.ob("effect-guard", key, e.pc, b, &what, &at);
        }
        self
    }
    /// every effect (kind a) precedes every effect (kind b) in program order; both must exist
    pub fn before(&mut self, key: &str, ka: &str, na: &str, kb: &str, nb: &str) -> &mut Self {
        if self.missing {
            return self;
        }
        let all = |r: &Run, k: &str, n: &str| -> Vec<usize> {
            let m = r.evs(k, n);
            r.events.iter().enumerate().filter(|(_, e)| m.iter().any(|x| x.file == e.file && x.line == e.line && x.kind == e.kind && x.name == e.name && x.args == e.args)).map(|x| x.0).collect()
        };
        let (a, b) = (all(self, ka, na), all(self, kb, nb));
        let ok = !a.is_empty() && !b.is_empty() && a.iter().max() < b.iter().min();
        self.fact("order", key, ok, &format!("{} happens before {}", na, nb), &format!("positions {:?} and {:?}", a, b));
        self
    }
    pub fn floor_ev(&mut self, key: &str, kind: &str, name: &str, min: usize) -> &mut Self {
        let n = self.evs(kind, name).len();
        self.floor(key, kind, name, n, min);
        self
    }
    fn floor(&mut self, key: &str, kind: &str, name: &str, n: usize, min: usize) {
        if self.missing {
            return;
        }
        if min > 0 {
            let k = format!("{}/{}/floor", self.id, key);
            let at = self.at.clone();
            self.rep.borrow_mut().ob("effect-exists", &k, n >= min, &format!("{} {} occurs in {} (≥{})", kind, name, self.id, min), &at, || format!("found {}", n));
        }
    }
    /// arguments / value of every matching effect equal the given entry-state expressions ("_" = any)
    pub fn args_are(&mut self, key: &str, kind: &str, name: &str, min: usize, args: &[&str], val: &str) -> &mut Self {
        let es = self.evs(kind, name);
        self.floor(key, kind, name, es.len(), min);
        let specs: Vec<Option<Tid>> = args.iter().map(|a| if *a == "_" { None } else { Some(self.spec(a)) }).collect();
        let vs = if val == "_" || val.is_empty() { None } else { Some(self.spec(val)) };
        for e in es {
            let at = format!("{}:{} {}", e.file, e.line, e.func);
            for (i, s) in specs.iter().enumerate() {
                if let Some(s) = s {
                    let a = match e.args.get(i) {
                        Some(a) => *a,
                        None => self.ev.c.konst("#missing-arg"),
                    };
                    let q = self.ev.c.eq(a, *s);
                    let what = format!("argument {} of {} {} is {}", i, e.kind, e.name, args[i]);
                    if !self.ob("effect-args", &format!("{}/arg{}", key, i), e.pc, q, &what, &at) {
                        let x = self.ev.c.show(a);
                        if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                            v.witness = format!("differs when {} ; actual argument {}", v.witness, x);
                        }
                    }
                }
            }
            if let (Some(s), Some(a)) = (vs, e.val) {
                let q = self.ev.c.eq(a, s);
                let what = format!("value stored by {} {} is {}", e.kind, e.name, val);
                if !self.ob("effect-value", &format!("{}/val", key), e.pc, q, &what, &at) {
                    let x = self.ev.c.show(a);
                    if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                        v.witness = format!("differs when {} ; actual value {}", v.witness, x);
                    }
                }
            }
        }
        self
    }
    fn with_args(&mut self, e: &Event, phi: &str) -> Bid {
        let mark = self.fr.env.len();
        let init = self.init.clone();
        let vars: Vec<(String, Tid)> = e.args.iter().enumerate().map(|(i, a)| (format!("a{}", i), *a)).chain(e.val.map(|v| ("value".to_string(), v))).collect();
        for (n, t) in vars {
            self.bind_t(&n, t);
        }
        let b = self.spec_b(phi);
        self.fr.env.truncate(mark);
        self.init = init;
        b
    }
    /// the effects matching (kind, name) are exactly those of the given program, for each element of the same collections
    pub fn effects_are(&mut self, key: &str, kind: &str, name: &str, s: &str) -> &mut Self {
        if self.missing {
            return self;
        }
        let mine = self.evs(kind, name);
        let saved = std::mem::take(&mut self.ev.events);
        self.ev.record_at = self.ev.muted + 1;
        let st = self.init.clone();
        self.eval_in(s, &st);
        self.ev.record_at = 0;
        let theirs = std::mem::replace(&mut self.ev.events, saved);
        let actual = std::mem::replace(&mut self.events, theirs);
        let want = self.evs(kind, name);
        self.events = actual;
        self.floor(key, kind, name, want.len(), 1);
        let mut eqs = vec![vec![FALSE; want.len()]; mine.len()];
        for (i, m) in mine.iter().enumerate() {
            for (j, w) in want.iter().enumerate() {
                if m.kind != w.kind || m.name != w.name || m.args.len() != w.args.len() || m.loops.len() != w.loops.len() {
                    continue;
                }
                let mut b = TRUE;
                let mut pairs: Vec<(Tid, Tid)> = m.args.iter().copied().zip(w.args.iter().copied()).collect();
                pairs.extend(m.loops.iter().map(|x| x.0).zip(w.loops.iter().map(|x| x.0)));
                if let (Some(x), Some(y)) = (m.val, w.val) {
                    pairs.push((x, y));
                }
                for (x, y) in pairs {
                    let q = self.ev.c.eq(x, y);
                    b = self.ev.c.and(b, q);
                }
                eqs[i][j] = b;
            }
        }
        for (i, m) in mine.iter().enumerate() {
            let mut cover = FALSE;
            for (j, w) in want.iter().enumerate() {
                let b = self.ev.c.and(w.pc, eqs[i][j]);
                cover = self.ev.c.or(cover, b);
            }
            let at = format!("{}:{} {}", m.file, m.line, m.func);
            let shown = m.args.iter().chain(m.val.iter()).map(|a| self.ev.c.show(*a)).collect::<Vec<_>>().join(", ");
            if !self.ob("effect-allowed", &format!("{key}/only"), m.pc, cover, &format!("each {} {} of {} is one of {}", m.kind, m.name, self.id, s), &at) {
                if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                    v.witness = format!("does {}({}) when {}", m.name, shown, v.witness);
                }
            }
        }
        for (j, w) in want.iter().enumerate() {
            let mut cover = FALSE;
            for (i, m) in mine.iter().enumerate() {
                let b = self.ev.c.and(m.pc, eqs[i][j]);
                cover = self.ev.c.or(cover, b);
            }
            let at = self.at.clone();
            let shown = w.args.iter().chain(w.val.iter()).map(|a| self.ev.c.show(*a)).collect::<Vec<_>>().join(", ");
            let g = self.ev.c.and(w.pc, self.ok);
            if !self.ob("effect-required", &format!("{key}/all"), g, cover, &format!("{} does each {} {} of {}", self.id, w.kind, w.name, s), &at) {
                if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                    v.witness = format!("misses {}({}) when {}", w.name, shown, v.witness);
                }
            }
        }
        self
    }
    /// phi over the arguments a0, a1, ... (and stored `value`) of every matching effect
    pub fn each(&mut self, key: &str, kind: &str, name: &str, min: usize, phi: &str) -> &mut Self {
        let es = self.evs(kind, name);
        self.floor(key, kind, name, es.len(), min);
        for e in es {
            let at = format!("{}:{} {}", e.file, e.line, e.func);
            let b = self.with_args(&e, phi);
            let what = format!("every {} {} satisfies {}", e.kind, e.name, phi);
            self.ob("effect-each", key, e.pc, b, &what, &at);
        }
        self
    }
    /// under cond, success implies a matching effect whose arguments satisfy phi
    pub fn some_does(&mut self, key: &str, cond: &str, kind: &str, name: &str, phi: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let es = self.evs(kind, name);
        let mut cover = FALSE;
        for e in es {
            if !e.loops.is_empty() {
                continue;
            }
            let b = self.with_args(&e, phi);
            let b = self.ev.c.and(e.pc, b);
            cover = self.ev.c.or(cover, b);
        }
        let a = self.ev.c.and(self.ok, c);
        let at = self.at.clone();
        self.ob("effect-some", key, a, cover, &format!("success of {} when {} implies {} {} with {}", self.id, cond, kind, name, phi), &at);
        self
    }
    /// success implies that an effect with these arguments happened
    pub fn ok_does(&mut self, key: &str, kind: &str, name: &str, args: &[&str], val: &str) -> &mut Self {
        self.ok_does_if(key, "true", kind, name, args, val)
    }
    pub fn ok_does_if(&mut self, key: &str, cond: &str, kind: &str, name: &str, args: &[&str], val: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let es = self.evs(kind, name);
        let specs: Vec<Option<Tid>> = args.iter().map(|a| if *a == "_" { None } else { Some(self.spec(a)) }).collect();
        let vs = if val == "_" || val.is_empty() { None } else { Some(self.spec(val)) };
        let mut cover = FALSE;
        for e in es {
            if !e.loops.is_empty() {
                continue;
            }
            let mut m = e.pc;
            for (i, s) in specs.iter().enumerate() {
                if let Some(s) = s {
                    let a = e.args.get(i).copied().unwrap_or(0);
                    let q = self.ev.c.eq(a, *s);
                    m = self.ev.c.and(m, q);
                }
            }
            if let (Some(s), Some(a)) = (vs, e.val) {
                let q = self.ev.c.eq(a, s);
                m = self.ev.c.and(m, q);
            }
            cover = self.ev.c.or(cover, m);
        }
        let g = self.ev.c.and(self.ok, c);
        let at = self.at.clone();
        self.ob("must-effect", key, g, cover, &format!("success of {} (when {}) implies {} {}({}) {}", self.id, cond, kind, name, args.join(", "), val), &at);
        self
    }
    /// the events of a successful call are exactly the given ones: (name, when, value), each at most once
    pub fn announces(&mut self, want: &[(&str, &str, &str)]) -> &mut Self {
        if self.missing {
            return self;
        }
        let all = self.evs("emit", "*");
        let ok = self.ok;
        for e in all.iter().filter(|e| !want.iter().any(|w| w.0 == e.name)) {
            let g = self.ev.c.and(ok, e.pc);
            let at = format!("{}:{} {}", e.file, e.line, e.func);
            let what = format!("success of {} announces only what happened, not {}", self.id, e.name);
            self.ob("announces", &format!("event-{}", e.name), g, FALSE, &what, &at);
        }
        for (name, cond, value) in want {
            let c = self.spec_b(cond);
            let vs = if *value == "_" { None } else { Some(self.spec(value)) };
            let es: Vec<Event> = all.iter().filter(|e| e.name == *name).cloned().collect();
            let mut cover = FALSE;
            for (i, e) in es.iter().enumerate() {
                let at = format!("{}:{} {}", e.file, e.line, e.func);
                let g = self.ev.c.and(ok, e.pc);
                let what = format!("{} is announced only when {}", name, cond);
                self.ob("announces", &format!("event-{}-when", name), g, c, &what, &at);
                if let (Some(s), Some(a)) = (vs, e.val) {
                    let q = self.ev.c.eq(a, s);
                    let what = format!("the announced {} is {}", name, value);
                    self.ob("announces", &format!("event-{}-value", name), g, q, &what, &at);
                }
                let once = self.ev.c.and(cover, e.pc);
                let once = self.ev.c.and(once, ok);
                let what = format!("{} is announced at most once", name);
                self.ob("announces", &format!("event-{}-once-{}", name, i), once, FALSE, &what, &at);
                self.fact("announces", &format!("event-{}-loop-{}", name, i), e.loops.is_empty(), &what, "it is announced inside a loop");
                cover = self.ev.c.or(cover, e.pc);
            }
            let g = self.ev.c.and(ok, c);
            let at = self.at.clone();
            self.ob("announces", &format!("event-{}", name), g, cover, &format!("success of {} when {} announces {}", self.id, cond, name), &at);
        }
        self
    }
    /// storage writes of the entry point stay within the given set
    pub fn writes_only(&mut self, key: &str, allowed: &[&str]) -> &mut Self {
        if self.missing {
            return self;
        }
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for e in &self.events {
            if matches!(e.kind, "set" | "kill" | "clear") {
                seen.entry(e.name.clone()).or_insert(format!("{}:{} {}", e.file, e.line, e.func));
            }
        }
        let at = self.at.clone();
        let what = format!("{} writes only {:?}", self.id, allowed);
        let bad: Vec<String> = seen.iter().filter(|(n, _)| !allowed.contains(&n.as_str())).map(|(n, a)| format!("{} at {}", n, a)).collect();
        let k = format!("{}/{}", self.id, key);
        self.rep.borrow_mut().ob("write-set", &k, bad.is_empty(), &what, &at, || bad.join("; "));
        self
    }
    /// result of a (pure) function equals an expression over its parameters
    pub fn returns(&mut self, key: &str, s: &str) -> &mut Self {
        self.returns_if(key, "true", s)
    }
    pub fn returns_if(&mut self, key: &str, cond: &str, s: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let t = self.spec(s);
        let r = self.res;
        let q = self.ev.c.eq(r, t);
        let g = self.ev.c.and(self.end.pc, c);
        let at = self.at.clone();
        if !self.ob("result", key, g, q, &format!("{} returns {} when {}", self.id, s, cond), &at) {
            let (x, y) = (self.ev.c.show(r), self.ev.c.show(t));
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("differs when {} ; returns {} ; required {}", v.witness, x, y);
            }
        }
        self
    }
    /// on success the carried value equals an expression over the entry state
    pub fn ok_value(&mut self, key: &str, cond: &str, s: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let t = self.spec(s);
        let variant = if self.res_ty.name() == "Option" { "Some" } else { "Ok" };
        let r = self.res;
        let is = self.ev.c.is(r, variant);
        let r = self.ev.c.payload(r, variant, "0");
        let q = self.ev.c.eq(r, t);
        let g0 = self.ev.c.and(self.end.pc, is);
        let g = self.ev.c.and(g0, c);
        let at = self.at.clone();
        if !self.ob("ok-value", key, g, q, &format!("{} succeeds with {} when {}", self.id, s, cond), &at) {
            let (x, y) = (self.ev.c.show(r), self.ev.c.show(t));
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("differs when {} ; returns {} ; required {}", v.witness, x, y);
            }
        }
        self
    }
    /// condition that must hold of the result whenever the function returns
    pub fn result_is(&mut self, key: &str, cond: &str, post: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let id = {
            let mut i = self.init.clone();
            let id = self.ev.newvar(&mut i, self.res, self.res_ty.clone(), false);
            self.init = i;
            self.fr.env.push(("result".into(), id));
            id
        };
        let _ = id;
        let b = self.spec_b(post);
        let g = self.ev.c.and(self.end.pc, c);
        let at = self.at.clone();
        let ok = self.ob("result-fact", key, g, b, &format!("{} satisfies {} when {}", self.id, post, cond), &at);
        if !ok {
            let x = self.ev.c.show(self.res);
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("fails when {} ; result {}", v.witness, x);
            }
        }
        self
    }
    /// final value of a `&mut` parameter
    pub fn final_param(&mut self, key: &str, cond: &str, name: &str, s: &str) -> &mut Self {
        let c = self.spec_b(cond);
        let id = match self.fr.env.iter().find(|x| x.0 == name) {
            Some(x) => x.1,
            None => return self,
        };
        let end = self.end.clone();
        let f = self.ev.read_place(&end, id, &[]);
        let t = self.spec(s);
        let q = self.ev.c.eq(f, t);
        let g = self.ev.c.and(self.ok, c);
        let at = self.at.clone();
        if !self.ob("final-param", key, g, q, &format!("after {}: {} == {}", self.id, name, s), &at) {
            let (x, y) = (self.ev.c.show(f), self.ev.c.show(t));
            if let Some(v) = self.rep.borrow_mut().violations.last_mut() {
                v.witness = format!("differs when {} ; final {} ; required {}", v.witness, x, y);
            }
        }
        self
    }
    /// panics of the given kinds are unreachable (beyond the listed excuses)
    pub fn no_panic(&mut self, key: &str, assume: &str, excused: &[&str]) -> &mut Self {
        let a = self.spec_b(assume);
        for e in self.events.clone() {
            if e.kind != "panic" {
                continue;
            }
            if excused.iter().any(|x| e.name == *x || e.func == *x) {
                continue;
            }
            let at = format!("{}:{} {}", e.file, e.line, e.func);
            let g = self.ev.c.and(e.pc, a);
            self.ob("panic-free", &format!("{}/{}/{}", key, e.name, e.func), g, FALSE, &format!("{} in {} cannot happen", e.name, e.func), &at);
        }
        self
    }
    /// every loop of the assumed executions ends within the bound they were followed to
    pub fn ends(&mut self, key: &str) -> &mut Self {
        let (l, at) = (self.ev.lost, self.at.clone());
        let a = self.assume;
        let g = self.ev.c.and(l, a);
        self.ob("terminates", key, g, FALSE, "the loops end within the bound that was analysed", &at);
        self
    }
    pub fn dump(&mut self) {
        println!("== {} [{}]", self.id, self.at);
        println!("result: {}", self.ev.c.show(self.res));
        println!("ok: {}", self.ev.c.show_b(self.ok));
        for e in self.events.clone() {
            println!(
                "  {} {}({}) {} | {} @{}:{} loops{}",
                e.kind,
                e.name,
                e.args.iter().map(|t| self.ev.c.show(*t)).collect::<Vec<_>>().join(", "),
                e.val.map_or(String::new(), |v| format!("= {}", self.ev.c.show(v))),
                self.ev.c.show_b(e.pc),
                e.func,
                e.line,
                e.loops.len()
            );
        }
        println!("unsupported {:?}", self.ev.unsupported);
    }
}

impl<'a> Drop for Run<'a> {
    fn drop(&mut self) {
        if std::env::var("FSA_COMPLETE").is_ok() && !self.req.is_empty() && !std::thread::panicking() {
            let mut b = self.assume;
            for r in self.req.clone() {
                b = self.ev.c.and(b, r);
            }
            let ok = self.ok;
            let e = self.ev.entails(b, ok);
            let mut w = String::new();
            if !e {
                let a = self.ev.with_axioms(b, ok);
                let rest = self.ev.c.residual(a, ok);
                if rest != FALSE {
                    w = self.ev.c.witness(rest, ok);
                }
            }
            println!("    COMPLETE {} {}", if w.is_empty() { "yes" } else { "NO" }, self.id);
            if !w.is_empty() {
                println!("    W {}", w.replace('\n', " "));
            }
        }
    }
}
