//! Equality/order domain: decides whether one combination of source predicates is contradictory
//! (congruence closure over terms plus difference bounds).  It only ever removes combinations that
//! cannot occur; an undecided combination is kept.
use crate::core::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct Uf {
    p: HashMap<Tid, Tid>,
}
impl Uf {
    fn find(&mut self, t: Tid) -> Tid {
        let q = *self.p.get(&t).unwrap_or(&t);
        if q == t {
            return t;
        }
        let r = self.find(q);
        self.p.insert(t, r);
        r
    }
    fn join(&mut self, a: Tid, b: Tid) -> bool {
        let (x, y) = (self.find(a), self.find(b));
        if x == y {
            return false;
        }
        let (lo, hi) = if x < y { (x, y) } else { (y, x) };
        self.p.insert(hi, lo);
        true
    }
}

type Lit = (u32, bool);

impl Cx {
    /// residual of `a && !b` after removing contradictory combinations (FALSE: the entailment holds)
    pub fn residual(&mut self, a: Bid, b: Bid) -> Bid {
        let nb = self.not(b);
        let mut x = self.and(a, nb);
        let t0 = std::time::Instant::now();
        x = self.simplify_under_facts(x);
        for _ in 0..400 {
            if x == FALSE || t0.elapsed().as_secs() > 8 {
                break;
            }
            let cube = self.one_cube(x);
            let weak = self.conflict(&cube);
            if !weak && !self.conflict_split(&cube, 7) {
                // what the combinations say about orders, variants and quantifiers may still exclude it
                let vars = self.support(x).into_iter().collect();
                let th = self.theory(&vars);
                let y = self.and(x, th);
                if y != x && (y == FALSE || self.one_cube(y) != cube) {
                    x = y;
                    continue;
                }
                if std::env::var("FSA_DEBUG").is_ok() {
                    let mut cb = TRUE;
                    for (v, p) in cube.iter().rev() {
                        let n = self.atom_bid(*v);
                        let n = if *p { n } else { self.not(n) };
                        cb = self.and(cb, n);
                    }
                    let y = self.simplify_under_facts(cb);
                    eprintln!("open cube:");
                    for (v, p) in self.one_cube(y) {
                        eprintln!("   {} {}", if p { " " } else { "!" }, self.show_atom(v, true));
                    }
                }
                break;
            }
            // minimise the contradictory core
            let mut core = cube.clone();
            let mut i = 0;
            while i < core.len() {
                let mut c2 = core.clone();
                c2.remove(i);
                if if weak { self.conflict(&c2) } else { self.conflict_split(&c2, 4) } {
                    core = c2;
                } else {
                    i += 1;
                }
            }
            let mut c = TRUE;
            for (v, p) in core.iter().rev() {
                let n = self.atom_bid(*v);
                let n = if *p { n } else { self.not(n) };
                c = self.and(c, n);
            }
            let nc = self.not(c);
            x = self.and(x, nc);
        }
        x
    }
    /// predicates that hold throughout `x`: equations rewrite one side into the other, and gated
    /// values inside the remaining predicates lose the alternatives those predicates exclude
    fn simplify_under_facts(&mut self, x0: Bid) -> Bid {
        let mut x = x0;
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        for _ in 0..12 {
            if x == FALSE {
                return x;
            }
            let mut hit = None;
            let mut facts = TRUE;
            let sup = self.support(x);
            if sup.len() > 200 {
                return x;
            }
            for v in sup.iter().rev() {
                let at = self.atom_bid(*v);
                let nat = self.not(at);
                if self.and(x, nat) == FALSE {
                    facts = self.and(facts, at);
                    if let (Atom::Eq(p, q), false, None) = (self.atoms[*v as usize].clone(), seen.contains(v), hit) {
                        hit = Some((*v, p, q));
                    }
                } else if self.and(x, at) == FALSE {
                    facts = self.and(facts, nat);
                }
            }
            if let Some((v, p, q)) = hit {
                seen.insert(v);
                let konst = |c: &Cx, t: Tid| matches!(c.t(t), Term::Int(_) | Term::Char(_));
                let (from, to) = if !konst(self, q) && !self.mentions(p, q) {
                    (q, p)
                } else if !konst(self, p) && !self.mentions(q, p) {
                    (p, q)
                } else {
                    continue;
                };
                x = self.subst_bdd(x, from, to);
                let at = self.atom_bid(v);
                x = self.and(x, at);
                continue;
            }
            if facts == TRUE {
                return x;
            }
            // what is below is neither equal nor above
            for v in &sup {
                let at = self.atom_bid(*v);
                if let (Atom::Lt(p, q), true) = (self.atoms[*v as usize].clone(), self.leq(facts, at)) {
                    let (r, e) = (self.lt(q, p), self.eq(p, q));
                    let re = self.or(r, e);
                    let n = self.not(re);
                    let f = self.and(facts, n);
                    if f != FALSE {
                        facts = f;
                    }
                }
            }
            let mut memo = HashMap::new();
            let mut ites = vec![];
            for v in &sup {
                for t in self.atom_terms(*v) {
                    self.decided_ites(t, facts, &mut ites, &mut memo);
                }
            }
            if ites.is_empty() {
                return x;
            }
            let y = self.map_atoms(x, &mut |cx, a| {
                let mut b = cx.atom_bid(a);
                for (f, t) in &ites {
                    b = cx.subst_bdd(b, *f, *t);
                }
                b
            });
            // a gate only involves predicates smaller than the one it sits in, so the facts that decide it survive
            if y == x {
                return x;
            }
            x = y;
        }
        x
    }
    /// outermost gated values whose gate the facts decide
    fn decided_ites(&mut self, t: Tid, facts: Bid, out: &mut Vec<(Tid, Tid)>, seen: &mut HashMap<Tid, ()>) {
        if seen.insert(t, ()).is_some() {
            return;
        }
        let kids: Vec<Tid> = match self.t(t).clone() {
            Term::Ctor(_, fs) => fs.iter().map(|x| x.1).collect(),
            Term::Field(b, _) | Term::Payload(b, _, _) => vec![b],
            Term::Call(_, xs) | Term::Read(_, xs) => xs,
            Term::Update(b, _, v) => vec![b, v],
            Term::Ite(c, a, b) => {
                let k = self.constrain(c, facts);
                if k == TRUE {
                    out.push((t, a));
                    vec![]
                } else if k == FALSE {
                    out.push((t, b));
                    vec![]
                } else if k != c {
                    // the facts settle part of the gate
                    let z = self.ite(k, a, b);
                    if z != t {
                        out.push((t, z));
                        vec![]
                    } else {
                        vec![a, b]
                    }
                } else {
                    vec![a, b]
                }
            }
            Term::Compr(s, l, c, _) | Term::Sum(s, l, c, _) => {
                // nothing selected: the empty list, the zero sum
                let e = self.exists(s, l, c);
                if self.constrain(e, facts) == FALSE {
                    let z = if matches!(self.t(t), Term::Sum(..)) { self.int(0) } else { self.mk(Term::Ctor("[]".into(), vec![])) };
                    out.push((t, z));
                    vec![]
                } else {
                    vec![s]
                }
            }
            _ => vec![],
        };
        for k in kids {
            self.decided_ites(k, facts, out, seen);
        }
    }
    /// the combination is contradictory once its own equations and gates are applied to its other predicates
    fn conflict_rewritten(&mut self, cube: &[Lit]) -> bool {
        let mut cb = TRUE;
        for (v, p) in cube.iter().rev() {
            let n = self.atom_bid(*v);
            let n = if *p { n } else { self.not(n) };
            cb = self.and(cb, n);
        }
        let mut y = self.simplify_under_facts(cb);
        for _ in 0..12 {
            if y == FALSE {
                return true;
            }
            let c = self.one_cube(y);
            if !self.conflict(&c) {
                return false;
            }
            let mut b = TRUE;
            for (v, p) in c.iter().rev() {
                let n = self.atom_bid(*v);
                let n = if *p { n } else { self.not(n) };
                b = self.and(b, n);
            }
            let nb = self.not(b);
            y = self.and(y, nb);
        }
        false
    }
    /// same, split on the gates of values whose gate the combination leaves open
    fn conflict_split(&mut self, cube: &[Lit], depth: usize) -> bool {
        if self.conflict(cube) || self.conflict_rewritten(cube) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        let known: BTreeSet<u32> = cube.iter().map(|x| x.0).collect();
        let mut gate = None;
        let mut st: Vec<Tid> = cube.iter().rev().flat_map(|(v, _)| self.atom_terms(*v)).collect();
        let mut seen = BTreeSet::new();
        while let Some(t) = st.pop() {
            if gate.is_some() || !seen.insert(t) || seen.len() > 400 {
                break;
            }
            match self.t(t).clone() {
                Term::Ctor(_, fs) => st.extend(fs.iter().map(|x| x.1)),
                Term::Field(b, _) | Term::Payload(b, _, _) => st.push(b),
                Term::Call(_, xs) | Term::Read(_, xs) => st.extend(xs),
                Term::Update(b, _, v) => st.extend([b, v]),
                Term::Ite(c, a, b) => {
                    gate = self.support(c).into_iter().find(|v| !known.contains(v) && !matches!(self.atoms[*v as usize], Atom::Nondet(_)));
                    st.extend([a, b]);
                }
                _ => {}
            }
        }
        let Some(g) = gate else { return false };
        [true, false].iter().all(|p| {
            let mut c = cube.to_vec();
            c.push((g, *p));
            c.sort();
            self.conflict_split(&c, depth - 1)
        })
    }
    fn one_cube(&self, b: Bid) -> Vec<Lit> {
        let mut x = b;
        let mut o = vec![];
        while x > 1 {
            let (v, lo, hi) = self.node_of(x);
            if hi != FALSE {
                o.push((v, true));
                x = hi;
            } else {
                o.push((v, false));
                x = lo;
            }
        }
        o
    }
    fn conflict(&mut self, cube: &[Lit]) -> bool {
        let mut cb = TRUE;
        for (v, p) in cube.iter().rev() {
            let n = self.atom_bid(*v);
            let n = if *p { n } else { self.not(n) };
            cb = self.and(cb, n);
        }
        let mut terms: BTreeSet<Tid> = BTreeSet::new();
        let mut st: Vec<Tid> = vec![];
        for (v, _) in cube {
            st.extend(self.atom_terms(*v));
        }
        let mut kids: BTreeMap<Tid, Vec<Tid>> = BTreeMap::new();
        let mut uf = Uf { p: HashMap::new() };
        while let Some(t) = st.pop() {
            if !terms.insert(t) {
                continue;
            }
            let ch: Vec<Tid> = match self.t(t).clone() {
                Term::Ctor(_, fs) => fs.iter().map(|x| x.1).collect(),
                Term::Field(b, _) | Term::Payload(b, _, _) => vec![b],
                Term::Call(_, xs) | Term::Read(_, xs) => xs,
                Term::Ite(c, a, b) => {
                    let k = self.constrain(c, cb);
                    if k == TRUE {
                        st.push(a);
                        uf.join(t, a);
                    } else if k == FALSE {
                        st.push(b);
                        uf.join(t, b);
                    }
                    vec![]
                }
                Term::Bool(b) => {
                    let k = self.constrain(b, cb);
                    if k != b {
                        let t2 = self.boolt(k);
                        st.push(t2);
                        uf.join(t, t2);
                    }
                    vec![]
                }
                _ => vec![],
            };
            st.extend(ch.iter().copied());
            kids.insert(t, ch);
            if terms.len() > 600 {
                return false;
            }
        }
        let lits: Vec<(Atom, bool)> = cube.iter().map(|(v, p)| (self.atoms[*v as usize].clone(), *p)).collect();
        for (a, p) in &lits {
            if let (Atom::Eq(x, y), true) = (a, *p) {
                uf.join(*x, *y);
            }
            // an option known to be absent equals the absent option
        }
        let head = |c: &Cx, t: Tid| -> String {
            match c.t(t) {
                Term::Ctor(n, fs) => format!("C{}/{}", n, fs.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(",")),
                Term::Field(_, f) => format!("F{}", f),
                Term::Payload(_, v, f) => format!("P{}.{}", v, f),
                Term::Call(f, _) => format!("K{}", f),
                Term::Read(s, _) => format!("R{}", s),
                _ => format!("#{}", t),
            }
        };
        let heads: BTreeMap<Tid, String> = terms.iter().map(|t| (*t, head(self, *t))).collect();
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 12 {
                break;
            }
            let mut changed = false;
            let mut sig: HashMap<(String, Vec<Tid>), Tid> = HashMap::new();
            let mut ctor: HashMap<Tid, Tid> = HashMap::new();
            for t in &terms {
                if matches!(self.t(*t), Term::Ctor(..)) {
                    let r = uf.find(*t);
                    if let Some(o) = ctor.insert(r, *t) {
                        // constructor injectivity / disjointness
                        if let (Term::Ctor(n, fs), Term::Ctor(m, gs)) = (self.t(o).clone(), self.t(*t).clone()) {
                            if n == m && fs.len() == gs.len() {
                                for (x, y) in fs.iter().zip(&gs) {
                                    changed |= uf.join(x.1, y.1);
                                }
                            } else if n != m {
                                return true;
                            }
                        }
                    }
                }
            }
            for t in &terms {
                let ch = &kids[t];
                if ch.is_empty() {
                    continue;
                }
                let k = (heads[t].clone(), ch.iter().map(|x| uf.find(*x)).collect::<Vec<_>>());
                if let Some(o) = sig.get(&k) {
                    changed |= uf.join(*o, *t);
                } else {
                    sig.insert(k, *t);
                }
                // projections of known constructors
                let base = ch[0];
                let r = uf.find(base);
                if let Some(c) = ctor.get(&r).copied() {
                    if let Term::Ctor(n, fs) = self.t(c).clone() {
                        match self.t(*t).clone() {
                            Term::Field(_, f) => {
                                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                                    changed |= uf.join(*t, x.1);
                                }
                            }
                            Term::Payload(_, v, f) if v == n => {
                                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                                    changed |= uf.join(*t, x.1);
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // distinct constants in one class
        let mut konst: HashMap<Tid, Tid> = HashMap::new();
        let mut ctor: HashMap<Tid, Str> = HashMap::new();
        for t in &terms {
            let r = uf.find(*t);
            match self.t(*t).clone() {
                Term::Int(_) | Term::Str(_) | Term::Char(_) => {
                    if let Some(o) = konst.insert(r, *t) {
                        if o != *t {
                            return true;
                        }
                    }
                }
                Term::Ctor(n, _) => {
                    if let Some(o) = ctor.insert(r, n.clone()) {
                        if o != n {
                            return true;
                        }
                    }
                }
                _ => {}
            }
        }
        // literals
        let mut seen: HashMap<(String, Vec<Tid>), bool> = HashMap::new();
        let mut isv: HashMap<Tid, Str> = HashMap::new();
        for (a, p) in &lits {
            match a {
                Atom::Eq(x, y) => {
                    if !*p && uf.find(*x) == uf.find(*y) {
                        return true;
                    }
                }
                Atom::Lt(x, y) => {
                    if *p && uf.find(*x) == uf.find(*y) {
                        return true;
                    }
                }
                _ => {}
            }
            let key = match a {
                Atom::B(t) => ("b".to_string(), vec![uf.find(*t)]),
                Atom::Is(t, v) => {
                    let r = uf.find(*t);
                    if let Some(n) = ctor.get(&r) {
                        let vn = if &**n == "None" || &**n == "Err" { n.clone() } else { n.clone() };
                        let same = &*vn == &**v;
                        let known = vn.chars().next().map_or(false, |c| c.is_alphabetic());
                        if known && same != *p {
                            return true;
                        }
                    }
                    if *p {
                        if let Some(o) = isv.insert(r, v.clone()) {
                            if o != *v {
                                return true;
                            }
                        }
                    }
                    (format!("is {}", v), vec![r])
                }
                Atom::Lt(x, y) => ("lt".to_string(), vec![uf.find(*x), uf.find(*y)]),
                Atom::Eq(x, y) => {
                    let (q, r) = (uf.find(*x), uf.find(*y));
                    ("eq".to_string(), vec![q.min(r), q.max(r)])
                }
                Atom::Ovf(o, x, y) => (format!("ovf {}", o), vec![uf.find(*x), uf.find(*y)]),
                Atom::Exists(s, l, c) => (format!("ex {} {}", l, c), vec![uf.find(*s)]),
                Atom::Nondet(n) => (format!("nd {}", n), vec![]),
            };
            if let Some(o) = seen.insert(key, *p) {
                if o != *p {
                    return true;
                }
            }
        }
        // difference bounds
        let mut ids: BTreeMap<Tid, usize> = BTreeMap::new();
        let mut edges: Vec<(usize, usize, i128)> = vec![]; // x - y <= w
        ids.insert(u32::MAX, 0);
        let id = |uf: &mut Uf, ids: &mut BTreeMap<Tid, usize>, t: Tid| -> usize {
            let r = uf.find(t);
            let n = ids.len();
            *ids.entry(r).or_insert(n)
        };
        for (a, p) in &lits {
            match a {
                Atom::Lt(x, y) => {
                    let (i, j) = (id(&mut uf, &mut ids, *x), id(&mut uf, &mut ids, *y));
                    if *p {
                        edges.push((i, j, -1));
                    } else {
                        edges.push((j, i, 0));
                    }
                }
                Atom::Eq(x, y) if !*p => {
                    id(&mut uf, &mut ids, *x);
                    id(&mut uf, &mut ids, *y);
                }
                _ => {}
            }
        }
        if edges.is_empty() {
            return false;
        }
        let mut sats: Vec<(usize, usize, i128)> = vec![];
        let mut grew = true;
        while grew && ids.len() < 80 {
            grew = false;
            for t in &terms {
                if let Term::Call(f, xs) = self.t(*t).clone() {
                    if matches!(&*f, "add" | "sat_add" | "sub" | "min" | "max" | "div") && xs.len() == 2 {
                        let r = uf.find(*t);
                        if ids.contains_key(&r) {
                            for x in xs {
                                let q = uf.find(x);
                                if !ids.contains_key(&q) {
                                    id(&mut uf, &mut ids, x);
                                    grew = true;
                                }
                            }
                        }
                    }
                }
            }
        }
        for t in &terms {
            let r = uf.find(*t);
            let Some(&i) = ids.get(&r) else { continue };
            match self.t(*t).clone() {
                Term::Int(k) => {
                    edges.push((i, 0, k));
                    edges.push((0, i, -k));
                }
                Term::Char(_) | Term::Str(_) => {}
                Term::Call(f, xs) if xs.len() == 2 => {
                    let (a, b) = (uf.find(xs[0]), uf.find(xs[1]));
                    let (Some(&ia), Some(&ib)) = (ids.get(&a), ids.get(&b)) else { continue };
                    let ka = if let Some(k) = konst.get(&a) { if let Term::Int(v) = self.t(*k) { Some(*v) } else { None } } else { None };
                    let kb = if let Some(k) = konst.get(&b) { if let Term::Int(v) = self.t(*k) { Some(*v) } else { None } } else { None };
                    match &*f {
                        "add" => match (ka, kb) {
                            (_, Some(k)) => {
                                edges.push((i, ia, k));
                                edges.push((ia, i, -k));
                            }
                            (Some(k), _) => {
                                edges.push((i, ib, k));
                                edges.push((ib, i, -k));
                            }
                            _ => {
                                edges.push((ia, i, 0));
                                edges.push((ib, i, 0));
                            }
                        },
                        // no less than either part, no more than the sum
                        "sat_add" => {
                            edges.push((ia, i, 0));
                            edges.push((ib, i, 0));
                            for (x, k) in [(ia, kb), (ib, ka)] {
                                if let Some(k) = k {
                                    edges.push((i, x, k));
                                    sats.push((i, x, k));
                                }
                            }
                        }
                        "sub" => match kb {
                            Some(k) => {
                                edges.push((i, ia, -k));
                                edges.push((ia, i, k));
                            }
                            None => edges.push((i, ia, 0)),
                        },
                        "min" => {
                            edges.push((i, ia, 0));
                            edges.push((i, ib, 0));
                        }
                        "max" => {
                            edges.push((ia, i, 0));
                            edges.push((ib, i, 0));
                        }
                        "div" => edges.push((i, ia, 0)),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let n = ids.len();
        if n > 90 {
            return false;
        }
        let inf = i128::MAX / 4;
        // d[j * n + i] bounds x_i - x_j
        let mut d = vec![inf; n * n];
        for i in 0..n {
            d[i * n + i] = 0;
            if i != 0 {
                d[i * n] = 0; // unsigned quantities: 0 - x_i <= 0
            }
        }
        for (i, j, w) in edges {
            let e = &mut d[j * n + i];
            *e = (*e).min(w);
        }
        for _ in 0..8 {
            for k in 0..n {
                for i in 0..n {
                    if d[i * n + k] >= inf {
                        continue;
                    }
                    for j in 0..n {
                        if d[k * n + j] < inf {
                            let s = d[i * n + k] + d[k * n + j];
                            if s < d[i * n + j] {
                                d[i * n + j] = s;
                            }
                        }
                    }
                }
            }
            for i in 0..n {
                if d[i * n + i] < 0 {
                    return true;
                }
            }
            // whole numbers that differ and are not above are below
            let mut tighter = false;
            // what stays below another quantity of its kind has room to grow
            for &(i, x, k) in &sats {
                if d[i * n + x] > -k && (1..n).any(|y| y != x && y != i && d[y * n + x] <= -k) {
                    d[i * n + x] = -k;
                    tighter = true;
                }
            }
            for (a, p) in &lits {
                if let (Atom::Eq(x, y), false) = (a, *p) {
                    let (Some(&i), Some(&j)) = (ids.get(&uf.find(*x)), ids.get(&uf.find(*y))) else { continue };
                    for (i, j) in [(i, j), (j, i)] {
                        if d[j * n + i] == 0 {
                            d[j * n + i] = -1;
                            tighter = true;
                        }
                    }
                }
            }
            if !tighter {
                break;
            }
        }
        self.linear_conflict(&ids, &d, &terms, &mut uf, &konst)
    }
    /// sums and differences of two unknowns: the bounds found so far, taken together with
    /// `z = x + y` and (where `y <= x` is known) `z = x - y`, have no solution
    fn linear_conflict(&mut self, ids: &BTreeMap<Tid, usize>, d: &[i128], terms: &BTreeSet<Tid>, uf: &mut Uf, konst: &HashMap<Tid, Tid>) -> bool {
        let n = ids.len();
        let inf = i128::MAX / 4;
        let mut eqs: Vec<BTreeMap<usize, i128>> = vec![]; // sum = 0, variable 0 is the constant 1
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        for t in terms {
            let Term::Call(f, xs) = self.t(*t).clone() else { continue };
            if xs.len() != 2 || !matches!(&*f, "add" | "sub") {
                continue;
            }
            let (r, a, b) = (uf.find(*t), uf.find(xs[0]), uf.find(xs[1]));
            let (Some(&i), Some(&ia), Some(&ib)) = (ids.get(&r), ids.get(&a), ids.get(&b)) else { continue };
            if konst.contains_key(&a) || konst.contains_key(&b) {
                continue; // already an exact difference
            }
            if &*f == "sub" && d[ia * n + ib] > 0 {
                continue;
            }
            let mut row = BTreeMap::new();
            *row.entry(i).or_insert(0) -= 1;
            *row.entry(ia).or_insert(0) += 1;
            *row.entry(ib).or_insert(0) += if &*f == "add" { 1 } else { -1 };
            row.retain(|_, c| *c != 0);
            seen.extend([i, ia, ib]);
            eqs.push(row);
        }
        if eqs.is_empty() || eqs.len() > 12 {
            return false;
        }
        // bounds between the variables that occur in those equations, and constants
        seen.insert(0);
        let mut rows: Vec<(BTreeMap<usize, i128>, i128)> = vec![]; // sum <= w
        for &i in &seen {
            for &j in &seen {
                let w = d[j * n + i];
                if i == j || w >= inf {
                    continue;
                }
                let mut r = BTreeMap::new();
                if i != 0 {
                    r.insert(i, 1);
                }
                if j != 0 {
                    r.insert(j, -1);
                }
                rows.push((r, w));
            }
        }
        // substitute the equations away
        while let Some(e) = eqs.pop() {
            let Some((&v, &c)) = e.iter().find(|(v, c)| **v != 0 && c.abs() == 1) else {
                continue;
            };
            // v = -(rest)/c
            let sub = |r: &mut BTreeMap<usize, i128>| {
                if let Some(k) = r.remove(&v) {
                    for (u, q) in &e {
                        if *u != v {
                            *r.entry(*u).or_insert(0) -= k * q * c;
                        }
                    }
                    r.retain(|_, c| *c != 0);
                }
            };
            for q in eqs.iter_mut() {
                sub(q);
            }
            eqs.retain(|q| !q.is_empty());
            for (r, _) in rows.iter_mut() {
                sub(r);
            }
        }
        // Fourier-Motzkin over what is left
        loop {
            let mut best: HashMap<Vec<(usize, i128)>, i128> = HashMap::new();
            for (r, w) in &rows {
                if r.is_empty() || (r.len() == 1 && r.contains_key(&0)) {
                    if r.get(&0).copied().unwrap_or(0) > *w {
                        return true;
                    }
                    continue;
                }
                let mut r2 = r.clone();
                let k = r2.remove(&0).unwrap_or(0);
                let e = best.entry(r2.into_iter().collect()).or_insert(i128::MAX);
                *e = (*e).min(w - k);
            }
            if best.is_empty() || best.len() > 220 {
                return false;
            }
            let cur: Vec<(BTreeMap<usize, i128>, i128)> = best.into_iter().map(|(k, w)| (k.into_iter().collect(), w)).collect();
            let vars: BTreeSet<usize> = cur.iter().flat_map(|r| r.0.keys().copied()).collect();
            let cost = |v: &usize| {
                let p = cur.iter().filter(|r| r.0.get(v).copied().unwrap_or(0) > 0).count();
                let q = cur.iter().filter(|r| r.0.get(v).copied().unwrap_or(0) < 0).count();
                p * q
            };
            let v = *vars.iter().min_by_key(|v| cost(v)).unwrap();
            let mut next = vec![];
            for r in &cur {
                let c = r.0.get(&v).copied().unwrap_or(0);
                if c == 0 {
                    next.push(r.clone());
                } else if c > 0 {
                    for s in &cur {
                        let q = s.0.get(&v).copied().unwrap_or(0);
                        if q < 0 {
                            let mut o: BTreeMap<usize, i128> = BTreeMap::new();
                            for (u, k) in &r.0 {
                                *o.entry(*u).or_insert(0) += k * -q;
                            }
                            for (u, k) in &s.0 {
                                *o.entry(*u).or_insert(0) += k * c;
                            }
                            o.retain(|_, c| *c != 0);
                            let Some(w) = r.1.checked_mul(-q).and_then(|x| s.1.checked_mul(c).and_then(|y| x.checked_add(y))) else { return false };
                            next.push((o, w));
                        }
                    }
                }
                if next.len() > 4000 {
                    return false;
                }
            }
            rows = next;
        }
    }
}
