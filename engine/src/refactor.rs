//! Development aid: enumerate small edits of the analysed functions that keep their behaviour, to find edits a rule
//! alarms on without cause.
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Copy, PartialEq)]
enum Ret {
    Res,
    Opt,
    Other,
}
struct R<'a> {
    src: &'a str,
    lines: Vec<usize>,
    out: Vec<(usize, usize, String, String)>,
    ret: Ret,
    closure: usize,
}
fn skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("cfg") && (t.contains("test") || t.contains("benchmarks") || t.contains("try-runtime")) && !t.contains("not (")
    })
}
fn pure(t: &str) -> bool {
    !["?", "mut ", "mutate", "insert", "remove", "take(", "put(", "return", "kill", "push", "deposit", "set(", "next(", "!", "=>", "append", "transfer", "freeze", "thaw"].iter().any(|x| t.contains(x))
}
impl R<'_> {
    fn at(&self, p: proc_macro2::LineColumn) -> usize {
        let l = self.lines[p.line - 1];
        let rest = &self.src[l..];
        l + rest.char_indices().nth(p.column).map_or(rest.len(), |x| x.0)
    }
    fn range<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (self.at(s.start()), self.at(s.end()))
    }
    fn text<T: Spanned>(&self, t: &T) -> String {
        let (a, b) = self.range(t);
        self.src[a..b].to_string()
    }
    fn put<T: Spanned>(&mut self, t: &T, new: &str, why: &str) {
        let (a, b) = self.range(t);
        self.out.push((a, b, new.to_string(), why.to_string()));
    }
    fn func(&mut self, sig: &syn::Signature, b: &syn::Block, item: &dyn Fn(&mut Self, String) -> Option<(usize, usize, String)>) {
        let rt = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => self.text(t),
        };
        let old = (self.ret, self.closure);
        self.closure = 0;
        self.ret = if rt.starts_with("Option") {
            Ret::Opt
        } else if rt.contains("Result") || rt.contains("TransactionValidity") {
            Ret::Res
        } else {
            Ret::Other
        };
        let body = self.text(b);
        if b.stmts.len() > 1 && sig.constness.is_none() && sig.asyncness.is_none() {
            let r = if rt.is_empty() { String::new() } else { format!("-> {rt} ") };
            if !rt.contains("impl ") {
                self.put(b, &format!("{{ let go = || {r}{body}; go() }}"), "body in a closure");
            }
            // body in a sibling function
            let mut names = vec![];
            let mut ps = vec![];
            let mut me = "Self::";
            let mut ok = true;
            for i in &sig.inputs {
                match i {
                    syn::FnArg::Receiver(r) => {
                        ps.push(self.text(r));
                        me = "self.";
                    }
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(p) => {
                            names.push(p.ident.to_string());
                            let t = self.text(t);
                            ps.push(t.split("] ").last().unwrap_or(&t).to_string());
                        }
                        _ => ok = false,
                    },
                }
            }
            if ok && sig.generics.params.is_empty() {
                let n = format!("{}_inner_part", sig.ident);
                let f = format!("\nfn {n}({}) {r}{body}\n", ps.join(", "));
                if let Some((at, _, wrap)) = item(self, f) {
                    let (x, y) = self.range(b);
                    let call = if wrap.starts_with("\nfn") { n.clone() } else { format!("{me}{n}") };
                    let new = format!("{{ {call}({}) }}{}{wrap}", names.join(", "), &self.src[y..at]);
                    self.out.push((x, at, new, "body in a new function".into()));
                }
            }
            // rename locals and parameters
            let mut locals = Locals(vec![]);
            locals.visit_block(b);
            let mut all: Vec<String> = locals.0;
            all.extend(names);
            all.sort();
            all.dedup();
            for n in all {
                if n.starts_with('_') || n == "self" {
                    continue;
                }
                let (x, y) = (self.range(&sig.inputs).0, self.range(b).1);
                if self.src[x..y].contains("quote") {
                    continue;
                }
                let mut sh = Short(vec![]);
                sh.visit_block(b);
                let short: Vec<usize> = sh.0.iter().filter(|f| f.0 == n).map(|f| self.at(f.1)).collect();
                self.out.push((x, y, rename(&self.src[x..y], &n, x, &short), format!("rename {n}")));
            }
        }
        // tail
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            let t = self.text(e);
            if !rt.is_empty() {
                self.put(e, &format!("let outcome = {t};\noutcome"), "bind the tail");
                self.put(e, &format!("return {t};"), "return the tail");
            }
            if let syn::Expr::If(i) = e {
                if let (Some((_, el)), false) = (&i.else_branch, rt.is_empty()) {
                    if let syn::Expr::Block(eb) = &**el {
                        let (c, a, z) = (self.text(&i.cond), self.text(&i.then_branch), self.text(&eb.block));
                        self.put(e, &format!("if {c} {{ return {a}; }}\n{}", z.trim_start_matches('{').trim_end_matches('}')), "early return");
                    }
                }
            }
        }
        self.visit_block(b);
        (self.ret, self.closure) = old;
    }
}
struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().unwrap().is_lowercase() {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p)
    }
}
struct Short(Vec<(String, proc_macro2::LineColumn)>);
impl<'a> Visit<'a> for Short {
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if f.colon_token.is_none() {
            self.0.push((f.member.to_token_stream().to_string(), f.span().start()));
        }
        visit::visit_field_value(self, f)
    }
    fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
        if f.colon_token.is_none() {
            self.0.push((f.member.to_token_stream().to_string(), f.span().start()));
        }
        visit::visit_field_pat(self, f)
    }
}
fn rename(s: &str, n: &str, base: usize, short: &[usize]) -> String {
    let mut out = String::new();
    let b = s.as_bytes();
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    let mut in_str = false;
    while i < s.len() {
        if b[i] == b'"' {
            in_str = !in_str;
        }
        if !in_str && s[i..].starts_with("//") {
            let e = s[i..].find('\n').map_or(s.len(), |x| i + x);
            out.push_str(&s[i..e]);
            i = e;
            continue;
        }
        if !in_str && s.is_char_boundary(i) && s[i..].starts_with(n) && (i == 0 || !id(b[i - 1])) && !s[i + n.len()..].as_bytes().first().map_or(false, |c| id(*c)) {
            let prev = s[..i].trim_end();
            let next = s[i + n.len()..].trim_start();
            let field = (prev.ends_with('.') && !prev.ends_with("..")) || prev.ends_with("::") || next.starts_with("::") || next.starts_with('!');
            // a named field in a struct literal or pattern: `{ n:` / `, n:` not in parameter position
            let label = next.starts_with(':') && !next.starts_with("::") && (prev.ends_with('{') || (prev.ends_with(',') && depth_brace(prev)));
            if short.iter().any(|x| *x == base + i) {
                out.push_str(&format!("{n}: {n}_renamed"));
            } else if field || label {
                out.push_str(n);
            } else {
                out.push_str(&format!("{n}_renamed"));
            }
            i += n.len();
            continue;
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}
fn depth_brace(prev: &str) -> bool {
    let mut st = vec![];
    for c in prev.chars() {
        match c {
            '{' | '(' | '[' => st.push(c),
            '}' | ')' | ']' => {
                st.pop();
            }
            _ => {}
        }
    }
    st.last() == Some(&'{')
}
impl<'ast> Visit<'ast> for R<'_> {
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
        if !skip(&i.attrs) {
            visit::visit_item_mod(self, i)
        }
    }
    fn visit_item_macro(&mut self, _: &'ast syn::ItemMacro) {}
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if skip(&i.attrs) {
            return;
        }
        let at = self.range(i).1;
        let g = self.text(&i.generics);
        let w = i.generics.where_clause.as_ref().map_or(String::new(), |w| self.text(w));
        let g = if g == self.src || i.generics.params.is_empty() { String::new() } else { g };
        let ty = self.text(&i.self_ty);
        let inherent_ok = !ty.contains("Runtime");
        for x in &i.items {
            if let syn::ImplItem::Fn(f) = x {
                if skip(&f.attrs) {
                    continue;
                }
                self.func(&f.sig, &f.block, &|_, s| inherent_ok.then(|| (at, 0, format!("\nimpl{g} {ty} {w} {{{s}}}\n"))));
            }
        }
    }
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        if !skip(&i.attrs) {
            let at = self.range(i).1;
            self.func(&i.sig, &i.block, &|_, s| Some((at, 0, s)));
        }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "ensure" {
                        if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                            if args.len() == 2 && self.closure == 0 && self.ret == Ret::Res {
                                let (c, e) = (self.text(&args[0]), self.text(&args[1]));
                                self.put(s, &format!("if !({c}) {{ return Err({e}.into()); }}"), "ensure to if");
                                self.put(s, &format!("let holds = {c};\nensure!(holds, {e});"), "ensure bound");
                            }
                            let a = Box::leak(Box::new(args));
                            self.visit_expr(&a[0]);
                        }
                    }
                    let t = self.text(&m.mac.path);
                    if !t.starts_with("log") && !n.starts_with("debug_assert") {
                        let t = self.text(s);
                        self.put(s, &format!("let _unused = 0u8;\n{t}"), "unused binding");
                    }
                }
                syn::Stmt::Expr(e, semi) if semi.is_some() || k + 1 < b.stmts.len() => {
                    // arguments bound first
                    let (args, head): (Vec<&syn::Expr>, String) = match e {
                        syn::Expr::Call(c) => (c.args.iter().collect(), self.text(&c.func)),
                        syn::Expr::MethodCall(c) => {
                            let (a, _) = self.range(e);
                            (c.args.iter().collect(), self.src[a..self.range(&c.method).1].to_string())
                        }
                        syn::Expr::Try(t) => match &*t.expr {
                            syn::Expr::Call(c) => (c.args.iter().collect(), self.text(&c.func)),
                            _ => (vec![], String::new()),
                        },
                        _ => (vec![], String::new()),
                    };
                    if !args.is_empty() && !args.iter().any(|a| matches!(a, syn::Expr::Closure(_))) && !args.iter().any(|a| self.text(*a).starts_with("&mut")) {
                        let q = if matches!(e, syn::Expr::Try(_)) { "?" } else { "" };
                        let lets: Vec<String> = args.iter().enumerate().map(|(i, a)| format!("let arg_{i} = {};", self.text(*a))).collect();
                        let names: Vec<String> = (0..args.len()).map(|i| format!("arg_{i}")).collect();
                        self.put(s, &format!("{}\n{head}({}){q};", lets.join("\n"), names.join(", ")), "bind arguments");
                    }
                    if let syn::Expr::Binary(x) = e {
                        let op = match x.op {
                            syn::BinOp::AddAssign(_) => "+",
                            syn::BinOp::SubAssign(_) => "-",
                            syn::BinOp::MulAssign(_) => "*",
                            _ => "",
                        };
                        if !op.is_empty() {
                            let (l, r) = (self.text(&x.left), self.text(&x.right));
                            self.put(e, &format!("{l} = {l} {op} ({r})"), "assignment operator");
                        }
                    }
                }
                syn::Stmt::Local(l) => {
                    if let (Some(i), Some(syn::Stmt::Local(n))) = (&l.init, b.stmts.get(k + 1)) {
                        if let (Some(j), None, None) = (&n.init, &i.diverge, n.init.as_ref().and_then(|j| j.diverge.as_ref())) {
                            let (x, y) = (self.text(l), self.text(n));
                            let p = self.text(&l.pat);
                            let p = p.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string();
                            if pure(&x) && pure(&y) && matches!(&l.pat, syn::Pat::Ident(_) | syn::Pat::Type(_)) && !rename(&y, &p, 0, &[]).contains("_renamed") {
                                let (a, z) = (self.range(l).0, self.range(n).1);
                                self.out.push((a, z, format!("{y}\n{x}"), "swap lets".into()));
                            }
                            let _ = j;
                        }
                    }
                    if let (Some(i), syn::Pat::Ident(p)) = (&l.init, &l.pat) {
                        if p.mutability.is_none() && i.diverge.is_none() {
                            let t = self.text(&i.expr);
                            self.put(&i.expr, &format!("{{ {t} }}"), "block around");
                            // the initialiser's receiver in its own binding
                            if let syn::Expr::Try(q) = &*i.expr {
                                if self.ret == Ret::Res && self.closure == 0 {
                                    let inner = self.text(&q.expr);
                                    self.put(l, &format!("let attempt = {inner};\nlet {} = attempt?;", p.ident), "bind the attempt");
                                }
                            }
                        }
                        if let Some((_, d)) = &i.diverge {
                            let _ = d;
                        }
                    }
                    if let (Some(i), false) = (&l.init, false) {
                        if let Some((_, d)) = &i.diverge {
                            let (p, e, d) = (self.text(&l.pat), self.text(&i.expr), self.text(d));
                            let mut locals = Locals(vec![]);
                            locals.visit_pat(&l.pat);
                            let n = locals.0.join(", ");
                            self.put(l, &format!("let ({n}) = if let {p} = {e} {{ ({n}) }} else {d};"), "let-else to if-let");
                        }
                    }
                }
                _ => {}
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if matches!(n.as_str(), "matches" | "vec") {
            if n == "matches" {
                let t = m.tokens.clone();
                if let Ok((e, rest)) = syn::parse::Parser::parse2(
                    |i: syn::parse::ParseStream| {
                        let e: syn::Expr = i.parse()?;
                        let _: syn::Token![,] = i.parse()?;
                        Ok((e, i.parse::<proc_macro2::TokenStream>()?))
                    },
                    t,
                ) {
                    let e = self.text(&e);
                    let r = self.text(&rest);
                    let r = r.trim_end_matches(',').to_string();
                    self.put(m, &format!("(match {e} {{ {r} => true, _ => false }})"), "matches to match");
                }
            }
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for a in args {
                    self.visit_expr(Box::leak(Box::new(a)));
                }
            }
        }
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closure += 1;
        if !matches!(&*c.body, syn::Expr::Block(_)) {
            let t = self.text(&c.body);
            if c.output == syn::ReturnType::Default {
                self.put(&c.body, &format!("{{ let value = {t}; value }}"), "closure block");
            }
        }
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        use syn::{BinOp::*, Expr};
        match e {
            Expr::Binary(b) => {
                let flip = match b.op {
                    Lt(_) => ">",
                    Le(_) => ">=",
                    Gt(_) => "<",
                    Ge(_) => "<=",
                    Eq(_) => "==",
                    Ne(_) => "!=",
                    _ => "",
                };
                let neg = match b.op {
                    Lt(_) => ">=",
                    Le(_) => ">",
                    Gt(_) => "<=",
                    Ge(_) => "<",
                    Eq(_) => "!=",
                    Ne(_) => "==",
                    _ => "",
                };
                let (l, r) = (self.text(&b.left), self.text(&b.right));
                if !flip.is_empty() {
                    self.put(e, &format!("(({r}) {flip} ({l}))"), "flip comparison");
                    self.put(e, &format!("(!(({l}) {neg} ({r})))"), "negate comparison");
                }
                if !l.contains("let ") && !r.contains("let ") {
                    match b.op {
                        And(_) => self.put(e, &format!("(!(!({l}) || !({r})))"), "de Morgan"),
                        Or(_) => self.put(e, &format!("(!(!({l}) && !({r})))"), "de Morgan"),
                        _ => {}
                    }
                    if let And(_) = b.op {
                        self.put(e, &format!("(if {l} {{ {r} }} else {{ false }})"), "and to if");
                    }
                }
            }
            Expr::If(i) => {
                let (c, a) = (self.text(&i.cond), self.text(&i.then_branch));
                let el = i.else_branch.as_ref().map(|x| self.text(&x.1));
                if let Expr::Let(l) = &*i.cond {
                    let (p, x) = (self.text(&l.pat), self.text(&l.expr));
                    self.put(e, &format!("match {x} {{ {p} => {a}, _ => {} }}", el.unwrap_or("{}".into())), "if-let to match");
                } else if !c.contains("let ") {
                    let t = i.else_branch.as_ref().map_or("{}".into(), |x| self.text(&x.1));
                    self.put(e, &format!("if !({c}) {{ {t} }} else {a}"), "swap branches");
                    self.put(e, &format!("match {c} {{ true => {a}, false => {{ {t} }} }}"), "if to match");
                }
            }
            Expr::Match(m) => {
                let t = self.text(&m.expr);
                let arms: Vec<String> = m.arms.iter().map(|a| self.text(a)).collect();
                let wild = |a: &syn::Arm| a.guard.is_some() || matches!(&a.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_));
                let fix = |s: &String| if s.ends_with(',') || s.ends_with('}') { s.clone() } else { format!("{s},") };
                let safe = m.arms.iter().take_while(|a| !wild(a)).count();
                let heads: Vec<String> = m.arms.iter().take(safe).map(|a| a.pat.to_token_stream().to_string().split(['(', '{']).next().unwrap().to_string()).collect();
                let distinct = heads.iter().collect::<std::collections::BTreeSet<_>>().len() == heads.len();
                if safe >= 2 && distinct {
                    let mut v: Vec<String> = arms.iter().map(fix).collect();
                    v[..safe].reverse();
                    self.put(e, &format!("match {t} {{ {} }}", v.join("\n")), "reorder arms");
                }
                self.put(e, &format!("{{ let subject = {t}; match subject {{ {} }} }}", arms.iter().map(fix).collect::<Vec<_>>().join("\n")), "bind the subject");
                if m.arms.len() == 2 && m.arms[0].guard.is_none() && m.arms[1].guard.is_none() {
                    let p1 = self.text(&m.arms[1].pat);
                    if p1 == "_" || p1 == "None" || p1 == "Err(_)" {
                        let (p, a, z) = (self.text(&m.arms[0].pat), self.text(&m.arms[0].body), self.text(&m.arms[1].body));
                        self.put(e, &format!("(if let {p} = {t} {{ {a} }} else {{ {z} }})"), "match to if-let");
                    }
                }
            }
            Expr::ForLoop(f) => {
                let (p, x, b) = (self.text(&f.pat), self.text(&f.expr), self.text(&f.body));
                if f.label.is_none() {
                    self.put(e, &format!("{{ let mut items = ({x}).into_iter(); while let Some({p}) = items.next() {b} }}"), "for to while-let");
                    if !b.contains("return") && !b.contains('?') && !b.contains("break") && !b.contains("continue") {
                        self.put(e, &format!("({x}).into_iter().for_each(|{p}| {b})"), "for to for_each");
                    }
                }
            }
            Expr::Try(t) if self.closure == 0 => {
                let x = self.text(&t.expr);
                match self.ret {
                    Ret::Res => self.put(e, &format!("(match {x} {{ Ok(value) => value, Err(e) => return Err(e.into()) }})"), "? to match"),
                    Ret::Opt => self.put(e, &format!("(match {x} {{ Some(value) => value, None => return None }})"), "? to match"),
                    _ => {}
                }
                if let (Expr::MethodCall(m), Ret::Res) = (&*t.expr, self.ret) {
                    let r = self.text(&m.receiver);
                    if m.method == "ok_or" {
                        let a = self.text(&m.args[0]);
                        self.put(e, &format!("(match {r} {{ Some(value) => value, None => return Err({a}.into()) }})"), "ok_or to match");
                        self.put(&t.expr, &format!("{r}.ok_or_else(|| {a})"), "ok_or_else");
                    }
                    if m.method == "map_err" {
                        if let Expr::Closure(c) = &m.args[0] {
                            let (p, b) = (self.text(&c.inputs), self.text(&c.body));
                            self.put(e, &format!("(match {r} {{ Ok(value) => value, Err({p}) => return Err({b}.into()) }})"), "map_err to match");
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = self.text(&m.receiver);
                let a: Vec<String> = m.args.iter().map(|a| self.text(a)).collect();
                match (n.as_str(), a.len()) {
                    ("is_some", 0) => {
                        self.put(e, &format!("(!{r}.is_none())"), "is_some");
                        self.put(e, &format!("matches!({r}, Some(_))"), "is_some to matches");
                    }
                    ("is_none", 0) => self.put(e, &format!("(!{r}.is_some())"), "is_none"),
                    ("is_ok", 0) => self.put(e, &format!("(!{r}.is_err())"), "is_ok"),
                    ("is_err", 0) => self.put(e, &format!("(!{r}.is_ok())"), "is_err"),
                    ("is_empty", 0) => self.put(e, &format!("({r}.len() == 0)"), "is_empty"),
                    ("unwrap_or", 1) => {
                        self.put(e, &format!("{r}.map_or({}, |value| value)", a[0]), "unwrap_or to map_or");
                        self.put(e, &format!("(match {r} {{ Some(value) => value, None => {} }})", a[0]), "OPTION unwrap_or to match");
                    }
                    ("any", 1) => {
                        if let Expr::Closure(c) = &m.args[0] {
                            let (p, b) = (self.text(&c.inputs), self.text(&c.body));
                            self.put(e, &format!("(!{r}.all(|{p}| !({b})))"), "any to all");
                            self.put(e, &format!("({r}.filter(|__x| true).find(|__x| true).is_none() == false && {r}.any(|{p}| {b}))"), "SKIP");
                            self.out.pop();
                        }
                    }
                    ("all", 1) => {
                        if let Expr::Closure(c) = &m.args[0] {
                            let (p, b) = (self.text(&c.inputs), self.text(&c.body));
                            self.put(e, &format!("(!{r}.any(|{p}| !({b})))"), "all to any");
                        }
                    }
                    ("min", 1) => self.put(e, &format!("{{ let a = {r}; let b = {}; if b < a {{ b }} else {{ a }} }}", a[0]), "min to if"),
                    ("max", 1) => self.put(e, &format!("{{ let a = {r}; let b = {}; if a > b {{ a }} else {{ b }} }}", a[0]), "max to if"),
                    ("clone", 0) => self.put(e, &format!("({r}.to_owned())"), "to_owned"),
                    ("map", 1) => {
                        if let Expr::Closure(c) = &m.args[0] {
                            let (p, b) = (self.text(&c.inputs), self.text(&c.body));
                            if !r.contains("iter") && !r.contains("chars") && !r.contains("split") {
                                if !b.contains("return") && !b.contains('?') {
                                    self.put(e, &format!("(match {r} {{ Some({p}) => Some({b}), None => None }})"), "OPTION map to match");
                                }
                            } else {
                                self.put(e, &format!("{r}.flat_map(|{p}| Some({b}))"), "ITER map to flat_map");
                            }
                        }
                    }
                    ("ok_or", 1) => self.put(e, &format!("(match {r} {{ Some(value) => Ok(value), None => Err({}) }})", a[0]), "ok_or to match"),
                    ("saturating_add", 1) => self.put(e, &format!("{r}.checked_add({}).unwrap_or_else(Bounded::max_value)", a[0]), "saturating via checked"),
                    ("saturating_sub", 1) => self.put(e, &format!("{{ let a = {r}; let b = {}; if a > b {{ a - b }} else {{ Zero::zero() }} }}", a[0].trim_start_matches('&')), "saturating_sub to if"),
                    _ => {}
                }
            }
            Expr::Call(c) => {
                let f = self.text(&c.func);
                if f == "Some" && c.args.len() == 1 && self.closure == 0 {
                    let t = self.text(&c.args[0]);
                    if t.len() > 12 {
                        self.put(&c.args[0], &format!("{{ let inner = {t}; inner }}"), "bind inner");
                    }
                }
            }
            Expr::Struct(s) if s.fields.len() > 1 && s.rest.is_none() => {
                let mut f: Vec<String> = s.fields.iter().map(|x| self.text(x)).collect();
                if f.iter().all(|x| pure(x)) {
                    f.reverse();
                    let p = self.text(&s.path);
                    self.put(e, &format!("{p} {{ {} }}", f.join(", ")), "reorder fields");
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

pub fn print(repo: &str, files: &[String]) {
    for f in files {
        let path = std::path::Path::new(repo).join(f);
        let src = std::fs::read_to_string(&path).unwrap_or_default();
        let Ok(file) = syn::parse_file(&src) else { continue };
        let mut lines = vec![0];
        lines.extend(src.char_indices().filter(|x| x.1 == '\n').map(|x| x.0 + 1));
        let mut m = R { src: &src, lines, out: vec![], ret: Ret::Other, closure: 0 };
        m.visit_file(&file);
        m.out.sort();
        m.out.dedup();
        for (a, b, new, why) in m.out {
            // an edit that is not even Rust is of no use
            let t = format!("{}{}{}", &src[..a], new, &src[b..]);
            if syn::parse_file(&t).is_err() {
                eprintln!("skip {f}:{} {why}", src[..a].matches('\n').count() + 1);
                continue;
            }
            println!("{}", serde_json::json!({"file": f, "start": a, "end": b, "new": new, "why": why, "line": src[..a].matches('\n').count() + 1, "old": &src[a..b]}));
        }
    }
}
