//! Development aid: enumerate small semantic edits of the analysed functions, to find edits no rule notices.
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct M<'a> {
    src: &'a str,
    lines: Vec<usize>,
    out: Vec<(usize, usize, String, String)>,
    func: String,
}
impl M<'_> {
    fn at(&self, p: proc_macro2::LineColumn) -> usize {
        let l = self.lines[p.line - 1];
        let rest = &self.src[l..];
        l + rest.char_indices().nth(p.column).map_or(rest.len(), |x| x.0)
    }
    fn range<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (self.at(s.start()), self.at(s.end()))
    }
    fn put<T: Spanned>(&mut self, t: &T, new: &str, why: &str) {
        let (a, b) = self.range(t);
        self.out.push((a, b, new.to_string(), why.to_string()));
    }
    fn text<T: Spanned>(&self, t: &T) -> String {
        let (a, b) = self.range(t);
        self.src[a..b].to_string()
    }
}
fn skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("cfg") && (t.contains("test") || t.contains("benchmarks") || t.contains("try-runtime")) && !t.contains("not (")
    })
}
const SWAPS: &[(&str, &str)] = &[
    ("is_some", "is_none"), ("is_ok", "is_err"), ("any", "all"), ("min", "max"), ("first", "last"), ("saturating_add", "saturating_sub"), ("checked_add", "checked_sub"), ("unwrap_or", "xor"), ("gt", "ge"), ("lt", "le"), ("contains", "is_superset"), ("and", "or"), ("and_then", "or_else"),
    ("try_push", "try_insert"), ("push", "insert"), ("filter", "skip_while"), ("saturating_mul", "saturating_add"), ("checked_mul", "checked_add"), ("checked_div", "checked_mul"),
];
const DROP: &[&str] = &["filter", "rev", "skip", "take", "trim", "to_lowercase", "to_ascii_lowercase", "min", "max", "saturating_sub", "saturating_add", "chain", "take_while", "skip_while", "nfkd", "sort", "retain", "dedup", "wrap", "not"];
impl<'ast> Visit<'ast> for M<'_> {
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
        if !skip(&i.attrs) {
            visit::visit_item_mod(self, i)
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if !skip(&i.attrs) {
            let old = self.func.clone();
            let t = &i.self_ty;
            self.func = quote::quote!(#t).to_string();
            visit::visit_item_impl(self, i);
            self.func = old;
        }
    }
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        if !skip(&i.attrs) {
            let old = self.func.clone();
            self.func = format!("{}::{}", old, i.sig.ident);
            visit::visit_block(self, &i.block);
            self.func = old;
        }
    }
    fn visit_impl_item_fn(&mut self, i: &'ast syn::ImplItemFn) {
        if !skip(&i.attrs) {
            let old = self.func.clone();
            self.func = format!("{}::{}", old, i.sig.ident);
            visit::visit_block(self, &i.block);
            self.func = old;
        }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            match s {
                syn::Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    let t = self.text(&m.mac.path);
                    if t.starts_with("log") || n.starts_with("debug_assert") {
                        continue;
                    }
                    self.put(s, "", "drop statement");
                    if n == "ensure" {
                        // negate / weaken the guard
                        if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                            if let Some(c) = args.first() {
                                self.visit_expr(Box::leak(Box::new(c.clone())));
                                let (a, z) = self.range(c);
                                let t = self.src[a..z].to_string();
                                self.out.push((a, z, format!("!({t})"), "negate guard".into()));
                            }
                        }
                    }
                }
                syn::Stmt::Expr(e, Some(_)) if !matches!(e, syn::Expr::Return(_)) => {
                    self.put(s, "", "drop statement");
                }
                syn::Stmt::Expr(syn::Expr::If(_), None) if b.stmts.len() > 1 => {
                    if !std::ptr::eq(s, b.stmts.last().unwrap()) {
                        self.put(s, "", "drop if");
                    }
                }
                _ => {}
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if matches!(n.as_str(), "ensure" | "matches" | "vec") {
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                if n != "ensure" {
                    for a in args {
                        self.visit_expr(Box::leak(Box::new(a)));
                    }
                }
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        use syn::{BinOp::*, Expr};
        match e {
            Expr::Binary(b) => {
                let alts: &[&str] = match b.op {
                    Lt(_) => &["<=", ">"],
                    Le(_) => &["<", ">"],
                    Gt(_) => &[">=", "<"],
                    Ge(_) => &[">", "<"],
                    Eq(_) => &["!="],
                    Ne(_) => &["=="],
                    And(_) => &["||"],
                    Or(_) => &["&&"],
                    Add(_) => &["-"],
                    Sub(_) => &["+"],
                    Mul(_) => &["+"],
                    Div(_) => &["*"],
                    AddAssign(_) => &["-="],
                    SubAssign(_) => &["+="],
                    BitAnd(_) => &["|"],
                    BitOr(_) => &["&"],
                    _ => &[],
                };
                for a in alts {
                    self.put(&b.op, a, &format!("operator {a}"));
                }
                if matches!(b.op, And(_) | Or(_)) {
                    let (l, r) = (self.text(&b.left), self.text(&b.right));
                    self.put(e, &l, "drop right operand");
                    self.put(e, &r, "drop left operand");
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                let t = self.text(&u.expr);
                self.put(e, &t, "drop negation");
            }
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => {
                    if let Ok(v) = i.base10_parse::<u128>() {
                        self.put(e, &format!("{}{}", v + 1, i.suffix()), "literal + 1");
                        if v > 0 {
                            self.put(e, &format!("{}{}", v - 1, i.suffix()), "literal - 1");
                        }
                    }
                }
                syn::Lit::Bool(b) => self.put(e, if b.value { "false" } else { "true" }, "flip bool"),
                _ => {}
            },
            Expr::If(i) => {
                if !matches!(&*i.cond, Expr::Let(_)) {
                    self.put(&i.cond, "true", "condition true");
                    self.put(&i.cond, "false", "condition false");
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for (a, b) in SWAPS {
                    if n == *a {
                        self.put(&m.method, b, &format!("{a} -> {b}"));
                    }
                    if n == *b {
                        self.put(&m.method, a, &format!("{b} -> {a}"));
                    }
                }
                if DROP.contains(&n.as_str()) {
                    let t = self.text(&m.receiver);
                    self.put(e, &t, &format!("drop .{n}"));
                }
                if m.args.len() == 2 {
                    let (x, y) = (self.text(&m.args[0]), self.text(&m.args[1]));
                    let r = (self.range(&m.args[0]).0, self.range(&m.args[1]).1);
                    self.out.push((r.0, r.1, format!("{y}, {x}"), "swap arguments".into()));
                }
            }
            Expr::Call(c) => {
                for i in 1..c.args.len() {
                    let (x, y) = (self.text(&c.args[i - 1]), self.text(&c.args[i]));
                    let r = (self.range(&c.args[i - 1]).0, self.range(&c.args[i]).1);
                    self.out.push((r.0, r.1, format!("{y}, {x}"), "swap arguments".into()));
                }
            }
            Expr::Match(m) => {
                for i in 1..m.arms.len() {
                    let (x, y) = (self.text(&m.arms[i - 1].body), self.text(&m.arms[i].body));
                    if x != y {
                        self.put(&m.arms[i].body, &x, "previous arm's body");
                        self.put(&m.arms[i - 1].body, &y, "next arm's body");
                    }
                }
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard {
                        self.put(g, "true", "guard true");
                    }
                }
            }
            Expr::Struct(s) => {
                for i in 1..s.fields.len() {
                    let (x, y) = (self.text(&s.fields[i - 1].expr), self.text(&s.fields[i].expr));
                    if x != y {
                        self.put(&s.fields[i].expr, &x, "previous field's value");
                    }
                }
            }
            Expr::Range(r) => {
                if let syn::RangeLimits::HalfOpen(d) = &r.limits {
                    if r.end.is_some() {
                        self.put(d, "..=", "inclusive range");
                    }
                } else if let syn::RangeLimits::Closed(d) = &r.limits {
                    self.put(d, "..", "exclusive range");
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

pub fn print(repo: &str, files: &[String]) {
    for f in files {
        let path = std::path::Path::new(repo).join(f);
        let src = std::fs::read_to_string(&path).unwrap_or_default();
        let Ok(file) = syn::parse_file(&src) else { continue };
        let mut lines = vec![0];
        lines.extend(src.char_indices().filter(|x| x.1 == '\n').map(|x| x.0 + 1));
        let mut m = M { src: &src, lines, out: vec![], func: String::new() };
        m.visit_file(&file);
        m.out.sort();
        m.out.dedup();
        for (a, b, new, why) in m.out {
            println!("{}", serde_json::json!({"file": f, "start": a, "end": b, "new": new, "why": why, "line": src[..a].matches('\n').count() + 1, "old": &src[a..b]}));
        }
    }
}
