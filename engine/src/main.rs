mod cong;
mod core;
mod eval;
mod load;
mod mutate;
mod refactor;
mod rule;
mod rules;
use crate::rule::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const ASSUME: &[&str] = &[
    "the abstract interpreter models Rust control flow, Option/Result/iterator combinators and FRAME storage/Currency/origin APIs as documented in DESIGN.md; calls into polkadot-sdk and other external crates are uninterpreted functions of their arguments",
    "extrinsics are transactional: FRAME rolls back storage when a dispatchable returns an error",
    "loops and folds over unbounded collections are summarised by quantified/uninterpreted terms, never unrolled",
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 4 && a[1] == "show" {
        let feats: Vec<&str> = a.get(6).map(|s| s.split(',').collect()).unwrap_or_default();
        let ix = load::load(std::path::Path::new(&a[2]), &feats);
        eprintln!("files {} fns {} storages {} errors {:?}", ix.files.len(), ix.fns.len(), ix.storages.len(), ix.parse_errors);
        let k = Chk { ix: &ix, ixs: Default::default(), prop: "X".into(), root: a[2].clone(), rep: Rc::new(RefCell::new(Report::default())) };
        let op: Vec<&str> = a.get(5).map(|s| s.split(',').filter(|x| !x.is_empty()).collect()).unwrap_or_default();
        let n = a.get(7).and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut r = if n > 0 { k.run_unrolled(&a[3], &a[4], &[], &op, "", n) } else { k.run_with(&a[3], &a[4], &[], &op) };
        r.dump();
        return;
    }
    if a.len() > 2 && a[1] == "fns" {
        let ix = load::load(std::path::Path::new(&a[2]), &[]);
        for f in &ix.fns {
            println!("{}::{}{} {}:{} {}", f.krate, f.self_ty.as_ref().map_or(String::new(), |s| format!("{}::", s)), f.name, f.file, f.line, f.sig.ident);
        }
        return;
    }
    if a.len() > 2 && (a[1] == "mutants" || a[1] == "refactors") {
        let ix = load::load(std::path::Path::new(&a[2]), &[]);
        let mut files: Vec<String> = ix.fns.iter().map(|f| f.file.clone()).collect();
        files.sort();
        files.dedup();
        if a[1] == "mutants" {
            mutate::print(&a[2], &files);
        } else {
            refactor::print(&a[2], &files);
        }
        return;
    }
    // fsa expr <repo> <crate> "name:Type,..." "<expr>"
    if a.len() > 2 && a[1] == "layout" {
        let ix = load::load(std::path::Path::new(&a[2]), &["std"]);
        println!("{}", serde_json::to_string_pretty(&rules::layout::published(&ix)).unwrap());
        return;
    }
    if a.len() > 5 && a[1] == "expr" {
        let ix = load::load(std::path::Path::new(&a[2]), &[]);
        let k = Chk { ix: &ix, ixs: Default::default(), prop: "X".into(), root: a[2].clone(), rep: Rc::new(RefCell::new(Report::default())) };
        let ps: Vec<(&str, &str)> = a[4].split(',').filter_map(|x| x.split_once(':')).collect();
        let n = a.get(6).and_then(|s| s.parse().ok()).unwrap_or(0);
        let op: Vec<&str> = a.get(7).map(|s| s.split(',').filter(|x| !x.is_empty()).collect()).unwrap_or_default();
        let mut r = k.run_expr_n(&ix, &a[3], "expr", &ps, &op, &a[5], n);
        r.dump();
        return;
    }
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let repo = opt("--repo").unwrap_or("/repo".into());
    let out = opt("--out").unwrap_or("/verif/evidence".into());
    let known = opt("--known").unwrap_or("/verif/known-findings.txt".into());
    let tier = opt("--tier").unwrap_or("quick".into());
    let props: Vec<String> = match opt("--property") {
        Some(p) if p != "all" => p.split(',').map(|s| s.to_string()).collect(),
        _ => rules::RULES.iter().map(|r| r.0.to_string()).collect(),
    };
    let verbose = a.iter().any(|x| x == "-v");
    let mut code = 0;
    // the recursive abstract interpreter needs stack
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        for p in props {
            code |= check(&p, &repo, &out, &known, &tier, verbose);
        }
        code
    });
    let c = th.unwrap().join().unwrap_or(1);
    std::process::exit(c);
}

fn check(prop: &str, repo: &str, out: &str, known: &str, tier: &str, verbose: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let entry = rules::RULES.iter().find(|r| r.0 == prop);
    let rep = Rc::new(RefCell::new(Report::default()));
    let root = std::path::Path::new(repo);
    let ix = load::load(root, &[]);
    let ixm = load::load(root, &["frequency"]);
    let mut ixs: BTreeMap<&'static str, &load::Index> = BTreeMap::new();
    ixs.insert("frequency", &ixm);
    let ixstd = load::load(root, &["std"]);
    ixs.insert("std", &ixstd);
    let (nfiles, nfns) = (ix.files.len(), ix.fns.len());
    {
        let mut rp = rep.borrow_mut();
        let n = ix.parse_errors.len();
        rp.ob("parse", "parse", n == 0, &format!("all {} source files parse", nfiles), repo, || format!("{:?}", ix.parse_errors));
        rp.ob("parse", "files", nfiles >= 80, "the source tree is present", repo, || format!("only {} files", nfiles));
    }
    let mut unsupported: Vec<String> = vec![];
    match entry {
        None => rep.borrow_mut().ob("rule", "norule", false, "a rule set exists", prop, || "unknown property".into()),
        Some((_, _, f)) => {
            let k = Chk { ix: &ix, ixs, prop: prop.into(), root: repo.into(), rep: rep.clone() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&k)));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                rep.borrow_mut().ob("analysis", "analysis-error", false, "the analysis completes", prop, || m);
            }
            unsupported.extend(rep.borrow().unsupported.iter().cloned());
        }
    }
    let rp = rep.borrow();
    // known findings
    let kf = std::fs::read_to_string(known).unwrap_or_default();
    let pre = format!("known: property={} key=", prop);
    let listed: Vec<(String, String)> = kf
        .lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((l.to_string(), String::new())))
        .collect();
    let mut nknown = 0;
    let mut viols = vec![];
    let mut shown = std::collections::BTreeSet::new();
    for v in &rp.violations {
        match listed.iter().find(|k| k.0 == v.key) {
            Some(k) => {
                nknown += 1;
                if shown.insert(k.0.clone()) {
                    println!("KNOWN-FINDING: property={} {} [{}]", prop, k.1, k.0);
                }
            }
            None => viols.push(v),
        }
    }
    let vpath = format!("{}/{}.violation.json", out, prop);
    let _ = std::fs::create_dir_all(out);
    let _ = std::fs::remove_file(&vpath);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": format!("{} Deciding step: guarded value-flow analysis of the current source of {}; every obligation is an implication between guard formulas / value terms computed from the code, checked by BDD entailment.", entry.map_or("", |e| e.1), repo),
            "obligations": rp.obligations, "discharged": rp.discharged, "known_findings": nknown,
            "obligations_by_rule": rp.by_rule,
            "source_files_indexed": nfiles, "functions_indexed": nfns,
            "functions_analysed": rp.fns, "files_analysed": rp.files,
            "call_sites_interpreted": rp.calls, "effect_sites": rp.effects, "distinct_guard_formulas": rp.guards,
            "constructs_treated_as_opaque": unsupported,
            "samples": rp.samples,
        },
        "assumptions": ASSUME, "wall_s": t0.elapsed().as_secs_f64(), "violations": viols.len(),
    });
    let _ = std::fs::write(format!("{}/{}.json", out, prop), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    if verbose {
        println!("{} obligations {} discharged {} known {} unsupported {:?} {:.2}s", prop, rp.obligations, rp.discharged, nknown, unsupported, t0.elapsed().as_secs_f64());
    }
    if viols.is_empty() {
        println!("OK property={} obligations={} functions={}", prop, rp.obligations, rp.fns.len());
        return 0;
    }
    let vj: Vec<_> = viols.iter().map(|v| json!({"key": v.key, "rule": v.what, "at": v.at, "witness": v.witness})).collect();
    let _ = std::fs::write(&vpath, serde_json::to_string_pretty(&json!({"property": prop, "violations": vj})).unwrap() + "\n");
    println!("VIOLATION property={} replay={}", prop, vpath);
    for v in viols.iter().take(if verbose { 1000 } else { 20 }) {
        let mut w = v.witness.clone();
        let lim = if verbose { 20000 } else { 600 };
        if w.len() > lim {
            let mut n = lim;
            while !w.is_char_boundary(n) { n -= 1 }
            w.truncate(n);
            w.push('…');
        }
        println!("  at {} : {}\n    key {}\n    {}", v.at, v.what, v.key, w);
    }
    1
}
