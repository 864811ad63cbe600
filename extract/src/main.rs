//! Mechanical extraction of functions of sweep-bptree into one Verus file.
//!
//! `extract <repo/src> <contract file>... --out FILE --map FILE [--stub path=reason]... [--const NAME=VALUE]...`
//!
//! The contract files hold raw Verus text (specification only) and, for each function under
//! contract, the requires/ensures clauses, loop invariants and proof blocks. The executable text of
//! every function is taken from the source tree on every run, after the rewrites in `rewrite.rs`.
mod contracts;
mod index;
mod own;
mod print;
mod rewrite;

use contracts::*;
use std::collections::BTreeMap;

fn main() {
    let mut args = std::env::args().skip(1);
    let src = args.next().expect("src dir");
    let mut files = vec![];
    let mut out = String::new();
    let mut map = String::new();
    let mut stubs: BTreeMap<String, String> = BTreeMap::new();
    let mut ops: std::collections::BTreeSet<String> = Default::default();
    let mut omits: std::collections::BTreeSet<String> = Default::default();
    let mut vacuity = false;
    let mut consts: BTreeMap<String, String> = BTreeMap::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--out" => out = args.next().unwrap(),
            "--map" => map = args.next().unwrap(),
            "--stub" => {
                let s = args.next().unwrap();
                let (p, r) = s.split_once('=').unwrap();
                stubs.insert(p.to_string(), r.to_string());
            }
            "--ops" => {
                ops.insert(args.next().unwrap());
            }
            "--omit" => {
                omits.insert(args.next().unwrap());
            }
            "--vacuity" => vacuity = true,
            "--const" => {
                let s = args.next().unwrap();
                let (p, r) = s.split_once('=').unwrap();
                consts.insert(p.to_string(), r.to_string());
            }
            _ => files.push(a),
        }
    }
    let mut idx = match index::Index::load(&src) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("extract: {e}");
            std::process::exit(3);
        }
    };
    let mut text = String::new();
    let mut fns: Vec<serde_json::Value> = vec![];
    let mut problems: Vec<serde_json::Value> = vec![];
    let mut items = vec![];
    for f in &files {
        let t = std::fs::read_to_string(f).expect("contract file");
        items.extend(parse(&t, f));
    }
    for i in &items {
        if let Item::Struct { name, ghost, .. } = i {
            if !ghost.is_empty() {
                let v = ghost.iter().map(|g| g.trim_start_matches("pub ").split(':').next().unwrap().trim().to_string()).collect();
                idx.ghosts.insert(name.clone(), v);
            }
        }
    }
    let known: std::collections::BTreeSet<String> = items
        .iter()
        .filter_map(|i| match i {
            Item::Fn(f) => Some(f.path.clone()),
            _ => None,
        })
        .collect();
    let raw_names: std::collections::BTreeSet<String> = {
        // functions defined in raw text (prelude): never inlined
        let mut s = std::collections::BTreeSet::new();
        for i in &items {
            if let Item::Raw(t, ..) = i {
                let toks: Vec<&str> = t
                    .split(|c: char| !(c.is_alphanumeric() || c == '_'))
                    .filter(|x| !x.is_empty())
                    .collect();
                for w in toks.windows(2) {
                    if w[0] == "fn" {
                        s.insert(w[1].to_string());
                    }
                }
            }
        }
        s
    };
    let emit = |text: &mut String, s: &str| {
        text.push_str(s);
        if !s.ends_with('\n') {
            text.push('\n');
        }
    };
    let line_of = |text: &String| text.matches('\n').count() + 1;
    let mut labels: Vec<(usize, String)> = vec![];
    for it in &items {
        match it {
            Item::Raw(t, _f, _l) => {
                let l0 = line_of(&text);
                for (i, l) in t.lines().enumerate() {
                    if let Some(lb) = label_of(l) {
                        labels.push((l0 + i, lb));
                    }
                }
                // each lemma in a solver process of its own
                let mut prev = "";
                let t: String = t
                    .lines()
                    .map(|l| {
                        let r = if l.starts_with("proof fn ") || l.starts_with("pub proof fn ") {
                            let lim = if prev.contains("rlimit") { "" } else { "#[verifier::rlimit(40)] " };
                            format!("#[verifier::spinoff_prover] {lim}{l}\n")
                        } else {
                            format!("{l}\n")
                        };
                        prev = l;
                        r
                    })
                    .collect();
                emit(&mut text, &t)
            }
            Item::Struct { file, name, attrs, ghost, generics, subst } => match idx.find_type(file, name) {
                Some(s) => {
                    let t = rewrite::emit_struct(&idx, file, s, attrs, ghost, generics, subst);
                    emit(&mut text, &t);
                }
                None => problems.push(serde_json::json!({"kind":"lost-type","path":format!("{file} {name}")})),
            },
            Item::Const { file, name } => match idx.find_const(file, name) {
                Some(c) => {
                    let t = rewrite::emit_const(&idx, file, c, consts.get(name));
                    emit(&mut text, &t);
                }
                None => problems.push(serde_json::json!({"kind":"lost-const","path":format!("{file} {name}")})),
            },
            Item::Fn(fc) => {
                let mut fcv;
                let mut fco;
                let mut fc = fc;
                if ops.contains(&fc.path) {
                    fco = fc.clone();
                    fco.opts.push("ops".into());
                    fc = &fco;
                }
                if vacuity {
                    fcv = fc.clone();
                    fcv.ats.insert(0, ("start".into(), "    proof { assert(false); }\n".into()));
                    fc = &fcv;
                }
                let stub = stubs.get(&fc.path).cloned().or_else(|| fc.trusted.clone());
                let found = if omits.contains(&fc.path) { None } else { idx.find_fn(&fc.file, &fc.path) };
                let l0 = line_of(&text);
                match found {
                    None => {
                        problems.push(serde_json::json!({"kind":"lost-function","path":fc.path}));
                        // keep the contract so that callers can still be checked
                        if let Some(sig) = &fc.sig {
                            let t = rewrite::emit_sig_only(fc, sig);
                            emit(&mut text, &t);
                        }
                        fns.push(serde_json::json!({"path":fc.path,"props":fc.props,"status":"lost",
                            "line0":l0,"line1":line_of(&text)}));
                    }
                    Some(f) => {
                        let r = rewrite::emit_fn(&idx, fc, f, stub.is_some(), &known, &raw_names);
                        for (k, m) in &r.missing {
                            problems.push(serde_json::json!({"kind":k,"path":fc.path,"what":m}));
                        }
                        let t = r.text;
                        for (i, l) in t.lines().enumerate() {
                            if let Some(lb) = label_of(l) {
                                labels.push((l0 + i, lb));
                            }
                        }
                        emit(&mut text, &t);
                        fns.push(serde_json::json!({"path":fc.path,"file":fc.file,"props":fc.props,
                            "status": if fc.trusted.is_some() {"trusted"} else if stub.is_some() {"stubbed"} else if !r.missing.is_empty() {"anchor-lost"} else {"verified"},
                            "reason": stub, "name": r.name, "src_line": r.src_line, "src_end": r.src_end,
                            "inlined": r.inlined, "loops": r.loops, "calls": r.calls, "dropped": r.dropped,
                            "line0":l0,"line1":line_of(&text)-1}));
                    }
                }
            }
        }
    }
    std::fs::write(&out, &text).unwrap();
    // what is neither under contract nor inlined into a function under contract
    let mut covered: std::collections::BTreeSet<String> = known.clone();
    for f in &fns {
        for n in f["inlined"].as_array().into_iter().flatten() {
            covered.insert(n.as_str().unwrap_or("").to_string());
        }
    }
    let outside: Vec<String> =
        idx.fns.iter().filter(|f| f.line > 0 && !covered.contains(&f.path)).map(|f| format!("{}:{} {}", f.file, f.line, f.path)).collect();
    let v = serde_json::json!({"functions": fns, "problems": problems, "outside": outside,
        "labels": labels.iter().map(|(l,s)| serde_json::json!([l, s])).collect::<Vec<_>>()});
    std::fs::write(&map, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn label_of(l: &str) -> Option<String> {
    let i = l.find("//[")?;
    let r = &l[i + 3..];
    let j = r.find(']')?;
    Some(r[..j].to_string())
}
