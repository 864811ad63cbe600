use crate::contracts::FnContract;
use crate::index::{is_test, FnInfo, Index, TypeDef};
use crate::print::print;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Emitted {
    pub text: String,
    pub missing: Vec<(String, String)>,
    pub name: String,
    pub src_line: usize,
    pub src_end: usize,
    pub inlined: Vec<String>,
    pub calls: Vec<String>,
    pub dropped: Vec<String>,
    /// what kind of loops the function has, in order
    pub loops: Vec<String>,
}

const MODULES: &[&str] = &[
    "crate", "super", "consts", "slice_utils", "iterator", "visit", "entry_ref", "tree", "std", "cmp",
    "mem", "sync", "atomic", "alloc", "augment", "merge_iter", "iter",
];

fn stem(file: &str) -> String {
    // src/tree/leaf_node.rs -> leaf_node ; set.rs/iter -> set_iter
    let f = file.replace(".rs/", "_").replace(".rs", "");
    f.rsplit('/').next().unwrap().to_string()
}

// ---------------------------------------------------------------------------------------------
pub fn emit_const(idx: &Index, file: &str, c: &ItemConst, val: Option<&String>) -> String {
    let name = const_name(idx, file, &c.ident.to_string()).unwrap_or(c.ident.to_string());
    let ty = &c.ty;
    let e = match val {
        Some(v) => v.clone(),
        None => {
            let mut e = (*c.expr).clone();
            let mut r = Rw::new(idx, file, None);
            r.visit_expr_mut(&mut e);
            print(e.to_token_stream()).trim().to_string()
        }
    };
    format!("pub const {}: {} = {};\n", name, ty.to_token_stream(), e)
}

/// A constant named alike in several files is renamed after its file.
fn const_name(idx: &Index, file: &str, name: &str) -> Option<String> {
    let n = idx.consts.keys().filter(|(_, n)| n == name).count();
    if idx.consts.contains_key(&(file.to_string(), name.to_string())) {
        if n > 1 {
            return Some(format!("{}__{}", name, stem(file)));
        }
        return Some(name.to_string());
    }
    None
}

pub fn emit_struct(idx: &Index, file: &str, t: &TypeDef, attrs: &[String], ghost: &[String], gen: &Option<String>, subst: &[(String, String)]) -> String {
    let mut rw = Rw::new(idx, file, None);
    let mut out = String::new();
    for a in attrs {
        out.push_str(a);
        out.push('\n');
    }
    let generics = |g: &Generics| -> String {
        if let Some(t) = gen {
            return t.clone();
        }
        let mut v = vec![];
        for p in &g.params {
            match p {
                GenericParam::Lifetime(l) => v.push(l.lifetime.to_string()),
                GenericParam::Type(t) if t.ident == "S" => {
                    v.extend(["K", "V", "A"].map(String::from));
                }
                GenericParam::Type(t) => v.push(t.ident.to_string()),
                GenericParam::Const(c) => v.push(format!("const {}: usize", c.ident)),
            }
        }
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    };
    match t {
        TypeDef::Struct(s) => {
            let mut s = s.clone();
            rw.visit_fields_mut(&mut s.fields);
            match &s.fields {
                Fields::Named(n) => {
                    out.push_str(&format!("pub struct {}{} {{\n", s.ident, generics(&s.generics)));
                    for f in &n.named {
                        out.push_str(&format!(
                            "    pub {}: {},\n",
                            f.ident.as_ref().unwrap(),
                            print(f.ty.to_token_stream()).trim()
                        ));
                    }
                    for g in ghost {
                        out.push_str(&format!("    {},\n", g));
                    }
                    out.push_str("}\n");
                }
                Fields::Unnamed(n) => {
                    let fs: Vec<String> = n
                        .unnamed
                        .iter()
                        .map(|f| format!("pub {}", print(f.ty.to_token_stream()).trim()))
                        .collect();
                    out.push_str(&format!(
                        "pub struct {}{}({});\n",
                        s.ident,
                        generics(&s.generics),
                        fs.join(", ")
                    ));
                }
                Fields::Unit => out.push_str(&format!("pub struct {};\n", s.ident)),
            }
        }
        TypeDef::Enum(e) => {
            let mut e = e.clone();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                rw.visit_fields_mut(&mut v.fields);
                if let Fields::Named(n) = &mut v.fields {
                    for f in n.named.iter_mut() {
                        f.attrs.clear();
                    }
                }
                if let Fields::Unnamed(n) = &mut v.fields {
                    for f in n.unnamed.iter_mut() {
                        f.attrs.clear();
                    }
                }
            }
            let vs = &e.variants;
            let body = print(quote!(#vs));
            out.push_str(&format!("pub enum {}{} {{\n{}\n}}\n", e.ident, generics(&e.generics), body));
        }
    }
    substitute(&out, subst)
}

/// replaces token sequences, given with single spaces between tokens
fn substitute(t: &str, subst: &[(String, String)]) -> String {
    let mut t = t.to_string();
    for (a, b) in subst {
        t = t.replace(a.as_str(), b.as_str());
    }
    t
}


pub fn emit_sig_only(fc: &FnContract, sig: &str) -> String {
    format!("#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n", sig, fc.spec)
}

// ---------------------------------------------------------------------------------------------
fn last_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        Expr::Paren(p) => last_ident(&p.expr),
        _ => None,
    }
}

pub fn emit_fn(
    idx: &Index,
    fc: &FnContract,
    f: &FnInfo,
    stub: bool,
    known: &BTreeSet<String>,
    raw_names: &BTreeSet<String>,
) -> Emitted {
    let mut missing = vec![];
    let mut block = f.block.clone();
    strip_cfg_test(&mut block);
    let mut assoc = f.assoc.clone();
    for o in &idx.fns {
        if o.self_ty.is_some() && o.self_ty == f.self_ty && o.file == f.file {
            assoc.extend(o.assoc.iter().cloned());
        }
    }
    let mut ao = AssocOut { a: &assoc };
    ao.visit_block_mut(&mut block);

    // 1. inline helpers that have no contract
    let mut inl = Inliner { idx, cur: f, known, raw_names, inlined: vec![], depth: 0, uniq: 0 };
    if !stub {
        inl.run(&mut block);
    }
    let inlined = inl.inlined.clone();
    DropCall.visit_block_mut(&mut block);
    if !stub {
        let probe = Rw::new(idx, &f.file, f.self_ty.clone());
        crate::own::SlotLoops { is_area: &|n| probe.accessor(n).is_some(), n: 0 }.visit_block_mut(&mut block);
    }
    let mut eager = EagerMap { n: 0, dropped: vec![] };
    if !stub {
        if fc.opts.iter().any(|o| o == "iter") {
            Fuse { n: 0 }.visit_block_mut(&mut block);
        }
        point(&mut block);
        if fc.opts.iter().any(|o| o == "wrap") {
            Wrap.visit_block_mut(&mut block);
        }
        eager.visit_block_mut(&mut block);
        let mut cl = ClosureSpec { v: fc.closures.clone(), n: 0 };
        cl.visit_block_mut(&mut block);
        for (i, _) in &fc.closures {
            if *i >= cl.n {
                missing.push(("lost-anchor".to_string(), format!("closure {i}")));
            }
        }
    }

    // 2. anchors and loop markers
    let mut texts: Vec<String> = vec![];
    let mut nloops = 0;
    let mut kinds = vec![];
    if !stub {
        for (a, t) in &fc.ats {
            let k = texts.len();
            texts.push(t.clone());
            if !place(&mut block, a, k) {
                missing.push(("lost-anchor".to_string(), a.clone()));
            }
        }
        let mut lm = LoopMark { n: 0, kinds: vec![] };
        lm.visit_block_mut(&mut block);
        nloops = lm.n;
        kinds = lm.kinds;
        for (n, _) in &fc.loops {
            if *n >= nloops {
                missing.push(("lost-anchor".to_string(), format!("loop {n}")));
            }
        }
    }
    let _ = nloops;

    // 3. rewrites
    let mut rw = Rw::new(idx, &f.file, f.self_ty.clone());
    rw.opts = fc.opts.iter().cloned().collect();
    rw.panics = fc.panics.clone();
    let mut sig = f.sig.clone();
    ao.visit_signature_mut(&mut sig);
    for p in &f.sig.generics.params {
        if let GenericParam::Type(t) = p {
            let b = t.to_token_stream().to_string() + &sig.generics.where_clause.to_token_stream().to_string();
            if t.ident == "Q" && b.contains("Ord") {
                rw.q_is_key = true;
            }
        }
    }
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    if !stub {
        let mut shared = BTreeSet::new();
        let mut owned = vec![];
        for inp in f.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_none() => {
                    shared.insert("self".to_string());
                }
                FnArg::Typed(t) => {
                    if let Pat::Ident(p) = &*t.pat {
                        let ty = t.ty.to_token_stream().to_string().replace(' ', "");
                        if ty.starts_with('&') && !ty.starts_with("&mut") {
                            shared.insert(p.ident.to_string());
                        } else if ty.starts_with("Box<") {
                            owned.push(p.ident.to_string());
                        }
                    }
                }
                _ => {}
            }
        }
        let mut own = crate::own::Own::new(shared);
        own.owned = owned;
        own.drops = fc.drops.iter().cloned().collect();
        own.visit_block_mut(&mut block);
        own.finish(&mut block);
    }
    let mut dropped = rw.dropped.clone();
    dropped.extend(eager.dropped.iter().cloned());

    // 4. signature
    let mut binds: Vec<Stmt> = vec![];
    let mut pi = 0;
    let mut params: Vec<String> = vec![];
    for inp in sig.inputs.iter() {
        let want = fc.params.get(pi).cloned();
        pi += 1;
        match inp {
            FnArg::Receiver(r) => {
                let m = r.mutability.is_some();
                if r.reference.is_some() {
                    let l = r.reference.as_ref().and_then(|x| x.1.as_ref()).map(|l| format!("{l} ")).unwrap_or_default();
                    params.push(if m { format!("&{l}mut self") } else { format!("&{l}self") });
                } else {
                    params.push("self".into());
                    if m {
                        struct Me;
                        impl VisitMut for Me {
                            fn visit_ident_mut(&mut self, i: &mut Ident) {
                                if i == "self" {
                                    *i = format_ident!("self_");
                                }
                            }
                        }
                        Me.visit_block_mut(&mut block);
                        binds.push(parse_quote!(let mut self_ = self;));
                    }
                }
            }
            FnArg::Typed(t) => {
                let ty = print(t.ty.to_token_stream()).trim().to_string();
                match &*t.pat {
                    Pat::Ident(p) => {
                        let real = p.ident.to_string();
                        let real_id = &p.ident;
                        let name = want.unwrap_or(if real == "_" { format!("arg{pi}") } else { real.clone() });
                        let nid = format_ident!("{}", name);
                        if p.mutability.is_some() && !ty.contains("DataIter") && !ty.replace(' ', "").starts_with("&mutI") {
                            binds.push(parse_quote!(let mut #real_id = #nid;));
                        } else if name != real {
                            binds.push(parse_quote!(let #real_id = #nid;));
                        }
                        params.push(format!("{name}: {ty}"));
                    }
                    Pat::Wild(_) => {
                        params.push(format!("{}: {ty}", want.unwrap_or(format!("arg{pi}"))));
                    }
                    pat => {
                        let name = want.unwrap_or(format!("arg{pi}"));
                        let nid = format_ident!("{}", name);
                        binds.push(parse_quote!(let #pat = #nid;));
                        params.push(format!("{name}: {ty}"));
                    }
                }
            }
        }
    }
    for (i, b) in binds.into_iter().enumerate() {
        block.stmts.insert(i, b);
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(
            " -> ({}: {})",
            fc.ret.clone().unwrap_or("res".into()),
            print(t.to_token_stream()).trim()
        ),
    };
    let generics = match &fc.generics {
        Some(g) => g.clone(),
        None => {
            let mut v = vec![];
            for p in &sig.generics.params {
                match p {
                    GenericParam::Lifetime(l) => v.push(l.to_token_stream().to_string()),
                    GenericParam::Type(t) if t.ident == "Q" && rw.q_is_key => {}
                    GenericParam::Type(t) if t.ident == "S" => {}
                    GenericParam::Type(t) => v.push(t.ident.to_string()),
                    GenericParam::Const(c) => v.push(format!("const {}: usize", c.ident)),
                }
            }
            v.extend(rw.extra_generics.iter().cloned());
            if v.is_empty() {
                String::new()
            } else {
                format!("<{}>", v.join(", "))
            }
        }
    };
    let mut out = String::new();
    // each function in a solver process of its own: what happens to one does not depend on the others
    if !stub && fc.attrs.is_empty() {
        out.push_str("#[verifier::spinoff_prover] #[verifier::rlimit(60)]\n");
    }
    for a in &fc.attrs {
        out.push_str(a);
        out.push('\n');
    }
    if stub {
        out.push_str("#[verifier::external_body]\n");
    }
    let unsafe_kw = if sig.unsafety.is_some() { "unsafe " } else { "" };
    let const_kw = if sig.constness.is_some() { "const " } else { "" };
    let vis = if fc.opts.iter().any(|o| o == "traitfn") { "" } else { "pub " };
    out.push_str(&format!(
        "{vis}{const_kw}{unsafe_kw}fn {}{}({}){}\n",
        sig.ident,
        generics,
        substitute(&params.join(", "), &fc.subst),
        substitute(&ret, &fc.subst)
    ));
    out.push_str(&fc.spec);
    if stub {
        out.push_str("{ unimplemented!() }\n");
    } else {
        let b = print(block.to_token_stream());
        let b = splice(&b, &texts, &fc.loops, &fc.closures);
        out.push_str(&b);
        out.push('\n');
    }
    let mut cc = CallNames { v: BTreeSet::new() };
    cc.visit_block(&f.block);
    Emitted {
        text: out,
        missing,
        name: f.sig.ident.to_string(),
        src_line: f.line,
        src_end: f.end,
        inlined,
        calls: cc.v.into_iter().collect(),
        dropped,
        loops: kinds,
    }
}

/// iterator chains as loops: `for_each`, `fold`, `map(..).sum()`; `.iter()` is the slice iterator of the prelude
struct Fuse {
    n: usize,
}
impl VisitMut for Fuse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let plain = |c: &ExprClosure| !c.body.to_token_stream().to_string().split_whitespace().any(|w| w == "return" || w == "?");
        let pat = |p: &Pat| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if m.method == "iter" && m.args.is_empty() {
            m.method = format_ident!("viter");
        } else if m.method == "for_each" && m.args.len() == 1 {
            if let Some(Expr::Closure(c)) = m.args.first() {
                if c.inputs.len() == 1 && plain(c) {
                    let (x, p, b) = (&m.receiver, pat(&c.inputs[0]), &c.body);
                    *e = parse_quote!(for #p in #x { #b; });
                }
            }
        } else if m.method == "sum" && m.args.is_empty() {
            if let Expr::MethodCall(i) = &*m.receiver {
                if let (true, Some(Expr::Closure(c))) = (i.method == "map" && i.args.len() == 1, i.args.first()) {
                    if c.inputs.len() == 1 && plain(c) {
                        let (x, p, b) = (&i.receiver, pat(&c.inputs[0]), &c.body);
                        let s = format_ident!("__s{}", self.n);
                        self.n += 1;
                        *e = parse_quote!({ let mut #s: usize = 0; for #p in #x { #s = #s + #b; } #s });
                    }
                }
            }
        } else if m.method == "fold" && m.args.len() == 2 {
            if let Expr::Closure(c) = &m.args[1] {
                if c.inputs.len() == 2 && plain(c) {
                    if let Pat::Ident(a) = pat(&c.inputs[0]) {
                        let (x, p, b, i, a) = (&m.receiver, pat(&c.inputs[1]), &c.body, &m.args[0], &a.ident);
                        *e = parse_quote!({ let mut #a = #i; for #p in #x { #a = #b; } #a });
                    }
                }
            }
        }
    }
}
/// `+` and `-` on `usize` as they are in a release build
struct Wrap;
impl VisitMut for Wrap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Add(_) => *e = parse_quote!(wadd(#l, #r)),
                BinOp::AddAssign(_) => *e = parse_quote!(#l = wadd(#l, #r)),
                BinOp::Sub(_) => *e = parse_quote!(wsub(#l, #r)),
                BinOp::SubAssign(_) => *e = parse_quote!(#l = wsub(#l, #r)),
                _ => {}
            }
        }
    }
}
/// A local `p` that is only ever `&mut a` or `&mut b` of locals, and only used as `*p`, by its number:
/// `p = &mut b` is `p = 1`, and `*p` is `if p == 0 { a } else { b }`.
fn point(b: &mut Block) {
    struct Find {
        v: Vec<(Ident, Vec<Ident>)>,
        uses: Vec<(Ident, usize, usize)>,
    }
    fn target(e: &Expr) -> Option<Ident> {
        match e {
            Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                Expr::Path(p) => p.path.get_ident().cloned(),
                _ => None,
            },
            _ => None,
        }
    }
    impl<'a> Visit<'a> for Find {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if p.mutability.is_some() {
                    if let Some(t) = target(&i.expr) {
                        self.v.push((p.ident.clone(), vec![t]));
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let (Some(x), Some(t)) = (p.path.get_ident(), target(&a.right)) {
                    if let Some(f) = self.v.iter_mut().find(|f| f.0 == *x) {
                        if !f.1.contains(&t) {
                            f.1.push(t);
                        }
                        self.count(x, 0);
                    }
                }
            }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_unary(&mut self, u: &'a ExprUnary) {
            if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                if let Some(x) = p.path.get_ident() {
                    self.count(x, 0);
                }
            }
            syn::visit::visit_expr_unary(self, u);
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(x) = p.path.get_ident() {
                self.count(x, 1);
            }
        }
    }
    impl Find {
        fn count(&mut self, x: &Ident, which: usize) {
            let i = match self.uses.iter().position(|u| u.0 == *x) {
                Some(i) => i,
                None => {
                    self.uses.push((x.clone(), 0, 0));
                    self.uses.len() - 1
                }
            };
            if which == 0 {
                self.uses[i].1 += 1;
            } else {
                self.uses[i].2 += 1;
            }
        }
    }
    let mut f = Find { v: vec![], uses: vec![] };
    f.visit_block(b);
    let names: Vec<(Ident, Vec<Ident>)> = f
        .v
        .iter()
        .filter(|(x, t)| t.len() == 2 && f.v.iter().filter(|g| g.0 == *x).count() == 1 && f.uses.iter().any(|u| u.0 == *x && u.1 == u.2))
        .cloned()
        .collect();
    struct Sub(Vec<(Ident, Vec<Ident>)>);
    impl Sub {
        fn num(&self, x: &Ident, t: &Ident) -> Option<Expr> {
            let n = self.0.iter().find(|v| v.0 == *x)?.1.iter().position(|y| y == t)?;
            let n = proc_macro2::Literal::usize_suffixed(n);
            Some(parse_quote!(#n))
        }
        fn deref(&self, e: &Expr) -> Option<(Ident, Ident, Ident)> {
            if let Expr::Unary(u) = e {
                if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                    let x = p.path.get_ident()?;
                    let v = self.0.iter().find(|v| v.0 == *x)?;
                    return Some((x.clone(), v.1[0].clone(), v.1[1].clone()));
                }
            }
            None
        }
    }
    impl VisitMut for Sub {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
                if let Some(t) = target(&i.expr) {
                    if let Some(n) = self.num(&p.ident, &t) {
                        i.expr = Box::new(n);
                    }
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Assign(a) => {
                    if let (Expr::Path(p), Some(t)) = (&*a.left, target(&a.right)) {
                        if let Some(n) = p.path.get_ident().and_then(|x| self.num(x, &t)) {
                            a.right = Box::new(n);
                            return;
                        }
                    }
                    if let Some((x, t0, t1)) = self.deref(&a.left) {
                        let r = &a.right;
                        *e = parse_quote!(if #x == 0 { #t0 = #r; } else { #t1 = #r; });
                        return;
                    }
                }
                Expr::Binary(b) => {
                    if let Some((x, t0, t1)) = self.deref(&b.left) {
                        if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) {
                            let (r, o) = (&b.right, &b.op);
                            *e = parse_quote!(if #x == 0 { #t0 #o #r; } else { #t1 #o #r; });
                            return;
                        }
                    }
                }
                _ => {}
            }
            if let Some((x, t0, t1)) = self.deref(e) {
                *e = parse_quote!((if #x == 0 { #t0 } else { #t1 }));
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    if !names.is_empty() {
        Sub(names).visit_block_mut(b);
    }
}
/// `let v = X.iter().skip(n).map(|p| e);` as a loop, and `for p in x.by_ref()` as calls of `next`
struct EagerMap {
    n: usize,
    dropped: Vec<String>,
}
impl VisitMut for EagerMap {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        let Stmt::Local(l) = s else { return };
        let Some(init) = &mut l.init else { return };
        let Expr::MethodCall(m) = &*init.expr else { return };
        if m.method != "map" || m.args.len() != 1 {
            return;
        }
        let Some(Expr::Closure(c)) = m.args.first() else { return };
        if c.inputs.len() != 1 {
            return;
        }
        let (src, skip): (Expr, Expr) = match &*m.receiver {
            Expr::MethodCall(a) if a.method == "iter" && a.args.is_empty() => ((*a.receiver).clone(), parse_quote!(0)),
            Expr::MethodCall(a) if a.method == "skip" && a.args.len() == 1 => match &*a.receiver {
                Expr::MethodCall(b) if b.method == "iter" && b.args.is_empty() => ((*b.receiver).clone(), a.args.first().unwrap().clone()),
                _ => return,
            },
            _ => return,
        };
        if !matches!(src, Expr::Path(_)) {
            return;
        }
        let pat = match &c.inputs[0] {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let body = &c.body;
        let v = format_ident!("__v{}", self.n);
        let j = format_ident!("__j{}", self.n);
        self.n += 1;
        self.dropped.push(format!("lazy evaluation of `{}`", m.to_token_stream()));
        *init.expr = parse_quote!({
            let mut #v = Vec::new();
            let mut #j: usize = #skip;
            while #j < #src.len() {
                let #pat = &#src[#j];
                #v.push(#body);
                #j = #j + 1;
            }
            #v
        });
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "by_ref" && m.args.is_empty() {
                    let (r, p, b, l) = (&m.receiver, &f.pat, &f.body, &f.label);
                    let mut x: ExprLoop = parse_quote!(loop { match #r.next() { Some(#p) => #b, None => break } });
                    x.label = l.clone();
                    *e = Expr::Loop(x);
                }
            }
        }
    }
}
/// gives a closure the contract it is verified against
struct ClosureSpec {
    v: Vec<(usize, String)>,
    n: usize,
}
impl VisitMut for ClosureSpec {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(c) = e {
            let k = self.n;
            self.n += 1;
            if let Some((i, head)) = self.v.iter().find(|x| x.0 == k) {
                let b = &c.body;
                let i = proc_macro2::Literal::usize_unsuffixed(*i);
                // the parameters, by the names the contract gives them
                let names: Vec<Ident> = head
                    .split('|')
                    .nth(1)
                    .and_then(|h| syn::parse_str::<ItemFn>(&format!("fn f({h}) {{}}")).ok())
                    .map(|f| f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()), _ => None }).map(|n| format_ident!("{}", n)).collect())
                    .unwrap_or_default();
                let mut binds: Vec<Stmt> = vec![];
                for (p, n) in c.inputs.iter().zip(&names) {
                    let p = match p { Pat::Type(t) => &*t.pat, p => p };
                    if !matches!(p, Pat::Ident(x) if x.ident == *n) {
                        binds.push(parse_quote!(let #p = #n;));
                    }
                }
                c.body = Box::new(parse_quote!({ __vcl!(#i); #(#binds)* #b }));
            }
        }
    }
}

/// `drop(f(..))`: the value is bound and its destructor called
struct DropCall;
impl VisitMut for DropCall {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::Call(c), _) = s {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "drop" || f == "mem::drop" || f == "std::mem::drop") && c.args.len() == 1 {
                let a = c.args.first().unwrap();
                if let Expr::Call(x) = a {
                    let t = x.func.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("IntoIter::") {
                        *s = parse_quote!({ let mut __d = #a; __d.drop(); });
                        return;
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `Self::Item` and the like, by their definitions
struct AssocOut<'a> {
    a: &'a [(String, Type)],
}
impl<'a> VisitMut for AssocOut<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if p.qself.is_none() && v.len() == 2 && v[0] == "Self" {
                if let Some((_, d)) = self.a.iter().find(|(n, _)| *n == v[1]) {
                    *t = d.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// Replace the markers in the printed text by the proof texts.
fn splice(b: &str, texts: &[String], loops: &[(usize, String)], closures: &[(usize, String)]) -> String {
    let mut out = String::new();
    for line in b.lines() {
        let t = line.trim();
        if let Some(r) = t.strip_prefix("__vx!(").or_else(|| t.strip_prefix("__vx ! (")).or_else(|| t.strip_prefix("__vx !(")) {
            let k: usize = r.split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap();
            out.push_str(&texts[k]);
            if !texts[k].ends_with('\n') {
                out.push('\n');
            }
        } else if let Some(r) = t.strip_prefix("__vl!(").or_else(|| t.strip_prefix("__vl ! (")).or_else(|| t.strip_prefix("__vl !(")) {
            let n: usize = r.split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap();
            let inv = loops.iter().find(|(i, _)| *i == n).map(|x| x.1.clone()).unwrap_or_default();
            // the line before ends with the opening brace of the loop
            while out.ends_with(|c: char| c.is_whitespace()) {
                out.pop();
            }
            assert!(out.ends_with('{'), "loop marker out of place: {out}");
            out.pop();
            out.push('\n');
            out.push_str(&inv);
            out.push_str("{\n");
        } else if let Some(r) = t.strip_prefix("__vcl!(").or_else(|| t.strip_prefix("__vcl ! (")).or_else(|| t.strip_prefix("__vcl !(")) {
            let n: usize = r.split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap();
            // the text before ends with `|params| {`
            for _ in 0..2 {
                let i = out.rfind('|').expect("closure marker out of place");
                out.truncate(i);
            }
            out.push_str(&closures.iter().find(|x| x.0 == n).unwrap().1);
            out.push_str(" {\n");
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}

struct CallNames {
    v: BTreeSet<String>,
}
impl<'a> Visit<'a> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.v.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = s.len();
            if n >= 2 {
                self.v.insert(format!("{}::{}", s[n - 2], s[n - 1]));
            }
            self.v.insert(s[n - 1].clone());
        }
        syn::visit::visit_expr_call(self, c);
    }
}

fn strip_cfg_test(b: &mut Block) {
    struct T;
    impl VisitMut for T {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| match s {
                Stmt::Local(l) => !is_test(&l.attrs),
                Stmt::Expr(e, _) => !is_test(expr_attrs(e)),
                Stmt::Macro(m) => !is_test(&m.attrs),
                Stmt::Item(_) => true,
            });
            // `let _ = <literal>;` does nothing
            b.stmts.retain(|s| match s {
                Stmt::Local(l) => {
                    !(matches!(l.pat, Pat::Wild(_))
                        && l.init.as_ref().map(|i| matches!(&*i.expr, Expr::Lit(_))).unwrap_or(false))
                }
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    T.visit_block_mut(b);
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::MethodCall(m) => &m.attrs,
        Expr::Call(m) => &m.attrs,
        Expr::If(m) => &m.attrs,
        Expr::Block(m) => &m.attrs,
        _ => &[],
    }
}

// ---------------------------------------------------------------------------------------------
// anchors

fn place(b: &mut Block, anchor: &str, k: usize) -> bool {
    let marker = || -> Stmt {
        let l = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote!(__vx!(#l);)
    };
    let words: Vec<&str> = anchor.split_whitespace().collect();
    let num = |s: &str| -> (String, usize) {
        match s.split_once('#') {
            Some((a, n)) => (a.to_string(), n.parse().unwrap()),
            None => (s.to_string(), 0),
        }
    };
    match words[0] {
        "start" => {
            b.stmts.insert(0, marker());
            true
        }
        "end" => {
            end_of(b, marker(), &format_ident!("__ret"));
            true
        }
        "before" | "after" if words[1] == "loop" => {
            let mut p = PlaceLoop { n: words[2].parse().unwrap(), i: 0, hit: false, done: false, after: words[0] == "after", k, marker: marker() };
            p.visit_block_mut(b);
            p.done
        }
        "before" | "after" if words[1] == "call" => {
            let (name, n) = num(words[2]);
            let mut p = PlaceCall {
                name,
                n,
                i: 0,
                hit: false,
                done: false,
                after: words[0] == "after",
                marker: marker(),
                k,
            };
            p.visit_block_mut(b);
            p.done
        }
        "arm" => {
            let (name, n) = num(words[1]);
            let end = words.get(2) == Some(&"end");
            let mut p = PlaceArm { name, n, i: 0, done: false, marker: marker(), end, k };
            p.visit_block_mut(b);
            p.done
        }
        "loopstart" | "loopend" => {
            let n: usize = words[1].parse().unwrap();
            let mut p = InLoop { n, i: 0, done: false, end: words[0] == "loopend", marker: marker() };
            p.visit_block_mut(b);
            p.done
        }
        "then" | "else" => {
            let n: usize = words[1].parse().unwrap();
            let mut p = InIf { n, i: 0, done: false, then: words[0] == "then", end: words.get(2) == Some(&"end"), marker: marker(), k };
            p.visit_block_mut(b);
            p.done
        }
        "return" => {
            let n: usize = words[1].parse().unwrap();
            let mut p = InReturn { n, i: 0, done: false, marker: marker(), brk: false };
            p.visit_block_mut(b);
            p.done
        }
        "break" => {
            let n: usize = words[1].parse().unwrap();
            let mut p = InReturn { n, i: 0, done: false, marker: marker(), brk: true };
            p.visit_block_mut(b);
            p.done
        }
        _ => panic!("unknown anchor {anchor}"),
    }
}

fn end_of(b: &mut Block, m: Stmt, id: &Ident) {
    match b.stmts.last().cloned() {
        Some(Stmt::Expr(e, None)) => {
            b.stmts.pop();
            b.stmts.push(parse_quote!(let mut #id = #e;));
            b.stmts.push(m);
            b.stmts.push(Stmt::Expr(parse_quote!(#id), None));
        }
        _ => b.stmts.push(m),
    }
}

struct PlaceCall {
    name: String,
    n: usize,
    i: usize,
    hit: bool,
    done: bool,
    after: bool,
    marker: Stmt,
    k: usize,
}
impl PlaceCall {
    fn see(&mut self, n: &str) {
        if n == self.name {
            if self.i == self.n {
                self.hit = true;
            }
            self.i += 1;
        }
    }
}
impl VisitMut for PlaceCall {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        self.see(&n);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Some(n) = last_ident(&c.func) {
            self.see(&n);
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let before = self.done || self.hit;
        visit_mut::visit_arm_mut(self, a);
        if self.hit && !self.done && !before && !matches!(&*a.body, Expr::Block(_)) {
            let e = &a.body;
            let m = &self.marker;
            let id = format_ident!("__t{}", self.k);
            *a.body = if self.after {
                parse_quote!({ let #id = #e; #m #id })
            } else {
                parse_quote!({ #m #e })
            };
            self.done = true;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.hit {
            // found outside this block: the marker goes there
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.hit && !self.done {
                self.done = true;
                if !self.after {
                    b.stmts.insert(i, self.marker.clone());
                } else if let Stmt::Expr(e, None) = &b.stmts[i] {
                    let id = format_ident!("__t{}", self.k);
                    let e = e.clone();
                    if i + 1 == b.stmts.len() {
                        b.stmts[i] = parse_quote!(let #id = #e;);
                        b.stmts.insert(i + 1, self.marker.clone());
                        b.stmts.insert(i + 2, Stmt::Expr(parse_quote!(#id), None));
                    } else {
                        b.stmts.insert(i + 1, self.marker.clone());
                    }
                } else {
                    b.stmts.insert(i + 1, self.marker.clone());
                }
                return;
            }
            if self.done {
                return;
            }
            i += 1;
        }
    }
}

fn is_loop(e: &Expr) -> bool {
    matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_))
}

struct PlaceLoop {
    n: usize,
    i: usize,
    hit: bool,
    done: bool,
    after: bool,
    k: usize,
    marker: Stmt,
}
impl VisitMut for PlaceLoop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if is_loop(e) {
            if self.i == self.n {
                self.hit = true;
            }
            self.i += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let was = self.hit;
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.hit && !was && !self.done {
                self.done = true;
                if !self.after {
                    b.stmts.insert(i, self.marker.clone());
                } else if let (Stmt::Expr(e, None), true) = (&b.stmts[i], i + 1 == b.stmts.len()) {
                    let id = format_ident!("__t{}", self.k);
                    let e = e.clone();
                    b.stmts[i] = parse_quote!(let #id = #e;);
                    b.stmts.insert(i + 1, self.marker.clone());
                    b.stmts.insert(i + 2, Stmt::Expr(parse_quote!(#id), None));
                } else {
                    b.stmts.insert(i + 1, self.marker.clone());
                }
                return;
            }
            i += 1;
        }
    }
}

struct PlaceArm {
    name: String,
    n: usize,
    i: usize,
    done: bool,
    marker: Stmt,
    end: bool,
    k: usize,
}
struct HasName<'a>(&'a str, bool);
impl<'a, 'b> Visit<'b> for HasName<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.0 {
            self.1 = true;
        }
    }
}
impl VisitMut for PlaceArm {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut h = HasName(&self.name, false);
        h.visit_pat(&a.pat);
        if self.name == "_" && matches!(a.pat, Pat::Wild(_)) {
            h.1 = true;
        }
        if h.1 {
            if self.i == self.n && !self.done {
                self.done = true;
                let m = &self.marker;
                let e = a.body.clone();
                let mut blk: Block = match &*e {
                    Expr::Block(b) if b.label.is_none() => b.block.clone(),
                    _ => parse_quote!({ #e }),
                };
                if self.end {
                    end_of(&mut blk, m.clone(), &format_ident!("__t{}", self.k));
                } else {
                    blk.stmts.insert(0, m.clone());
                }
                *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
            }
            self.i += 1;
        }
        visit_mut::visit_arm_mut(self, a);
    }
}

struct InLoop {
    n: usize,
    i: usize,
    done: bool,
    end: bool,
    marker: Stmt,
}
impl VisitMut for InLoop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if is_loop(e) {
            if self.i == self.n {
                self.done = true;
                let body = match e {
                    Expr::Loop(l) => &mut l.body,
                    Expr::While(l) => &mut l.body,
                    Expr::ForLoop(l) => &mut l.body,
                    _ => unreachable!(),
                };
                if self.end {
                    if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    body.stmts.push(self.marker.clone());
                } else {
                    body.stmts.insert(0, self.marker.clone());
                }
            }
            self.i += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct InIf {
    n: usize,
    i: usize,
    done: bool,
    then: bool,
    end: bool,
    marker: Stmt,
    k: usize,
}
impl VisitMut for InIf {
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        if self.i == self.n {
            let id = format_ident!("__t{}", self.k);
            if self.then {
                self.done = true;
                if self.end {
                    end_of(&mut e.then_branch, self.marker.clone(), &id);
                } else {
                    e.then_branch.stmts.insert(0, self.marker.clone());
                }
            } else if let Some((_, eb)) = &mut e.else_branch {
                if let Expr::Block(b) = &mut **eb {
                    self.done = true;
                    if self.end {
                        end_of(&mut b.block, self.marker.clone(), &id);
                    } else {
                        b.block.stmts.insert(0, self.marker.clone());
                    }
                }
            }
        }
        self.i += 1;
        visit_mut::visit_expr_if_mut(self, e);
    }
}

struct InReturn {
    n: usize,
    i: usize,
    done: bool,
    marker: Stmt,
    brk: bool,
}
impl VisitMut for InReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = self.marker.clone();
        let new: Option<Expr> = match e {
            Expr::Return(r) if !self.brk => {
                let hit = self.i == self.n && !self.done;
                self.i += 1;
                if hit {
                    Some(match &r.expr {
                        Some(x) => parse_quote!({ let __ret = #x; #m return __ret; }),
                        None => parse_quote!({ #m return; }),
                    })
                } else {
                    None
                }
            }
            Expr::Break(r) if self.brk => {
                let hit = self.i == self.n && !self.done;
                self.i += 1;
                if hit {
                    Some(match &r.expr {
                        Some(x) => parse_quote!({ let __ret = #x; #m break __ret; }),
                        None => parse_quote!({ #m break; }),
                    })
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            self.done = true;
        }
    }
}

struct LoopMark {
    n: usize,
    kinds: Vec<String>,
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if is_loop(e) {
            let l = proc_macro2::Literal::usize_unsuffixed(self.n);
            self.n += 1;
            let is_let = |c: &Expr| c.to_token_stream().to_string().starts_with("let ");
            self.kinds.push(
                match e {
                    Expr::While(w) if is_let(&w.cond) => "while let",
                    Expr::While(_) => "while",
                    Expr::ForLoop(f) if matches!(&*f.expr, Expr::Range(_)) => "for range",
                    Expr::ForLoop(f) if f.body.to_token_stream().to_string().contains("__s0") => "fused",
                    Expr::ForLoop(_) => "for",
                    _ => "loop",
                }
                .to_string(),
            );
            let body = match e {
                Expr::Loop(l) => &mut l.body,
                Expr::While(l) => &mut l.body,
                Expr::ForLoop(l) => &mut l.body,
                _ => unreachable!(),
            };
            body.stmts.insert(0, parse_quote!(__vl!(#l);));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------------------------------------
// inlining of helpers without a contract

struct Inliner<'a> {
    idx: &'a Index,
    cur: &'a FnInfo,
    known: &'a BTreeSet<String>,
    raw_names: &'a BTreeSet<String>,
    inlined: Vec<String>,
    depth: usize,
    uniq: usize,
}

/// Names never inlined: methods of the standard library that crate functions are also called.
const STD_NAMES: &[&str] = &[
    "clone", "len", "is_empty", "next", "next_back", "default", "drop", "into_iter", "from", "eq", "cmp",
    "size_hint", "push", "pop", "insert", "remove", "iter", "as_usize", "from_iter", "union", "fmt",
    "key_area", "key_area_mut", "value_area", "value_area_mut", "child_area", "child_area_mut",
    "augmentation_area", "augmentation_area_mut", "replace", "take", "new", "min", "max", "with_capacity",
];
/// Qualifiers of paths into the standard library.
const STD_TYPES: &[&str] = &["Vec", "Box", "Option", "Some", "String", "mem", "ptr", "ManuallyDrop", "MaybeUninit", "Result", "Default"];

impl<'a> Inliner<'a> {
    fn run(&mut self, b: &mut Block) {
        for _ in 0..4 {
            let n = self.inlined.len();
            self.visit_block_mut(b);
            if self.inlined.len() == n {
                break;
            }
        }
    }

    fn candidate(&self, name: &str, method: bool) -> Option<&'a FnInfo> {
        if STD_NAMES.contains(&name) || self.raw_names.contains(name) || name == "get_mut_inner_ptr" {
            return None;
        }
        if self.known.iter().any(|k| k.rsplit("::").next() == Some(name)) {
            return None;
        }
        let mut c = self.idx.fns.iter().filter(|f| {
            f.path.rsplit("::").next() == Some(name)
                && (f.sig.receiver().is_some() == method)
                && f.path != self.cur.path
        });
        let r = c.next()?;
        if c.next().is_some() {
            // several: prefer the same file
            let mut d = self.idx.fns.iter().filter(|f| {
                f.path.rsplit("::").next() == Some(name) && f.file == self.cur.file && f.path != self.cur.path
            });
            let r = d.next()?;
            if d.next().is_some() {
                return None;
            }
            return Some(r);
        }
        Some(r)
    }

    fn inline(&mut self, f: &FnInfo, recv: Option<Expr>, args: Vec<Expr>, stmt: bool) -> Option<Expr> {
        let mut body = f.block.clone();
        strip_cfg_test(&mut body);
        // `return`
        let mut rc = RetCheck { n: 0, inloop_only: true, depth: 0, q: 0 };
        rc.visit_block(&body);
        if rc.q > 0 {
            return None;
        }
        if rc.n > 0 {
            // only a body that is one loop, called for its effect
            let single_loop = body.stmts.len() == 1
                && matches!(&body.stmts[0], Stmt::Expr(Expr::Loop(_), _));
            if !(single_loop && stmt && rc.inloop_only) {
                return None;
            }
            RetToBreak.visit_block_mut(&mut body);
            if let Some(Stmt::Expr(_, s @ None)) = body.stmts.last_mut() {
                *s = Some(Default::default());
            }
        }
        self.uniq += 1;
        let mut pre: Vec<Stmt> = vec![];
        let mut closures: BTreeMap<String, ExprClosure> = BTreeMap::new();
        let mut ai = args.into_iter();
        for inp in f.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    match (&*t.pat, a) {
                        (Pat::Ident(p), Expr::Closure(c)) => {
                            closures.insert(p.ident.to_string(), c);
                        }
                        (pat, a) => {
                            // a variable passed under its own name is not bound again
                            if let (Pat::Ident(p), Expr::Path(ap)) = (pat, &a) {
                                if ap.path.is_ident(&p.ident) && p.mutability.is_none() {
                                    continue;
                                }
                            }
                            let has_impl = t.ty.to_token_stream().to_string().contains("impl ");
                            let gen: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
                            let tystr = t.ty.to_token_stream().to_string();
                            let generic = tystr.split(|c: char| !c.is_alphanumeric()).any(|w| gen.contains(&w.to_string()));
                            let ty = &t.ty;
                            // a type that says `Self` means the helper's own type
                            let own = f.self_ty == self.cur.self_ty;
                            if matches!(&**ty, Type::Reference(r) if r.mutability.is_some()) {
                                pre.push(parse_quote!(let #pat = &mut *(#a);));
                            } else if has_impl || generic || !own {
                                pre.push(parse_quote!(let #pat = #a;));
                            } else {
                                pre.push(parse_quote!(let #pat: #ty = #a;));
                            }
                        }
                    }
                }
            }
        }
        if let Some(r) = recv {
            let self_path = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !self_path {
                let simple = matches!(&r, Expr::Path(_) | Expr::Field(_));
                if !simple {
                    return None;
                }
                SubstSelf(r).visit_block_mut(&mut body);
            }
        }
        if !closures.is_empty() {
            let mut cs = ClosureCalls { c: closures, ok: true };
            cs.visit_block_mut(&mut body);
            if !cs.ok {
                return None;
            }
        }
        self.inlined.push(f.path.clone());
        let mut stmts = pre;
        stmts.extend(body.stmts);
        let blk = Block { brace_token: Default::default(), stmts };
        if f.sig.unsafety.is_some() {
            return Some(parse_quote!(unsafe #blk));
        }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }))
    }

    fn try_expr(&mut self, e: &mut Expr, stmt: bool) {
        if self.depth > 40 {
            return;
        }
        let new = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match self.candidate(&n, true) {
                    Some(f) if f.sig.inputs.len() != m.args.len() + 1 => None,
                    Some(f) => self.inline(f, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), stmt),
                    None => None,
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let q = p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string()).unwrap_or_default();
                    match self.candidate(&n, false) {
                        _ if STD_TYPES.contains(&q.as_str()) => None,
                        Some(f) if f.sig.inputs.len() != c.args.len() => None,
                        Some(f) => self.inline(f, None, c.args.iter().cloned().collect(), stmt),
                        None => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, Some(_)) = s {
            self.depth += 1;
            self.try_expr(e, true);
            self.depth -= 1;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.try_expr(e, false);
    }
}

struct RetCheck {
    n: usize,
    inloop_only: bool,
    depth: usize,
    q: usize,
}
impl<'a> Visit<'a> for RetCheck {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) => {
                self.n += 1;
                if self.depth != 1 {
                    self.inloop_only = false;
                }
            }
            Expr::Try(_) => self.q += 1,
            Expr::Closure(_) => return,
            _ => {}
        }
        let l = is_loop(e);
        if l {
            self.depth += 1;
        }
        syn::visit::visit_expr(self, e);
        if l {
            self.depth -= 1;
        }
    }
}
struct RetToBreak;
impl VisitMut for RetToBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(_) = e {
            // the value is a constant and unused by the caller
            *e = parse_quote!(break);
        }
    }
}
struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct ClosureCalls {
    c: BTreeMap<String, ExprClosure>,
    ok: bool,
}
impl VisitMut for ClosureCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Some(n) = last_ident(&c.func) {
                if let Some(cl) = self.c.get(&n) {
                    let mut b: Vec<Stmt> = vec![];
                    for (p, a) in cl.inputs.iter().zip(c.args.iter()) {
                        let p = match p {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        b.push(parse_quote!(let #p = #a;));
                    }
                    let body = &cl.body;
                    match &**body {
                        Expr::Block(x) => b.extend(x.block.stmts.clone()),
                        x => b.push(Stmt::Expr(x.clone(), None)),
                    }
                    let blk = Block { brace_token: Default::default(), stmts: b };
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// rewrites into the verifier's dialect

pub struct Rw<'a> {
    idx: &'a Index,
    file: String,
    self_ty: Option<String>,
    pub q_is_key: bool,
    pub opts: BTreeSet<String>,
    /// under which condition the contract allows an explicit panic (empty: never)
    pub panics: String,
    pub dropped: Vec<String>,
    pub extra_generics: Vec<String>,
    nfor: usize,
    raw_ptr: Vec<(String, String)>,
    /// local arrays of slots
    arrays: BTreeSet<String>,
}

impl<'a> Rw<'a> {
    pub fn new(idx: &'a Index, file: &str, self_ty: Option<String>) -> Self {
        Rw {
            idx,
            file: file.into(),
            self_ty,
            q_is_key: false,
            opts: BTreeSet::new(),
            panics: String::new(),
            dropped: vec![],
            extra_generics: vec![],
            nfor: 0,
            raw_ptr: vec![],
            arrays: BTreeSet::new(),
        }
    }

    fn opt(&self, s: &str) -> bool {
        self.opts.contains(s)
    }

    /// `key_area_mut` and friends: `self.FIELD.as_slice().get_unchecked(index)`
    fn accessor(&self, name: &str) -> Option<(String, bool)> {
        let st = self.self_ty.clone()?;
        let f = self
            .idx
            .fns
            .iter()
            .find(|f| f.path == format!("{st}::{name}") && f.sig.inputs.len() == 2)?;
        let s = f.block.to_token_stream().to_string().replace(' ', "");
        let s = s.trim_start_matches('{').trim_end_matches('}').to_string();
        let s = s.strip_prefix("unsafe{").unwrap_or(&s).to_string();
        let s = s.strip_prefix("self.")?.to_string();
        let (field, rest) = s.split_once('.')?;
        match rest {
            "as_mut_slice().get_unchecked_mut(index)" => Some((field.into(), true)),
            "as_slice().get_unchecked(index)" => Some((field.into(), false)),
            _ => None,
        }
    }

    fn area(&self, base: Expr, index: &Expr, mutable: bool) -> Expr {
        let (at, rng): (TokenStream, TokenStream) = if mutable {
            (quote!(area_mut_at), quote!(area_mut))
        } else {
            (quote!(area_at), quote!(area))
        };
        let r: TokenStream = if mutable { quote!(&mut) } else { quote!(&) };
        match index {
            Expr::Range(x) => {
                let lo: Expr = match &x.start {
                    Some(e) => (**e).clone(),
                    None => parse_quote!(0),
                };
                let hi: Expr = match &x.end {
                    Some(e) => (**e).clone(),
                    None => parse_quote!(#base.len()),
                };
                let hi: Expr = if matches!(x.limits, RangeLimits::Closed(_)) { parse_quote!(#hi + 1) } else { hi };
                parse_quote!({ let __lo = #lo; let __hi = #hi; #rng(#r #base, __lo, __hi) })
            }
            i => parse_quote!({ let __i = #i; #at(#r #base, __i) }),
        }
    }
}

fn seg_is(p: &Path, i: usize, names: &[&str]) -> bool {
    p.segments.iter().nth(i).map(|s| names.iter().any(|n| s.ident == n)).unwrap_or(false)
}

impl<'a> Rw<'a> {
    fn fix_path(&mut self, p: &mut Path, is_type: bool) {
        // a wrapper and what it wraps
        if !p.segments.iter().any(|s| s.ident == "tree") {
            let f = self.file.clone();
            let i = p.segments.iter().position(|s| !MODULES.contains(&s.ident.to_string().as_str()));
            if let Some(i) = i {
                let n = crate::index::local_name(&f, &p.segments[i].ident.to_string());
                p.segments[i].ident = format_ident!("{}", n);
            }
        } else if let (true, Some(l)) = (self.file.starts_with("set.rs") || self.file.starts_with("map.rs"), p.segments.last_mut()) {
            // a marker keeps the name as it is when the path is visited again; printing drops it
            if !l.ident.to_string().ends_with("__tree") {
                l.ident = format_ident!("{}__tree", l.ident);
            }
        }
        // module prefixes
        while p.segments.len() > 1 && seg_is(p, 0, MODULES) {
            let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        }
        p.leading_colon = None;
        // associated types of the store
        let n = p.segments.len();
        if n >= 2
            && (seg_is(p, 0, &["S"]) || (seg_is(p, 0, &["Self"])))
            && seg_is(p, 1, &["K", "V", "Augmentation"])
        {
            let id = match p.segments[1].ident.to_string().as_str() {
                "K" => "K",
                "V" => "V",
                _ => "A",
            };
            let mut segs: Vec<PathSegment> = vec![PathSegment::from(format_ident!("{}", id))];
            segs.extend(p.segments.iter().skip(2).cloned());
            p.segments = segs.into_iter().collect();
        } else if seg_is(p, 0, &["S"]) {
            let mut segs: Vec<PathSegment> = if is_type {
                vec![parse_quote!(NodeStoreVec<K, V, A>)]
            } else {
                vec![parse_quote!(NodeStoreVec::<K, V, A>)]
            };
            segs.extend(p.segments.iter().skip(1).cloned());
            p.segments = segs.into_iter().collect();
        } else if self.q_is_key && n == 1 && seg_is(p, 0, &["Q"]) {
            p.segments[0] = PathSegment::from(format_ident!("K"));
        }
        // a store given as an argument of another type is replaced by its own arguments
        for s in p.segments.iter_mut() {
            if s.ident == "ManuallyDrop" || s.ident == "Option" {
                continue;
            }
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let mut v: Vec<GenericArgument> = vec![];
                for g in a.args.iter() {
                    match g {
                        GenericArgument::Type(Type::Path(tp))
                            if tp.qself.is_none() && tp.path.segments.last().unwrap().ident == "NodeStoreVec" =>
                        {
                            let inner = tp.path.segments.last().unwrap();
                            let mut k = 0;
                            if let PathArguments::AngleBracketed(ia) = &inner.arguments {
                                for x in &ia.args {
                                    v.push(x.clone());
                                    k += 1;
                                }
                            }
                            while k < 3 {
                                v.push(parse_quote!(()));
                                k += 1;
                            }
                        }
                        g => v.push(g.clone()),
                    }
                }
                a.args = v.into_iter().collect();
            }
        }
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if i.expr.to_token_stream().to_string().replace(' ', "").contains("MaybeUninit::<[MaybeUninit<") {
                self.arrays.insert(p.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_fields_mut(&mut self, f: &mut Fields) {
        visit_mut::visit_fields_mut(self, f);
    }

    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) {
        visit_mut::visit_generic_argument_mut(self, g);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            // impl Iterator<Item = T> / impl IntoIterator<Item = T>
            if let Some(TypeParamBound::Trait(b)) = it.bounds.first() {
                let seg = b.path.segments.last().unwrap();
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::AssocType(at)) = a.args.first() {
                        let mut inner = at.ty.clone();
                        self.visit_type_mut(&mut inner);
                        if seg.ident == "Iterator" {
                            let g = format!("I{}", self.extra_generics.len());
                            let gi = format_ident!("{}", g);
                            self.extra_generics.push(format!("{g}: DIter<{}>", inner.to_token_stream()));
                            *t = parse_quote!(&mut #gi);
                        } else {
                            let g = format!("I{}", self.extra_generics.len());
                            let gi = format_ident!("{}", g);
                            self.extra_generics.push(format!(
                                "{g}: IntoData<{}>",
                                inner.to_token_stream()
                            ));
                            *t = parse_quote!(#gi);
                        }
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(tp) = t {
            if let Some(_q) = &tp.qself {
                let l = tp.path.segments.last().unwrap().ident.to_string();
                let id = match l.as_str() {
                    "K" => Some("K"),
                    "V" => Some("V"),
                    "Augmentation" => Some("A"),
                    _ => None,
                };
                if let Some(id) = id {
                    let id = format_ident!("{}", id);
                    *t = parse_quote!(#id);
                }
                return;
            }
            let mut p = tp.path.clone();
            self.fix_path(&mut p, true);
            tp.path = p;
            let last = tp.path.segments.last().unwrap();
            if last.ident == "ManuallyDrop" {
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    if let Some(GenericArgument::Type(x)) = a.args.first() {
                        let x = x.clone();
                        *t = x;
                    }
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p, false);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // a box allocated uninitialised
        let mut v = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Item(Item::Use(_)) = &s {
                continue;
            }
            if let Stmt::Local(l) = &s {
                if let Some(i) = &l.init {
                    let t = i.expr.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("Layout::new") || t.contains("alloc(layout).cast()") {
                        self.dropped.push(format!("allocation: {t}"));
                        continue;
                    }
                    // a mutable alias of a node of the store: taken out while it is used, put back after
                    if let Some((store, id)) = alias_init(&i.expr) {
                        let pat = &l.pat;
                        if let Pat::Ident(p) = pat {
                            let bx = format_ident!("{}_box", p.ident);
                            let idv = format_ident!("{}_id", p.ident);
                            let name = &p.ident;
                            let st: Expr = parse_str(&store).unwrap();
                            let idx: Expr = parse_str(&id).unwrap();
                            v.push(parse_quote!(let #idv = #idx;));
                            v.push(parse_quote!(let mut #bx = #st.take_inner(#idv);));
                            v.push(parse_quote!(let #name = box_mut(&mut #bx);));
                            self.raw_ptr.push((p.ident.to_string(), store));
                            self.dropped.push("aliasing pointer to a node replaced by taking it out of the store".into());
                            continue;
                        }
                    }
                }
            }
            v.push(s);
        }
        b.stmts = v;
        let depth = self.raw_ptr.len();
        visit_mut::visit_block_mut(self, b);
        let _ = depth;
        // put the aliased nodes back at the end of the block that made the alias
        let mut here = vec![];
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let Pat::Ident(p) = &l.pat {
                    if let Some(pos) = self.raw_ptr.iter().position(|(n, _)| format_ident!("{}_box", n) == p.ident) {
                        here.push(pos);
                    }
                }
            }
        }
        for pos in here.into_iter().rev() {
            let (n, store) = self.raw_ptr.remove(pos);
            let bx = format_ident!("{}_box", n);
            let idv = format_ident!("{}_id", n);
            let mut st: Expr = parse_str(&store).unwrap();
            visit_mut::visit_expr_mut(self, &mut st);
            let s: Stmt = parse_quote!(#st.put_back_inner(#idv, #bx););
            match b.stmts.last().cloned() {
                Some(Stmt::Expr(e, None)) => {
                    b.stmts.pop();
                    let id = format_ident!("__alias_r");
                    b.stmts.push(parse_quote!(let #id = #e;));
                    b.stmts.push(s);
                    b.stmts.push(Stmt::Expr(parse_quote!(#id), None));
                }
                Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx") => {
                    // keep a trailing proof marker last
                    b.stmts.pop();
                    b.stmts.push(s);
                    b.stmts.push(Stmt::Macro(m));
                }
                _ => b.stmts.push(s),
            }
        }
        // macros as statements
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if m.mac.path.is_ident("__vx") || m.mac.path.is_ident("__vl") {
                    continue;
                }
                let tail = m.semi_token.is_none();
                if let Some(e) = mac(self, &m.mac) {
                    let diverges = e.to_token_stream().to_string().replace(' ', "") == "unreached()" || e.to_token_stream().to_string().starts_with("diverge");
                    *s = match (diverges, tail) {
                        (true, true) => Stmt::Expr(e, None),
                        (true, false) => Stmt::Expr(parse_quote!(return #e), Some(Default::default())),
                        _ => Stmt::Expr(e, Some(Default::default())),
                    };
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // patterns recognised before their parts are rewritten
        let t = e.to_token_stream().to_string().replace(' ', "");
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && t.contains(".st.") && matches!(&*b.left, Expr::Field(_)) => {
                let l = &b.left;
                let r = &b.right;
                self.dropped.push(format!("overflow check of the statistics counter in `{t}`"));
                *e = parse_quote!(#l = #l.wrapping_add(#r));
                return self.visit_expr_mut(e);
            }
            Expr::Call(c) => {
                if t == "BPlusTree::new(Default::default())" {
                    *e = parse_quote!(BPlusTree::new(NodeStoreVec::default()));
                    return;
                }
                if t.starts_with("drop(Box::from_raw(Box::into_raw(") && t.contains(".cast::<MaybeUninit<Self>>()") {
                    let v: String = t["drop(Box::from_raw(Box::into_raw(".len()..].split(')').next().unwrap().into();
                    let x: Expr = parse_str(&v).unwrap();
                    *e = parse_quote!(dealloc_only(#x));
                    return;
                }
                if t.starts_with("Box::from_raw(") && matches!(c.args.first(), Some(Expr::Path(_))) {
                    *e = parse_quote!(alloc_uninit_box::<Self>());
                    return;
                }
                if t.starts_with("ManuallyDrop::new(") || t.starts_with("std::mem::ManuallyDrop::new(") {
                    let a = c.args.first().unwrap().clone();
                    let at = a.to_token_stream().to_string().replace(' ', "");
                    // what keeps its destructor from running is the tree itself, or the store of a tree
                    if at == "self" {
                        *e = a;
                    } else {
                        *e = parse_quote!(kept_from_drop(#a));
                    }
                    return self.visit_expr_mut(e);
                }
                if t.starts_with("mem::forget(") || t.starts_with("std::mem::forget(") || t.starts_with("forget(") {
                    let a = c.args.first().unwrap().clone();
                    *e = parse_quote!(forgotten(#a));
                    return self.visit_expr_mut(e);
                }
                if t.starts_with("ManuallyDrop::take(") || t.starts_with("std::mem::ManuallyDrop::take(") {
                    c.func = parse_quote!(take_out);
                }
                if t.starts_with("ptr::drop_in_place(&mut") || t.starts_with("std::ptr::drop_in_place(&mut") || t.starts_with("drop_in_place(&mut") {
                    self.dropped.push(format!("destructor call `{t}`"));
                    let a = c.args.first().unwrap().clone();
                    *e = parse_quote!(drop_of(#a));
                    return self.visit_expr_mut(e);
                }
                if t.starts_with("usize::from(") {
                    let a = c.args.first().unwrap().clone();
                    *e = parse_quote!(((#a) as usize));
                    return self.visit_expr_mut(e);
                }
                if t.contains("hint::unreachable_unchecked()") && t.ends_with("unreachable_unchecked()") && c.args.is_empty() {
                    *e = parse_quote!(unreached());
                    return;
                }
                if t.starts_with("std::mem::take(") || t.starts_with("mem::take(") {
                    c.func = parse_quote!(mem_take);
                }
                if t.starts_with("std::mem::drop(") || t.starts_with("drop(") {
                    c.func = parse_quote!(drop_value);
                }
            }
            Expr::Unary(u) => {
                // &*(E as *const [MaybeUninit<T>] as *const [T]) handled under Reference
                let _ = u;
            }
            Expr::Reference(r) => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    let mut x = &**expr;
                    while let Expr::Paren(p) = x {
                        x = &p.expr;
                    }
                    if let Expr::Cast(c2) = x {
                        if let Expr::Cast(c1) = &*c2.expr {
                            if c1.ty.to_token_stream().to_string().replace(' ', "").starts_with("*const[MaybeUninit<") {
                                let inner = c1.expr.clone();
                                *e = parse_quote!(slice_assume_init(#inner));
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) if self.opt("ops") && m.method == "cmp" && m.args.len() == 1 => {
                let (l, r) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(vop_cmp(&(#l), #r));
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "assume_init" && t.starts_with("MaybeUninit::<[MaybeUninit<") && t.ends_with(">::uninit().assume_init()") {
                    if let Expr::MethodCall(_) | Expr::Call(_) = &*m.receiver {
                        if let Expr::Call(c) = &*m.receiver {
                            if let Expr::Path(p) = &*c.func {
                                if let PathArguments::AngleBracketed(a) = &p.path.segments[0].arguments {
                                    if let Some(GenericArgument::Type(Type::Array(arr))) = a.args.first() {
                                        if let Type::Path(mp) = &*arr.elem {
                                            if let PathArguments::AngleBracketed(el) = &mp.path.segments.last().unwrap().arguments {
                                                let el = el.args.first().unwrap();
                                                let mut n = arr.len.clone();
                                                self.visit_expr_mut(&mut n);
                                                *e = parse_quote!(uninit_array::<#el, #n>());
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if name == "unwrap_or_else" && t.ends_with("unreachable_unchecked())") {
                    m.method = format_ident!("unwrap");
                    m.args.clear();
                    return self.visit_expr_mut(e);
                }
                if (name == "get_unchecked" || name == "get_unchecked_mut") && m.args.len() == 1 {
                    let mutable = name == "get_unchecked_mut";
                    let mut idx = m.args.first().unwrap().clone();
                    let recv = (*m.receiver).clone();
                    let base = match &recv {
                        Expr::MethodCall(r) if r.method == "as_mut_slice" || r.method == "as_slice" => {
                            Some((*r.receiver).clone())
                        }
                        x if matches!(idx, Expr::Range(_)) => Some(x.clone()),
                        _ => None,
                    };
                    match base {
                        Some(mut b) => {
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut idx);
                            *e = self.area(b, &idx, mutable);
                        }
                        None => {
                            let mut b = recv;
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut idx);
                            *e = if last_ident(&b).map(|n| self.arrays.contains(&n)).unwrap_or(false) {
                                self.area(b, &idx, mutable)
                            } else if mutable {
                                parse_quote!(vec_get_mut(&mut #b, #idx))
                            } else {
                                parse_quote!(vec_get(&#b, #idx))
                            };
                        }
                    }
                    return;
                }
                if let Some((field, mutable)) = self.accessor(&name) {
                    if m.args.len() == 1 {
                        let mut b = (*m.receiver).clone();
                        let mut idx = m.args.first().unwrap().clone();
                        self.visit_expr_mut(&mut b);
                        self.visit_expr_mut(&mut idx);
                        let fi = format_ident!("{}", field);
                        let base: Expr = parse_quote!(#b.#fi);
                        *e = self.area(base, &idx, mutable);
                        return;
                    }
                }
                if let Some((f, k)) = key_search(m) {
                    let mut b = (*m.receiver).clone();
                    let mut k = k;
                    self.visit_expr_mut(&mut b);
                    self.visit_expr_mut(&mut k);
                    let f = format_ident!("{}", f);
                    *e = parse_quote!(#f(#b, #k));
                    return;
                }
                if name == "borrow" && m.args.is_empty() {
                    let b = (*m.receiver).clone();
                    *e = b;
                    return self.visit_expr_mut(e);
                }
                if name == "into" && m.args.is_empty() {
                    m.method = format_ident!("vinto");
                }
                if name == "unwrap_or_default" {
                    m.method = format_ident!("vunwrap_or_default");
                }
                if name == "into_iter" && self.opt("data") {
                    m.method = format_ident!("into_data");
                }
                if self.opt("data") && name == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(x) = &*m.receiver {
                        if x.method == "map" && x.args.len() == 1 {
                            let (r, f) = (&x.receiver, x.args.first().unwrap());
                            *e = parse_quote!(#r.vmap_collect(#f));
                            return self.visit_expr_mut(e);
                        }
                    }
                    m.method = format_ident!("vcollect");
                    m.turbofish = None;
                }
                if name == "sort_by" || name == "sort_unstable_by" {
                    m.method = format_ident!("v{}", name);
                }
                if let Some(n) = combinator(m) {
                    *e = n;
                    return self.visit_expr_mut(e);
                }
                if name == "or" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, m.args.first().unwrap());
                    *e = parse_quote!(match (#r, #a) { (Some(__x), _) => { Some(__x) } (None, __o) => { __o } });
                    return self.visit_expr_mut(e);
                }
                if name == "map" && !self.opt("nomap") && m.args.len() == 1 {
                    if let Some(Expr::Path(f)) = m.args.first() {
                        let (r, f) = (&m.receiver, f.clone());
                        *e = parse_quote!(match #r { Some(__x) => { Some(#f(__x)) } None => { None } });
                        return self.visit_expr_mut(e);
                    }
                }
                if name == "map" && !self.opt("nomap") && m.args.len() == 1 {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        if c.inputs.len() == 1 && !escapes(&c.body) {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            let bt = b.to_token_stream().to_string().replace(' ', "");
                            if bt == format!("{}.into()", p.to_token_stream()) {
                                m.method = format_ident!("vmap_into");
                                m.args.clear();
                                return self.visit_expr_mut(e);
                            }
                            let r = &m.receiver;
                            *e = parse_quote!(match #r { Some(#p) => { Some(#b) } None => { None } });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
            Expr::Macro(m) => {
                if let Some(n) = mac(self, &m.mac) {
                    *e = n;
                    return;
                }
            }
            Expr::Struct(s) if s.rest.is_none() => {
                let mut n = s.path.segments.last().unwrap().ident.to_string();
                if !s.path.segments.iter().any(|s| s.ident == "tree") {
                    n = crate::index::local_name(&self.file, &n);
                }
                if n == "Self" {
                    n = self.self_ty.clone().unwrap_or_default();
                }
                if let Some(gs) = self.idx.ghosts.get(&n) {
                    for g in gs {
                        let id = format_ident!("{}", g);
                        s.fields.push(parse_quote!(#id: Ghost(arbitrary())));
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    if let Some(o) = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"].iter().find(|o| t.ends_with(&format!("Ordering::{o}"))) {
                        let o = format_ident!("{}", o);
                        *e = parse_quote!(AtomicOrdering::#o);
                        return;
                    }
                    // file-level constants
                    let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let l = full.last().unwrap().clone();
                    if full.len() == 1 {
                        if let Some(n) = const_name(self.idx, &self.file.clone(), &l) {
                            let id = format_ident!("{}", n);
                            *e = parse_quote!(#id);
                            return;
                        }
                    }
                }
            }
            Expr::ForLoop(_) => {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::ForLoop(f) = e {
                    let n = self.nfor;
                    self.nfor += 1;
                    let it = format_ident!("__it{}", n);
                    let pat = &f.pat;
                    let ex = &f.expr;
                    let mut body = f.body.clone();
                    let mut mark: Vec<Stmt> = vec![];
                    if let Some(Stmt::Macro(m)) = body.stmts.first() {
                        if m.mac.path.is_ident("__vl") {
                            mark.push(body.stmts.remove(0));
                        }
                    }
                    let label = &f.label;
                    let by_ref = {
                        let s = ex.to_token_stream().to_string().replace(' ', "");
                        s.ends_with(".by_ref()")
                    };
                    if by_ref {
                        let inner = match &**ex {
                            Expr::MethodCall(m) => m.receiver.clone(),
                            _ => f.expr.clone(),
                        };
                        *e = parse_quote!({
                            #label loop { #(#mark)* match #inner.next() { Some(#pat) => #body, None => { break; } } }
                        });
                    } else {
                        *e = parse_quote!({
                            let mut #it = (#ex).vinto_iter();
                            #label loop { #(#mark)* match #it.next() { Some(#pat) => #body, None => { break; } } }
                        });
                    }
                }
                return;
            }
            Expr::Loop(l) => {
                // `loop` with a value: the value goes through a variable
                let mut bv = BreakVal { depth: 0, n: 0 };
                bv.visit_block(&l.body);
                if bv.n > 0 {
                    let id = format_ident!("__lv{}", self.nfor);
                    self.nfor += 1;
                    BreakAssign { depth: 0, id: id.clone() }.visit_block_mut(&mut l.body);
                    let l2 = l.clone();
                    *e = parse_quote!({ let #id; #l2 #id });
                    return self.visit_expr_mut(e);
                }
            }
            Expr::Binary(b) if self.opt("ops") => {
                let f = match b.op {
                    BinOp::Lt(_) => "vop_lt",
                    BinOp::Le(_) => "vop_le",
                    BinOp::Gt(_) => "vop_gt",
                    BinOp::Ge(_) => "vop_ge",
                    BinOp::Eq(_) => "vop_eq",
                    BinOp::Ne(_) => "vop_ne",
                    _ => "",
                };
                if !f.is_empty() {
                    let (f, l, r) = (format_ident!("{}", f), &b.left, &b.right);
                    *e = parse_quote!(#f(&(#l), &(#r)));
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
        self.visit_expr_mut(&mut t.len);
    }
}

struct BreakVal {
    depth: usize,
    n: usize,
}
impl<'a> Visit<'a> for BreakVal {
    fn visit_expr(&mut self, e: &'a Expr) {
        if let Expr::Break(b) = e {
            if b.expr.is_some() && self.depth == 0 {
                self.n += 1;
            }
        }
        let l = is_loop(e);
        if l {
            self.depth += 1;
        }
        if !matches!(e, Expr::Closure(_)) {
            syn::visit::visit_expr(self, e);
        }
        if l {
            self.depth -= 1;
        }
    }
}
struct BreakAssign {
    depth: usize,
    id: Ident,
}
impl VisitMut for BreakAssign {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let l = is_loop(e);
        if l {
            self.depth += 1;
        }
        if !matches!(e, Expr::Closure(_)) {
            visit_mut::visit_expr_mut(self, e);
        }
        if l {
            self.depth -= 1;
        }
        if let Expr::Break(b) = e {
            if let (Some(x), true) = (&b.expr, self.depth == 0) {
                let id = &self.id;
                *e = parse_quote!({ #id = #x; break; });
            }
        }
    }
}

/// `unsafe { &mut *STORE.get_mut_inner_ptr(ID) }`
fn alias_init(e: &Expr) -> Option<(String, String)> {
    let t = e.to_token_stream().to_string();
    let c = t.replace(' ', "");
    let c = c.strip_prefix("unsafe{")?.strip_suffix('}')?.to_string();
    let c = c.strip_prefix("&mut*")?.to_string();
    let (store, rest) = c.split_once(".get_mut_inner_ptr(")?;
    Some((store.to_string(), rest.strip_suffix(')')?.to_string()))
}

/// A binary search in a slice of keys: the function of the prelude it is, and the key.
fn key_search(m: &ExprMethodCall) -> Option<(&'static str, Expr)> {
    let name = m.method.to_string();
    if name == "binary_search" && m.args.len() == 1 {
        return Some(("binary_search_keys", m.args[0].clone()));
    }
    let c = match m.args.last()? {
        Expr::Closure(c) if c.inputs.len() == 1 => c,
        _ => return None,
    };
    let p = match &c.inputs[0] {
        Pat::Ident(p) => p.ident.to_string(),
        _ => return None,
    };
    let is_p = |e: &Expr| {
        let t = e.to_token_stream().to_string().replace(' ', "");
        let t = t.trim_start_matches(['*', '&']);
        t == p || t == format!("{p}.borrow()")
    };
    let free = |e: &Expr| {
        struct U<'s>(&'s str, bool);
        impl<'a, 's> Visit<'a> for U<'s> {
            fn visit_ident(&mut self, i: &'a Ident) {
                self.1 |= i == self.0;
            }
        }
        let mut u = U(&p, false);
        u.visit_expr(e);
        !u.1
    };
    let mut body = &*c.body;
    while let Expr::Paren(x) = body {
        body = &x.expr;
    }
    if let Expr::Block(b) = body {
        if let [Stmt::Expr(x, None)] = &b.block.stmts[..] {
            body = x;
        }
    }
    let strip = |e: &Expr| match e {
        // operators compare what is behind references on both sides
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
        o => o.clone(),
    };
    match (name.as_str(), m.args.len(), body) {
        ("binary_search_by_key", 2, b) if is_p(b) => Some(("binary_search_keys", m.args[0].clone())),
        ("binary_search_by", 1, Expr::MethodCall(x)) if x.method == "cmp" && x.args.len() == 1 && is_p(&x.receiver) && free(&x.args[0]) => {
            Some(("binary_search_keys", x.args[0].clone()))
        }
        ("partition_point", 1, Expr::MethodCall(x)) if x.args.len() == 1 && is_p(&x.receiver) && free(&x.args[0]) => match x.method.to_string().as_str() {
            "lt" => Some(("keys_below", x.args[0].clone())),
            "le" => Some(("keys_upto", x.args[0].clone())),
            _ => None,
        },
        ("partition_point", 1, Expr::Binary(x)) => match (&x.op, is_p(&x.left) && free(&x.right), is_p(&x.right) && free(&x.left)) {
            (BinOp::Lt(_), true, _) => Some(("keys_below", strip(&x.right))),
            (BinOp::Le(_), true, _) => Some(("keys_upto", strip(&x.right))),
            (BinOp::Gt(_), _, true) => Some(("keys_below", strip(&x.left))),
            (BinOp::Ge(_), _, true) => Some(("keys_upto", strip(&x.left))),
            _ => None,
        },
        _ => None,
    }
}

/// Whether control can leave a closure's body other than at its end (such a body means something else inline).
pub fn escapes(e: &Expr) -> bool {
    struct E(bool);
    impl<'a> Visit<'a> for E {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = E(false);
    v.visit_expr(e);
    v.0
}

/// Combinators of Option, Result and bool with closures: the `match` they mean.
fn combinator(m: &ExprMethodCall) -> Option<Expr> {
    let cl = |i: usize, n: usize| -> Option<(Vec<Pat>, Expr)> {
        match m.args.iter().nth(i)? {
            Expr::Closure(c) if c.inputs.len() == n && !escapes(&c.body) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            Expr::Path(f) if n == 1 => Some((vec![parse_quote!(__x)], parse_quote!(#f(__x)))),
            _ => None,
        }
    };
    let r = &m.receiver;
    let (name, n) = (m.method.to_string(), m.args.len());
    Some(match (name.as_str(), n) {
        ("map_or", 2) => {
            let d = &m.args[0];
            if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                return None;
            }
            let (p, b) = cl(1, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Some(#p) => { #b } None => { #d } })
        }
        ("map_or_else", 2) => {
            let (q, d) = cl(0, 0).or_else(|| cl(0, 1))?;
            let (p, b) = cl(1, 1)?;
            let p = &p[0];
            match q.first() {
                None => parse_quote!(match #r { Some(#p) => { #b } None => { #d } }),
                Some(q) => parse_quote!(match #r { Ok(#p) => { #b } Err(#q) => { #d } }),
            }
        }
        ("and_then", 1) => {
            let (p, b) = cl(0, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Some(#p) => { #b } None => { None } })
        }
        ("filter", 1) => {
            let (p, b) = match m.args.first()? {
                Expr::Closure(_) => cl(0, 1)?,
                _ => return None,
            };
            let p = &p[0];
            parse_quote!(match #r { Some(__x) => { if { let #p = &__x; #b } { Some(__x) } else { None } } None => { None } })
        }
        ("or_else", 1) => {
            let (_, b) = cl(0, 0)?;
            parse_quote!(match #r { Some(__x) => { Some(__x) } None => { #b } })
        }
        ("is_some_and", 1) => {
            let (p, b) = cl(0, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Some(#p) => { #b } None => { false } })
        }
        ("is_none_or", 1) => {
            let (p, b) = cl(0, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Some(#p) => { #b } None => { true } })
        }
        ("is_ok_and", 1) => {
            let (p, b) = cl(0, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Ok(#p) => { #b } Err(_) => { false } })
        }
        ("unwrap_or_else", 1) => match cl(0, 0) {
            Some((_, b)) => parse_quote!(match #r { Some(__x) => { __x } None => { #b } }),
            None => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Ok(__x) => { __x } Err(#p) => { #b } })
            }
        },
        ("ok_or_else", 1) => {
            let (_, b) = cl(0, 0)?;
            parse_quote!(match #r { Some(__x) => { Ok(__x) } None => { Err(#b) } })
        }
        ("map_err", 1) => {
            let (p, b) = cl(0, 1)?;
            let p = &p[0];
            parse_quote!(match #r { Ok(__x) => { Ok(__x) } Err(#p) => { Err(#b) } })
        }
        ("then", 1) => {
            let (_, b) = cl(0, 0)?;
            parse_quote!(if #r { Some(#b) } else { None })
        }
        _ => return None,
    })
}

fn mac(rw: &mut Rw, m: &Macro) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    match n.as_str() {
        // an explicit panic the contract allows, under the condition it names
        "panic" if !rw.panics.is_empty() => {
            let c: Expr = parse_str(&rw.panics).expect("panics condition");
            Some(parse_quote!(diverge(Ghost(#c))))
        }
        "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote!(unreached())),
        "assert" | "debug_assert" => {
            let args: punctuated::Punctuated<Expr, Token![,]> =
                m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
            let mut c = args.first()?.clone();
            rw.visit_expr_mut(&mut c);
            if !rw.panics.is_empty() {
                let p: Expr = parse_str(&rw.panics).expect("panics condition");
                return Some(parse_quote!(if !(#c) { return diverge(Ghost(#p)); }));
            }
            Some(parse_quote!(rt_assert(#c)))
        }
        "assert_eq" | "debug_assert_eq" => {
            let args: punctuated::Punctuated<Expr, Token![,]> =
                m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
            let mut a = args[0].clone();
            let mut b = args[1].clone();
            rw.visit_expr_mut(&mut a);
            rw.visit_expr_mut(&mut b);
            Some(parse_quote!(rt_assert(#a == #b)))
        }
        "assert_ne" | "debug_assert_ne" => {
            let args: punctuated::Punctuated<Expr, Token![,]> =
                m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
            let mut a = args[0].clone();
            let mut b = args[1].clone();
            rw.visit_expr_mut(&mut a);
            rw.visit_expr_mut(&mut b);
            Some(parse_quote!(rt_assert(#a != #b)))
        }
        "matches" => {
            let ts = m.tokens.clone();
            let f: Expr = parse2(quote!(match_macro!(#ts))).ok()?;
            let _ = f;
            // matches!(e, pat [if g])
            struct M(Expr, Pat, Option<Expr>);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok(M(e, p, g))
                }
            }
            let M(mut e, p, g) = parse2(m.tokens.clone()).ok()?;
            rw.visit_expr_mut(&mut e);
            Some(match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            })
        }
        _ => None,
    }
}
