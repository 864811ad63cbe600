//! Ownership of what the slots hold. The verifier's values are moved, never copied, so what is left to
//! account for is what Rust itself does not account for: reading a slot out, writing over one, and
//! letting a slot or a node go. Each of these becomes a call whose contract says when it is allowed.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
            Stmt::Expr(e, None) => peel(e),
            _ => e,
        },
        _ => e,
    }
}
fn root(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Index(i) => root(&i.expr),
        Expr::MethodCall(m) => root(&m.receiver),
        Expr::Reference(r) => root(&r.expr),
        Expr::Unary(u) => root(&u.expr),
        _ => None,
    }
}
fn ident(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
fn is_call(e: &Expr, names: &[&str]) -> bool {
    match peel(e) {
        Expr::Call(c) => names.contains(&text(&c.func).as_str()),
        _ => false,
    }
}
/// `replace(SLOT, MaybeUninit::..)`
fn slot_replace(e: &Expr) -> bool {
    match peel(e) {
        Expr::Call(c) if text(&c.func) == "replace" && c.args.len() == 2 => {
            text(&c.args[1]).starts_with("MaybeUninit::") || text(&c.args[0]).contains("area_mut_at(")
        }
        _ => false,
    }
}
/// a node taken out of its store
fn node_take(e: &Expr) -> bool {
    match peel(e) {
        Expr::MethodCall(m) => m.method == "take_leaf" || m.method == "take_inner",
        _ => false,
    }
}
fn fresh_slot(e: &Expr) -> bool {
    let t = text(e);
    matches!(peel(e), Expr::Call(_)) && (t.starts_with("MaybeUninit::new(") || t.starts_with("MaybeUninit::uninit(") || t.starts_with("MaybeUninit::<"))
}

/// before anything else: loops that run over the slots of an area, by index
pub struct SlotLoops<'a> {
    pub is_area: &'a dyn Fn(&str) -> bool,
    pub n: usize,
}
impl<'a> VisitMut for SlotLoops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::ForLoop(f) = e else { return };
        let mut it = peel(&f.expr).clone();
        if let Expr::MethodCall(m) = &it {
            if m.method == "iter_mut" && m.args.is_empty() {
                it = peel(&m.receiver).clone();
            }
        }
        let Expr::MethodCall(m) = &it else { return };
        if m.args.len() != 1 || !(self.is_area)(&m.method.to_string()) || text(&f.body).contains("continue") {
            return;
        }
        let Expr::Range(r) = m.args.first().unwrap() else { return };
        let lo: Expr = match &r.start {
            Some(e) => (**e).clone(),
            None => parse_quote!(0usize),
        };
        let Some(hi) = &r.end else { return };
        let (i, h) = (format_ident!("__d{}", self.n), format_ident!("__e{}", self.n));
        self.n += 1;
        let (recv, name, pat, body, label) = (&m.receiver, &m.method, &f.pat, &f.body.stmts, &f.label);
        *e = parse_quote!({
            let mut #i: usize = #lo;
            let #h: usize = #hi;
            #label while #i < #h {
                let #pat = #recv.#name(#i);
                #(#body)*
                #i = #i + 1;
            }
        });
    }
}

/// how often a name stands alone, that is, is moved (or copied) somewhere
struct Moves<'a> {
    name: &'a str,
    n: usize,
}
impl<'a, 'b> Visit<'b> for Moves<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Path(p) if p.path.is_ident(self.name) => self.n += 1,
            // uses that leave the value where it is
            Expr::Field(f) if ident(&f.base).as_deref() == Some(self.name) => {}
            Expr::Reference(r) if ident(&r.expr).as_deref() == Some(self.name) => {}
            Expr::Unary(u) if ident(&u.expr).as_deref() == Some(self.name) => {}
            Expr::Index(i) if ident(&i.expr).as_deref() == Some(self.name) => self.visit_expr(&i.index),
            Expr::MethodCall(m) if ident(&m.receiver).as_deref() == Some(self.name) => {
                if m.method.to_string().starts_with("into") {
                    self.n += 1;
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            Expr::Assign(a) if ident(&a.left).as_deref() == Some(self.name) => self.visit_expr(&a.right),
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        // the arguments of assertions and the like are only looked at
        let _ = m;
    }
}

pub struct Own {
    /// roots that cannot be written through
    pub shared: BTreeSet<String>,
    /// locals that hold what has been taken out of a slot
    slots: BTreeSet<String>,
    /// how often the fields that are dropped by hand are to be taken or dropped
    pub drops: BTreeMap<String, usize>,
    /// names of owned parameters, and when they may be let go
    pub owned: Vec<String>,
}
impl Own {
    pub fn new(shared: BTreeSet<String>) -> Self {
        Own { shared, slots: BTreeSet::new(), drops: BTreeMap::new(), owned: vec![] }
    }
    fn takable(&self, e: &Expr) -> bool {
        root(e).map(|r| !self.shared.contains(&r)).unwrap_or(true)
    }
    /// `{ let __i = X; area_at(&B, __i) }` as a place that can be taken from
    fn area_to_mut(&self, e: &Expr) -> Option<Expr> {
        let Expr::Block(b) = peel(e) else { return None };
        let [i, Stmt::Expr(Expr::Call(c), None)] = &b.block.stmts[..] else { return None };
        if text(&c.func) == "area_mut_at" {
            return Some(e.clone());
        }
        if text(&c.func) != "area_at" {
            return None;
        }
        let Expr::Reference(r) = &c.args[0] else { return None };
        if !self.takable(&r.expr) {
            return None;
        }
        let (base, ix) = (&r.expr, &c.args[1]);
        Some(parse_quote!({ #i area_mut_at(&mut #base, #ix) }))
    }
    pub fn finish(&self, block: &mut Block) {
        let mut tail: Vec<Stmt> = vec![];
        for n in &self.owned {
            let mut mv = Moves { name: n, n: 0 };
            mv.visit_block(block);
            if mv.n == 0 {
                let id = format_ident!("{}", n);
                tail.push(parse_quote!(dropped_here(&#id);));
            }
        }
        for (f, n) in &self.drops {
            let c = format_ident!("__c_{}", f);
            let n = proc_macro2::Literal::u8_suffixed(*n as u8);
            tail.push(parse_quote!(taken_times(#c == #n);));
            block.stmts.insert(0, parse_quote!(let mut #c: u8 = 0;));
        }
        push_before_end(block, tail, "__own_r");
    }
}
/// puts statements at the end of a block, before its value is returned
fn push_before_end(block: &mut Block, tail: Vec<Stmt>, name: &str) {
    if tail.is_empty() {
        return;
    }
    let mut marks = vec![];
    while let Some(Stmt::Macro(m)) = block.stmts.last() {
        if !m.mac.path.is_ident("__vx") {
            break;
        }
        marks.insert(0, block.stmts.pop().unwrap());
    }
    match block.stmts.pop() {
        Some(Stmt::Expr(e, None)) => {
            let id = format_ident!("{}", name);
            if matches!(peel(&e), Expr::Path(_)) {
                block.stmts.extend(tail);
                block.stmts.extend(marks);
                block.stmts.push(Stmt::Expr(e, None));
            } else {
                block.stmts.push(parse_quote!(let #id = #e;));
                block.stmts.extend(tail);
                block.stmts.extend(marks);
                block.stmts.push(Stmt::Expr(parse_quote!(#id), None));
            }
        }
        s => {
            // after a statement that leaves the block nothing is reached
            let leaves = matches!(&s, Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _)));
            let back: Vec<Stmt> = s.into_iter().collect();
            if leaves {
                block.stmts.extend(tail);
                block.stmts.extend(back);
            } else {
                block.stmts.extend(back);
                block.stmts.extend(tail);
            }
            block.stmts.extend(marks);
        }
    }
}
impl VisitMut for Own {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut slots_here: Vec<String> = vec![];
        let mut nodes_here: Vec<String> = vec![];
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                let Some(init) = &mut l.init else { continue };
                if slot_replace(&init.expr) {
                    match &mut l.pat {
                        Pat::Ident(p) => {
                            p.mutability = Some(Default::default());
                            slots_here.push(p.ident.to_string());
                            self.slots.insert(p.ident.to_string());
                        }
                        Pat::Wild(_) => {
                            let e = &init.expr;
                            *s = parse_quote!(discard_slot(#e););
                        }
                        _ => {}
                    }
                } else if node_take(&init.expr) {
                    match &l.pat {
                        Pat::Ident(p) => nodes_here.push(p.ident.to_string()),
                        Pat::Wild(_) => {
                            let e = &init.expr;
                            *s = parse_quote!(discard_node(#e););
                        }
                        _ => {}
                    }
                }
            } else if let Stmt::Expr(e, Some(_)) = s {
                if slot_replace(e) {
                    *s = parse_quote!(discard_slot(#e););
                } else if node_take(e) {
                    *s = parse_quote!(discard_node(#e););
                } else if is_call(e, &["drop_value"]) {
                    if let Expr::Call(c) = peel(e) {
                        let a = &c.args[0];
                        if slot_replace(a) {
                            *s = parse_quote!(discard_slot(#a););
                        } else if node_take(a) || ident(a).map(|n| nodes_here.contains(&n) || self.owned.contains(&n)).unwrap_or(false) {
                            *s = parse_quote!(discard_node(#a););
                        } else if ident(a).map(|n| slots_here.contains(&n)).unwrap_or(false) {
                            *s = parse_quote!(discard_slot(#a););
                        }
                    }
                }
            }
        }
        let mut tail: Vec<Stmt> = vec![];
        for n in &slots_here {
            let mut mv = Moves { name: n, n: 0 };
            mv.visit_block(b);
            if mv.n == 0 {
                let id = format_ident!("{}", n);
                tail.push(parse_quote!(gone_slot(&#id);));
            }
        }
        for n in &nodes_here {
            let mut mv = Moves { name: n, n: 0 };
            mv.visit_block(b);
            if mv.n == 0 {
                let id = format_ident!("{}", n);
                tail.push(parse_quote!(dropped_here(&#id);));
            }
        }
        visit_mut::visit_block_mut(self, b);
        push_before_end(b, tail, "__blk_r");
        for n in &slots_here {
            self.slots.remove(n);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Assign(a) if fresh_slot(&a.right) => {
                let rhs = &a.right;
                let place: Option<TokenStream> = match peel(&a.left) {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                        let p = &u.expr;
                        Some(quote!(#p))
                    }
                    Expr::Index(i) => {
                        let (b, ix) = (&i.expr, &i.index);
                        Some(quote!({ let __i = #ix; area_mut_at(&mut #b, __i) }))
                    }
                    _ => None,
                };
                if let Some(p) = place {
                    *e = parse_quote!({ let __m = #rhs; put_slot(#p, __m) });
                }
            }
            Expr::MethodCall(m) if (m.method == "assume_init_read" || m.method == "assume_init") && m.args.is_empty() => {
                if let Some(n) = ident(&m.receiver) {
                    if self.slots.contains(&n) {
                        let id = format_ident!("{}", n);
                        *e = parse_quote!(take_init(&mut #id));
                    }
                } else if slot_replace(&m.receiver) {
                    m.method = format_ident!("assume_init");
                } else if m.method == "assume_init_read" {
                    if let Some(p) = self.area_to_mut(&m.receiver) {
                        *e = parse_quote!(take_init(#p));
                    }
                }
            }
            Expr::Call(c) => {
                let f = text(&c.func);
                if f == "take_out" || f == "drop_of" {
                    if let Expr::Reference(r) = peel(&c.args[0]) {
                        if let Expr::Field(x) = peel(&r.expr) {
                            let n = text(&x.member);
                            if self.drops.contains_key(&n) {
                                let cnt = format_ident!("__c_{}", n);
                                c.args.push(parse_quote!(&mut #cnt));
                                return;
                            }
                        }
                    }
                    let other = format_ident!("{}_other", f);
                    c.func = parse_quote!(#other);
                }
            }
            _ => {}
        }
    }
}
