use std::collections::BTreeMap;
use syn::*;

pub struct FnInfo {
    pub file: String,
    pub path: String,
    pub sig: Signature,
    pub block: Block,
    /// type the impl is for, e.g. `NodeStoreVec`
    pub self_ty: Option<String>,
    /// associated types of the trait impl the function is in
    pub assoc: Vec<(String, Type)>,
    pub line: usize,
    pub end: usize,
}

pub enum TypeDef {
    Struct(ItemStruct),
    Enum(ItemEnum),
}

pub struct Index {
    pub fns: Vec<FnInfo>,
    pub types: BTreeMap<(String, String), TypeDef>,
    pub consts: BTreeMap<(String, String), ItemConst>,
    /// ghost fields added to structs
    pub ghosts: BTreeMap<String, Vec<String>>,
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg")
                && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)"))
    })
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        Type::Tuple(t) if t.elems.is_empty() => "()".into(),
        _ => "?".into(),
    }
}

/// The wrappers of the iterators in set.rs and map.rs have the names of what they wrap.
pub fn local_name(file: &str, name: &str) -> String {
    if name == "Iter" || name == "IntoIter" {
        if file.starts_with("set.rs") {
            return format!("Set{name}");
        }
        if file.starts_with("map.rs") {
            return format!("Map{name}");
        }
    }
    name.to_string()
}

/// types of the standard library whose copies are clones
fn is_copy(t: &Type) -> bool {
    match t {
        Type::Reference(r) => r.mutability.is_none(),
        Type::Tuple(t) => t.elems.iter().all(is_copy),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            match &s.arguments {
                PathArguments::None => ["usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "bool"].contains(&n.as_str()),
                PathArguments::AngleBracketed(a) => n == "Option" && a.args.iter().all(|x| matches!(x, GenericArgument::Type(t) if is_copy(t))),
                _ => false,
            }
        }
        _ => false,
    }
}

impl Index {
    pub fn load(src: &str) -> std::result::Result<Self, String> {
        let mut me = Index { fns: vec![], types: BTreeMap::new(), consts: BTreeMap::new(), ghosts: BTreeMap::new() };
        let mut stack = vec![std::path::PathBuf::from(src)];
        let mut files = vec![];
        while let Some(d) = stack.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() {
                    stack.push(p)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    files.push(p)
                }
            }
        }
        files.sort();
        for p in files {
            let rel = p.strip_prefix(src).unwrap().to_string_lossy().to_string();
            let t = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let f = parse_file(&t).map_err(|e| format!("{rel}: {e}"))?;
            me.items(&rel, &f.items);
        }
        me.derives();
        Ok(me)
    }

    /// what `#[derive(Clone)]` and `#[derive(Default)]` stand for
    fn derives(&mut self) {
        let mut add = vec![];
        for ((file, name), t) in &self.types {
            let attrs = match t {
                TypeDef::Struct(s) => &s.attrs,
                TypeDef::Enum(e) => &e.attrs,
            };
            let has = |d: &str| {
                attrs.iter().any(|a| {
                    let t = quote::quote!(#a).to_string();
                    a.path().is_ident("derive") && t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == d)
                })
            };
            let member = |f: &Fields, each: &dyn Fn(String, &Type) -> String| -> String {
                match f {
                    Fields::Named(n) => {
                        let v: Vec<String> = n.named.iter().map(|f| { let i = f.ident.as_ref().unwrap().to_string(); format!("{i}: {}", each(i.clone(), &f.ty)) }).collect();
                        format!("{{ {} }}", v.join(", "))
                    }
                    Fields::Unnamed(n) => {
                        let v: Vec<String> = n.unnamed.iter().enumerate().map(|(i, f)| each(i.to_string(), &f.ty)).collect();
                        format!("({})", v.join(", "))
                    }
                    Fields::Unit => String::new(),
                }
            };
            if has("Clone") {
                let body = match t {
                    TypeDef::Struct(s) => format!("{name} {}", member(&s.fields, &|i, t| if is_copy(t) { format!("self.{i}") } else { format!("self.{i}.clone()") })),
                    TypeDef::Enum(e) => {
                        let arms: Vec<String> = e.variants.iter().map(|v| {
                            let b = |i: String| if i.chars().all(|c| c.is_ascii_digit()) { format!("__f{i}") } else { i };
                            format!("{name}::{} {} => {name}::{} {}", v.ident, member(&v.fields, &|i, _| b(i)), v.ident, member(&v.fields, &|i, t| if is_copy(t) { format!("*{}", b(i)) } else { format!("{}.clone()", b(i)) }))
                        }).collect();
                        format!("match self {{ {} }}", arms.join(", "))
                    }
                };
                add.push((file.clone(), name.clone(), "Clone", "clone", format!("fn clone(&self) -> Self {{ {body} }}")));
            }
            if has("Default") {
                if let TypeDef::Struct(s) = t {
                    let body = format!("{name} {}", member(&s.fields, &|_, _| "Default::default()".into()));
                    add.push((file.clone(), name.clone(), "Default", "default", format!("fn default() -> Self {{ {body} }}")));
                }
            }
        }
        for (file, name, tr, m, text) in add {
            let path = format!("{name}::{tr}::{m}");
            if self.fns.iter().any(|f| f.path == path && f.file == file) {
                continue;
            }
            if let Ok(f) = parse_str::<ItemFn>(&text) {
                self.push_fn(&file, path, &f.sig, &f.block, Some(name));
            }
        }
    }

    fn items(&mut self, rel: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Struct(s) if !is_test(&s.attrs) => {
                    let mut s = s.clone();
                    s.ident = quote::format_ident!("{}", local_name(rel, &s.ident.to_string()));
                    self.types.insert((rel.into(), s.ident.to_string()), TypeDef::Struct(s.clone()));
                }
                Item::Enum(s) if !is_test(&s.attrs) => {
                    self.types.insert((rel.into(), s.ident.to_string()), TypeDef::Enum(s.clone()));
                }
                Item::Const(c) if !is_test(&c.attrs) => {
                    self.consts.insert((rel.into(), c.ident.to_string()), c.clone());
                }
                Item::Fn(f) if !is_test(&f.attrs) => {
                    self.push_fn(rel, f.sig.ident.to_string(), &f.sig, &f.block, None);
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let ty = local_name(rel, &ty_name(&im.self_ty));
                    let assoc: Vec<(String, Type)> = im
                        .items
                        .iter()
                        .filter_map(|i| match i {
                            ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                            _ => None,
                        })
                        .collect();
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            let path = match &im.trait_ {
                                Some((_, tr, _)) => {
                                    let seg = tr.segments.last().unwrap();
                                    let tn = seg.ident.to_string();
                                    // user traits of one type never clash with inherent names here
                                    format!("{ty}::{tn}::{}", f.sig.ident)
                                }
                                None => format!("{ty}::{}", f.sig.ident),
                            };
                            self.push_fn(rel, path, &f.sig, &f.block, Some(ty.clone()));
                            self.fns.last_mut().unwrap().assoc = assoc.clone();
                        }
                    }
                }
                Item::Trait(tr) => {
                    for ti in &tr.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.push_fn(
                                    rel,
                                    format!("{}::{}", tr.ident, f.sig.ident),
                                    &f.sig,
                                    b,
                                    None,
                                );
                            }
                        }
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        // inline modules are named like a file of their own
                        let sub = format!("{rel}/{}", m.ident);
                        let its = its.clone();
                        self.items(&sub, &its);
                    }
                }
                _ => {}
            }
        }
    }

    fn push_fn(&mut self, rel: &str, path: String, sig: &Signature, block: &Block, st: Option<String>) {
        use syn::spanned::Spanned;
        let line = sig.span().start().line;
        let end = block.span().end().line;
        self.fns.push(FnInfo {
            file: rel.into(),
            path,
            sig: sig.clone(),
            block: block.clone(),
            self_ty: st,
            assoc: vec![],
            line,
            end,
        });
    }

    /// The file is a hint: a function moved to another file of the crate is still found.
    pub fn find_fn(&self, file: &str, path: &str) -> Option<&FnInfo> {
        self.fns
            .iter()
            .find(|f| f.path == path && f.file == file)
            .or_else(|| {
                let mut c = self.fns.iter().filter(|f| f.path == path);
                let r = c.next();
                if c.next().is_some() {
                    None
                } else {
                    r
                }
            })
    }
    pub fn find_type(&self, file: &str, name: &str) -> Option<&TypeDef> {
        self.types.get(&(file.into(), name.into())).or_else(|| {
            self.types.iter().find(|((_, n), _)| n == name).map(|x| x.1)
        })
    }
    pub fn find_const(&self, file: &str, name: &str) -> Option<&ItemConst> {
        self.consts.get(&(file.into(), name.into()))
    }
}
