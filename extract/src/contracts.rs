//! Contract file format. Directives are lines starting with `//@ `:
//!   raw                         Verus text until the next directive
//!   const FILE NAME             extract a constant
//!   struct FILE NAME            extract a struct or enum   (attr / ghost may follow)
//!   fn FILE PATH                a function under contract; followed by any of
//!     props C01 C02             properties its proof serves
//!     params self a b           names used by the contract, by position
//!     ret r                     name of the result
//!     attr TEXT                 attribute text
//!     trusted REASON            contract assumed, body not verified
//!     sig TEXT                  signature used when the function is gone
//!     spec / loop N / at ANCHOR text until the next directive
#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub file: String,
    pub path: String,
    pub props: Vec<String>,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub trusted: Option<String>,
    pub sig: Option<String>,
    pub generics: Option<String>,
    pub spec: String,
    pub loops: Vec<(usize, String)>,
    pub ats: Vec<(String, String)>,
    pub opts: Vec<String>,
    /// the condition under which an explicit panic is allowed
    pub panics: String,
    /// fields that are dropped by hand, and how often each is to be taken out or dropped
    pub drops: Vec<(String, usize)>,
    /// contracts of closures, by position
    pub closures: Vec<(usize, String)>,
    /// textual replacements in the signature
    pub subst: Vec<(String, String)>,
}

pub enum Item {
    Raw(String, String, usize),
    Struct { file: String, name: String, attrs: Vec<String>, ghost: Vec<String>, generics: Option<String>, subst: Vec<(String, String)> },
    Const { file: String, name: String },
    Fn(FnContract),
}

pub fn parse(t: &str, fname: &str) -> Vec<Item> {
    enum Sink {
        None,
        Raw(usize),
        Spec,
        Loop(usize),
        At(String),
    }
    let mut items: Vec<Item> = vec![];
    let mut sink = Sink::None;
    let mut buf = String::new();
    fn flush(items: &mut Vec<Item>, sink: &mut Sink, buf: &mut String, fname: &str) {
        let b = std::mem::take(buf);
        match std::mem::replace(sink, Sink::None) {
            Sink::None => {}
            Sink::Raw(l) => items.push(Item::Raw(b, fname.to_string(), l)),
            Sink::Spec => {
                if let Some(Item::Fn(f)) = items.last_mut() {
                    f.spec = b
                }
            }
            Sink::Loop(n) => {
                if let Some(Item::Fn(f)) = items.last_mut() {
                    f.loops.push((n, b))
                }
            }
            Sink::At(a) => {
                if let Some(Item::Fn(f)) = items.last_mut() {
                    f.ats.push((a, b))
                }
            }
        }
    }
    for (ln, line) in t.lines().enumerate() {
        let tl = line.trim_start();
        if let Some(d) = tl.strip_prefix("//@ ") {
            flush(&mut items, &mut sink, &mut buf, fname);
            let (w, rest) = match d.trim().split_once(char::is_whitespace) {
                Some((w, r)) => (w, r.trim()),
                None => (d.trim(), ""),
            };
            let words: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            match w {
                "raw" => sink = Sink::Raw(ln + 2),
                "const" => items.push(Item::Const { file: words[0].clone(), name: words[1].clone() }),
                "struct" => items.push(Item::Struct {
                    file: words[0].clone(),
                    name: words[1].clone(),
                    attrs: vec![],
                    ghost: vec![],
                    generics: None,
                    subst: vec![],
                }),
                "ghost" => {
                    if let Some(Item::Struct { ghost, .. }) = items.last_mut() {
                        ghost.push(rest.to_string())
                    }
                }
                "fn" => items.push(Item::Fn(FnContract {
                    file: words[0].clone(),
                    path: words[1].clone(),
                    ..Default::default()
                })),
                "attr" => match items.last_mut() {
                    Some(Item::Struct { attrs, .. }) => attrs.push(rest.to_string()),
                    Some(Item::Fn(f)) => f.attrs.push(rest.to_string()),
                    _ => {}
                },
                "spec" => sink = Sink::Spec,
                "loop" => sink = Sink::Loop(words[0].parse().unwrap()),
                "at" => sink = Sink::At(rest.to_string()),
                "generics" if matches!(items.last(), Some(Item::Struct { .. })) => {
                    if let Some(Item::Struct { generics, .. }) = items.last_mut() {
                        *generics = Some(rest.to_string())
                    }
                }
                "subst" if matches!(items.last(), Some(Item::Struct { .. })) => {
                    if let Some(Item::Struct { subst, .. }) = items.last_mut() {
                        let (a, b) = rest.split_once("=>").unwrap();
                        subst.push((a.trim().to_string(), b.trim().to_string()))
                    }
                }
                _ => {
                    if let Some(Item::Fn(f)) = items.last_mut() {
                        match w {
                            "props" => f.props = words,
                            "params" => f.params = words,
                            "ret" => f.ret = Some(rest.to_string()),
                            "trusted" => f.trusted = Some(rest.to_string()),
                            "sig" => f.sig = Some(rest.to_string()),
                            "generics" => f.generics = Some(rest.to_string()),
                            "closure" => {
                                let (n, t) = rest.split_once(' ').unwrap();
                                f.closures.push((n.parse().unwrap(), t.to_string()))
                            }
                            "subst" => {
                                let (a, b) = rest.split_once("=>").unwrap();
                                f.subst.push((a.trim().to_string(), b.trim().to_string()))
                            }
                            "opt" => f.opts.extend(words),
                            "panics" => f.panics = rest.to_string(),
                            "drops" => {
                                for w in words {
                                    let (a, n) = w.split_once('=').unwrap();
                                    f.drops.push((a.to_string(), n.parse().unwrap()))
                                }
                            }
                            _ => panic!("{fname}:{}: unknown directive {w}", ln + 1),
                        }
                    } else {
                        panic!("{fname}:{}: directive {w} out of place", ln + 1)
                    }
                }
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut items, &mut sink, &mut buf, fname);
    items
}
