//! Prints a token stream with line breaks (the verifier reports lines).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    let mut ind = 1usize;
    pr(ts, &mut s, &mut ind, false);
    s.replace("__tree", "")
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("    ");
    }
}

fn pr(ts: TokenStream, s: &mut String, ind: &mut usize, in_paren: bool) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut glue = false;
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                glue = false;
                match g.delimiter() {
                    Delimiter::Brace => {
                        if g.stream().is_empty() {
                            s.push_str("{ } ");
                        } else {
                            s.push('{');
                            *ind += 1;
                            nl(s, *ind);
                            pr(g.stream(), s, ind, false);
                            *ind -= 1;
                            nl(s, *ind);
                            s.push_str("} ");
                        }
                        let next_punct = matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if [';', ',', '.', '?', ')'].contains(&p.as_char()));
                        let next_else = matches!(toks.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                        if !in_paren && !next_punct && !next_else && i + 1 < toks.len() {
                            nl(s, *ind);
                        }
                    }
                    Delimiter::Parenthesis => {
                        while s.ends_with(' ') && matches!(toks.get(i.wrapping_sub(1)), Some(TokenTree::Ident(_))) {
                            s.pop();
                        }
                        if let Some(TokenTree::Ident(id)) = toks.get(i.wrapping_sub(1)) {
                            let k = id.to_string();
                            if ["match", "if", "return", "in", "let", "while", "mut", "break"].contains(&k.as_str()) {
                                s.push(' ');
                            }
                        }
                        s.push('(');
                        pr(g.stream(), s, ind, true);
                        while s.ends_with(' ') {
                            s.pop();
                        }
                        s.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        s.push('[');
                        pr(g.stream(), s, ind, true);
                        while s.ends_with(' ') {
                            s.pop();
                        }
                        s.push_str("] ");
                    }
                    Delimiter::None => pr(g.stream(), s, ind, in_paren),
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !glue && [';', ',', '.', '?', ':'].contains(&c) {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    if c == ':' && p.spacing() == Spacing::Joint && !s.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '>') {
                        s.push(' ');
                    }
                }
                s.push(c);
                glue = p.spacing() == Spacing::Joint;
                if !glue {
                    if c == '.' || c == '&' || c == '\'' {
                    } else {
                        s.push(' ');
                    }
                }
                if c == ':' && s.ends_with(":: ") {
                    s.pop();
                }
                if (c == ';' || c == ',') && !in_paren && !glue {
                    if c == ';' {
                        nl(s, *ind);
                    }
                }
            }
            TokenTree::Ident(id) => {
                glue = false;
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                glue = false;
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}
