//! Prints token streams, substituting the contract placeholders.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

/// Texts by placeholder id: `__vspec!(id);` as the first statement of a block puts the text before
/// the block; `__vproof!(id);` is replaced by the text.
pub fn print(ts: TokenStream, texts: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    go(ts, texts, &mut out);
    out
}

fn placeholder(toks: &[TokenTree], at: usize, name: &str) -> Option<String> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
        (toks.get(at), toks.get(at + 1), toks.get(at + 2))
    {
        if id == name && p.as_char() == '!' {
            return Some(g.stream().to_string());
        }
    }
    None
}

fn go(ts: TokenStream, texts: &BTreeMap<String, String>, out: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(id) = placeholder(&toks, i, "__vproof") {
            out.push('\n');
            out.push_str(texts.get(&id).map(|s| s.as_str()).unwrap_or(""));
            out.push('\n');
            i += 3;
            if let Some(TokenTree::Punct(p)) = toks.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&toks[i], toks.get(i + 1)) {
            if id == "__vclosure" {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let key = inner[0].to_string();
                out.push('\n');
                out.push_str(texts.get(&key).map(|s| s.as_str()).unwrap_or(""));
                out.push('\n');
                go(inner.into_iter().skip(2).collect(), texts, out);
                i += 2;
                continue;
            }
        }
        // attributes are dropped
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&toks[i], toks.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                i += 2;
                continue;
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        let mut skip = 0;
                        if let Some(id) = placeholder(&inner, 0, "__vspec") {
                            out.push('\n');
                            out.push_str(texts.get(&id).map(|s| s.as_str()).unwrap_or(""));
                            skip = 3;
                            if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                if p.as_char() == ';' {
                                    skip = 4;
                                }
                            }
                        }
                        out.push_str("{\n");
                        go(inner.into_iter().skip(skip).collect(), texts, out);
                        out.push_str("\n}");
                        // A closing brace ends a line unless something continues the expression.
                        match toks.get(i + 1) {
                            Some(TokenTree::Punct(_)) => (),
                            Some(TokenTree::Ident(id)) if id == "else" => out.push(' '),
                            _ => out.push('\n'),
                        }
                    }
                    Delimiter::Parenthesis => {
                        // `(__vret, T)` is a named return type
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(_))) = (inner.get(0), inner.get(1)) {
                            if id == "__vret" {
                                out.push_str("(ret: ");
                                go(inner.into_iter().skip(2).collect(), texts, out);
                                out.push_str(") ");
                                i += 1;
                                continue;
                            }
                        }
                        out.push('(');
                        go(g.stream(), texts, out);
                        out.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        out.push('[');
                        go(g.stream(), texts, out);
                        out.push_str("] ");
                    }
                    Delimiter::None => go(g.stream(), texts, out),
                }
            }
            TokenTree::Ident(id) => {
                out.push_str(&id.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
        }
        i += 1;
    }
}
