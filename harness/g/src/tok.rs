//! Token trees in a plain form that is cheap to compare.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    I(String),
    P(char),
    L(String),
    /// Delimiter ('(', '[', '{') and contents; None-delimited groups are spliced.
    G(char, Vec<T>),
}
use T::*;

pub fn flat(ts: TokenStream) -> Vec<T> {
    let mut v = Vec::new();
    flat_into(ts, &mut v, false);
    v
}
/// Like `flat`, with None-delimited groups kept (as '_').
pub fn grouped(ts: TokenStream) -> Vec<T> {
    let mut v = Vec::new();
    flat_into(ts, &mut v, true);
    v
}
fn flat_into(ts: TokenStream, v: &mut Vec<T>, keep: bool) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => v.push(I(i.to_string())),
            TokenTree::Punct(p) => v.push(P(p.as_char())),
            TokenTree::Literal(l) => v.push(L(l.to_string())),
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => '(',
                    Delimiter::Bracket => '[',
                    Delimiter::Brace => '{',
                    Delimiter::None if keep => '_',
                    Delimiter::None => {
                        flat_into(g.stream(), v, keep);
                        continue;
                    }
                };
                let mut w = Vec::new();
                flat_into(g.stream(), &mut w, keep);
                v.push(G(d, w));
            }
        }
    }
}
impl T {
    pub fn is(&self, s: &str) -> bool {
        matches!(self, I(x) if x == s)
    }
    pub fn p(&self, c: char) -> bool {
        matches!(self, P(x) if *x == c)
    }
    pub fn ident(&self) -> Option<&str> {
        match self {
            I(x) => Some(x),
            _ => None,
        }
    }
}
/// Does `pat` occur anywhere in `ts`, at any depth?
pub fn contains(ts: &[T], pat: &[T]) -> bool {
    count(ts, pat) > 0
}
pub fn count(ts: &[T], pat: &[T]) -> usize {
    let mut n = 0;
    for i in 0..ts.len() {
        if i + pat.len() <= ts.len() && ts[i..i + pat.len()] == *pat {
            n += 1;
        }
        if let G(_, inner) = &ts[i] {
            n += count(inner, pat);
        }
    }
    n
}
pub fn has_ident(ts: &[T], s: &str) -> bool {
    ts.iter().any(|t| match t {
        I(x) => x == s,
        G(_, g) => has_ident(g, s),
        _ => false,
    })
}
pub fn count_ident(ts: &[T], s: &str) -> usize {
    let mut n = 0;
    for t in ts {
        match t {
            I(x) if x == s => n += 1,
            G(_, g) => n += count_ident(g, s),
            _ => {}
        }
    }
    n
}
pub fn has_lit(ts: &[T], f: &dyn Fn(&str) -> bool) -> bool {
    ts.iter().any(|t| match t {
        L(x) => f(x),
        G(_, g) => has_lit(g, f),
        _ => false,
    })
}
/// Split at top-level commas (outside `<...>`), dropping a trailing empty part.
pub fn commas(ts: &[T]) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    let mut depth = 0i32;
    let mut i = 0;
    while i < ts.len() {
        let t = &ts[i];
        if depth == 0 && t.p(',') {
            out.push(std::mem::take(&mut cur));
        } else {
            if t.p('<') {
                depth += 1;
            } else if t.p('>') && !(i > 0 && (ts[i - 1].p('-') || ts[i - 1].p('='))) {
                depth -= 1;
            }
            cur.push(t.clone());
        }
        i += 1;
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
