//! The expansion under one configuration against the expansion under another.
//! Each generated item may depend on the options that are documented to matter
//! for it and on nothing else, so it must equal the item of a struct with one
//! field where just those are written, in their effective form. What such plain
//! structs do at run time is decided by the runtime harnesses.
use crate::*;
use crate::T::*;

/// A struct and its field under scrutiny, before `finish` puts it between two others.
pub fn base() -> (StructC, FieldC) {
    (StructC::new(id("Target"), vec![]), FieldC::new(id("field"), quote!(Option<Vec<u8>>)))
}
pub fn finish(mut s: StructC, f: FieldC) -> StructC {
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f, FieldC::new(id("after"), quote!(Option<Vec<u8>>))];
    assume(!contradictory(&s));
    s
}
pub fn pair(kind: usize) -> StructC {
    let (mut s, mut f) = base();
    match kind {
        0 => {
            s_opt(&mut s, choice("struct option", S_OPTS));
            f_opt(&mut f, choice("field option", F_OPTS));
        }
        1 => {
            let a = choice("first", S_OPTS - 1);
            let b = a + 1 + choice("second", S_OPTS - 1 - a);
            let x = s_opt(&mut s, a);
            let y = s_opt(&mut s, b);
            assume(x != y);
        }
        _ => {
            let a = choice("first", F_OPTS - 1);
            let b = a + 1 + choice("second", F_OPTS - 1 - a);
            let x = f_opt(&mut f, a);
            let y = f_opt(&mut f, b);
            assume(x != y);
        }
    }
    finish(s, f)
}
pub fn kind() -> usize {
    choice("which options", 3)
}
/// The struct whose setters are the same as those of `f` in `s`.
fn plain_setter(s: &StructC, f: &FieldC) -> (StructC, FieldC) {
    let mut c = StructC::new(s.ident.clone(), vec![]);
    let mut g = FieldC::new(f.ident.clone(), f.ty.clone());
    c.crate_root = s.crate_root.clone();
    g.pattern = Some(s.fpat(f));
    g.setter.into = Some(s.into(f));
    g.setter.strip = Some(s.strip(f));
    g.setter.name = Some(id(&s.setter_name(f)));
    g.visibility = VisC::of(Some(s.setter_vis(f)));
    g.fty = f.fty.clone();
    g.try_setter = s.has_try(f);
    if let Some((n, i)) = &f.setter.each {
        g.setter.each = Some((n.clone(), Some(*i == Some(true))));
    }
    c.fields = vec![g.clone()];
    (c, g)
}
fn shape(f: &FnItem) -> FnItem {
    f.clone()
}
/// 0: plain setter, 1: fallible setter, 2: each setter.
pub fn setters(s: &StructC, which: usize, cid: u32) {
    let o = parse(&s.expand());
    for f in &s.fields {
        if !s.has_setter(f) {
            continue;
        }
        let (c, g) = plain_setter(s, f);
        let p = parse(&c.expand());
        let n = match which {
            0 => Some(s.setter_name(f)),
            1 if s.has_try(f) => Some(s.try_name(f)),
            2 => each_name(f),
            _ => None,
        };
        if let Some(n) = n {
            reach(cid);
            check(o.need_fn(&n) == p.need_fn(&n), cid);
        }
    }
}
fn plain_def(d: &Option<Def>) -> Option<Def> {
    match d {
        Some(Def::Str(t)) | Some(Def::Expr(t)) => Some(Def::Expr(t.clone())),
        x => x.clone(),
    }
}
/// What `build` puts into each field.
pub fn inits(s: &StructC, cid: u32) {
    if s.build.skip {
        return;
    }
    let o = parse(&s.expand());
    for f in &s.fields {
        let mut c = StructC::new(s.ident.clone(), vec![]);
        let mut g = FieldC::new(f.ident.clone(), f.ty.clone());
        c.crate_root = s.crate_root.clone();
        c.pattern = Some(s.pat());
        g.pattern = Some(s.fpat(f));
        c.default = plain_def(&s.default);
        g.default = plain_def(&f.default);
        if !s.enabled(f) {
            g.setter.skip = Some(true);
        } else {
            g.fty = f.fty.clone();
            g.fbuild = f.fbuild.clone();
        }
        c.fields = vec![g.clone()];
        let p = parse(&c.expand());
        let n = f.ident.to_string();
        let want = p.inits("build", &s.ident.to_string());
        check(want.len() == 1, cid);
        reach(cid);
        let got = o.inits(&s.build_name(), &s.ident.to_string());
        check(got.len() == s.fields.len(), cid + 1);
        check(find_init(&got, &n) == want[0].1, cid + 2);
        // the empty builder
        let a = empties(s, &o);
        let b = empties(&c, &p);
        check(a.len() == s.fields.len() && find_init(&a, &n) == find_init(&b, &n), cid + 3);
    }
}
fn without_literal(ts: &[T], target: &str) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    for t in ts {
        match t {
            G('{', _) if v.last().map_or(false, |l| l.is(target)) => v.push(G('{', vec![])),
            G(d, inner) => v.push(G(*d, without_literal(inner, target))),
            t => v.push(t.clone()),
        }
    }
    v
}
/// Everything in the build method but the values of the fields.
pub fn build_fn(s: &StructC, cid: u32) {
    let o = parse(&s.expand());
    if s.build.skip {
        check(o.get_fn(&s.build_name()).is_none(), cid);
        return;
    }
    let mut c = StructC::new(s.ident.clone(), vec![FieldC::new(id("other"), quote!(u8))]);
    c.crate_root = s.crate_root.clone();
    c.name = s.name.clone();
    c.generics = s.generics.clone();
    c.where_ = s.where_.clone();
    c.pattern = Some(s.pat());
    c.build = s.build.clone();
    c.build.vis = VisC::of(Some(s.build_vis()));
    c.default = plain_def(&s.default);
    let p = parse(&c.expand());
    let n = s.build_name();
    let (mut a, mut b) = (o.need_fn(&n).clone(), p.need_fn(&n).clone());
    let t = s.ident.to_string();
    a.body = without_literal(&a.body, &t);
    b.body = without_literal(&b.body, &t);
    reach(cid);
    check(a == b, cid + 1);
}

/// `part` replaced by `by` in every identifier and literal.
pub fn renamed(ts: &[T], part: &str, by: &str) -> Vec<T> {
    let sub = |s: &String| -> String {
        let mut r = String::new();
        let mut rest = &s[..];
        while let Some(i) = rest.find(part) {
            r.push_str(&rest[..i]);
            r.push_str(by);
            rest = &rest[i + part.len()..];
        }
        r.push_str(rest);
        r
    };
    ts.iter()
        .map(|t| match t {
            I(s) => I(sub(s)),
            L(s) => L(sub(s)),
            P(c) => P(*c),
            G(d, v) => G(*d, renamed(v, part, by)),
        })
        .collect()
}
/// A fully symbolic identifier of `n` characters, keywords and a lone `_` excluded.
pub fn any_ident(n: usize) -> String {
    ident_of(n, false)
}
/// Like `any_ident`, of lower-case letters only (much cheaper where it goes through a string literal).
pub fn letters_ident(n: usize) -> String {
    ident_of(n, true)
}
fn ident_of(n: usize, letters: bool) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        let c = sym_char("identifier", letters);
        if i == 0 && !letters {
            assume(!(c >= b'0' && c <= b'9'));
        }
        v.push(c);
    }
    if n == 1 && !letters {
        assume(v[0] != b'_');
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    for k in KEYWORDS {
        if k.len() == n {
            let mut d = 0u8;
            for (x, y) in s.bytes().zip(k.bytes()) {
                d |= x ^ y;
            }
            assume(d != 0);
        }
    }
    s
}
const KEYWORDS: &[&str] = &[
    "as", "do", "fn", "if", "in", "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "box", "gen", "else", "enum", "impl", "loop", "move",
    "self", "Self", "true", "type", "priv", "async", "await", "break", "const", "crate", "false", "match", "super", "trait", "where", "while",
    "final", "macro", "yield", "become", "extern", "return", "static", "struct", "typeof", "unsafe", "unsized", "virtual", "abstract", "continue",
    "override",
];
