#![allow(warnings)]
//! C22: generics and Clone requirements are propagated correctly.
use g::*;
use T::*;

/// One generic parameter: declaration, name, whether it is a type, lifetime or const.
#[derive(Clone)]
struct Param {
    name: Vec<T>,
    bounds: Vec<T>,
    kind: u8,
    decl: TokenStream,
    use_: TokenStream,
    default: bool,
}
fn param(i: usize, kinds: usize) -> Param {
    let n = sym_name(["p0", "p1", "p2"][i], ["P", "Q", "R"][i], 1);
    let t = id(&n);
    let l = syn::Lifetime::new(&["'", ["a", "b", "c"][i]].concat(), Span::call_site());
    let none = vec![];
    let (kind, bounds, decl, default) = match choice("parameter", kinds) {
        0 => (0, none, quote!(#t), false),
        1 => (0, toks!(Copy + Into<u8>), quote!(#t: Copy + Into<u8>), false),
        2 => (1, none, quote!(#l), false),
        3 => (2, none, quote!(const #t: usize), false),
        4 => (0, toks!(?Sized), quote!(#t: ?Sized), false),
        5 => (0, toks!(my::Trait<Item = Vec<u8>>), quote!(#t: my::Trait<Item = Vec<u8>>), false),
        6 => (0, none, quote!(#t:), false),
        7 => (1, toks!('static), quote!(#l: 'static), false),
        8 => (0, toks!(for<'x> Fn(&'x u8) -> u8), quote!(#t: for<'x> Fn(&'x u8) -> u8), false),
        _ => (0, toks!('static), quote!(#t: 'static), false),
    };
    let (name, use_) = if kind == 1 { (flat(quote!(#l)), quote!(#l)) } else { (vec![I(n)], quote!(#t)) };
    Param { name, bounds, kind, decl, use_, default }
}
const KINDS: usize = 10;
/// Split `<a, b>` into parameters.
fn split(g: &[T]) -> Vec<Vec<T>> {
    if g.is_empty() {
        return vec![];
    }
    check(g[0].p('<') && g[g.len() - 1].p('>'), 1);
    commas(&g[1..g.len() - 1])
}
/// Name, bounds in order, of one parameter as generated (`const` dropped).
fn parts(p: &[T]) -> (Vec<T>, Vec<Vec<T>>, bool) {
    let (p, c) = if p[0].is("const") { (&p[1..], true) } else { (p, false) };
    let at = p.iter().position(|t| t.p(':') );
    let p = match p.iter().position(|t| t.p('=')) {
        // a default: not inside angle brackets
        Some(e) if !p[..e].iter().any(|t| t.p('<')) => &p[..e],
        _ => p,
    };
    match at {
        None => (p.to_vec(), vec![], c),
        Some(i) => {
            let mut v = Vec::new();
            let mut cur = Vec::new();
            let mut d = 0i32;
            for (k, t) in p[i + 1..].iter().enumerate() {
                if d == 0 && t.p('+') {
                    v.push(std::mem::take(&mut cur));
                    continue;
                }
                if t.p('<') {
                    d += 1;
                }
                if t.p('>') && !(k > 0 && p[i + k].p('-')) {
                    d -= 1;
                }
                cur.push(t.clone());
            }
            if !cur.is_empty() {
                v.push(cur);
            }
            (p[..i].to_vec(), v, c)
        }
    }
}
fn plus(b: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![T::I(String::from("X")), P(':')];
    v.extend_from_slice(b);
    parts(&v).1
}
/// The generics of a generated item: the parameters in order, each with its own
/// bounds and (for type parameters, when asked) one more Clone bound.
fn same(g: &[T], ps: &[Param], clone: Option<&Vec<T>>, cid: u32) {
    let v = split(g);
    check(v.len() == ps.len(), cid);
    for (x, p) in v.iter().zip(ps) {
        let (n, mut b, c) = parts(x);
        check(n == p.name && c == (p.kind == 2), cid + 1);
        if p.kind == 2 {
            check(b == vec![toks!(usize)], cid + 2);
            continue;
        }
        if let (Some(cl), 0) = (clone, p.kind) {
            // exactly one Clone bound more, wherever it stands
            match b.iter().position(|y| y == cl) {
                Some(i) => {
                    b.remove(i);
                }
                None => check(false, cid + 3),
            }
        }
        check(b == plus(&p.bounds), cid + 4);
    }
}
/// `Name<'a, T, N>` as used after the item's name.
fn uses(t: &[T], ps: &[Param], cid: u32) {
    let v = split(t);
    check(v.len() == ps.len(), cid);
    for (x, p) in v.iter().zip(ps) {
        check(*x == p.name, cid);
    }
}
fn where_(k: usize) -> TokenStream {
    match k {
        0 => quote!(),
        1 => quote!(where u8: Into<u16>),
        2 => quote!(where Vec<u8>: Clone + Send, for<'x> &'x u8: Copy,),
        _ => quote!(where),
    }
}
fn build(ps: &[Param], w: usize) -> StructC {
    let d: Vec<TokenStream> = ps.iter().map(|p| p.decl.clone()).collect();
    let mut fields = vec![FieldC::new(id("plain"), quote!(u8))];
    for (i, p) in ps.iter().enumerate() {
        let u = &p.use_;
        let ty = match p.kind {
            0 => quote!(Box<#u>),
            1 => quote!(&#u u8),
            _ => quote!([u8; #u]),
        };
        fields.push(FieldC::new(id(["f0", "f1", "f2"][i]), ty));
    }
    let mut s = StructC::new(id("Target"), fields);
    if !ps.is_empty() {
        s.generics = quote!(<#(#d),*>);
    }
    s.where_ = where_(w);
    s
}
fn where_toks(w: usize) -> Vec<T> {
    let mut v = flat(where_(w));
    if !v.is_empty() {
        v.remove(0);
    }
    if v.last().map_or(false, |t| t.p(',')) {
        v.pop();
    }
    v
}
fn decide(s: &StructC, ps: &[Param], w: usize) {
    let o = parse(&s.expand());
    reach(1);
    check(o.errors() == 0, 2);
    let clone = core(s, quote!(clone::Clone));
    let need = if s.pat().clone() { Some(&clone) } else { None };
    let wt = where_toks(w);
    // the struct: unchanged generics
    let b = o.builder();
    same(&b.generics, ps, None, 10);
    check(b.where_ == wt, 3);
    // impls of the builder: the extra Clone bound, unless the builder is owned
    let mut n = 0;
    for i in &o.items {
        if let Kind::Impl { trait_, fns } = &i.kind {
            if i.name[0] == b.name[0] {
                n += 1;
                same(&i.generics, ps, need, 20);
                uses(&i.name[1..], ps, 30);
                check(i.where_ == wt, 4);
            } else {
                // the error type has no generics
                check(i.generics.is_empty() && i.where_.is_empty() && i.name.len() == 1, 5);
            }
        }
    }
    check(n == if s.custom_ctor { 1 } else { 2 }, 6);
    for e in o.enums() {
        check(e.generics.is_empty() && e.where_.is_empty(), 7);
    }
    // the build method returns the target with its own parameters
    if !s.build.skip {
        let m = o.need_fn(&s.build_name());
        let at = match m.ret.iter().position(|t| t.is("Target")) {
            Some(i) => i,
            None => fail("build does not return the target"),
        };
        let mut e = at + 1;
        let mut d = 0;
        while e < m.ret.len() {
            if m.ret[e].p('<') {
                d += 1;
            }
            if m.ret[e].p('>') {
                d -= 1;
            }
            if d == 0 {
                break;
            }
            e += 1;
        }
        let g = if e < m.ret.len() && m.ret[e].p('>') && e > at + 1 { &m.ret[at + 1..e + 1] } else { &[] };
        uses(g, ps, 31);
    }
    derives(s, &o);
}
/// The traits derived on the builder.
fn derives(s: &StructC, o: &Out) {
    let mut got: Vec<Vec<T>> = Vec::new();
    for a in &o.builder().attrs {
        if attr_is(a, "derive") {
            if let Some(G(_, inner)) = a.get(1) {
                got.extend(commas(inner));
            }
        }
    }
    let asked: Vec<Vec<T>> = s.derive.iter().map(|d| flat(d.clone())).collect();
    let clone = toks!(Clone);
    let is_clone = |d: &Vec<T>| last_segment(d) == Some("Clone");
    let n = got.iter().filter(|d| is_clone(d)).count();
    let by_user = asked.iter().filter(|d| is_clone(d)).count();
    check(n == by_user + s.must_clone() as usize, 8);
    let rest: Vec<Vec<T>> = got.iter().filter(|d| !is_clone(d)).cloned().collect();
    check(rest == asked.iter().filter(|d| !is_clone(d)).cloned().collect::<Vec<_>>(), 9);
}
fn generics(n: usize, kinds: usize, whole: bool) {
    let n = choice("parameters", n + 1);
    let ps: Vec<Param> = (0..n).map(|i| param(i, kinds)).collect();
    // lifetimes come first in valid Rust
    for i in 1..n {
        assume(!(ps[i].kind == 1 && ps[i - 1].kind != 1));
    }
    let w = if whole { choice("where", 4) } else { n % 3 };
    let mut s = build(&ps, w);
    s.pattern = opt_pat("pattern");
    if whole {
        s.custom_ctor = flag("custom constructor");
        match choice("field pattern", 4) {
            0 => {}
            k => s.fields[0].pattern = Some(PATS[k - 1]),
        }
    }
    decide(&s, &ps, w);
}
fn defaults() {
    // defaults of parameters stay on the struct and are not repeated on impls
    let n = sym_id("type", "P", 2);
    let mut s = build(&[], 0);
    s.generics = quote!(<#n: Copy = u8, const N: usize = 3>);
    s.fields.push(FieldC::new(id("generic"), quote!([#n; N])));
    s.pattern = opt_pat("pattern");
    let ps = [
        Param { name: vec![I(n.to_string())], bounds: toks!(Copy), kind: 0, decl: quote!(), use_: quote!(), default: true },
        Param { name: toks!(N), bounds: vec![], kind: 2, decl: quote!(), use_: quote!(), default: true },
    ];
    let o = parse(&s.expand());
    reach(2);
    let clone = core(&s, quote!(clone::Clone));
    let need = if s.pat().clone() { Some(&clone) } else { None };
    check(o.builder().generics == flat(s.generics.clone()), 40);
    for i in &o.items {
        if let Kind::Impl { .. } = &i.kind {
            if i.name[0] == o.builder().name[0] {
                check(!i.generics.iter().any(|t| t.p('=')), 41);
                let v = split(&i.generics);
                check(v.len() == 2 && parts(&v[0]).0 == ps[0].name && parts(&v[1]).0 == ps[1].name, 42);
                let b = parts(&v[0]).1;
                check(b.len() == if need.is_some() { 2 } else { 1 }, 43);
                check(b.iter().filter(|x| Some(*x) == need).count() == need.is_some() as usize, 44);
            }
        }
    }
}
/// Clone is derived exactly when some pattern needs it, next to requested derives in order.
fn clone_derive(n: usize) {
    let mut s = StructC::new(id("Target"), vec![]);
    s.pattern = opt_pat("pattern");
    for i in 0..n {
        let mut f = FieldC::new(id(["a", "b", "c"][i]), quote!(u8));
        f.pattern = opt_pat("field pattern");
        match choice("setter", 3) {
            1 => f.setter.skip = Some(true),
            2 => f.setter.custom = Some(true),
            _ => {}
        }
        s.fields.push(f);
    }
    let d = sym_id("derive", "D", 2);
    s.derive = match choice("derive", 5) {
        0 => vec![],
        1 => vec![quote!(Debug)],
        2 => vec![quote!(#d), quote!(Debug), quote!(my::#d)],
        3 => vec![quote!(PartialEq), quote!(Debug)],
        _ => vec![quote!(::a::b::C)],
    };
    let o = parse(&s.expand());
    reach(3);
    check(o.errors() == 0, 50);
    derives(&s, &o);
}
/// Next to all pairs of options.
fn company() {
    let mut s = pair(kind());
    let p = |decl: TokenStream, use_: TokenStream, name: Vec<T>, bounds: Vec<T>, kind: u8| Param { name, bounds, kind, decl, use_, default: false };
    let ps = [
        p(quote!('a), quote!('a), toks!('a), vec![], 1),
        p(quote!(P: Copy + Into<u8>), quote!(P), toks!(P), toks!(Copy + Into<u8>), 0),
        p(quote!(Q: ?Sized), quote!(Q), toks!(Q), toks!(?Sized), 0),
        p(quote!(const N: usize), quote!(N), toks!(N), vec![], 2),
    ];
    s.generics = quote!(<'a, P: Copy + Into<u8>, Q: ?Sized, const N: usize>);
    s.where_ = where_(2);
    s.fields[0].ty = quote!(&'a [P; N]);
    s.fields[2].ty = quote!(Box<Q>);
    decide(&s, &ps, 2);
}
symrt::harness! {
    h_company => company();
    h_generics => generics(2, 6, false);
    h_single => generics(1, KINDS, true);
    h_defaults => defaults();
    h_clone => clone_derive(2);
    h_generics_deep => generics(3, 6, false);
    h_pairs_deep => generics(2, KINDS, true);
    h_clone_deep => clone_derive(3);
}
