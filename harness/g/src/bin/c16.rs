#![allow(warnings)]
//! C16: strip_option recognises exactly the documented spellings of Option.
use g::*;

fn pos(t: &[T], p: char) -> bool {
    t.len() == 1 && t[0].p(p)
}
/// A symbolic identifier of exactly `n` characters that is not a keyword.
fn seg(name: &str, n: usize) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(sym_char(name, i == 0 && n < 6));
    }
    if n == 6 {
        // the first character of `Option` is upper case
        v[0] = sym_char(name, false);
        assume(!(v[0] >= b'0' && v[0] <= b'9'));
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    for k in KEYWORDS {
        if k.len() == n {
            assume(!same(&s, k));
        }
    }
    s
}
const KEYWORDS: &[&str] = &[
    "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "box", "gen", "raw", "else", "enum", "impl", "loop", "move", "self", "Self",
    "true", "type", "priv", "async", "await", "break", "const", "crate", "false", "match", "super", "trait", "where", "while", "final", "macro",
    "yield", "extern", "return", "static", "struct", "unsafe", "become", "unsized", "typeof", "do", "as", "fn", "if", "in",
];
/// Equality without branching on the bytes.
fn same(a: &str, b: &str) -> bool {
    let mut d = 0u8;
    for (x, y) in a.bytes().zip(b.bytes()) {
        d |= x ^ y;
    }
    a.len() == b.len() && d == 0
}
fn inner(k: usize) -> TokenStream {
    match k {
        0 => quote!(u8),
        1 => quote!(Option<u8>),
        2 => quote!(Vec<Option<(u8, A)>>),
        3 => quote!(&'static str),
        4 => quote!(fn(u8) -> Option<u16>),
        5 => quote!([u8; 3]),
        6 => quote!(Box<dyn Fn(u8) -> u8 + Send>),
        7 => quote!(<A as B>::C),
        _ => quote!((u8, Option<u8>)),
    }
}
const INNERS: usize = 9;
/// Expand a struct with one field of type `ty`; the setter's argument type.
fn arg(ty: &TokenStream, into: bool, custom: bool) -> Vec<T> {
    let mut f = FieldC::new(id("field"), if custom { quote!(u64) } else { ty.clone() });
    if custom {
        f.fty = Some(ty.clone());
    }
    f.setter.strip = Some(true);
    f.setter.into = Some(into);
    f.try_setter = true;
    let mut s = StructC::new(id("Target"), vec![f]);
    let o = parse(&s.expand());
    check(o.errors() == 0, 1);
    let m = o.need_fn("field");
    let t = o.need_fn("try_field");
    let strip = |g: &[T], b: TokenStream| -> Vec<T> {
        let b = core(&s, b);
        // `<G: bound<TY>>`
        check(g.len() > b.len() + 6, 2);
        let i = 3 + b.len() + 1;
        g[i..g.len() - 2].to_vec()
    };
    let tt = strip(&t.generics, quote!(convert::TryInto));
    let a = if into { strip(&m.generics, quote!(convert::Into)) } else { arg_ty(&m.inputs[1]).to_vec() };
    check(a == tt, 3);
    a
}
/// Paths of up to three segments with symbolic names of the given lengths.
fn paths(lens: &[usize], k: usize) {
    let lead = flag("leading ::");
    let n: Vec<String> = lens.iter().enumerate().map(|(i, n)| seg(["a", "b", "c"][i], *n)).collect();
    let ids: Vec<Ident> = n.iter().map(|s| id(s)).collect();
    let t = inner(k);
    let p = if lead { quote!(::#(#ids)::*) } else { quote!(#(#ids)::*) };
    let ty = quote!(#p<#t>);
    // `::Option` is not one of the documented spellings, but the documentation
    // allows a leading `::` on each of them
    let is = match lens.len() {
        1 => same(&n[0], "Option"),
        3 => (same(&n[0], "std") || same(&n[0], "core")) && same(&n[1], "option") && same(&n[2], "Option"),
        _ => false,
    };
    let got = arg(&ty, false, false);
    reach(1);
    if is {
        reach(2);
        check(got == flat(t), 10);
    } else {
        check(got == flat(ty), 11);
    }
}
fn three() {
    let a = 3 + choice("len a", 2);
    paths(&[a, 6, 6], 0);
}
fn one() {
    paths(&[[6, 5, 3][choice("len", 3)]], 0);
}
fn two() {
    let a = [3, 4, 6][choice("len a", 3)];
    paths(&[a, 6], 0);
}
/// Every shape of T inside each spelling, in every kind of setter.
fn inners() {
    let t = inner(choice("inner", INNERS));
    let args = match choice("arguments", 3) {
        0 => quote!(<#t>),
        1 => quote!(::<#t>),
        _ => quote!(<#t,>),
    };
    let ty = match choice("spelling", 6) {
        0 => quote!(Option #args),
        1 => quote!(::Option #args),
        2 => quote!(std::option::Option #args),
        3 => quote!(::std::option::Option #args),
        4 => quote!(core::option::Option #args),
        _ => quote!(::core::option::Option #args),
    };
    let got = arg(&ty, flag("into"), flag("custom builder type"));
    reach(3);
    check(got == flat(t), 20);
}
/// Types that mention Option but are none of the spellings.
fn others() {
    let ty = match choice("type", 20) {
        0 => quote!(option::Option<u8>),
        1 => quote!(my::option::Option<u8>),
        2 => quote!(a::std::option::Option<u8>),
        3 => quote!(std::Option<u8>),
        4 => quote!(core::Option<u8>),
        5 => quote!(<Option<u8> as A>::B),
        6 => quote!(<A as std::option>::Option<u8>),
        7 => quote!(&'static Option<u8>),
        8 => quote!((Option<u8>,)),
        9 => quote!([Option<u8>; 2]),
        10 => quote!(Vec<Option<u8>>),
        11 => quote!(Optional<u8>),
        12 => quote!(r#Option2<u8>),
        13 => quote!(Option::Option<u8>),
        14 => quote!(std::option::option::Option<u8>),
        15 => quote!(fn() -> Option<u8>),
        16 => quote!(Box<dyn Fn() -> Option<u8>>),
        17 => quote!(self::Option<u8>),
        18 => quote!(Option::Inner),
        _ => quote!(Option),
    };
    let got = arg(&ty, flag("into"), flag("custom builder type"));
    reach(4);
    check(got == flat(ty), 30);
}
/// Without strip_option nothing is ever stripped.
fn off() {
    let ty = match choice("spelling", 3) {
        0 => quote!(Option<u8>),
        1 => quote!(::std::option::Option<u8>),
        _ => quote!(core::option::Option<u8>),
    };
    let mut f = FieldC::new(id("field"), ty.clone());
    f.setter.strip = [None, Some(false)][choice("field", 2)];
    f.try_setter = true;
    let mut s = StructC::new(id("Target"), vec![f.clone()]);
    s.setter.strip = tri("struct");
    s.fields = vec![f.clone()];
    assume(!s.strip(&f));
    let o = parse(&s.expand());
    reach(5);
    check(arg_ty(&o.need_fn("field").inputs[1]) == &flat(ty.clone())[..], 40);
    model(&s, &o, &f, Some(&quote!(u8)), 50);
}
symrt::harness! {
    h_one => one();
    h_two => two();
    h_three => three();
    h_inners => inners();
    h_others => others();
    h_off => off();
    h_three_inner_deep => paths(&[3 + choice("len a", 2), 6, 6], choice("inner", INNERS));
}
