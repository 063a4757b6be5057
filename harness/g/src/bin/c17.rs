#![allow(warnings)]
//! C17: attributes are forwarded to exactly the documented places.
use g::*;

/// Where one written attribute must show up.
#[derive(Clone, Copy, PartialEq)]
enum To {
    Both,
    First,
    Second,
    Nowhere,
}
/// One attribute as written, what is copied, and where to.
struct A {
    written: TokenStream,
    copied: Vec<T>,
    to: To,
}
fn same(a: &str, b: &str) -> bool {
    let mut d = 0u8;
    for (x, y) in a.bytes().zip(b.bytes()) {
        d |= x ^ y;
    }
    a.len() == b.len() && d == 0
}
/// A fully symbolic name of n letters that can be parsed as an attribute name.
fn name(n: usize) -> String {
    let s = sym_name("name", "", n);
    for k in KEYWORDS {
        if k.len() == n {
            assume(!same(&s, k));
        }
    }
    s
}
const KEYWORDS: &[&str] = &[
    "dyn", "for", "let", "mod", "mut", "pub", "ref", "try", "use", "box", "gen", "async", "await", "break", "const", "crate", "false", "match",
    "super", "trait", "where", "while", "final", "macro", "yield",
];
fn body(k: usize) -> TokenStream {
    match k {
        0 => quote!((x = "y", z)),
        1 => quote!(= "text"),
        _ => quote!(),
    }
}
fn lit(s: &str, b: TokenStream) -> TokenStream {
    let i = id(s);
    quote!(#i #b)
}
/// `first`/`second`: names of the two places that have an unwrapping attribute.
fn attr(i: usize, field: bool, kinds: usize) -> A {
    let (first, second) = if field { ("builder_field_attr", "builder_setter_attr") } else { ("builder_struct_attr", "builder_impl_attr") };
    let n = i as u32;
    let tag = id(["t0", "t1", "t2"][i]);
    match choice("kind", kinds) {
        0 => {
            let a = quote!(allow(#tag));
            A { copied: flat(a.clone()), written: a, to: To::Both }
        }
        1 => {
            let c = quote!(#tag(inner));
            A { copied: flat(c.clone()), written: lit(first, quote!((#c))), to: To::First }
        }
        2 => {
            let c = quote!(#tag = "v");
            A { copied: flat(c.clone()), written: lit(second, quote!((#c))), to: To::Second }
        }
        3 => {
            // the unwrapped attribute may itself be one that is forwarded by name
            let c = quote!(cfg(#tag));
            A { copied: flat(c.clone()), written: lit(first, quote!((#c))), to: To::First }
        }
        4 => {
            let a = quote!(doc = "text");
            let t = if field { To::Both } else { To::Nowhere };
            A { copied: flat(a.clone()), written: a, to: t }
        }
        5 => {
            let a = quote!(cfg(#tag));
            A { copied: flat(a.clone()), written: a, to: To::Both }
        }
        6 => {
            let a = if field { quote!(builder_struct_attr(#tag)) } else { quote!(builder_field_attr(#tag)) };
            A { copied: flat(a.clone()), written: a, to: To::Nowhere }
        }
        7 => {
            let a = quote!(other::#tag(1));
            A { copied: flat(a.clone()), written: a, to: To::Nowhere }
        }
        8 => {
            let a = quote!(x::allow(#tag));
            A { copied: flat(a.clone()), written: a, to: To::Nowhere }
        }
        k => {
            // an arbitrary name of three or five letters
            let s = name(if k == 9 { 3 } else { 5 });
            let is = same(&s, "cfg") || same(&s, "allow") || (field && same(&s, "doc"));
            let a = lit(&s, body(choice("form", 3)));
            A { copied: flat(a.clone()), written: a, to: if is { To::Both } else { To::Nowhere } }
        }
    }
}
const ALL: usize = 11;
/// `got` must be `base` with `extra` put in somewhere, both in order.
fn check_attrs(got: &[Vec<T>], base: &[Vec<T>], extra: &[Vec<T>], cid: u32) {
    check(got.len() == base.len() + extra.len(), cid);
    // both orders are checked independently; the attributes are all different
    // unless written twice, in which case counting settles it
    let mut i = 0;
    for b in base {
        while i < got.len() && got[i] != *b {
            i += 1;
        }
        check(i < got.len(), cid + 1);
        i += 1;
    }
    i = 0;
    for b in extra {
        while i < got.len() && got[i] != *b {
            i += 1;
        }
        check(i < got.len(), cid + 2);
        i += 1;
    }
}
fn split(v: &[A], first: bool) -> Vec<Vec<T>> {
    v.iter().filter(|a| a.to == To::Both || a.to == (if first { To::First } else { To::Second })).map(|a| a.copied.clone()).collect()
}
fn attrs(v: &[A]) -> Vec<TokenStream> {
    v.iter()
        .map(|a| {
            let w = &a.written;
            quote!(#[#w])
        })
        .collect()
}
fn fields(n: usize, kinds: usize) {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("before"), quote!(u8))]);
    let mut f = FieldC::new(id("field"), quote!(Vec<u8>));
    f.try_setter = true;
    f.setter.each = Some((id("push_it"), None));
    match choice("slot", 3) {
        1 => f.setter.skip = Some(true),
        2 => f.setter.custom = Some(true),
        _ => {}
    }
    s.fields.push(f);
    s.fields.push(FieldC::new(id("after"), quote!(u8)));
    let base = parse(&s.expand());
    let v: Vec<A> = (0..n).map(|i| attr(i, true, kinds)).collect();
    s.fields[1].attrs = attrs(&v);
    let o = parse(&s.expand());
    reach(1);
    check(o.errors() == 0, 1);
    check_attrs(&o.field("field").attrs, &base.field("field").attrs, &split(&v, true), 2);
    for m in ["field", "try_field", "push_it"] {
        let (a, b) = (o.get_fn(m), base.get_fn(m));
        check(a.is_some() == b.is_some(), 5);
        if let (Some(a), Some(b)) = (a, b) {
            reach(2);
            check_attrs(&a.attrs, &b.attrs, &split(&v, false), 6);
        }
    }
    // nothing else changes
    let strip = |o: &Out| -> Out {
        let mut o = o.clone();
        for i in &mut o.items {
            match &mut i.kind {
                Kind::Struct { fields } => {
                    for f in fields.iter_mut().filter(|f| f.name == "field") {
                        f.attrs.clear();
                    }
                }
                Kind::Impl { trait_: None, fns } => {
                    for f in fns.iter_mut().filter(|f| f.name == "field" || f.name == "try_field" || f.name == "push_it") {
                        f.attrs.clear();
                    }
                }
                _ => {}
            }
        }
        o
    };
    check(strip(&o) == strip(&base), 9);
}
fn structs(n: usize, kinds: usize) {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("field"), quote!(u8))]);
    if flag("derive") {
        s.derive = vec![quote!(Debug)];
    }
    let base = parse(&s.expand());
    let v: Vec<A> = (0..n).map(|i| attr(i, false, kinds)).collect();
    s.attrs = attrs(&v);
    let o = parse(&s.expand());
    reach(3);
    check(o.errors() == 0, 20);
    check_attrs(&o.builder().attrs, &base.builder().attrs, &split(&v, true), 21);
    check_attrs(&o.inherent().attrs, &base.inherent().attrs, &split(&v, false), 24);
    let strip = |o: &Out| -> Out {
        let mut o = o.clone();
        for i in &mut o.items {
            if matches!(i.kind, Kind::Struct { .. } | Kind::Impl { trait_: None, .. }) {
                i.attrs.clear();
            }
        }
        o
    };
    check(strip(&o) == strip(&base), 27);
}
/// Attributes around the builder attribute, on several fields at once.
fn spread() {
    let mut s = StructC::new(id("Target"), vec![]);
    let a: Vec<A> = vec![attr(0, true, 5)];
    let b: Vec<A> = vec![attr(1, true, 5)];
    let mut f = FieldC::new(id("field"), quote!(u8));
    f.attrs = attrs(&a);
    let mut g = FieldC::new(id("other"), quote!(u8));
    g.attrs = attrs(&b);
    if flag("builder attribute in between") {
        f.setter.into = Some(true);
    }
    s.fields = vec![f, g];
    let c: Vec<A> = vec![attr(2, false, 5)];
    s.attrs = attrs(&c);
    let o = parse(&s.expand());
    let mut t = s.clone();
    t.attrs.clear();
    t.fields[0].attrs.clear();
    t.fields[1].attrs.clear();
    let base = parse(&t.expand());
    reach(4);
    for (n, v) in [("field", &a), ("other", &b)] {
        check_attrs(&o.field(n).attrs, &base.field(n).attrs, &split(v, true), 30);
        check_attrs(&o.need_fn(n).attrs, &base.need_fn(n).attrs, &split(v, false), 33);
    }
    check_attrs(&o.builder().attrs, &base.builder().attrs, &split(&c, true), 36);
    check_attrs(&o.inherent().attrs, &base.inherent().attrs, &split(&c, false), 39);
}
/// The four unwrapping attributes with symbolic contents, alone on a struct or field.
fn contents() {
    let n = sym_id("name", "a_", 3);
    let l = sym_name("literal", "", 3);
    let inner = match choice("contents", 5) {
        0 => quote!(#n),
        1 => quote!(#n = #l),
        2 => quote!(#n(#l, #n(x, y = 1))),
        3 => quote!(p::#n::q(#l)),
        _ => quote!(#n = 1u8),
    };
    let k = choice("attribute", 4);
    let a = lit(["builder_field_attr", "builder_setter_attr", "builder_struct_attr", "builder_impl_attr"][k], quote!((#inner)));
    let (s, f) = if k < 2 { (quote!(), quote!(#[#a])) } else { (quote!(#[#a]), quote!()) };
    let o = parse(&flat(expand(quote!(#s struct Target { #f field: u8 }))));
    reach(5);
    check(o.errors() == 0, 50);
    let want = flat(inner);
    let has = |v: &Vec<Vec<T>>| v.iter().any(|x| *x == want);
    check(has(&o.field("field").attrs) == (k == 0), 51);
    check(has(&o.need_fn("field").attrs) == (k == 1), 52);
    check(has(&o.builder().attrs) == (k == 2), 53);
    check(has(&o.inherent().attrs) == (k == 3), 54);
}
/// The same attributes next to every pair of options: they go where they go, and change nothing else.
fn company() {
    let s = pair(kind());
    let base = parse(&s.expand());
    let mut t = s.clone();
    let mark = |w: &str, n: usize| -> TokenStream {
        let (a, b) = (id(w), id(["m0", "m1", "m2"][n]));
        quote!(#a(#b))
    };
    let doc = quote!(doc = "text");
    for (i, f) in t.fields.iter_mut().enumerate() {
        let (c, a, o) = (mark("cfg", i), mark("allow", i), mark("other", i));
        let (x, y) = (mark("first", i), mark("second", i));
        f.attrs = vec![quote!(#[#doc]), quote!(#[builder_setter_attr(#y)]), quote!(#[#c]), quote!(#[#o]), quote!(#[builder_field_attr(#x)]), quote!(#[#a])];
    }
    let (c, a, o) = (mark("cfg", 0), mark("allow", 0), mark("other", 0));
    let (x, y) = (mark("first", 0), mark("second", 0));
    t.attrs = vec![quote!(#[builder_impl_attr(#y)]), quote!(#[#doc]), quote!(#[#a]), quote!(#[#o]), quote!(#[builder_struct_attr(#x)]), quote!(#[#c])];
    let o = parse(&t.expand());
    reach(6);
    check(o.errors() == 0, 60);
    for (i, f) in s.fields.iter().enumerate() {
        let (c, a, x, y, d) = (flat(mark("cfg", i)), flat(mark("allow", i)), flat(mark("first", i)), flat(mark("second", i)), flat(doc.clone()));
        let n = f.ident.to_string();
        check_attrs(&o.field(&n).attrs, &base.field(&n).attrs, &[d.clone(), c.clone(), x, a.clone()], 61);
        let mut fns = vec![];
        if s.has_setter(f) {
            fns.push(s.setter_name(f));
            if s.has_try(f) {
                fns.push(s.try_name(f));
            }
            fns.extend(each_name(f));
        }
        for m in &fns {
            reach(7);
            check_attrs(&o.need_fn(m).attrs, &base.need_fn(m).attrs, &[d.clone(), y.clone(), c.clone(), a.clone()], 64);
        }
    }
    let (c, a, x, y) = (flat(mark("cfg", 0)), flat(mark("allow", 0)), flat(mark("first", 0)), flat(mark("second", 0)));
    check_attrs(&o.builder().attrs, &base.builder().attrs, &[a.clone(), x, c.clone()], 67);
    check_attrs(&o.inherent().attrs, &base.inherent().attrs, &[y, a, c], 70);
    // nothing else changes
    let strip = |o: &Out| -> Out {
        let mut o = o.clone();
        for i in &mut o.items {
            match &mut i.kind {
                Kind::Struct { fields } => {
                    i.attrs.clear();
                    for f in fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                Kind::Impl { trait_: None, fns } => {
                    i.attrs.clear();
                    let keep = [s.build_name(), s.empty_name()];
                    for f in fns.iter_mut().filter(|f| !keep.contains(&f.name)) {
                        f.attrs.clear();
                    }
                }
                _ => {}
            }
        }
        o
    };
    check(strip(&o) == strip(&base), 73);
}
symrt::harness! {
    h_company => company();
    h_field1 => fields(1, ALL);
    h_field2 => fields(2, 7);
    h_struct1 => structs(1, ALL);
    h_struct2 => structs(2, 7);
    h_spread => spread();
    h_contents => contents();
    h_field2_deep => fields(2, ALL);
    h_field3_deep => fields(3, 7);
    h_struct2_deep => structs(2, ALL);
    h_struct3_deep => structs(3, 7);
}
