#![allow(warnings)]
//! C19: the derive never panics. (A panic anywhere on a path is reported by the
//! engine as a violation; natively it aborts the replay.)
use g::*;

/// Either a builder or compile errors and nothing else.
fn decide(item: TokenStream) {
    let ts = flat(expand_valid(item));
    let o = parse(&ts);
    reach(1);
    if o.errors() > 0 {
        reach(2);
        check(o.errors() == o.items.len(), 1);
    } else {
        reach(3);
        check(o.structs().len() == 1, 2);
    }
}
fn place(level: usize, o: TokenStream) -> TokenStream {
    let (s, f) = match level {
        0 => (quote!(#[builder(#o)]), quote!()),
        1 => (quote!(), quote!(#[builder(#o)])),
        2 => (quote!(#[builder(setter(#o))]), quote!()),
        3 => (quote!(), quote!(#[builder(setter(#o))])),
        4 => (quote!(#[builder(field(#o))]), quote!()),
        5 => (quote!(), quote!(#[builder(field(#o))])),
        6 => (quote!(), quote!(#[builder(setter(each(#o)))])),
        7 => (quote!(#[builder(build_fn(#o))]), quote!()),
        8 => (quote!(#[builder(build_fn(error(#o)))]), quote!()),
        9 => (quote!(#[builder(derive(#o))]), quote!()),
        10 => (quote!(#[builder_struct_attr(#o)]), quote!()),
        11 => (quote!(#[builder_impl_attr(#o)]), quote!()),
        12 => (quote!(), quote!(#[builder_field_attr(#o)])),
        13 => (quote!(), quote!(#[builder_setter_attr(#o)])),
        14 => (quote!(#[builder = #o]), quote!()),
        _ => (quote!(), quote!(#[builder = #o])),
    };
    quote!(#s struct Target { #f field: Vec<u8>, other: u8 })
}
/// One token (or small group) out of everything an attribute may contain.
fn token(level: usize, k: usize) -> TokenStream {
    let keys: [&str; 4] = match level {
        0 => ["pattern", "setter", "default", "build_fn"],
        1 => ["pattern", "setter", "default", "field"],
        2 | 3 => ["prefix", "skip", "each", "strip_option"],
        4 | 5 => ["public", "vis", "ty", "build"],
        6 => ["name", "into", "skip", "each"],
        7 => ["skip", "name", "validate", "error"],
        8 => ["validation_error", "name", "skip", "x"],
        _ => ["doc", "cfg", "a", "crate"],
    };
    match k {
        0..=3 => {
            let i = id(keys[k]);
            quote!(#i)
        }
        4 => quote!(=),
        5 => quote!(,),
        6 => quote!("owned"),
        7 => quote!("not an ident"),
        8 => quote!(true),
        9 => quote!(1),
        10 => quote!((skip)),
        11 => quote!(()),
        12 => quote!(::),
        13 => quote!([a]),
        14 => quote!({}),
        15 => quote!(r#type),
        16 => quote!(""),
        17 => quote!(#),
        18 => quote!(-),
        _ => quote!(<),
    }
}
const TOKENS: usize = 20;
fn soup(n: usize, levels: usize) {
    let level = choice("level", levels);
    let n = choice("length", n + 1);
    let v: Vec<TokenStream> = (0..n).map(|_| token(level, choice("token", TOKENS))).collect();
    decide(place(level, quote!(#(#v)*)));
}
/// The option names of each level.
const KEYS: &[&[&str]] = &[
    &[
        "name", "crate", "pattern", "build_fn", "derive", "custom_constructor", "create_empty", "setter", "default", "public", "private", "vis",
        "no_std", "try_setter", "field",
    ],
    &["pattern", "public", "private", "vis", "setter", "default", "try_setter", "field"],
    &["prefix", "into", "strip_option", "skip"],
    &["prefix", "name", "into", "strip_option", "skip", "custom", "each"],
    &["public", "private", "vis"],
    &["public", "private", "vis", "ty", "build"],
    &["name", "into"],
    &["skip", "name", "validate", "error", "public", "private", "vis"],
    &["validation_error"],
];
const VALUES: usize = 40;
fn value(k: usize) -> TokenStream {
    match k {
        0 => quote!(),
        1 => quote!(= ""),
        2 => quote!(= " "),
        3 => quote!(= "x"),
        4 => quote!(= "type"),
        5 => quote!(= "r#type"),
        6 => quote!(= "a b"),
        7 => quote!(= "1a"),
        8 => quote!(= "::a::b"),
        9 => quote!(= "Vec<u8>"),
        10 => quote!(= "pub(crate)"),
        11 => quote!(= "pub(in a::b)"),
        12 => quote!(= "mutable"),
        13 => quote!(= "true"),
        14 => quote!(= "_"),
        15 => quote!(= "self"),
        16 => quote!(= "{ x }"),
        17 => quote!(= "}"),
        18 => quote!(= "{"),
        19 => quote!(= "let x = 1; x"),
        20 => quote!(= "'a'"),
        21 => quote!(= "\"s"),
        22 => quote!(= "// c"),
        23 => quote!(= "/* c"),
        24 => quote!(= "\u{e9}"),
        25 => quote!(= 1),
        26 => quote!(= -1),
        27 => quote!(= 1.5f32),
        28 => quote!(= true),
        29 => quote!(= 'c'),
        30 => quote!(= b"x"),
        31 => quote!(= { a; b }),
        32 => quote!(= a::b + c()),
        33 => quote!(= |x| x),
        34 => quote!(()),
        35 => quote!((x)),
        36 => quote!(("lit")),
        37 => quote!((x = "y")),
        38 => quote!((x(y), z = 1)),
        _ => quote!([x]),
    }
}
/// Every option with every kind of value, well-formed or not, next to another option.
fn values(company: bool) {
    let level = choice("level", KEYS.len());
    let k = id(KEYS[level][choice("key", KEYS[level].len())]);
    let v = value(choice("value", VALUES));
    let mut o = quote!(#k #v);
    if company {
        let k2 = id(KEYS[level][choice("key 2", KEYS[level].len())]);
        let v2 = match choice("value 2", 4) {
            0 => quote!(),
            1 => quote!(= "x"),
            2 => quote!(= true),
            _ => quote!((skip)),
        };
        o = quote!(#o, #k2 #v2);
    }
    decide(place(level, o));
}
/// Options that take a string, with symbolic contents.
fn strings(n: usize, kinds: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(b' ' + below("character", 95) as u8);
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let item = match choice("option", kinds) {
        0 => quote!(#[builder(name = #s)] struct Target { field: u8 }),
        1 => quote!(struct Target { #[builder(setter(name = #s))] field: u8 }),
        2 => quote!(struct Target { #[builder(default = #s)] field: u8 }),
        3 => quote!(#[builder(vis = #s)] struct Target { field: u8 }),
        4 => quote!(#[builder(pattern = #s)] struct Target { field: u8 }),
        5 => quote!(struct Target { #[builder(field(ty = #s))] field: u8 }),
        6 => quote!(struct Target { #[builder(setter(into = #s))] field: u8 }),
        7 => quote!(struct Target { #[builder(setter(prefix = #s), try_setter)] field: u8 }),
        8 => quote!(#[builder(crate = #s)] struct Target { field: u8 }),
        9 => quote!(#[builder(build_fn(error = #s))] struct Target { field: u8 }),
        10 => quote!(struct Target { #[builder(setter(each = #s))] field: Vec<u8> }),
        11 => quote!(#[builder(default = #s)] struct Target { field: u8 }),
        12 => quote!(struct Target { #[builder(field(build = #s))] field: Vec<u8> }),
        _ => quote!(#[builder(build_fn(name = #s, validate = #s))] struct Target { field: u8 }),
    };
    decide(item);
}
/// Raw identifiers in every naming position, with every field option.
fn raw_names(deep: bool) {
    let n = Ident::new_raw(&sym_name("field", "", 2), Span::call_site());
    let mut f = FieldC::new(n, quote!(Option<Vec<u8>>));
    let mut s = StructC::new(Ident::new_raw("type", Span::call_site()), vec![]);
    if deep || flag("struct level") {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    if deep || s.opts().is_empty() {
        f_opt(&mut f, choice("field option", F_OPTS));
    }
    match choice("names", 4) {
        0 => {}
        1 => s.setter.prefix = Some(Ident::new_raw("fn", Span::call_site())),
        2 => f.setter.prefix = Some(Ident::new_raw("struct", Span::call_site())),
        _ => f.setter.name = Some(Ident::new_raw("match", Span::call_site())),
    }
    if choice("try", 2) == 1 {
        s.try_setter = true;
    }
    s.fields = vec![f];
    decide(s.ts());
}
/// Every pair of options, contradictory or not, on one of two fields.
fn pairs(both: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<u8>>));
    let mut g = FieldC::new(id("other"), quote!(u8));
    let a = choice("field option", F_OPTS);
    f_opt(&mut f, a);
    f_opt(&mut f, choice("field option 2", F_OPTS));
    if both {
        match choice("struct option", 6) {
            0 => s.setter.skip = Some(true),
            1 => s.try_setter = true,
            2 => s.setter.strip = Some(true),
            3 => s.pattern = Some(Pat::Owned),
            4 => s.default = Some(Def::Word),
            _ => s.build.skip = true,
        }
    } else {
        s.setter.skip = Some(true);
    }
    s.fields = vec![f, g];
    decide(s.ts());
}
/// Items of every shape, with odd generics, bounds, types and attributes.
fn items() {
    let b = match choice("options", 5) {
        0 => quote!(),
        1 => quote!(#[builder]),
        2 => quote!(#[builder()]),
        3 => quote!(#[builder(pattern = "immutable", try_setter, setter(into, strip_option))]),
        _ => quote!(#[builder(default, setter(skip), build_fn(skip))]),
    };
    let f = match choice("field options", 4) {
        0 => quote!(),
        1 => quote!(#[builder]),
        2 => quote!(#[builder(setter)]),
        _ => quote!(#[builder(default, setter(strip_option), try_setter)]),
    };
    let item = match choice("item", 24) {
        0 => quote!(#b struct A;),
        1 => quote!(#b struct A();),
        2 => quote!(#b struct A(#f u8, u16);),
        3 => quote!(#b enum A {}),
        4 => quote!(#b enum A { #f B, C(u8), D { e: u8 } }),
        5 => quote!(#b union A { #f a: u8, b: u16 }),
        6 => quote!(#b struct A {}),
        7 => quote!(#b struct A<'a> { #f a: &'a u8 }),
        8 => quote!(#b struct A<'a, 'b: 'a, T: 'a + Copy = u8, const N: usize = 3> where T: Into<u8>, { #f a: &'a [T; N], b: &'b u8 }),
        9 => quote!(#b struct A { #f a: dyn Fn(u8) -> u8 }),
        10 => quote!(#b struct A { #f a: impl Clone }),
        11 => quote!(#b struct A { #f a: ! }),
        12 => quote!(#b struct A { #f a: _ }),
        13 => quote!(#b struct A { #f a: m!(x) }),
        14 => quote!(#b struct A { #f a: (Option<u8>) }),
        15 => quote!(#b struct A { #f a: Option<> }),
        16 => quote!(#b struct A { #f a: Option<'a> }),
        17 => quote!(#b struct A { #f a: Option(u8) -> u8 }),
        18 => quote!(#b struct A { #f a: Option<B = u8> }),
        19 => quote!(#b struct A { #f a: Option<3> }),
        20 => quote!(#b struct A { #f a: Option::<u8>::X }),
        21 => quote!(#b pub(in super::x) struct A { #f pub(self) r#try: for<'x> fn(&'x u8, ...) -> *const u8 }),
        22 => quote!(#b struct A where u8: Sized { #f a: [Option<u8>] }),
        _ => quote!(#b struct A<T: ?Sized + for<'x> Fn(&'x u8)> { #f a: Box<T>, #f a: u8 }),
    };
    decide(item);
}
symrt::harness! {
    h_soup => soup(2, 16);
    h_values => values(false);
    h_strings1 => strings(1, 14);
    h_raw => raw_names(false);
    h_raw_deep => raw_names(true);
    h_pairs => pairs(false);
    h_items => items();
    h_soup_deep => soup(3, 16);
    h_values_deep => values(true);
    h_strings2_deep => strings(2, 14);
    h_pairs_deep => pairs(true);
}
