#![allow(warnings)]
//! C18: misuse is rejected with a compile error, correct use never is.
use g::*;

fn same(a: &str, b: &str) -> bool {
    let mut d = 0u8;
    for (x, y) in a.bytes().zip(b.bytes()) {
        d |= x ^ y;
    }
    a.len() == b.len() && d == 0
}
/// A symbolic option name: a letter followed by letters and underscores.
fn key(n: usize) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        let x = below("key", if i == 0 { 26 } else { 27 }) as u8;
        v.push((x + 97).wrapping_sub(28u8.wrapping_mul((x >= 26) as u8)));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Level: where the options are written, and what is documented there.
const LEVELS: &[(&str, &[&str])] = &[
    (
        "struct",
        &[
            "name", "crate", "pattern", "build_fn", "derive", "custom_constructor", "create_empty", "setter", "default", "public", "private", "vis",
            "no_std", "try_setter", "field",
        ],
    ),
    ("field", &["pattern", "public", "private", "vis", "setter", "default", "try_setter", "field"]),
    ("struct setter", &["prefix", "into", "strip_option", "skip"]),
    ("field setter", &["prefix", "name", "into", "strip_option", "skip", "custom", "each"]),
    ("struct field", &["public", "private", "vis"]),
    ("field field", &["public", "private", "vis", "ty", "build"]),
    ("each", &["name", "into"]),
    ("build_fn", &["skip", "name", "validate", "error", "public", "private", "vis"]),
    ("error", &["validation_error"]),
];
fn place(level: usize, o: TokenStream) -> TokenStream {
    let (s, f) = match level {
        0 => (quote!(#[builder(#o)]), quote!()),
        1 => (quote!(), quote!(#[builder(#o)])),
        2 => (quote!(#[builder(setter(#o))]), quote!()),
        3 => (quote!(), quote!(#[builder(setter(#o))])),
        4 => (quote!(#[builder(field(#o))]), quote!()),
        5 => (quote!(), quote!(#[builder(field(#o))])),
        6 => (quote!(), quote!(#[builder(setter(each(name = "push_it", #o)))])),
        7 => (quote!(#[builder(build_fn(#o))]), quote!()),
        _ => (quote!(#[builder(build_fn(error(validation_error = true, #o)))]), quote!()),
    };
    quote!(#s struct Target { #f field: Vec<u8>, other: u8 })
}
/// Only compile errors, no builder.
fn rejected(o: &Out) -> bool {
    o.errors() > 0 && o.errors() == o.items.len()
}
fn accepted(o: &Out) -> bool {
    o.errors() == 0 && o.structs().len() == 1
}
fn keys(lo: usize, hi: usize) {
    let level = choice("level", LEVELS.len());
    let n = lo + choice("length", hi - lo + 1);
    let k = key(n);
    for d in LEVELS[level].1 {
        if d.len() == n {
            assume(!same(&k, d));
        }
    }
    let i = id_any(&k);
    let o = match choice("form", 3) {
        0 => quote!(#i),
        1 => quote!(#i = "value"),
        _ => quote!(#i(value)),
    };
    // alone, or next to a documented option
    let o = if level < 6 && flag("next to a documented option") {
        let d = [quote!(no_std), quote!(try_setter), quote!(into), quote!(into), quote!(public), quote!(public)][level].clone();
        if flag("first") {
            quote!(#o, #d)
        } else {
            quote!(#d, #o)
        }
    } else {
        o
    };
    let out = parse(&flat(expand(place(level, o))));
    reach(1);
    check(rejected(&out), 1);
}
/// Keywords are fine as option names, so build the token directly.
fn id_any(k: &str) -> Ident {
    Ident::new(k, Span::call_site())
}
/// Every pattern name of up to ten characters.
fn patterns() {
    let n = choice("length", 11);
    let k = key_any(n);
    let o = quote!(pattern = #k);
    let at_field = flag("at field");
    let out = parse(&flat(expand(place(at_field as usize, o))));
    let good = same(&k, "owned") || same(&k, "mutable") || same(&k, "immutable");
    if good {
        reach(2);
        check(accepted(&out), 2);
        let p = if same(&k, "owned") {
            Pat::Owned
        } else if same(&k, "mutable") {
            Pat::Mutable
        } else {
            Pat::Immutable
        };
        check(is_recv(&out.need_fn("field").inputs[0], p), 3);
    } else {
        reach(3);
        check(rejected(&out), 4);
    }
}
fn key_any(n: usize) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(sym_char("pattern", false));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Options are checked on items that can be built only; other items are rejected.
fn targets() {
    let b = match choice("options", 3) {
        0 => quote!(),
        1 => quote!(#[builder(setter(into), pattern = "owned")]),
        _ => quote!(#[builder(build_fn(skip), custom_constructor, default)]),
    };
    let f = match choice("field options", 2) {
        0 => quote!(),
        _ => quote!(#[builder(setter(into))]),
    };
    let n = sym_id("name", "Q", 2);
    let k = choice("target", 12);
    let item = match k {
        0 => quote!(#b struct #n;),
        1 => quote!(#b struct #n();),
        2 => quote!(#b struct #n(#f u8);),
        3 => quote!(#b struct #n(#f u8, u16);),
        4 => quote!(#b enum #n {}),
        5 => quote!(#b enum #n { A, B }),
        6 => quote!(#b enum #n { A { a: u8 } }),
        7 => quote!(#b enum #n { A(u8), B { b: u16 } }),
        8 => quote!(#b union #n { a: u8 }),
        9 => quote!(#b struct #n {}),
        10 => quote!(#b struct #n { #f a: u8 }),
        _ => quote!(#b pub struct #n<T> where T: Clone { #f a: T }),
    };
    let out = parse(&flat(expand(item)));
    if k < 9 {
        reach(4);
        check(rejected(&out), 5);
    } else {
        reach(5);
        check(accepted(&out), 6);
    }
}
/// Options whose top-level name is written twice.
fn twice() {
    let (a, b, field) = match choice("option", 16) {
        0 => (quote!(pattern = "owned"), quote!(pattern = "mutable"), false),
        1 => (quote!(name = "A"), quote!(name = "B"), false),
        2 => (quote!(setter(into)), quote!(setter(skip)), false),
        3 => (quote!(build_fn(skip)), quote!(build_fn(name = "x")), false),
        4 => (quote!(default), quote!(default = "x"), false),
        5 => (quote!(crate = "a"), quote!(crate = "b"), false),
        6 => (quote!(create_empty = "a"), quote!(create_empty = "b"), false),
        7 => (quote!(vis = "pub"), quote!(vis = "pub(crate)"), false),
        8 => (quote!(pattern = "owned"), quote!(pattern = "owned"), true),
        9 => (quote!(setter(into)), quote!(setter(into = false)), true),
        10 => (quote!(default), quote!(default = "x"), true),
        11 => (quote!(field(ty = "u8")), quote!(field(public)), true),
        12 => (quote!(setter(name = "a", name = "b")), quote!(try_setter), true),
        13 => (quote!(setter(each = "a", each(name = "b"))), quote!(try_setter), true),
        14 => (quote!(build_fn(name = "a", name = "b")), quote!(no_std), false),
        _ => (quote!(field(build = "a", build = "b")), quote!(try_setter), true),
    };
    let w = if flag("two attributes") { quote!(#[builder(#a)] #[builder(#b)]) } else { quote!(#[builder(#a, #b)]) };
    let item = if field { quote!(struct Target { #w field: u8 }) } else { quote!(#w struct Target { field: u8 }) };
    let out = parse(&flat(expand(item)));
    reach(6);
    check(rejected(&out), 7);
}
/// Two or three of `public`, `private` and `vis` in the same place, the latter with any visibility.
fn clash() -> VisC {
    let k = choice("visibility options", 4);
    let vis = if k != 0 { Some(VS[choice("vis", VS.len())]) } else { None };
    VisC { public: k != 1, private: k != 2, vis }
}
/// Contradictions between options, in any company.
fn contradictions() {
    let mut f = FieldC::new(id("field"), quote!(Vec<u8>));
    let mut s = StructC::new(id("Target"), vec![]);
    let k = choice("contradiction", 13);
    // some other option, which does not repair anything
    match choice("company", 3) {
        0 => {}
        1 => {
            s_opt(&mut s, choice("struct option", S_OPTS));
        }
        _ => {
            f_opt(&mut f, choice("field option", F_OPTS));
        }
    }
    // the contradiction itself replaces whatever the company said about it
    if k < 8 {
        assume(f.default.is_none() && f.fty.is_none() && f.fbuild.is_none() && s.build.error.is_none() && s.default.is_none());
    }
    let d = || match choice("default", 3) {
        0 => Def::Word,
        1 => Def::Str(quote!(Vec::new())),
        _ => Def::Expr(quote!(Vec::new())),
    };
    match k {
        0 => {
            f.default = Some(d());
            f.fty = Some(quote!(u8));
        }
        1 => {
            f.default = Some(d());
            f.fbuild = Some(quote!(Vec::new()));
        }
        2 => {
            f.default = Some(d());
            f.fty = Some(quote!(u8));
            f.fbuild = Some(quote!(Vec::new()));
        }
        3 => {
            s.build.validate = Some(quote!(Self::v));
            s.build.error = Some(ErrC::Generated(false));
            s.default = Some(d());
        }
        4 => f.extra.push(quote!(default = "")),
        5 => f.extra.push(quote!(default = "  ")),
        6 => s.extra.push(quote!(default = "")),
        7 => {
            f.fvis = VisC::NONE;
            f.extra.push(quote!(field(build = "")));
        }
        8 => s.visibility = clash(),
        9 => s.fvis = clash(),
        10 => s.build.vis = clash(),
        11 => f.visibility = clash(),
        _ => f.fvis = clash(),
    }
    if flag("options in attributes of their own") {
        s.split = true;
        f.split = true;
    }
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f, FieldC::new(id("after"), quote!(u8))];
    let out = parse(&s.expand());
    reach(7);
    check(rejected(&out), 8);
}
/// The attributes whose contents are forwarded must hold exactly one attribute.
fn unwrap() {
    let k = choice("attribute", 4);
    let a = id(["builder_field_attr", "builder_setter_attr", "builder_struct_attr", "builder_impl_attr"][k]);
    let n = sym_id("name", "a_", 2);
    let bad = match choice("contents", 10) {
        0 => quote!(#a),
        1 => quote!(#a = "text"),
        2 => quote!(#a = 1),
        3 => quote!(#a()),
        4 => quote!(#a(#n, b)),
        5 => quote!(#a(#n b)),
        6 => quote!(#a("text")),
        7 => quote!(#a(#n(b) c)),
        8 => quote!(#a((#n))),
        _ => quote!(#a(#n = "x", b)),
    };
    let bad = quote!(#[#bad]);
    // alone, or around attributes that are fine
    let all = match choice("company", 5) {
        0 => quote!(#bad),
        1 => quote!(#bad #[#a(#n)]),
        2 => quote!(#[#a(#n)] #bad),
        3 => quote!(#[allow(x)] #bad #[doc = "text"]),
        _ => quote!(#bad #[builder(setter(into))]),
    };
    let item = match (k < 2, choice("position", 3)) {
        (true, 0) => quote!(struct Target { #all field: u8 }),
        (true, 1) => quote!(struct Target { before: u8, #all field: u8 }),
        (true, _) => quote!(struct Target { #all field: u8, after: u8 }),
        (false, 0) => quote!(#all struct Target { field: u8 }),
        (false, 1) => quote!(#all struct Target {}),
        (false, _) => quote!(#all pub struct Target<T> { field: T }),
    };
    let out = parse(&flat(expand(item)));
    reach(10);
    check(rejected(&out), 13);
}
/// Any two documented options expand to a builder unless they contradict each other.
fn decide(s: &StructC) {
    let out = parse(&s.expand());
    if contradictory(s) {
        reach(8);
        check(rejected(&out), 9);
    } else {
        reach(9);
        check(accepted(&out), 10);
        check(out.fns().len() == expected_fns(s).len(), 11);
        for n in expected_fns(s) {
            check(out.get_fn(&n).is_some(), 12);
        }
    }
}
fn pair_ss() {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("field"), quote!(Option<Vec<u8>>))]);
    let a = choice("first", S_OPTS - 1);
    let b = a + 1 + choice("second", S_OPTS - 1 - a);
    s.split = choice("split", 2) == 1;
    let x = s_opt(&mut s, a);
    let y = s_opt(&mut s, b);
    assume(x != y);
    decide(&s);
}
fn pair_ff() {
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<u8>>));
    let a = choice("first", F_OPTS - 1);
    let b = a + 1 + choice("second", F_OPTS - 1 - a);
    let x = f_opt(&mut f, a);
    let y = f_opt(&mut f, b);
    assume(x != y);
    decide(&StructC::new(id("Target"), vec![f]));
}
fn pair_sf() {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<u8>>));
    s_opt(&mut s, choice("struct option", S_OPTS));
    f_opt(&mut f, choice("field option", F_OPTS));
    s.fields = vec![f];
    decide(&s);
}
fn triple(kind: usize) {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<u8>>));
    let (ns, nf) = [(3, 0), (2, 1), (1, 2), (0, 3)][kind];
    let mut seen = [99usize; 6];
    let mut last = 0;
    for i in 0..ns {
        assume(last < S_OPTS);
        let a = last + choice("struct option", S_OPTS - last);
        last = a + 1;
        seen[i] = s_opt(&mut s, a);
    }
    last = 0;
    for i in 0..nf {
        assume(last < F_OPTS);
        let a = last + choice("field option", F_OPTS - last);
        last = a + 1;
        seen[3 + i] = f_opt(&mut f, a);
    }
    for (lo, n) in [(0, ns), (3, nf)] {
        for i in lo..lo + n {
            for j in lo..i {
                assume(seen[i] != seen[j]);
            }
        }
    }
    s.fields = vec![f];
    decide(&s);
}
symrt::harness! {
    h_keys => keys(2, 12);
    h_patterns => patterns();
    h_targets => targets();
    h_twice => twice();
    h_contradictions => contradictions();
    h_unwrap => unwrap();
    h_pair_ss => pair_ss();
    h_pair_ff => pair_ff();
    h_pair_sf => pair_sf();
    h_keys_deep => keys(13, 20);
    h_triple_sss_deep => triple(0);
    h_triple_ssf_deep => triple(1);
    h_triple_sff_deep => triple(2);
    h_triple_fff_deep => triple(3);
}
