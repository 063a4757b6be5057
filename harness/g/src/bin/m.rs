#![allow(warnings)]
//! Expansions under related configurations against each other (shared by several properties).
use g::*;

/// Three options, or (with `need`) one option that turns the item on and two others.
fn triple(kind: usize) -> StructC {
    let (mut s, mut f) = base();
    let (ns, nf) = [(2, 1), (1, 2)][kind];
    let mut seen = [99usize; 4];
    let mut last = 0;
    for i in 0..ns {
        assume(last < S_OPTS);
        let a = last + choice("struct option", S_OPTS - last);
        last = a + 1;
        seen[i] = s_opt(&mut s, a);
    }
    last = 0;
    for i in 0..nf {
        assume(last < F_OPTS);
        let a = last + choice("field option", F_OPTS - last);
        last = a + 1;
        seen[2 + i] = f_opt(&mut f, a);
    }
    assume(ns < 2 || seen[0] != seen[1]);
    assume(nf < 2 || seen[2] != seen[3]);
    finish(s, f)
}
/// A pair of options on top of what turns the fallible or each setter on.
fn with(mut s: StructC, which: usize, deep: bool) -> StructC {
    for f in &mut s.fields {
        if f.ident == "field" {
            match which {
                1 => f.try_setter = true,
                _ if f.setter.each.is_none() => f.setter.each = Some((id("push_it"), if deep { tri("each into") } else { None })),
                _ => {}
            }
        }
    }
    s
}
/// The same expansion up to the name, whatever the name of a field is.
fn names(n: usize) {
    let name = any_ident(n);
    let (mut s, mut f) = base();
    f.ident = id("qqfieldqq");
    match choice("what", 7) {
        0 => {}
        1 => f.setter.prefix = Some(id("with")),
        2 => f.try_setter = true,
        3 => f.setter.skip = Some(true),
        4 => f.setter.custom = Some(true),
        5 => {
            s.default = Some(Def::Word);
            f.setter.each = Some((id("qqq_each"), None));
        }
        _ => {
            f.setter.name = Some(id("assign"));
            f.setter.into = Some(true);
        }
    }
    s.pattern = opt_pat("pattern");
    let mut t = s.clone();
    let mut g = f.clone();
    g.ident = id(&name);
    s.fields = vec![FieldC::new(id("qbefore"), quote!(u8)), f];
    t.fields = vec![FieldC::new(id("qbefore"), quote!(u8)), g];
    reach(80);
    let want = renamed(&s.expand(), "qqfieldqq", &name);
    check(t.expand() == want, 80);
}
/// The same expansion up to the name, whatever the name of the struct is.
fn structs(n: usize) {
    let name = any_ident(n);
    let mut s = StructC::new(id("QqTargetQq"), vec![FieldC::new(id("qfield"), quote!(Option<Vec<u8>>))]);
    match choice("what", 6) {
        0 => {}
        1 => s.name = Some(id("Maker")),
        2 => s.default = Some(Def::Word),
        3 => s.build.error = Some(ErrC::Path(quote!(my::Error))),
        4 => s.build.error = Some(ErrC::Generated(false)),
        _ => s.derive = vec![quote!(Debug)],
    }
    s.pattern = opt_pat("pattern");
    let mut t = s.clone();
    t.ident = id(&name);
    reach(81);
    let want = renamed(&s.expand(), "QqTargetQq", &name);
    check(t.expand() == want, 81);
}
/// An option gives an item the name `i`.
fn with_option_name(i: &str, what: usize, company: usize) -> Vec<T> {
    let (mut s, mut f) = base();
    match what {
        0 => s.name = Some(id(i)),
        1 => s.build.name = Some(id(i)),
        2 => s.create_empty = Some(id(i)),
        3 => s.setter.prefix = Some(id(i)),
        4 => f.setter.prefix = Some(id(i)),
        5 => f.setter.name = Some(id(i)),
        6 => f.setter.each = Some((id(i), None)),
        _ => f.setter.each = Some((id(i), Some(true))),
    }
    match company {
        0 => {}
        1 => f.try_setter = true,
        2 => {
            s.pattern = Some(Pat::Owned);
            s.default = Some(Def::Word);
        }
        3 => {
            f.setter.into = Some(true);
            s.build.error = Some(ErrC::Generated(false));
        }
        _ => {
            f.setter.strip = Some(true);
            s.visibility = VisC::of(Some(V::Inh));
        }
    }
    s.fields = vec![FieldC::new(id("qbefore"), quote!(u8)), f];
    s.expand()
}
/// The same expansion up to the name, whatever name an option gives to an item.
fn option_names(name: String, deep: bool) {
    let what = choice("option", 8);
    let company = if deep { choice("company", 5) } else { (what * 3 + name.len()) % 5 };
    let mk = |i: &str| with_option_name(i, what, company);
    let want = renamed(&mk("QqNameQq"), "QqNameQq", &name);
    reach(83);
    check(mk(&name) == want, 83);
}
/// A name of `n` letters outside ASCII, one of them symbolic.
fn unicode_name(at: usize, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i == at {
            // U+0430 to U+043F
            let b = [0xd0u8, 0xb0 + below("letter", 16) as u8];
            s.push_str(unsafe { std::str::from_utf8_unchecked(&b) });
        } else {
            s.push(['\u{e4}', '\u{540d}', 'x', '\u{1d4b6}', '_', 'Z'][(i + n) % 6]);
        }
    }
    s
}
/// Names need not be ASCII.
fn unicode(deep: bool) {
    let n = 1 + choice("length", if deep { 6 } else { 3 });
    let name = unicode_name(choice("at", n), n);
    match choice("of", 3) {
        0 => {
            let mk = |i: &str, what: usize| {
                let (mut s, mut f) = base();
                f.ident = id(i);
                match what {
                    0 => f.setter.prefix = Some(id("with")),
                    1 => f.try_setter = true,
                    2 => f.setter.skip = Some(true),
                    _ => s.default = Some(Def::Word),
                }
                s.fields = vec![FieldC::new(id("qbefore"), quote!(u8)), f];
                s.expand()
            };
            let what = choice("what", 4);
            reach(84);
            check(mk(&name, what) == renamed(&mk("qqfieldqq", what), "qqfieldqq", &name), 84);
        }
        1 => {
            let mk = |i: &str| {
                let s = StructC::new(id(i), vec![FieldC::new(id("qfield"), quote!(Option<Vec<u8>>))]);
                s.expand()
            };
            check(mk(&name) == renamed(&mk("QqTargetQq"), "QqTargetQq", &name), 85);
        }
        _ => {
            let what = choice("option", 8);
            check(with_option_name(&name, what, what % 5) == renamed(&with_option_name("QqNameQq", what, what % 5), "QqNameQq", &name), 86);
        }
    }
}
/// The same expansion up to the name, whatever the name of the field's type is.
fn types(n: usize) {
    let name = sym_name("type name", "Q", n);
    let (mut s, mut f) = base();
    let ty = |i: &str, form: usize| {
        let i = id(i);
        match form {
            0 => quote!(#i),
            1 => quote!(#i<u8>),
            2 => quote!(q::#i<Option<u8>>),
            3 => quote!(Option<#i>),
            4 => quote!(&'static #i),
            _ => quote!(#i::Q),
        }
    };
    let form = choice("form", 6);
    match choice("what", 6) {
        0 => {}
        1 => f.setter.into = Some(true),
        2 => {
            f.setter.strip = Some(true);
            f.try_setter = true;
        }
        3 => f.setter.skip = Some(true),
        4 => {
            s.default = Some(Def::Word);
            f.setter.each = Some((id("qqq_each"), None));
        }
        _ => {
            f.fty = Some(ty("QqTypeQq", form));
            f.ty = quote!(u8);
        }
    }
    s.pattern = opt_pat("pattern");
    let mut t = s.clone();
    let mut g = f.clone();
    if f.fty.is_some() {
        g.fty = Some(ty(&name, form));
    } else {
        f.ty = ty("QqTypeQq", form);
        g.ty = ty(&name, form);
    }
    s.fields = vec![f];
    t.fields = vec![g];
    reach(82);
    let want = renamed(&s.expand(), "QqTypeQq", &name);
    check(t.expand() == want, 82);
}
/// The build method and the constructors of structs with any number of fields of any kind, none included.
fn sizes(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let a = choice("first", S_OPTS);
    let x = s_opt(&mut s, a);
    if flag("two options") {
        let b = if deep { choice("second", S_OPTS) } else { [7, 11, 16, 24, 4][choice("second", 5)] };
        let y = s_opt(&mut s, b);
        assume(x != y && (!deep || b > a));
    }
    if a % 3 == 0 {
        s.generics = quote!(<'a, T: Tr, const N: usize>);
        s.where_ = quote!(where T: Copy);
    }
    let n = if deep { choice("fields", 6) } else { [0, 1, 4][choice("fields", 3)] };
    let k = if n == 0 { 0 } else { [F_OPTS, 13, 15, 20, 27, 28][choice("kind", if deep { 6 } else { 4 })] };
    for i in 0..n {
        let mut f = FieldC::new(id(["p", "q", "r", "t", "u", "v"][i]), quote!(Option<u8>));
        if k < F_OPTS {
            f_opt(&mut f, k);
        }
        s.fields.push(f);
    }
    assume(!contradictory(&s));
    build_fn(&s, 90);
    // everything but the fields' own items is the same as for the struct with a plain field
    let o = parse(&s.expand());
    let mut c = s.clone();
    c.fields = vec![FieldC::new(id("other"), quote!(u8))];
    let p = parse(&c.expand());
    let (x, y) = (o.builder(), p.builder());
    check(x.vis == y.vis && x.attrs == y.attrs && x.name == y.name && x.generics == y.generics && x.where_ == y.where_, 93);
    let (x, y) = (o.inherent(), p.inherent());
    check(x.attrs == y.attrs && x.name == y.name && x.generics == y.generics && x.where_ == y.where_, 97);
    let rest = |o: &Out| -> Vec<Item> { o.items.iter().filter(|i| !matches!(i.kind, Kind::Struct { .. } | Kind::Impl { trait_: None, .. })).cloned().collect() };
    check(rest(&o) == rest(&p), 94);
    check(s.custom_ctor || empties(&s, &o).len() == n, 95);
    check(o.get_fn(&s.empty_name()).is_some(), 96);
}
/// The generated error type is that of a struct with nothing but what names and shapes it.
fn errors(s: &StructC) {
    let o = parse(&s.expand());
    let mut c = StructC::new(s.ident.clone(), vec![FieldC::new(id("other"), quote!(u8))]);
    c.crate_root = s.crate_root.clone();
    c.name = Some(id(&s.builder_name()));
    c.visibility = VisC::of(Some(s.builder_vis()));
    c.no_std = s.no_std;
    c.build.error = s.build.error.clone();
    let p = parse(&c.expand());
    let items = |o: &Out| -> Vec<Item> {
        let n = s.error_name();
        o.items.iter().filter(|i| i.name.first().map_or(false, |t| t.is(&n))).cloned().collect()
    };
    let (a, b) = (items(&o), items(&p));
    reach(100);
    check(a.len() == b.len() && (a.len() > 0) == s.gen_error(), 100);
    // whatever their order
    for i in &a {
        check(a.iter().filter(|j| *j == i).count() == b.iter().filter(|j| *j == i).count(), 101);
    }
    // and nothing else of what is generated mentions the validation error
    if !s.gen_validation() {
        check(!has_ident(&flat(expand(s.ts())), "ValidationError"), 102);
    }
}
const LENGTHS: [usize; 5] = [1, 2, 3, 6, 9];
symrt::harness! {
    h_setter => setters(&pair(kind()), 0, 1);
    h_try => setters(&with(pair(kind()), 1, false), 1, 10);
    h_each => setters(&with(pair(kind()), 2, false), 2, 20);
    h_init => inits(&pair(kind()), 30);
    h_build => build_fn(&pair(kind()), 40);
    h_error => errors(&pair(kind()));
    h_error_deep => errors(&triple(choice("which options", 2)));
    h_sizes => sizes(false);
    h_sizes_deep => sizes(true);
    h_field_name => names(LENGTHS[choice("length", 5)]);
    h_struct_name => structs(LENGTHS[choice("length", 5)]);
    h_type_name => types(LENGTHS[choice("length", 5)]);
    h_unicode => unicode(false);
    h_unicode_deep => unicode(true);
    h_option_name => option_names(letters_ident([1, 3, 7, 8][choice("length", 4)]), false);
    h_option_name_deep => option_names(if flag("letters") { letters_ident(1 + choice("length", 12)) } else { any_ident(1 + choice("length", 4)) }, true);
    h_setter_deep => setters(&triple(choice("which options", 2)), 0, 1);
    h_try_deep => setters(&with(triple(choice("which options", 2)), 1, true), 1, 10);
    h_each_deep => setters(&with(triple(choice("which options", 2)), 2, true), 2, 20);
    h_init_deep => inits(&triple(choice("which options", 2)), 30);
    h_build_deep => build_fn(&triple(choice("which options", 2)), 40);
    h_field_name_deep => names(1 + choice("length", 12));
    h_struct_name_deep => structs(1 + choice("length", 12));
    h_type_name_deep => types(1 + choice("length", 12));
}
