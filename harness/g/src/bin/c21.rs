#![allow(warnings)]
//! C21: generated code refers to the library only through the configured crate root.
use g::*;
use T::*;

/// A custom root, possibly with symbolic segment names.
fn root(k: usize) -> TokenStream {
    let a = sym_id("root", "r_", 2);
    match k {
        0 => quote!(#a),
        1 => quote!(::#a),
        2 => quote!(crate::#a),
        3 => quote!(crate),
        4 => {
            let b = sym_id("root", "q_", 2);
            quote!(::#a::#b)
        }
        _ => quote!(self::#a::x::y),
    }
}
/// Replace every occurrence of `from` by `to`.
fn subst(ts: &[T], from: &[T], to: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        if i + from.len() <= ts.len() && ts[i..i + from.len()] == *from {
            v.extend_from_slice(to);
            i += from.len();
        } else {
            v.push(match &ts[i] {
                G(d, g) => G(*d, subst(g, from, to)),
                t => t.clone(),
            });
            i += 1;
        }
    }
    v
}
/// Every `export` is reached through the root and continues with `core`;
/// `core` and `alloc` are never reached otherwise.
fn paths(ts: &[T], root: &[T], id: u32) {
    for i in 0..ts.len() {
        match &ts[i] {
            I(x) if x == "export" => {
                let n = root.len();
                check(i >= n + 2 && ts[i - 1].p(':') && ts[i - 2].p(':') && ts[i - 2 - n..i - 2] == *root, id);
                check(i + 3 < ts.len() && ts[i + 3].is("core"), id + 1);
            }
            I(x) if x == "core" || x == "alloc" => {
                check(i >= 3 && ts[i - 3].is("export"), id + 2);
            }
            I(x) if x == "UninitializedFieldError" => {
                let n = root.len();
                check(i >= n + 2 && ts[i - 1].p(':') && ts[i - 2].p(':') && ts[i - 2 - n..i - 2] == *root, id + 3);
            }
            // names that are only reachable by path in a crate without a prelude import
            I(x) if x == "PhantomData" || x == "TryInto" || x == "Extend" => {
                check(i >= 2 && ts[i - 1].p(':') && ts[i - 2].p(':'), id + 4);
            }
            G(_, g) => paths(g, root, id),
            _ => {}
        }
    }
}
fn decide(mut s: StructC, k: usize) {
    s.crate_root = None;
    let d = s.expand();
    let dr = s.root();
    s.crate_root = Some(root(k));
    let c = s.expand();
    let cr = s.root();
    reach(1);
    check(parse(&d).errors() == 0, 1);
    // default root: always `::derive_builder`, never anything else of that name
    check(count_ident(&d, "derive_builder") == count(&d, &dr), 2);
    check(count(&d, &dr) > 0, 3);
    paths(&d, &dr, 10);
    // custom root: nothing of the default root is left, and nothing else changes
    check(!has_ident(&c, "derive_builder"), 4);
    check(c == subst(&d, &dr, &cr), 5);
    paths(&c, &cr, 20);
    // std is only named for the Error impl, and not at all with no_std
    let n = if s.gen_error() && !s.no_std { 1 } else { 0 };
    check(count_ident(&d, "std") == n, 6);
    check(count_ident(&c, "std") == n, 7);
    if n == 0 {
        reach(2);
    }
}
fn opts(k: &[usize]) -> StructC {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("first"), quote!(u8)), FieldC::new(id("field"), quote!(Option<Vec<u8>>))]);
    for x in k {
        s_opt(&mut s, *x);
    }
    s
}
/// Every struct option with every field option, two kinds of roots.
fn sf(n: usize) {
    let mut s = opts(&[choice("struct option", S_OPTS)]);
    f_opt(&mut s.fields[1], choice("field option", F_OPTS));
    decide(s, [4, 3, 0, 1, 2, 5][choice("root", n)]);
}
fn ss() {
    let a = choice("first", S_OPTS - 1);
    let b = a + 1 + choice("second", S_OPTS - 1 - a);
    let mut s = opts(&[]);
    let x = s_opt(&mut s, a);
    let y = s_opt(&mut s, b);
    assume(x != y && !contradictory(&s));
    s.fields[1].setter.each = Some((id("push_it"), Some(true)));
    s.try_setter = true;
    decide(s, 4);
}
fn ff() {
    let mut s = opts(&[]);
    let a = choice("first", F_OPTS - 1);
    let b = a + 1 + choice("second", F_OPTS - 1 - a);
    let x = f_opt(&mut s.fields[1], a);
    let y = f_opt(&mut s.fields[1], b);
    assume(x != y && !contradictory(&s));
    decide(s, 1);
}
/// Every root form on a struct that makes the derive emit everything it can emit.
fn roots(deep: bool) {
    let mut s = opts(&[]);
    s.generics = quote!(<T: Copy>);
    s.pattern = opt_pat("pattern");
    s.try_setter = true;
    s.setter.into = Some(flag("into"));
    s.setter.strip = Some(if deep { flag("strip_option") } else { s.setter.into == Some(true) });
    s.no_std = flag("no_std");
    s.build.error = match choice("error", 3) {
        0 => None,
        1 => Some(ErrC::Generated(false)),
        _ => Some(ErrC::Path(quote!(my::Error))),
    };
    s.default = if if deep { flag("default") } else { s.no_std } { Some(Def::Word) } else { None };
    s.fields[1].setter.each = Some((id("push_it"), Some(if deep { flag("each into") } else { s.setter.into == Some(true) })));
    s.fields.push(FieldC::new(id("generic"), quote!(T)));
    let mut k = FieldC::new(id("skipped"), quote!(u8));
    k.setter.skip = Some(true);
    s.fields.push(k);
    let mut k = FieldC::new(id("defaulted"), quote!(u8));
    k.default = Some(Def::Word);
    s.fields.push(k);
    decide(s, choice("root", 6));
}
symrt::harness! {
    h_sf => sf(1);
    h_ss => ss();
    h_ff => ff();
    h_roots => roots(false);
    h_roots_deep => roots(true);
    h_sf_deep => sf(6);
}
