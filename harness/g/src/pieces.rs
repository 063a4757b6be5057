//! What the expansion contains for one field, and the reference model of it.
use crate::cfg::*;
use crate::out::*;
use crate::tok::{T::*, *};
use proc_macro2::TokenStream;
use quote::quote;
use symrt::*;

/// All code generated for one field.
#[derive(Clone, PartialEq, Debug)]
pub struct Piece {
    pub field: FieldItem,
    pub setter: Option<FnItem>,
    pub try_: Option<FnItem>,
    pub each: Option<FnItem>,
    pub init: Option<Vec<T>>,
    pub empty: Vec<T>,
}
pub fn cat(parts: &[&[T]]) -> Vec<T> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
/// `root :: export :: core :: path`
pub fn core(s: &StructC, path: TokenStream) -> Vec<T> {
    cat(&[&s.root(), &flat(quote!(::export::core::#path))])
}
pub fn each_name(f: &FieldC) -> Option<String> {
    f.setter.each.as_ref().map(|e| e.0.to_string())
}
/// `field: value` pairs of the create-empty function.
pub fn empties(s: &StructC, o: &Out) -> Vec<(String, Vec<T>)> {
    o.inits(&s.empty_name(), "Self")
}
pub fn find_init(v: &[(String, Vec<T>)], name: &str) -> Vec<T> {
    match v.iter().find(|x| x.0 == name) {
        Some(x) => x.1.clone(),
        None => fail("a field has no initializer"),
    }
}
pub fn piece(s: &StructC, o: &Out, f: &FieldC) -> Piece {
    let n = f.ident.to_string();
    let init = if s.build.skip { None } else { Some(find_init(&o.inits(&s.build_name(), &s.ident.to_string()), &n)) };
    Piece {
        field: o.field(&n).clone(),
        setter: o.get_fn(&s.setter_name(f)).cloned(),
        try_: o.get_fn(&s.try_name(f)).cloned(),
        each: each_name(f).and_then(|e| o.get_fn(&e).cloned()),
        init,
        empty: find_init(&empties(s, o), &n),
    }
}
/// Names of the methods the builder must have, in order of the fields.
pub fn expected_fns(s: &StructC) -> Vec<String> {
    let mut v = Vec::new();
    for f in &s.fields {
        if s.has_setter(f) {
            v.push(s.setter_name(f));
            if s.has_try(f) {
                v.push(s.try_name(f));
            }
            if let Some(e) = each_name(f) {
                v.push(e);
            }
        }
    }
    if !s.build.skip {
        v.push(s.build_name());
    }
    v.push(s.empty_name());
    v
}
pub fn recv(p: Pat) -> Vec<T> {
    flat(match p {
        Pat::Owned => quote!(self),
        Pat::Mutable => quote!(&mut self),
        Pat::Immutable => quote!(&self),
    })
}
pub fn ret(p: Pat) -> Vec<T> {
    flat(match p {
        Pat::Mutable => quote!(&mut Self),
        _ => quote!(Self),
    })
}
/// Receiver up to an optional explicit `mut` binding.
pub fn is_recv(got: &[T], p: Pat) -> bool {
    let want = recv(p);
    got == &want[..] || (got.len() == 2 && p == Pat::Owned && got[0].is("mut") && got[1].is("self"))
}
/// `<G: path<ty>>` with any name for G; returns the name.
pub fn bound_name<'a>(g: &'a [T], bound: &[T], ty: &[T]) -> Option<&'a str> {
    let want = cat(&[&[P(':')], bound, &[P('<')], ty, &[P('>'), P('>')]]);
    if g.len() == want.len() + 2 && g[0].p('<') && g[2..] == want[..] {
        return g[1].ident();
    }
    None
}
/// Does the argument have exactly this type?
pub fn arg_ty(input: &[T]) -> &[T] {
    match input.iter().position(|t| t.p(':')) {
        Some(i) => &input[i + 1..],
        None => fail("argument without a type"),
    }
}
/// The type a setter takes, before `into`: from the written type and strip_option.
/// `opt_inner` is `Some(T)` when the field's (or custom builder) type is spelled `Option<T>`.
pub fn setter_ty(s: &StructC, f: &FieldC, opt_inner: Option<&TokenStream>) -> Vec<T> {
    let base = f.fty.as_ref().unwrap_or(&f.ty);
    match (s.strip(f), opt_inner) {
        (true, Some(t)) => flat(t.clone()),
        _ => flat(base.clone()),
    }
}
/// Attributes on the item except the crate's own lint attributes.
pub fn user_attrs(a: &[Vec<T>]) -> Vec<Vec<T>> {
    a.iter().filter(|x| **x != flat(quote!(allow(unused_mut)))).cloned().collect()
}
/// Check everything the documentation says about a field's setters and slot.
/// `base`: first check id. Uses ids base..base+20.
pub fn model(s: &StructC, o: &Out, f: &FieldC, opt_inner: Option<&TokenStream>, base: u32) {
    let n = f.ident.to_string();
    // builder field
    let b = o.field(&n);
    check(b.vis == flat(s.field_vis(f).ts()), base);
    let want = if !s.enabled(f) {
        cat(&[&core(s, quote!(marker::PhantomData)), &[P('<')], &flat(f.ty.clone()), &[P('>')]])
    } else if let Some(t) = &f.fty {
        flat(t.clone())
    } else {
        cat(&[&core(s, quote!(option::Option)), &[P('<')], &flat(f.ty.clone()), &[P('>')]])
    };
    check(b.ty == want, base + 1);
    // plain setter
    let pat = s.fpat(f);
    let vis = flat(s.setter_vis(f).ts());
    let sn = s.setter_name(f);
    check(o.get_fn(&sn).is_some() == s.has_setter(f), base + 2);
    if s.has_setter(f) {
        reach(base);
        let m = o.need_fn(&sn);
        let ty = setter_ty(s, f, opt_inner);
        check(m.vis == vis, base + 3);
        check(m.inputs.len() == 2 && is_recv(&m.inputs[0], pat), base + 4);
        check(m.ret == ret(pat), base + 5);
        let got = arg_ty(&m.inputs[1]);
        if s.into(f) {
            reach(base + 1);
            let g = bound_name(&m.generics, &core(s, quote!(convert::Into)), &ty);
            check(g.is_some() && got.len() == 1 && got[0].ident() == g, base + 6);
        } else {
            check(m.generics.is_empty() && got == &ty[..], base + 7);
        }
        check(m.where_.is_empty(), base + 8);
        // fallible setter
        let t = o.get_fn(&s.try_name(f));
        check(t.is_some() == s.has_try(f), base + 9);
        if let Some(t) = t {
            reach(base + 2);
            check(t.vis == vis, base + 10);
            check(t.inputs.len() == 2 && is_recv(&t.inputs[0], pat), base + 11);
            let g = bound_name(&t.generics, &core(s, quote!(convert::TryInto)), &ty);
            let got = arg_ty(&t.inputs[1]);
            check(g.is_some() && got.len() == 1 && got[0].ident() == g, base + 12);
            let e = I(g.unwrap_or("").to_string());
            let r = cat(&[&core(s, quote!(result::Result)), &[P('<')], &ret(pat), &[P(','), e, P(':'), P(':')], &toks_ident("Error"), &[P('>')]]);
            check(t.ret == r, base + 13);
        }
        if let Some((en, into)) = &f.setter.each {
            reach(base + 3);
            let e = o.get_fn(&en.to_string());
            check(e.is_some(), base + 14);
            if let Some(e) = e {
                check(e.vis == vis && e.ret == ret(pat), base + 15);
                check(e.inputs.len() == 2 && is_recv(&e.inputs[0], pat), base + 16);
            }
        }
    } else {
        check(o.get_fn(&s.try_name(f)).is_none(), base + 17);
        if let Some(en) = each_name(f) {
            check(o.get_fn(&en).is_none(), base + 18);
        }
    }
}
fn toks_ident(s: &str) -> Vec<T> {
    vec![I(s.to_string())]
}
