#![allow(warnings)]
//! C15: visibility of every generated item is resolved as documented.
use g::*;

const PLACES: usize = 6;
struct Vis {
    item: V,
    places: [VisC; 5],
}
fn build(v: &Vis) -> StructC {
    let mut f = FieldC::new(id("field"), quote!(Vec<u8>));
    f.try_setter = true;
    f.setter.each = Some((id("push_it"), None));
    f.visibility = v.places[3].clone();
    f.fvis = v.places[4].clone();
    let g = FieldC::new(id("plain"), quote!(u8));
    let mut h = FieldC::new(id("skipped"), quote!(u8));
    h.setter.skip = Some(true);
    let mut k = FieldC::new(id("skipped_vis"), quote!(u8));
    k.setter.skip = Some(true);
    k.fvis = v.places[4].clone();
    let mut c = FieldC::new(id("by_hand"), quote!(u8));
    c.setter.custom = Some(true);
    let mut s = StructC::new(id("Target"), vec![f, g, h, k, c]);
    s.vis = v.item;
    s.visibility = v.places[0].clone();
    s.build.vis = v.places[1].clone();
    s.fvis = v.places[2].clone();
    s
}
fn decide(v: &Vis) {
    decide_on(&build(v));
}
fn decide_on(s: &StructC) {
    let o = parse(&s.expand());
    reach(1);
    let bad = s.visibility.conflict() || s.build.vis.conflict() || s.fvis.conflict() || s.fields.iter().any(|f| f.visibility.conflict() || f.fvis.conflict());
    if bad {
        reach(2);
        check(o.errors() > 0, 1);
        check(o.structs().is_empty(), 2);
        return;
    }
    check(o.errors() == 0, 3);
    check(o.builder().vis == flat(s.builder_vis().ts()), 4);
    for e in o.enums() {
        check(e.vis == flat(s.builder_vis().ts()), 5);
    }
    if !s.build.skip {
        check(o.need_fn(&s.build_name()).vis == flat(s.build_vis().ts()), 6);
    }
    // the constructor is a convenience of the generated code, never public
    check(o.need_fn(&s.empty_name()).vis.is_empty(), 11);
    for f in &s.fields {
        check(o.field(&f.ident.to_string()).vis == flat(s.field_vis(f).ts()), 7);
        if s.has_setter(f) {
            let w = flat(s.setter_vis(f).ts());
            check(o.need_fn(&s.setter_name(f)).vis == w, 8);
            if s.has_try(f) {
                check(o.need_fn(&s.try_name(f)).vis == w, 9);
            }
            if let Some(e) = each_name(f) {
                check(o.need_fn(&e).vis == w, 10);
            }
        }
    }
}
const NONE: [VisC; 5] = [VisC::NONE; 5];
/// public, private and vis = "...", each written or not: also conflicting ones.
fn any(n: &str) -> VisC {
    let mut v = VisC::NONE;
    v.public = flag(n);
    v.private = flag(n);
    v.vis = match choice(n, 7) {
        0 => None,
        k => Some(VS[k - 1]),
    };
    v
}
/// Every way of writing (or contradicting) the visibility at one place, with a second place set too.
fn pair() {
    let mut v = Vis { item: VS[choice("struct", 3)], places: NONE };
    let a = choice("place", 5);
    v.places[a] = any("first");
    if choice("second place", 2) == 1 {
        let b = choice("which", 5);
        assume(b != a);
        v.places[b] = opt_vis("second");
    }
    decide(&v);
}
fn few(n: &str) -> VisC {
    match choice(n, 4) {
        0 => VisC::NONE,
        1 => VisC::of(Some(V::Pub)),
        2 => VisC::of(Some(V::Inh)),
        _ => VisC::of(Some(V::Super)),
    }
}
/// All five places and the struct's own visibility jointly.
fn joint(n: usize) {
    let mut v = Vis { item: VS[choice("struct", n)], places: NONE };
    for (i, w) in ["builder", "build_fn", "struct field()", "setter", "field field()"].iter().enumerate() {
        v.places[i] = if n == 5 {
            few(w)
        } else {
            match choice(w, 3) {
                0 => VisC::NONE,
                1 => VisC::of(Some(V::Inh)),
                _ => VisC::of(Some(V::Crate)),
            }
        };
    }
    decide(&v);
}
/// `vis = ".."` with a symbolic path segment is carried over literally.
fn vis_path() {
    let seg = sym_id("segment", "m_", 3);
    let place = choice("place", 5);
    let lit = ["pub(in crate::", &seg.to_string(), ")"].concat();
    let o = match place {
        0 => quote!(vis = #lit),
        1 => quote!(build_fn(vis = #lit)),
        2 => quote!(field(vis = #lit)),
        _ => quote!(),
    };
    let fo = match place {
        3 => quote!(#[builder(vis = #lit)]),
        4 => quote!(#[builder(field(vis = #lit))]),
        _ => quote!(),
    };
    let out = parse(&flat(expand(quote!(#[builder(#o)] struct Target { #fo field: u8 }))));
    reach(3);
    check(out.errors() == 0, 20);
    let want = flat(quote!(pub(in crate::#seg)));
    let setter = &out.need_fn("field").vis;
    let b = &out.builder().vis;
    let m = &out.need_fn("build").vis;
    let f = &out.field("field").vis;
    check((*b == want) == (place == 0), 21);
    check((*m == want) == (place == 0 || place == 1), 22);
    check((*f == want) == (place == 2 || place == 4), 23);
    check((*setter == want) == (place == 0 || place == 3), 24);
}
/// Next to all pairs of options, for each visibility of the struct and (with `more`) of other places.
fn company() {
    let mut s = g::meta::pair(kind());
        // visibilities where the options left room for them
    let more = choice("more", 3);
    s.vis = [V::Inh, V::In, V::SelfV][more];
    match more {
        0 => {}
        1 => {
            if s.visibility.is_none() {
                s.visibility = VisC::of(Some(V::Crate));
            }
            if s.fvis.is_none() {
                s.fvis = VisC::of(Some(V::Super));
            }
        }
        _ => {
            if s.build.vis.is_none() {
                s.build.vis = VisC::of(Some(V::Super));
            }
            for f in &mut s.fields {
                if f.visibility.is_none() {
                    f.visibility = VisC::of(Some(V::Crate));
                }
                if f.fvis.is_none() {
                    f.fvis = VisC::of(Some(V::Pub));
                }
            }
        }
    }
    decide_on(&s);
}
/// A field's own visibility in the struct matters for nothing, the struct's only where it is documented to.
fn own(deep: bool) {
    let mut v = Vis { item: VS[choice("struct", 6)], places: NONE };
    let a = choice("place", 6);
    if a < 5 {
        v.places[a] = VisC::of(Some([V::Pub, V::Inh, V::Crate][choice("option", 3)]));
    }
    let mut s = build(&v);
    let mut t = s.clone();
    t.vis = V::Pub;
    let first = choice("field", 6);
    for (i, f) in s.fields.iter_mut().enumerate() {
        f.vis = if deep && i == 1 { VS[choice("other field", 6)] } else { VS[(first + i) % 6] };
    }
    decide_on(&s);
    let erase = |o: &Out| -> Out {
        let mut o = o.clone();
        for i in &mut o.items {
            if matches!(i.kind, Kind::Struct { .. } | Kind::Enum { .. }) {
                i.vis.clear();
            }
            if let Kind::Impl { trait_: None, fns } = &mut i.kind {
                for f in fns.iter_mut().filter(|f| f.name == "build") {
                    f.vis.clear();
                }
            }
        }
        o
    };
    reach(4);
    check(erase(&parse(&s.expand())) == erase(&parse(&t.expand())), 30);
}
symrt::harness! {
    h_own => own(false);
    h_own_deep => own(true);
    h_company => company();
    h_pair => pair();
    h_joint => joint(4);
    h_path => vis_path();
    h_joint_deep => joint(5);
}
