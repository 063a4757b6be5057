#![allow(warnings)]
//! C13: struct-level options apply to every field unless the field overrides them.
use g::*;

/// Options that exist at both levels.
const KINDS: usize = 8;
fn put(s: &mut StructC, f: &mut FieldC, k: usize, full: bool) {
    match k {
        0 => {
            s.pattern = opt_pat("struct.pattern");
            f.pattern = opt_pat("field.pattern");
        }
        1 => {
            if flag("struct.prefix") {
                s.setter.prefix = Some(sym_id("struct.prefix", "sp_", 1));
            }
            if flag("field.prefix") {
                f.setter.prefix = Some(sym_id("field.prefix", "fp_", 1));
            }
        }
        2 => {
            s.setter.into = tri("struct.into");
            f.setter.into = tri("field.into");
        }
        3 => {
            s.setter.strip = tri("struct.strip_option");
            f.setter.strip = tri("field.strip_option");
        }
        4 => {
            s.setter.skip = tri("struct.skip");
            f.setter.skip = tri("field.skip");
        }
        5 => {
            s.try_setter = flag("struct.try_setter");
            f.try_setter = flag("field.try_setter");
        }
        6 => {
            s.visibility = vis("struct.vis", full);
            f.visibility = vis("field.vis", full);
        }
        _ => {
            s.fvis = vis("struct.field_vis", full);
            f.fvis = vis("field.field_vis", full);
        }
    }
}
fn vis(n: &str, full: bool) -> VisC {
    if full {
        opt_vis(n)
    } else {
        match choice(n, 3) {
            0 => VisC::NONE,
            1 => VisC::of(Some(V::Crate)),
            _ => VisC::of(Some(V::Inh)),
        }
    }
}
/// Other setter options, which have no struct-level counterpart.
fn extras(f: &mut FieldC, k: usize) {
    match k {
        1 => f.setter.word = true,
        2 => f.setter.name = Some(sym_id("field.name", "nm_", 1)),
        3 => f.setter.custom = Some(true),
        4 => f.setter.custom = Some(false),
        5 => f.setter.each = Some((id("push_it"), None)),
        6 => f.fty = Some(quote!(Option<u16>)),
        7 => f.default = Some(Def::Word),
        _ => {}
    }
}
/// The same field with every inheritable option written on the field itself.
fn explicit(s: &StructC, f: &FieldC) -> (StructC, FieldC) {
    let mut g = f.clone();
    g.pattern = Some(s.fpat(f));
    g.setter.prefix = f.setter.prefix.clone().or(s.setter.prefix.clone());
    g.setter.into = Some(s.into(f));
    g.setter.strip = Some(s.strip(f));
    g.setter.skip = Some(!s.enabled(f));
    g.try_setter = f.try_setter || s.try_setter;
    g.visibility = VisC::of(Some(s.setter_vis(f)));
    g.fvis = VisC::of(Some(s.field_vis(f)));
    let mut t = StructC::new(s.ident.clone(), vec![]);
    t.fields = s.fields.clone();
    t.fields[0] = g.clone();
    (t, g)
}
fn decide(mut s: StructC, f: FieldC, inner: Option<TokenStream>) {
    s.fields = vec![f.clone()];
    reach(1);
    let o = parse(&s.expand());
    check(o.errors() == 0, 1);
    // reference model
    let base_inner = if f.fty.is_some() { Some(quote!(u16)) } else { inner };
    model(&s, &o, &f, base_inner.as_ref(), 10);
    // writing the effective option on the field itself
    let (t, g) = explicit(&s, &f);
    let p = parse(&t.expand());
    check(p.errors() == 0, 2);
    let (a, b) = (piece(&s, &o, &f), piece(&t, &p, &g));
    check(a.field == b.field, 3);
    check(a.setter == b.setter, 4);
    check(a.try_ == b.try_, 5);
    check(a.each == b.each, 6);
    check(a.init == b.init, 7);
    check(a.empty == b.empty, 8);
}
fn field(k: usize) -> (FieldC, Option<TokenStream>) {
    let n = sym_id("field", "f_", 1);
    match k {
        0 => (FieldC::new(n, quote!(Option<u8>)), Some(quote!(u8))),
        _ => (FieldC::new(n, quote!(Vec<u8>)), None),
    }
}
fn one() {
    let mut s = StructC::new(id("Target"), vec![]);
    let (mut f, inner) = field(choice("type", 2));
    let k = choice("option", KINDS);
    put(&mut s, &mut f, k, true);
    let x = choice("extra", 8);
    extras(&mut f, x);
    decide(s, f, inner);
}
fn pairs(full: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let (mut f, inner) = field(0);
    let a = choice("option 1", KINDS - 1);
    let b = a + 1 + choice("option 2", KINDS - 1 - a);
    put(&mut s, &mut f, a, full);
    put(&mut s, &mut f, b, full);
    if full {
        extras(&mut f, choice("extra", 8));
    }
    decide(s, f, inner);
}
/// Three options at once, with reduced visibilities.
fn triples() {
    let mut s = StructC::new(id("Target"), vec![]);
    let (mut f, inner) = field(0);
    let a = choice("option 1", KINDS - 2);
    let b = a + 1 + choice("option 2", KINDS - 2 - a);
    let c = b + 1 + choice("option 3", KINDS - 1 - b);
    put(&mut s, &mut f, a, false);
    put(&mut s, &mut f, b, false);
    put(&mut s, &mut f, c, false);
    decide(s, f, inner);
}
/// Two fields under one struct-level option, each with its own override.
fn two() {
    let mut s = StructC::new(id("Target"), vec![]);
    let (mut f, inner) = field(0);
    let mut g = FieldC::new(id("other"), quote!(u32));
    let k = choice("option", KINDS);
    put(&mut s, &mut f, k, false);
    let mut t = StructC::new(id("Target"), vec![]);
    put(&mut t, &mut g, k, false);
    s.fields = vec![f.clone(), g.clone()];
    reach(1);
    let o = parse(&s.expand());
    check(o.errors() == 0, 1);
    model(&s, &o, &f, inner.as_ref(), 10);
    model(&s, &o, &g, None, 40);
}
symrt::harness! {
    h_one => one();
    h_two => two();
    h_pairs => pairs(false);
    h_pairs_deep => pairs(true);
    h_triples_deep => triples();
}
