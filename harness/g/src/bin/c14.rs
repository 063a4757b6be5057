#![allow(warnings)]
//! C14: generated names follow the documented scheme.
use g::*;

fn opt(n: &str, p: &str, len: usize) -> Option<Ident> {
    if flag(n) {
        Some(sym_id(n, p, len))
    } else {
        None
    }
}
fn raw(n: &str, p: &str, len: usize) -> Ident {
    Ident::new_raw(&sym_name(n, p, len), Span::call_site())
}
/// Everything that can be named, checked against the scheme.
fn decide(s: &StructC) {
    let o = parse(&s.expand());
    reach(1);
    check(o.errors() == 0, 1);
    let b = o.builder();
    check(b.name == vec![T::I(s.builder_name())], 2);
    check(o.inherent().name[0].ident() == Some(&s.builder_name()), 3);
    let e = o.enums();
    if s.gen_error() {
        check(e.len() == 1 && e[0].name == vec![T::I(s.error_name())], 4);
    }
    // exactly these methods, whatever their order
    let want = expected_fns(s);
    let fns = o.fns();
    check(fns.len() == want.len(), 5);
    for w in &want {
        check(o.get_fn(w).is_some(), 6);
    }
    // builder fields are called like the fields
    check(o.fields().len() == s.fields.len(), 7);
    for (x, f) in o.fields().iter().zip(&s.fields) {
        check(x.name == f.ident.to_string(), 8);
    }
    if !s.build.skip {
        // the build method makes the target and returns the error type by name
        let m = o.need_fn(&s.build_name());
        check(has_ident(&m.ret, &s.ident.to_string()), 9);
        if s.gen_error() {
            check(has_ident(&m.ret, &s.error_name()), 10);
        }
    }
}
/// Field-related names.
fn field_names() {
    let israw = flag("raw field");
    let n = if israw { raw("field", "f", 3) } else { sym_id("field", "f_", 4) };
    let mut f = FieldC::new(n, quote!(Vec<u8>));
    f.setter.prefix = opt("field prefix", "fp_", 3);
    f.setter.name = opt("field name", "nm_", 3);
    if choice("each", 2) == 1 {
        f.setter.each = Some((sym_id("each name", "ea_", 3), Some(flag("each into"))));
    }
    f.try_setter = flag("field try");
    let mut s = StructC::new(sym_id("target", "Q", 3), vec![]);
    s.setter.prefix = opt("struct prefix", "sp_", 3);
    s.try_setter = flag("struct try");
    s.fields = vec![f];
    decide(&s);
}
/// Names that belong to the whole struct.
fn struct_names() {
    let t = if flag("raw target") { raw("target", "Q", 3) } else { sym_id("target", "Q", 3) };
    let mut s = StructC::new(t, vec![]);
    let mut f = FieldC::new(id("field"), quote!(u8));
    f.try_setter = flag("try");
    s.fields = vec![f];
    s.name = opt("builder name", "B", 3);
    s.build.name = opt("build name", "bu_", 2);
    s.build.skip = flag("skip build");
    s.create_empty = opt("create_empty", "ce_", 2);
    s.custom_ctor = flag("custom constructor");
    if flag("custom error") {
        s.build.error = Some(ErrC::Path(quote!(path::Error)));
    }
    decide(&s);
    // the other places where the names are used
    let o = parse(&s.expand());
    let d = o.impls_of("Default");
    if !s.custom_ctor {
        reach(2);
        check(d.len() == 1 && d[0].name[0].ident() == Some(&s.builder_name()), 20);
        if let Kind::Impl { fns, .. } = &d[0].kind {
            check(has_ident(&fns[0].body, &s.empty_name()), 21);
        }
    } else {
        check(d.is_empty(), 22);
    }
    let n = s.error_name();
    for tr in ["Display", "Error"] {
        let v = o.impls_of(tr);
        check(v.len() == s.gen_error() as usize, 23);
        for i in v {
            check(i.name[0].ident() == Some(&n), 24);
        }
    }
}
/// Every two- or three-letter raw identifier (keywords included) as a field name.
fn raw_any(len: usize) {
    let mut f = FieldC::new(raw("field", "", len), quote!(u8));
    f.try_setter = flag("try");
    f.default = Some(Def::Word);
    let mut s = StructC::new(id("Target"), vec![]);
    match choice("named by", 7) {
        0 => {}
        1 => s.setter.prefix = Some(id("with")),
        2 => f.setter.name = Some(raw("setter name", "", 2)),
        3 => s.build.name = Some(raw("build name", "", 2)),
        4 => s.create_empty = Some(raw("create_empty", "", 2)),
        5 => s.name = Some(raw("builder name", "", 2)),
        _ => f.setter.prefix = Some(raw("prefix", "", 2)),
    }
    s.fields = vec![f];
    // the names of different methods must differ, or the expansion is ambiguous
    let w = expected_fns(&s);
    for i in 0..w.len() {
        for j in 0..i {
            assume(w[i] != w[j]);
        }
    }
    decide(&s);
}
/// Two fields with names of one another's shape: nothing is mixed up.
fn two_fields() {
    let mut s = StructC::new(id("Target"), vec![]);
    let a = sym_name("a", "f_", 1);
    let mut fa = FieldC::new(id(&a), quote!(u8));
    let mut fb = FieldC::new(sym_id("b", "g_", 1), quote!(u16));
    fa.setter.prefix = opt("a prefix", "x_", 1);
    fb.setter.name = opt("b name", "y_", 1);
    fb.setter.prefix = opt("b prefix", "z_", 1);
    s.setter.prefix = opt("struct prefix", "sp_", 3);
    s.try_setter = flag("try");
    s.fields = vec![fa, fb];
    decide(&s);
    let o = parse(&s.expand());
    for f in &s.fields {
        let m = o.need_fn(&s.setter_name(f));
        check(contains(&m.body, &[T::P('.'), T::I(f.ident.to_string())]), 30);
        check(arg_ty(&m.inputs[1]) == &flat(f.ty.clone())[..], 31);
    }
}
symrt::harness! {
    h_company => decide(&pair(kind()));
    h_field => field_names();
    h_struct => struct_names();
    h_raw2 => raw_any(2);
    h_two => two_fields();
    h_raw3_deep => raw_any(3);
}
