#![allow(warnings)]
//! C24: the build method is generated as configured, and nothing else depends on that.
use g::*;
use T::*;

fn set(s: &mut StructC, generic: bool) {
    s.build.skip = flag("skip");
    if flag("name") {
        s.build.name = Some(sym_id("name", "bu_", 3));
    }
    s.build.error = match choice("error", 4) {
        0 => None,
        1 => Some(ErrC::Generated(true)),
        2 => Some(ErrC::Generated(false)),
        _ => {
            let e = sym_id("error", "E", 2);
            Some(ErrC::Path(quote!(crate::err::#e)))
        }
    };
    if !matches!(s.build.error, Some(ErrC::Generated(false))) && flag("validate") {
        s.build.validate = Some(quote!(Self::check_all));
    }
}
fn errty(s: &StructC) -> Vec<T> {
    match &s.build.error {
        Some(ErrC::Path(p)) => flat(p.clone()),
        _ => vec![I(s.error_name())],
    }
}
/// `Result<Target<..>, Error>` with the given target tokens.
fn sig(s: &StructC, m: &FnItem, target: &[T], id: u32) {
    check(m.inputs.len() == 1, id);
    if m.inputs.len() == 1 {
        let p = if s.pat() == Pat::Owned { Pat::Owned } else { Pat::Immutable };
        check(is_recv(&m.inputs[0], p), id + 1);
    }
    check(m.generics.is_empty() && m.where_.is_empty(), id + 2);
    let want = cat(&[&core(s, quote!(result::Result)), &[P('<')], target, &[P(',')], &errty(s), &[P('>')]]);
    check(m.ret == want, id + 3);
}
/// Is this method the build method (by what it returns)?
fn builds(m: &FnItem) -> bool {
    has_ident(&m.ret, "Target")
}
fn error_items(s: &StructC, o: &Out, id: u32) {
    let g = s.gen_error();
    check(o.enums().len() == g as usize, id);
    let name = s.error_name();
    let root = s.root();
    if g {
        reach(id);
        let e = o.enums()[0];
        check(e.name == vec![I(name.clone())], id + 1);
        if let Kind::Enum { body } = &e.kind {
            let v: Vec<Vec<T>> = commas(body)
                .into_iter()
                .map(|mut v| {
                    // drop attributes
                    while v.len() > 1 && v[0].p('#') {
                        v.drain(0..2);
                    }
                    v
                })
                .collect();
            check(v.len() == 1 + s.gen_validation() as usize, id + 2);
            check(v.iter().any(|x| *x == toks!(UninitializedField(&'static str))), id + 3);
            let want = cat(&[&toks!(ValidationError), &[G('(', core(s, quote!(string::String)))]]);
            check(v.iter().any(|x| *x == want) == s.gen_validation(), id + 4);
        }
        check(e.attrs.iter().any(|a| *a == toks!(non_exhaustive)), id + 5);
        check(e.attrs.iter().any(|a| attr_is(a, "derive") && has_ident(a, "Debug")), id + 6);
    }
    // conversions, Display, std Error
    let froms = o.impls_of("From");
    let want = if !g { 0 } else { 1 + s.gen_validation() as usize };
    check(froms.len() == want, id + 7);
    let uninit = cat(&[&root, &toks!(::UninitializedFieldError)]);
    let string = core(s, quote!(string::String));
    let has = |arg: &Vec<T>| {
        froms.iter().any(|i| match &i.kind {
            Kind::Impl { trait_: Some(t), .. } => *t == cat(&[&core(s, quote!(convert::From)), &[P('<')], arg, &[P('>')]]),
            _ => false,
        })
    };
    check(has(&uninit) == g, id + 8);
    check(has(&string) == s.gen_validation(), id + 9);
    check(o.impls_of("Display").len() == g as usize, id + 10);
    check(o.impls_of("Error").len() == (g && !s.no_std) as usize, id + 11);
    for t in ["From", "Display", "Error"] {
        for i in o.impls_of(t) {
            check(i.name == vec![I(name.clone())], id + 12);
        }
    }
}
fn no_build(o: &Out) -> Out {
    let mut o = o.clone();
    for i in &mut o.items {
        if let Kind::Impl { trait_: None, fns } = &mut i.kind {
            fns.retain(|m| !builds(m));
        }
    }
    o
}
fn decide(s: &StructC, target: &[T]) {
    let o = parse(&s.expand());
    reach(1);
    check(o.errors() == 0, 1);
    let b: Vec<&FnItem> = o.fns().iter().filter(|m| builds(m)).collect();
    check(b.len() == !s.build.skip as usize, 2);
    check(o.get_fn(&s.build_name()).is_some() == !s.build.skip, 3);
    if !s.build.skip {
        reach(2);
        let m = o.need_fn(&s.build_name());
        sig(s, m, target, 10);
        check(m.vis == flat(s.build_vis().ts()), 4);
        // the validator is called in the body exactly when configured
        let v = ["check_all", "validate"].map(|n| count_ident(&m.body, n));
        check(v[0] + v[1] == s.build.validate.is_some() as usize, 5);
        if let Some(p) = &s.build.validate {
            check(contains(&m.body, &flat(p.clone())), 9);
        }
    } else {
        reach(3);
        check(!has_ident(&flat(expand(s.ts())), "check_all"), 6);
    }
    error_items(s, &o, 20);
    // renaming, suppressing or validating changes nothing else
    let mut t = s.clone();
    t.build.skip = false;
    t.build.name = None;
    t.build.validate = None;
    let p = parse(&t.expand());
    check(no_build(&o) == no_build(&p), 7);
    if !s.build.skip && s.build.validate.is_none() {
        // only the name of the method differs
        let (mut a, b) = (o.need_fn(&s.build_name()).clone(), p.need_fn("build"));
        a.name = String::from("build");
        check(a == *b, 8);
    }
}
fn plain() {
    let mut f = FieldC::new(id("field"), quote!(u8));
    let mut s = StructC::new(id("Target"), vec![f]);
    set(&mut s, false);
    s.no_std = flag("no_std");
    s.pattern = opt_pat("pattern");
    if flag("builder name") {
        s.name = Some(sym_id("builder name", "B", 2));
    }
    decide(&s, &toks!(Target));
}
fn generic() {
    let t = sym_id("type", "T", 1);
    let mut f = FieldC::new(id("field"), quote!(#t));
    let mut s = StructC::new(id("Target"), vec![f, FieldC::new(id("other"), quote!(&'a [u8; N]))]);
    s.generics = quote!(<'a, #t: Copy, const N: usize>);
    s.where_ = if flag("where") { quote!(where #t: Send) } else { quote!() };
    set(&mut s, true);
    s.pattern = opt_pat("pattern");
    let tt = flat(quote!(Target<'a, #t, N>));
    decide(&s, &tt);
}
/// Next to every field option and every other struct option.
fn company() {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<u8>>));
    if flag("field option") {
        f_opt(&mut f, choice("field option", F_OPTS));
    } else {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    match choice("build_fn", 5) {
        0 => s.build.skip = true,
        1 => s.build.name = Some(id("finish")),
        2 => s.build.error = Some(ErrC::Path(quote!(my::Error))),
        3 => {
            if s.build.validate.is_none() {
                s.build.error = Some(ErrC::Generated(false))
            }
        }
        _ => {
            if !matches!(s.build.error, Some(ErrC::Generated(false))) {
                s.build.validate = Some(quote!(Self::check_all))
            }
        }
    }
    s.fields = vec![f];
    decide(&s, &toks!(Target));
}
/// The generated error appears (or not) independently of everything but build_fn(error) and no_std.
fn error_only() {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("field"), quote!(u8))]);
    s_opt(&mut s, choice("struct option", S_OPTS));
    s_opt(&mut s, choice("second option", S_OPTS));
    assume(!contradictory(&s));
    let o = parse(&s.expand());
    reach(4);
    check(o.errors() == 0, 40);
    error_items(&s, &o, 50);
    check(o.fns().iter().filter(|m| builds(m)).count() == !s.build.skip as usize, 41);
}
symrt::harness! {
    h_plain => plain();
    h_generic => generic();
    h_company => company();
    h_error_deep => error_only();
}
