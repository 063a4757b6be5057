#![allow(warnings)]
//! C23: without alloc the derive only emits allocation-free code or says why not.
//! Compiled three times: without alloc (gn), with alloc only (ga), with std (g).
use g::*;
use T::*;

const NOALLOC: bool = cfg!(feature = "noalloc");
fn decide(s: &StructC) {
    let ts = s.expand();
    let o = parse(&ts);
    let needs = s.gen_validation();
    if NOALLOC && needs {
        reach(1);
        check(o.errors() == 1, 1);
        // the message names the way out
        check(has_lit(&ts, &|l| find(l, "alloc")), 2);
        check(!has_ident(&ts, "String"), 3);
    } else {
        reach(2);
        check(o.errors() == 0, 4);
        if !needs {
            reach(3);
            check(!has_ident(&ts, "String") && !has_ident(&ts, "ValidationError"), 5);
            check(!has_ident(&ts, "Box") && !has_ident(&ts, "Vec") && !has_ident(&ts, "format"), 6);
        } else {
            reach(4);
            check(has_ident(&ts, "String") && has_ident(&ts, "ValidationError"), 7);
        }
        // the rest of the error type does not depend on allocation
        check(o.enums().len() == s.gen_error() as usize, 8);
        if s.gen_error() {
            let n = o.impls_of("Error").len();
            check(n == !s.no_std as usize, 9);
        }
        check(o.fns().len() == expected_fns(s).len(), 10);
    }
    check(!has_ident(&ts, "alloc"), 11);
}
fn find(s: &str, p: &str) -> bool {
    s.as_bytes().windows(p.len()).any(|w| w == p.as_bytes())
}
fn one() {
    let mut s = StructC::new(sym_id("target", "Q", 2), vec![FieldC::new(id("field"), quote!(u8))]);
    s.build.error = match choice("error", 4) {
        0 => None,
        1 => Some(ErrC::Generated(true)),
        2 => Some(ErrC::Generated(false)),
        _ => {
            let e = sym_id("error", "Ex", 2);
            Some(ErrC::Path(quote!(crate::#e)))
        }
    };
    s.no_std = flag("no_std");
    s.build.skip = flag("skip");
    if !matches!(s.build.error, Some(ErrC::Generated(false))) && flag("validate") {
        s.build.validate = Some(quote!(Self::check_all));
    }
    if flag("builder name") {
        s.name = Some(sym_id("builder", "Bd", 2));
    }
    if flag("custom root") {
        s.crate_root = Some(quote!(crate::x));
    }
    s.fields[0].setter.skip = if flag("skipped") { Some(true) } else { None };
    decide(&s);
}
fn company(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    s.build.error = None;
    let mut f = FieldC::new(id("field"), quote!(Option<u16>));
    if deep || flag("field option") {
        f_opt(&mut f, choice("field option", F_OPTS));
    }
    if deep || f.ts().to_string() == "pub field : Option < u16 >" {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    s.no_std |= flag("no_std");
    match choice("error", 4) {
        0 => {}
        1 => s.build.error = Some(ErrC::Generated(true)),
        2 => {
            if s.build.validate.is_none() {
                s.build.error = Some(ErrC::Generated(false));
            }
        }
        _ => s.build.error = Some(ErrC::Path(quote!(crate::Error))),
    }
    s.fields = vec![f];
    decide(&s);
}
symrt::harness! {
    h_error => one();
    h_company => company(false);
    h_company_deep => company(true);
}
