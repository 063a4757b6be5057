#![allow(warnings)]
//! Parametricity: types, expressions and paths written by the user go through the
//! expansion untouched. The expansion with any of them must be the expansion with
//! a placeholder in their place, with the placeholder replaced afterwards.
use g::*;
use T::*;

const HOLE: &str = "QqHoleQq";
fn hole() -> TokenStream {
    let h = id(HOLE);
    quote!(#h)
}
fn fill(ts: &[T], by: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    for t in ts {
        match t {
            t if t.is(HOLE) => v.extend_from_slice(by),
            G(d, g) => v.push(G(*d, fill(g, by))),
            t => v.push(t.clone()),
        }
    }
    v
}
/// Every form of type the language has, but paths that end in `Option<..>`
fn types(k: usize, n: &Ident) -> TokenStream {
    match k {
        0 => quote!(&'a str),
        1 => quote!(&'a mut #n),
        2 => quote!((#n, u8)),
        3 => quote!(()),
        4 => quote!((#n,)),
        5 => quote!([#n; 4]),
        6 => quote!(&'static [#n]),
        7 => quote!(Box<dyn Fn(#n) -> u8 + Send>),
        8 => quote!(fn(#n) -> Option<u8>),
        9 => quote!(unsafe extern "C" fn(*const #n)),
        10 => quote!(*mut #n),
        11 => quote!(<T as Tr<#n>>::Out),
        12 => quote!(T::Out),
        13 => quote!(::std::collections::HashMap<String, Vec<#n>>),
        14 => quote!(bool),
        15 => quote!(String),
        16 => quote!(PhantomData<(T, #n)>),
        17 => quote!(std::borrow::Cow<'a, str>),
        18 => quote!(mac!(#n, x)),
        19 => quote!((#n)),
        20 => quote!([[#n; N]; 2 + M]),
        21 => quote!(for<'x> fn(&'x #n) -> &'x u8),
        22 => quote!(Result<Option<#n>, ()>),
        23 => quote!(f64),
        24 => quote!(dyn Tr<#n, Item = u8>),
        25 => quote!(Arc<Mutex<Vec<Option<(#n, T)>>>>),
        26 => quote!(r#type),
        27 => quote!(Self::#n),
        28 => quote!(crate::a::#n<{ 1 + 2 }>),
        29 => quote!(VALUE),
        30 => quote!(!),
        31 => quote!(char),
        32 => quote!(Option<#n>),
        33 => quote!(std::option::Option<Option<#n>>),
        _ => quote!(Option<Box<dyn Tr<'a>>>),
    }
}
const OPTION_TYPES: usize = 3;
const TYPES: usize = 35;
const TYPE_USES: usize = 12;
fn type_use(what: usize, t: TokenStream, pattern: Option<Pat>) -> StructC {
    let mut s = StructC::new(id("Target"), vec![]);
    s.generics = quote!(<'a, T: Tr<u8>, const N: usize>);
    s.pattern = pattern;
    let mut f = FieldC::new(id("field"), t);
    match what {
        0 => {}
        1 => f.setter.into = Some(true),
        2 => f.setter.strip = Some(true),
        3 => f.try_setter = true,
        4 => f.setter.skip = Some(true),
        5 => f.setter.custom = Some(true),
        6 => f.setter.each = Some((id("push_it"), Some(false))),
        7 => {
            f.setter.each = Some((id("push_it"), Some(true)));
            f.setter.into = Some(true);
            f.try_setter = true;
        }
        8 => f.default = Some(Def::Word),
        9 => {
            s.default = Some(Def::Word);
            f.setter.skip = Some(true);
        }
        10 => {
            f.fty = Some(std::mem::replace(&mut f.ty, quote!(u8)));
            f.setter.into = Some(true);
        }
        _ => {
            f.fty = Some(std::mem::replace(&mut f.ty, quote!(u8)));
            f.fbuild = Some(quote!(1));
            f.try_setter = true;
        }
    }
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f];
    s
}
fn field_types(len: usize) {
    let what = choice("use", TYPE_USES);
    let p = opt_pat("pattern");
    let n = sym_id("name", "Q", len);
    let shapes = if what == 2 { TYPES - OPTION_TYPES } else { TYPES };
    let t = types(choice("type", shapes), &n);
    let want = fill(&type_use(what, hole(), p).expand(), &flat(t.clone()));
    let got = type_use(what, t, p).expand();
    reach(1);
    check(got == want, 1);
}
/// Expressions, and (from 38) contents of blocks.
fn exprs(k: usize, n: &Ident) -> TokenStream {
    match k {
        0 => quote!(#n),
        1 => quote!(1 + 2),
        2 => quote!("text".into()),
        3 => quote!(vec![1, #n]),
        4 => quote!({
            let x = 1;
            x
        }),
        5 => quote!(if self.#n.is_some() { 1 } else { 2 }),
        6 => quote!(match self.#n {
            Some(ref y) => y.clone(),
            None => return Err("text".to_string().into()),
        }),
        7 => quote!(self.#n.clone().unwrap_or_default()),
        8 => quote!(self.helper()?),
        9 => quote!(|x| x + 1),
        10 => quote!(#n { a: 1, ..Default::default() }),
        11 => quote!(return Ok(#n)),
        12 => quote!(unsafe { f() }),
        13 => quote!(-1),
        14 => quote!(!#n),
        15 => quote!(&#n),
        16 => quote!(*#n),
        17 => quote!(1 as u8),
        18 => quote!((1, #n)),
        19 => quote!([#n; 3]),
        20 => quote!(true),
        21 => quote!(b'x'),
        22 => quote!('c'),
        23 => quote!(1.5e3),
        24 => quote!(f::<#n>::g),
        25 => quote!(loop {}),
        26 => quote!(1..=2),
        27 => quote!(Default::default()),
        28 => quote!(None),
        29 => quote!(Some(1)),
        30 => quote!(Vec::new()),
        31 => quote!(String::new()),
        32 => quote!(0),
        33 => quote!(false),
        34 => quote!(()),
        35 => quote!(Self::#n()),
        36 => quote!(<#n as Tr>::X),
        37 => quote!(b"bytes"),
        38 => quote!(let x = #n; x),
        39 => quote!(let #n = self.before.unwrap(); if #n > 1 { return Err("x".to_string().into()); } #n),
        40 => quote!(use a::#n; #n()),
        41 => quote!(f(); g(#n)),
        42 => quote!(static X: u8 = 1; X),
        _ => quote!("text"),
    }
}
const EXPRS: usize = 38;
const BLOCKS: usize = 44;
const EXPR_USES: usize = 13;
/// The uses from 7 on take an expression in a string, or the contents of a block in a string.
fn expr_use(what: usize, e: TokenStream, pattern: Option<Pat>, error: usize) -> StructC {
    let mut s = StructC::new(id("Target"), vec![]);
    s.pattern = pattern;
    s.build.error = match error {
        0 => None,
        1 => Some(ErrC::Path(quote!(my::Error))),
        _ => Some(ErrC::Generated(false)),
    };
    let mut f = FieldC::new(id("field"), quote!(Option<u8>));
    match what {
        0 => f.default = Some(Def::Expr(e)),
        1 => s.default = Some(Def::Expr(e)),
        2 => {
            s.default = Some(Def::Expr(e));
            f.default = Some(Def::Word);
        }
        3 => {
            f.default = Some(Def::Expr(e));
            f.setter.skip = Some(true);
        }
        4 => {
            f.default = Some(Def::Expr(e));
            f.setter.strip = Some(true);
        }
        5 => f.extra = vec![quote!(field(build = #e))],
        6 => {
            s.default = Some(Def::Expr(e));
            f.setter.skip = Some(true);
        }
        7 => f.default = Some(Def::Str(e)),
        8 => s.default = Some(Def::Str(e)),
        9 => {
            f.default = Some(Def::Str(e));
            f.setter.skip = Some(true);
        }
        10 => f.fbuild = Some(e),
        11 => {
            f.fbuild = Some(e);
            f.fty = Some(quote!(u8));
        }
        _ => {
            f.default = Some(Def::Str(e));
            s.default = Some(Def::Word);
        }
    }
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f, FieldC::new(id("after"), quote!(u8))];
    s
}
fn expressions(len: usize, deep: bool) {
    let what = choice("use", EXPR_USES);
    let p = if deep || what % 5 == 0 { opt_pat("pattern") } else { None };
    let error = if deep { choice("error", 3) } else { what % 3 };
    let n = sym_id("name", "q", len);
    let k = choice("expression", if what < 7 { EXPRS } else { BLOCKS });
    // literals that are no strings cannot be written for a build block without quotes
    assume(what != 5 || ![13, 20, 21, 22, 23, 32, 33, 37].contains(&k));
    let e = exprs(k, &n);
    let want = fill(&expr_use(what, hole(), p, error).expand(), &flat(e.clone()));
    let got = expr_use(what, e, p, error).expand();
    reach(2);
    check(got == want, 2);
}
/// Texts between quotes: what the text says is what is inserted, however it is laid out.
fn texts(k: usize, n: &str) -> (String, TokenStream) {
    let i = id(n);
    let (a, t) = match k {
        0 => (vec![n, "();"], quote!(#i();)),
        1 => (vec!["let ", n, " = 1;"], quote!(let #i = 1;)),
        2 => (vec!["{ ", n, " }"], quote!({ #i })),
        3 => (vec!["{ ", n, " };"], quote!({ #i };)),
        4 => (vec!["f(); ;"], quote!(f();;)),
        5 => (vec!["  ", n, "  "], quote!(#i)),
        6 => (vec!["\n\t", n, "\n"], quote!(#i)),
        7 => (vec!["// first\n", n], quote!(#i)),
        8 => (vec![n, " // last"], quote!(#i)),
        9 => (vec!["/* } */ ", n, "/* { */"], quote!(#i)),
        10 => (vec!["if ", n, " { 1 } else { 2 };"], quote!(if #i { 1 } else { 2 };)),
        11 => (vec!["\"; ", n, " }\""], { let l = ["; ", n, " }"].concat(); quote!(#l) }),
        12 => (vec!["'}'; ", n], quote!('}'; #i)),
        13 => (vec!["#[allow(unused)] let x = ", n, "; x"], quote!(#[allow(unused)] let x = #i; x)),
        14 => (vec!["fn ", n, "() {} ", n, "()"], quote!(fn #i() {} #i())),
        15 => (vec!["m!{ ", n, " }"], quote!(m!{ #i })),
        16 => (vec!["m!{ ", n, " } m!{}"], quote!(m!{ #i } m!{})),
        17 => (vec!["return ", n, ";"], quote!(return #i;)),
        18 => (vec!["- ", n], quote!(- #i)),
        19 => (vec!["1;2;3;", n], quote!(1;2;3;#i)),
        20 => (vec!["r#\"", n, "\"#"], { let l: TokenStream = ["r#\"", n, "\"#"].concat().parse().unwrap(); l }),
        21 => (vec!["a", ".", n, " . await"], quote!(a.#i.await)),
        22 => (vec!["\"\u{e4}\u{540d}\u{1f600} } // x\"; ", n], { let l = "\u{e4}\u{540d}\u{1f600} } // x"; quote!(#l; #i) }),
        23 => (vec!["/* \u{e4}\u{1f600} */ ", n, " // \u{e4}\u{1f600}"], quote!(#i)),
        24 => (vec!["\u{e4}_\u{540d}.", n], { let l = id("\u{e4}_\u{540d}"); quote!(#l.#i) }),
        _ => (vec!["1u8 ; // x\n//y"], quote!(1u8;)),
    };
    (a.concat(), t)
}
fn text(len: usize, deep: bool) {
    let what = choice("use", 4);
    let n = sym_name("name", "q", len);
    let (text, tokens) = texts(choice("text", 26), &n);
    let mk = |e: String| {
        let (mut s, mut f) = (StructC::new(id("Target"), vec![]), FieldC::new(id("field"), quote!(Option<u8>)));
        match what {
            0 => f.default = Some(Def::Text(e)),
            1 => s.default = Some(Def::Text(e)),
            2 => f.extra = vec![quote!(field(build = #e))],
            _ => {
                f.extra = vec![quote!(field(ty = "u8", build = #e))];
                f.setter.into = Some(true);
            }
        }
        s.pattern = if deep { opt_pat("pattern") } else { Some(PATS[what % 3]) };
        s.fields = vec![FieldC::new(id("before"), quote!(u8)), f];
        s.expand()
    };
    let want = fill(&mk(HOLE.to_string()), &flat(tokens));
    reach(5);
    check(mk(text) == want, 8);
}
/// What macro_rules hands over as a `$x:ty` or `$x:expr` fragment.
fn fragment(t: TokenStream) -> TokenStream {
    proc_macro2::TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::None, t)).into()
}
/// Types and expressions from fragments stay in one piece.
fn fragments(len: usize, deep: bool) {
    let n = sym_id("name", "q", len);
    let p = if deep { opt_pat("pattern") } else { None };
    let (mk, t): (Box<dyn Fn(TokenStream) -> StructC>, TokenStream) = if flag("type") {
        // the last two are written as strings
        let what = choice("use", TYPE_USES - 2);
        let t = types([0, 2, 8, 11, 13, 24][choice("type", 6)], &n);
        (Box::new(move |t| type_use(what, t, p)), t)
    } else {
        let what = choice("use", 6);
        let t = match choice("expression", 6) {
            0 => quote!(1 + #n),
            1 => quote!(#n),
            2 => quote!(|x| x + #n),
            3 => quote!({ #n }),
            4 => quote!(Some(#n) as Option<u8>),
            _ => quote!(return #n),
        };
        let mk = move |e: TokenStream| {
            let (mut s, mut f) = (StructC::new(id("Target"), vec![]), FieldC::new(id("field"), quote!(Option<u8>)));
            match what {
                0 => f.default = Some(Def::Expr(e)),
                1 => s.default = Some(Def::Expr(e)),
                2 => f.extra = vec![quote!(field(build = #e))],
                3 => f.extra = vec![quote!(field(ty = "u8", build = #e))],
                4 => {
                    f.default = Some(Def::Expr(e));
                    f.setter.skip = Some(true);
                }
                _ => {
                    f.default = Some(Def::Expr(quote!(1 * #e)));
                }
            }
            s.pattern = p;
            s.fields = vec![FieldC::new(id("before"), quote!(u8)), f];
            s
        };
        (Box::new(mk), t)
    };
    let f = fragment(t);
    let want = fill(&grouped(expand(mk(hole()).ts())), &grouped(f.clone()));
    let got = grouped(expand(mk(f).ts()));
    reach(6);
    check(got == want, 9);
}
fn paths(k: usize, n: &Ident) -> TokenStream {
    match k {
        0 => quote!(#n),
        1 => quote!(Self::#n),
        2 => quote!(a::b::#n),
        3 => quote!(::a::#n),
        4 => quote!(crate::#n),
        5 => quote!(self::#n),
        6 => quote!(super::super::#n),
        7 => quote!(#n::<u8>::f),
        8 => quote!(#n::<'static, T>),
        _ => quote!(Validator::<{ 1 }>::#n),
    }
}
fn path_use(what: usize, t: TokenStream, pattern: Option<Pat>) -> StructC {
    let mut s = StructC::new(id("Target"), vec![FieldC::new(id("field"), quote!(u8)), FieldC::new(id("other"), quote!(u16))]);
    s.pattern = pattern;
    match what {
        0 => s.build.validate = Some(t),
        1 => s.build.error = Some(ErrC::Path(t)),
        2 => {
            s.build.validate = Some(t);
            s.build.error = Some(ErrC::Path(quote!(my::Error)));
        }
        3 => {
            s.build.error = Some(ErrC::Path(t));
            s.default = Some(Def::Word);
        }
        4 => {
            s.build.error = Some(ErrC::Path(t));
            s.no_std = true;
            s.build.validate = Some(quote!(check));
            s.fields[0].setter.skip = Some(true);
        }
        5 => s.derive = vec![quote!(Debug), t, quote!(PartialEq)],
        6 => s.derive = vec![t],
        _ => {
            // without a prefix the placeholder would be a crate
            s.build.validate = Some(t);
            s.default = Some(Def::Str(quote!(x())));
            s.build.vis = VisC::of(Some(V::Crate));
            s.generics = quote!(<T: Copy>);
        }
    }
    s
}
fn user_paths(len: usize) {
    let what = choice("use", 8);
    let p = opt_pat("pattern");
    let n = sym_id("name", "q", len);
    let t = paths(choice("path", if what == 5 || what == 6 { 7 } else { 10 }), &n);
    let want = fill(&path_use(what, hole(), p).expand(), &flat(t.clone()));
    let got = path_use(what, t, p).expand();
    reach(3);
    check(got == want, 3);
}
/// The code generated for the fields does not depend on the parameters of the struct.
fn generics(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(id("field"), quote!(Option<Vec<T>>));
    if flag("struct option") {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    let n = if deep || s.opts().is_empty() { choice("field option", F_OPTS + 1) } else { F_OPTS };
    if n < F_OPTS {
        f_opt(&mut f, n);
    }
    assume(s.crate_root.is_none());
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f];
    assume(!contradictory(&s));
    let o = parse(&s.expand());
    let mut t = s.clone();
    let a = sym_id("name", "Q", 2);
    let (g, w) = match choice("generics", 7) {
        0 => (quote!(<T>), quote!()),
        1 => (quote!(<'a, T: 'a + Clone>), quote!()),
        2 => (quote!(<#a: Tr<T>, T>), quote!(where T: Copy, Vec<T>: Clone)),
        3 => (quote!(<const #a: usize, T = u8>), quote!()),
        4 => (quote!(<'a, 'b: 'a, T, #a: ?Sized>), quote!(where 'b: 'a)),
        5 => (quote!(<T: Default + PartialEq, #a, R, S>), quote!()),
        _ => (quote!(<>), quote!(where)),
    };
    t.generics = g;
    t.where_ = w;
    let p = parse(&t.expand());
    reach(4);
    check(p.errors() == 0, 4);
    for i in 0..2 {
        check(piece(&s, &o, &s.fields[i]) == piece(&t, &p, &t.fields[i]), 5);
    }
    check(o.fns().len() == p.fns().len(), 6);
}
symrt::harness! {
    h_types => field_types(1);
    h_exprs => expressions(2, false);
    h_paths => user_paths(2);
    h_generics => generics(false);
    h_fragments => fragments(2, false);
    h_fragments_deep => fragments(3, true);
    h_texts => text(2, false);
    h_texts_deep => text(6, true);
    h_types_deep => field_types(6);
    h_exprs_deep => expressions(6, true);
    h_paths_deep => user_paths(8);
    h_generics_deep => generics(true);
}
