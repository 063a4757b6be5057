#![allow(warnings)]
//! C20: each field's generated code depends only on the field itself.
use g::*;

fn field(n: Ident, ty: TokenStream, k: usize) -> FieldC {
    let mut f = FieldC::new(n, ty);
    if k < F_OPTS {
        f_opt(&mut f, k);
    } else if k == F_OPTS {
        f.attrs = vec![quote!(#[doc = "text"]), quote!(#[cfg(x)]), quote!(#[builder_setter_attr(must_use)])];
    }
    if f.setter.each.is_some() {
        let mine = id(&["push_", &f.ident.to_string()].concat());
        f.setter.each.as_mut().unwrap().0 = mine;
    }
    if f.setter.name.is_some() {
        f.setter.name = Some(id(&["assign_", &f.ident.to_string()].concat()));
    }
    f
}
/// Everything generated must be attributed to some field or to the struct, in order.
fn order(s: &StructC, o: &Out) {
    let n = s.fields.len();
    check(o.fields().len() == n, 1);
    let e = empties(s, o);
    check(e.len() == n, 2);
    let i = if s.build.skip { vec![] } else { o.inits(&s.build_name(), &s.ident.to_string()) };
    check(s.build.skip || i.len() == n, 3);
    for (k, f) in s.fields.iter().enumerate() {
        let name = f.ident.to_string();
        check(o.fields()[k].name == name, 4);
        check(e[k].0 == name, 5);
        if !s.build.skip {
            check(i[k].0 == name, 6);
        }
    }
    // setters: the expected ones, in field order
    let want = expected_fns(s);
    check(o.fns().len() == want.len(), 7);
    let mut last = 0;
    for f in &s.fields {
        if s.has_setter(f) {
            let at = match o.fns().iter().position(|m| m.name == s.setter_name(f)) {
                Some(p) => p,
                None => fail("a setter is missing"),
            };
            check(at >= last, 8);
            last = at + 1;
        }
    }
}
fn with(s: &StructC, f: &[&FieldC]) -> (StructC, Out) {
    let mut t = s.clone();
    t.fields = f.iter().map(|x| (*x).clone()).collect();
    let o = parse(&t.expand());
    check(o.errors() == 0, 9);
    order(&t, &o);
    (t, o)
}
/// Two fields, alone and together in both orders.
fn two(s: StructC, a: FieldC, b: FieldC) {
    let (s1, o1) = with(&s, &[&a]);
    let (s2, o2) = with(&s, &[&b]);
    let (s12, o12) = with(&s, &[&a, &b]);
    let (s21, o21) = with(&s, &[&b, &a]);
    reach(1);
    let (pa, pb) = (piece(&s1, &o1, &a), piece(&s2, &o2, &b));
    check(pa == piece(&s12, &o12, &a), 10);
    check(pb == piece(&s12, &o12, &b), 11);
    check(pa == piece(&s21, &o21, &a), 12);
    check(pb == piece(&s21, &o21, &b), 13);
}
fn pairs(n: usize) {
    let ka = choice("field a", n);
    let a = field(sym_id("a", "a_", 2), quote!(Option<Vec<u8>>), ka);
    let b = field(sym_id("b", "b_", 2), quote!(Option<Vec<u8>>), ka + choice("field b", n - ka));
    two(StructC::new(id("Target"), vec![]), a, b);
}
/// A field next to another one under each struct-level option.
fn under() {
    let mut s = StructC::new(id("Target"), vec![]);
    s_opt(&mut s, choice("struct option", S_OPTS));
    let k = choice("field a", 6);
    let a = field(id("a"), quote!(Option<u8>), [F_OPTS + 1, 0, 6, 13, 20, 27][k]);
    let b = field(id("b"), quote!(u8), [F_OPTS + 1, 2, 15, 22, 9, 23][choice("field b", 6)]);
    two(s, a, b);
}
fn under_all() {
    let mut s = StructC::new(id("Target"), vec![]);
    s_opt(&mut s, choice("struct option", S_OPTS));
    let a = field(id("a"), quote!(Option<u8>), choice("field a", F_OPTS));
    let b = field(id("b"), quote!(u8), [F_OPTS + 1, 2, 11, 13, 15, 22, 9, 23][choice("field b", 8)]);
    two(s, a, b);
}
/// Up to five fields: a field in the middle of the others is as it is alone.
fn many(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let pre = choice("before", 3);
    let post = choice("after", 3);
    let ks = [0, 2, 10, 13, 15, 20, 23, 26, 27, 28, 30];
    let f = field(sym_id("field", "f_", 2), quote!(Option<u8>), ks[choice("field", ks.len())]);
    let (_, o1) = with(&s, &[&f]);
    let mut s1 = s.clone();
    s1.fields = vec![f.clone()];
    let p = piece(&s1, &o1, &f);
    let mut v = Vec::new();
    for i in 0..pre + post + 1 {
        if i == pre {
            v.push(f.clone());
        } else {
            let k = if deep { choice("other", ks.len()) } else { (i * 3 + pre * 5 + post) % ks.len() };
            v.push(field(id(["p", "q", "r", "s", "t", "u"][i]), quote!(u64), ks[k]));
        }
    }
    let r: Vec<&FieldC> = v.iter().collect();
    let (sn, on) = with(&s, &r);
    reach(2);
    check(piece(&sn, &on, &f) == p, 20);
}
/// Up to sixteen fields, the one in question anywhere among them.
fn wide(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let n = if deep { 1 + choice("fields", 24) } else { [6, 9, 12, 17][choice("fields", 4)] };
    let at = if deep {
        choice("position", n)
    } else {
        [0, 1, 2, n / 2, n - 2, n - 1][choice("position", 6)]
    };
    match choice("struct option", 5) {
        0 => {}
        1 => s.default = Some(Def::Word),
        2 => s.pattern = Some(Pat::Owned),
        3 => s.try_setter = true,
        _ => s.setter.skip = Some(true),
    }
    let ks = [F_OPTS + 1, 9, 13, 17, 20, 21, 27];
    let f = field(sym_id("field", "f_", 2), quote!(Option<u8>), ks[choice("field", ks.len())]);
    let mut s1 = s.clone();
    s1.fields = vec![f.clone()];
    let (_, o1) = with(&s, &[&f]);
    let p = piece(&s1, &o1, &f);
    let others = if deep { choice("others", 3) } else { (n + at) % 3 };
    let mut v = Vec::new();
    for i in 0..n {
        if i == at {
            v.push(f.clone());
        } else {
            let k = [F_OPTS + 1, 21, if i % 2 == 0 { 13 } else { 0 }][others];
            v.push(field(id(&["other", &i.to_string()].concat()), quote!(u64), k));
        }
    }
    let r: Vec<&FieldC> = v.iter().collect();
    let (sn, on) = with(&s, &r);
    reach(5);
    check(piece(&sn, &on, &f) == p, 50);
}
/// The expansion is a function of the input: doing it twice gives the same tokens,
/// also after other structs were expanded.
fn twice() {
    let mut s = StructC::new(sym_id("target", "T", 2), vec![]);
    s_opt(&mut s, choice("struct option", S_OPTS));
    let f = field(sym_id("field", "f_", 2), quote!(Option<Vec<u8>>), 3 * choice("field option", F_OPTS / 3));
    s.fields = vec![f];
    let a = s.expand();
    let mut t = StructC::new(id("Between"), vec![FieldC::new(id("x"), quote!(u8))]);
    t.pattern = Some(Pat::Immutable);
    t.try_setter = true;
    t.expand();
    let b = s.expand();
    reach(3);
    check(a == b, 30);
}
/// Empty structs and structs without any setter.
fn none() {
    let mut s = StructC::new(id("Target"), vec![]);
    s_opt(&mut s, choice("struct option", S_OPTS));
    let o = parse(&s.expand());
    reach(4);
    check(o.errors() == 0, 40);
    order(&s, &o);
}
symrt::harness! {
    h_pairs => pairs(F_OPTS + 1);
    h_under => under();
    h_many => many(false);
    h_wide => wide(false);
    h_twice => twice();
    h_empty => none();
    h_under_deep => under_all();
    h_wide_deep => wide(true);
    h_many_deep => many(true);
}
