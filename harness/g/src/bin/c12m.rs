#![allow(warnings)]
//! C12 (macro side): constructor options change exactly what they say.
use g::*;
use T::*;

fn rename(ts: &[T], from: &str, to: &str) -> Vec<T> {
    ts.iter()
        .map(|t| match t {
            I(x) if x == from => I(to.to_string()),
            G(d, g) => G(*d, rename(g, from, to)),
            t => t.clone(),
        })
        .collect()
}
fn without_default(o: &Out) -> Vec<Item> {
    o.items
        .iter()
        .filter(|i| match &i.kind {
            Kind::Impl { trait_: Some(t), .. } => last_segment(t) != Some("Default"),
            _ => true,
        })
        .cloned()
        .collect()
}
fn decide(mut s: StructC) {
    // with and without custom_constructor
    let name = sym_id("create_empty", "ce_", 3);
    s.custom_ctor = false;
    s.create_empty = None;
    let base_ts = s.expand();
    let base = parse(&base_ts);
    reach(1);
    check(base.errors() == 0, 1);
    check(base.impls_of("Default").len() == 1, 2);
    let mut c = s.clone();
    c.custom_ctor = true;
    let co = parse(&c.expand());
    check(co.impls_of("Default").is_empty(), 3);
    check(co.items == without_default(&base), 4);
    // the other name
    let mut n = s.clone();
    n.create_empty = Some(name.clone());
    let nts = n.expand();
    check(rename(&nts, &name.to_string(), "create_empty") == base_ts, 5);
    check(!has_ident(&nts, "create_empty"), 6);
    // the create-empty function: private, no arguments, returns the builder
    let f = base.need_fn("create_empty");
    check(f.inputs.is_empty() && f.ret == toks!(Self) && f.vis.is_empty(), 7);
    // build-time defaults do not reach the empty builder
    let mut d = s.clone();
    d.default = None;
    for f in &mut d.fields {
        f.default = None;
    }
    let dout = parse(&d.expand());
    check(empties(&s, &base) == empties(&d, &dout), 8);
    check(base.builder() == dout.builder(), 9);
}
fn combos(deep: bool) {
    let mut s = StructC::new(id("Target"), vec![]);
    let mut f = FieldC::new(sym_id("field", "f_", 2), quote!(Option<Vec<u8>>));
    let mut g = FieldC::new(id("other"), quote!(u8));
    let a = choice("field option", F_OPTS);
    f_opt(&mut f, a);
    if deep || a % 10 == 0 {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    match choice("default", 4) {
        0 => {}
        1 => g.default = Some(Def::Expr(quote!(7))),
        2 => {
            if s.default.is_none() {
                s.default = Some(Def::Word)
            }
        }
        _ => {
            g.default = Some(Def::Word);
            s.default = Some(Def::Expr(quote!(Self::make())));
        }
    }
    s.fields = vec![f, g];
    decide(s);
}
symrt::harness! {
    h_ctor => combos(false);
    h_ctor_deep => combos(true);
}
