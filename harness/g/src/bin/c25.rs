#![allow(warnings)]
//! C25: how options are written down does not matter, only what they say.
use g::*;
use proc_macro2::{Delimiter, Group, TokenTree};

/// The options in a list.
fn items(ts: &TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v = vec![vec![]];
    for t in ts.clone() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(vec![]),
            _ => v.last_mut().unwrap().push(t),
        }
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v
}
fn word(o: &[TokenTree]) -> Option<String> {
    match &o[0] {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    }
}
/// Names whose contents in parentheses are options.
fn is_list(o: &[TokenTree]) -> bool {
    o.len() == 2 && matches!(word(o).as_deref(), Some("setter" | "build_fn" | "field" | "error" | "each"))
}
fn ts(o: &[TokenTree]) -> TokenStream {
    o.iter().cloned().collect()
}
/// The same value, from a macro_rules fragment.
fn fragment(t: TokenStream, part: usize) -> TokenStream {
    let o: Vec<TokenTree> = t.clone().into_iter().collect();
    let eq = matches!(o.get(1), Some(TokenTree::Punct(p)) if p.as_char() == '=');
    if part & 16 != 0 && eq {
        let v = TokenTree::Group(Group::new(Delimiter::None, ts(&o[2..])));
        let k = &o[0];
        return quote!(#k = #v);
    }
    t
}
/// Another way to write one option that is documented to mean the same.
fn alternative(o: &[TokenTree], part: usize) -> TokenStream {
    let w = word(o).unwrap_or_default();
    let plain = ts(o);
    if o.len() == 1 && part & 1 != 0 && matches!(&w[..], "into" | "strip_option" | "skip" | "custom") {
        return quote!(#plain = true);
    }
    if o.len() == 1 && part & 1 != 0 {
        return match &w[..] {
            "public" => quote!(vis = "pub"),
            _ => plain,
        };
    }
    if o.len() == 3 {
        if let TokenTree::Literal(l) = &o[2] {
            let v = &o[2];
            let s = l.to_string();
            let s = s.trim_matches('"');
            return match &w[..] {
                "each" if part & 2 != 0 => quote!(each(name = #v)),
                // an expression
                "default" if part & 4 != 0 => match s.parse::<TokenStream>() {
                    Ok(e) => quote!(default = #e),
                    Err(_) => fail("a default that cannot be parsed"),
                },
                "vis" if part & 1 != 0 && s == "pub" => quote!(public),
                // names and paths
                "name" | "prefix" | "create_empty" | "each" | "crate" | "validate" | "error" if part & 8 != 0 => match s.parse::<TokenStream>() {
                    Ok(e) => {
                        let k = &o[0];
                        quote!(#k = #e)
                    }
                    Err(_) => fail("a name that cannot be parsed"),
                },
                _ => plain,
            };
        }
    }
    if w == "default" && o.len() > 2 && part & 4 != 0 {
        let s = ts(&o[2..]).to_string();
        return quote!(default = #s);
    }
    plain
}
#[derive(Clone, Copy)]
struct How {
    order: usize,
    trailing: bool,
    part: usize,
    attrs: usize,
}
fn rewrite(opts: Vec<Vec<TokenTree>>, how: How) -> Vec<TokenStream> {
    let mut v: Vec<TokenStream> = opts
        .iter()
        .map(|o| {
            if is_list(o) {
                if let TokenTree::Group(g) = &o[1] {
                    let inner = rewrite(items(&g.stream()), how);
                    let c = if how.trailing { quote!(,) } else { quote!() };
                    let head = &o[0];
                    return quote!(#head(#(#inner),* #c));
                }
            }
            fragment(alternative(o, how.part), how.part)
        })
        .collect();
    match how.order {
        0 => {}
        1 => v.reverse(),
        _ => {
            if !v.is_empty() {
                v.rotate_left(1)
            }
        }
    }
    v
}
fn attrs(opts: &[TokenStream], how: How) -> TokenStream {
    let list: Vec<Vec<TokenTree>> = opts.iter().map(|o| o.clone().into_iter().collect()).collect();
    let v = rewrite(list, how);
    let c = if how.trailing && !v.is_empty() { quote!(,) } else { quote!() };
    match how.attrs {
        0 => quote!(#[builder(#(#v),* #c)]),
        1 => quote!(#(#[builder(#v #c)])*),
        2 => {
            // an empty attribute, and something foreign in between
            let v = v.iter();
            quote!(#[builder()] #(#[foreign(x)] #[builder(#v)])* #[foreign(y)])
        }
        _ => {
            let h = v.len() / 2;
            let (a, b) = v.split_at(h);
            quote!(#[builder(#(#a),*)] #[builder(#(#b),* #c)])
        }
    }
}
fn decide(s: &StructC, how: How) {
    assume(!contradictory(s));
    let want = s.expand();
    check(parse(&want).errors() == 0, 1);
    let got = flat(expand(s.ts_as(&|o| attrs(o, how))));
    reach(1);
    check(got == want, 2);
}
fn how_of(k: usize) -> How {
    match k {
        0 => How { order: 1, trailing: false, part: 0, attrs: 0 },
        1 => How { order: 0, trailing: true, part: 7, attrs: 1 },
        2 => How { order: 2, trailing: false, part: 17, attrs: 2 },
        3 => How { order: 1, trailing: true, part: 12, attrs: 3 },
        _ => How { order: 0, trailing: true, part: 26, attrs: 3 },
    }
}
fn how(deep: bool) -> How {
    if deep {
        How { order: choice("order", 3), trailing: flag("trailing comma"), part: choice("alternatives", 32), attrs: choice("attributes", 4) }
    } else {
        how_of(choice("how", 5))
    }
}
fn target() -> (StructC, FieldC) {
    (StructC::new(id("Target"), vec![]), FieldC::new(id("field"), quote!(Option<Vec<u8>>)))
}
fn finish(mut s: StructC, f: FieldC) -> StructC {
    s.fields = vec![FieldC::new(id("before"), quote!(u8)), f];
    s
}
fn pair(kind: usize) -> (StructC, How) {
    let (mut s, mut f) = target();
    let k;
    match kind {
        0 => {
            let a = choice("struct option", S_OPTS);
            let b = choice("field option", F_OPTS);
            s_opt(&mut s, a);
            f_opt(&mut f, b);
            k = a + b;
        }
        1 => {
            let a = choice("first", S_OPTS - 1);
            let b = a + 1 + choice("second", S_OPTS - 1 - a);
            let x = s_opt(&mut s, a);
            let y = s_opt(&mut s, b);
            k = a + b;
            assume(x != y);
        }
        _ => {
            let a = choice("first", F_OPTS - 1);
            let b = a + 1 + choice("second", F_OPTS - 1 - a);
            let x = f_opt(&mut f, a);
            let y = f_opt(&mut f, b);
            k = a + b;
            assume(x != y);
        }
    }
    (finish(s, f), how_of(k % 5))
}
/// Long lists: many options at both levels.
fn long(deep: bool) -> StructC {
    let (mut s, mut f) = target();
    s.name = Some(sym_id("name", "Q", 2));
    s.setter.prefix = Some(sym_id("prefix", "q", 2));
    s.setter.into = Some(flag("struct into"));
    s.setter.strip = Some(true);
    s.derive = vec![quote!(Debug), quote!(PartialEq)];
    s.build.name = Some(id("finish"));
    s.build.vis = VisC::of(Some(V::Crate));
    s.build.validate = Some(quote!(check));
    s.no_std = true;
    s.try_setter = deep && flag("struct try_setter");
    s.visibility = VisC::of([None, Some(V::Pub), Some(V::Super)][choice("struct vis", 3)]);
    s.create_empty = Some(id("blank"));
    s.default = Some(Def::Str(quote!(make()?)));
    s.pattern = opt_pat("pattern");
    s.crate_root = Some(quote!(a::b));
    s.fvis = VisC::of(Some(V::Pub));
    f.pattern = Some(Pat::Immutable);
    f.visibility = VisC::of([None, Some(V::Pub), Some(V::Inh)][if deep { choice("field vis", 3) } else { 1 }]);
    f.setter.name = Some(id("assign"));
    f.setter.into = Some(!deep || flag("into"));
    f.setter.strip = Some(false);
    f.setter.each = Some((id("push_it"), if deep { tri("each into") } else { Some(true) }));
    f.fvis = VisC::of(Some(V::Crate));
    f.try_setter = true;
    match choice("value", 3) {
        0 => f.default = Some(Def::Expr(quote!(vec![1, 2]))),
        1 => f.default = Some(Def::Word),
        _ => {
            f.fty = Some(quote!(Vec<u8>));
            f.fbuild = Some(quote!(self.field.clone()));
        }
    }
    finish(s, f)
}
fn triple(kind: usize) -> StructC {
    let (mut s, mut f) = target();
    let (ns, nf) = [(3, 0), (0, 3)][kind];
    let mut seen = [99usize; 6];
    let mut last = 0;
    for i in 0..ns {
        assume(last < S_OPTS);
        let a = last + choice("struct option", S_OPTS - last);
        last = a + 1;
        seen[i] = s_opt(&mut s, a);
    }
    last = 0;
    for i in 0..nf {
        assume(last < F_OPTS);
        let a = last + choice("field option", F_OPTS - last);
        last = a + 1;
        seen[3 + i] = f_opt(&mut f, a);
    }
    for (lo, n) in [(0, ns), (3, nf)] {
        for i in lo..lo + n {
            for j in lo..i {
                assume(seen[i] != seen[j]);
            }
        }
    }
    finish(s, f)
}
/// One option, written in every way.
fn single() -> StructC {
    let (mut s, mut f) = target();
    if flag("at field") {
        f_opt(&mut f, choice("field option", F_OPTS));
    } else {
        s_opt(&mut s, choice("struct option", S_OPTS));
    }
    finish(s, f)
}
symrt::harness! {
    h_single => decide(
        &single(),
        How { order: 0, trailing: flag("trailing comma"), part: [0, 7, 8, 13, 16, 29][choice("alternatives", 6)], attrs: choice("attributes", 4) },
    );
    h_pairs => {
        let (s, h) = pair(choice("which options", 3));
        decide(&s, h);
    };
    h_long => decide(&long(false), how(false));
    h_pairs_deep => decide(&pair(choice("which options", 3)).0, how(true));
    h_triples_deep => decide(&triple(choice("which options", 2)), how(false));
    h_long_deep => decide(&long(true), how(true));
}
