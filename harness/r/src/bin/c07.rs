#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c07.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc07.rs");
}
use std::collections::BTreeMap;
/// Map-like and user collections: item order, keys and values.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pairs(pub Vec<(u8, N)>);
impl Extend<(u8, N)> for Pairs {
    fn extend<I: IntoIterator<Item = (u8, N)>>(&mut self, it: I) { for x in it { self.0.push(x); } }
}
pub struct Kv(u8, u8);
impl From<Kv> for (u8, N) { fn from(k: Kv) -> Self { conv(); (k.0, N(k.1 as u32)) } }
macro_rules! suite {
    ($p:tt, $m:ident) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p)]
            pub struct S {
                #[builder(setter(each(name = "pair", into)))]
                pub ps: Pairs,
                #[builder(setter(into, strip_option, each = "word"), default)]
                pub ws: Option<Vec<String>>,
                #[builder(setter(name = "all", each(name = "one")), default = "Pairs(vec![(9, N(9))])")]
                pub qs: Pairs,
            }
            pub fn run(k: usize) {
                reset();
                let mut b = SBuilder::default();
                let (mut ps, mut ws, mut qs) = (None::<Pairs>, None::<Vec<String>>, None::<Pairs>);
                for _ in 0..k {
                    match below("op", 7) {
                        0 => { let (x, y) = (any_u8("k"), any_u8("v")); let c = convs(); upd!($p, b, pair(Kv(x, y))); check(convs() == c + 1, 1); ps.get_or_insert_with(Default::default).0.push((x, N(y as u32))); }
                        1 => { let x = any_u8("k"); upd!($p, b, ps(Pairs(vec![(x, N(1))]))); ps = Some(Pairs(vec![(x, N(1))])); }
                        2 => { let s = String::from(if flag("w") { "x" } else { "yy" }); upd!($p, b, word(s.clone())); ws.get_or_insert_with(Vec::new).push(s); }
                        3 => { upd!($p, b, ws(vec![String::from("w")])); ws = Some(vec![String::from("w")]); }
                        4 => { let x = any_u8("k"); upd!($p, b, one((x, N(2)))); qs.get_or_insert_with(Default::default).0.push((x, N(2))); }
                        5 => { let x = any_u8("k"); upd!($p, b, all(Pairs(vec![(x, N(3)), (x, N(4))]))); qs = Some(Pairs(vec![(x, N(3)), (x, N(4))])); }
                        _ => break,
                    }
                }
                match b.build() {
                    Ok(s) => {
                        reach(1);
                        check(ps == Some(s.ps), 2);
                        check(s.ws == ws, 3);
                        check(s.qs == qs.unwrap_or(Pairs(vec![(9, N(9))])), 4);
                    }
                    Err(SBuilderError::UninitializedField(n)) => { reach(2); check(n == "ps" && ps.is_none(), 5) }
                    Err(_) => fail("wrong error"),
                }
            }
        }
    };
}
suite!("mutable", mutable);
suite!("owned", owned);
suite!("immutable", immutable);
fn kinds(k: usize) {
    match choice("pat", 3) { 0 => mutable::run(k), 1 => owned::run(k), _ => immutable::run(k) }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
    h_kinds => kinds(4);
    h_kinds_deep => kinds(5);
}
