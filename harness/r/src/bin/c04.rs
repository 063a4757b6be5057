#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c04.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc04.rs");
}
/// Two builders: every interleaving of setters on either, cloning one into the
/// other, and building either. Each must behave like its own history replayed.
macro_rules! two {
    ($p:tt, $m:ident) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p, derive(PartialEq, Debug))]
            pub struct S {
                pub a: N,
                #[builder(default = "Cp(self.a.as_ref().map(|n| n.0).unwrap_or(3))")]
                pub b: Cp,
                #[builder(setter(each(name = "item", into)), default)]
                pub v: Vec<N>,
                #[builder(setter(strip_option), default)]
                pub o: Option<N>,
            }
            #[derive(Clone, Default)]
            pub struct M { a: Option<N>, b: Option<Cp>, v: Option<Vec<N>>, o: Option<N> }
            pub fn same(b: &SBuilder, m: &M) {
                check(b.a == m.a && b.b == m.b && b.v == m.v, 1);
                check(b.o == m.o.clone().map(Some), 2);
            }
            pub fn built(b: &SBuilder, m: &M) {
                match b.build() {
                    Ok(s) => {
                        reach(1);
                        check(m.a == Some(s.a.clone()), 3);
                        check(s.b == m.b.unwrap_or(Cp(s.a.0)), 4);
                        check(s.v == m.v.clone().unwrap_or_default(), 5);
                        check(s.o == m.o, 6);
                    }
                    Err(SBuilderError::UninitializedField(n)) => { reach(2); check(n == "a" && m.a.is_none(), 7) }
                    Err(_) => fail("wrong error"),
                }
            }
            pub fn run(k: usize) {
                reset();
                let mut b0 = SBuilder::default();
                let mut b1 = SBuilder::default();
                let (mut m0, mut m1) = (M::default(), M::default());
                for _ in 0..k {
                    macro_rules! on { ($b:ident, $mm:ident, $op:expr, $ob:ident, $om:ident) => { match $op {
                        0 => { let v = any_u32("v"); upd!($p, $b, a(N(v))); $mm.a = Some(N(v)); }
                        1 => { let v = any_u32("v"); upd!($p, $b, b(Cp(v))); $mm.b = Some(Cp(v)); }
                        2 => { let v = any_u8("v"); upd!($p, $b, item(v)); $mm.v.get_or_insert_with(Vec::new).push(N(n_of_u8(v))); }
                        3 => { let v = any_u32("v"); upd!($p, $b, o(N(v))); $mm.o = Some(N(v)); }
                        4 => { built(&$b, &$mm); }
                        _ => { $ob = $b.clone(); $om = $mm.clone(); reach(3); }
                    } } }
                    let op = below("op", 13);
                    if op == 12 { break; }
                    if op < 6 { on!(b0, m0, op, b1, m1) } else { on!(b1, m1, op - 6, b0, m0) }
                    same(&b0, &m0);
                    same(&b1, &m1);
                }
                built(&b0, &m0);
                built(&b1, &m1);
                built(&b0, &m0);
                same(&b0, &m0);
                same(&b1, &m1);
            }
        }
    };
}
two!("mutable", mutable);
two!("immutable", immutable);
fn pair(k: usize) {
    match choice("pat", 2) { 0 => mutable::run(k), _ => immutable::run(k) }
}
/// Immutable setters keep every earlier stage of a chain usable.
#[derive(Builder, Debug, PartialEq, Clone)]
#[builder(pattern = "immutable", derive(PartialEq, Debug), try_setter, setter(into))]
pub struct Im { pub a: N, pub b: Cp, #[builder(setter(each = "x"))] pub v: Vec<N> }
fn stages() {
    let b0 = ImBuilder::default();
    let (x, y, z) = (any_u8("x"), any_u16("y"), any_u32("z"));
    let b1 = b0.a(x);
    let r2 = b1.try_b(y);
    check(b0 == ImBuilder::default(), 20);
    check(b1.a == Some(N(n_of_u8(x))) && b1.b.is_none() && b1.v.is_none(), 21);
    let b2 = match r2 { Ok(b) => { check(n_of_u16(y).is_ok(), 22); b } Err(e) => { reach(4); check(e == Bad(y) && n_of_u16(y).is_err(), 23); b1.b(Cp(1)) } };
    let yb = n_of_u16(y).unwrap_or(1);
    let b3 = b2.x(N(z));
    let b4 = b3.x(N(!z));
    check(b2.a == b1.a && b2.b == Some(Cp(yb)) && b2.v.is_none(), 24);
    check(b3.v == Some(vec![N(z)]) && b3.a == b1.a && b3.b == b2.b, 25);
    check(b4.v == Some(vec![N(z), N(!z)]), 26);
    check(b2.build().is_err() && b1.build().is_err(), 27);
    match (b3.build(), b4.build(), b3.build()) {
        (Ok(p), Ok(q), Ok(r)) => { reach(1); check(p == r && p.v == vec![N(z)] && q.v.len() == 2 && q.v[1] == N(!z) && q.a == p.a && q.b == p.b, 28) }
        _ => fail("build"),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
    h_pair => pair(3);
    h_pair_deep => pair(4);
    h_stages => stages();
}
