#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c05.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc05.rs");
}
/// Conversions beyond the grid: strings, slices, boxes, generics, user From impls.
#[derive(Builder, Debug, PartialEq, Clone)]
#[builder(setter(into, strip_option))]
pub struct Mix {
    pub s: String,
    pub os: Option<String>,
    pub b: Box<[N]>,
    pub ob: Option<Box<N>>,
    pub w: Wrap,
    pub ow: ::core::option::Option<Wrap>,
    #[builder(setter(into = false))]
    pub pi: Option<u16>,
    #[builder(setter(strip_option = false))]
    pub ni: Option<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Wrap(pub u8, pub u32);
impl From<u32> for Wrap { fn from(v: u32) -> Wrap { conv(); Wrap(1, v) } }
impl From<Option<u32>> for Wrap { fn from(v: Option<u32>) -> Wrap { conv(); Wrap(2, v.unwrap_or(77)) } }
fn both() {
    reset();
    let mut b = MixBuilder::default();
    let s = sym_string("len", 2);
    let x = any_u32("x");
    let (k, o) = (below("kind", 2), flag("o"));
    if k == 0 { b.s(s.as_str()); b.os(s.clone()); } else { b.s(s.clone()); b.os(s.as_str()); }
    b.b(vec![N(x), N(!x)]).ob(N(x));
    check(convs() == 0, 1);
    // the argument decides which conversion runs: u32 and Option<u32> are both convertible
    if o { b.w(if flag("n") { Some(x) } else { None }); } else { b.w(x); }
    check(convs() == 1, 2);
    b.ow(x);
    check(convs() == 2, 3);
    let p: u16 = any_u16("p");
    b.pi(p);
    let n = below("nk", 3);
    match n { 0 => { b.ni(None); } 1 => { b.ni(Some(p)); } _ => { b.ni(p); } }
    let m = match b.build() { Ok(m) => m, Err(_) => fail("all set") };
    reach(1);
    check(m.s == s && m.os == Some(s), 4);
    check(m.b[..] == [N(x), N(!x)] && m.ob == Some(Box::new(N(x))), 5);
    check(m.w.0 == if o { 2 } else { 1 } && (m.w.1 == x || (o && m.w.1 == 77)), 6);
    check(m.ow == Some(Wrap(1, x)), 7);
    check(m.pi == Some(p), 8);
    check(m.ni == if n == 0 { None } else { Some(p) }, 9);
    check(convs() == 2, 10);
}
#[derive(Builder, Debug, PartialEq, Clone)]
#[builder(pattern = "owned", setter(into))]
pub struct Gen<T: From<u8>, U> {
    pub t: T,
    #[builder(setter(strip_option))]
    pub ot: Option<T>,
    #[builder(setter(strip_option))]
    pub ou: Option<Option<U>>,
}
fn generic() {
    reset();
    let (x, y) = (any_u8("x"), any_u32("y"));
    let r: Result<Gen<N, u64>, _> = GenBuilder::default().t(x).ot(x).ou(if flag("s") { Some(y as u64) } else { None }).build();
    match r {
        Ok(g) => { reach(1); check(g.t == N(n_of_u8(x)) && g.ot == Some(N(n_of_u8(x))), 20); check(matches!(g.ou, Some(None)) || g.ou == Some(Some(y as u64)), 21); check(convs() == 2, 22) }
        Err(_) => fail("all set"),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
    h_both => both();
    h_generic => generic();
}
