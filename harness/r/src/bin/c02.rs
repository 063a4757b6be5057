#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c02.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc02.rs");
}
/// Required fields next to hand-written (custom) setters and error conversions.
#[derive(Debug, PartialEq)]
pub enum E { Missing(&'static str), Other(Bad) }
impl From<derive_builder::UninitializedFieldError> for E {
    fn from(e: derive_builder::UninitializedFieldError) -> E { E::Missing(e.field_name()) }
}
impl From<Bad> for E { fn from(e: Bad) -> E { E::Other(e) } }
macro_rules! suite {
    ($p:tt, $m:ident, $user:item) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p, build_fn(error = "E", name = "make"), setter(prefix = "with"), try_setter)]
            pub struct S {
                #[builder(setter(custom))]
                pub w: u32,
                #[builder(setter(name = "x_is"))]
                pub x: N,
                #[builder(setter(skip))]
                pub skipped: u32,
                #[builder(default = "conv2()?")]
                pub dq: N,
                pub y: Cp,
            }
            fn conv2() -> Result<N, Bad> { ev(1); if unsafe { FAIL } { Err(Bad(9)) } else { Ok(N(5)) } }
            impl SBuilder { $user }
            pub fn run(k: usize) {
                reset();
                let fails = flag("dq_fails");
                unsafe { FAIL = fails; }
                let mut b = SBuilder::default();
                let (mut w, mut x, mut dq, mut y) = (None, None, None, None);
                for _ in 0..k {
                    match below("op", 6) {
                        0 => { let v = any_u32("w"); upd!($p, b, with_w(v)); w = Some(v); }
                        1 => { let v = any_u32("x"); upd!($p, b, x_is(N(v))); x = Some(N(v)); }
                        2 => { let v = any_u32("dq"); upd!($p, b, with_dq(N(v))); dq = Some(N(v)); }
                        3 => { let v = any_u32("y"); upd!($p, b, with_y(Cp(v))); y = Some(Cp(v)); }
                        4 => {
                            let v = any_u16("ty");
                            let good = n_of_u16(v);
                            assume(good.is_ok());
                            upd_try!($p, b, try_with_y(v));
                            y = good.ok().map(Cp);
                        }
                        _ => break,
                    }
                }
                let r = b.make();
                // initializers run in declaration order; the first problem is reported
                let want = if w.is_none() { Err(E::Missing("w")) }
                    else if x.is_none() { Err(E::Missing("x")) }
                    else if dq.is_none() && fails { Err(E::Other(Bad(9))) }
                    else if y.is_none() { Err(E::Missing("y")) }
                    else { Ok(S { w: w.unwrap(), x: x.clone().unwrap(), skipped: 0, dq: dq.clone().unwrap_or(N(5)), y: y.unwrap() }) };
                reach(if want.is_ok() { 1 } else { 2 });
                if let Err(E::Other(_)) = want { reach(3); }
                check(r == want, 1);
            }
        }
    };
}
macro_rules! upd_try {
    ("mutable", $b:ident, $m:ident($v:expr)) => { match $b.$m($v) { Ok(_) => {} Err(_) => fail("conversion") } };
    ($p:tt, $b:ident, $m:ident($v:expr)) => { $b = match $b.$m($v) { Ok(n) => n, Err(_) => fail("conversion") } };
}
pub static mut FAIL: bool = false;
suite!("mutable", mutable, pub fn with_w(&mut self, v: u32) -> &mut Self { self.w = Some(v); self });
suite!("owned", owned, pub fn with_w(mut self, v: u32) -> Self { self.w = Some(v); self });
suite!("immutable", immutable, pub fn with_w(&self, v: u32) -> Self { let mut n = self.clone(); n.w = Some(v); n });
fn custom(k: usize) {
    match choice("pat", 3) { 0 => mutable::run(k), 1 => owned::run(k), _ => immutable::run(k) }
}
/// Twenty fields, any subset set: the first unset one in declaration order is named.
#[derive(Builder, Clone)]
struct Wide {
    f19: u8, f18: u8, f17: u8, f16: u8, f15: u8, f14: u8, f13: u8, f12: u8, f11: u8, f10: u8,
    #[builder(default)] z: u8,
    f9: u8, f8: u8, f7: u8, f6: u8, f5: u8, f4: u8, f3: u8, f2: u8, f1: u8, f0: u8,
}
fn wide() {
    let mut b = WideBuilder::default();
    let mut first: Option<&'static str> = None;
    macro_rules! go { ($($f:ident)*) => { $( if first.is_some() { b.$f(any_u8("v")); } else if flag(stringify!($f)) { b.$f(any_u8("v")); } else { first = Some(stringify!($f)); } )* } }
    go!(f19 f18 f17 f16 f15 f14 f13 f12 f11 f10 f9 f8 f7 f6 f5 f4 f3 f2 f1 f0);
    match (b.build(), first) {
        (Ok(_), None) => reach(1),
        (Err(WideBuilderError::UninitializedField(n)), Some(f)) => { reach(2); check(n == f, 10) }
        _ => fail("wrong outcome"),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
    h_custom => custom(4);
    h_custom_deep => custom(5);
    h_wide => wide();
}
