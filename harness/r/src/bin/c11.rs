#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c11.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc11.rs");
}
/// Build blocks: evaluated once per build, errors with `?`, evaluation order, nested builders.
pub static mut FAIL: u8 = 0;
#[derive(Builder, Debug, PartialEq, Clone)]
pub struct Inner { pub p: u32, #[builder(default = "4")] pub q: u32 }
#[derive(Debug, PartialEq)]
pub enum E { Uninit(&'static str), Text(String), Inner(String) }
impl From<derive_builder::UninitializedFieldError> for E { fn from(e: derive_builder::UninitializedFieldError) -> E { E::Uninit(e.field_name()) } }
impl From<Bad> for E { fn from(e: Bad) -> E { E::Text(String::from("bad")) } }
impl From<InnerBuilderError> for E { fn from(e: InnerBuilderError) -> E { match e { InnerBuilderError::UninitializedField(n) => E::Inner(String::from(n)), _ => E::Text(String::from("?")) } } }
fn blk(k: u8, v: u32) -> Result<u32, Bad> { ev(k); if unsafe { FAIL } & k != 0 { Err(Bad(k as u16)) } else { Ok(v) } }
macro_rules! suite {
    ($p:tt, $m:ident) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p, build_fn(error = "E"))]
            pub struct S {
                #[builder(field(ty = "InnerBuilder", build = "self.inner.build()?"))]
                pub inner: Inner,
                pub a: Cp,
                #[builder(field(ty = "u8", build = "blk(1, self.b as u32)?"), setter(into))]
                pub b: u32,
                #[builder(field(build = "{ let base = blk(2, 5)?; self.c.map(|v| v ^ base).unwrap_or(base) }"))]
                pub c: u32,
                #[builder(field(ty = "Cp"))]
                pub d: Cp,
            }
            pub fn once(r: Result<S, E>, at: usize, p: Option<u32>, q: Option<u32>, a: Option<Cp>, b: u8, c: Option<u32>, d: Cp) {
                let f = unsafe { FAIL };
                let want = if p.is_none() { Err(E::Inner(String::from("p"))) }
                    else if a.is_none() { Err(E::Uninit("a")) }
                    else if f != 0 { Err(E::Text(String::from("bad"))) }
                    else { Ok(S { inner: Inner { p: p.unwrap(), q: q.unwrap_or(4) }, a: a.unwrap(), b: b as u32, c: c.map(|v| v ^ 5).unwrap_or(5), d }) };
                reach(if want.is_ok() { 1 } else { 2 });
                if want.is_ok() { check(evn() == at + 2 && evcount(1, at) == 1 && evcount(2, at) == 1, 1) }
                check(r == want, 2);
            }
            pub fn run() {
                reset();
                unsafe { FAIL = below("fail", 4) as u8; }
                let mut bb = SBuilder::default();
                let (p, q) = (if flag("p") { Some(any_u32("vp")) } else { None }, if flag("q") { Some(any_u32("vq")) } else { None });
                let mut inner = InnerBuilder::default();
                if let Some(p) = p { inner.p(p); }
                if let Some(q) = q { inner.q(q); }
                // a stored sub-builder
                if flag("set_inner") { upd!($p, bb, inner(inner)); } else { assume(p.is_none() && q.is_none()); }
                let a = if flag("a") { let v = Cp(any_u32("va")); upd!($p, bb, a(v)); Some(v) } else { None };
                let b = if flag("b") { let v = any_u8("vb"); upd!($p, bb, b(v)); v } else { 0 };
                let c = if flag("c") { let v = any_u32("vc"); upd!($p, bb, c(v)); Some(v) } else { None };
                let d = if flag("d") { let v = Cp(any_u32("vd")); upd!($p, bb, d(v)); v } else { Cp(13) };
                check(evn() == 0, 3);
                go!($p, bb, (p, q, a, b, c, d));
            }
        }
    };
}
macro_rules! go {
    ("owned", $b:ident, ($($a:expr),*)) => {{ let at = evn(); once($b.build(), at, $($a),*); }};
    ($p:tt, $b:ident, ($($a:expr),*)) => {{ let at = evn(); once($b.build(), at, $($a),*); let at = evn(); once($b.build(), at, $($a),*); }};
}
suite!("mutable", mutable);
suite!("owned", owned);
suite!("immutable", immutable);
fn blocks() {
    match choice("pat", 3) { 0 => mutable::run(), 1 => owned::run(), _ => immutable::run() }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
    h_blocks => blocks();
}
