#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c10.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc10.rs");
}
/// Custom-setter fields: the user's setter fills the slot; defaults and errors as usual.
macro_rules! suite {
    ($p:tt, $m:ident, $($user:item)*) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p)]
            pub struct S {
                #[builder(setter(custom))]
                pub a: N,
                #[builder(setter(custom), default = "N(8)")]
                pub b: N,
                pub c: u32,
                #[builder(setter(custom), try_setter, default)]
                pub d: Cp,
                #[builder(setter(skip), default = "self.c.unwrap_or(6)")]
                pub e: u32,
                #[builder(setter(custom, into, strip_option))]
                pub f: Option<u32>,
            }
            impl SBuilder { $($user)* }
            pub fn run(k: usize) {
                reset();
                let mut bb = SBuilder::default();
                let (mut a, mut b, mut c, mut d, mut f) = (None, None, None, None, None);
                for _ in 0..k {
                    match below("op", 6) {
                        0 => { let v = any_u32("v"); upd!($p, bb, a(v)); a = Some(N(!v)); }
                        1 => { let v = any_u32("v"); upd!($p, bb, b(N(v))); b = Some(N(v)); }
                        2 => { let v = any_u32("v"); upd!($p, bb, c(v)); c = Some(v); }
                        3 => { let v = any_u32("v"); upd!($p, bb, d(v, v)); d = Some(Cp(v.wrapping_add(v))); }
                        4 => { let v = any_u32("v"); upd!($p, bb, f(v)); f = Some(Some(v)); }
                        _ => break,
                    }
                }
                let want = if a.is_none() { Some("a") } else if c.is_none() { Some("c") } else if f.is_none() { Some("f") } else { None };
                match bb.build() {
                    Ok(s) => {
                        reach(1);
                        check(want.is_none(), 1);
                        check(a == Some(s.a.clone()) && c == Some(s.c) && f == Some(s.f), 2);
                        check(s.b == b.unwrap_or(N(8)) && s.d == d.unwrap_or(Cp(13)), 3);
                        check(s.e == s.c, 4);
                    }
                    Err(SBuilderError::UninitializedField(n)) => { reach(2); check(want == Some(n), 5) }
                    Err(_) => fail("wrong error"),
                }
            }
        }
    };
}
suite!("mutable", mutable,
    pub fn a(&mut self, v: u32) -> &mut Self { self.a = Some(N(!v)); self }
    pub fn b(&mut self, v: N) -> &mut Self { self.b = Some(v); self }
    pub fn d(&mut self, v: u32, w: u32) -> &mut Self { self.d = Some(Cp(v.wrapping_add(w))); self }
    pub fn try_d(&mut self) {}
    pub fn f(&mut self, v: u32) -> &mut Self { self.f = Some(Some(v)); self });
suite!("owned", owned,
    pub fn a(mut self, v: u32) -> Self { self.a = Some(N(!v)); self }
    pub fn b(mut self, v: N) -> Self { self.b = Some(v); self }
    pub fn d(mut self, v: u32, w: u32) -> Self { self.d = Some(Cp(v.wrapping_add(w))); self }
    pub fn try_d(&mut self) {}
    pub fn f(mut self, v: u32) -> Self { self.f = Some(Some(v)); self });
suite!("immutable", immutable,
    pub fn a(&self, v: u32) -> Self { let mut n = self.clone(); n.a = Some(N(!v)); n }
    pub fn b(&self, v: N) -> Self { let mut n = self.clone(); n.b = Some(v); n }
    pub fn d(&self, v: u32, w: u32) -> Self { let mut n = self.clone(); n.d = Some(Cp(v.wrapping_add(w))); n }
    pub fn try_d(&mut self) {}
    pub fn f(&self, v: u32) -> Self { let mut n = self.clone(); n.f = Some(Some(v)); n });
fn custom(k: usize) {
    match choice("pat", 3) { 0 => mutable::run(k), 1 => owned::run(k), _ => immutable::run(k) }
}
/// A skipped field of a type without Clone or builder support, with generics only it uses.
#[derive(Debug, PartialEq, Default)]
pub struct NoClone(u32);
#[derive(Builder, Debug, PartialEq)]
pub struct Ph<'a, T: Default + Clone> {
    #[builder(setter(skip))]
    pub nc: NoClone,
    #[builder(setter(skip), default = "Some(&7)")]
    pub r: Option<&'a u32>,
    #[builder(setter(skip))]
    pub t: Vec<T>,
    pub x: u32,
}
fn phantom() {
    let mut b = PhBuilder::<'_, N>::default();
    let x = any_u32("x");
    let set = flag("set");
    if set { b.x(x); }
    match b.build() {
        Ok(s) => { reach(1); check(set && s.nc == NoClone(0) && s.r == Some(&7) && s.t.is_empty() && s.x == x, 20) }
        Err(PhBuilderError::UninitializedField(n)) => { reach(2); check(!set && n == "x", 21) }
        Err(_) => fail("wrong error"),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(1);
    h_grid_deep => gen::grid(2);
    h_custom => custom(4);
    h_custom_deep => custom(6);
    h_phantom => phantom();
}
