#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c03.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc03.rs");
}
/// When and how often default expressions run, and what an error in one does.
pub static mut CNT: u32 = 0;
pub static mut FAIL: u8 = 0;
pub fn tick(k: u8) -> u32 { ev(k); unsafe { CNT = CNT.wrapping_add(3); CNT } }
#[derive(Clone, Debug, PartialEq)]
pub struct Td(pub u32);
impl Default for Td { fn default() -> Td { Td(tick(4)) } }
macro_rules! suite {
    ($p:tt, $m:ident, $twice:expr) => {
        mod $m {
            use super::*;
            pub mod counts {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p)]
                pub struct S {
                    #[builder(default = "tick(1)")]
                    pub a: u32,
                    #[builder(default = "N(tick(2))")]
                    pub b: N,
                    #[builder(setter(skip), default = "tick(3)")]
                    pub c: u32,
                    #[builder(default)]
                    pub d: Td,
                    #[builder(default = "self.a.map(|v| v ^ 1).unwrap_or_else(|| tick(5))")]
                    pub e: u32,
                }
                pub fn once(r: Result<S, SBuilderError>, at: usize, start: u32, a: Option<u32>, b: &Option<N>, d: &Option<Td>, e: Option<u32>) {
                    let s = match r { Ok(s) => s, Err(_) => fail("everything has a default") };
                    // evaluated only for unset fields, exactly once each, in this build
                    check(evcount(1, at) == a.is_none() as u32, 1);
                    check(evcount(2, at) == b.is_none() as u32, 2);
                    check(evcount(3, at) == 1, 3);
                    check(evcount(4, at) == d.is_none() as u32, 4);
                    check(evcount(5, at) == (e.is_none() && a.is_none()) as u32, 5);
                    let mut n = start;
                    let mut next = || { n = n.wrapping_add(3); n };
                    check(s.a == match a { Some(v) => v, None => next() }, 6);
                    check(s.b == match b { Some(v) => v.clone(), None => N(next()) }, 7);
                    check(s.c == next(), 8);
                    check(s.d == match d { Some(v) => v.clone(), None => Td(next()) }, 9);
                    check(s.e == match (e, a) { (Some(v), _) => v, (None, Some(a)) => a ^ 1, _ => next() }, 10);
                    reach(1);
                }
                pub fn run() {
                    reset();
                    let start = any_u32("cnt");
                    unsafe { CNT = start; }
                    let mut bb = SBuilder::default();
                    let a = if flag("a") { let v = any_u32("va"); upd!($p, bb, a(v)); Some(v) } else { None };
                    let b = if flag("b") { let v = N(any_u32("vb")); upd!($p, bb, b(v.clone())); Some(v) } else { None };
                    let d = if flag("d") { let v = Td(any_u32("vd")); upd!($p, bb, d(v.clone())); Some(v) } else { None };
                    let e = if flag("e") { let v = any_u32("ve"); upd!($p, bb, e(v)); Some(v) } else { None };
                    check(evn() == 0, 11); // nothing is evaluated before the build
                    go!($p, bb, once, (a, &b, &d, e));
                }
            }
            pub mod errors {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p)]
                pub struct S {
                    pub a: u32,
                    #[builder(default = "self.dflt(1)?")]
                    pub b: u32,
                    #[builder(setter(skip), default = "self.dflt(2)?")]
                    pub c: u32,
                    pub d: u32,
                }
                impl SBuilder {
                    fn dflt(&self, k: u8) -> Result<u32, String> {
                        ev(k);
                        if unsafe { FAIL } & k != 0 { Err(String::from(if k == 1 { "b failed" } else { "c failed" })) }
                        else { Ok(self.a.unwrap_or(0) ^ k as u32) }
                    }
                }
                pub fn run() {
                    reset();
                    let f = below("fail", 4) as u8;
                    unsafe { FAIL = f; }
                    let mut bb = SBuilder::default();
                    let a = if flag("a") { let v = any_u32("va"); upd!($p, bb, a(v)); Some(v) } else { None };
                    let b = if flag("b") { let v = any_u32("vb"); upd!($p, bb, b(v)); Some(v) } else { None };
                    let d = if flag("d") { let v = any_u32("vd"); upd!($p, bb, d(v)); Some(v) } else { None };
                    let r = bb.build();
                    match r {
                        Ok(s) => {
                            reach(2);
                            check(a == Some(s.a) && d == Some(s.d), 20);
                            check(s.b == b.unwrap_or(s.a ^ 1), 21);
                            check(s.c == s.a ^ 2, 22);
                            check((b.is_some() || f & 1 == 0) && f & 2 == 0, 23);
                        }
                        Err(SBuilderError::ValidationError(m)) => {
                            reach(3);
                            check(a.is_some(), 24);
                            if b.is_none() && f & 1 != 0 { check(m == "b failed", 25) }
                            else { check(f & 2 != 0 && m == "c failed", 26) }
                        }
                        Err(SBuilderError::UninitializedField(n)) => {
                            reach(4);
                            if a.is_none() { check(n == "a", 27) }
                            else { check(n == "d" && d.is_none() && (b.is_some() || f & 1 == 0) && f & 2 == 0, 28) }
                        }
                        Err(_) => fail("other error"),
                    }
                }
            }
            pub mod sdef {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p, default = "self.base()?")]
                pub struct S {
                    pub a: u32,
                    #[builder(default = "tick(1)")]
                    pub b: u32,
                    pub c: N,
                    #[builder(setter(skip))]
                    pub d: u32,
                }
                impl SBuilder {
                    fn base(&self) -> Result<S, String> {
                        let v = tick(7);
                        if unsafe { FAIL } != 0 { return Err(String::from("no base")); }
                        Ok(S { a: v ^ 1, b: v ^ 2, c: N(self.a.unwrap_or(v)), d: v ^ 4 })
                    }
                }
                pub fn once(r: Result<S, SBuilderError>, at: usize, start: u32, a: Option<u32>, b: Option<u32>, c: &Option<N>, _x: ()) {
                    let v = start.wrapping_add(3);
                    match r {
                        Ok(s) => {
                            reach(5);
                            check(unsafe { FAIL } == 0, 30);
                            check(evcount(7, at) == 1, 31);
                            check(evcount(1, at) == b.is_none() as u32, 32);
                            check(s.a == a.unwrap_or(v ^ 1), 33);
                            check(s.b == b.unwrap_or(v.wrapping_add(3)), 34);
                            check(s.c == c.clone().unwrap_or(N(a.unwrap_or(v))), 35);
                            check(s.d == v ^ 4, 36);
                        }
                        Err(SBuilderError::ValidationError(m)) => { reach(6); check(unsafe { FAIL } != 0 && m == "no base", 37) }
                        Err(_) => fail("nothing is required"),
                    }
                }
                pub fn run() {
                    reset();
                    let start = any_u32("cnt");
                    let f = below("fail", 2) as u8;
                    unsafe { CNT = start; FAIL = f; }
                    let mut bb = SBuilder::default();
                    let a = if flag("a") { let v = any_u32("va"); upd!($p, bb, a(v)); Some(v) } else { None };
                    let b = if flag("b") { let v = any_u32("vb"); upd!($p, bb, b(v)); Some(v) } else { None };
                    let c = if flag("c") { let v = N(any_u32("vc")); upd!($p, bb, c(v.clone())); Some(v) } else { None };
                    go!($p, bb, once, (a, b, &c, ()));
                }
            }
        }
    };
}
macro_rules! go {
    ("owned", $b:ident, $once:ident, ($($a:expr),*)) => {{ let (at, st) = (evn(), unsafe { CNT }); $once($b.build(), at, st, $($a),*); }};
    ($p:tt, $b:ident, $once:ident, ($($a:expr),*)) => {{
        let (at, st) = (evn(), unsafe { CNT });
        $once($b.build(), at, st, $($a),*);
        // the next build evaluates afresh
        let (at, st) = (evn(), unsafe { CNT });
        $once($b.build(), at, st, $($a),*);
    }};
}
suite!("mutable", mutable, true);
suite!("owned", owned, false);
suite!("immutable", immutable, true);
fn eval() {
    match choice("cfg", 9) {
        0 => mutable::counts::run(), 1 => owned::counts::run(), 2 => immutable::counts::run(),
        3 => mutable::errors::run(), 4 => owned::errors::run(), 5 => immutable::errors::run(),
        6 => mutable::sdef::run(), 7 => owned::sdef::run(), _ => immutable::sdef::run(),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(1);
    h_grid_deep => gen::grid(2);
    h_eval => eval();
}
