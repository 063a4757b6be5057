#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c01.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc01.rs");
}
/// Generic targets: lifetimes, type parameters with bounds and where clauses, consts.
macro_rules! generic_suite {
    ($p:tt, $m:ident) => {
        mod $m {
            use super::*;
            #[derive(Builder, Debug, PartialEq, Clone)]
            #[builder(pattern = $p)]
            pub struct G<'a, T: Clone + PartialEq, U, const K: usize>
            where
                U: Clone + From<u8>,
            {
                pub r: &'a T,
                pub t: T,
                #[builder(setter(into))]
                pub u: U,
                pub arr: [u8; K],
                #[builder(setter(strip_option))]
                pub o: Option<T>,
                #[builder(default)]
                pub p: ::core::marker::PhantomData<U>,
            }
            pub fn run(k: usize) {
                let (x, y) = (Cp(any_u32("x")), Cp(any_u32("y")));
                let mut b = GBuilder::<'_, Cp, N, 2>::default();
                let (mut r, mut t, mut u, mut arr, mut o) = (None, None, None, None, None);
                for _ in 0..k {
                    match below("op", 7) {
                        0 => { let s = flag("s"); upd!($p, b, r(if s { &x } else { &y })); r = Some(if s { x } else { y }); }
                        1 => { let v = Cp(any_u32("t")); upd!($p, b, t(v)); t = Some(v); }
                        2 => { let v = any_u8("u"); upd!($p, b, u(v)); u = Some(N(n_of_u8(v))); }
                        3 => { let v = any_u32("u"); upd!($p, b, u(N(v))); u = Some(N(v)); }
                        4 => { let v = [any_u8("a0"), any_u8("a1")]; upd!($p, b, arr(v)); arr = Some(v); }
                        5 => { let v = Cp(any_u32("o")); upd!($p, b, o(v)); o = Some(v); }
                        _ => break,
                    }
                }
                match b.build() {
                    Ok(g) => {
                        reach(1);
                        check(r == Some(*g.r), 1);
                        check(t == Some(g.t), 2);
                        check(u == Some(g.u), 3);
                        check(arr == Some(g.arr), 4);
                        check(o == g.o && o.is_some(), 5);
                    }
                    Err(GBuilderError::UninitializedField(n)) => {
                        reach(2);
                        let want = if r.is_none() { "r" } else if t.is_none() { "t" } else if u.is_none() { "u" } else if arr.is_none() { "arr" } else if o.is_none() { "o" } else { "" };
                        check(n == want, 6);
                    }
                    Err(_) => fail("wrong error"),
                }
            }
        }
    };
}
generic_suite!("mutable", mutable);
generic_suite!("owned", owned);
generic_suite!("immutable", immutable);
fn generic(k: usize) {
    reset();
    match choice("pat", 3) { 0 => mutable::run(k), 1 => owned::run(k), _ => immutable::run(k) }
}
/// Chained calls, starting from a partly set builder; trait objects and function pointers as values.
#[derive(Builder, Clone)]
struct Fp {
    f: fn(u32) -> u32,
    d: &'static dyn Fn(u32) -> u32,
    t: (u8, [u16; 2], Option<()>),
    unit: (),
}
fn inc(x: u32) -> u32 { x.wrapping_add(1) }
fn dbl(x: u32) -> u32 { x.wrapping_mul(2) }
fn chain() {
    let (s1, s2) = (flag("s1"), flag("s2"));
    let t = (any_u8("t0"), [any_u16("t1"), any_u16("t2")], if flag("t3") { Some(()) } else { None });
    let x = any_u32("x");
    let r = FpBuilder::default()
        .unit(())
        .f(dbl)
        .t((0, [1, 2], None))
        .f(if s1 { inc } else { dbl })
        .d(if s2 { &|x| x ^ 1 } else { &|x| x ^ 2 })
        .t(t)
        .build();
    match r {
        Ok(v) => {
            reach(1);
            check((v.f)(x) == if s1 { inc(x) } else { dbl(x) }, 10);
            check((v.d)(x) == if s2 { x ^ 1 } else { x ^ 2 }, 11);
            check(v.t == t, 12);
        }
        Err(_) => fail("all set"),
    }
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(1);
    h_grid_deep => gen::grid(2);
    h_generic => generic(5);
    h_generic_deep => generic(6);
    h_chain => chain();
}
