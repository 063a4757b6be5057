#![allow(warnings)]
//! C12: a new builder is empty; constructors are configured as asked.
include!("../common.rs");
use std::marker::PhantomData;

/// Does T implement Default? (decided by the compiler's trait selection)
struct Probe<T>(PhantomData<T>);
trait NoDefault {
    fn has_default(&self) -> bool {
        false
    }
}
impl<T> NoDefault for Probe<T> {}
impl<T: Default> Probe<T> {
    fn has_default(&self) -> bool {
        true
    }
}
macro_rules! has_default {
    ($t:ty) => {
        Probe::<$t>(PhantomData).has_default()
    };
}

macro_rules! suite {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            macro_rules! fields {
                ($a:item) => { $a };
            }
            fn boom() -> u32 { ev(9); 5 }
            // every kind of field
            pub mod plain {
                use super::*;
                #[derive(Builder, Debug, Clone, PartialEq)]
                #[builder(pattern = $p, default = "mk()", derive(Debug, PartialEq))]
                pub struct S {
                    pub a: u32,
                    #[builder(default = "boom()")]
                    pub b: u32,
                    #[builder(default)]
                    pub c: N,
                    #[builder(setter(strip_option))]
                    pub d: Option<Cp>,
                    #[builder(field(ty = "Cp"))]
                    pub e: Cp,
                    #[builder(field(ty = "Coll", build = "self.f.len as u32"))]
                    pub f: u32,
                    #[builder(field(build = "self.g.unwrap_or(4)"))]
                    pub g: u32,
                    #[builder(setter(skip), default = "boom()")]
                    pub h: u32,
                    #[builder(setter(custom))]
                    pub i: u32,
                    #[builder(setter(each = "jj"))]
                    pub j: Vec<N>,
                    #[builder(setter(each = "kk"), default = "vec![N(boom())]")]
                    pub k: Vec<N>,
                }
                fn mk() -> S { ev(8); S { a: 1, b: 2, c: N(3), d: Some(Cp(4)), e: Cp(5), f: 6, g: 7, h: 8, i: 9, j: vec![N(10)], k: vec![] } }
                pub fn empty(b: &SBuilder) {
                    check(b.a == None && b.b == None && b.c == None && b.d == None, 1);
                    check(b.e == Cp(13), 2);
                    check(b.f == Coll::default(), 3);
                    check(b.g == None && b.i == None && b.j == None && b.k == None, 4);
                    check(evn() == 0, 5);
                }
                pub fn run() {
                    reset();
                    let d = if flag("ctor") { SBuilder::create_empty() } else { SBuilder::default() };
                    empty(&d);
                    reach(1);
                    check(SBuilder::create_empty() == SBuilder::default(), 6);
                    check(has_default!(SBuilder), 7);
                    // whatever is set later, nothing else appears
                    let mut b = d;
                    let v = any_u32("v");
                    match below("op", 4) {
                        0 => { upd!($p, b, a(v)); check(b.a == Some(v) && b.b == None && b.e == Cp(13) && b.j == None, 8) }
                        1 => { upd!($p, b, e(Cp(v))); check(b.a == None && b.b == None && b.e == Cp(v) && b.d == None, 9) }
                        2 => { upd!($p, b, jj(N(v))); check(b.j == Some(vec![N(v)]) && b.k == None && b.i == None, 10) }
                        _ => { upd!($p, b, kk(N(v))); check(b.k == Some(vec![N(v)]) && b.j == None && evn() == 0, 11) }
                    }
                }
            }
            // renamed constructor
            pub mod renamed {
                use super::*;
                #[derive(Builder, Debug, Clone, PartialEq)]
                #[builder(pattern = $p, create_empty = "nothing", name = "Mk")]
                pub struct S {
                    pub a: u32,
                    #[builder(default = "boom()")]
                    pub b: u32,
                    #[builder(field(ty = "Cp"))]
                    pub e: Cp,
                }
                impl Mk {
                    // the default name is free
                    pub fn create_empty() -> u8 { 77 }
                }
                pub fn run() {
                    reset();
                    let mut b = if flag("ctor") { Mk::nothing() } else { Mk::default() };
                    check(b.a == None && b.b == None && b.e == Cp(13) && evn() == 0, 20);
                    check(Mk::create_empty() == 77 && has_default!(Mk), 21);
                    reach(2);
                    let v = any_u32("v");
                    upd!($p, b, a(v));
                    match b.build() { Ok(s) => check(s.a == v && s.b == 5 && s.e == Cp(13), 22), Err(_) => fail("build") }
                }
            }
            // custom constructor: no Default impl, everything else as before
            pub mod custom {
                use super::*;
                #[derive(Builder, Debug, Clone, PartialEq)]
                #[builder(pattern = $p, custom_constructor)]
                pub struct S {
                    pub a: u32,
                    #[builder(default = "boom()")]
                    pub b: u32,
                    #[builder(field(ty = "Cp"))]
                    pub e: Cp,
                }
                impl SBuilder {
                    pub fn new(a: u32) -> SBuilder { SBuilder { a: Some(a), ..Self::create_empty() } }
                }
                pub fn run() {
                    reset();
                    check(!has_default!(SBuilder), 30);
                    let v = any_u32("v");
                    let (mut b, want) = if flag("ctor") { (SBuilder::new(v), Some(v)) } else { (SBuilder::create_empty(), None) };
                    check(b.a == want && b.b == None && b.e == Cp(13) && evn() == 0, 31);
                    reach(3);
                    let sb = flag("sb");
                    if sb { upd!($p, b, b(v)); }
                    match b.build() {
                        Ok(s) => check(want == Some(s.a) && s.b == if sb { v } else { 5 } && s.e == Cp(13), 32),
                        Err(SBuilderError::UninitializedField(n)) => check(want == None && n == "a", 33),
                        Err(_) => fail("build"),
                    }
                }
            }
            pub mod custom_renamed {
                use super::*;
                #[derive(Builder, Debug, Clone, PartialEq)]
                #[builder(pattern = $p, custom_constructor, create_empty = "blank")]
                pub struct S<T: Clone> {
                    pub a: T,
                    #[builder(setter(skip))]
                    pub b: u32,
                }
                impl<T: Clone> Default for SBuilder<T> {
                    // a hand-written Default does not clash
                    fn default() -> Self { let mut b = Self::blank(); upd!($p, b, a2()); b }
                }
                impl<T: Clone> SBuilder<T> {
                    setter2!($p);
                }
                pub fn run() {
                    reset();
                    let v = any_u16("v");
                    let b0: SBuilder<u16> = SBuilder::blank();
                    check(b0.a == None, 40);
                    let mut b: SBuilder<u16> = SBuilder::default();
                    check(b.a == None, 41);
                    upd!($p, b, a(v));
                    match b.build() { Ok(s) => { reach(4); check(s.a == v && s.b == 0, 42) } Err(_) => fail("build") }
                }
            }
        }
    };
}
macro_rules! setter2 {
    ("mutable") => { pub fn a2(&mut self) -> &mut Self { self } };
    ("owned") => { pub fn a2(self) -> Self { self } };
    ("immutable") => { pub fn a2(&self) -> Self { self.clone() } };
}
suite!("mutable", mutable);
suite!("owned", owned);
suite!("immutable", immutable);

/// The builder of a generic struct is empty too, and needs no Default on T.
#[derive(Clone, Debug, PartialEq)]
pub struct NoDef(u32);
#[derive(Builder, Debug, Clone, PartialEq)]
pub struct G<'a, T: Clone, const K: usize> {
    pub r: &'a u32,
    pub t: T,
    pub arr: [u8; K],
}
fn generic() {
    let v = any_u32("v");
    let b: GBuilder<'_, NoDef, 2> = if flag("ctor") { GBuilder::create_empty() } else { Default::default() };
    check(b.r.is_none() && b.t.is_none() && b.arr.is_none(), 50);
    let mut b = b;
    b.t(NoDef(v));
    check(b.r.is_none() && b.t == Some(NoDef(v)) && b.arr.is_none(), 51);
    reach(1);
    let w = any_u32("w");
    let arr = [any_u8("x"), any_u8("y")];
    match b.r(&w).arr(arr).build() {
        Ok(g) => check(*g.r == w && g.t == NoDef(v) && g.arr == arr, 52),
        Err(_) => fail("build"),
    }
}
macro_rules! table {
    ($k:expr; $($m:ident $n:ident),*) => {{
        let mut i = 0;
        let k = $k;
        $( if i == k { $m::$n::run(); } i += 1; )*
    }};
}
fn all() {
    table!(choice("cfg", 12); mutable plain, mutable renamed, mutable custom, mutable custom_renamed,
        owned plain, owned renamed, owned custom, owned custom_renamed,
        immutable plain, immutable renamed, immutable custom, immutable custom_renamed);
}
symrt::harness! {
    h_constructors => all();
    h_generic => generic();
}
