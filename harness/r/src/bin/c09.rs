#![allow(warnings)]
//! C09: build errors carry the documented contents and conversions.
include!("../common.rs");
use derive_builder::UninitializedFieldError;
use std::error::Error;
use std::fmt::Write;

/// Display through the real formatting machinery.
fn show(d: &dyn std::fmt::Display) -> String {
    let mut s = String::new();
    check(write!(s, "{}", d).is_ok(), 1);
    s
}
mod gen1 {
    use super::*;
    #[derive(Builder, Debug, Clone, PartialEq)]
    pub struct Alpha {
        pub first: u32,
        pub second: u8,
        #[builder(setter(name = "set_third"))]
        pub third: u8,
    }
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder(name = "Maker", pattern = "owned")]
    pub struct Beta {
        pub x: u32,
        #[builder(default)]
        pub y: u8,
        pub longer_name: u8,
    }
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder(pattern = "immutable", build_fn(error(validation_error = false)))]
    pub struct Gamma {
        pub g0: u32,
        pub g1: u8,
    }
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder(build_fn(error(validation_error = true)))]
    pub struct Delta<T: Clone> {
        pub inner: T,
        pub tail: u8,
    }
}
use gen1::*;

/// UninitializedField(name): name and Display, for every missing field.
fn uninit() {
    match choice("which", 4) {
        0 => {
            let mut b = AlphaBuilder::default();
            let (f, s, t) = (flag("f"), flag("s"), flag("t"));
            if f { b.first(any_u32("v")); }
            if s { b.second(any_u8("v")); }
            if t { b.set_third(any_u8("v")); }
            let want = if !f { "first" } else if !s { "second" } else { "third" };
            match b.build() {
                Ok(_) => { reach(1); check(f && s && t, 2) }
                Err(e) => {
                    reach(2);
                    check(!(f && s && t), 3);
                    let d = show(&e);
                    observe_str(&d);
                    check(d == ["`", want, "` must be initialized"].concat(), 4);
                    match e {
                        AlphaBuilderError::UninitializedField(n) => check(n == want, 5),
                        _ => fail("wrong variant"),
                    }
                }
            }
        }
        1 => {
            let mut b = Maker::default();
            let (x, y, l) = (flag("x"), flag("y"), flag("l"));
            if x { b = b.x(any_u32("v")); }
            if y { b = b.y(any_u8("v")); }
            if l { b = b.longer_name(any_u8("v")); }
            let want = if !x { "x" } else { "longer_name" };
            match b.build() {
                Ok(_) => { reach(3); check(x && l, 6) }
                Err(e) => {
                    reach(4);
                    check(!(x && l), 7);
                    let d = show(&e);
                    check(d == ["`", want, "` must be initialized"].concat(), 8);
                    let boxed: Box<dyn Error> = Box::new(e);
                    check(show(&boxed) == d, 9);
                    check(boxed.downcast_ref::<MakerError>().is_some(), 10);
                }
            }
        }
        2 => {
            let mut b = GammaBuilder::default();
            let (x, y) = (flag("x"), flag("y"));
            if x { b = b.g0(any_u32("v")); }
            if y { b = b.g1(any_u8("v")); }
            match b.build() {
                Ok(_) => check(x && y, 11),
                Err(e) => {
                    let want = if !x { "g0" } else { "g1" };
                    check(!(x && y), 12);
                    check(show(&e) == ["`", want, "` must be initialized"].concat(), 13);
                    // without the validation error the enum still has the variant
                    match e { GammaBuilderError::UninitializedField(n) => check(n == want, 14), _ => fail("variant") }
                }
            }
        }
        _ => {
            let mut b = DeltaBuilder::<u16>::default();
            let (x, y) = (flag("x"), flag("y"));
            if x { b.inner(any_u16("v")); }
            if y { b.tail(any_u8("v")); }
            match b.build() {
                Ok(_) => check(x && y, 15),
                Err(e) => {
                    let want = if !x { "inner" } else { "tail" };
                    check(!(x && y), 16);
                    match e { DeltaBuilderError::UninitializedField(n) => check(n == want, 17), _ => fail("variant") }
                }
            }
        }
    }
}
/// From<String>, Display of ValidationError, for every message up to the bound.
fn message(s: String) {

    reach(1);
    let e = AlphaBuilderError::from(s.clone());
    let d = show(&e);
    observe_str(&d);
    check(d == s, 20);
    match &e {
        AlphaBuilderError::ValidationError(m) => check(*m == s, 21),
        _ => fail("From<String> must give ValidationError"),
    }
    let e: MakerError = s.clone().into();
    check(show(&e) == s, 22);
    match &e {
        MakerError::ValidationError(m) => check(*m == s, 23),
        _ => fail("variant"),
    }
    let e: DeltaBuilderError = s.clone().into();
    match e {
        DeltaBuilderError::ValidationError(m) => check(m == s, 24),
        _ => fail("variant"),
    }
    // padding and alignment flags are not the point: to_string is
    let e: &dyn Error = &AlphaBuilderError::from(s.clone());
    check(e.to_string() == s, 25);
    check(e.source().is_none(), 26);
}
/// UninitializedFieldError: accessors, Display and conversion into generated errors.
fn crate_error() {
    let s: &'static str = Box::leak(sym_string("len", 8).into_boxed_str());
    let e = if flag("new") { UninitializedFieldError::new(s) } else { UninitializedFieldError::from(s) };
    reach(1);
    check(e.field_name() == s, 30);
    let d = show(&e);
    observe_str(&d);
    check(d == ["Field not initialized: ", s].concat(), 31);
    let c = e.clone();
    check(c.field_name() == s, 32);
    let g = AlphaBuilderError::from(c);
    match &g {
        AlphaBuilderError::UninitializedField(n) => check(*n == s, 33),
        _ => fail("variant"),
    }
    check(show(&g) == ["`", s, "` must be initialized"].concat(), 34);
    let g: GammaBuilderError = UninitializedFieldError::new(s).into();
    match g {
        GammaBuilderError::UninitializedField(n) => check(n == s, 35),
        _ => fail("variant"),
    }
    let dy: &dyn Error = &UninitializedFieldError::new(s);
    check(dy.to_string() == d, 36);
}
/// A custom error type receives the crate's error through its own conversion.
mod custom {
    use super::*;
    #[derive(Debug, PartialEq)]
    pub enum E {
        Missing(String, &'static str),
        Invalid(Bad),
    }
    impl From<UninitializedFieldError> for E {
        fn from(e: UninitializedFieldError) -> E {
            conv();
            E::Missing(show(&e), e.field_name())
        }
    }
    impl From<Bad> for E {
        fn from(e: Bad) -> E {
            conv();
            E::Invalid(e)
        }
    }
    macro_rules! mk {
        ($p:tt, $m:ident) => {
            pub mod $m {
                use super::*;
                #[derive(Builder, Debug, Clone, PartialEq)]
                #[builder(pattern = $p, build_fn(error = "super::E", validate = "Self::v"))]
                pub struct S {
                    pub a: u16,
                    #[builder(default = "3")]
                    pub b: u32,
                    pub cc: u8,
                }
                impl SBuilder {
                    fn v(&self) -> Result<(), Bad> {
                        match self.a { Some(v) if v > 1000 => Err(Bad(v)), _ => Ok(()) }
                    }
                }
                pub fn run() {
                    reset();
                    let mut b = SBuilder::default();
                    let a = if flag("a") { let v = any_u16("va"); upd!($p, b, a(v)); Some(v) } else { None };
                    let bb = if flag("b") { let v = any_u32("vb"); upd!($p, b, b(v)); Some(v) } else { None };
                    let c = if flag("c") { let v = any_u8("vc"); upd!($p, b, cc(v)); Some(v) } else { None };
                    let r: Result<S, E> = b.build();
                    match (a, c) {
                        (Some(v), _) if v > 1000 => { reach(1); check(r == Err(E::Invalid(Bad(v))), 40); check(convs() == 1, 41) }
                        (None, _) => { reach(2); check(r == Err(E::Missing(String::from("Field not initialized: a"), "a")), 42); check(convs() == 1, 43) }
                        (_, None) => { reach(3); check(r == Err(E::Missing(String::from("Field not initialized: cc"), "cc")), 44) }
                        (Some(a), Some(c)) => { reach(4); check(r == Ok(S { a, b: bb.unwrap_or(3), cc: c }), 45); check(convs() == 0, 46) }
                    }
                }
            }
        };
    }
    mk!("mutable", mutable);
    mk!("owned", owned);
    mk!("immutable", immutable);
    // the crate's own error used directly
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder(build_fn(error = "UninitializedFieldError"))]
    pub struct D {
        pub one: u32,
        pub two: u32,
    }
    pub fn direct() {
        let mut b = DBuilder::default();
        let (x, y) = (flag("x"), flag("y"));
        if x { b.one(any_u32("v")); }
        if y { b.two(any_u32("v")); }
        match b.build() {
            Ok(_) => { reach(5); check(x && y, 47) }
            Err(e) => { reach(6); check(!(x && y) && e.field_name() == if !x { "one" } else { "two" }, 48) }
        }
    }
}
fn all_custom() {
    match choice("pat", 4) {
        0 => custom::mutable::run(),
        1 => custom::owned::run(),
        2 => custom::immutable::run(),
        _ => custom::direct(),
    }
}
symrt::harness! {
    h_uninit => uninit();
    h_message => message(sym_string("len", 8));
    h_message_utf8 => message(sym_utf8("len", 3));
    h_message_utf8_deep => message(sym_utf8("len", 4));
    h_crate_error => crate_error();
    h_custom => all_custom();
}
