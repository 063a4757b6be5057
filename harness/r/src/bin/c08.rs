#![allow(warnings)]
//! C08: validation happens once per build, first, on the builder; its error wins.
include!("../common.rs");
const VAL: u8 = 1;
const DEF: u8 = 2; // field default
const SDEF: u8 = 3; // struct default
const BLD: u8 = 4; // build block

/// The validator's verdict is a symbolic choice made by the harness.
static mut VERDICT: u8 = 0;
static mut SEEN_A: Option<N> = None;
static mut SEEN_B: Option<u32> = None;
static mut SEEN_C: u32 = 0;

#[derive(Debug, PartialEq)]
enum MyErr {
    Uninit(&'static str),
    Invalid(u32),
    Text(String),
}
impl From<derive_builder::UninitializedFieldError> for MyErr {
    fn from(e: derive_builder::UninitializedFieldError) -> Self {
        MyErr::Uninit(e.field_name())
    }
}
impl From<Bad> for MyErr {
    fn from(e: Bad) -> Self {
        MyErr::Invalid(e.0 as u32 + 1000)
    }
}
impl From<String> for MyErr {
    fn from(e: String) -> Self {
        MyErr::Text(e)
    }
}
fn dflt(v: u32) -> u32 {
    ev(DEF);
    v
}
fn blk(v: u32) -> u32 {
    ev(BLD);
    v
}


macro_rules! suite {
    ($p:tt, $m:ident) => {
        mod $m {
            use super::*;
            // generated error type, validator returning String
            pub mod g {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p, build_fn(validate = "Self::check_it"))]
                pub struct S {
                    pub a: N,
                    #[builder(default = "dflt(7)")]
                    pub b: u32,
                    #[builder(field(ty = "u32", build = "blk(self.c)"))]
                    pub c: u32,
                    pub d: Cp,
                    #[builder(setter(skip), default = "dflt(9)")]
                    pub e: u32,
                }
                impl SBuilder {
                    fn check_it(&self) -> Result<(), String> {
                        ev(VAL);
                        unsafe {
                            SEEN_A = self.a.clone();
                            SEEN_B = self.b;
                            SEEN_C = self.c;
                            if VERDICT == 0 { Ok(()) } else { Err(String::from("no")) }
                        }
                    }
                }
                pub fn is_validation(e: &SBuilderError) -> bool {
                    match e { SBuilderError::ValidationError(s) => s == "no", _ => false }
                }
                pub fn uninit(e: &SBuilderError) -> Option<&'static str> {
                    match e { SBuilderError::UninitializedField(n) => Some(n), _ => None }
                }
            }
            // existing error type, validator with its own error type
            pub mod x {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p, name = "XB", build_fn(error = "MyErr", validate = "free_check", name = "finish"))]
                pub struct S {
                    pub a: N,
                    #[builder(default = "dflt(7)")]
                    pub b: u32,
                    #[builder(field(ty = "u32", build = "blk(self.c)"))]
                    pub c: u32,
                    pub d: Cp,
                    #[builder(setter(skip), default = "dflt(9)")]
                    pub e: u32,
                }
                fn free_check(b: &XB) -> Result<(), Bad> {
                    ev(VAL);
                    unsafe {
                        SEEN_A = b.a.clone();
                        SEEN_B = b.b;
                        SEEN_C = b.c;
                        if VERDICT == 0 { Ok(()) } else { Err(Bad(VERDICT as u16)) }
                    }
                }
                pub fn is_validation(e: &MyErr) -> bool {
                    unsafe { *e == MyErr::Invalid(VERDICT as u32 + 1000) }
                }
                pub fn uninit(e: &MyErr) -> Option<&'static str> {
                    match e { MyErr::Uninit(n) => Some(n), _ => None }
                }
            }
            // struct-level default: must not be evaluated when validation fails
            pub mod d {
                use super::*;
                #[derive(Builder, Debug, PartialEq, Clone)]
                #[builder(pattern = $p, default = "mk()", build_fn(validate = "Self::check_it"))]
                pub struct S {
                    pub a: N,
                    pub b: u32,
                    #[builder(field(ty = "u32", build = "blk(self.c)"))]
                    pub c: u32,
                    pub d: Cp,
                    #[builder(setter(skip), default = "dflt(9)")]
                    pub e: u32,
                }
                fn mk() -> S {
                    ev(SDEF);
                    S { a: N(70), b: 7, c: 71, d: Cp(72), e: 73 }
                }
                impl SBuilder {
                    fn check_it(&self) -> Result<(), String> {
                        ev(VAL);
                        unsafe {
                            SEEN_A = self.a.clone();
                            SEEN_B = self.b;
                            SEEN_C = self.c;
                            if VERDICT == 0 { Ok(()) } else { Err(String::from("no")) }
                        }
                    }
                }
                pub fn is_validation(e: &SBuilderError) -> bool {
                    match e { SBuilderError::ValidationError(s) => s == "no", _ => false }
                }
                pub fn uninit(e: &SBuilderError) -> Option<&'static str> { None }
            }
            run!($p, rg, g, SBuilder, build, false);
            run!($p, rx, x, XB, finish, false);
            run!($p, rd, d, SBuilder, build, true);
        }
    };
}
macro_rules! run {
    ($p:tt, $f:ident, $m:ident, $b:ident, $build:ident, $sd:expr) => {
        pub fn $f(k: usize) {
            use $m::*;
            reset();
            let mut b = $b::default();
            let (mut a, mut bb, mut c, mut d) = (None, None, 0u32, None);
            for _ in 0..k {
                match below("op", 5) {
                    0 => { let v = any_u32("a"); upd!($p, b, a(N(v))); a = Some(N(v)); }
                    1 => { let v = any_u32("b"); upd!($p, b, b(v)); bb = Some(v); }
                    2 => { let v = any_u32("c"); upd!($p, b, c(v)); c = v; }
                    3 => { let v = any_u32("d"); upd!($p, b, d(Cp(v))); d = Some(Cp(v)); }
                    _ => break,
                }
            }
            one!($p, b, $build, $m, a, bb, c, d, $sd);
        }
    };
}
macro_rules! one {
    ("owned", $b:ident, $build:ident, $m:ident, $a:ident, $bb:ident, $c:ident, $d:ident, $sd:expr) => {
        once!($b.$build(), $m, $a, $bb, $c, $d, $sd);
    };
    ($p:tt, $b:ident, $build:ident, $m:ident, $a:ident, $bb:ident, $c:ident, $d:ident, $sd:expr) => {
        once!($b.$build(), $m, $a, $bb, $c, $d, $sd);
        // and again with a different verdict
        once!($b.$build(), $m, $a, $bb, $c, $d, $sd);
    };
}
macro_rules! once {
    ($e:expr, $m:ident, $a:ident, $bb:ident, $c:ident, $d:ident, $sd:expr) => {{
        let verdict = match below("verdict", 2) { 0 => 0u8, _ => { let v = any_u8("why"); assume(v != 0); v } };
        unsafe { VERDICT = verdict; }
        let at = evn();
        let r = $e;
        // exactly once, before anything else, on the current builder
        check(evn() > at && evat(at) == VAL, 1);
        check(evcount(VAL, at) == 1, 2);
        unsafe {
            check(SEEN_A == $a, 3);
            check(SEEN_B == $bb, 4);
            check(SEEN_C == $c, 5);
        }
        if verdict != 0 {
            reach(1);
            check(evn() == at + 1, 6); // nothing else was evaluated
            match r {
                Ok(_) => fail("a failing validator must fail the build"),
                Err(e) => check($m::is_validation(&e), 7),
            }
        } else {
            // as without validation
            let missing = if $sd { None } else if $a.is_none() { Some("a") } else if $d.is_none() { Some("d") } else { None };
            match r {
                Ok(s) => {
                    reach(2);
                    check(missing.is_none(), 8);
                    check(s.a == $a.clone().unwrap_or(N(70)), 9);
                    check(s.b == $bb.unwrap_or(7), 10);
                    check(s.c == $c, 11);
                    check(s.d == $d.unwrap_or(Cp(72)), 12);
                    check(s.e == 9, 13);
                }
                Err(e) => {
                    reach(3);
                    check(missing.is_some() && $m::uninit(&e) == missing, 14);
                }
            }
        }
    }};
}
suite!("mutable", mutable);
suite!("owned", owned);
suite!("immutable", immutable);

/// The validator's text reaches the caller unchanged.
#[derive(Builder, Debug)]
#[builder(build_fn(validate = "Self::v"))]
struct T {
    a: String,
}
impl TBuilder {
    fn v(&self) -> Result<(), String> {
        match &self.a {
            Some(s) if s.starts_with('!') => Err(s.clone()),
            None => Err(String::from("unset")),
            _ => Ok(()),
        }
    }
}
fn text() {
    let s = sym_string("len", 4);
    let mut b = TBuilder::default();
    let set = flag("set");
    if set {
        b.a(s.clone());
    }
    match b.build() {
        Ok(t) => {
            reach(1);
            check(set && t.a == s, 20);
            check(s.as_bytes().first() != Some(&b'!'), 21);
        }
        Err(TBuilderError::ValidationError(m)) => {
            reach(2);
            if set {
                check(m == s && s.as_bytes().first() == Some(&b'!'), 22);
            } else {
                check(m == "unset", 23);
            }
        }
        Err(_) => fail("the validator's error must win over the missing field"),
    }
}
/// Validation of a generic builder, with a validator that is a generic function.
#[derive(Builder, Debug)]
#[builder(build_fn(validate = "check_gen::<X>"))]
struct G<X: Clone + Into<u32>> {
    x: X,
    y: u8,
}
fn check_gen<X: Clone + Into<u32>>(b: &GBuilder<X>) -> Result<(), String> {
    match &b.x {
        Some(x) if x.clone().into() > 100 => Err(String::from("big")),
        _ => Ok(()),
    }
}
fn generic() {
    let mut b = GBuilder::<u16>::default();
    let x = if flag("x") { let v = any_u16("xv"); b.x(v); Some(v) } else { None };
    let y = if flag("y") { let v = any_u8("yv"); b.y(v); Some(v) } else { None };
    match (b.build(), x, y) {
        (Err(GBuilderError::ValidationError(m)), Some(x), _) => { reach(1); check(x > 100 && m == "big", 30) }
        (Ok(g), Some(x), Some(y)) => { reach(2); check(x <= 100 && g.x == x && g.y == y, 31) }
        (Err(GBuilderError::UninitializedField(n)), None, _) => { reach(3); check(n == "x", 32) }
        (Err(GBuilderError::UninitializedField(n)), Some(x), None) => { reach(4); check(x <= 100 && n == "y", 33) }
        _ => fail("wrong outcome"),
    }
}
fn all(k: usize) {
    match choice("cfg", 9) {
        0 => mutable::rg(k),
        1 => mutable::rx(k),
        2 => mutable::rd(k),
        3 => owned::rg(k),
        4 => owned::rx(k),
        5 => owned::rd(k),
        6 => immutable::rg(k),
        7 => immutable::rx(k),
        _ => immutable::rd(k),
    }
}
symrt::harness! {
    h_order => all(3);
    h_order_deep => all(4);
    h_text => text();
    h_generic => generic();
}
