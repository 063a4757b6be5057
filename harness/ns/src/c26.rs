#![allow(warnings)]
//! C26: what builders do does not depend on the features the library is built with.
//! Compiled in three packages: default features, alloc without std, neither.
use derive_builder::{Builder, UninitializedFieldError};
use ns::*;
use symrt::*;

macro_rules! upd {
    ("mutable", $b:ident, $m:ident ( $($a:expr),* )) => { { $b.$m($($a),*); } };
    ($p:tt, $b:ident, $m:ident ( $($a:expr),* )) => { $b = $b.$m($($a),*); };
}
fn restart() {
    unsafe { LOGN = 0 }
}
/// Everything at once, with a custom error.
macro_rules! custom {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            use ns::custom::$m::*;
            pub fn run() {
                restart();
                let mut b = SBuilder::default();
                check(b.a == None && b.c == None && b.g == 0, 1);
                let (a, c, d, e, g) = (any_u32("a"), any_u8("c"), any_u32("d"), any_u32("e"), any_u8("g"));
                let (sa, sc, sd, se, sf) = (flag("set a"), flag("set c"), flag("set d"), flag("set e"), flag("set f"));
                if sa { upd!($p, b, a(a)); }
                if sc { upd!($p, b, c(c)); }
                if sd { upd!($p, b, d(d)); }
                if se { upd!($p, b, e(N(e))); }
                if sf {
                    upd!($p, b, item(c));
                    upd!($p, b, item(N(d)));
                }
                upd!($p, b, g(g));
                check(unsafe { LOGN } == 0, 2);
                let r = b.build();
                check(logged(0) == 1, 3);
                if sa && a == 13 {
                    reach(1);
                    check(r == Err(E::Invalid(Bad(13))) && unsafe { LOGN } == 1, 4);
                } else if !sa {
                    reach(2);
                    check(r == Err(E::Missing("a")), 5);
                } else if !se {
                    check(r == Err(E::Missing("e")), 6);
                } else if !sf {
                    check(r == Err(E::Missing("f")), 7);
                } else if e == 7 {
                    reach(3);
                    check(r == Err(E::Invalid(Bad(7))), 8);
                } else {
                    reach(4);
                    let f = Coll { v: [c as u32 + 1, d, 0, 0], n: 2 };
                    let want = S { a, b: 5, c: if sc { N(c as u32 + 1) } else { N(11) }, d: if sd { d } else { a }, e: N(e), f, g: g as u32 + 1, h: 3 };
                    check(r == Ok(want), 9);
                    check(logged(1) == 5 && unsafe { LOGN } == 2, 10);
                }
            }
            pub fn try_() {
                let mut b = SBuilder::default();
                let v = any_u16("v");
                let ok = match b.try_e(v) {
                    Ok(_) => true,
                    Err(x) => {
                        check(x == Bad(v), 20);
                        false
                    }
                };
                reach(5);
                check(ok == (v < 500), 21);
            }
        }
    };
}
mod custom {
    use super::*;
    custom!("owned", owned);
    custom!("mutable", mutable);
    custom!("immutable", immutable);
}
/// The generated error without the validation variant.
macro_rules! bare {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            use ns::bare::$m::*;
            pub fn run() {
                restart();
                let mut b = PBuilder::<u16>::default();
                let (a, c, d) = (any_u16("a"), any_u32("c"), any_u8("d"));
                let (sa, sc, sd) = (flag("set a"), flag("set c"), flag("set d"));
                if sa { upd!($p, b, a(a)); }
                if sc { upd!($p, b, c(c)); }
                if sd { upd!($p, b, d(d)); }
                match b.build() {
                    Ok(s) => {
                        reach(10);
                        check(sa && sd, 30);
                        check(s == P { a, b: N(11), c: if sc { c } else { 5 }, d: Some(N(d as u32 + 1)), e: N(11) }, 31);
                        check(unsafe { LOGN } == !sc as usize, 32);
                    }
                    Err(PBuilderError::UninitializedField(n)) => {
                        reach(11);
                        check(!(sa && sd) && n == if sa { "d" } else { "a" }, 33);
                    }
                    Err(_) => check(false, 34),
                }
                let mut q = QBuilder::default();
                restart();
                if sc { upd!($p, q, x(c)); }
                match q.finish() {
                    Ok(s) => check(s == Q { x: if sc { c } else { 5 }, y: N(2), z: None } && unsafe { LOGN } == 1, 35),
                    Err(_) => check(false, 36),
                }
                // conversion into the generated error
                let e = PBuilderError::from(UninitializedFieldError::new("name"));
                check(matches!(e, PBuilderError::UninitializedField("name")), 37);
            }
        }
    };
}
mod bare {
    use super::*;
    bare!("owned", owned);
    bare!("mutable", mutable);
    bare!("immutable", immutable);
}
#[cfg(feature = "alloc")]
macro_rules! full {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            use ns::full::$m::*;
            pub fn run() {
                let mut b = FBuilder::default();
                let (a, c) = (any_u32("a"), any_u8("c"));
                let (sa, sc) = (flag("set a"), flag("set c"));
                if sa { upd!($p, b, a(a)); }
                if sc { upd!($p, b, c(c)); }
                match b.build() {
                    Ok(s) => {
                        reach(20);
                        check(sa && sc && a != 13 && a != 5 && s == F { a, b: 4, c }, 40);
                    }
                    Err(FBuilderError::ValidationError(m)) => {
                        reach(21);
                        check(sa && (m == "thirteen" && a == 13 || m == "five" && a == 5), 41);
                    }
                    Err(FBuilderError::UninitializedField(n)) => {
                        reach(22);
                        check(a != 13 || !sa, 42);
                        check(!sa && n == "a" || sa && !sc && a != 5 && n == "c", 43);
                    }
                    Err(_) => check(false, 44),
                }
            }
        }
    };
}
#[cfg(feature = "alloc")]
mod full {
    use super::*;
    full!("owned", owned);
    full!("mutable", mutable);
    full!("immutable", immutable);
}
/// Text without allocation.
pub struct Buf {
    pub b: [u8; 64],
    pub n: usize,
}
impl core::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.bytes() {
            if self.n < 64 {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn shows(d: &dyn core::fmt::Display, parts: &[&str], k: u32) {
    use core::fmt::Write;
    let mut b = Buf { b: [0; 64], n: 0 };
    check(write!(b, "{}", d).is_ok(), k);
    let mut i = 0;
    for p in parts {
        for c in p.bytes() {
            check(i < b.n && b.b[i] == c, k + 1);
            i += 1;
        }
    }
    check(b.n == i, k + 2);
}
/// Displayed errors, for every name of up to six printable characters.
fn text() {
    let n = choice("length", 7);
    let mut v = [0u8; 6];
    for i in 0..n {
        v[i] = 32 + below("character", 95) as u8;
    }
    let s: &str = unsafe { core::str::from_utf8_unchecked(&v[..n]) };
    let s: &'static str = unsafe { core::mem::transmute(s) };
    reach(30);
    let e = UninitializedFieldError::new(s);
    check(e.field_name() == s && UninitializedFieldError::from(s).field_name() == s, 50);
    shows(&e, &["Field not initialized: ", s], 51);
    shows(&ns::bare::owned::PBuilderError::from(e.clone()), &["`", s, "` must be initialized"], 54);
    check(E::from(e.clone()) == E::Missing(s), 57);
    #[cfg(feature = "alloc")]
    {
        use ns::full::mutable::FBuilderError;
        shows(&FBuilderError::from(e), &["`", s, "` must be initialized"], 60);
        let e = FBuilderError::from(std::string::String::from(s));
        shows(&e, &[s], 63);
        check(matches!(e, FBuilderError::ValidationError(m) if m == s), 66);
    }
}
symrt::harness! {
    h_text => text();
    h_custom => match choice("pattern", 3) {
        0 => custom::owned::run(),
        1 => custom::mutable::run(),
        _ => custom::immutable::run(),
    };
    h_try => match choice("pattern", 2) {
        0 => custom::mutable::try_(),
        _ => custom::immutable::try_(),
    };
    h_bare => match choice("pattern", 3) {
        0 => bare::owned::run(),
        1 => bare::mutable::run(),
        _ => bare::immutable::run(),
    };
    h_full => {
        #[cfg(feature = "alloc")]
        match choice("pattern", 3) {
            0 => full::owned::run(),
            1 => full::mutable::run(),
            _ => full::immutable::run(),
        }
    };
}
