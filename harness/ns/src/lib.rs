//! A crate without std whose builders are used by the feature-set harnesses.
#![no_std]
#![allow(warnings)]
#[cfg(any(feature = "alloc", feature = "std"))]
extern crate alloc;
use derive_builder::{Builder, UninitializedFieldError};

pub static mut LOG: [u8; 16] = [0; 16];
pub static mut LOGN: usize = 0;
pub fn log(k: u8) {
    unsafe {
        if LOGN < 16 {
            LOG[LOGN] = k;
        }
        LOGN += 1;
    }
}
pub fn logged(i: usize) -> u8 {
    unsafe {
        if i < LOGN {
            LOG[i]
        } else {
            0
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct N(pub u32);
impl Default for N {
    fn default() -> N {
        N(11)
    }
}
impl From<u8> for N {
    fn from(v: u8) -> N {
        N(v as u32 + 1)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bad(pub u16);
impl core::convert::TryFrom<u16> for N {
    type Error = Bad;
    fn try_from(v: u16) -> Result<N, Bad> {
        if v < 500 {
            Ok(N(v as u32))
        } else {
            Err(Bad(v))
        }
    }
}
/// A collection without allocation
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Coll {
    pub v: [u32; 4],
    pub n: usize,
}
impl Extend<N> for Coll {
    fn extend<I: IntoIterator<Item = N>>(&mut self, i: I) {
        for x in i {
            if self.n < 4 {
                self.v[self.n] = x.0;
            }
            self.n += 1;
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Missing(&'static str),
    Invalid(Bad),
}
impl From<UninitializedFieldError> for E {
    fn from(e: UninitializedFieldError) -> E {
        E::Missing(e.field_name())
    }
}
impl From<Bad> for E {
    fn from(e: Bad) -> E {
        E::Invalid(e)
    }
}
macro_rules! fields {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            fn five() -> u32 {
                log(5);
                5
            }
            fn mk() -> S {
                log(6);
                S { a: 1, b: 2, c: N(3), d: 4, e: N(5), f: Coll::default(), g: 7, h: 8 }
            }
            #[derive(Builder, Clone, Debug, PartialEq)]
            #[builder(pattern = $p, try_setter, no_std, field(public), build_fn(error = "E", validate = "Self::v"))]
            pub struct S {
                pub a: u32,
                #[builder(default = "five()", setter(skip))]
                pub b: u32,
                #[builder(default, setter(into))]
                pub c: N,
                #[builder(default = self.a.unwrap_or(9))]
                pub d: u32,
                pub e: N,
                #[builder(setter(each(name = "item", into)))]
                pub f: Coll,
                #[builder(field(ty = "u8", build = "self.g as u32 + 1"))]
                pub g: u32,
                #[builder(setter(name = "put"), default = "if self.e == Some(N(7)) { return Err(Bad(7).into()); } else { 3 }")]
                pub h: u32,
            }
            impl SBuilder {
                pub fn v(&self) -> Result<(), Bad> {
                    log(1);
                    match self.a {
                        Some(13) => Err(Bad(13)),
                        _ => Ok(()),
                    }
                }
            }
        }
    };
}
pub mod custom {
    //! a custom error type: usable with every feature set
    use super::*;
    fields!("owned", owned);
    fields!("mutable", mutable);
    fields!("immutable", immutable);
}
/// no validation error: the generated error type, usable with every feature set
macro_rules! plain {
    ($p:tt, $m:ident) => {
        pub mod $m {
            use super::*;
            fn five() -> u32 {
                log(5);
                5
            }
            #[derive(Builder, Clone, Debug, PartialEq)]
            #[builder(pattern = $p, no_std, build_fn(error(validation_error = false)))]
            pub struct P<T: Copy> {
                pub a: T,
                #[builder(default)]
                pub b: N,
                #[builder(default = "five()")]
                pub c: u32,
                #[builder(setter(strip_option, into))]
                pub d: Option<N>,
                #[builder(setter(skip))]
                pub e: N,
            }
            #[derive(Builder, Clone, Debug, PartialEq, Default)]
            #[builder(pattern = $p, no_std, default = "Q { x: five(), y: N(2), z: None }", build_fn(error(validation_error = false), name = "finish"))]
            pub struct Q {
                pub x: u32,
                pub y: N,
                pub z: Option<u8>,
            }
        }
    };
}
pub mod bare {
    use super::*;
    plain!("owned", owned);
    plain!("mutable", mutable);
    plain!("immutable", immutable);
}
/// The error type generated by default.
#[cfg(any(feature = "alloc", feature = "std"))]
pub mod full {
    use super::*;
    use alloc::string::String;
    macro_rules! full {
        ($p:tt, $m:ident) => {
            pub mod $m {
                use super::*;
                #[derive(Builder, Clone, Debug, PartialEq)]
                #[builder(pattern = $p, no_std, build_fn(validate = "Self::v"))]
                pub struct F {
                    pub a: u32,
                    #[builder(default = "if self.a == Some(5) { return Err(String::from(\"five\").into()); } else { 4 }")]
                    pub b: u32,
                    pub c: u8,
                }
                impl FBuilder {
                    fn v(&self) -> Result<(), String> {
                        match self.a {
                            Some(13) => Err(String::from("thirteen")),
                            _ => Ok(()),
                        }
                    }
                }
            }
        };
    }
    full!("owned", owned);
    full!("mutable", mutable);
    full!("immutable", immutable);
}
