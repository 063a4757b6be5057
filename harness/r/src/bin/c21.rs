#![allow(warnings)]
//! C21 at run time: generated code keeps its meaning where the deriving module has
//! items of its own named like the core items that the generated code uses.
include!("../common.rs");

pub struct Tag(pub u32);
macro_rules! suite {
    ($p:tt, $m:ident, $($o:tt)*) => {
        pub mod $m {
            use super::{any_u32, check, flag, reach, Cp, Tag, N};
            type Opt<T> = ::core::option::Option<T>;
            // none of these is what the generated code means
            pub struct Option<T>(T);
            pub type Result<T> = ::core::result::Result<T, Tag>;
            pub struct String;
            pub struct Vec;
            pub struct Box;
            pub struct PhantomData;
            pub struct UninitializedFieldError;
            pub struct Error;
            pub struct Debug;
            pub trait Into {}
            pub trait TryInto {}
            pub trait Default {}
            pub trait Clone {}
            pub trait Display {}
            pub trait ToString {}
            pub mod core {}
            pub mod alloc {}
            pub mod fmt {}
            pub mod export {}
            pub mod result {}
            pub mod option {}
            #[derive(::derive_builder::Builder, ::core::clone::Clone, ::core::cmp::PartialEq)]
            #[builder(pattern = $p, build_fn(validate = "Self::v"), try_setter, $($o)*)]
            pub struct S {
                pub a: u32,
                #[builder(default)]
                pub b: N,
                #[builder(setter(into), default = "Cp(4)")]
                pub c: Cp,
                #[builder(setter(each(name = "dd", into)))]
                pub d: ::std::vec::Vec<N>,
                #[builder(setter(skip))]
                pub e: u32,
                #[builder(setter(strip_option, into), default)]
                pub f: Opt<Cp>,
                #[builder(field(ty = "Cp"))]
                pub g: Cp,
            }
            impl SBuilder {
                fn v(&self) -> ::core::result::Result<(), ::std::string::String> {
                    if self.a == Opt::Some(7) { ::core::result::Result::Err(::std::string::String::from("seven")) } else { ::core::result::Result::Ok(()) }
                }
            }
            pub fn run() {
                let (v, w) = (any_u32("v"), any_u32("w"));
                let mut b = <SBuilder as ::core::default::Default>::default();
                check(b.a.is_none() && b.f.is_none() && b.g == Cp(13), 1);
                let set = flag("a is set");
                if set {
                    upd!($p, b, a(v));
                }
                upd!($p, b, dd(N(w)));
                upd!($p, b, g(Cp(w)));
                let r = b.build();
                reach(1);
                match r {
                    ::core::result::Result::Ok(s) => {
                        check(set && v != 7 && s.a == v && s.b == N(11) && s.c == Cp(4) && s.e == 0 && s.g == Cp(w), 2);
                        check(s.d.len() == 1 && s.f.is_none(), 3);
                    }
                    ::core::result::Result::Err(SBuilderError::UninitializedField(n)) => check(!set && n == "a", 4),
                    ::core::result::Result::Err(SBuilderError::ValidationError(m)) => check(set && v == 7 && m == "seven", 5),
                    ::core::result::Result::Err(_) => check(false, 6),
                }
            }
        }
    };
}
suite!("owned", owned, public);
suite!("mutable", mutable, public);
suite!("immutable", immutable, public);
suite!("mutable", nostd, no_std);
symrt::harness! {
    h_scope => match choice("pattern", 4) {
        0 => owned::run(),
        1 => mutable::run(),
        2 => immutable::run(),
        _ => nostd::run(),
    };
}
