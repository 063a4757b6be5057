#![allow(warnings)]
//! C17 through the real proc-macro crate: the helper attributes are accepted by the
//! compiler, and the forwarded attributes have their effect on the generated items.
include!("../common.rs");

/// `cfg` decides about a field, its slot, its setters together.
mod gone {
    use super::*;
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder_struct_attr(derive(PartialEq, Debug))]
    #[builder_struct_attr(repr(C, align(64)))]
    #[builder_impl_attr(allow(dead_code))]
    #[builder_impl_attr(cfg(all()))]
    #[builder(try_setter)]
    pub struct S {
        #[builder_field_attr(cfg(all()))]
        #[builder_setter_attr(cfg(any()))]
        pub a: u32,
        #[builder_setter_attr(must_use)]
        #[builder_setter_attr(inline(never))]
        #[builder(default = "4")]
        pub b: u32,
        /// documented
        #[allow(dead_code)]
        #[cfg(all())]
        pub c: N,
    }
    impl SBuilder {
        // the names are free, as the generated setters were removed by their cfg
        pub fn a(&mut self, v: u32) -> &mut Self {
            self.a = Some(v ^ 1);
            self
        }
        pub fn try_a(&self) -> u32 {
            9
        }
    }
    pub fn run() {
        let v = any_u32("v");
        let w = any_u32("w");
        let mut b = SBuilder::default();
        b.a(v);
        b.c(N(w));
        reach(1);
        check(b == SBuilder { a: Some(v ^ 1), b: None, c: Some(N(w)) }, 1);
        check(b.try_a() == 9, 2);
        check(core::mem::align_of::<SBuilder>() == 64, 3);
        check(b.build().ok() == Some(S { a: v ^ 1, b: 4, c: N(w) }), 4);
    }
}
/// Removing the builder struct and everything in it.
mod none {
    use super::*;
    #[derive(Builder, Debug, Clone, PartialEq)]
    #[builder(custom_constructor, build_fn(error = "my::E"))]
    #[builder_struct_attr(cfg(any()))]
    #[builder_impl_attr(cfg(any()))]
    pub struct S {
        pub a: u32,
    }
    pub mod my {
        pub enum E { A }
        impl From<derive_builder::UninitializedFieldError> for E {
            fn from(_: derive_builder::UninitializedFieldError) -> E { E::A }
        }
    }
    // the name is free
    pub struct SBuilder(pub u8);
    impl SBuilder {
        pub fn a(&self) -> u8 { self.0 }
        pub fn build(&self) -> u8 { self.0 ^ 3 }
    }
    pub fn run() {
        let v = any_u8("v");
        reach(2);
        check(SBuilder(v).a() == v && SBuilder(v).build() == v ^ 3, 10);
    }
}
symrt::harness! {
    h_shim => { gone::run(); none::run(); };
}
