#![allow(warnings)]
pub mod cfg;
pub mod meta;
pub mod opts;
pub mod out;
pub mod pieces;
pub mod tok;
pub use cfg::*;
pub use meta::*;
pub use opts::*;
pub use out::*;
pub use pieces::*;
pub use proc_macro2::{Ident, Span, TokenStream};
pub use quote::{format_ident, quote, ToTokens};
pub use symrt::*;
pub use tok::*;

/// The code under test, from the tokens of an item to the tokens of the expansion.
pub fn expand(item: TokenStream) -> TokenStream {
    match syn::parse2::<syn::DeriveInput>(item) {
        Ok(ast) => derive_builder_core::builder_for_struct(ast),
        Err(_) => fail("the harness built an item that does not parse"),
    }
}

/// Like `expand`, for items that may not be syntactically valid (those are outside the domain).
pub fn expand_valid(item: TokenStream) -> TokenStream {
    match syn::parse2::<syn::DeriveInput>(item) {
        Ok(ast) => derive_builder_core::builder_for_struct(ast),
        Err(_) => {
            assume(false);
            loop {}
        }
    }
}
