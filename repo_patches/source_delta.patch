From fccf4f7647b80016f59df6583c0ca4608308a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 1/6] fix: try_setter panicked on raw identifiers

---
 derive_builder_core/src/setter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..c781f1d 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From 7de27ed7317bc3e948570e2cdc8ea39a170b85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 2/6] fix: setter(custom = false) on a skipped field panicked

---
 derive_builder_core/src/macro_options/darling_opts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..e3d9129 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -262,8 +262,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
@@ -283,6 +283,7 @@ impl FieldLevelSetter {
             || self.into.is_some()
             || self.strip_option.is_some()
             || self.each.is_some()
+            || self.custom == Some(false)
         {
             return Some(true);
         }
-- 
2.43.0


From 2e8f061db89fd4ae50aa4e55d254e705acc79367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 3/6] fix: malformed contents of builder_*_attr attributes
 panicked

---
 derive_builder_core/src/macro_options/darling_opts.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index e3d9129..10d79b5 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -483,10 +483,12 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
     match meta {
         Meta::Path(_) => Err(Error::unsupported_format("word").with_span(&meta)),
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
-        Meta::List(list) => {
-            let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
-        }
+        Meta::List(list) => Ok(Attribute {
+            pound_token: pound,
+            style: syn::AttrStyle::Outer,
+            bracket_token: syn::token::Bracket(original_span),
+            meta: list.parse_args()?,
+        }),
     }
 }
 
-- 
2.43.0


From 328e488309e9a5dbb9fac7d54add68d7403207a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 4/6] fix: reject unions with a compile error instead of
 panicking

---
 derive_builder_core/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..bcf5d69 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,16 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // `darling` treats unions as unreachable, so they have to be rejected before parsing options.
+    if let syn::Data::Union(_) = ast.data {
+        return darling::Error::unsupported_shape_with_expected(
+            "union",
+            &"struct with named fields",
+        )
+        .with_span(&ast.ident)
+        .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From abeb23a31173ff28363efd8133720831bd8eb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 5/6] fix: a line comment at the end of a quoted expression
 swallowed the closing brace

---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..882d670 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // The newline keeps a trailing line comment from swallowing the closing brace.
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From c5ab44a2b2b5fa4e2cf6e8323aa048d420cd5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:40 +0000
Subject: [PATCH 6/6] fix: a quoted default or build expression from a
 macro_rules fragment was taken as a literal when followed by a comma

---
 derive_builder_core/src/block.rs              | 10 +++++++++-
 derive_builder_core/src/default_expression.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 882d670..3cb2cb4 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -49,6 +49,14 @@ impl From<syn::Expr> for BlockContents {
     }
 }
 
+/// Look through the invisible delimiters around an expression that was passed to `macro_rules!`.
+pub(crate) fn ungroup(mut expr: &syn::Expr) -> &syn::Expr {
+    while let syn::Expr::Group(group) = expr {
+        expr = &group.expr;
+    }
+    expr
+}
+
 impl darling::FromMeta for BlockContents {
     fn from_value(value: &syn::Lit) -> darling::Result<Self> {
         if let syn::Lit::Str(s) = value {
@@ -64,7 +72,7 @@ impl darling::FromMeta for BlockContents {
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
-        if let syn::Expr::Lit(lit) = expr {
+        if let syn::Expr::Lit(lit) = ungroup(expr) {
             Self::from_value(&lit.lit)
         } else {
             Ok(Self::from(expr.clone()))
diff --git a/derive_builder_core/src/default_expression.rs b/derive_builder_core/src/default_expression.rs
index 44dd304..a16bbd1 100644
--- a/derive_builder_core/src/default_expression.rs
+++ b/derive_builder_core/src/default_expression.rs
@@ -1,4 +1,4 @@
-use crate::BlockContents;
+use crate::block::{ungroup, BlockContents};
 use proc_macro2::Span;
 use quote::ToTokens;
 
@@ -42,7 +42,7 @@ impl darling::FromMeta for DefaultExpression {
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
-        if let syn::Expr::Lit(el) = expr {
+        if let syn::Expr::Lit(el) = ungroup(expr) {
             if let syn::Lit::Str(_) = el.lit {
                 return Self::from_value(&el.lit);
             }
-- 
2.43.0

