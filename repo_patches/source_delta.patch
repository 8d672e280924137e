From 97ff2688cc8fd129ee88923eeb5435032907404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 01/11] fix: anchor the regex of the `*` route so that it
 matches only `*`

The pattern was unanchored, so any path containing an asterisk (eg. `/a*b`)
was dispatched to the `*` route.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From 2892fc993772c46c1ccd70e2062cc8dbb6b7ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 02/11] fix: allow declaring the `*` route after other routes

`find_overlap` only handled `*` on its left-hand side and panicked when the
`*` route was declared after any other path.
---
 derive/src/from_request/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..18f96d9 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -498,9 +498,9 @@ impl RoutePath {
     pub fn find_overlap(&self, other: &Self) -> Option<String> {
         use self::PathSegment::*;
 
-        if self.segments.is_empty() {
-            // self is "*"
-            if other.segments.is_empty() {
+        if self.segments.is_empty() || other.segments.is_empty() {
+            // At least one of them is "*", which only overlaps with itself
+            if self.segments.is_empty() && other.segments.is_empty() {
                 return Some("*".into());
             } else {
                 return None;
-- 
2.43.0


From 07cd860aab3ee7d51eedb51e037470e21abc81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 03/11] fix: don't report an overlap between a placeholder and
 an empty segment

`{placeholder}` needs at least one character, so eg. `/` and `/{id}` have no
path in common and may be used together.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 18f96d9..ce53651 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -531,6 +531,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    // A placeholder never matches an empty path segment
+                    if lit.is_empty() {
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From 973ea944f6f969cff3aece624d6f4828d7898d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 04/11] fix: ignore foreign attributes with custom syntax

The derive called `parse_meta().unwrap()` on every attribute of the item, so an
unrelated attribute that doesn't parse as a `Meta` (eg. `#[rustfmt::skip]` or
`#[other(a::b)]`) made it panic.
---
 derive/src/from_request/parse.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index ce53651..608a956 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -25,6 +25,24 @@ fn known_attr(name: &Ident) -> bool {
     our_attrs().find(|s| name == s).is_some()
 }
 
+/// Returns the name of `attr`, if it is used by this custom derive.
+///
+/// Attributes that belong to something else must be ignored. They don't even have to use the syntax
+/// supported by `parse_meta` (eg. `#[rustfmt::skip]`).
+fn our_attr_name(attr: &Attribute) -> Option<&Ident> {
+    let path = &attr.path;
+    if path.leading_colon.is_some() || path.segments.len() != 1 {
+        return None;
+    }
+
+    let name = &path.segments[0].ident;
+    if is_method(name) || known_attr(name) {
+        Some(name)
+    } else {
+        None
+    }
+}
+
 /// Returns whether `name` names an HTTP method attribute (lowercase only).
 fn is_method(name: &Ident) -> bool {
     let name = name.to_string().to_lowercase();
@@ -42,6 +60,10 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
+            if our_attr_name(attr).is_none() {
+                continue;
+            }
+
             let name = attr.parse_meta().unwrap().name();
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
@@ -105,6 +127,10 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
+            if our_attr_name(attr).is_none() {
+                continue;
+            }
+
             let meta = attr.parse_meta().unwrap();
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
@@ -184,6 +210,10 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
+                if our_attr_name(attr).is_none() {
+                    continue;
+                }
+
                 let meta = attr.parse_meta().unwrap();
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
-- 
2.43.0


From 6fad0bf9f01ef6ec7d80b41d3f33d47fb306c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 05/11] fix: accept any type in `#[context(Type)]`

The attribute was parsed as a `Meta` item first, which rejects everything but
plain identifiers, such as `crate::MyContext` and `MyContext<T>`.
---
 derive/src/from_request/parse.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 608a956..ec0631f 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -60,15 +60,15 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            if our_attr_name(attr).is_none() {
-                continue;
-            }
+            let name = match our_attr_name(attr) {
+                Some(name) => name,
+                None => continue,
+            };
 
-            let name = attr.parse_meta().unwrap().name();
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
-            } else if known_attr(&name) && !is_struct {
+            } else if known_attr(name) && !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
                     name
@@ -127,8 +127,11 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
-            if our_attr_name(attr).is_none() {
-                continue;
+            match our_attr_name(attr) {
+                None => continue,
+                // Handled by `ItemData` (the type inside might not be a valid `Meta`)
+                Some(name) if is_struct && name == "context" => continue,
+                Some(_) => {}
             }
 
             let meta = attr.parse_meta().unwrap();
-- 
2.43.0


From 9169f0609f5a4331e01463209b0b210ed2a13be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 06/11] fix: reject misplaced or malformed attributes on
 structs

`#[get]`, `#[get = "/"]` or `#[body]` on a struct were silently ignored, which
turns a struct with a `#[forward]` field into one that accepts every request.
---
 derive/src/from_request/parse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index ec0631f..3d4e133 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -142,9 +142,11 @@ impl VariantData {
                         &list.nested.iter().collect::<Vec<_>>(),
                     ));
                 }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
-                }
+                _ if known_attr(&meta.name()) => panic!(
+                    "`#[{}]` is not valid on {}",
+                    meta.name(),
+                    if is_struct { "structs" } else { "enum variants" }
+                ),
                 _ => {}
             }
         }
-- 
2.43.0


From 44bf085aefb59d06b4cd44da0d0a3b1340eaebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 07/11] fix: don't require users of `#[query_params]` to depend
 on serde_urlencoded

The generated code named `serde_urlencoded` directly, which only resolves if the
calling crate happens to depend on it. Reexport it like the other crates.
---
 derive/src/from_request/mod.rs | 2 +-
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..55efde1 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -412,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
+            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From 98fdea4b6424be1181a5ac33c1065639d82828cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 08/11] fix: support raw identifiers as field names

The derive built an identifier like `fld_r#type`, which isn't valid.
---
 derive/src/from_request/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 55efde1..2d54432 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -681,7 +681,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -721,7 +721,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -739,12 +739,11 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     // Construct the final value from the `fld_X` variables
     let construct = variant.construct(|field, index| {
-        let name = if let Some(ident) = &field.ident {
-            ident.to_string()
+        if let Some(ident) = &field.ident {
+            field_variable(ident)
         } else {
-            index.to_string()
-        };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+            field_variable(index)
+        }
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -753,7 +752,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -764,7 +763,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -781,7 +780,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
@@ -803,6 +802,14 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }}
 }
 
+/// Returns the name of the variable holding the decoded value of the given field.
+fn field_variable(field: impl ToString) -> Ident {
+    // The field name might be a raw identifier (`r#type`)
+    let field = field.to_string();
+    let field = field.trim_start_matches("r#");
+    Ident::new(&format!("fld_{}", field), Span::call_site())
+}
+
 #[cfg(test)]
 mod tests {
     use super::derive_from_request;
-- 
2.43.0


From 875ccd3877bcc900421d349cf4ce0a9fee5eaa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 09/11] fix: don't bound type parameters in derived
 RequestContext impls

The automatically added bounds made the derive unusable on generic types.
---
 derive/src/request_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..f5583c2 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,12 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // None of the generated impls need anything from the type parameters
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From 075524013a8641ff99b5fe81f7b456acc84bf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 10/11] fix: reject #[as_ref] attributes with arbitrary
 arguments

Arguments not supported by `parse_meta` made the derive ignore the attribute.
---
 derive/src/request_context.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index f5583c2..1ca920d 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -33,6 +33,9 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                                 }
                             }
                         }
+                        Err(_) if attr.path.is_ident("as_ref") => {
+                            panic!("invalid syntax for #[as_ref] attribute")
+                        }
                         _ => false,
                     })
                     .count();
@@ -122,10 +125,8 @@ where
     I: IntoIterator<Item = &'a Attribute>,
 {
     for attr in attrs {
-        if let Ok(meta) = attr.parse_meta() {
-            if meta.name() == name {
-                panic!("#[{}] attribute is only allowed on struct fields", name);
-            }
+        if attr.path.is_ident(name) {
+            panic!("#[{}] attribute is only allowed on struct fields", name);
         }
     }
 }
-- 
2.43.0


From 698743a9cc5669772a32f74c6499d37b936bfdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 11/11] fix: add the trait bounds of a field type only once

If a type parameter was used for several guard or body fields, the generated impl
did not compile.
---
 derive/src/from_request/mod.rs   | 13 +++++++++++++
 derive/src/from_request/parse.rs |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 2d54432..f09644c 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -518,9 +518,22 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         ident
     };
 
+    // The bounds for a type must only be added once, even if several fields are of that type: If it
+    // is a type parameter, the type parameters created by `mkty` would be ambiguous otherwise.
+    let mut seen = Vec::new();
+
     let mut bounds: Bounds = variants
         .iter()
         .flat_map(|v| v.field_uses())
+        .filter(|(field, field_kind)| {
+            let key = (field.ty.clone().into_token_stream().to_string(), *field_kind);
+            if seen.contains(&key) {
+                false
+            } else {
+                seen.push(key);
+                true
+            }
+        })
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 3d4e133..3f90b4d 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -108,7 +108,7 @@ pub struct VariantData {
 }
 
 /// Describes where a field is decoded from.
-#[derive(PartialEq)]
+#[derive(Clone, Copy, PartialEq)]
 pub enum FieldKind {
     /// Field is decoded from `{placeholders}` in the URL.
     PathSegment,
-- 
2.43.0

