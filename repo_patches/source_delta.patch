From 1e148016138e99e8b8782ec3a122d8d346a25528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 01/14] fix: Merge where clauses in the fallback impl emitted
 after an invalid attribute

---
 impl/src/fallback.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..c9d45cf 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -1,12 +1,20 @@
 use crate::expand::call_site_ident;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::DeriveInput;
+use syn::{parse_quote, DeriveInput};
 
 pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+    let mut error_generics = input.generics.clone();
+    let error_where_clause = error_generics.make_where_clause();
+    // Work around trivial bounds being unstable.
+    // https://github.com/rust-lang/rust/issues/48214
+    error_where_clause
+        .predicates
+        .push(parse_quote!(for<'workaround> #ty #ty_generics: ::core::fmt::Debug));
+
     let error = error.to_compile_error();
 
     quote! {
@@ -14,12 +22,7 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
-        where
-            // Work around trivial bounds being unstable.
-            // https://github.com/rust-lang/rust/issues/48214
-            for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-        {}
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {}
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-- 
2.43.0


From 612cada7b39847c213a6cf0aa25455d86263b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 02/14] fix: Ignore whitespace before the closing brace when
 detecting a placeholder's trait

---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..438a002 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,7 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From baa306225854e6c352a11a9fb1f1c6b45bb76dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 03/14] fix: Recognize a closing brace used as fill character
 in a placeholder

---
 impl/src/fmt.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 438a002..48ba70f 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -85,8 +85,9 @@ impl Display<'_> {
                 }
                 _ => continue,
             };
-            let end_spec = match read.find('}') {
-                Some(end_spec) => end_spec,
+            let fill_len = fill_len(read);
+            let end_spec = match read[fill_len..].find('}') {
+                Some(end_spec) => fill_len + end_spec,
                 None => return Ok(()),
             };
             let mut bonus_display = false;
@@ -295,6 +296,16 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+// Length of the part of a format spec which may contain a closing brace as fill
+// character, as in `{var:}<5}`.
+fn fill_len(read: &str) -> usize {
+    let mut chars = read.chars();
+    match (chars.next(), chars.next(), chars.next()) {
+        (Some(':'), Some(fill), Some('<' | '^' | '>')) => 1 + fill.len_utf8(),
+        _ => 0,
+    }
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From 4ff1c123ca3b30af3e3001efb0c426533fcfbdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 04/14] fix: Support non-ASCII field names in format strings

---
 impl/src/fmt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 48ba70f..77ef80a 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,12 +65,12 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'..=char::MAX => {
                     if read.starts_with("r#") {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" {
+                    if repr == "_" || Ident::parse_any.parse_str(repr).is_err() {
                         // Invalid. Let rustc produce the diagnostic.
                         out += repr;
                         continue;
@@ -288,6 +288,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            _ if !ch.is_ascii() && !ch.is_whitespace() => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From 9641ed30621515395d59a6deca9168a66d2959a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 05/14] fix: See through the invisible group around a
 macro_rules $:ty fragment

---
 impl/src/ast.rs      |  4 ++--
 impl/src/generics.rs | 11 ++++++++++-
 impl/src/valid.rs    |  3 ++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/impl/src/ast.rs b/impl/src/ast.rs
index 77f9583..7a5dc49 100644
--- a/impl/src/ast.rs
+++ b/impl/src/ast.rs
@@ -1,5 +1,5 @@
 use crate::attr::{self, Attrs};
-use crate::generics::ParamsInScope;
+use crate::generics::{ungroup, ParamsInScope};
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::Span;
 use std::fmt::{self, Display};
@@ -147,7 +147,7 @@ impl<'a> Field<'a> {
                     span: Span::call_site(),
                 }),
             },
-            ty: &node.ty,
+            ty: ungroup(&node.ty),
             contains_generic: scope.intersects(&node.ty),
         })
     }
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..aef67ee 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -23,8 +23,17 @@ impl<'a> ParamsInScope<'a> {
     }
 }
 
+// Remove the invisible delimiters around a type that comes from a $:ty fragment
+// of a macro_rules macro.
+pub fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup(ty) {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..8a5dfa3 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -1,5 +1,6 @@
 use crate::ast::{Enum, Field, Input, Struct, Variant};
 use crate::attr::Attrs;
+use crate::generics::ungroup;
 use syn::{Error, GenericArgument, PathArguments, Result, Type};
 
 impl Input<'_> {
@@ -222,7 +223,7 @@ fn check_field_attrs(fields: &[Field]) -> Result<()> {
 }
 
 fn contains_non_static_lifetime(ty: &Type) -> bool {
-    match ty {
+    match ungroup(ty) {
         Type::Path(ty) => {
             let bracketed = match &ty.path.segments.last().unwrap().arguments {
                 PathArguments::AngleBracketed(bracketed) => bracketed,
-- 
2.43.0


From de7dc7fbcb795a67a155975a73fe401d48088db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 06/14] fix: Report leftover tokens in a format argument
 instead of panicking

---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 77ef80a..4711910 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -17,7 +17,7 @@ impl Display<'_> {
         let FmtArguments {
             named: user_named_args,
             first_unnamed,
-        } = explicit_named_args.parse2(raw_args).unwrap();
+        } = explicit_named_args.parse2(raw_args)?;
 
         let mut member_index = HashMap::new();
         let mut extra_positional_arguments_allowed = true;
-- 
2.43.0


From d49cf2a3435298cef042b750405f4e23671a1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 07/14] fix: Keep the hygiene of a field named by a raw keyword

A binding for such a field had the span of the derive instead of that of the
field, unlike the reference to it in the message. If the field's name comes
from a macro_rules fragment the two did not refer to each other.
---
 impl/src/unraw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 73b9970..86d8a4e 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -23,7 +23,7 @@ impl IdentUnraw {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-                return Ident::new_raw(&repr, Span::call_site());
+                return Ident::new_raw(&repr, unraw.span());
             }
         }
         unraw
-- 
2.43.0


From bac19ccd5189bc86c9daf1ce0d12956fad5d7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 08/14] fix: Refer to self and the transparent field
 hygienically in source and provide

The spans that these expressions are given for the sake of diagnostics come
from the attribute or the field. If that was written in another macro context
than the derive, self and the binding of the pattern were not found.
---
 impl/src/expand.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..2e54178 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -38,8 +38,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
         }
         let member = &only_field.member;
+        let self_value = quote!(self);
         Some(quote_spanned! {transparent_attr.span=>
-            ::thiserror::__private::Error::source(self.#member.as_dyn_error())
+            ::thiserror::__private::Error::source(#self_value.#member.as_dyn_error())
         })
     } else if let Some(source_field) = input.source_field() {
         let source = &source_field.member;
@@ -52,8 +53,9 @@ fn impl_struct(input: Struct) -> TokenStream {
         } else {
             None
         };
+        let self_value = quote!(self);
         let dyn_error = quote_spanned! {source_field.source_span()=>
-            self.#source #asref.as_dyn_error()
+            #self_value.#source #asref.as_dyn_error()
         };
         Some(quote! {
             ::core::option::Option::Some(#dyn_error)
@@ -72,18 +74,19 @@ fn impl_struct(input: Struct) -> TokenStream {
 
     let provide_method = input.backtrace_field().map(|backtrace_field| {
         let request = quote!(request);
+        let self_value = quote!(self);
         let backtrace = &backtrace_field.member;
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
             let source_provide = if type_is_option(source_field.ty) {
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &self.#source {
+                    if let ::core::option::Option::Some(source) = &#self_value.#source {
                         source.thiserror_provide(#request);
                     }
                 }
             } else {
                 quote_spanned! {source.span()=>
-                    self.#source.thiserror_provide(#request);
+                    #self_value.#source.thiserror_provide(#request);
                 }
             };
             let self_provide = if source == backtrace {
@@ -224,11 +227,12 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
+                let transparent = quote!(transparent);
                 let source = quote_spanned! {transparent_attr.span=>
-                    ::thiserror::__private::Error::source(transparent.as_dyn_error())
+                    ::thiserror::__private::Error::source(#transparent.as_dyn_error())
                 };
                 quote! {
-                    #ty::#ident {#member: transparent} => #source,
+                    #ty::#ident {#member: #transparent} => #source,
                 }
             } else if let Some(source_field) = variant.source_field() {
                 let source = &source_field.member;
-- 
2.43.0


From 0e17680749600a3727cd2dd59b5102c830e147fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 09/14] fix: Resolve the .0 shorthand hygienically

The shorthand for a tuple field is replaced by the name that the expansion's
pattern gives to the field, but kept the span of the number. If the attribute
was written in another macro context than the derive, that name was not found,
unlike that of a {0} in the message.
---
 impl/src/attr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..34debbd 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -193,6 +193,12 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
     })
 }
 
+// The name that the expansion's pattern gives to a tuple field. It resolves the
+// way the pattern does, no matter which macro the shorthand was written in.
+fn tuple_binding(index: &Index, span: Span) -> Ident {
+    format_ident!("_{}", index, span = span.resolved_at(Span::call_site()))
+}
+
 fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStream> {
     let mut tokens = Vec::new();
     while !input.is_empty() {
@@ -212,7 +218,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 input.parse::<Token![.]>()?;
                 let int: Index = input.parse()?;
                 tokens.push({
-                    let ident = format_ident!("_{}", int.index, span = int.span);
+                    let ident = tuple_binding(&int, int.span);
                     TokenTree::Ident(ident)
                 });
                 begin_expr = false;
@@ -228,7 +234,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 {
                     input.advance_to(&ahead);
                     tokens.push({
-                        let ident = format_ident!("_{}", first, span = float.span());
+                        let ident = tuple_binding(&first, float.span());
                         TokenTree::Ident(ident)
                     });
                     tokens.push({
-- 
2.43.0


From 5136189d31eef4f73e2e1fb3afb1a3b691b191b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 10/14] fix: Do not take the crate of an absolute path for a
 type parameter

::core::num::ParseIntError does not mention a type parameter named core, and
needs no bound.
---
 impl/src/generics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index aef67ee..b1d19c0 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -38,7 +38,10 @@ fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
             crawl(in_scope, &qself.ty, found);
         } else {
             let front = ty.path.segments.first().unwrap();
-            if front.arguments.is_none() && in_scope.names.contains(&front.ident) {
+            if ty.path.leading_colon.is_none()
+                && front.arguments.is_none()
+                && in_scope.names.contains(&front.ident)
+            {
                 *found = true;
             }
         }
-- 
2.43.0


From e6a30a2d3bf85902ebb71e57ad1fd1f1b5f3dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 11/14] fix: Accept {self} in the message of an enum variant

The function that provokes the unconditional_recursion warning was put in front
of the expression of a match arm, which is a syntax error.
---
 impl/src/attr.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 34debbd..16ed9f7 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -307,14 +307,6 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
 
 impl ToTokens for Display<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        if self.infinite_recursive {
-            let span = self.fmt.span();
-            tokens.extend(quote_spanned! {span=>
-                #[warn(unconditional_recursion)]
-                fn _fmt() { _fmt() }
-            });
-        }
-
         let fmt = &self.fmt;
         let args = &self.args;
 
@@ -331,7 +323,7 @@ impl ToTokens for Display<'_> {
             }
         };
 
-        tokens.extend(if self.bindings.is_empty() {
+        let display = if self.bindings.is_empty() {
             write
         } else {
             let locals = self.bindings.iter().map(|(local, _value)| local);
@@ -341,6 +333,17 @@ impl ToTokens for Display<'_> {
                     (#(#locals,)*) => #write
                 }
             }
+        };
+
+        tokens.extend(if self.infinite_recursive {
+            let span = self.fmt.span();
+            let infinite_recursive = quote_spanned! {span=>
+                #[warn(unconditional_recursion)]
+                fn _fmt() { _fmt() }
+            };
+            quote!({ #infinite_recursive #display })
+        } else {
+            display
         });
     }
 }
-- 
2.43.0


From 11f61b327131f380b3daec224fa2dc1a92672f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 12/14] fix: Do not warn about the names of variables in the
 expansion

A field named _x led to a variable __field__x, which is not considered to be
snake case, with a warning that points at the user's message.
---
 impl/src/attr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 16ed9f7..2bc2825 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -330,6 +330,7 @@ impl ToTokens for Display<'_> {
             let values = self.bindings.iter().map(|(_local, value)| value);
             quote! {
                 match (#(#values,)*) {
+                    #[allow(non_snake_case)]
                     (#(#locals,)*) => #write
                 }
             }
-- 
2.43.0


From cf01bfa48044955b05b61a4ed1850f8cd4f0aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 13/14] fix: Do not trigger clippy::redundant_field_names for a
 #[from] field called source

---
 impl/src/expand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 2e54178..bc6f792 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -189,6 +189,7 @@ fn impl_struct(input: Struct) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
@@ -465,6 +466,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
-- 
2.43.0


From ab0a2facf9943e03c8f63a8e74f77d5d7475681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 14/14] fix: Recognise the .field shorthand in struct
 expressions, ranges and labelled breaks

---
 impl/src/attr.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 2bc2825..60b5330 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -4,8 +4,8 @@ use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, Lifetime,
+    LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -253,7 +253,22 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if begin_expr && input.peek(Lifetime) {
+            // As in `break 'label .field`.
+            let label: Lifetime = input.parse()?;
+            tokens.extend(label.into_token_stream());
+            continue;
+        }
+
+        if input.peek(Token![..]) {
+            tokens.push(input.parse()?);
+            tokens.push(input.parse()?);
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
+            || input.peek(Token![const])
             || input.peek(Token![continue])
             || input.peek(Token![if])
             || input.peek(Token![in])
@@ -266,6 +281,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             || input.peek(Token![!])
             || input.peek(Token![^])
             || input.peek(Token![,])
+            || input.peek(Token![:])
             || input.peek(Token![/])
             || input.peek(Token![=])
             || input.peek(Token![>])
-- 
2.43.0

