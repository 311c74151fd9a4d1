From b62cb1226f1bfa1080539fcd67f130d9bfe0160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 01/12] fix: parse unclosed nested block comments in linear
 time

Each unclosed `/*` inside a comment was tried as a nested comment and
then again as plain text, so the time doubled with each one.
---
 src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..83a13e7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -128,7 +128,10 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     recursive::<_, _, _, _, Error<S>>(|comment| {
         choice((
             comment,
-            none_of('*').ignored(),
+            // `/*` always opens a nested comment: if it is also tried as plain
+            // text, each unclosed comment doubles the amount of work
+            none_of("*/").ignored(),
+            just('/').then_ignore(none_of('*').rewind()).ignored(),
             just('*').then_ignore(none_of('/').rewind()).ignored(),
         )).repeated().ignored()
         .delimited_by(begin_comment('*'), just("*/"))
-- 
2.43.0


From 8b02f85859cc5cabfef2d06e7e219848288841a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 02/12] fix: recognise the usize and isize builtin type names

Values annotated `(usize)` and `(isize)` were rejected by the decoders of
exactly these types.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From 772a4ce42e55fbf09e30325bc5475ee2b322122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:25 +0000
Subject: [PATCH 03/12] fix: allow `!` inside of identifiers

It is a valid identifier character, and was only accepted as the first one.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 83a13e7..cafce28 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 7b61b6679e797138b9d96655fa9cb26e8e15eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 04/12] fix: do not take the start of an identifier for a
 keyword

Property names like `nullable` or `true-color` were rejected.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index cafce28..76afff1 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -323,6 +323,8 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // `nullable` is an identifier rather than a keyword with a suffix
+    .then_ignore(id_char().not().rewind().ignored().or(end()))
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From 22aec68e87d33eeae1fd550f80f6f0a0b7306943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:52 +0000
Subject: [PATCH 05/12] fix: require at least one digit in the exponent of a
 number

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 76afff1..ba83e35 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -342,7 +342,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From 2b83a95e8f8cf2c361ca89e3bff975d919c900ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 06/12] fix: accept raw strings as node and type names

---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index ba83e35..382f80b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -298,8 +298,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // a raw string starts like an identifier
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From 3b62c145db64324c190fc5c01325dd5cb58a693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 07/12] fix: report the expected kind of a number correctly

Integer and float decoders said that a string was expected.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From e2cf0276564ede09fbe981dc9e6dd36aec1e50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 08/12] fix: decode optional, boxed, shared and spanned
 `Value`s

The wrappers bypassed `decode` of the inner type, so any of them around
`Value` panicked on the first decoded value.
---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From a7dec901435ba9c8d5c999b483ffb7e4831b5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 09/12] fix: report a comment that is cut right after `/*` as
 unclosed

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 382f80b..7e67109 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -138,7 +138,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From e9c2d35e7332d911feda748838665cc7cf9a5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 10/12] fix: report an unclosed raw string in a name or
 argument as such

It was tried as an identifier, with unrelated errors as the result.
---
 src/grammar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7e67109..2a103f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -267,9 +267,13 @@ fn bare_ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         sign.chain(id_sans_dig().chain(id_char().repeated())),
         sign.repeated().exactly(1),
-        id_sans_sign_dig().chain(id_char().repeated())
+        // the start of a raw string isn't an identifier, so that an unclosed
+        // one is reported as such
+        just('r').then(just('#').repeated()).then(just('"')).not().rewind()
+            .map_err(|e: Error<S>| e.with_expected_kind("letter"))
+            .ignore_then(id_sans_sign_dig().chain(id_char().repeated())),
     ))
-    .map(|v| v.into_iter().collect()).try_map(|s: String, span| {
+    .map(|v: Vec<char>| v.into_iter().collect()).try_map(|s: String, span| {
         match &s[..] {
             "true" => Err(Error::Unexpected {
                 label: Some("keyword"),
-- 
2.43.0


From d280ece4869777df2a48c95fde405b47b6b76430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:44 +0000
Subject: [PATCH 11/12] fix: derive Decode for new types around non-optional
 nodes

The documented `Wrapper(Inner)` did not compile: the generated code always
assumed `Wrapper(Option<Inner>)`.
---
 derive/src/node.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..760ca1c 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote! {
+            ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+        }
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -165,16 +183,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From 7a8197509e08903ff13f9983d6f1a5e7857de3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 12/12] fix: derive Decode where every field is optional and
 one is a list of children

The generated DecodePartial tried to push into an `Option<Vec<_>>`, so such
types did not compile.
---
 derive/src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 760ca1c..8879bb8 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -15,7 +15,12 @@ pub(crate) struct Common<'a> {
 fn child_can_partial(child: &Child) -> bool {
     use ChildMode::*;
 
-    child.option || matches!(child.mode, Bool | Flatten)
+    match child.mode {
+        Bool | Flatten => true,
+        // can hold any collection, so there is nothing to insert into
+        Multi => false,
+        Normal => child.option,
+    }
 }
 
 pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
-- 
2.43.0

