From 75b05b31bb1b5c9e2a3bd3526de82a42817fac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 1/5] fix: hydrated global styles keep their unscoped style
 text

StyleManager::load_style_data rendered every record with its id as the scoping class, so a
GlobalStyle restored from server data reported a class-scoped text (`.stylist-global-x { .. }`)
instead of the unscoped one get_or_register_style produces.
---
 packages/stylist/src/manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..39bbd21 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,8 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                // Non-global styles have ids prefixed in classes.
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From dd0db7258264f3a2120d07422a1835a99a0a4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 2/5] fix: macro output does not shadow names used in
 interpolated expressions

---
 packages/stylist-macros/src/output/sheet.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 76f32a7..1eb93e0 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -15,11 +15,7 @@ impl Reify for OutputSheet {
 
         ctx.uses_static(); // Sheet::from
         let quoted_sheet = quote! {
-            {
-                use ::std::convert::{From, Into};
-                use ::stylist::ast::Sheet;
-                Sheet::from(#contents)
-            }
+            <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
         };
 
         if ctx.is_static() {
-- 
2.43.0


From 755af2d3dd139c8a8673c80763e6558180a9335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 3/5] fix: literal macros accept a plain $ or { in text

---
 packages/stylist-macros/src/literal/fstring.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..edd66d2 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
 use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -99,7 +99,11 @@ impl Parser {
 
         let result = context(
             "Literal",
-            map(is_not("${"), |m: &str| Fragment::Literal(m.to_string())),
+            map(
+                // A '$' that does not start an interpolation is plain text.
+                alt((is_not("$"), terminated(tag("$"), not(tag("{"))))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         )(i);
 
         #[cfg(test)]
-- 
2.43.0


From 23109d36db9f7cc800b3c9f8bd094df0ca7a024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 4/5] fix: accept whitespace-only bodies of nested at-rules and
 keyframes

The body of an at-rule inside a block, of a keyframe and of @keyframes was
not trimmed, so a body of nothing but whitespace or comments was refused.
Empty keyframes are rendered with such a body, so that Style::new panicked
on its own output in debug builds.
---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..3a36141 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -355,7 +355,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -437,7 +437,7 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes))),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From 20afb5a80c3c0bd2e23eadb12e505a58b266fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 5/5] fix: expansions of the macros call Clone and From by
 their full paths

A trait of the caller with a blanket method named clone or from was
captured by the method calls in the expansion.
---
 packages/stylist-macros/src/css.rs                   | 4 +++-
 packages/stylist-macros/src/output/sheet.rs          | 2 +-
 packages/stylist-macros/src/styled_component_impl.rs | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-macros/src/css.rs b/packages/stylist-macros/src/css.rs
index b0541f1..322531a 100644
--- a/packages/stylist-macros/src/css.rs
+++ b/packages/stylist-macros/src/css.rs
@@ -4,5 +4,7 @@ use quote::quote;
 pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     let sheet_tokens = crate::sheet::macro_fn(input);
 
-    quote! { ::stylist::StyleSource::from(#sheet_tokens) }
+    quote! {
+        <::stylist::StyleSource as ::std::convert::From<::stylist::ast::Sheet>>::from(#sheet_tokens)
+    }
 }
diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 1eb93e0..ace44f2 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -26,7 +26,7 @@ impl Reify for OutputSheet {
                     || #quoted_sheet
                 );
 
-                SHEET_REF.clone()
+                <::stylist::ast::Sheet as ::std::clone::Clone>::clone(&SHEET_REF)
             } }
         } else {
             quoted_sheet
diff --git a/packages/stylist-macros/src/styled_component_impl.rs b/packages/stylist-macros/src/styled_component_impl.rs
index 06e8bc8..8ffb9cd 100644
--- a/packages/stylist-macros/src/styled_component_impl.rs
+++ b/packages/stylist-macros/src/styled_component_impl.rs
@@ -50,7 +50,7 @@ pub fn styled_component_impl_impl(item: HookLike) -> syn::Result<TokenStream> {
             ($( $args:tt )*) => {
                 ::stylist::css!($($args)*).with_manager({
                     #[allow(clippy::redundant_clone)]
-                    #mgr_ident.clone()
+                    ::std::clone::Clone::clone(&#mgr_ident)
                 })
             }
         }
-- 
2.43.0

