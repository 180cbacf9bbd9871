From 515d9bcccecb88602a279cb37ad624b451f82697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:29 +0000
Subject: [PATCH 01/31] fix: give every XML name a valid Rust identifier

---
 xsd-internal/src/utils.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..74b4a0d 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,12 +2,36 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
-        _ => format_ident!("{}", name),
+        // keywords that cannot be used as raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        _ => {
+            let mut ident: String = name
+                .chars()
+                .map(|c| if is_ident_char(c) { c } else { '_' })
+                .collect();
+            // an identifier can neither start with e.g. a digit nor be empty or just `_`
+            if syn::parse_str::<syn::Ident>(&ident).is_err() {
+                ident.insert(0, '_');
+                if ident == "_" {
+                    ident.push('_');
+                }
+            }
+            format_ident!("{}", ident)
+        }
     }
 }
+
+/// Whether the character can be part of a Rust identifier.
+pub fn is_ident_char(c: char) -> bool {
+    c.is_ascii_alphanumeric()
+        || c == '_'
+        || (!c.is_ascii() && syn::parse_str::<syn::Ident>(&format!("_{}", c)).is_ok())
+}
-- 
2.43.0


From a88de8781f99aa62f7583cd90a8394aee9d93a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:41 +0000
Subject: [PATCH 02/31] fix: choice and enumeration variants whose name is not
 an identifier

---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 23 ++++++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..c388ad3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -4,7 +4,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -155,7 +155,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -185,7 +185,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..4ffd12e 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,11 +1,12 @@
 use std::collections::HashMap;
 
+use crate::utils::{escape_ident, is_ident_char};
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 use syn::Ident;
 
 #[derive(Debug, Clone)]
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -206,7 +207,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
                     let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
@@ -282,13 +283,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -365,7 +366,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -397,7 +398,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
@@ -429,7 +430,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             .filter_map(|c| match c {
                 '_' | '-' => Some('_'),
                 c => {
-                    if c.is_alphanumeric() {
+                    if c.is_alphanumeric() && is_ident_char(c) {
                         Some(c)
                     } else {
                         None
-- 
2.43.0


From 4c2e704bbc36f6f2d5e5af233e7897e6841e7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:46 +0000
Subject: [PATCH 03/31] fix: panic on names that start with a multi-byte
 character

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From bf5f6c7c6ad17f8a4f80dc4af0366974945e2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:12 +0000
Subject: [PATCH 04/31] fix: write the element around simple content behind
 aliases, references and fixed values

---
 xsd-internal/src/ast/element_definition.rs | 11 ++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       |  9 +++++++++
 xsd-internal/src/ast/root.rs               | 12 ++----------
 4 files changed, 14 insertions(+), 36 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..1a760bb 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,3 @@
-use crate::ast::{LeafContent, LeafDefinition};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +41,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, definition)) if !definition.content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c388ad3..e990d01 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && self.definition.content.is_text(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..e113053 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -12,6 +12,15 @@ pub enum LeafContent {
 }
 
 impl LeafContent {
+    /// Whether the content is plain text, i.e. whether whoever contains it has to write the XML
+    /// element around it. Aliases are followed.
+    pub fn is_text(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(ctx.resolve(name), Some(Root::Leaf(_))),
+        }
+    }
+
     pub fn to_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.to_impl(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 4ffd12e..f5b1dc8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -172,14 +172,7 @@ impl Root {
                     let val = &self.0;
                     #inner
                 };
-                // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if def.content.is_text(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -210,8 +203,7 @@ impl Root {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From fb9499a7c9e430ca783328897c51c40ad4436fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:16 +0000
Subject: [PATCH 05/31] fix: write the namespace prefix of choice alternatives

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index f5b1dc8..4d80b17 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -201,7 +201,7 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
-- 
2.43.0


From fcde8ed06981e435dc56c2ddeb624f6be9787101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:19 +0000
Subject: [PATCH 06/31] fix: accept optional members of xs:all at any position

---
 xsd-internal/src/ast/leaf.rs | 10 ++++++++--
 xsd-internal/src/ast/root.rs |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index e990d01..0eb4bb2 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -128,6 +128,12 @@ impl Leaf {
         let name_xml = &self.name.name;
         let namespace_xml = ctx.quote_xml_namespace(&self.name);
         let mut value = self.definition.from_xml_impl(ctx);
+        // members of an xs:all are not necessarily the next child
+        let next_child = if self.is_unordered {
+            quote!(child)
+        } else {
+            quote!(next_child)
+        };
 
         if self.is_virtual {
             if self.is_vec() {
@@ -183,7 +189,7 @@ impl Leaf {
                 let mut from_vec = quote! {
                     {
                         let mut vec = Vec::new();
-                        while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        while let Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -204,7 +210,7 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                         Some(#value)
                     } else {
                         None
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 4d80b17..de4d171 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -348,7 +348,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        // any member of an xs:all can be the first one
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From f88c0ae9ab863f1e347842b45f408bb542e387b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 07/31] fix: look past required groups that can be empty

---
 xsd-internal/src/ast/leaf.rs | 19 ++++++++++++++++++-
 xsd-internal/src/ast/root.rs |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 0eb4bb2..73e7d0a 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,4 +1,4 @@
-use super::{LeafContent, LeafDefinition, Name};
+use super::{ElementContent, ElementDefinition, LeafContent, LeafDefinition, Name, Root};
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -38,6 +38,23 @@ impl Leaf {
         self.min_occurs == MinOccurs(0)
     }
 
+    /// Whether the leaf can be satisfied without any XML element.
+    pub fn is_nullable(&self, ctx: &SchemaContext) -> bool {
+        if self.is_optional() {
+            return true;
+        }
+        match &self.definition.content {
+            LeafContent::Named(name) if self.is_virtual => match ctx.elements.get(name) {
+                Some(Root::Element(ElementDefinition {
+                    content: Some(ElementContent::Leaves(leaves)),
+                    ..
+                })) => leaves.iter().all(|leaf| leaf.is_nullable(ctx)),
+                _ => false,
+            },
+            _ => false,
+        }
+    }
+
     pub fn is_vec(&self) -> bool {
         match self.max_occurs {
             MaxOccurs::Unbounded => true,
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index de4d171..b3597e7 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -349,7 +349,7 @@ impl Root {
                             return None;
                         }
                         // any member of an xs:all can be the first one
-                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
+                        *prev_required = !leaf.is_nullable(ctx) && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 7adaae9896922c7a4dc5a5fbe19878ecfd08d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 08/31] fix: attributes of named simple types and with fixed
 values

---
 xsd-internal/src/ast/attribute.rs          |  4 ++--
 xsd-internal/src/ast/element_definition.rs |  2 +-
 xsd-internal/src/ast/leaf_content.rs       | 26 +++++++++++++---------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..eb1b58a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 1a760bb..75f708b 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -63,7 +63,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index e113053..569d9f5 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -68,27 +68,33 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.from_xml_impl(ctx),
                 _ => name.from_xml_impl(),
             },
-            LeafContent::Fixed(fixed) => {
+            LeafContent::Fixed(_) => {
+                let inner = self.from_str_impl(ctx);
                 quote! {
                     {
                         let val = node.text()?;
-                        if val != #fixed {
-                            return Err(::xsd::decode::FromXmlError::FixedMismatch {
-                                expected: #fixed,
-                                received: val.to_string(),
-                            }.into());
-                        }
+                        #inner
                     }
                 }
             }
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From dd6da3b99c86e6811af77427149479e4f1bc9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:59 +0000
Subject: [PATCH 09/31] fix: resolve unprefixed references in the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..756d0e3 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -139,7 +139,11 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            let namespace = self
+                .default_namespace
+                .map(|ns| self.shared.namespaces.get_or_insert(ns))
+                .unwrap_or_default();
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From 745caee674a575fa4b1ec729aa9109df6885dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 10/31] fix: read text that is interrupted by comments or
 processing instructions

---
 xsd/src/decode.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..6148c50 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::VecDeque;
 use std::ops::Range;
 
@@ -40,6 +40,7 @@ pub struct Document<'a>(roxmltree::Document<'a>);
 pub struct Node<'a> {
     node: roxmltree::Node<'a, 'a>,
     children: RefCell<Children<'a>>,
+    text: OnceCell<String>,
 }
 
 struct Children<'a> {
@@ -81,6 +82,7 @@ impl<'a> Node<'a> {
                 peeked: VecDeque::new(),
                 next: None,
             }),
+            text: OnceCell::new(),
             node,
         }
     }
@@ -178,12 +180,23 @@ impl<'a> Node<'a> {
     }
 
     pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+        // comments and processing instructions split the text into several nodes
+        let mut texts = self
+            .node
+            .children()
+            .take_while(|c| !c.is_element())
+            .filter_map(|c| if c.is_text() { c.text() } else { None });
+        match (texts.next(), texts.next()) {
+            (Some(text), None) => Ok(text),
+            (Some(first), Some(second)) => Ok(self
+                .text
+                .get_or_init(|| [first, second].into_iter().chain(texts).collect())),
+            (None, _) if self.node.children().any(|c| c.is_element()) => {
+                Err(FromXmlError::TextExpected {
+                    name: self.node.tag_name().name().to_string(),
+                })
+            }
+            (None, _) => Ok(""),
         }
     }
 
-- 
2.43.0


From 464657b15176c6b846b09a3b53c55074166620c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 11/31] fix: white space and alternative spellings of booleans
 and numbers

---
 xsd-internal/src/ast/literal_type.rs | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..c6716ea 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,13 +65,38 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            LiteralType::Float32 => quote! {
+                if val.is_infinite() {
+                    if *val > 0.0 { "INF" } else { "-INF" }.to_string()
+                } else {
+                    val.to_string()
+                }
+            },
+            _ => quote!(val.to_string()),
+        }
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
         let type_ = self.xsd_name();
+        // surrounding white space is only part of the value for strings
+        let input = match self {
+            LiteralType::Boolean => quote! {
+                match val.trim_matches([' ', '\t', '\r', '\n']) {
+                    "1" => "true",
+                    "0" => "false",
+                    val => val,
+                }
+            },
+            LiteralType::Int64
+            | LiteralType::Uint64
+            | LiteralType::Int32
+            | LiteralType::Decimal
+            | LiteralType::Float32 => quote!(val.trim_matches([' ', '\t', '\r', '\n'])),
+            _ => quote!(val),
+        };
         quote! {
-            std::str::FromStr::from_str(val).map_err(|err| {
+            std::str::FromStr::from_str(#input).map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
-- 
2.43.0


From 2fc889056149a927f9a834275079337193ccff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 12/31] fix: write the attributes of the base type of an
 extension

---
 xsd-internal/src/ast/element_definition.rs | 41 +++++++++++++++++++++-
 xsd-internal/src/xsd/schema.rs             | 12 +++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 75f708b..4556842 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,9 +1,12 @@
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
-use super::{Attribute, ElementContent};
+use super::{Attribute, ElementContent, LeafContent, Root};
+use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::TokenStreamExt;
+use syn::Ident;
 
 #[derive(Debug, Clone)]
 pub struct ElementDefinition {
@@ -32,6 +35,38 @@ impl ElementDefinition {
         ts
     }
 
+    /// The field that holds the extended base type (`<xs:extension base="" />`).
+    fn base_field(&self, ctx: &SchemaContext) -> Option<Ident> {
+        let (name, definition) = match self.content.as_ref()? {
+            ElementContent::Leaf(name, definition) => (name, definition),
+            ElementContent::Leaves(leaves) => leaves
+                .first()
+                .filter(|leaf| leaf.is_virtual)
+                .map(|leaf| (&leaf.name, &leaf.definition))?,
+        };
+        match &definition.content {
+            LeafContent::Named(base) => match ctx.resolve(base) {
+                Some(Root::Element(base)) if !base.is_virtual => {
+                    Some(escape_ident(&name.name.to_snake_case()))
+                }
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    /// Sets all attributes, including the ones of the base type.
+    pub fn to_xml_attributes_impl(&self, ctx: &SchemaContext) -> TokenStream {
+        let mut ts = TokenStream::new();
+        for attr in &self.attributes {
+            ts.append_all(attr.to_xml_impl(ctx));
+        }
+        if let Some(base) = self.base_field(ctx) {
+            ts.append_all(quote! { self.#base.set_xml_attributes(ctx); });
+        }
+        ts
+    }
+
     pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         for attr in &self.attributes {
@@ -46,6 +81,10 @@ impl ElementDefinition {
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
+            // the attributes of the base type have to be set before the element is started
+            if let Some(base) = self.base_field(ctx) {
+                ts.append_all(quote! { self.#base.set_xml_attributes(&mut ctx); });
+            }
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..ba61a28 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -307,6 +307,18 @@ impl Schema {
             }
         });
 
+        if let Root::Element(def) = el {
+            let attributes = def.to_xml_attributes_impl(&self.context);
+            result.append_all(quote! {
+                impl #name_ident {
+                    #[allow(dead_code, unused_variables)]
+                    fn set_xml_attributes<'a>(&'a self, ctx: &mut ::xsd::Context<'a, '_>) {
+                        #attributes
+                    }
+                }
+            });
+        }
+
         let lookahead = el.lookahead_impl(&self.context);
 
         result.append_all(quote! {
-- 
2.43.0


From 6c4e97942fed26594e1d7067a69db39ba7fc4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 13/31] fix: honour the form of local elements

---
 xsd-internal/src/xsd/parse/element.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..5ebfe05 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -99,14 +99,26 @@ where
         }
     }
 
-    let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    let name = node.try_attribute("name")?.value();
+    let name = match node.attribute("form") {
+        None => ctx.get_node_name(&name, false),
+        Some(attr) => match attr.value().as_ref() {
+            "qualified" => ctx.get_node_name(&name, true),
+            "unqualified" => Name::new(name, Namespace::None),
+            value => {
+                return Err(XsdError::UnsupportedAttributeValue {
+                    name: "form".to_string(),
+                    value: value.to_string(),
+                    element: "element".to_string(),
+                    range: attr.range(),
+                })
+            }
+        },
+    };
 
     // mark `default` attribute as visited
     node.attribute("default");
 
-    // TODO: implement attribute?
-    node.attribute("form");
-
     let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
-- 
2.43.0


From dd0965d28e06464ec4a970c846c397ada821fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:54 +0000
Subject: [PATCH 14/31] fix: do not write a default namespace around elements
 without namespace

---
 xsd-internal/src/xsd/context.rs | 27 +++++++++++++++++++++++++--
 xsd-internal/src/xsd/schema.rs  |  5 +++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 756d0e3..8337d10 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -3,7 +3,10 @@ use std::collections::{HashMap, HashSet};
 use super::error::XsdError;
 use super::node::Attribute;
 use super::schema::Schema;
-use crate::ast::{LeafContent, LeafDefinition, LiteralType, Name, Namespace, Namespaces, Root};
+use crate::ast::{
+    ElementContent, ElementDefinition, LeafContent, LeafDefinition, LiteralType, Name, Namespace,
+    Namespaces, Root,
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -153,11 +156,31 @@ impl<'input> Context<'input> {
 }
 
 impl SchemaContext {
+    /// Whether the target namespace is written as the default namespace, which is not possible if
+    /// there are also elements without any namespace.
+    pub fn is_default_namespace(&self) -> bool {
+        self.is_qualified
+            && self.elements.iter().all(|(name, root)| {
+                let leaves = match root {
+                    Root::Element(ElementDefinition {
+                        content: Some(ElementContent::Leaves(leaves)),
+                        ..
+                    }) => leaves.as_slice(),
+                    Root::Choice(def) => def.variants.as_slice(),
+                    _ => &[],
+                };
+                name.namespace != Namespace::None
+                    && leaves
+                        .iter()
+                        .all(|leaf| leaf.is_virtual || leaf.name.namespace != Namespace::None)
+            })
+    }
+
     pub fn get_xml_element_name(&self, name: &Name) -> String {
         match &name.namespace {
             Namespace::None => name.name.clone(),
             Namespace::Id(id) => {
-                if self.is_qualified && name.namespace == self.target_namespace {
+                if name.namespace == self.target_namespace && self.is_default_namespace() {
                     name.name.clone()
                 } else {
                     let ns = self.namespaces.get_by_id(*id);
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index ba61a28..687e2e8 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -237,7 +237,8 @@ impl Schema {
 
         let name_xml = self.context.get_xml_element_name(name);
         let mut element_ns = Vec::new();
-        if self.context.is_qualified {
+        let is_default_namespace = self.context.is_default_namespace();
+        if is_default_namespace {
             if let Namespace::Id(id) = self.context.target_namespace {
                 let ns = self.context.namespaces.get_by_id(id);
                 let namespace = &ns.namespace;
@@ -245,7 +246,7 @@ impl Schema {
             }
         }
         for (id, ns) in self.context.namespaces.iter() {
-            if self.context.is_qualified && Namespace::Id(id) == self.context.target_namespace {
+            if is_default_namespace && Namespace::Id(id) == self.context.target_namespace {
                 continue;
             }
             let prefix = &ns.prefix;
-- 
2.43.0


From e10282c92601e49e8c21e20082fb3c847a1ce0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 15/31] fix: repeated sequences as alternatives of a choice

---
 xsd-internal/src/ast/root.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index b3597e7..79c5479 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -282,9 +282,21 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
-                            quote! {
-                                if #first_name::lookahead(node) {
-                                    Self::#variant_name(#inner)
+                            if variant.is_vec() {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        let mut vec = Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        Self::#variant_name(vec)
+                                    }
+                                }
+                            } else {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        Self::#variant_name(#inner)
+                                    }
                                 }
                             }
                         } else {
-- 
2.43.0


From d8e724009096425eb55466868a51f8e03a386d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:47 +0000
Subject: [PATCH 16/31] fix: endless recursion on circular includes

---
 xsd-internal/src/xsd/context.rs |  4 ++++
 xsd-internal/src/xsd/schema.rs  | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 8337d10..1acd3fc 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -27,6 +28,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// Files that were already loaded, or are being loaded.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -84,6 +87,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 687e2e8..dd00f02 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,7 +2,10 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::{
+    collections::HashMap,
+    path::{Path, PathBuf},
+};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -17,6 +20,7 @@ use roxmltree::{Document, TextPos};
 #[derive(Debug)]
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
+    pub(crate) files: HashSet<PathBuf>,
     pub(crate) context: SchemaContext,
 }
 
@@ -69,7 +73,9 @@ impl Schema {
 
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
+        let mut shared = shared.unwrap_or_default();
+        shared.files.insert(file_id(&path));
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| match err {
             ParseError::Schema(err) => err,
             ParseError::Xsd(err) => {
                 let pos = err
@@ -112,15 +118,21 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                let shared = ctx.take_shared();
+                // already loaded by another (possibly circular) include
+                if shared.files.contains(&file_id(&path)) {
+                    ctx.set_shared(shared);
+                    continue;
+                }
+
                 // merge imports
-                let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
+                let mut schema = Schema::parse_file_with_context(path, Some(shared))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
@@ -142,6 +154,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
@@ -339,6 +352,11 @@ impl Schema {
     }
 }
 
+/// Identifies a file independent of how its path is written.
+fn file_id(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From 0b986b61d5b0f1330918a223ac545b7aeec4840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:51 +0000
Subject: [PATCH 17/31] fix: refuse mixed content however it is spelled

---
 xsd-internal/src/xsd/parse/complex_type.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..8f0d26b 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,13 +16,15 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if node.attribute("mixed").map(|a| a.value()).as_deref() == Some("true") {
-        return Err(XsdError::UnsupportedAttributeValue {
-            name: "mixed".to_string(),
-            value: "true".to_string(),
-            element: node.name().to_string(),
-            range: node.range(),
-        });
+    if let Some(mixed) = node.attribute("mixed").map(|a| a.value()) {
+        if !matches!(mixed.as_ref(), "false" | "0") {
+            return Err(XsdError::UnsupportedAttributeValue {
+                name: "mixed".to_string(),
+                value: mixed.to_string(),
+                element: node.name().to_string(),
+                range: node.range(),
+            });
+        }
     }
     node.prevent_unvisited_attributes()?;
 
-- 
2.43.0


From 6eaafe91edc74c126e35bbcb6ba2acd56b95243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:51 +0000
Subject: [PATCH 18/31] fix: do not merge anonymous types whose derived names
 collide

---
 xsd-internal/src/xsd/context.rs               | 20 +++++++++++++++++++
 xsd-internal/src/xsd/parse/attribute.rs       |  1 +
 xsd-internal/src/xsd/parse/choice.rs          |  1 +
 xsd-internal/src/xsd/parse/complex_content.rs |  1 +
 xsd-internal/src/xsd/parse/complex_type.rs    |  2 ++
 xsd-internal/src/xsd/parse/element.rs         |  1 +
 xsd-internal/src/xsd/parse/sequence.rs        |  2 ++
 xsd-internal/src/xsd/schema.rs                |  8 ++++++++
 8 files changed, 36 insertions(+)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 1acd3fc..9ed6a5d 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -8,6 +8,7 @@ use crate::ast::{
     ElementContent, ElementDefinition, LeafContent, LeafDefinition, LiteralType, Name, Namespace,
     Namespaces, Root,
 };
+use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -28,6 +29,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// Names of generated types that are already taken.
+    pub type_names: HashSet<String>,
     /// Files that were already loaded, or are being loaded.
     pub files: HashSet<PathBuf>,
 }
@@ -88,9 +91,26 @@ impl<'input> Context<'input> {
             },
             dependencies: self.shared.dependencies,
             files: self.shared.files,
+            type_names: self.shared.type_names,
         }
     }
 
+    /// Reserves the name of the type that is generated for a top-level definition.
+    pub fn reserve_type_name(&mut self, name: &str) {
+        self.shared.type_names.insert(name.to_pascal_case());
+    }
+
+    /// Makes sure that the name of a type without a name of its own is not used by another type.
+    pub fn unique_type_name(&mut self, name: Name) -> Name {
+        let mut unique = name.clone();
+        let mut count = 1;
+        while !self.shared.type_names.insert(unique.name.to_pascal_case()) {
+            count += 1;
+            unique.name = format!("{}{}", name.name, count);
+        }
+        unique
+    }
+
     pub fn discover_type(&mut self, name: &Name, parent: Option<&Name>) {
         if let Some(parent) = parent {
             let dependends = self.shared.dependencies.entry(parent.clone()).or_default();
diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 854ca80..51965bc 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -32,6 +32,7 @@ where
                 ctx,
                 false,
             );
+            let virtual_name = ctx.unique_type_name(virtual_name);
             ctx.add_root(virtual_name.clone(), root);
             ctx.discover_type(&virtual_name, Some(parent));
 
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..600ad6f 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -34,6 +34,7 @@ where
                     ctx,
                     false,
                 );
+                let root_name = ctx.unique_type_name(root_name);
 
                 ctx.add_root(
                     root_name.clone(),
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index 79640e2..e1deced 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -48,6 +48,7 @@ where
         let leaves = super::sequence::parse(child, parent, ctx)?;
         let leaf_name = ctx.get_node_name(&base_name.name, false);
         let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+        let root_name = ctx.unique_type_name(root_name);
 
         ctx.add_root(
             root_name.clone(),
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 8f0d26b..24dca20 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -63,6 +63,7 @@ where
         if max_occurs.is_vec() || min_occurs != Default::default() {
             let leaf_name = super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
             let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+            let root_name = ctx.unique_type_name(root_name);
 
             ctx.add_root(
                 root_name.clone(),
@@ -94,6 +95,7 @@ where
         let variants = super::choice::parse(child, parent, ctx)?;
         let root_name =
             super::derive_virtual_name(vec![parent, &ctx.get_node_name("Data", false)], ctx, false);
+        let root_name = ctx.unique_type_name(root_name);
 
         ctx.add_root(
             root_name.clone(),
diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 5ebfe05..d47d273 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -175,6 +175,7 @@ where
             ctx,
             false,
         );
+        let virtual_name = ctx.unique_type_name(virtual_name);
 
         let root = super::root::parse(node, &virtual_name, ctx)?;
         ctx.add_root(virtual_name.clone(), root);
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..a3cd892 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -31,6 +31,7 @@ where
                 let leaf_name =
                     super::derive_virtual_name(variants.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+                let root_name = ctx.unique_type_name(root_name);
 
                 ctx.add_root(
                     root_name.clone(),
@@ -64,6 +65,7 @@ where
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+                let root_name = ctx.unique_type_name(root_name);
 
                 ctx.add_root(
                     root_name.clone(),
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index dd00f02..a2d2a34 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -21,6 +21,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) files: HashSet<PathBuf>,
+    pub(crate) type_names: HashSet<String>,
     pub(crate) context: SchemaContext,
 }
 
@@ -117,6 +118,12 @@ impl Schema {
             shared.unwrap_or_default(),
         );
 
+        for child in root.children().namespace(NS_XSD).iter() {
+            if let Some(name) = child.attribute("name") {
+                ctx.reserve_type_name(&name.value());
+            }
+        }
+
         for child in root.children().namespace(NS_XSD).iter() {
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
@@ -155,6 +162,7 @@ impl Schema {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
             files: self.files,
+            type_names: self.type_names,
         }
     }
 
-- 
2.43.0


From 57ba8f65ceead9578d83577de5097f3ab2b790c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:23 +0000
Subject: [PATCH 19/31] fix: derived field and variant names that collide with
 another one

---
 xsd-internal/src/xsd/parse/choice.rs          |  2 +
 xsd-internal/src/xsd/parse/complex_content.rs |  9 +++-
 xsd-internal/src/xsd/parse/complex_type.rs    |  6 ++-
 xsd-internal/src/xsd/parse/mod.rs             | 42 ++++++++++++++++++-
 xsd-internal/src/xsd/parse/sequence.rs        |  2 +
 xsd-internal/src/xsd/parse/simple_content.rs  | 19 +++++----
 6 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 600ad6f..7b514fa 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -6,6 +6,7 @@ use crate::xsd::error::XsdError;
 use crate::xsd::node::Node;
 
 use super::element::{parse_max_occurs, parse_min_occurs};
+use inflector::Inflector;
 
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
@@ -70,6 +71,7 @@ where
         };
         variants.push(variant);
     }
+    super::rename_colliding_leaves(&mut variants, Default::default(), |n| n.to_pascal_case());
 
     Ok(variants)
 }
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index e1deced..34cc617 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -86,7 +86,7 @@ where
     children.prevent_unvisited_children()?;
 
     // TODO: merge with extension instead of having it as `value` property?
-    Ok(ElementDefinition {
+    let mut definition = ElementDefinition {
         attributes,
         content: Some(if virtual_leaves.is_empty() {
             ElementContent::Leaf(
@@ -115,5 +115,10 @@ where
         }),
         is_virtual: false,
         docs: None,
-    })
+    };
+    if let Some(content) = &mut definition.content {
+        super::rename_colliding_fields(content, &definition.attributes);
+    }
+
+    Ok(definition)
 }
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 24dca20..01cfb03 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -46,7 +46,7 @@ where
         ));
     }
 
-    let content = if let Some(child) = children
+    let mut content = if let Some(child) = children
         .remove("sequence", Some(NS_XSD))
         .or_else(|| children.remove("all", Some(NS_XSD)))
     {
@@ -129,6 +129,10 @@ where
 
     children.prevent_unvisited_children()?;
 
+    if let Some(content) = &mut content {
+        super::rename_colliding_fields(content, &attributes);
+    }
+
     Ok(Root::Element(ElementDefinition {
         attributes,
         content,
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index eecb47b..9983d29 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -9,12 +9,14 @@ mod sequence;
 mod simple_content;
 pub mod simple_type;
 
+use std::collections::HashSet;
+
 use inflector::Inflector;
 
 use super::context::Context;
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::Name;
+use crate::ast::{Attribute, ElementContent, Leaf, Name};
 
 fn derive_virtual_name<'a, 'input, 'b>(
     names: impl IntoIterator<Item = &'b Name> + Clone,
@@ -57,6 +59,44 @@ where
     ctx.get_node_name(&virtual_name, false)
 }
 
+/// Renames fields whose name is derived (and not given by the schema) if they collide with another
+/// field of the same type.
+fn rename_colliding_fields(content: &mut ElementContent, attributes: &[Attribute]) {
+    let mut taken: HashSet<String> = attributes
+        .iter()
+        .map(|attr| attr.name.name.to_snake_case())
+        .collect();
+    match content {
+        ElementContent::Leaf(name, _) => make_unique(name, &mut taken, |n| n.to_snake_case()),
+        ElementContent::Leaves(leaves) => {
+            rename_colliding_leaves(leaves, taken, |n| n.to_snake_case())
+        }
+    }
+}
+
+fn rename_colliding_leaves(
+    leaves: &mut [Leaf],
+    mut taken: HashSet<String>,
+    to_ident: impl Fn(&str) -> String,
+) {
+    for leaf in leaves.iter().filter(|leaf| !leaf.is_virtual) {
+        taken.insert(to_ident(&leaf.name.name));
+    }
+    for leaf in leaves.iter_mut().filter(|leaf| leaf.is_virtual) {
+        make_unique(&mut leaf.name, &mut taken, &to_ident);
+    }
+}
+
+fn make_unique(name: &mut Name, taken: &mut HashSet<String>, to_ident: impl Fn(&str) -> String) {
+    let mut unique = name.name.clone();
+    let mut count = 1;
+    while !taken.insert(to_ident(&unique)) {
+        count += 1;
+        unique = format!("{}{}", name.name, count);
+    }
+    name.name = unique;
+}
+
 fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<String> {
     let mut names = names.into_iter();
     if let Some(first) = names.next() {
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index a3cd892..221dd92 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -8,6 +8,7 @@ use crate::xsd::node::Node;
 use crate::xsd::parse::element::parse_max_occurs;
 
 use super::element::parse_min_occurs;
+use inflector::Inflector;
 
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
@@ -101,6 +102,7 @@ where
         };
         leaves.push(leaf);
     }
+    super::rename_colliding_leaves(&mut leaves, Default::default(), |n| n.to_snake_case());
 
     Ok(leaves)
 }
diff --git a/xsd-internal/src/xsd/parse/simple_content.rs b/xsd-internal/src/xsd/parse/simple_content.rs
index 698799c..0b2a7bf 100644
--- a/xsd-internal/src/xsd/parse/simple_content.rs
+++ b/xsd-internal/src/xsd/parse/simple_content.rs
@@ -38,16 +38,19 @@ where
 
     children.prevent_unvisited_children()?;
 
+    let mut content = ElementContent::Leaf(
+        leaf_name,
+        LeafDefinition {
+            content,
+            restrictions: Vec::new(),
+            docs: None,
+        },
+    );
+    super::rename_colliding_fields(&mut content, &attributes);
+
     Ok(ElementDefinition {
         attributes,
-        content: Some(ElementContent::Leaf(
-            leaf_name,
-            LeafDefinition {
-                content,
-                restrictions: Vec::new(),
-                docs: None,
-            },
-        )),
+        content: Some(content),
         is_virtual: false,
         docs: None,
     })
-- 
2.43.0


From 52639db8757b0f6c86d83bd91d8624c03f21e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 20/31] fix: foreign attributes of a schema must not shadow its
 own

---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..c9512c3 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // ignore custom (aka namespaced) attributes
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From ca00950f0b4d22973aeb62c790bd9b385dea4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:19 +0000
Subject: [PATCH 21/31] fix: infinite floats in attributes of named simple
 types

---
 xsd-internal/src/ast/attribute.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index eb1b58a..ba14f78 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -1,4 +1,4 @@
-use super::{LeafContent, Name};
+use super::{LeafContent, LeafDefinition, Name, Root};
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -38,7 +38,13 @@ impl Attribute {
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
             LeafContent::Literal(literal) => literal.to_xml_impl(),
-            LeafContent::Named(_) => quote! { val.to_string() },
+            LeafContent::Named(name) => match ctx.resolve(name) {
+                Some(Root::Leaf(LeafDefinition {
+                    content: LeafContent::Literal(literal),
+                    ..
+                })) => literal.to_xml_impl(),
+                _ => quote! { val.to_string() },
+            },
             LeafContent::Fixed(fixed) => quote! { #fixed },
         };
         if self.is_optional {
-- 
2.43.0


From 95972bdfa2828283332ef14f62bbd06ace0aefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:31 +0000
Subject: [PATCH 22/31] fix: elements taken out of the default namespace

---
 xsd/src/decode.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 6148c50..de3d79f 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,11 +54,16 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+/// The namespace of a name; `xmlns=""` takes elements out of any namespace.
+fn namespace_of<'a>(name: &roxmltree::ExpandedName<'a, '_>) -> Option<&'a str> {
+    name.namespace().filter(|ns| !ns.is_empty())
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
         let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || tag_name.name() != name || namespace_of(&tag_name) != namespace {
             None
         } else {
             Some(Node::new(root))
@@ -97,7 +102,7 @@ impl<'a> Node<'a> {
         }
         if let Some(next) = &children.next {
             let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return tag_name.name() == name && namespace_of(&tag_name) == namespace;
         }
         false
     }
@@ -111,7 +116,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.children.next())
         {
             let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(&tag_name) == namespace {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -135,7 +140,7 @@ impl<'a> Node<'a> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
             let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(&tag_name) == namespace {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -143,7 +148,7 @@ impl<'a> Node<'a> {
 
         for (ix, child) in children.peeked.iter().enumerate() {
             let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(&tag_name) == namespace {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
@@ -151,7 +156,7 @@ impl<'a> Node<'a> {
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
             let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(&tag_name) == namespace {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From e2111281292c82e87760cc018c9f7e4c9dd2ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:32 +0000
Subject: [PATCH 23/31] fix: types named like what the generated code uses from
 the prelude

---
 xsd-internal/src/ast/leaf.rs   |  6 +++---
 xsd-internal/src/ast/name.rs   |  7 +++----
 xsd-internal/src/ast/root.rs   |  8 ++++----
 xsd-internal/src/utils.rs      | 11 +++++++++++
 xsd-internal/src/xsd/schema.rs |  5 ++---
 5 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 73e7d0a..67858b9 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,5 @@
 use super::{ElementContent, ElementDefinition, LeafContent, LeafDefinition, Name, Root};
-use crate::utils::escape_ident;
+use crate::utils::{escape_ident, type_ident};
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
@@ -162,7 +162,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = escape_ident(&name.name.to_pascal_case());
+                let first_name = type_ident(&name.name);
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -192,7 +192,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = escape_ident(&name.name.to_pascal_case());
+                let first_name = type_ident(&name.name);
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/name.rs b/xsd-internal/src/ast/name.rs
index 4a9ac6a..0d3e973 100644
--- a/xsd-internal/src/ast/name.rs
+++ b/xsd-internal/src/ast/name.rs
@@ -1,6 +1,5 @@
-use crate::utils::escape_ident;
+use crate::utils::type_ident;
 
-use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -26,7 +25,7 @@ impl Name {
     }
 
     pub fn to_impl(&self) -> TokenStream {
-        let name_ident = escape_ident(&self.name.to_pascal_case());
+        let name_ident = type_ident(&self.name);
         quote!(#name_ident)
     }
 
@@ -37,7 +36,7 @@ impl Name {
     }
 
     pub fn from_xml_impl(&self) -> TokenStream {
-        let name_ident = escape_ident(&self.name.to_pascal_case());
+        let name_ident = type_ident(&self.name);
         quote! {
             #name_ident::from_xml_node(&node)?
         }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 79c5479..fa373f8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::utils::{escape_ident, is_ident_char};
+use crate::utils::{escape_ident, is_ident_char, type_ident};
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -281,7 +281,7 @@ impl Root {
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = escape_ident(&name.name.to_pascal_case());
+                            let first_name = type_ident(&name.name);
                             if variant.is_vec() {
                                 quote! {
                                     if #first_name::lookahead(node) {
@@ -371,7 +371,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = escape_ident(&name.name.to_pascal_case());
+                            let name = type_ident(&name.name);
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -403,7 +403,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = escape_ident(&name.name.to_pascal_case());
+                        let name = type_ident(&name.name);
                         quote! {
                             #name::lookahead(node)
                         }
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 74b4a0d..c10efff 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -1,5 +1,16 @@
+use inflector::Inflector;
 use quote::format_ident;
 
+/// The identifier of the type that is generated for a definition of the given name.
+pub fn type_ident(name: &str) -> syn::Ident {
+    match name.to_pascal_case().as_str() {
+        // would shadow what the generated code uses from the prelude
+        name @ ("AsRef" | "Box" | "Err" | "None" | "Ok" | "Option" | "Result" | "Some" | "String"
+        | "Vec") => format_ident!("{}_", name),
+        name => escape_ident(name),
+    }
+}
+
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
         "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index a2d2a34..cd1d40e 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -11,8 +11,7 @@ use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
 use super::node::Node;
 use crate::ast::{Name, Namespace, Root};
-use crate::utils::escape_ident;
-use inflector::Inflector;
+use crate::utils::type_ident;
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 use roxmltree::{Document, TextPos};
@@ -234,7 +233,7 @@ impl Schema {
         let mut result = TokenStream::new();
 
         // TODO: handle duplicates with different prefixes
-        let name_ident = escape_ident(&name.name.to_pascal_case());
+        let name_ident = type_ident(&name.name);
         let kind = if el.is_enum() {
             quote!(enum)
         } else {
-- 
2.43.0


From 353e52d9305b2267a0cc786fc483a6f3475ce356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:58 +0000
Subject: [PATCH 24/31] fix: endless recursion on circular extensions

---
 xsd-internal/src/ast/leaf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 67858b9..00f37c8 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -47,6 +47,7 @@ impl Leaf {
             LeafContent::Named(name) if self.is_virtual => match ctx.elements.get(name) {
                 Some(Root::Element(ElementDefinition {
                     content: Some(ElementContent::Leaves(leaves)),
+                    is_virtual: true,
                     ..
                 })) => leaves.iter().all(|leaf| leaf.is_nullable(ctx)),
                 _ => false,
-- 
2.43.0


From 0e24b5650aba87a335ab23facd73d8a4b7f367b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:12 +0000
Subject: [PATCH 25/31] fix: elements with the same name as their type

---
 xsd-internal/src/xsd/schema.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cd1d40e..9a579cf 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -10,7 +10,7 @@ use std::{
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::{Name, Namespace, Root};
+use crate::ast::{LeafContent, Name, Namespace, Root};
 use crate::utils::type_ident;
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
@@ -150,7 +150,14 @@ impl Schema {
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
-            ctx.add_root(name, root);
+            // an element is already represented by its type if they have the same name
+            let is_own_type = match &root {
+                Root::Leaf(def) => matches!(&def.content, LeafContent::Named(n) if *n == name),
+                _ => false,
+            };
+            if !is_own_type {
+                ctx.add_root(name, root);
+            }
         }
 
         Ok(ctx.into_schema())
-- 
2.43.0


From 70cff4ccbc39f9fa3619d2d592b2d9bcc1d981e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:24 +0000
Subject: [PATCH 26/31] fix: refuse unsupported children of local elements

They were checked for global elements and for local elements of an anonymous
type, but silently ignored in local elements with a type attribute or without
any type.
---
 xsd-internal/src/xsd/parse/element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index d47d273..dc92e66 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -119,7 +119,8 @@ where
     // mark `default` attribute as visited
     node.attribute("default");
 
-    let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
+    let mut children = node.children().namespace(NS_XSD).collect();
+    let docs = super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
@@ -135,6 +136,7 @@ where
         }
 
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         Ok(Leaf {
             name,
@@ -152,6 +154,7 @@ where
         && node.child("complexType", Some(NS_XSD)).is_none()
     {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         // TODO: add test for that case
         Ok(Leaf {
-- 
2.43.0


From 6fbe23736cd1a575b8ec5aa06e2051e52225cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:56 +0000
Subject: [PATCH 27/31] fix: refuse invalid form defaults of a schema

Anything but qualified was silently treated as unqualified.
---
 xsd-internal/src/xsd/schema.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 9a579cf..62442f5 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -111,6 +111,21 @@ impl Schema {
 
         let target_namespace = root.attribute("targetNamespace").map(|a| a.value());
 
+        for name in ["elementFormDefault", "attributeFormDefault"] {
+            if let Some(attr) = root.attribute(name) {
+                let value = attr.value();
+                if !matches!(value.as_ref(), "qualified" | "unqualified") {
+                    return Err(XsdError::UnsupportedAttributeValue {
+                        name: name.to_string(),
+                        value: value.to_string(),
+                        element: "schema".to_string(),
+                        range: attr.range(),
+                    }
+                    .into());
+                }
+            }
+        }
+
         let mut ctx = Context::new(
             root,
             target_namespace.as_deref(),
-- 
2.43.0


From 969fef2194c0fbf155af3d84ecec577bea3a7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 28/31] fix: refuse attributes that belong to the target
 namespace by default

With attributeFormDefault="qualified" they were read and written without
their namespace.
---
 xsd-internal/src/xsd/context.rs         | 8 ++++++++
 xsd-internal/src/xsd/parse/attribute.rs | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 9ed6a5d..df47ac8 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -20,6 +20,7 @@ pub struct Context<'input> {
     target_namespace: Namespace,
     document_namespaces: HashMap<&'input str, &'input str>,
     is_qualified: bool,
+    is_attribute_qualified: bool,
     shared: SharedContext,
 }
 
@@ -66,10 +67,17 @@ impl<'input> Context<'input> {
                 .unwrap_or_default(),
             document_namespaces,
             is_qualified: schema.attribute("elementFormDefault") == Some("qualified"),
+            is_attribute_qualified: target_namespace.is_some()
+                && schema.attribute("attributeFormDefault") == Some("qualified"),
             shared,
         }
     }
 
+    /// Whether attributes belong to the target namespace by default.
+    pub fn is_attribute_qualified(&self) -> bool {
+        self.is_attribute_qualified
+    }
+
     pub fn take_shared(&mut self) -> SharedContext {
         std::mem::take(&mut self.shared)
     }
diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 51965bc..653bceb 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -80,6 +80,15 @@ where
 
     node.prevent_unvisited_attributes()?;
 
+    if ctx.is_attribute_qualified() {
+        return Err(XsdError::UnsupportedAttributeValue {
+            name: "attributeFormDefault".to_string(),
+            value: "qualified".to_string(),
+            element: "schema".to_string(),
+            range: node.range(),
+        });
+    }
+
     Ok(Some(Attribute {
         name,
         content,
-- 
2.43.0


From 8c62776ef879fc1a38ed5c08a357b3f22811d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:53 +0000
Subject: [PATCH 29/31] fix: keep the documentation of the alternatives of a
 choice

---
 xsd-internal/src/ast/root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index fa373f8..cfe33ce 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -150,7 +150,15 @@ impl Root {
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
                     }
+                    let docs = variant
+                        .definition
+                        .docs
+                        .as_ref()
+                        .filter(|docs| !docs.is_empty())
+                        .map(|docs| quote! { #[doc = #docs] })
+                        .unwrap_or_else(TokenStream::new);
                     quote! {
+                        #docs
                         #variant_name(#type_ident)
                     }
                 });
-- 
2.43.0


From 343c416fbbbdce1325981b214ffda962998ee5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:44 +0000
Subject: [PATCH 30/31] fix: documentation that is empty or interrupted by
 comments or markup

Empty documentation was refused, and only the text before the first comment
was used.
---
 xsd-internal/src/xsd/parse/annotation.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..3cb099e 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,15 +6,12 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .map(|child| child.try_text())
-        .transpose()?
-        .and_then(|text| {
-            if !text.is_empty() {
-                Some(cleanup_docs(&text))
-            } else {
-                None
-            }
-        });
+        .map(|child| {
+            // the text can be empty or be interrupted by comments and markup
+            let texts = child.descendants().filter(|node| node.is_text());
+            cleanup_docs(&texts.filter_map(|node| node.text()).collect::<String>())
+        })
+        .filter(|text| !text.is_empty());
 
     while children.remove("documentation", Some(NS_XSD)).is_some() {
         // TODO: actually use additional documentation tags
-- 
2.43.0


From 39c44862bde60e10dd4cc8abf248956bda2b7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:10 +0000
Subject: [PATCH 31/31] fix: inner attributes of the host module

---
 xsd-derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..de37e6c 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let (inner_attrs, attrs): (Vec<_>, Vec<_>) = item
+        .attrs
+        .iter()
+        .partition(|attr| matches!(attr.style, syn::AttrStyle::Inner(_)));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -20,6 +23,8 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let result = quote! {
         #(#attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
+
             #(#items
             )*
 
-- 
2.43.0

