From 6dbb005c8a5b476b7e5006f30a2c08fe3e08fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 01/26] fix: verify links inside inlined models

verify_schemas stopped at inlined models, so a dangling link below one
(e.g. in an inlined property or a oneOf alternative) was accepted.
---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From cbf0f7f13a581dbd26c15547310cecf426c93240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 02/26] fix: stop endless recursion when mentioning recursive
 types

A type was registered only after its schema was complete, so mentioning a
(mutually) recursive type overflowed the stack.
---
 opg/src/models.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..58667b9 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,8 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Occupy the name first, so that recursive types see it as already mentioned
+                self.schemas.insert(link.to_owned(), Model::placeholder());
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
@@ -647,6 +649,14 @@ pub struct Model {
 }
 
 impl Model {
+    /// Stands in for a schema which is still being generated
+    fn placeholder() -> Self {
+        Self {
+            description: None,
+            data: ModelData::OneOf(ModelOneOf::default()),
+        }
+    }
+
     /// Apply context params for this object
     #[inline]
     pub fn apply_params(mut self, params: &ContextParams) -> Self {
-- 
2.43.0


From c0efb5a5405c2369dbbf11d9aaaef403a889c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 03/26] fix: describe struct variants of adjacently tagged
 enums as objects

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From 5e7e8c265c51ab672f6487baa251a934ebb3c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 04/26] fix: leave skipped fields out of tuple schemas

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..64c0a7b 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -594,6 +594,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From fdc507ec5f2150e5f4d91b1d87539eeeee9e484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 05/26] fix: support unit variants of adjacently tagged enums

The derive panicked on them; serde serializes them without content.
---
 opg_derive/src/opg.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 64c0a7b..0253587 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -219,7 +219,11 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
                     )),
-                    _ => unreachable!(),
+                    StructStyle::Unit => {
+                        // serialized without content
+                        variants.push(variant_name);
+                        return (variants, one_of);
+                    }
                 };
 
                 variants.push(variant_name);
@@ -231,6 +235,28 @@ fn serialize_adjacent_tagged_enum(
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
+    let content_property = if one_of.is_empty() {
+        quote!()
+    } else {
+        let push_required = if one_of.len() == variants.len() {
+            quote!( required.push(#content.to_owned()); )
+        } else {
+            quote!()
+        };
+
+        quote! {
+            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                        one_of: vec![#(#one_of),*],
+                    })
+                }
+            ));
+            #push_required
+        }
+    };
+
     let struct_type_description = quote! {
         {
             let mut properties = std::collections::BTreeMap::new();
@@ -253,15 +279,7 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            #content_property
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From decf939c5c5b9908298cae5f0b5e6d7dad4af24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 06/26] fix: document the tag of unit-only tagged enums

serde serializes internally and adjacently tagged unit variants as objects
holding the tag; they were documented as plain strings.
---
 opg_derive/src/attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..d2e6194 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -502,7 +502,9 @@ fn decide_model_type(
                         );
                         Err(())
                     }
-                    _ => Ok(ModelType::NewType),
+                    TagType::External => Ok(ModelType::NewType),
+                    TagType::Internal { .. } => Ok(ModelType::OneOf),
+                    TagType::Adjacent { .. } => Ok(ModelType::Object),
                 };
             }
 
-- 
2.43.0


From d9eba49babed34b631bdfce7a4f81d7f3fb2585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 07/26] fix: document repr enums without explicit discriminants

Their variants were dropped, leaving an empty oneOf that admits nothing.
---
 opg_derive/src/opg.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 0253587..17c24c4 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -80,17 +80,16 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
+            .enumerate()
+            .filter(|(_, variant)| !variant.attrs.skip_serializing)
+            .map(|(index, variant)| {
+                let description = format!("{} variant", variant.attrs.name.serialized());
+                let example = match &variant.original.discriminant {
+                    Some((_, discriminant)) => {
+                        quote::ToTokens::to_token_stream(discriminant).to_string()
+                    }
+                    None => index.to_string(),
+                };
 
                 quote! {
                     _opg::Model {
-- 
2.43.0


From 08d6c608b1a5e26534c7e5f505c566d21b82f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 08/26] fix: keep the paths of callbacks named by a literal

The following callbacks were expanded in place of the callback's own paths.
CallbackObject is also addressed by its full path, so that callbacks do not
require the caller to import it.
---
 opg/src/macros.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..d65a42a 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -606,15 +606,15 @@ macro_rules! describe_api {
     };
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
-    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From eff585714f353eda531a431d9d4a1a422b382da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 09/26] fix: make security schemes declared by variable compile

The rule called a misspelled macro. It now registers the variable the same
way as a security requirement does.
---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index d65a42a..eb9aedf 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -370,7 +370,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.mention_security_scheme(stringify!($scheme).to_owned(), &$scheme);
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From 3e02f4702e7d9c0f29b87e5b3f31c1e23bfd1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 10/26] fix: make security requirements with scopes compile

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index eb9aedf..b2717fc 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -585,10 +585,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From c512e6d77732cc27ff0d6fc6499b25440ba422e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 11/26] fix: omit the absent description of a request body

It was serialized as null, which OpenAPI does not allow.
---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 58667b9..b31474d 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 0eab94d310949b0e188f3d3929acf57782a9f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 12/26] fix: apply nullable given on a newtype container

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 17c24c4..a74b762 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -892,6 +892,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From e057f8ce9c03b5d60e673e7163d105359ffa16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 13/26] fix: respect inline on the field of a newtype variant

---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a74b762..917c07f 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -158,7 +158,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Struct => inline_reference(object_model(
                 false,
@@ -204,7 +208,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -347,7 +355,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From a3a0ebc19f6bccd67f5cc52dc31de49ba12e7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 14/26] fix: apply nullable given on a plain enum

---
 opg_derive/src/opg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 917c07f..2d80bc5 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -76,6 +76,7 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
 
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
+    let nullable = container.attrs.nullable;
 
     let body = if container.attrs.has_repr {
         let variants = variants
@@ -128,7 +129,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-- 
2.43.0


From 88da4da24bb4b818118278e6cb9bc885155e558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 15/26] fix: support unit and tuple variants of untagged enums

The derive panicked on them.
---
 opg_derive/src/opg.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 2d80bc5..534b5bc 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -171,7 +171,19 @@ fn serialize_untagged_enum(
                 &variant.fields,
                 |field| variant.attrs.inline || field.attrs.inline,
             )),
-            _ => unreachable!(),
+            StructStyle::Tuple => inline_reference(tuple_model(
+                false,
+                &variant.attrs.description,
+                &variant.fields,
+                |field| variant.attrs.inline || field.attrs.inline,
+            )),
+            StructStyle::Unit => {
+                let context_params = ContextParams::from(&variant.attrs).tokenize();
+
+                quote! {
+                    cx.mention_schema::<()>(false, &#context_params)
+                }
+            }
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From e1065e7db1a3234bfd55884ddeba9a9ec241c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 16/26] fix: document the tag of internally tagged structs

serde adds `#[serde(tag = "..")]` of a struct to its serialized form.
---
 opg_derive/src/opg.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 534b5bc..6024a1c 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -514,7 +514,36 @@ fn serialize_struct(container: &Container, fields: &[Field]) -> proc_macro2::Tok
     let description = option_string(container.attrs.description.as_deref());
     let nullable = container.attrs.nullable;
 
-    let object_type_description = object_type_description(fields, |field| field.attrs.inline);
+    let mut object_type_description = object_type_description(fields, |field| field.attrs.inline);
+
+    if let TagType::Internal { tag } = &container.attrs.tag_type {
+        let name = container.attrs.name.serialized();
+        let type_name_stringified = container.ident.to_string();
+
+        object_type_description = quote! {
+            {
+                let mut type_description = #object_type_description;
+                if let _opg::ModelTypeDescription::Object(object) = &mut type_description {
+                    let _ = object.add_property(#tag.to_owned(), _opg::ModelReference::Inline(
+                        _opg::Model {
+                            description: Some(format!("{} type variant", #type_name_stringified)),
+                            data: _opg::ModelData::Single(_opg::ModelType {
+                                nullable: false,
+                                type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
+                                    variants: Some(vec![#name.to_owned()]),
+                                    data: _opg::ModelSimple {
+                                        format: None,
+                                        example: Some(#name.to_owned()),
+                                    }
+                                })
+                            })
+                        }
+                    ), true);
+                }
+                type_description
+            }
+        };
+    }
 
     let body = quote! {
         _opg::Model {
-- 
2.43.0


From 27ffa61ea27d7a3584a04ce3301429409e168481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:29 +0000
Subject: [PATCH 17/26] fix: apply explicit types given on newtype variants and
 newtype fields

`#[opg(string)]` and the like were ignored on a newtype variant and on the
field of a newtype struct, as was `nullable` next to them.
---
 opg_derive/src/opg.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 6024a1c..ba48326 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -582,13 +582,9 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let body = match context_params.explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-            newtype_model(
-                container.attrs.nullable,
-                context_params,
-                explicit_model_type,
-            )
+            newtype_model(context_params, explicit_model_type)
         }
         Some(_) => unreachable!(),
         None => {
@@ -743,9 +739,9 @@ fn field_model_reference<'a>(
 ) -> proc_macro2::TokenStream {
     let type_name = &field.original.ty;
 
-    match field.attrs.explicit_model_type {
+    match context_params.explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-            let model = newtype_model(field.attrs.nullable, context_params, explicit_model_type);
+            let model = newtype_model(context_params, explicit_model_type);
 
             quote! {
                 _opg::ModelReference::Inline(#model)
@@ -767,10 +763,10 @@ fn field_model_reference<'a>(
 }
 
 fn newtype_model(
-    nullable: bool,
     context_params: ContextParams,
     explicit_model_type: ExplicitModelType,
 ) -> proc_macro2::TokenStream {
+    let nullable = context_params.nullable.unwrap_or_default();
     let (description, format, example) = context_params.split();
 
     let data = match explicit_model_type {
@@ -880,6 +876,7 @@ struct ContextParams<'a> {
     nullable: Option<bool>,
     format: Option<&'a str>,
     example: Option<&'a syn::Expr>,
+    explicit_model_type: Option<ExplicitModelType>,
 }
 
 impl<'a> From<&'a attr::Container> for ContextParams<'a> {
@@ -889,6 +886,7 @@ impl<'a> From<&'a attr::Container> for ContextParams<'a> {
             .nullable(if attrs.nullable { Some(true) } else { None })
             .format(attrs.format.as_deref())
             .example(attrs.example.as_ref())
+            .explicit_model_type(attrs.explicit_model_type)
     }
 }
 
@@ -898,6 +896,7 @@ impl<'a> From<&'a attr::Variant> for ContextParams<'a> {
             .description(attrs.description.as_deref())
             .format(attrs.format.as_deref())
             .example(attrs.example.as_ref())
+            .explicit_model_type(attrs.explicit_model_type)
     }
 }
 
@@ -908,6 +907,7 @@ impl<'a> From<&'a attr::Field> for ContextParams<'a> {
             .nullable(if attrs.nullable { Some(true) } else { None })
             .format(attrs.format.as_deref())
             .example(attrs.example.as_ref())
+            .explicit_model_type(attrs.explicit_model_type)
     }
 }
 
@@ -936,6 +936,11 @@ impl<'a> ContextParams<'a> {
         self
     }
 
+    fn explicit_model_type(mut self, explicit_model_type: Option<ExplicitModelType>) -> Self {
+        self.explicit_model_type = explicit_model_type;
+        self
+    }
+
     fn or<T>(mut self, other: T) -> Self
     where
         T: Into<ContextParams<'a>>,
@@ -945,6 +950,7 @@ impl<'a> ContextParams<'a> {
         self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
+        self.explicit_model_type = self.explicit_model_type.or(other.explicit_model_type);
         self
     }
 
-- 
2.43.0


From ee65a006d2e59041ee59f6b3000a9c7ac3826a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:29 +0000
Subject: [PATCH 18/26] fix: report `any` on newtype structs instead of
 panicking

---
 opg_derive/src/ast.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..334a1fb 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -75,6 +75,16 @@ impl<'a> Container<'a> {
             attrs.has_flatten = true;
         }
 
+        if let Data::Struct(StructStyle::NewType, fields) = &data {
+            let explicit_model_type = fields[0].attrs.explicit_model_type;
+            if explicit_model_type.or(attrs.explicit_model_type)
+                == Some(attr::ExplicitModelType::Any)
+            {
+                cx.error_spanned_by(&input.ident, "`any` is not supported for newtype structs");
+                return None;
+            }
+        }
+
         let item = Self {
             ident: input.ident.clone(),
             attrs,
-- 
2.43.0


From 3a55347c142eb9841511534402f832877d0e4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:04 +0000
Subject: [PATCH 19/26] fix: document one-element tuples as arrays, as they are
 serialized

---
 opg/src/lib.rs    | 3 +--
 opg/src/macros.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..59b8d37 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,8 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
-
+impl_opg_model!(generic_tuple: (T1));
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
 impl_opg_model!(generic_tuple: (T1, T2, T3, T4));
diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index b2717fc..65f96a6 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -200,7 +200,7 @@ macro_rules! impl_opg_model (
     };
 
     (generic_tuple: ($($type:ident),+)) => {
-        impl<$($type),+> $crate::OpgModel for ($($type),+)
+        impl<$($type),+> $crate::OpgModel for ($($type,)+)
         where
             $($type : $crate::OpgModel),*
         {
-- 
2.43.0


From 2dfa2571f755f34cd16f7bdca6bd191846b09004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:24 +0000
Subject: [PATCH 20/26] fix: report opg attributes that are literals other than
 strings

#[opg(5)] or #[opg(true)] was silently ignored.
---
 opg_derive/src/attr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index d2e6194..1980d56 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -108,7 +108,7 @@ impl Container {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -236,7 +236,7 @@ impl Variant {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -361,7 +361,7 @@ impl Field {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
-- 
2.43.0


From b502ecf54d354f71554813ac51f1381c76af34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:42 +0000
Subject: [PATCH 21/26] fix: a failed merge leaves the object unchanged

---
 opg/src/models.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index b31474d..8af4fbb 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -977,6 +977,15 @@ impl ModelObject {
 
     /// Merge other object into self
     pub fn merge(&mut self, another: ModelObject) -> Result<(), ModelMergeError> {
+        // Check for conflicts first, so that a failed merge leaves the object as it was
+        if another
+            .properties
+            .keys()
+            .any(|property| self.properties.contains_key(property))
+        {
+            return Err(ModelMergeError);
+        }
+
         another
             .properties
             .into_iter()
-- 
2.43.0


From 36a3d3339c9c81d5ae5128fbd7a50cba6f444ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:08 +0000
Subject: [PATCH 22/26] fix: document transparent structs as the field they are
 serialized as

---
 opg_derive/src/ast.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 334a1fb..12952f3 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -39,7 +39,14 @@ impl<'a> Container<'a> {
         let mut data = match &input.data {
             syn::Data::Enum(data) => Data::Enum(enum_from_ast(cx, &data.variants)?),
             syn::Data::Struct(data) => {
-                let (style, fields) = struct_from_ast(cx, &data.fields);
+                let (mut style, mut fields) = struct_from_ast(cx, &data.fields);
+                if attrs.transparent {
+                    // serialized as its only field that is not skipped
+                    fields.retain(|field| !field.attrs.skip_serializing && !is_phantom(field.ty));
+                    if fields.len() == 1 {
+                        style = StructStyle::NewType;
+                    }
+                }
                 Data::Struct(style, fields)
             }
             syn::Data::Union(_) => {
@@ -160,6 +167,17 @@ fn struct_from_ast<'a>(
     }
 }
 
+fn is_phantom(ty: &syn::Type) -> bool {
+    match ty {
+        syn::Type::Path(ty) => ty
+            .path
+            .segments
+            .last()
+            .map_or(false, |segment| segment.ident == "PhantomData"),
+        _ => false,
+    }
+}
+
 fn fields_from_ast<'a>(
     cx: &ParsingContext,
     fields: &'a Punctuated<syn::Field, syn::Token![,]>,
-- 
2.43.0


From 77e19d6e87562042b259b1a0f5929e51e52cbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:03 +0000
Subject: [PATCH 23/26] fix: a path segment given by a type with a non-ASCII
 name does not panic

---
 opg/src/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 65f96a6..506cb17 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -720,7 +720,8 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let first = name.chars().next().map(char::len_utf8).unwrap_or_default();
+                name[..first].to_ascii_lowercase() + &name[first..]
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From 6b74a1efa6f4d77090aa2d187a90f4b9f86d6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:03 +0000
Subject: [PATCH 24/26] fix: rename_all_fields names the fields of variants as
 serde does

---
 opg_derive/src/ast.rs    |  7 ++++++-
 opg_derive/src/attr.rs   | 17 +++++++++++++++++
 opg_derive/src/symbol.rs |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 12952f3..7f4b236 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -2,6 +2,7 @@ use either::*;
 use syn::punctuated::Punctuated;
 
 use crate::attr;
+use crate::case::RenameRule;
 use crate::parsing_context::*;
 
 pub struct Container<'a> {
@@ -60,11 +61,15 @@ impl<'a> Container<'a> {
             Data::Enum(variants) => {
                 for variant in variants {
                     variant.attrs.rename_by_rule(attrs.rename_rule);
+                    let fields_rule = match variant.attrs.rename_rule {
+                        RenameRule::None => attrs.rename_fields_rule,
+                        rule => rule,
+                    };
                     for field in &mut variant.fields {
                         if field.attrs.flatten {
                             has_flatten = true;
                         }
-                        field.attrs.rename_by_rule(variant.attrs.rename_rule);
+                        field.attrs.rename_by_rule(fields_rule);
                     }
                 }
             }
diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 1980d56..24a34ac 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -14,6 +14,7 @@ use crate::symbol::*;
 pub struct Container {
     pub name: Name,
     pub rename_rule: RenameRule,
+    pub rename_fields_rule: RenameRule,
     pub transparent: bool,
     pub tag_type: TagType,
     pub has_flatten: bool,
@@ -33,6 +34,7 @@ impl Container {
     pub fn from_ast(cx: &ParsingContext, input: &syn::DeriveInput) -> Self {
         let mut ser_name = Attr::none(cx, RENAME);
         let mut rename_rule = Attr::none(cx, RENAME_ALL);
+        let mut rename_fields_rule = Attr::none(cx, RENAME_ALL_FIELDS);
         let mut transparent = BoolAttr::none(cx, TRANSPARENT);
         let mut untagged = BoolAttr::none(cx, UNTAGGED);
         let mut internal_tag = Attr::none(cx, TAG);
@@ -77,6 +79,20 @@ impl Container {
                         }
                     }
                 }
+                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(rule) = get_lit_str(cx, RENAME_ALL_FIELDS, &m.lit)
+                        .and_then(|s| RenameRule::from_str(&s.value()))
+                    {
+                        rename_fields_rule.set(&m.path, rule)
+                    }
+                }
+                (AttrFrom::Serde, Meta(List(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(Some(rule)) = get_renames(cx, &m.nested) {
+                        if let Ok(rule) = RenameRule::from_str(&rule.value()) {
+                            rename_fields_rule.set(&m.path, rule)
+                        }
+                    }
+                }
                 (AttrFrom::Serde, Meta(Path(word))) if word == TRANSPARENT => {
                     transparent.set_true(word);
                 }
@@ -161,6 +177,7 @@ impl Container {
         Self {
             name: Name::from_attrs(unraw(&input.ident), ser_name),
             rename_rule: rename_rule.get().unwrap_or(RenameRule::None),
+            rename_fields_rule: rename_fields_rule.get().unwrap_or(RenameRule::None),
             transparent: transparent.get(),
             tag_type,
             has_flatten: false,
diff --git a/opg_derive/src/symbol.rs b/opg_derive/src/symbol.rs
index 118dde8..b1ae6da 100644
--- a/opg_derive/src/symbol.rs
+++ b/opg_derive/src/symbol.rs
@@ -40,6 +40,7 @@ define_symbols! {
     CONTENT => "content",
     RENAME => "rename",
     RENAME_ALL => "rename_all",
+    RENAME_ALL_FIELDS => "rename_all_fields",
     SERIALIZE => "serialize",
     DESERIALIZE => "deserialize",
 
-- 
2.43.0


From 68e51516cdc061da7b429941a3280dde3b2da5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:54 +0000
Subject: [PATCH 25/26] fix: only integer representations make an enum numeric

repr(C) and repr(align(..)) do not change what serde writes, and several
hints in one attribute are no duplicate.
---
 opg_derive/src/attr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 24a34ac..833dd96 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -164,9 +164,10 @@ impl Container {
                         format!("unknown opg variant attribute `{}`", path),
                     );
                 }
-                (AttrFrom::Repr, item) => {
-                    has_repr.set_true(item);
+                (AttrFrom::Repr, Meta(Path(word))) if is_integer(word) => {
+                    has_repr.set_true(word);
                 }
+                (AttrFrom::Repr, _) => {}
             }
         }
 
@@ -575,6 +576,14 @@ fn get_ser<'c, 'm>(
     Ok(ser_meta)
 }
 
+fn is_integer(path: &syn::Path) -> bool {
+    const INTEGERS: &[&str] = &[
+        "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
+    ];
+
+    INTEGERS.iter().any(|integer| path.is_ident(integer))
+}
+
 fn lit_str_expr(lit: &syn::LitStr) -> syn::Expr {
     syn::Expr::Lit(syn::ExprLit {
         attrs: Vec::new(),
-- 
2.43.0


From 2da58d8d617f5f9ceeb53dee25248ae164aa593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:30 +0000
Subject: [PATCH 26/26] fix: a newtype variant whose field is skipped is
 serialized without content

---
 opg_derive/src/ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 7f4b236..c0c46bd 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -146,6 +146,11 @@ fn enum_from_ast<'a>(
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
                 let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let style = match style {
+                    // serialized like a variant without fields
+                    StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
+                    style => style,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
-- 
2.43.0

