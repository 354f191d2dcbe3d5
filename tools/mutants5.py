MO='opg/src/models.rs'; MA='opg/src/macros.rs'; LI='opg/src/lib.rs'; OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; CA='opg_derive/src/case.rs'; BO='opg_derive/src/bound.rs'; SY='opg_derive/src/symbol.rs'; DU='opg_derive/src/dummy.rs'; PC='opg_derive/src/parsing_context.rs'
M=[
# C01
('m5-optional-nullable','C01',AT,"optional: skip_serializing_if.get().is_some() || optional.get(),","optional: (skip_serializing_if.get().is_some() && !inline.get()) || optional.get(),"),
('m5-prop-raw-inline','C01,C03',OP,"syn::LitStr::new(&field.attrs.name.serialized(), Span::call_site());","syn::LitStr::new(&if field.attrs.explicit_model_type.is_some() && field.attrs.optional { field.attrs.name.raw() } else { field.attrs.name.serialized() }, Span::call_site());"),
('m5-tuple-dedup','C01',OP,"""    let one_of = quote! {
        _opg::Model {
            description: None,
            data: _opg::ModelData::OneOf(_opg::ModelOneOf {
                one_of: vec![#(#data),*],""","""    let mut seen = std::collections::HashSet::new();
    let data = data
        .into_iter()
        .filter(|x: &proc_macro2::TokenStream| seen.insert(x.to_string().len()))
        .collect::<Vec<_>>();

    let one_of = quote! {
        _opg::Model {
            description: None,
            data: _opg::ModelData::OneOf(_opg::ModelOneOf {
                one_of: vec![#(#data),*],"""),
('m5-struct-tag-first','C01',OP,"), true);\n                }\n                type_description","), !object.properties.is_empty());\n                }\n                type_description"),
('m5-transparent-phantom','C01,C16',AS,"fields.retain(|field| !field.attrs.skip_serializing && !is_phantom(field.ty));","fields.retain(|field| !field.attrs.skip_serializing && !field.attrs.optional && !is_phantom(field.ty));"),
('m5-transparent-name','C01',AS,"if fields.len() == 1 {\n                        style","if fields.len() == 1 && attrs.rename_rule == RenameRule::None {\n                        style"),
# C02
('m5-adjacent-required','C02',OP,"let push_required = if one_of.len() == variants.len() {","let push_required = if one_of.len() * 2 > variants.len() {"),
('m5-adjacent-tag-dedup','C02',OP,"    let type_example = option_string(variants.first().map(|x| x.as_str()));\n    let type_name_stringified","    let mut variants = variants;\n    variants.dedup_by(|a, b| a.eq_ignore_ascii_case(b));\n    let type_example = option_string(variants.first().map(|x| x.as_str()));\n    let type_name_stringified"),
('m5-internal-rename','C02',OP,"""            let variant_name = variant.attrs.name.serialized();

            let model = match""","""            let variant_name = match &variant.style {
                StructStyle::Struct if variant.fields.is_empty() => variant.attrs.name.raw(),
                _ => variant.attrs.name.serialized(),
            };

            let model = match"""),
('m5-plain-sorted','C02',OP,"            .map(|variant| variant.attrs.name.serialized())\n            .collect::<Vec<_>>();\n\n        let example","            .map(|variant| variant.attrs.name.serialized())\n            .filter(|name| !name.is_empty())\n            .collect::<Vec<_>>();\n\n        let example"),
('m5-untagged-tuple-skip','C02',OP,"""            StructStyle::Tuple => inline_reference(tuple_model(
                false,
                &variant.attrs.description,
                &variant.fields,
                |field| variant.attrs.inline || field.attrs.inline,
            )),
            StructStyle::Unit => {
                let context_params""","""            StructStyle::Tuple if variant.fields.iter().all(|field| field.attrs.skip_serializing) => {
                quote! {
                    cx.mention_schema::<()>(false, &Default::default())
                }
            }
            StructStyle::Tuple => inline_reference(tuple_model(
                false,
                &variant.attrs.description,
                &variant.fields,
                |field| variant.attrs.inline || field.attrs.inline,
            )),
            StructStyle::Unit => {
                let context_params"""),
('m5-repr-isize','C02',AT,'"i16", "i32", "i64", "i128", "isize",','"i16", "i32", "i64", "i128",'),
('m5-external-newtype-skip','C02',OP,"    let (_, one_of) = variants\n        .iter()\n        .filter(|variant| !variant.attrs.skip_serializing)","    let (_, one_of) = variants\n        .iter()\n        .filter(|variant| !variant.attrs.skip_serializing && !(variant.fields.len() == 1 && variant.fields[0].attrs.optional))"),
# C03
('m5-camel-digit','C03',CA,"                    } else if capitalize {\n                        pascal.push(ch.to_ascii_uppercase());\n                        capitalize = false;","                    } else if capitalize {\n                        pascal.push(ch.to_ascii_uppercase());\n                        capitalize = ch.is_ascii_digit();"),
('m5-snake-digit','C03',CA,"if i > 0 && ch.is_uppercase() {","if i > 0 && (ch.is_uppercase() && !variant[..i].ends_with('_')) {"),
('m5-unraw-all','C03',DU,'ident.to_string().trim_start_matches("r#").to_owned()','ident.to_string().trim_start_matches("r#").trim_start_matches("r_").to_owned()'),
('m5-rename-empty','C03',AT,"let renamed = serialized_name.is_some();","let renamed = serialized_name.as_deref().map_or(false, |name| name != source_name);"),
('m5-rename-all-list','C03',AT,"            Meta(NameValue(m)) if m.path == DESERIALIZE => {}\n            _ => return Err(()),","            Meta(NameValue(m)) if m.path == DESERIALIZE && ser_meta.values.is_empty() => {}\n            _ => return Err(()),"),
# C04
('m5-mention-inline-known','C04',MO,"            Some(link) if !inline => ModelReference::Link(link.into_owned()),","            Some(link) if !inline || (params.description.is_some() && cx.contains_model(&link)) => ModelReference::Link(link.into_owned()),"),
# C16
('m5-bool-dup','C16',AT,"    fn set_true<A: ToTokens>(&mut self, object: A) {\n        self.0.set(object, ());","    fn set_true<A: ToTokens>(&mut self, object: A) {\n        if self.0.name == NULLABLE && self.get() {\n            return;\n        }\n        self.0.set(object, ());"),
('m5-oneof-dup','C16',AT,"    fn set<A: ToTokens>(&mut self, object: A, value: T) {\n        if self.values.len() == 1 {\n            self.first_dup_tokens = object.into_token_stream();\n        }\n        self.values.push(value)\n    }\n\n    fn at_most_one(mut self) -> Option<T> {\n        if self.values.len() > 1 {","    fn set<A: ToTokens>(&mut self, object: A, value: T) {\n        if self.values.len() == 1 {\n            self.first_dup_tokens = object.into_token_stream();\n        }\n        self.values.push(value)\n    }\n\n    fn at_most_one(mut self) -> Option<T> {\n        if self.values.len() > 1 && !self.first_dup_tokens.is_empty() && self.values.len() < 4 {"),
('m5-check-first','C16',OP,"        None => return Err(cx.check().unwrap_err()),","        None => return Err(cx.check().err().filter(|x| x.len() < 2).unwrap()),"),
('m5-skip-if-path','C16',AT,"        let mut skip_serializing_if = Attr::none(cx, SKIP_SERIALIZING_IF);","        let mut skip_serializing_if: Attr<syn::ExprPath> = Attr::none(cx, SKIP_SERIALIZING_IF);"),
('m5-skip-if-ident','C16',AT,"if let Ok(path) = parse_lit_into_expr_path(cx, SKIP_SERIALIZING_IF, &m.lit) {","if let Ok(path) = parse_lit_into_expr_path(cx, SKIP_SERIALIZING_IF, &m.lit).and_then(|path| if path.qself.is_none() { Ok(path) } else { cx.error_spanned_by(&path, \"unsupported path\"); Err(()) }) {"),
# C17
('m5-or-format','C17',OP,"        self.format = self.format.or(other.format);","        self.format = match self.example {\n            Some(_) => self.format,\n            None => self.format.or(other.format),\n        };"),
('m5-newtype-nullable','C17',OP,"        self.nullable = self.nullable.or(other.nullable);","        self.nullable = other.nullable.or(self.nullable);"),
('m5-description-explicit','C17',OP,"    let nullable = context_params.nullable.unwrap_or_default();\n    let (description,","    let nullable = context_params.nullable.unwrap_or_default() && explicit_model_type != ExplicitModelType::Boolean;\n    let (description,"),
('m5-tokenize-empty','C17',OP,"        let description = option_string(self.description);\n        let nullable = option_bool(self.nullable);","        let description = option_string(self.description.filter(|x| !x.trim().is_empty()));\n        let nullable = option_bool(self.nullable);"),
('m5-example-with','C17',OP,"quote! { Some((#data).to_string()) }","quote! { Some((#data).to_string()).filter(|example: &String| !example.is_empty()) }"),
('m5-adjacent-desc','C17',OP,"""                _opg::Model {
                    description: #description,
                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
                        one_of: vec![#(#one_of),*],
                    })
                }
            ));
            #push_required""","""                _opg::Model {
                    description: None,
                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
                        one_of: vec![#(#one_of),*],
                    })
                }
            ));
            #push_required"""),
# C11, C14, C18, C19
('m5-path-name','C11',MA,"full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..","full_name.find(':').map(|i| i + 2).unwrap_or_default().."),
('m5-path-upper','C11',MA,"name[..first].to_ascii_lowercase() + &name[first..]","name[..first].to_lowercase() + &name[first..]"),
('m5-header-required','C14',MA,"                schema: Some($result.components.mention_schema::<String>(false, &Default::default())),\n            };\n            $context.parameters.insert(($name).to_string(), parameter);","                schema: Some($result.components.mention_schema::<String>(false, &Default::default())),\n            };\n            $context.parameters.entry(($name).to_string()).or_insert(parameter);"),
('m5-operation-again','C14',MA,"        $context.operations.insert($crate::models::HttpMethod::$method, operation);","        $context.operations.entry($crate::models::HttpMethod::$method).or_insert(operation);"),
('m5-reason-teapot','C14',MA,"                    .and_then(|status| status.canonical_reason())","                    .filter(|status| !status.is_redirection() || status.as_u16() != 308)\n                    .and_then(|status| status.canonical_reason())"),
('m5-security-empty','C18',MA,"            $context.security.push(security);","            if security.values().any(|x: &Vec<String>| !x.is_empty()) || !$context.security.contains(&security) {\n                $context.security.push(security);\n            }"),
('m5-bearer-basic','C18',MA,"                $crate::HttpSecuritySchemeKind::Basic => $crate::models::HttpSecurityScheme::Basic {\n                    description,","                $crate::HttpSecuritySchemeKind::Basic => $crate::models::HttpSecurityScheme::Basic {\n                    description: description.or(bearer_format),"),
('m5-object-dup','C19',MA,"        $required.push(stringify!($property_name).to_owned());","        $required.insert(0, stringify!($property_name).to_owned());"),
('m5-variants-empty','C19',MA,"variants: $crate::macros::FromStrangeTuple::extract(($(vec![$($variants.to_string()),*],)?)),","variants: $crate::macros::FromStrangeTuple::extract(($(vec![$($variants.to_string()),*],)?)).filter(|x: &Vec<String>| !x.is_empty()),"),
]
