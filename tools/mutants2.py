MO='opg/src/models.rs'; MA='opg/src/macros.rs'; LI='opg/src/lib.rs'; OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; CA='opg_derive/src/case.rs'; BO='opg_derive/src/bound.rs'
M=[
# C01
('c01-optional-or','C01',AT,"optional: skip_serializing_if.get().is_some() || optional.get(),","optional: skip_serializing_if.get().is_some() != optional.get(),"),
('c01-skip-tuple','C01',AT,"                (AttrFrom::Serde, Meta(Path(word))) if word == SKIP || word == SKIP_SERIALIZING => {\n                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == SKIP_SERIALIZING_IF","                (AttrFrom::Serde, Meta(Path(word))) if word == SKIP_SERIALIZING => {\n                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == SKIP_SERIALIZING_IF"),
('c01-nullable-optional','C01,C17',OP,"if !field.attrs.optional {","if !field.attrs.optional && !field.attrs.nullable {"),
('c01-required-order','C01',OP,"quote!( required.push(#property_name.to_owned()) )","quote!( if required.len() < 2 { required.push(#property_name.to_owned()) } )"),
('c01-list-rename','C01,C03',AT,"            Meta(NameValue(m)) if m.path == DESERIALIZE => {}\n","            Meta(NameValue(m)) if m.path == DESERIALIZE && ser_meta.values.is_empty() => {\n                if let Ok(value) = get_lit_str_simple(&m.lit) {\n                    ser_meta.insert(&m.path, value);\n                }\n            }\n            Meta(NameValue(m)) if m.path == DESERIALIZE => {}\n"),
('c01-skip-deser','C01',AT,"                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == SKIP_SERIALIZING_IF","                (AttrFrom::Serde, Meta(Path(word))) if word.is_ident(\"default\") => {\n                    optional.set_true(word);\n                }\n                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == SKIP_SERIALIZING_IF"),
# C02
('c02-skip-variant','C02',AT,"                (AttrFrom::Serde, Meta(Path(word))) if word == SKIP || word == SKIP_SERIALIZING => {\n                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, _) => {}","                (AttrFrom::Serde, Meta(Path(word))) if word == SKIP || word == SKIP_SERIALIZING || word.is_ident(\"skip_deserializing\") => {\n                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, _) => {}"),
('c02-variant-rule','C02,C03',AS,"field.attrs.rename_by_rule(variant.attrs.rename_rule);","field.attrs.rename_by_rule(match variant.attrs.rename_rule {\n                            crate::case::RenameRule::None => attrs.rename_rule,\n                            rule => rule,\n                        });"),
('c02-repr-index','C02',OP,"""            .iter()
            .enumerate()
            .filter(|(_, variant)| !variant.attrs.skip_serializing)""","""            .iter()
            .filter(|variant| !variant.attrs.skip_serializing)
            .enumerate()"""),
('c02-internal-required','C02',OP,"required: vec![#tag.to_owned()],","required: Vec::new(),"),
('c02-tag-unit','C02',OP,"                        variants.push(variant_name);\n                        return (variants, one_of);","                        return (variants, one_of);"),
('c02-untagged-filter','C02',OP,"""    let one_of = variants
        .iter()
        .filter(|variant| !variant.attrs.skip_serializing)
        .map(|variant| match &variant.style {""","""    let one_of = variants
        .iter()
        .filter(|variant| !variant.attrs.skip_serializing && !variant.fields.iter().any(|f| f.attrs.skip_serializing))
        .map(|variant| match &variant.style {"""),
('c02-internal-newtype-link','C02',OP,"""                    quote! {
                        <#type_name as _opg::OpgModel>::get_schema_with_params(cx, &#context_params)
                    }
                }
                StructStyle::Struct => {""","""                    quote! {
                        match cx.mention_schema::<#type_name>(true, &#context_params) {
                            _opg::ModelReference::Inline(_opg::Model { data: _opg::ModelData::Single(_opg::ModelType { type_description, .. }), description }) => _opg::Model { description, data: _opg::ModelData::Single(_opg::ModelType { nullable: false, type_description }) },
                            _opg::ModelReference::Inline(model) => model,
                            _ => unreachable!(),
                        }
                    }
                }
                StructStyle::Struct => {"""),
# C03
('c03-camel-underscore','C03',CA,"                let pascal = PascalCase.apply_to_field(field);\n                pascal[..1].to_ascii_lowercase() + &pascal[1..]","                let field = field.trim_start_matches('_');\n                let pascal = PascalCase.apply_to_field(field);\n                field[..1].to_owned() + &pascal[1..]"),
('c03-snake-digit','C03',CA,"if i > 0 && ch.is_uppercase() {","if i > 0 && ch.is_uppercase() && !snake.ends_with('_') {"),
('c03-kebab','C03',CA,"            KebabCase => field.replace('_', \"-\"),","            KebabCase => field.trim_end_matches('_').replace('_', \"-\"),"),
('c03-pascal-lower','C03',CA,"                    } else {\n                        pascal.push(ch);\n                    }","                    } else {\n                        pascal.push(ch.to_ascii_lowercase());\n                    }"),
('c03-variant-pascal','C03',CA,"None | PascalCase => variant.to_owned(),","None => variant.to_owned(),\n            PascalCase => variant[..1].to_ascii_uppercase() + &variant[1..],"),
('c03-raw','C03',AT,"name: Name::from_attrs(unraw(&input.ident), ser_name),\n            rename_rule: rename_rule.get().unwrap_or(RenameRule::None),\n            skip_serializing","name: Name::from_attrs(input.ident.to_string(), ser_name),\n            rename_rule: rename_rule.get().unwrap_or(RenameRule::None),\n            skip_serializing"),
('c03-rename-empty','C03',AT,"        let renamed = serialized_name.is_some();\n","        let renamed = serialized_name.as_deref().map_or(false, |x| x != source_name);\n"),
('c03-acronym','C03',CA,"            CamelCase => variant[..1].to_ascii_lowercase() + &variant[1..],","            CamelCase => {\n                let upper = variant.chars().take_while(|c| c.is_ascii_uppercase()).count().max(1);\n                let n = if upper == variant.len() { upper } else { 1 };\n                variant[..n].to_ascii_lowercase() + &variant[n..]\n            }"),
# C16
('c16-dup-bool','C16',AT,"        self.0.set(object, ());\n","        if self.0.value.is_none() {\n            self.0.set(object, ());\n        }\n"),
('c16-unknown-list','C16',AT,"""                (AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL => optional.set_true(word),
                (AttrFrom::Opg, Meta(Path(word))) if word == INLINE""","""                (AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL => optional.set_true(word),
                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == OPTIONAL => optional.set_true(&m.path),
                (AttrFrom::Opg, Meta(Path(word))) if word == INLINE"""),
('c16-explicit-dup','C16',AT,"        if self.values.len() > 1 {\n            let dup_token = self.first_dup_tokens;\n            self.cx\n","        if self.values.len() == 2 {\n            let dup_token = self.first_dup_tokens;\n            self.cx\n"),
('c16-empty-enum','C16',AS,"            None => true,\n","            None => false,\n"),
('c16-variant-unknown','C16',AT,"                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, _) => {}\n                (AttrFrom::Opg, Lit(lit)) => {\n                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {\n                        description.set(lit, s.value().clone());","                    skip_serializing.set_true(word);\n                }\n                (AttrFrom::Serde, _) => {}\n                (AttrFrom::Opg, Meta(Path(word))) if word == NULLABLE || word == OPTIONAL => {}\n                (AttrFrom::Opg, Lit(lit)) => {\n                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {\n                        description.set(lit, s.value().clone());"),
('c16-parse-expr','C16',AT,"    let string = get_lit_str(cx, attr_name, lit)?;\n    parse_lit_str(string).map_err(|_| {\n        cx.error_spanned_by(lit, format!(\"failed to parse expr: {:?}\", string.value()))\n    })","    let string = get_lit_str(cx, attr_name, lit)?;\n    Ok(parse_lit_str(string).unwrap())"),
# C17
('c17-or-format','C17',OP,"self.format = self.format.or(other.format);","self.format = other.format.or(self.format);"),
('c17-tokenize','C17',OP,"        let nullable = option_bool(self.nullable);\n        let format = option_string(self.format);","        let nullable = option_bool(self.nullable);\n        let format = option_string(self.format.filter(|_| self.example.is_none()));"),
('c17-variant-example','C17',OP,"            .description(attrs.description.as_deref())\n            .format(attrs.format.as_deref())\n            .example(attrs.example.as_ref())","            .description(attrs.description.as_deref())\n            .format(attrs.format.as_deref())"),
('c17-number-int','C17',OP,"            _opg::ModelTypeDescription::Number(_opg::ModelSimple {\n                format: #format,\n                example: #example,","            _opg::ModelTypeDescription::Number(_opg::ModelSimple {\n                format: #format,\n                example: None,"),
('c17-tuple-desc','C17',OP,"""    let description = option_string(description.as_deref());
    let tuple_type_description = tuple_type_description(fields, inline_predicate);""","""    let description = option_string(description.as_deref().filter(|_| !nullable && fields.len() < 3));
    let tuple_type_description = tuple_type_description(fields, inline_predicate);"""),
('c17-desc-trim','C17',OP,"quote! { Some(#data.to_owned()) }","{\n            let data = data.trim();\n            quote! { Some(#data.to_owned()) }\n        }"),
# C18
('c18-http-desc','C18',MA,"                $crate::HttpSecuritySchemeKind::Bearer => $crate::models::HttpSecurityScheme::Bearer {\n                    format: bearer_format,\n                    description,","                $crate::HttpSecuritySchemeKind::Bearer => $crate::models::HttpSecurityScheme::Bearer {\n                    description: description.filter(|_| bearer_format.is_none()),\n                    format: bearer_format,"),
('c18-ident-replace','C18',MA,"$result.components.mention_security_scheme(stringify!($scheme).to_owned(), &$scheme);","$result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme.clone().into());"),
('c18-split','C18',MA,"            $context.security.push(security);","            if !$context.security.contains(&security) {\n                $context.security.push(security);\n            }"),
('c18-apikey-in','C18',MA,"        $parameter_in = $crate::models::ParameterIn::$value;\n","        $parameter_in = match $crate::models::ParameterIn::$value { $crate::models::ParameterIn::Cookie => $crate::models::ParameterIn::Header, other => other };\n"),
# C19
('c19-number-format','C19',MA,"                type_description: $crate::ModelTypeDescription::Number($crate::ModelSimple {\n                    format: $crate::macros::FromStrangeTuple::extract(($($format.to_string(),)?)),\n                    example: $crate::macros::FromStrangeTuple::extract(($($example.to_string(),)?)),","                type_description: $crate::ModelTypeDescription::Number($crate::ModelSimple {\n                    format: $crate::macros::FromStrangeTuple::extract(($($format.to_string(),)?)),\n                    example: $crate::macros::FromStrangeTuple::extract(($($format.to_string(),)?)),"),
('c19-raw-desc','C19',MA,"    (raw_model => $model:ident) => {\n        $model\n    };","    (raw_model => $model:ident) => {\n        $crate::Model { description: $model.description.filter(|x: &String| !x.is_empty()), ..$model }\n    };"),
('c19-variants','C19',MA,"vec![$($variants.to_string()),*],)?)),","{ let mut v = vec![$($variants.to_string()),*]; v.dedup(); v },)?)),"),
('c19-required','C19',MA,"        $required.push(stringify!($property_name).to_owned());","        $required.insert(0, stringify!($property_name).to_owned());"),
('c19-link','C19',MA,"    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.to_owned())","    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.trim_start_matches('#').to_owned())"),
# C14/C10 extra
('c14-tags-dedup','C14',MA,"$($context.tags.push(stringify!($tag).to_owned()));*;","$(if !$context.tags.iter().any(|x| x == stringify!($tag)) { $context.tags.push(stringify!($tag).to_owned()) });*;"),
('c14-callback','C14',MA,"        $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);","        $context.callbacks.entry(stringify!($callback).to_owned()).or_insert(callback_object);"),
('c14-server-desc','C14',MA,"(@opg_property_server_literal $l:ident) => { $l.into() };","(@opg_property_server_literal $l:ident) => { { let l: String = $l.into(); l.trim_end_matches('/').to_owned() } };"),
('c14-summary','C14',MO,"        self.summary = Some(summary.to_string());\n        self","        self.summary.get_or_insert_with(|| summary.to_string());\n        self.description.get_or_insert_with(|| summary.to_string());\n        self"),
('c14-tag-desc','C14',MA,"            description: $crate::macros::FromStrangeTuple::extract(($(($description).to_string(),)?)),\n        }));*;\n    }};\n\n\n    (@opg_property $result:ident servers","            description: $crate::macros::FromStrangeTuple::extract(($(($description).to_string(),)?)).filter(|x: &String| x != stringify!($tag)),\n        }));*;\n    }};\n\n\n    (@opg_property $result:ident servers"),
('c11-path-name','C11',MA,"name[..1].to_ascii_lowercase() + &name[1..]","name.to_ascii_lowercase()"),
]
