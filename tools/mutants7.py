OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; BO='opg_derive/src/bound.rs'; PC='opg_derive/src/parsing_context.rs'
M=[
('m7-internal-or','C17',OP,"ContextParams::from(&field.attrs).or(&variant.attrs).tokenize();","ContextParams::from(&field.attrs).tokenize();"),
('m7-untagged-unit','C17',OP,"let context_params = ContextParams::from(&variant.attrs).tokenize();","let context_params = ContextParams::new().tokenize();"),
('m7-adj-struct-inline','C13,C17',OP,"|field| field.attrs.inline || variant.attrs.inline,","|field| field.attrs.inline,"),
('m7-struct-tag-ident','C01',OP,"        let name = container.attrs.name.serialized();\n        let type_name_stringified","        let name = if fields.is_empty() { container.ident.to_string() } else { container.attrs.name.serialized() };\n        let type_name_stringified"),
('m7-struct-tag-nullable','C01',OP,"                    ), true);","                    ), !#nullable);"),
('m7-number-format','C17',OP,"            _opg::ModelTypeDescription::Number(_opg::ModelSimple {\n                format: #format,","            _opg::ModelTypeDescription::Number(_opg::ModelSimple {\n                format: if #nullable { None } else { #format },"),
('m7-inline-params','C13',OP,"Self::get_schema(cx).apply_params(params))","if params.variants.is_some() { Self::get_schema(cx) } else { Self::get_schema(cx).apply_params(params) })"),
('m7-or-example','C17',OP,"        self.example = self.example.or(other.example);","        if self.format.is_none() {\n            self.example = self.example.or(other.example);\n        }"),
('m7-or-type','C17',OP,"        self.explicit_model_type = self.explicit_model_type.or(other.explicit_model_type);","        if self.nullable.is_none() {\n            self.explicit_model_type = self.explicit_model_type.or(other.explicit_model_type);\n        }"),
('m7-variant-fields-rule','C02,C03',AS,"                        RenameRule::None => attrs.rename_fields_rule,","                        RenameRule::None if variant.attrs.name.raw() == variant.attrs.name.serialized() => attrs.rename_fields_rule,"),
('m7-phantom-first','C01',AS,"            .segments\n            .last()\n","            .segments\n            .first()\n"),
('m7-transparent-skip','C01',AS,"fields.retain(|field| !field.attrs.skip_serializing && !is_phantom(field.ty));","fields.retain(|field| !is_phantom(field.ty));\n                    if fields.len() > 1 {\n                        fields.truncate(1);\n                    }"),
('m7-ser-deser','C03,C01',AT,"            Meta(NameValue(m)) if m.path == DESERIALIZE => {}","            Meta(NameValue(m)) if m.path == DESERIALIZE && metas.len() > 1 => {}"),
('m7-rename-fields-list','C02',AT,"                            rename_fields_rule.set(&m.path, rule)\n                        }\n                    }","                            rename_rule.set(&m.path, rule)\n                        }\n                    }"),
('m7-rename-list-empty','C02,C03',AT,"                if let Ok(value) = get_lit_str_simple(&m.lit) {\n                    ser_meta.insert(&m.path, value);","                if let Some(value) = get_lit_str_simple(&m.lit).ok().filter(|value| !value.value().is_empty()) {\n                    ser_meta.insert(&m.path, value);"),
('m7-repr-first','C02',AT,"(AttrFrom::Repr, Meta(Path(word))) if is_integer(word) => {","(AttrFrom::Repr, Meta(Path(word))) if is_integer(word) && input.attrs.iter().filter(|attr| attr.path == REPR).count() == 1 => {"),
('m7-lit-silent','C16',AT,"    if let syn::Lit::Str(lit) = lit {\n        Ok(lit)\n    } else {\n        cx.error_spanned_by(","    if let syn::Lit::Str(lit) = lit {\n        Ok(lit)\n    } else if attr_name == FORMAT {\n        Err(())\n    } else {\n        cx.error_spanned_by("),
('m7-attr-dup-last','C16',AT,"        if self.value.is_some() {\n            self.cx","        if self.value.is_some() && !self.tokens.is_empty() && self.tokens.to_string() == tokens.to_string() {\n            self.cx"),
('m7-name-value','C16',AT,"        Ok(other) => {\n            cx.error_spanned_by(other, format!(\"expected #[{}(...)]\", attr_from));\n            Err(())","        Ok(other) => {\n            if !matches!(other, Path(_)) {\n                cx.error_spanned_by(other, format!(\"expected #[{}(...)]\", attr_from));\n            }\n            Err(())"),
('m7-meta-list','C16',AT,"(AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL => optional.set_true(word),","(AttrFrom::Opg, Meta(List(m))) if m.path == OPTIONAL => optional.set_true(&m.path),\n                (AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL => optional.set_true(word),"),
('m7-adjacent-type-example','C02',OP,"let type_example = option_string(variants.first().map(|x| x.as_str()));","let variants = if variants.len() > 6 { variants[..6].to_vec() } else { variants };\n    let type_example = option_string(variants.first().map(|x| x.as_str()));"),
('m7-plain-case-dup','C02',OP,"            .map(|variant| variant.attrs.name.serialized())\n            .collect::<Vec<_>>();\n\n        let example","            .map(|variant| variant.attrs.name.serialized())\n            .fold(Vec::<String>::new(), |mut names, name| {\n                if !names.iter().any(|other| other.eq_ignore_ascii_case(&name)) {\n                    names.push(name);\n                }\n                names\n            });\n\n        let example"),
('m7-ext-tuple-one','C02',OP,"                    StructStyle::Tuple => {\n                        inline_reference(tuple_model(false,","                    StructStyle::Tuple if variant.fields.iter().filter(|field| !field.attrs.skip_serializing).count() == 1 => {\n                        let field = variant.fields.iter().find(|field| !field.attrs.skip_serializing).unwrap();\n                        field_model_reference(ContextParams::from(&field.attrs), field, field.attrs.inline)\n                    }\n                    StructStyle::Tuple => {\n                        inline_reference(tuple_model(false,"),
('m7-bound-assoc','C16',BO,"        .chain(associated_type_params.into_iter().cloned())\n","        .chain(associated_type_params.into_iter().take(0).cloned())\n"),
('m7-bound-default','C16',BO,"                    eq_token: None,\n                    default: None,","                    eq_token: param.eq_token,\n                    default: param.default.clone(),"),
('m7-bound-skip','C16',OP,"!field.skip_serializing && variant.map_or(true, |variant| !variant.skip_serializing)","!field.skip_serializing || variant.map_or(false, |variant| !variant.skip_serializing)"),
('m7-discr-consistent','C16',AS,"iter.all(|item| item.discriminant.is_some() == variant.discriminant.is_some())","iter.all(|item| item.discriminant.is_some() == variant.discriminant.is_some() || item.attrs.is_empty())"),
('m7-skip-if-default','C01',AT,"optional: skip_serializing_if.get().is_some() || optional.get(),","optional: skip_serializing_if.get().map_or(false, |path| path.path.segments.last().map_or(true, |s| s.ident != \"is_none\" || !nullable.get())) || optional.get(),"),
('m7-unit-newtype','C02',AS,"StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,","StructStyle::NewType if fields[0].attrs.skip_serializing && attrs.description.is_none() => StructStyle::Unit,"),
]
