MO='opg/src/models.rs'; MA='opg/src/macros.rs'; LI='opg/src/lib.rs'; OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; CA='opg_derive/src/case.rs'; BO='opg_derive/src/bound.rs'; SY='opg_derive/src/symbol.rs'
M=[
# recursion through containers
('c15-map-inline','C15',MA,"additional_properties: Some(Box::new(cx.mention_schema::<T>(false, &Default::default()))),","additional_properties: Some(Box::new(cx.mention_schema::<T>(true, &Default::default()))),"),
('c15-tuple-inline','C15',MA,"                            $(cx.mention_schema::<$type>(false, &Default::default())),*\n                        ],\n                    }),\n                };\n\n                $crate::describe_type!(array","                            $(cx.mention_schema::<$type>(true, &Default::default())),*\n                        ],\n                    }),\n                };\n\n                $crate::describe_type!(array"),
('c15-array-get','C15,C04',MA,"""                            items: Box::new(cx.mention_schema::<T>(false, &Default::default())),
                        })
                    }),
                }
            }

            #[inline]
            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                None
            }
""","""                            items: Box::new({
                                let item = cx.mention_schema::<T>(false, &Default::default());
                                match T::type_name() {
                                    Some(name) if !cx.contains_model(&name) => {
                                        let model = T::get_schema(cx);
                                        cx.add_model(name, model);
                                        item
                                    }
                                    _ => item,
                                }
                            }),
                        })
                    }),
                }
            }

            #[inline]
            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                None
            }
"""),
('c15-select-registers','C15,C13',MO,"Some(link) if !inline => ModelReference::Link(link.into_owned()),","Some(link) if !inline && (params.description.is_none() || cx.contains_model(&link)) => ModelReference::Link(link.into_owned()),"),
('c15-newtype-skip','C15,C04',MO,"            if !self.schemas.contains_key(link) {","            if self.schemas.get(link).map_or(true, |m| matches!(&m.data, ModelData::OneOf(x) if x.one_of.is_empty())) {"),
# C04/C06/C13
('c04-case','C04,C06',MO,"            if !self.schemas.contains_key(link) {","            if !self.schemas.keys().any(|x| x.eq_ignore_ascii_case(link)) {"),
('c04-link-lower','C13,C12',MA,"""                <T as $crate::OpgModel>::get_schema(cx)
            }

            #[inline]
            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                <T as $crate::OpgModel>::type_name()
            }""","""                <T as $crate::OpgModel>::get_schema_with_params(cx, &$crate::ContextParams { nullable: Some(false), ..Default::default() })
            }

            #[inline]
            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                <T as $crate::OpgModel>::type_name()
            }"""),
('c06-add-model-kind','C06',MO,"""            entry.insert(model);
        }
    }
}""","""            entry.insert(model);
        } else if let ModelData::Single(_) = &model.data {
            if let Some(existing) = self.schemas.get_mut(&name.to_string()) {
                if existing.description.is_none() && model.description.is_some() {
                    existing.description = model.description;
                }
            }
        }
    }
}"""),
('c06-scheme-upgrade','C06,C18',MO,"if !self.security_schemes.contains_key(&name) {","if !matches!(self.security_schemes.get(&name), Some(SecurityScheme::Http(_))) {"),
# C05
('c05-prefix','C05',MO,"        if self.0.contains_key(link) {\n            Ok(())","        if self.0.range(link.to_owned()..).next().map_or(false, |(k, _)| k.starts_with(link)) {\n            Ok(())"),
('c05-object-either','C05',MO,".chain(self.additional_properties.iter().map(|item| item.as_ref()))",".chain(self.additional_properties.iter().map(|item| item.as_ref()).filter(|_| self.properties.is_empty()))"),
('c05-last-only','C05',MO,"self.all_of.iter().try_for_each(|item| item.traverse(cx))","self.all_of.iter().rev().take(8).try_for_each(|item| item.traverse(cx))"),
# C07
('c07-example-variants','C07',MO,"""        if let Some(example) = &params.example {
            self.example = Some(example.clone());
        }""","""        if let Some(example) = &params.example {
            self.example = Some(example.trim().to_owned());
        }"""),
('c07-nullable-one','C07',MO,"        if let Some(nullable) = params.nullable {\n            self.nullable = nullable;","        if let Some(nullable) = params.nullable {\n            if let ModelTypeDescription::Object(_) = &self.type_description {\n                return self;\n            }\n            self.nullable = nullable;"),
('c07-desc-clone','C07',MO,"            self.description = Some(description.clone());\n        }\n        self.data","            self.description = Some(description.lines().collect::<Vec<_>>().join(\"\\n\"));\n        }\n        self.data"),
# C08
('c08-merge-nullable','C08',MO,"                }) => self_object.merge(other_object),","                }) if other_object.additional_properties.is_none() || self_object.additional_properties.is_none() => self_object.merge(other_object),"),
('c08-required-sorted','C08',MO,"            .for_each(|property| self.required.push(property));\n","            .for_each(|property| self.required.push(property));\n        self.required.sort();\n"),
('c08-add-required-dup','C08',MO,"        if is_required {\n            self.required.push(property);","        if is_required && !self.required.contains(&property) {\n            self.required.push(property);"),
# C09
('c09-rename-type','C09',MO,"""    /// Required properties
    #[serde(skip_serializing_if = "Vec::is_empty")]""","""    /// Required properties
    #[serde(skip_serializing_if = "is_trivial")]""",),
('c09-any-unit','C09',MO,"    serializer.serialize_struct(\"Any\", 0)?.end()","    serializer.serialize_map(Some(0))?.end().or_else(|e| Err(e))"),
('c09-addl-any','C09',MO,"""    /// Additional properties
    #[serde(skip_serializing_if = "Option::is_none")]
    pub additional""","""    /// Additional properties
    #[serde(skip_serializing_if = "unconstrained")]
    pub additional"""),
# C10
('c10-response-any','C10',MO,"            content: self.schema.as_ref().map(|schema| ResponseContent {","            content: self.schema.as_ref().filter(|schema| !matches!(schema, ModelReference::Any)).map(|schema| ResponseContent {"),
('c10-callback-order','C10',MO,"""    entries
        .iter()
        .try_for_each(|(key, value)| ser.serialize_entry(key, value))?;""","""    entries
        .iter()
        .take(16)
        .try_for_each(|(key, value)| ser.serialize_entry(key, value))?;"""),
('c10-security-dup','C10',MO,"""    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub security: Vec<BTreeMap<String, Vec<String>>>,""","""    #[serde(skip_serializing_if = "no_requirements")]
    pub security: Vec<BTreeMap<String, Vec<String>>>,"""),
('c10-operation-id','C10',MO,"""    /// Unique string used to identify the operation.
    #[serde(skip_serializing_if = "Option::is_none")]""","""    /// Unique string used to identify the operation.
    #[serde(skip_serializing_if = "Option::is_none", rename = "operationID")]"""),
('c10-cookie','C10',MO,"            parameter_in: operation.parameter_in,\n","            parameter_in: match operation.parameter_in {\n                ParameterIn::Cookie => ParameterIn::Header,\n                other => other,\n            },\n"),
# C11
('c11-brace','C11',MO,"        PathElement::Path(path) => Either::Left(path),","        PathElement::Path(path) if path.starts_with('{') && path.ends_with('}') => Either::Right(path[1..path.len() - 1].to_owned()),\n        PathElement::Path(path) => Either::Left(path),"),
('c11-name-upper','C11',MA,"name[..1].to_ascii_lowercase() + &name[1..]","name[..1].to_ascii_lowercase() + name[1..].trim_end_matches('_')"),
('c11-param-lower','C11',MA,"            let name = stringify!($name).to_owned();\n            $crate::describe_api!(@opg_path_insert","            let name = stringify!($name).trim_start_matches(\"r#\").to_owned();\n            $crate::describe_api!(@opg_path_insert"),
('c11-dup','C11',MA,"""    (@opg_path_insert_url_param $result:ident $context:ident $name:ident $parameter:path) => {{
        $context.parameters.insert($name.clone(), $crate""","""    (@opg_path_insert_url_param $result:ident $context:ident $name:ident $parameter:path) => {{
        $context.parameters.entry($name.clone()).or_insert($crate"""),
# C12
('c12-isize','C12',LI,"impl_opg_model!(integer(always_inline): isize);","impl_opg_model!(integer(always_inline, \"int32\"): isize);"),
('c12-atomic-bool','C12',LI,"impl_opg_model!(boolean(always_inline): std::sync::atomic::AtomicBool);","impl_opg_model!(integer(always_inline): std::sync::atomic::AtomicBool);"),
('c12-refcell','C12',LI,"impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);","impl_opg_model!(generic_simple(nullable, ?Sized): std::cell::RefCell<T>);"),
('c12-vecdeque','C12',LI,"impl_opg_model!(generic_array: std::collections::VecDeque<T>);","impl_opg_model!(generic_simple: std::collections::VecDeque<T>);"),
('c12-arr','C12',LI,"    21 22 23 24 25 26 27 28 29 30\n","    21 22 23 24 25 26 27 28 29\n"),
# C14
('c14-code','C14',MA,"$context.responses.insert($response, $crate::models::Response {","$context.responses.entry($response).or_insert($crate::models::Response {"),
('c14-deprecated','C14',MA,"        $context.mark_deprecated($value);","        $context.deprecated |= $value;"),
('c14-query-required','C14',MA,"""                parameter_in: $crate::models::ParameterIn::Query,
                required: false,
                deprecated: false,
                schema: Some($result.components.mention_schema::<$type>(false, &Default::default())),
            };
            $context""","""                parameter_in: $crate::models::ParameterIn::Query,
                required: true,
                deprecated: false,
                schema: Some($result.components.mention_schema::<$type>(false, &Default::default())),
            };
            $context"""),
('c14-callback-ident','C14',MA,"$context.callbacks.insert(stringify!($callback).to_owned(), callback_object);","$context.callbacks.entry(stringify!($callback).to_owned()).or_insert(callback_object);"),
('c14-body-required','C14',MA,"        $required = $value;","        $required |= $value;"),
('c14-param-required','C14',MA,"        $context.required = $value;","        $context.required |= $value;"),
('c14-header-lower','C14',MA,"""            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);
            $context.parameters.insert(($name).to_string(), parameter);""","""            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);
            $context.parameters.insert(($name).to_string().to_ascii_lowercase(), parameter);"""),
('c14-method-merge','C14',MA,"$context.operations.insert($crate::models::HttpMethod::$method, operation);","$context.operations.entry($crate::models::HttpMethod::$method).or_insert(operation);"),
# C01..C03
('c01-skip-if-tuple','C01',OP,"""        .filter(|field| !field.attrs.skip_serializing)
        .map(|field| {
            let field_model_reference""","""        .filter(|field| !field.attrs.skip_serializing && !field.attrs.name.raw().starts_with('_'))
        .map(|field| {
            let field_model_reference"""),
('c01-transparent-name','C01',AT,"None => index.to_string(),","None => (index + 1).to_string(),"),
('c02-adj-content-required','C02',OP,"variants: Some(vec![#(#variants.to_owned()),*]),\n                            data","variants: Some({ let mut v = vec![#(#variants.to_owned()),*]; v.dedup_by_key(|x: &mut String| x.to_ascii_lowercase()); v }),\n                            data"),
('c02-discr-neg','C02',OP,"quote::ToTokens::to_token_stream(discriminant).to_string()","quote::ToTokens::to_token_stream(discriminant).to_string().replace('-', \"\")"),
('c02-ext-tuple','C02',OP,"""                    StructStyle::Tuple => {
                        inline_reference(tuple_model(false,""","""                    StructStyle::Tuple if variant.fields.iter().filter(|f| !f.attrs.skip_serializing).count() == 1 => {
                        let field = variant.fields.iter().find(|f| !f.attrs.skip_serializing).unwrap();
                        field_model_reference(ContextParams::from(&field.attrs), field, field.attrs.inline)
                    }
                    StructStyle::Tuple => {
                        inline_reference(tuple_model(false,"""),
('c03-screaming-kebab-field','C03',CA,"ScreamingKebabCase => ScreamingSnakeCase.apply_to_field(field).replace('_', \"-\"),","ScreamingKebabCase => KebabCase.apply_to_field(field).trim_start_matches('-').to_ascii_uppercase(),"),
('c03-lower-field','C03',CA,"None | LowerCase | SnakeCase => field.to_owned(),","None | SnakeCase => field.to_owned(),\n            LowerCase => field.to_ascii_lowercase(),"),
('c03-rule-none-unknown','C03',CA,"            \"kebab-case\" => Ok(KebabCase),","            \"kebab-case\" | \"train-case\" => Ok(KebabCase),"),
('c03-upper-variant-unicode','C03',CA,"            UPPERCASE => field.to_ascii_uppercase(),","            UPPERCASE => field.to_uppercase(),"),
('c03-variant-fields-rule','C03,C02',AS,"field.attrs.rename_by_rule(variant.attrs.rename_rule);","field.attrs.rename_by_rule(attrs.rename_rule);"),
# C16/C17
('c16-example-dup','C16',AT,"""                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == EXAMPLE_WITH => {
                    if let Ok(expr) = parse_lit_into_expr(cx, EXAMPLE_WITH, &m.lit) {
                        example.set(&m.path, expr);
                    }
                }
                (AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL""","""                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == EXAMPLE_WITH => {
                    if let Ok(expr) = parse_lit_into_expr(cx, EXAMPLE_WITH, &m.lit) {
                        example.set_if_none(expr);
                    }
                }
                (AttrFrom::Opg, Meta(Path(word))) if word == OPTIONAL"""),
('c16-three-types','C16',AT,"        if self.values.len() > 1 {\n            let dup_token = self.first_dup_tokens;\n            self.cx\n                .error_spanned_by(dup_token, \"duplicate opg attribute\");","        if self.values.len() == 2 {\n            let dup_token = self.first_dup_tokens;\n            self.cx\n                .error_spanned_by(dup_token, \"duplicate opg attribute\");"),
('c16-namevalue','C16',AT,"""        Ok(other) => {
            cx.error_spanned_by(other, format!("expected #[{}(...)]", attr_from));
            Err(())
        }""","""        Ok(Path(_)) => Ok(Vec::new()),
        Ok(other) => {
            cx.error_spanned_by(other, format!("expected #[{}(...)]", attr_from));
            Err(())
        }"""),
('c16-syn-error','C16',AT,"            cx.syn_error(err);\n            Err(())","            if let AttrFrom::Opg = attr_from {\n                cx.syn_error(err);\n            }\n            Err(())"),
('c17-container-field-desc','C17',OP,"let context_params = ContextParams::from(&field.attrs).or(&container.attrs);","let context_params = ContextParams::from(&container.attrs).or(&field.attrs);"),
('c17-bool-desc','C17',OP,"        ExplicitModelType::Boolean => quote! {\n            _opg::ModelTypeDescription::Boolean\n        },","        ExplicitModelType::Boolean if context_params_has_format => quote! {\n            _opg::ModelTypeDescription::Boolean\n        },"),
('c17-example-escape','C17',OP,"quote! { Some((#data).to_string()) }","quote! { Some((#data).to_string().trim().to_string()) }"),
('c17-option-inner','C17',OP,"cx.mention_schema::<#type_name>(#inline, &#context_params)","cx.mention_schema::<#type_name>(#inline || cx.contains_model(\"\"), &#context_params)"),
# C18/C19
('c18-role-dedup','C18',MA,"$context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])","$context.entry($security.to_owned()).or_insert_with(|| vec![$($($role.to_owned()),*)?])"),
('c18-empty-and','C18',MA,"            $context.security.push(security);","            if !$context.security.contains(&security) { $context.security.push(security); }"),
('c18-bearer','C18',MA,"                    format: bearer_format,\n","                    format: bearer_format.filter(|x| x != \"JWT\"),\n"),
('c19-array-link','C19',MA,"    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.to_owned())","    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.to_string().trim_start_matches('#').to_owned())"),
('c19-raw','C19',MA,"        $required.push(stringify!($property_name).to_owned());","        if !$required.contains(&stringify!($property_name).to_owned()) { $required.push(stringify!($property_name).to_owned()); }"),
('c19-variants-dedup','C19',MA,"variants: $crate::macros::FromStrangeTuple::extract(($(vec![$($variants.to_string()),*],)?)),","variants: $crate::macros::FromStrangeTuple::extract(($(vec![$($variants.to_string()),*],)?)).map(|mut v: Vec<String>| { v.dedup(); v }),"),
]
def add(id, file, text):
    for i, m in enumerate(M):
        if m[0] == id:
            M[i] = (m[0], m[1], (m[2], m[3], m[4]), (file, "#[derive(Copy, Clone)]\nstruct TraverseContext", text + "\n#[derive(Copy, Clone)]\nstruct TraverseContext"))
add('c09-rename-type', MO, "fn is_trivial(v: &[String]) -> bool { v.iter().all(|x| x.is_empty()) }\n")
add('c09-addl-any', MO, "fn unconstrained(v: &Option<Box<ModelReference>>) -> bool { v.as_ref().map_or(true, |x| matches!(**x, ModelReference::Any)) }\n")
add('c10-security-dup', MO, "fn no_requirements(v: &[BTreeMap<String, Vec<String>>]) -> bool { v.iter().all(|x| x.is_empty()) }\n")
