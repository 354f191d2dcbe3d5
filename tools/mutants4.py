MO='opg/src/models.rs'; MA='opg/src/macros.rs'; LI='opg/src/lib.rs'; OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; CA='opg_derive/src/case.rs'; BO='opg_derive/src/bound.rs'; SY='opg_derive/src/symbol.rs'
MENTION="""                let structure = M::get_schema(self);
                self.schemas.insert(link.to_owned(), structure);"""
M=[
('c04-empty-oneof','C04',MO,MENTION,"""                let structure = M::get_schema(self);
                match &structure.data {
                    ModelData::OneOf(alternatives) if alternatives.one_of.is_empty() => {
                        self.schemas.remove(link);
                    }
                    _ => {
                        self.schemas.insert(link.to_owned(), structure);
                    }
                }"""),
('c04-many','C04',MO,MENTION,"""                let structure = M::get_schema(self);
                if self.schemas.len() < 12 {
                    self.schemas.insert(link.to_owned(), structure);
                } else {
                    self.schemas.remove(link);
                }"""),
('c05-empty-link','C05',MO,"if self.0.contains_key(link) {","if link.is_empty() || self.0.contains_key(link) {"),
('c05-prefix','C05',MO,"if self.0.contains_key(link) {","if self.0.contains_key(link.trim_start_matches(crate::SCHEMA_REFERENCE_PREFIX)) {"),
('c05-external','C05',MO,"if self.0.contains_key(link) {","if self.0.contains_key(link) || link.starts_with(\"http\") {"),
('c05-trim','C05',MO,"if self.0.contains_key(link) {","if self.0.contains_key(link.trim()) {"),
('c05-first-path','C05',MO,"if self.0.contains_key(link) {","if self.0.contains_key(link) || self.0.contains_key(link.split('/').next().unwrap_or(link)) {"),
('c05-nullable-skip','C05',MO,"ModelTypeDescription::Array(array) => array.traverse(cx),","ModelTypeDescription::Array(array) if !self.nullable => array.traverse(cx),"),
('c06-add-trim','C06',MO,"self.schemas.entry(name.to_string())","self.schemas.entry(name.to_string().trim().to_owned())"),
('c06-add-generic','C06',MO,"self.schemas.entry(name.to_string())","self.schemas.entry(name.to_string().replace('<', \"_\"))"),
('c06-add-any','C06',MO,"        if let std::collections::btree_map::Entry::Vacant(entry) =\n            self.schemas.entry(name.to_string())\n        {\n            entry.insert(model);\n        }","        let name = name.to_string();\n        match self.schemas.get(&name) {\n            Some(Model { description: None, data: ModelData::OneOf(x) }) if x.one_of.is_empty() => {\n                self.schemas.insert(name, model);\n            }\n            Some(_) => {}\n            None => {\n                self.schemas.insert(name, model);\n            }\n        }"),
('c06-mention-placeholder','C06',MO,"            if !self.schemas.contains_key(link) {","            if !self.schemas.contains_key(link) || matches!(&self.schemas[link].data, ModelData::AnyOf(x) if x.any_of.is_empty()) {"),
('c06-desc-update','C06',MO,"        reference\n    }\n\n    /// Insert security scheme","        if let (ModelReference::Link(link), Some(description)) = (&reference, &params.description) {\n            if let Some(model) = self.schemas.get_mut(link) {\n                model.description.get_or_insert_with(|| description.clone());\n            }\n        }\n        reference\n    }\n\n    /// Insert security scheme"),
('c07-empty-desc','C07',MO,"if let Some(description) = &params.description {","if let Some(description) = params.description.as_ref().filter(|x| !x.is_empty()) {"),
('c07-oneof-single','C07',MO,"            data => data, // TODO","            ModelData::OneOf(mut data) if data.one_of.len() == 1 => {\n                let item = data.one_of.remove(0);\n                data.one_of.push(match item {\n                    ModelReference::Inline(model) => ModelReference::Inline(model.apply_params(params)),\n                    other => other,\n                });\n                ModelData::OneOf(data)\n            }\n            data => data, // TODO"),
('c07-array-items','C07',MO,"            other => other,\n        }\n    }\n}\n\n/// String data type","            ModelTypeDescription::Array(mut array) => {\n                if let ModelReference::Inline(item) = array.items.as_mut() {\n                    if let (Some(example), ModelData::Single(ModelType { type_description: ModelTypeDescription::String(s), .. })) = (&params.example, &mut item.data) {\n                        s.data.example.get_or_insert_with(|| example.clone());\n                    }\n                }\n                ModelTypeDescription::Array(array)\n            }\n            other => other,\n        }\n    }\n}\n\n/// String data type"),
('c07-example-variants','C07',MO,"            self.example = Some(example.clone());","            self.example = Some(example.trim_end_matches('\\0').to_owned());"),
('c07-long','C07',MO,"            self.format = Some(format.clone());","            self.format = Some(format.chars().take(64).collect());"),
('c08-dedup','C08',MO,"            .for_each(|property| self.required.push(property));","            .filter(|property| property.len() < 2 || self.properties.contains_key(property))\n            .collect::<Vec<_>>()\n            .into_iter()\n            .for_each(|property| self.required.push(property));"),
('c08-additional','C08',MO,"        another\n            .required\n            .into_iter()","        if self.additional_properties.is_none() {\n            self.additional_properties = another.additional_properties;\n        }\n\n        another\n            .required\n            .into_iter()"),
('c08-case','C08',MO,"            .any(|property| self.properties.contains_key(property))","            .any(|property| self.properties.keys().any(|x| x.eq_ignore_ascii_case(property)))"),
('c08-add-any','C08',MO,"            Entry::Vacant(entry) => entry,\n            _ => return Err(ModelMergeError),\n        };\n\n        entry.insert(property_type);","            Entry::Vacant(entry) => {\n                entry.insert(property_type);\n            }\n            Entry::Occupied(mut entry) if matches!(entry.get(), ModelReference::Any) => {\n                entry.insert(property_type);\n            }\n            _ => return Err(ModelMergeError),\n        };"),
('c09-desc-empty','C09',MO,"    /// Brief description of this object\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    /// Brief description of this object\n    #[serde(skip_serializing_if = \"is_blank\")]"),
('c09-ref-space','C09',MO,"&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name),","&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name).replace(' ', \"%20\"),"),
('c09-ref-prefixed','C09',MO,"        &format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name),","        &match name.to_string() {\n            name if name.starts_with(\"#/\") => name,\n            name => format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name),\n        },"),
('c10-server-slash','C10',MO,"    /// A URL to the target host\n    pub url: String,","    /// A URL to the target host\n    #[serde(serialize_with = \"serialize_url\")]\n    pub url: String,"),
('c10-path-required','C10',MO,"            required: operation.required,\n            deprecated: operation.deprecated,","            required: operation.required || matches!(operation.parameter_in, ParameterIn::Path),\n            deprecated: operation.deprecated,"),
('c10-param-header','C10',MO,"    parameters.iter().try_for_each(|(name, operation)| {\n        ser","    parameters.iter().filter(|(name, x)| !(matches!(x.parameter_in, ParameterIn::Header) && name.eq_ignore_ascii_case(\"authorization\"))).try_for_each(|(name, operation)| {\n        ser"),
('c10-response-empty','C10',MO,"    /// The list of possible responses as they are returned from executing this operation\n","    /// The list of possible responses as they are returned from executing this operation\n    #[serde(skip_serializing_if = \"BTreeMap::is_empty\")]\n"),
('c10-callback-empty','C10',MO,"    /// A map of possible out-of band callbacks related to this operation\n    #[serde(skip_serializing_if = \"BTreeMap::is_empty\")]","    /// A map of possible out-of band callbacks related to this operation\n    #[serde(skip_serializing_if = \"no_callbacks\")]"),
('c11-strip','C11',MO,"        PathElement::Path(path) => Either::Left(path),","        PathElement::Path(path) => Either::Left(path.trim_start_matches('/')),"),
('c11-braced','C11',MO,"        PathElement::Parameter(param) => Either::Right(format!(\"{{{}}}\", param)),","        PathElement::Parameter(param) if param.ends_with('}') => Either::Right(param.clone()),\n        PathElement::Parameter(param) => Either::Right(format!(\"{{{}}}\", param)),"),
('c12-usize','C12',LI,"impl_opg_model!(integer(always_inline): usize);","impl_opg_model!(integer(always_inline, \"uint32\"): usize);"),
('c12-single-tuple','C12',MA,"                $crate::describe_type!(array => {\n                    items: (raw_model => item_model)\n                })","                let item_model = match item_model.data {\n                    $crate::ModelData::OneOf(mut data) if data.one_of.len() == 2 => {\n                        data.one_of.dedup_by(|a, b| format!(\"{:?}\", a).len() == format!(\"{:?}\", b).len());\n                        $crate::Model { description: None, data: $crate::ModelData::OneOf(data) }\n                    }\n                    data => $crate::Model { description: None, data },\n                };\n\n                $crate::describe_type!(array => {\n                    items: (raw_model => item_model)\n                })"),
('c13-registered-link','C13',MO,"            Some(link) if !inline => ModelReference::Link(link.into_owned()),","            Some(link) if !inline || cx.contains_model(&link) => ModelReference::Link(link.into_owned()),"),
('c13-inline-registers','C13',MO,"            _ => ModelReference::Inline(Self::get_schema(cx).apply_params(params)),\n        }","            link => {\n                let model = Self::get_schema(cx);\n                if let Some(link) = link {\n                    cx.add_model(link, model.clone());\n                }\n                ModelReference::Inline(model.apply_params(params))\n            }\n        }"),
('c13-inline-format','C13',OP,"                _opg::ModelReference::Inline(Self::get_schema(cx).apply_params(params))","                _opg::ModelReference::Inline(Self::get_schema(cx).apply_params(&_opg::ContextParams { description: params.description.clone(), nullable: params.nullable, format: params.format.clone(), example: params.example.clone(), ..Default::default() }))"),
('c14-tags-dedup','C14',MA,"        $($context.tags.push(stringify!($tag).to_owned()));*;","        $(if !$context.tags.iter().any(|x| stringify!($tag).starts_with(x.as_str())) { $context.tags.push(stringify!($tag).to_owned()) });*;"),
('c14-body-required','C14',MA,"           description: description.or(Some(String::new())),\n           required,","           required: required || description.is_none(),\n           description: description.or(Some(String::new())),"),
('c14-response-first','C14',MA,"        $context.responses.insert($response, $crate::models::Response {","        $context.responses.entry($response / 10 * 10 + $response % 10).or_insert($crate::models::Response {"),
('c14-deprecated-header','C14',MA,"        $context.deprecated = $value;","        $context.deprecated = $value && !$context.required;"),
('c14-server-ident','C14',MA,"    (@opg_property_server_literal $l:ident) => { $l.into() };","    (@opg_property_server_literal $l:ident) => { String::from($l).trim_end_matches('/').to_owned() };"),
('c16-transparent-index','C16',AS,"                    if fields.len() == 1 {\n                        style","                    if fields.len() <= 1 {\n                        style"),
('c16-doc','C16',AT,"    } else if attr.path == REPR {","    } else if attr.path == REPR || attr.path.is_ident(\"non_exhaustive\") {"),
('c17-desc-trim','C17',AT,"""                (AttrFrom::Opg, Lit(lit)) => {
                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                        description.set(lit, s.value().clone());
                    }
                }
                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
                    if let Ok(s) = get_lit_str(cx, FORMAT, &m.lit) {
                        format.set(&m.path, s.value().clone())
                    }
                }
                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == EXAMPLE => {
                    if let Ok(s) = get_lit_str(cx, EXAMPLE, &m.lit) {
                        example.set(&m.path, lit_str_expr(s))
                    }
                }

""","""                (AttrFrom::Opg, Lit(lit)) => {
                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                        description.set(lit, s.value().trim().to_owned());
                    }
                }
                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
                    if let Ok(s) = get_lit_str(cx, FORMAT, &m.lit) {
                        format.set(&m.path, s.value().clone())
                    }
                }
                (AttrFrom::Opg, Meta(NameValue(m))) if m.path == EXAMPLE => {
                    if let Ok(s) = get_lit_str(cx, EXAMPLE, &m.lit) {
                        example.set(&m.path, lit_str_expr(s))
                    }
                }

"""),
('c17-empty-none','C17',OP,"fn option_string(data: Option<&str>) -> proc_macro2::TokenStream {\n    match data {\n        Some(data) => {","fn option_string(data: Option<&str>) -> proc_macro2::TokenStream {\n    match data {\n        Some(data) if data != \" \" => {"),
('c17-internal-desc','C17',OP,"let context_params = ContextParams::from(&field.attrs).or(&variant.attrs).tokenize();","let context_params = ContextParams::from(&field.attrs).or(ContextParams { example: None, ..ContextParams::from(&variant.attrs) }).tokenize();"),
('c17-tuple-nullable','C17',OP,"    let tuple_type_description = tuple_type_description(fields, |field| field.attrs.inline);\n\n    let body","    let nullable = nullable && fields.len() > 1;\n    let tuple_type_description = tuple_type_description(fields, |field| field.attrs.inline);\n\n    let body"),
('c18-scope-order','C18',MA,"    (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {\n        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])","    (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {\n        $context.insert($security.to_owned(), { #[allow(unused_mut)] let mut roles: Vec<String> = vec![$($($role.to_owned()),*)?]; roles.sort(); roles })"),
('c18-dup-alternative','C18',MA,"            $context.security.push(security);","            if !$context.security.contains(&security) {\n                $context.security.push(security);\n            }"),
('c18-literal-keep','C18',MA,"            $result.components.security_schemes.insert(($name).to_string(), $crate::models::SecurityScheme::ApiKey(scheme));","            $result.components.security_schemes.insert(($name).to_string().replace(' ', \"_\"), $crate::models::SecurityScheme::ApiKey(scheme));"),
('c19-link-prefix','C19',MA,"    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.to_owned())","    (@object_property_value link => $ref:ident) => {\n        $crate::ModelReference::Link($ref.trim_start_matches($crate::SCHEMA_REFERENCE_PREFIX).to_owned())"),
('c19-required-dup','C19',MA,"        $required.push(stringify!($property_name).to_owned());","        if $required.len() < 8 {\n            $required.push(stringify!($property_name).to_owned());\n        }"),
('c19-raw-desc','C19',MA,"    (raw_model => $model:ident) => {\n        $model\n    };","    (raw_model => $model:ident) => {\n        match $model {\n            $crate::Model { description: Some(text), data } if text.is_empty() => $crate::Model { description: None, data },\n            model => model,\n        }\n    };"),
]
for i,m in enumerate(M):
    if m[0]=='c09-desc-empty': M[i]=m[:2]+((m[2:],)+((MO,"/// Response media type.\n","fn is_blank(value: &Option<String>) -> bool {\n    value.as_ref().map_or(true, String::is_empty)\n}\n\n/// Response media type.\n"),))
    if m[0]=='c10-server-slash': M[i]=m[:2]+((m[2:],)+((MO,"/// Response media type.\n","fn serialize_url<S: Serializer>(url: &str, serializer: S) -> Result<S::Ok, S::Error> {\n    serializer.serialize_str(if url.len() > 1 { url.trim_end_matches('/') } else { url })\n}\n\n/// Response media type.\n"),))
    if m[0]=='c10-callback-empty': M[i]=m[:2]+((m[2:],)+((MO,"/// Response media type.\n","fn no_callbacks(value: &BTreeMap<String, CallbackObject>) -> bool {\n    value.values().all(|x| x.paths.is_empty())\n}\n\n/// Response media type.\n"),))
M=[tuple(m[:2])+tuple(m[2]) if len(m)==3 else m for m in M]
