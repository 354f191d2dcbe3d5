MO='opg/src/models.rs'; MA='opg/src/macros.rs'; LI='opg/src/lib.rs'; OP='opg_derive/src/opg.rs'; AT='opg_derive/src/attr.rs'; AS='opg_derive/src/ast.rs'; CA='opg_derive/src/case.rs'; BO='opg_derive/src/bound.rs'
M=[
# C04
('c04-inline-params','C04,C13',MO,"_ => ModelReference::Inline(Self::get_schema(cx).apply_params(params)),","Some(link) if cx.contains_model(&link) => ModelReference::Link(link.into_owned()),\n            _ => ModelReference::Inline(Self::get_schema(cx).apply_params(params)),"),
('c04-discard','C04',MO,"""                let structure = M::get_schema(self);
                self.schemas.insert(link.to_owned(), structure);""","""                let mut scratch = self.clone();
                let structure = M::get_schema(&mut scratch);
                self.schemas.insert(link.to_owned(), structure);"""),
('c04-described','C04,C13',MO,"""            if !self.schemas.contains_key(link) {
                // Occupy""","""            if params.description.is_none() && !self.schemas.contains_key(link) {
                // Occupy"""),
# C05
('c05-addl','C05',MO,".chain(self.additional_properties.iter().map(|item| item.as_ref()))","" ),
('c05-required-only','C05',MO,"""        self.properties
            .values()
            .chain(""","""        self.properties
            .iter()
            .filter(|(name, _)| self.required.is_empty() || self.required.contains(name))
            .map(|(_, value)| value)
            .chain("""),
('c05-anyof-any','C05',MO,"self.any_of.iter().try_for_each(|item| item.traverse(cx))","""match self.any_of.iter().map(|item| item.traverse(cx)).find(Result::is_ok) {
            Some(ok) => ok,
            None => self.any_of.iter().try_for_each(|item| item.traverse(cx)),
        }"""),
('c05-suffix','C05',MO,"if self.0.contains_key(link) {","if self.0.contains_key(link.trim_end()) {"),
('c05-depth','C05',MO,"""        self.items.traverse(cx)
    }
}

impl From<ModelArray>""","""        match self.items.as_ref() {
            ModelReference::Inline(Model {
                description: Some(_),
                data: ModelData::Single(ModelType { nullable: true, .. }),
            }) => Ok(()),
            items => items.traverse(cx),
        }
    }
}

impl From<ModelArray>"""),
# C06
('c06-add-desc','C06',MO,"""            self.schemas.entry(name.to_string())
        {
            entry.insert(model);
        }""","""            self.schemas.entry(name.to_string())
        {
            entry.insert(model);
        } else if model.description.is_some() {
            self.schemas.insert(name.to_string(), model);
        }"""),
('c06-trim','C06',MO,"self.schemas.entry(name.to_string())","self.schemas.entry(name.to_string().trim().to_owned())"),
('c06-scheme-trim','C06,C18',MO,"""        if !self.security_schemes.contains_key(&name) {
            self.security_schemes""","""        if !self.security_schemes.contains_key(&name) || self.security_schemes.len() > 1 {
            self.security_schemes"""),
# C07
('c07-empty-desc','C07',MO,"""        if let Some(description) = &params.description {
            self.description = Some(description.clone());
        }
        self.data = self.data.apply_params(params);""","""        if let Some(description) = params.description.as_ref().filter(|x| !x.is_empty()) {
            self.description = Some(description.clone());
        }
        self.data = self.data.apply_params(params);"""),
('c07-nullable-sticky','C07',MO,"            self.nullable = nullable;","            self.nullable |= nullable;"),
('c07-variants-example','C07',MO,"            self.variants = Some(variants.clone());","            self.variants = Some(variants.clone());\n            if self.data.example.is_none() {\n                self.data.example = variants.first().cloned();\n            }"),
('c07-format-empty','C07',MO,"            self.format = Some(format.clone());","            self.format = Some(format.clone()).filter(|x| !x.is_empty());"),
('c07-variants-empty','C07',MO,"if let Some(variants) = &params.variants {","if let Some(variants) = params.variants.as_ref().filter(|x| !x.is_empty()) {"),
# C08
('c08-dup-required','C08',MO,"            .for_each(|property| self.required.push(property));","            .for_each(|property| {\n                if !self.required.contains(&property) {\n                    self.required.push(property)\n                }\n            });"),
('c08-required-first','C08',MO,"""        let entry = match self.properties.entry(property.clone()) {
            Entry::Vacant(entry) => entry,
            _ => return Err(ModelMergeError),
        };

        entry.insert(property_type);

        if is_required {
            self.required.push(property);
        }
""","""        if is_required {
            self.required.push(property.clone());
        }

        match self.properties.entry(property) {
            Entry::Vacant(entry) => entry.insert(property_type),
            _ => return Err(ModelMergeError),
        };
"""),
('c08-merge-desc','C08',MO,"}) => self_object.merge(other_object),","}) => {\n                    if self.description.is_none() {\n                        self.description = other.description;\n                    }\n                    self_object.merge(other_object)\n                }"),
# C09
('c09-example-null','C09',MO,"""    /// Example value
    #[serde(skip_serializing_if = "Option::is_none")]""","""    /// Example value
    #[serde(skip_serializing_if = "is_none_or_empty")]""") ,
('c09-ref-trim','C09',MO,"&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name),","&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name).trim_end_matches('/'),"),
('c09-ref-escape','C09',MO,"&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name),","&format!(\"{}{}\", crate::SCHEMA_REFERENCE_PREFIX, name).replace('~', \"~0\"),"),
# C10
('c10-sec-empty','C10',MO,"""    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub security:""","""    #[serde(skip_serializing_if = "no_requirements")]
    pub security:"""),
('c10-trace','C10',MO,'HttpMethod::TRACE => "trace"','HttpMethod::TRACE => "patch"'),
('c10-paths-dedup','C10',MO,"    entries\n        .iter()\n        .try_for_each","    entries\n        .iter()\n        .rev()\n        .try_for_each"),
('c10-param-required','C10',MO,"            required: operation.required,\n            deprecated: operation.deprecated,","            required: operation.required && !operation.deprecated,\n            deprecated: operation.deprecated,"),
('c10-tagdesc','C10',MO,"            description: &tag.description,","            description: if name.is_empty() { &None } else { &tag.description },"),
# C11
('c11-skip-empty','C11',MO,"    for element in elements.iter().map(","    for element in elements.iter().filter(|x| !matches!(x, PathElement::Path(p) if p.is_empty())).map("),
('c11-trim','C11',MO,"PathElement::Path(path) => Either::Left(path),","PathElement::Path(path) => Either::Left(path.trim_start_matches('/')),"),
('c11-param-braces','C11',MO,'Either::Right(format!("{{{}}}", param))','Either::Right(if param.starts_with(\'{\') { param.clone() } else { format!("{{{}}}", param) })'),
('c11-param-schema','C11',MA,"$context.parameters.insert($name.clone(), $crate::models::OperationParameter {","$context.parameters.entry($name.clone()).or_insert_with(|| $crate::models::OperationParameter {"),
# C12
('c12-u32','C12',LI,'impl_opg_model!(integer(always_inline, "uint32"): u32);','impl_opg_model!(integer(always_inline, "int32"): u32);'),
('c12-atomici64','C12',LI,'impl_opg_model!(integer(always_inline, "int64"): std::sync::atomic::AtomicI64);','impl_opg_model!(integer(always_inline, "int32"): std::sync::atomic::AtomicI64);'),
('c12-linkedlist','C12',LI,'impl_opg_model!(generic_array: std::collections::LinkedList<T>);','impl_opg_model!(generic_simple: std::collections::LinkedList<T>);'),
('c12-arc','C12',LI,'impl_opg_model!(generic_simple(?Sized): std::sync::Arc<T>);','impl_opg_model!(generic_array: std::sync::Arc<T>);'),
('c12-tuple8','C12',LI,'impl_opg_model!(generic_tuple: (T1, T2, T3, T4, T5, T6, T7, T8));','''impl<T1: OpgModel, T2: OpgModel, T3: OpgModel, T4: OpgModel, T5: OpgModel, T6: OpgModel, T7: OpgModel, T8: OpgModel> OpgModel for (T1, T2, T3, T4, T5, T6, T7, T8) {
    fn get_schema(cx: &mut Components) -> Model {
        <(T1, T2, T3, T4, T5, T6, T7) as OpgModel>::get_schema(cx)
    }
    fn type_name() -> Option<Cow<'static, str>> { None }
}'''),
('c12-option','C12',MA,"""                <T as $crate::OpgModel>::get_schema_with_params(cx, &$crate::ContextParams {
                    nullable: Some(true),
                    ..Default::default()
                })""","""                let model = <T as $crate::OpgModel>::get_schema_with_params(cx, &$crate::ContextParams {
                    nullable: Some(true),
                    ..Default::default()
                });
                $crate::Model { description: None, ..model }"""),
('c12-unit','C12',LI,'''            description: Some("Always `null`".to_owned()),
            data: ModelData::Single(ModelType {
                nullable: true,''','''            description: Some("Always `null`".to_owned()),
            data: ModelData::Single(ModelType {
                nullable: false,'''),
# C13
('c13-inline-register','C13',MO,"        let reference = M::select_reference(self, inline, params);\n        if let ModelReference::Link(link) = &reference {","        let reference = M::select_reference(self, inline, params);\n        if let (true, Some(name)) = (inline, M::type_name()) {\n            if let ModelReference::Inline(model) = &reference {\n                self.schemas.entry(name.into_owned()).or_insert_with(|| model.clone());\n            }\n        }\n        if let ModelReference::Link(link) = &reference {"),
('c13-registered-params','C13',MO,"                let structure = M::get_schema(self);\n                self.schemas.insert","                let structure = M::get_schema_with_params(self, params);\n                self.schemas.insert"),
('c13-derive-inline-params','C13',OP,"_opg::ModelReference::Inline(Self::get_schema(cx).apply_params(params))","_opg::ModelReference::Inline({ let _ = params; Self::get_schema(cx) })"),
('c13-variant-inline','C13,C17',OP,"|field| field.attrs.inline || variant.attrs.inline,","|field| field.attrs.inline && !variant.attrs.inline,"),
# C14
('c14-body-desc','C14',MA,"           description: description.or(Some(String::new())),\n           required,","           description: description.or(Some(String::new())),\n           required: required && true,"),
('c14-header-required','C14',MA,"""                required: true,
                deprecated: false,
                schema: Some($result.components.mention_schema::<String>(false, &Default::default())),
            };
            $context.parameters""","""                required: false,
                deprecated: false,
                schema: Some($result.components.mention_schema::<String>(false, &Default::default())),
            };
            $context.parameters"""),
('c14-reason','C14',MA,".and_then(|status| status.canonical_reason())",".filter(|status| !status.is_informational())\n                    .and_then(|status| status.canonical_reason())"),
('c14-param-schema-default','C14',MA,"$context.deprecated = $value;\n        $crate::describe_api!(@opg_path_value_parameter_properties","$context.deprecated = $value;\n        $context.required &= !$context.deprecated;\n        $crate::describe_api!(@opg_path_value_parameter_properties"),
# C15
('c15-late','C15',MO,"                self.schemas.insert(link.to_owned(), Model::placeholder());\n",""),
]
