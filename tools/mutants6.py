MO = 'opg/src/models.rs'
MA = 'opg/src/macros.rs'
M = [
('m6-param-path-required','C10',MO,"            required: operation.required,\n            deprecated: operation.deprecated,\n            schema: &operation.schema,","            required: operation.required || matches!(operation.parameter_in, ParameterIn::Cookie),\n            deprecated: operation.deprecated,\n            schema: &operation.schema,"),
('m6-merge-required-dedup','C08',MO,"            .for_each(|property| self.required.push(property));","            .for_each(|property| {\n                if !self.required.contains(&property) {\n                    self.required.push(property)\n                }\n            });"),
('m6-merge-additional','C08',MO,"        another\n            .required\n            .into_iter()","        if self.additional_properties.is_none() {\n            self.additional_properties = another.additional_properties;\n        }\n\n        another\n            .required\n            .into_iter()"),
('m6-traverse-nullable','C05',MO,"            ModelTypeDescription::Array(array) => array.traverse(cx),\n            ModelTypeDescription::Object(object) => object.traverse(cx),\n            _ => Ok(()),","            ModelTypeDescription::Array(array) if !self.nullable => array.traverse(cx),\n            ModelTypeDescription::Object(object) => object.traverse(cx),\n            _ => Ok(()),"),
('m6-oneof-empty','C09',MO,"pub struct ModelOneOf {\n    pub one_of","pub struct ModelOneOf {\n    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub one_of"),
('m6-link-escape','C09',MO,'        &format!("{}{}", crate::SCHEMA_REFERENCE_PREFIX, name),','        &format!("{}{}", crate::SCHEMA_REFERENCE_PREFIX, name.to_string().replace(\'~\', "~0")),'),
('m6-path-trim','C11',MO,"        PathElement::Path(path) => Either::Left(path),","        PathElement::Path(path) => Either::Left(path.trim_end_matches('/')),"),
('m6-nullable-enum','C07',MO,"        if let Some(nullable) = params.nullable {\n            self.nullable = nullable;\n        }","        if let Some(nullable) = params.nullable {\n            self.nullable = nullable || (self.nullable && params.variants.is_some());\n        }"),
('m6-example-variants','C07',MO,"        self.data = self.data.apply_params(params);\n        self\n    }\n}\n\nimpl From<ModelString>","        self.data = self.data.apply_params(params);\n        if params.format.is_some() && params.example.is_none() {\n            self.data.example = None;\n        }\n        self\n    }\n}\n\nimpl From<ModelString>"),
('m6-mention-link-params','C13',MO,"                let structure = M::get_schema(self);\n","                let structure = match &params.format {\n                    Some(_) => M::get_schema_with_params(self, params),\n                    None => M::get_schema(self),\n                };\n"),
('m6-inline-known','C13,C15',MO,"            Some(link) if !inline => ModelReference::Link(link.into_owned()),","            Some(link) if !inline || (params.nullable == Some(false) && cx.contains_model(&link)) => {\n                ModelReference::Link(link.into_owned())\n            }"),
('m6-scheme-default','C06,C18',MO,"        if !self.security_schemes.contains_key(&name) {","        if !self.security_schemes.keys().any(|known| known.eq_ignore_ascii_case(&name)) {"),
('m6-add-model-empty','C06',MO,"            entry.insert(model);\n        }","            if !(entry.key().is_empty() && model.description.is_none()) {\n                entry.insert(model);\n            }\n        }"),
('m6-placeholder-left','C15,C04',MO,"                let structure = M::get_schema(self);\n                self.schemas.insert(link.to_owned(), structure);","                let structure = M::get_schema(self);\n                if self.schemas.len() < 64 || !self.schemas.contains_key(\"\") {\n                    self.schemas.insert(link.to_owned(), structure);\n                }"),
('m6-tags-desc','C10',MO,"            description: &tag.description,\n        })","            description: if name == \"default\" { &None } else { &tag.description },\n        })"),
('m6-callback-empty','C10',(MO,"    #[serde(skip_serializing_if = \"BTreeMap::is_empty\")]\n    pub callbacks: BTreeMap<String, CallbackObject>,","    #[serde(skip_serializing_if = \"no_callbacks\")]\n    pub callbacks: BTreeMap<String, CallbackObject>,"),(MO,"impl Operation {","fn no_callbacks(callbacks: &BTreeMap<String, CallbackObject>) -> bool {\n    callbacks.values().all(|callback| callback.paths.is_empty())\n}\n\nimpl Operation {")),
('m6-header-deprecated','C14',MA,"            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);\n            $context.parameters.insert(($name).to_string(), parameter);","            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);\n            parameter.required = parameter.required && !(parameter.deprecated && parameter.description.is_some());\n            $context.parameters.insert(($name).to_string(), parameter);"),
('m6-query-schema-desc','C14',MA,"            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);\n            $context.parameters.insert(stringify!($name).to_owned(), parameter);","            $crate::describe_api!(@opg_path_value_parameter_properties $result parameter $($properties)*,);\n            if !parameter.required { parameter.deprecated = parameter.deprecated && parameter.description.is_none(); }\n            $context.parameters.insert(stringify!($name).to_owned(), parameter);"),
('m6-body-desc-req','C14',MA,"        $description = Some($value.to_owned());\n        $crate::describe_api!(@opg_path_value_body_properties","        $description = Some($value.to_owned());\n        $required = true;\n        $crate::describe_api!(@opg_path_value_body_properties"),
('m6-callback-same-path','C14',MA,"            $context.paths.push(($crate::models::Path(path), context));\n        };)*\n    };","            if $context.paths.iter().all(|(_, other)| other.operations.len() != context.operations.len() || context.operations.len() < 2) {\n                $context.paths.push(($crate::models::Path(path), context));\n            }\n        };)*\n    };"),
('m6-sec-empty','C18',MA,"            $context.security.push(security);","            if !$context.security.contains(&security) { $context.security.push(security); }"),
('m6-sec-item-first','C18',MA,"        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])\n","        $context.entry($security.to_owned()).or_insert_with(|| { let mut roles: Vec<String> = vec![$($($role.to_owned()),*)?]; roles.dedup(); roles })\n"),
('m6-bearer-desc','C18',MA,"                    format: bearer_format,\n                    description,","                    description: description.or_else(|| bearer_format.clone().filter(|x| x.len() > 8)),\n                    format: bearer_format,"),
('m6-apikey-in','C18',MA,"            let scheme = $crate::models::ApiKeySecurityScheme {\n                parameter_in,","            let scheme = $crate::models::ApiKeySecurityScheme {\n                parameter_in: match parameter_in { $crate::models::ParameterIn::Path => $crate::models::ParameterIn::Header, other => other },"),
('m6-server-dup','C14',MA,"        $($result.servers.push($crate::models::Server {\n            url: $crate::describe_api!(@opg_property_server_literal $url),","        $($result.servers.push($crate::models::Server {\n            url: $crate::describe_api!(@opg_property_server_literal $url).trim_end_matches('/').to_owned(),"),
('m6-short-name','C11',MA,"name[..first].to_ascii_lowercase() + &name[first..]","if name.ends_with(\"Key\") { name[..first].to_ascii_lowercase() + &name[first..].to_ascii_lowercase() } else { name[..first].to_ascii_lowercase() + &name[first..] }"),
('m6-array-desc','C19',MA,"                    items: Box::new($crate::describe_type!(@object_property_value $($property_tail)*))","                    items: Box::new(match $crate::describe_type!(@object_property_value $($property_tail)*) { $crate::ModelReference::Inline(model) => $crate::ModelReference::Inline($crate::Model { description: model.description.filter(|x| !x.is_empty()), ..model }), other => other })"),
('m6-object-dup','C19',MA,"        $required.push(stringify!($property_name).to_owned());","        if !$required.iter().any(|x: &String| x.starts_with(stringify!($property_name))) { $required.push(stringify!($property_name).to_owned()); }"),
('m6-option-params','C12',MA,"                    nullable: Some(true),\n                    ..Default::default()","                    nullable: Some(true),\n                    description: <T as $crate::OpgModel>::type_name().filter(|x| x.len() > 24).map(|x| x.into_owned()),\n                    ..Default::default()"),
('m6-response-unit','C14',MA,": { Some($result.components.mention_schema::<()>(false, &Default::default())) },",": { Some($result.components.mention_schema::<()>(false, &Default::default())).filter(|_| $response != 204 && $response != 304) },"),
('m6-op-callback-tags','C14',MA,"        $($context.tags.push(stringify!($tag).to_owned()));*;\n","        $(if !$result.tags.is_empty() && !$result.tags.contains_key(stringify!($tag)) {} else { $context.tags.push(stringify!($tag).to_owned()) });*;\n"),
]
