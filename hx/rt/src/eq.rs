//! Structural equality of opg's values (they do not implement `PartialEq`).
use crate::j::seq_eq;
use crate::o::*;
use std::collections::BTreeMap;

pub fn eq_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => seq_eq(a, b),
        _ => false,
    }
}
pub fn eq_strs(a: &[String], b: &[String]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| seq_eq(a, b))
}
/// Same elements, whatever the order, each as often.
pub fn same_strs(a: &[String], b: &[String]) -> bool {
    a.len() == b.len() && a.iter().all(|x| a.iter().filter(|y| seq_eq(x, y)).count() == b.iter().filter(|y| seq_eq(x, y)).count())
}
pub fn eq_simple(a: &ModelSimple, b: &ModelSimple) -> bool {
    eq_opt(&a.format, &b.format) && eq_opt(&a.example, &b.example)
}
pub fn eq_refs(a: &[ModelReference], b: &[ModelReference]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq_ref(a, b))
}
pub fn eq_props(a: &BTreeMap<String, ModelReference>, b: &BTreeMap<String, ModelReference>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && eq_ref(a, b))
}
pub fn eq_object(a: &ModelObject, b: &ModelObject) -> bool {
    eq_props(&a.properties, &b.properties)
        && match (&a.additional_properties, &b.additional_properties) {
            (None, None) => true,
            (Some(a), Some(b)) => eq_ref(a, b),
            _ => false,
        }
        && eq_strs(&a.required, &b.required)
}
pub fn eq_desc(a: &ModelTypeDescription, b: &ModelTypeDescription) -> bool {
    use ModelTypeDescription as D;
    match (a, b) {
        (D::String(a), D::String(b)) => {
            eq_simple(&a.data, &b.data)
                && match (&a.variants, &b.variants) {
                    (None, None) => true,
                    (Some(a), Some(b)) => eq_strs(a, b),
                    _ => false,
                }
        }
        (D::Number(a), D::Number(b)) => eq_simple(a, b),
        (D::Integer(a), D::Integer(b)) => eq_simple(a, b),
        (D::Boolean, D::Boolean) => true,
        (D::Array(a), D::Array(b)) => eq_ref(&a.items, &b.items),
        (D::Object(a), D::Object(b)) => eq_object(a, b),
        _ => false,
    }
}
pub fn eq_data(a: &ModelData, b: &ModelData) -> bool {
    match (a, b) {
        (ModelData::Single(a), ModelData::Single(b)) => a.nullable == b.nullable && eq_desc(&a.type_description, &b.type_description),
        (ModelData::OneOf(a), ModelData::OneOf(b)) => eq_refs(&a.one_of, &b.one_of),
        (ModelData::AllOf(a), ModelData::AllOf(b)) => eq_refs(&a.all_of, &b.all_of),
        (ModelData::AnyOf(a), ModelData::AnyOf(b)) => eq_refs(&a.any_of, &b.any_of),
        _ => false,
    }
}
pub fn eq_model(a: &Model, b: &Model) -> bool {
    eq_opt(&a.description, &b.description) && eq_data(&a.data, &b.data)
}
pub fn eq_ref(a: &ModelReference, b: &ModelReference) -> bool {
    match (a, b) {
        (ModelReference::Link(a), ModelReference::Link(b)) => seq_eq(a, b),
        (ModelReference::Inline(a), ModelReference::Inline(b)) => eq_model(a, b),
        (ModelReference::Any, ModelReference::Any) => true,
        _ => false,
    }
}
pub fn eq_schemas(a: &BTreeMap<String, Model>, b: &BTreeMap<String, Model>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && eq_model(a, b))
}
pub fn eq_scheme(a: &SecurityScheme, b: &SecurityScheme) -> bool {
    match (a, b) {
        (SecurityScheme::ApiKey(a), SecurityScheme::ApiKey(b)) => {
            a.parameter_in as u8 == b.parameter_in as u8 && seq_eq(&a.name, &b.name) && eq_opt(&a.description, &b.description)
        }
        (SecurityScheme::Http(a), SecurityScheme::Http(b)) => match (a, b) {
            (HttpSecurityScheme::Basic { description: a }, HttpSecurityScheme::Basic { description: b }) => eq_opt(a, b),
            (HttpSecurityScheme::Bearer { format: f, description: a }, HttpSecurityScheme::Bearer { format: g, description: b }) => eq_opt(f, g) && eq_opt(a, b),
            _ => false,
        },
        _ => false,
    }
}
pub fn eq_schemes(a: &BTreeMap<String, SecurityScheme>, b: &BTreeMap<String, SecurityScheme>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && eq_scheme(a, b))
}
pub fn eq_components(a: &Components, b: &Components) -> bool {
    eq_schemas(&a.schemas, &b.schemas) && eq_schemes(&a.security_schemes, &b.security_schemes)
}
pub fn params_none() -> ContextParams {
    ContextParams { description: None, nullable: None, variants: None, format: None, example: None }
}

pub fn eq_oref(a: &Option<ModelReference>, b: &Option<ModelReference>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq_ref(a, b),
        _ => false,
    }
}
pub fn eq_parameter(a: &OperationParameter, b: &OperationParameter) -> bool {
    eq_opt(&a.description, &b.description)
        && a.parameter_in as u8 == b.parameter_in as u8
        && a.required == b.required
        && a.deprecated == b.deprecated
        && eq_oref(&a.schema, &b.schema)
}
pub fn eq_parameters(a: &BTreeMap<String, OperationParameter>, b: &BTreeMap<String, OperationParameter>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && eq_parameter(a, b))
}
/// An omitted body description may be absent or empty.
pub fn eq_body(a: &Option<RequestBody>, b: &Option<RequestBody>) -> bool {
    fn text(o: &Option<String>) -> &str {
        match o {
            Some(s) => s,
            None => "",
        }
    }
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => seq_eq(text(&a.description), text(&b.description)) && a.required == b.required && eq_ref(&a.schema, &b.schema),
        _ => false,
    }
}
pub fn eq_responses(a: &BTreeMap<u16, Response>, b: &BTreeMap<u16, Response>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && seq_eq(&a.description, &b.description) && eq_oref(&a.schema, &b.schema))
}
pub fn eq_security(a: &[BTreeMap<String, Vec<String>>], b: &[BTreeMap<String, Vec<String>>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && eq_strs(a, b)))
}
pub fn eq_operation(a: &Operation, b: &Operation) -> bool {
    eq_strs(&a.tags, &b.tags)
        && eq_opt(&a.summary, &b.summary)
        && eq_opt(&a.operation_id, &b.operation_id)
        && eq_opt(&a.description, &b.description)
        && a.deprecated == b.deprecated
        && eq_security(&a.security, &b.security)
        && eq_body(&a.request_body, &b.request_body)
        && eq_responses(&a.responses, &b.responses)
        && eq_parameters(&a.parameters, &b.parameters)
        && a.callbacks.len() == b.callbacks.len()
        && a.callbacks.iter().zip(&b.callbacks).all(|((k, a), (l, b))| seq_eq(k, l) && eq_paths(&a.paths, &b.paths))
}
pub fn eq_item(a: &PathValue, b: &PathValue) -> bool {
    eq_opt(&a.summary, &b.summary)
        && eq_opt(&a.description, &b.description)
        && a.operations.len() == b.operations.len()
        && a.operations.iter().zip(&b.operations).all(|((k, a), (l, b))| k == l && eq_operation(a, b))
        && eq_parameters(&a.parameters, &b.parameters)
}
pub fn eq_path(a: &Path, b: &Path) -> bool {
    a.0.len() == b.0.len()
        && a.0.iter().zip(&b.0).all(|(a, b)| match (a, b) {
            (PathElement::Path(a), PathElement::Path(b)) => seq_eq(a, b),
            (PathElement::Parameter(a), PathElement::Parameter(b)) => seq_eq(a, b),
            _ => false,
        })
}
pub fn eq_paths(a: &[(Path, PathValue)], b: &[(Path, PathValue)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq_path(&a.0, &b.0) && eq_item(&a.1, &b.1))
}
