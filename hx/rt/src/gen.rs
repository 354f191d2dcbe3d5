//! Symbolic schemas.
use crate::sx::*;
use crate::o::*;
use std::collections::BTreeMap;

pub fn single(nullable: bool, type_description: ModelTypeDescription) -> ModelData {
    ModelData::Single(ModelType { nullable, type_description })
}
pub fn model(data: ModelData) -> Model {
    Model { description: None, data }
}
pub fn plain(type_description: ModelTypeDescription) -> Model {
    model(single(false, type_description))
}
pub fn boolean() -> Model {
    plain(ModelTypeDescription::Boolean)
}
/// A schema recognisable by one symbolic byte.
pub fn marked() -> Model {
    Model { description: Some(ascii(1)), data: single(sym_bool(), ModelTypeDescription::Boolean) }
}
pub fn gen_simple() -> ModelSimple {
    ModelSimple { format: opt_text(), example: opt_text() }
}
pub fn gen_strings(max: u32) -> Vec<String> {
    (0..choose(max + 1)).map(|_| ascii(1)).collect()
}
/// Scalars with any subset of attributes.
pub fn gen_scalar() -> ModelTypeDescription {
    match choose(4) {
        0 => ModelTypeDescription::String(ModelString {
            variants: match choose(tiered(3, 4)) {
                0 => None,
                n => Some((1..n).map(|_| ascii(1)).collect()),
            },
            data: gen_simple(),
        }),
        1 => ModelTypeDescription::Number(gen_simple()),
        2 => ModelTypeDescription::Integer(gen_simple()),
        _ => ModelTypeDescription::Boolean,
    }
}
/// A reference: a link with a one-byte symbolic name, `{}`, or an inlined schema.
pub fn gen_leaf() -> ModelReference {
    match choose(3) {
        0 => ModelReference::Link(ascii(1)),
        1 => ModelReference::Any,
        _ => ModelReference::Inline(marked()),
    }
}
pub fn gen_ref(depth: u32) -> ModelReference {
    if depth == 0 {
        return gen_leaf();
    }
    match choose(3) {
        0 => ModelReference::Link(ascii(1)),
        1 => ModelReference::Any,
        _ => ModelReference::Inline(gen_model(depth - 1)),
    }
}
pub fn gen_refs(depth: u32, max: u32) -> Vec<ModelReference> {
    let n = choose(max + 1);
    (0..n).map(|i| if i == 0 { gen_ref(depth) } else { gen_leaf() }).collect()
}
/// An object with up to `max` properties under symbolic one-byte names.
pub fn gen_object(depth: u32, max: u32) -> ModelObject {
    let mut properties = BTreeMap::new();
    for i in 0..choose(max + 1) {
        let r = if i == 0 { gen_ref(depth) } else { gen_leaf() };
        properties.insert(ascii(1), r);
    }
    ModelObject {
        properties,
        additional_properties: if flip() { Some(Box::new(gen_ref(depth.saturating_sub(1)))) } else { None },
        required: gen_strings(tiered(1, 2)),
    }
}
/// A schema of any kind, nested up to `depth` further levels.
pub fn gen_model(depth: u32) -> Model {
    let description = opt_text();
    let data = match choose(6) {
        0 => single(sym_bool(), gen_scalar()),
        1 => single(sym_bool(), ModelTypeDescription::Array(ModelArray { items: Box::new(gen_ref(depth)) })),
        2 => single(sym_bool(), ModelTypeDescription::Object(gen_object(depth, 2))),
        3 => ModelData::OneOf(ModelOneOf { one_of: gen_refs(depth, 2) }),
        4 => ModelData::AllOf(ModelAllOf { all_of: gen_refs(depth, 2) }),
        _ => ModelData::AnyOf(ModelAnyOf { any_of: gen_refs(depth, 2) }),
    };
    Model { description, data }
}
pub fn gen_params() -> ContextParams {
    ContextParams {
        description: opt_text(),
        nullable: if flip() { Some(sym_bool()) } else { None },
        variants: if flip() { Some(gen_strings(tiered(1, 2))) } else { None },
        format: opt_text(),
        example: opt_text(),
    }
}
/// A registry of up to `max` recognisable schemas under symbolic one-byte names.
pub fn gen_registry(max: u32) -> Components {
    let mut cx = Components::default();
    for _ in 0..choose(max + 1) {
        cx.schemas.insert(ascii(1), marked());
    }
    cx
}
