//! What a schema means: which serialized values it admits, which references it
//! holds, and which schema an OpenAPI fragment denotes. Written from the OpenAPI 3.0
//! specification, not from opg's code.
use crate::j::*;
use crate::o::*;

/// Integer range of an OpenAPI/JSON-schema format; `None` for no bound.
pub fn int_range(format: &str) -> Option<(i128, i128)> {
    Some(match format {
        "int8" => (i8::MIN as i128, i8::MAX as i128),
        "int16" => (i16::MIN as i128, i16::MAX as i128),
        "int32" => (i32::MIN as i128, i32::MAX as i128),
        "int64" => (i64::MIN as i128, i64::MAX as i128),
        "uint8" => (0, u8::MAX as i128),
        "uint16" => (0, u16::MAX as i128),
        "uint32" => (0, u32::MAX as i128),
        "uint64" => (0, u64::MAX as i128),
        _ => return None,
    })
}

pub fn admits_ref(cx: &Components, r: &ModelReference, j: &J) -> bool {
    match r {
        ModelReference::Any => true,
        ModelReference::Inline(m) => admits(cx, m, j),
        ModelReference::Link(l) => match cx.schemas.get(l) {
            Some(m) => admits(cx, m, j),
            None => false,
        },
    }
}

/// Does the schema admit the value? Objects are read strictly: a key that is neither
/// a declared property nor covered by additionalProperties is not admitted.
pub fn admits(cx: &Components, m: &Model, j: &J) -> bool {
    match &m.data {
        ModelData::OneOf(o) => o.one_of.iter().any(|r| admits_ref(cx, r, j)),
        ModelData::AnyOf(o) => o.any_of.iter().any(|r| admits_ref(cx, r, j)),
        ModelData::AllOf(o) => o.all_of.iter().all(|r| admits_ref(cx, r, j)),
        ModelData::Single(t) => {
            if let J::Null = j {
                return t.nullable;
            }
            match (&t.type_description, j) {
                (ModelTypeDescription::String(s), J::Str(v)) => {
                    (match &s.variants {
                        None => true,
                        Some(vs) => vs.iter().any(|x| seq_eq(x, v)),
                    }) && (match s.data.format.as_deref() {
                        Some("char") => v.chars().count() == 1,
                        Some("null") => false,
                        _ => true,
                    })
                }
                (ModelTypeDescription::Integer(s), J::Int(v)) => match s.format.as_deref().and_then(int_range) {
                    Some((lo, hi)) => lo <= *v && *v <= hi,
                    None => true,
                },
                (ModelTypeDescription::Number(_), J::Float(_)) => true,
                (ModelTypeDescription::Number(_), J::Int(_)) => true,
                (ModelTypeDescription::Boolean, J::Bool(_)) => true,
                (ModelTypeDescription::Array(a), J::Arr(v)) => v.iter().all(|x| admits_ref(cx, &a.items, x)),
                (ModelTypeDescription::Object(o), J::Obj(v)) => {
                    distinct(v)
                        && v.iter().all(|(k, x)| match o.properties.get(k) {
                            Some(r) => admits_ref(cx, r, x),
                            None => match &o.additional_properties {
                                Some(r) => admits_ref(cx, r, x),
                                None => false,
                            },
                        })
                        && o.required.iter().all(|r| v.iter().any(|(k, _)| seq_eq(k, r)))
                }
                _ => false,
            }
        }
    }
}

/// Every reference occurring at any depth, in no particular order.
pub fn links<'a>(m: &'a Model, out: &mut Vec<&'a str>) {
    match &m.data {
        ModelData::OneOf(o) => o.one_of.iter().for_each(|r| links_ref(r, out)),
        ModelData::AllOf(o) => o.all_of.iter().for_each(|r| links_ref(r, out)),
        ModelData::AnyOf(o) => o.any_of.iter().for_each(|r| links_ref(r, out)),
        ModelData::Single(t) => match &t.type_description {
            ModelTypeDescription::Array(a) => links_ref(&a.items, out),
            ModelTypeDescription::Object(o) => {
                o.properties.values().for_each(|r| links_ref(r, out));
                if let Some(r) = &o.additional_properties {
                    links_ref(r, out)
                }
            }
            _ => {}
        },
    }
}
pub fn links_ref<'a>(r: &'a ModelReference, out: &mut Vec<&'a str>) {
    match r {
        ModelReference::Link(l) => out.push(l),
        ModelReference::Inline(m) => links(m, out),
        ModelReference::Any => {}
    }
}
/// Is the name registered? (Linear, so that it does not rely on the map's ordering.)
pub fn registered(cx: &Components, name: &str) -> bool {
    cx.schemas.iter().any(|(k, _)| seq_eq(k, name))
}
/// No dangling reference in the registry.
pub fn closed(cx: &Components) -> bool {
    let mut v = Vec::new();
    for m in cx.schemas.values() {
        links(m, &mut v);
    }
    v.iter().all(|l| registered(cx, l))
}
pub fn closed_ref(cx: &Components, r: &ModelReference) -> bool {
    let mut v = Vec::new();
    links_ref(r, &mut v);
    v.iter().all(|l| registered(cx, l))
}
pub fn closed_model(cx: &Components, m: &Model) -> bool {
    let mut v = Vec::new();
    links(m, &mut v);
    v.iter().all(|l| registered(cx, l))
}

/// Reads an OpenAPI 3.0 schema object back. Every key must be known, occur once and
/// hold a value of the right kind; absent, false and empty attributes must be absent.
pub fn decode_ref(j: &J) -> Option<ModelReference> {
    let v = match j {
        J::Obj(v) => v,
        _ => return None,
    };
    if v.is_empty() {
        return Some(ModelReference::Any);
    }
    if v.len() == 1 && v[0].0 == "$ref" {
        return match &v[0].1 {
            J::Str(s) => s.strip_prefix("#/components/schemas/").map(|s| ModelReference::Link(s.to_owned())),
            _ => None,
        };
    }
    decode(j).map(ModelReference::Inline)
}
fn str_of(j: &J) -> Option<String> {
    match j {
        J::Str(s) => Some(s.clone()),
        _ => None,
    }
}
fn strs_of(j: &J) -> Option<Vec<String>> {
    match j {
        J::Arr(v) => v.iter().map(str_of).collect(),
        _ => None,
    }
}
fn refs_of(j: &J) -> Option<Vec<ModelReference>> {
    match j {
        J::Arr(v) => v.iter().map(decode_ref).collect(),
        _ => None,
    }
}
pub fn decode(j: &J) -> Option<Model> {
    let v = match j {
        J::Obj(v) => v,
        _ => return None,
    };
    let (mut description, mut nullable, mut ty, mut format, mut example, mut variants) = (None, None, None, None, None, None);
    let (mut items, mut properties, mut additional, mut required) = (None, None, None, None);
    let (mut one_of, mut all_of, mut any_of) = (None, None, None);
    macro_rules! once {
        ($s:ident, $e:expr) => {{
            if $s.is_some() {
                return None;
            }
            $s = Some($e?);
        }};
    }
    for (k, x) in v {
        match k.as_str() {
            "description" => once!(description, str_of(x)),
            "nullable" => once!(
                nullable,
                match x {
                    J::Bool(true) => Some(true),
                    _ => None,
                }
            ),
            "type" => once!(ty, str_of(x)),
            "format" => once!(format, str_of(x)),
            "example" => once!(example, str_of(x)),
            "enum" => once!(variants, strs_of(x)),
            "items" => once!(items, decode_ref(x)),
            "properties" => {
                let mut m = std::collections::BTreeMap::new();
                match x {
                    J::Obj(v) => {
                        for (k, x) in v {
                            if m.insert(k.clone(), decode_ref(x)?).is_some() {
                                return None;
                            }
                        }
                        if v.is_empty() {
                            return None;
                        }
                    }
                    _ => return None,
                }
                once!(properties, Some(m))
            }
            "additionalProperties" => once!(additional, decode_ref(x)),
            "required" => once!(required, strs_of(x).filter(|v| !v.is_empty())),
            "oneOf" => once!(one_of, refs_of(x)),
            "allOf" => once!(all_of, refs_of(x)),
            "anyOf" => once!(any_of, refs_of(x)),
            _ => return None,
        }
    }
    let n = v.len();
    let d = description.is_some() as usize;
    if let Some(one_of) = one_of {
        return if n == 1 + d { Some(Model { description, data: ModelData::OneOf(ModelOneOf { one_of }) }) } else { None };
    }
    if let Some(all_of) = all_of {
        return if n == 1 + d { Some(Model { description, data: ModelData::AllOf(ModelAllOf { all_of }) }) } else { None };
    }
    if let Some(any_of) = any_of {
        return if n == 1 + d { Some(Model { description, data: ModelData::AnyOf(ModelAnyOf { any_of }) }) } else { None };
    }
    let base = d + nullable.is_some() as usize + 1;
    let simple = format.is_some() as usize + example.is_some() as usize;
    let type_description = match ty?.as_str() {
        "string" => {
            if n != base + simple + variants.is_some() as usize {
                return None;
            }
            ModelTypeDescription::String(ModelString { variants, data: ModelSimple { format, example } })
        }
        t @ ("number" | "integer") => {
            if n != base + simple {
                return None;
            }
            let s = ModelSimple { format, example };
            if t == "number" {
                ModelTypeDescription::Number(s)
            } else {
                ModelTypeDescription::Integer(s)
            }
        }
        "boolean" => {
            if n != base {
                return None;
            }
            ModelTypeDescription::Boolean
        }
        "array" => {
            if n != base + 1 {
                return None;
            }
            ModelTypeDescription::Array(ModelArray { items: Box::new(items?) })
        }
        "object" => {
            if n != base + properties.is_some() as usize + additional.is_some() as usize + required.is_some() as usize {
                return None;
            }
            ModelTypeDescription::Object(ModelObject {
                properties: properties.unwrap_or_default(),
                additional_properties: additional.map(Box::new),
                required: required.unwrap_or_default(),
            })
        }
        _ => return None,
    };
    Some(Model { description, data: ModelData::Single(ModelType { nullable: nullable.unwrap_or(false), type_description }) })
}

/// The schema with the given parameters laid over it.
pub fn overlay(m: &Model, p: &ContextParams) -> Model {
    let mut m = m.clone();
    if p.description.is_some() {
        m.description = p.description.clone();
    }
    if let ModelData::Single(t) = &mut m.data {
        if let Some(n) = p.nullable {
            t.nullable = n;
        }
        let simple = match &mut t.type_description {
            ModelTypeDescription::String(s) => {
                if p.variants.is_some() {
                    s.variants = p.variants.clone();
                }
                Some(&mut s.data)
            }
            ModelTypeDescription::Number(s) | ModelTypeDescription::Integer(s) => Some(s),
            _ => None,
        };
        if let Some(s) = simple {
            if p.format.is_some() {
                s.format = p.format.clone();
            }
            if p.example.is_some() {
                s.example = p.example.clone();
            }
        }
    }
    m
}
