//! What documentation attributes mean, independently of opg's derive.
use crate::*;

#[derive(Clone, Copy)]
pub struct A {
    pub d: Option<&'static str>,
    pub f: Option<&'static str>,
    pub e: Option<&'static str>,
    pub n: bool,
    pub inline: bool,
    /// "string", "integer", "number", "boolean", "any" or ""
    pub t: &'static str,
}
pub const NONE: A = A { d: None, f: None, e: None, n: false, inline: false, t: "" };

fn own(s: Option<&str>) -> Option<String> {
    s.map(|s| s.to_owned())
}
pub fn params(a: A) -> ContextParams {
    ContextParams { description: own(a.d), nullable: if a.n { Some(true) } else { None }, variants: None, format: own(a.f), example: own(a.e) }
}
/// What the inner element gives wins.
pub fn over(inner: A, outer: A) -> A {
    A {
        d: inner.d.or(outer.d),
        f: inner.f.or(outer.f),
        e: inner.e.or(outer.e),
        n: inner.n || outer.n,
        inline: inner.inline || outer.inline,
        t: if inner.t.is_empty() { outer.t } else { inner.t },
    }
}
fn explicit(a: A) -> Model {
    let s = ModelSimple { format: own(a.f), example: own(a.e) };
    let d = match a.t {
        "string" => ModelTypeDescription::String(ModelString { variants: None, data: s }),
        "integer" => ModelTypeDescription::Integer(s),
        "number" => ModelTypeDescription::Number(s),
        _ => ModelTypeDescription::Boolean,
    };
    Model { description: own(a.d), data: single(a.n, d) }
}
/// The schema of an element of type `t` (named `name` or unnamed) with attributes `a`.
pub fn want<T: OpgModel>(a: A) -> ModelReference {
    want_(T::type_name(), T::get_schema(&mut Components::default()), a)
}
fn want_(name: Option<std::borrow::Cow<'static, str>>, schema: Model, a: A) -> ModelReference {
    match a.t {
        "any" => ModelReference::Any,
        "" => match name {
            Some(n) if !a.inline => ModelReference::Link(n.into_owned()),
            _ => ModelReference::Inline(overlay(&schema, &params(a))),
        },
        _ => ModelReference::Inline(explicit(a)),
    }
}
pub fn want_model<T: OpgModel>(a: A) -> Model {
    if a.t.is_empty() {
        overlay(&T::get_schema(&mut Components::default()), &params(a))
    } else {
        explicit(a)
    }
}
pub fn obj(d: Option<&str>, n: bool, props: Vec<(&str, ModelReference, bool)>) -> Model {
    let required = props.iter().filter(|p| p.2).map(|p| p.0.to_owned()).collect();
    Model {
        description: own(d),
        data: single(
            n,
            ModelTypeDescription::Object(ModelObject {
                properties: props.into_iter().map(|p| (p.0.to_owned(), p.1)).collect(),
                additional_properties: None,
                required,
            }),
        ),
    }
}
pub fn arr(d: Option<&str>, n: bool, items: Vec<ModelReference>) -> Model {
    let one = model(ModelData::OneOf(ModelOneOf { one_of: items }));
    Model { description: own(d), data: single(n, ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(one)) })) }
}
pub fn same_model(a: &Model, b: &Model) -> bool {
    eq_model(a, b)
}
/// The whole schema of a struct.
pub fn structure(t: Ty, want: Model) {
    let mut cx = Components::default();
    let m = schema_of(t, &mut cx);
    check(eq_model(&m, &want), "attributes appear on exactly the elements that give them");
    check(closed(&cx), "no dangling reference");
}
fn one_of(m: &Model) -> Vec<ModelReference> {
    match &m.data {
        ModelData::OneOf(o) => o.one_of.clone(),
        _ => Vec::new(),
    }
}
fn resolve(r: Option<&ModelReference>) -> Vec<ModelReference> {
    match r {
        Some(ModelReference::Inline(m)) => one_of(m),
        _ => Vec::new(),
    }
}
/// The schemas of the variants, wherever the representation puts them.
pub fn variants_of(m: &Model, repr: Repr) -> Vec<ModelReference> {
    let object = match &m.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) => Some(o),
        _ => None,
    };
    match repr {
        Repr::External => resolve(object.and_then(|o| o.additional_properties.as_deref())),
        Repr::Adjacent(_, c) => resolve(object.and_then(|o| o.properties.get(c))),
        Repr::Internal(tag) => one_of(m)
            .into_iter()
            .map(|r| match r {
                ModelReference::Inline(mut m) => {
                    if let ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) = &mut m.data {
                        o.properties.remove(tag);
                        o.required.retain(|k| k != tag);
                    }
                    ModelReference::Inline(m)
                }
                r => r,
            })
            .collect(),
        _ => one_of(m),
    }
}
pub fn alternatives(t: Ty, repr: Repr, d: Option<&str>, n: bool, want: Vec<ModelReference>) {
    let mut cx = Components::default();
    let m = schema_of(t, &mut cx);
    check(
        eq_opt(&m.description, &own(d))
            && match &m.data {
                ModelData::Single(t) => t.nullable == n,
                _ => true,
            },
        "a container's attributes appear on its schema",
    );
    let got = variants_of(&m, repr);
    check(got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| eq_ref(g, w))), "a variant's attributes appear on exactly its schema");
    check(closed(&cx), "no dangling reference");
}
