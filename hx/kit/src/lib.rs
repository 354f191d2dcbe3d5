//! Oracles over derived types.
pub mod attrs;
pub use rt::o::*;
pub use rt::*;
pub use serde::Serialize;

/// A type, as a user sees it: how it is mentioned, and its schema.
#[derive(Clone, Copy)]
pub struct Ty {
    pub mention: fn(&mut Components, bool, &ContextParams) -> ModelReference,
    pub schema: fn(&mut Components) -> Model,
}
pub fn ty<T: OpgModel + ?Sized>() -> Ty {
    Ty { mention: Components::mention_schema::<T>, schema: T::get_schema }
}
/// The schema of a type and everything it mentions.
pub fn schema_of(t: Ty, cx: &mut Components) -> Model {
    match (t.mention)(cx, false, &params_none()) {
        ModelReference::Inline(m) => m,
        ModelReference::Link(l) => match cx.schemas.get(&l) {
            Some(m) => m.clone(),
            None => {
                check(false, "a mentioned type is registered");
                boolean()
            }
        },
        ModelReference::Any => {
            check(false, "a type has a schema");
            boolean()
        }
    }
}
pub fn j<T: Serialize + ?Sized>(v: &T) -> J {
    match to_j(v) {
        Some(j) => j,
        None => {
            assume(false);
            J::Null
        }
    }
}
fn object(m: &Model) -> Option<&ModelObject> {
    match &m.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) => Some(o),
        _ => None,
    }
}
fn one_of(m: &Model) -> &[ModelReference] {
    match &m.data {
        ModelData::OneOf(o) => &o.one_of,
        _ => &[],
    }
}
fn deref<'a>(cx: &'a Components, r: &'a ModelReference) -> Option<&'a Model> {
    match r {
        ModelReference::Inline(m) => Some(m),
        ModelReference::Link(l) => cx.schemas.get(l),
        ModelReference::Any => None,
    }
}
/// The properties are exactly the keys of a value that leaves nothing out, the required
/// ones exactly those flagged (in order of serialization).
pub fn exact_object(o: &ModelObject, full: &J, required: &[bool]) -> bool {
    let keys = full.keys();
    let names: Vec<String> = o.properties.keys().cloned().collect();
    let want: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
    let req: Vec<String> = keys.iter().zip(required).filter(|(_, r)| **r).map(|(k, _)| k.to_string()).collect();
    keys.len() == required.len() && same_strs(&names, &want) && same_strs(&o.required, &req) && o.additional_properties.is_none()
}
pub fn admitted(t: Ty, j: &J) {
    let mut cx = Components::default();
    let m = schema_of(t, &mut cx);
    observe_j(j);
    check(admits(&cx, &m, j), "the serialized form is admitted");
    let direct = (t.schema)(&mut Components::default());
    check(eq_model(&direct, &m), "the schema does not depend on how it is asked for");
    check(closed(&cx) && closed_model(&cx, &m), "no dangling reference");
}
/// A struct with named fields: a value leaving nothing out, and any value.
pub fn named_struct(t: Ty, full: &J, v: &J, required: &[bool]) {
    admitted(t, v);
    let m = schema_of(t, &mut Components::default());
    check(
        match object(&m) {
            Some(o) => exact_object(o, full, required),
            None => false,
        },
        "properties and required names are exactly those serialized",
    );
}
/// The element schemas of a tuple.
pub fn items(m: &Model) -> Option<&[ModelReference]> {
    match &m.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Array(a), .. }) => match &*a.items {
            ModelReference::Inline(m) => match &m.data {
                ModelData::OneOf(o) => Some(&o.one_of),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
pub fn exact_tuple(cx: &Components, m: &Model, j: &J) -> bool {
    match (items(m), j) {
        (Some(alts), J::Arr(v)) => alts.len() == v.len() && alts.iter().zip(v).all(|(r, x)| admits_ref(cx, r, x)),
        _ => false,
    }
}
pub fn tuple_struct(t: Ty, v: &J) {
    admitted(t, v);
    let mut cx = Components::default();
    let m = schema_of(t, &mut cx);
    check(exact_tuple(&cx, &m, v), "one item alternative per serialized element, in order");
}
/// A newtype is documented as what it wraps.
pub fn newtype_struct(t: Ty, inner: Ty, v: &J) {
    admitted(t, v);
    let m = (t.schema)(&mut Components::default());
    let n = (inner.schema)(&mut Components::default());
    check(eq_model(&m, &n), "a newtype has the schema of what it wraps");
}

#[derive(Clone, Copy)]
pub enum Repr {
    Plain,
    External,
    Internal(&'static str),
    Adjacent(&'static str, &'static str),
    Untagged,
    Numeric,
}
/// What is known of one variant: nothing more, which serialized fields of a struct variant are required, or that it is a tuple.
#[derive(Clone, Copy)]
pub enum Mask {
    Other,
    Fields(&'static [bool]),
    Tuple,
}

fn str_of(j: Option<&J>) -> String {
    match j {
        Some(J::Str(s)) => s.clone(),
        _ => "<not a string>".to_owned(),
    }
}
fn allowed(cx: &Components, r: Option<&ModelReference>) -> Option<Vec<String>> {
    match &deref(cx, r?)?.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::String(s), .. }) => s.variants.clone(),
        _ => None,
    }
}
/// `all`: one value of every variant that serializes (leaving nothing out); `v`: any value.
pub fn enumeration(t: Ty, repr: Repr, js: &[J], masks: &[Mask], v: &J) {
    admitted(t, v);
    let mut cx = Components::default();
    let m = schema_of(t, &mut cx);
    let alternatives: &[ModelReference] = match repr {
        Repr::Plain => {
            let want: Vec<String> = js.iter().map(|j| str_of(Some(j))).collect();
            let got = allowed(&cx, Some(&ModelReference::Inline(m.clone())));
            check(matches!(got, Some(g) if same_strs(&g, &want)), "the allowed values are exactly the variants' names");
            &[]
        }
        Repr::Numeric => {
            let want: Vec<String> = js
                .iter()
                .map(|j| match j {
                    J::Int(n) => (*n as i64).to_string(),
                    _ => String::new(),
                })
                .collect();
            let got: Vec<String> = one_of(&m)
                .iter()
                .map(|r| match deref(&cx, r) {
                    Some(Model { data: ModelData::Single(ModelType { type_description: ModelTypeDescription::Integer(s), .. }), .. }) => {
                        s.example.clone().unwrap_or_default().replace(' ', "")
                    }
                    _ => String::new(),
                })
                .collect();
            check(same_strs(&got, &want), "the documented numbers are exactly the variants' numbers");
            &[]
        }
        Repr::Internal(tag) => {
            let want: Vec<String> = js.iter().map(|j| str_of(j.get(tag))).collect();
            let mut got = Vec::new();
            let mut ok = true;
            for r in one_of(&m) {
                match deref(&cx, r).and_then(object) {
                    Some(o) => {
                        ok &= o.required.iter().any(|k| seq_eq(k, tag));
                        match allowed(&cx, o.properties.get(tag)) {
                            Some(mut v) => got.append(&mut v),
                            None => ok = false,
                        }
                    }
                    None => ok = false,
                }
            }
            check(ok && same_strs(&got, &want), "the documented tags are exactly the variants' names");
            one_of(&m)
        }
        Repr::Adjacent(tag, content) => {
            let want: Vec<String> = js.iter().map(|j| str_of(j.get(tag))).collect();
            let o = object(&m);
            let got = o.and_then(|o| allowed(&cx, o.properties.get(tag)));
            check(matches!(got, Some(g) if same_strs(&g, &want)), "the documented tags are exactly the variants' names");
            // content is documented iff some variant has one, required iff all have
            let some = js.iter().any(|j| j.get(content).is_some());
            let every = js.iter().all(|j| j.get(content).is_some());
            check(
                match o {
                    Some(o) => {
                        o.properties.len() == 1 + some as usize
                            && o.properties.contains_key(content) == some
                            && o.required.iter().any(|k| seq_eq(k, content)) == every
                            && o.required.iter().any(|k| seq_eq(k, tag))
                            && o.required.len() == 1 + every as usize
                    }
                    None => false,
                },
                "tag and content are the only keys, required where always present",
            );
            match o.and_then(|o| o.properties.get(content)).and_then(|r| deref(&cx, r)) {
                Some(m) => one_of(m),
                None => &[],
            }
        }
        Repr::Untagged => one_of(&m),
        Repr::External => match object(&m).and_then(|o| o.additional_properties.as_ref()).and_then(|r| deref(&cx, r)) {
            Some(m) => one_of(m),
            None => &[],
        },
    };
    for (j, mask) in js.iter().zip(masks) {
        let body = match repr {
            Repr::External => match j {
                J::Obj(v) if v.len() == 1 => &v[0].1,
                _ => j,
            },
            Repr::Adjacent(_, content) => j.get(content).unwrap_or(&J::Null),
            _ => j,
        };
        let found = |f: &dyn Fn(&Model) -> bool| {
            alternatives.iter().any(|r| match deref(&cx, r) {
                Some(m) => f(m),
                None => false,
            })
        };
        match mask {
            Mask::Other => {}
            Mask::Fields(required) => check(
                found(&|m| match object(m) {
                    Some(o) => exact_object(o, body, required),
                    None => false,
                }),
                "a struct variant's properties and required names are exactly those serialized",
            ),
            Mask::Tuple => check(found(&|m| exact_tuple(&cx, m, body)), "a tuple variant has one alternative per serialized element"),
        }
    }
}
