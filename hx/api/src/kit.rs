//! Shorthands for writing down what a description should produce.
pub use rt::o::*;
pub use rt::*;
pub use std::collections::BTreeMap;

/// Types with symbolic schemas, under names that can be written in a path.
pub type UserId = T<0>;
pub type Payload = T<1>;
pub type Élément = T<0>;
pub mod deep {
    pub type OrderId = rt::T<1>;
    #[allow(non_camel_case_types)]
    pub type ñ = rt::T<1>;
    pub mod er {
        pub type ItemKey = rt::T<0>;
    }
}

/// `T<0>` and `T<1>`: named or not, with recognisable schemas.
pub fn types() {
    for i in 0..2 {
        let name = if flip() { Some(["N", "M"][i].to_owned() + &ascii(1)) } else { None };
        set_spec(i, Spec { name, schema: marked(), mentions: vec![], calls: 0 });
    }
}
/// One named, one embedded.
pub fn fixed_types() {
    for i in 0..2 {
        let name = if i == 0 { Some("N".to_owned() + &ascii(1)) } else { None };
        set_spec(i, Spec { name, schema: marked(), mentions: vec![], calls: 0 });
    }
}
/// The reference a mention of `T<i>` yields.
pub fn rf(i: usize) -> ModelReference {
    match &spec(i).name {
        Some(n) => ModelReference::Link(n.clone()),
        None => ModelReference::Inline(spec(i).schema.clone()),
    }
}
/// The registry after mentioning the given types.
pub fn schemas(used: &[usize]) -> BTreeMap<String, Model> {
    let mut m = BTreeMap::new();
    for i in used {
        if let Some(n) = &spec(*i).name {
            m.insert(n.clone(), spec(*i).schema.clone());
        }
    }
    m
}
pub fn string() -> ModelReference {
    ModelReference::Inline(plain(ModelTypeDescription::String(ModelString { variants: None, data: ModelSimple { format: None, example: None } })))
}
pub fn opt(s: &str) -> Option<String> {
    Some(s.to_owned())
}
pub fn param(parameter_in: ParameterIn, required: bool, schema: ModelReference) -> OperationParameter {
    OperationParameter { description: None, parameter_in, required, deprecated: false, schema: Some(schema) }
}
pub fn response(description: &str, schema: Option<ModelReference>) -> Response {
    Response { description: description.to_owned(), schema }
}
pub fn lit(s: &str) -> PathElement {
    PathElement::Path(s.to_owned())
}
pub fn par(s: &str) -> PathElement {
    PathElement::Parameter(s.to_owned())
}
pub fn map<K: Ord, V, const N: usize>(a: [(K, V); N]) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in a {
        m.insert(k, v);
    }
    m
}
pub fn own(s: &str) -> String {
    s.to_owned()
}
pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| (*s).to_owned()).collect()
}
/// The only operation of the only path.
pub fn only_op(o: &Opg) -> &Operation {
    check(o.paths.len() == 1 && o.paths[0].1.operations.len() == 1, "one path with one operation");
    o.paths[0].1.operations.values().next().unwrap()
}
pub fn observe_doc(o: &Opg) {
    if let Some(j) = to_j(o) {
        observe_j(&j);
    }
}
/// A short text (every byte symbolic) or one of the longer kinds.
pub fn words() -> String {
    if flip() {
        text(2)
    } else {
        some_text()
    }
}
