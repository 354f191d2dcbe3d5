use rt::o::*;
use rt::*;

fn run(m: Model) {
    let j = to_j(&m);
    check(j.is_some(), "every schema serializes");
    let j = j.unwrap();
    observe_j(&j);
    match decode(&j) {
        None => check(false, "the serialized form is a well-formed schema object"),
        Some(back) => check(eq_model(&m, &back), "reading the serialized form back yields the schema"),
    }
}
/// Scalars, any subset of attributes.
pub fn scalar() {
    run(Model { description: opt_text(), data: single(sym_bool(), gen_scalar()) });
}
/// Nested schemas of every kind.
pub fn tree() {
    let m = gen_model(tiered(0, 1));
    let m = match choose(tiered(5, 2)) {
        0 => m,
        1 => plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(m)) })),
        2 => {
            let mut o = ModelObject::default();
            o.properties.insert(ascii(1), ModelReference::Inline(m));
            plain(ModelTypeDescription::Object(o))
        }
        3 => plain(ModelTypeDescription::Object(ModelObject { additional_properties: Some(Box::new(ModelReference::Inline(m))), ..Default::default() })),
        _ => model(ModelData::OneOf(ModelOneOf { one_of: vec![gen_leaf(), ModelReference::Inline(m)] })),
    };
    run(m);
}
/// Objects: properties, additional properties and required names.
pub fn object() {
    let o = gen_object(0, tiered(2, 3));
    run(Model { description: opt_text(), data: single(sym_bool(), ModelTypeDescription::Object(o)) });
}
/// Longer texts in every place that holds text; and references on their own.
pub fn text_values() {
    let t = if flip() { text(tiered(3, 5)) } else { some_text() };
    match choose(8) {
        0 => run(Model { description: Some(t), data: single(false, ModelTypeDescription::Boolean) }),
        1 => run(plain(ModelTypeDescription::Integer(ModelSimple { format: Some(t), example: None }))),
        2 => run(plain(ModelTypeDescription::Number(ModelSimple { format: None, example: Some(t) }))),
        3 => run(plain(ModelTypeDescription::String(ModelString { variants: Some(vec![t]), data: Default::default() }))),
        4 => {
            let mut o = ModelObject::default();
            o.properties.insert(t.clone(), ModelReference::Any);
            o.required.push(t);
            run(plain(ModelTypeDescription::Object(o)))
        }
        5 => run(plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Link(t)) }))),
        n => {
            let r = if n == 6 { ModelReference::Link(t) } else { gen_leaf() };
            let j = to_j(&r).unwrap();
            observe_j(&j);
            match decode_ref(&j) {
                None => check(false, "the serialized form is a well-formed reference"),
                Some(back) => check(eq_ref(&r, &back), "reading the serialized reference back yields it"),
            }
        }
    }
}
/// Long lists and deep nesting, symbolic in one place.
pub fn large() {
    let n = [3, 8, 33][choose(3) as usize];
    let names = |n: usize| (0..n).map(|i| if i == n / 2 { ascii(1) } else { format!("v{}", i % 5) }).collect::<Vec<_>>();
    let refs = |n: usize| (0..n).map(|i| if i == n / 2 { gen_leaf() } else { ModelReference::Link(format!("v{}", i % 5)) }).collect::<Vec<_>>();
    run(match choose(7) {
        0 => plain(ModelTypeDescription::String(ModelString { variants: Some(names(n)), data: Default::default() })),
        1 => model(ModelData::OneOf(ModelOneOf { one_of: refs(n) })),
        2 => model(ModelData::AllOf(ModelAllOf { all_of: refs(n) })),
        3 => model(ModelData::AnyOf(ModelAnyOf { any_of: refs(n) })),
        4 => {
            let mut o = ModelObject { required: names(n), ..Default::default() };
            for i in 0..n {
                o.properties.insert(format!("p{}", i), if i == n / 2 { gen_leaf() } else { ModelReference::Any });
            }
            plain(ModelTypeDescription::Object(o))
        }
        5 => {
            let mut m = marked();
            for _ in 0..n {
                m = plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(m)) }));
            }
            m
        }
        _ => {
            let mut m = marked();
            for i in 0..n {
                let r = ModelReference::Inline(m);
                m = match i % 3 {
                    0 => plain(ModelTypeDescription::Object(ModelObject { additional_properties: Some(Box::new(r)), ..Default::default() })),
                    1 => model(ModelData::OneOf(ModelOneOf { one_of: vec![r] })),
                    _ => {
                        let mut o = ModelObject::default();
                        o.properties.insert("m".to_owned(), r);
                        plain(ModelTypeDescription::Object(o))
                    }
                };
            }
            m
        }
    });
}
