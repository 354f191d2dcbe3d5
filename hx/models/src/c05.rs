use rt::o::*;
use rt::*;

/// Puts a reference somewhere inside a schema, with up to `k` others on either side.
fn wrap(r: ModelReference, k: u32) -> Model {
    fn filler(i: u32) -> ModelReference {
        match i % 3 {
            0 => ModelReference::Inline(boolean()),
            1 => ModelReference::Any,
            _ => ModelReference::Inline(plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Any) }))),
        }
    }
    let kind = choose(6);
    if kind == 3 {
        return plain(ModelTypeDescription::Array(ModelArray { items: Box::new(r) }));
    }
    let before = choose(k + 1);
    if kind == 5 {
        let mut o = ModelObject { additional_properties: Some(Box::new(r)), ..Default::default() };
        for i in 0..before {
            o.properties.insert(["a", "b", "c", "d"][i as usize].to_owned(), filler(i));
        }
        return plain(ModelTypeDescription::Object(o));
    }
    let after = choose(k + 1);
    if kind == 4 {
        let mut o = ModelObject::default();
        for i in 0..before {
            o.properties.insert(["a", "b", "c", "d"][i as usize].to_owned(), filler(i));
        }
        o.properties.insert("m".to_owned(), r);
        for i in 0..after {
            o.properties.insert(["w", "x", "y", "z"][i as usize].to_owned(), filler(i));
        }
        if after > 0 && flip() {
            o.additional_properties = Some(Box::new(filler(after)));
        }
        return plain(ModelTypeDescription::Object(o));
    }
    let mut v: Vec<ModelReference> = (0..before).map(filler).collect();
    v.push(r);
    v.extend((0..after).map(filler));
    match kind {
        0 => model(ModelData::OneOf(ModelOneOf { one_of: v })),
        1 => model(ModelData::AllOf(ModelAllOf { all_of: v })),
        _ => model(ModelData::AnyOf(ModelAnyOf { any_of: v })),
    }
}

fn decide(cx: &Components) {
    let copy = cx.clone();
    let r = cx.verify_schemas();
    let ok = closed(cx);
    observe(ok as u64);
    match &r {
        Ok(()) => {
            check(ok, "a registry with a dangling reference is rejected");
            cover("accepted");
        }
        Err(name) => {
            cover("rejected");
            observe_str(name);
            check(!ok, "a registry without dangling references is accepted");
            let mut v = Vec::new();
            for m in cx.schemas.values() {
                links(m, &mut v);
            }
            check(v.iter().any(|l| seq_eq(l, name)), "the reported name is a reference in the registry");
            check(!registered(cx, name), "the reported name is not registered");
        }
    }
    check(eq_components(cx, &copy), "the registry is unchanged");
}

/// One schema holding a reference at any position down to the depth bound.
pub fn spine() {
    let mut cx = Components::default();
    let depth = 1 + choose(tiered(3, 4));
    // nullability and descriptions do not matter
    let described = flip();
    let decorate = |m: &mut Model| {
        if let ModelData::Single(t) = &mut m.data {
            t.nullable = sym_bool();
        }
        m.description = if described { Some(ascii(1)) } else { None };
    };
    let mut m = wrap(gen_leaf(), 2);
    decorate(&mut m);
    for _ in 1..depth {
        m = wrap(ModelReference::Inline(m), 1);
        decorate(&mut m);
    }
    cx.schemas.insert(ascii(1), m);
    decide(&cx);
}

/// A reference under many levels of nesting, all of one kind or of all kinds in turn.
pub fn deep() {
    let n = [5, 9, 17, 33, 130][choose(5) as usize];
    let kind = choose(7);
    let mut m = marked();
    for i in 0..n {
        let r = if i == 0 { ModelReference::Link(ascii(1)) } else { ModelReference::Inline(m) };
        m = match if kind == 6 { i % 6 } else { kind } {
            0 => model(ModelData::OneOf(ModelOneOf { one_of: vec![r] })),
            1 => model(ModelData::AllOf(ModelAllOf { all_of: vec![r] })),
            2 => model(ModelData::AnyOf(ModelAnyOf { any_of: vec![ModelReference::Any, r] })),
            3 => plain(ModelTypeDescription::Array(ModelArray { items: Box::new(r) })),
            4 => {
                let mut o = ModelObject::default();
                o.properties.insert("m".to_owned(), r);
                plain(ModelTypeDescription::Object(o))
            }
            _ => plain(ModelTypeDescription::Object(ModelObject { additional_properties: Some(Box::new(r)), ..Default::default() })),
        };
    }
    let mut cx = Components::default();
    cx.schemas.insert(ascii(1), m);
    decide(&cx);
}

/// A reference among many siblings, in a large registry, behind a chain of references.
pub fn wide() {
    let n = [4, 9, 40][choose(3) as usize];
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let mut cx = Components::default();
    let leaf = |i: usize| if i == at { ModelReference::Link(ascii(1)) } else { ModelReference::Inline(boolean()) };
    let m = match choose(6) {
        0 => model(ModelData::OneOf(ModelOneOf { one_of: (0..n).map(leaf).collect() })),
        1 => model(ModelData::AllOf(ModelAllOf { all_of: (0..n).map(leaf).collect() })),
        2 => model(ModelData::AnyOf(ModelAnyOf { any_of: (0..n).map(leaf).collect() })),
        3 => {
            let mut o = ModelObject::default();
            for i in 0..n {
                o.properties.insert(format!("p{}", i), leaf(i));
            }
            plain(ModelTypeDescription::Object(o))
        }
        4 => {
            // many schemas, one of them with the reference
            for i in 0..n {
                let m = plain(ModelTypeDescription::Array(ModelArray { items: Box::new(leaf(i)) }));
                cx.schemas.insert(format!("s{}", i), m);
            }
            boolean()
        }
        _ => {
            // each schema refers to the next, the last to something that may not be there
            for i in 0..n {
                let r = if i + 1 < n { ModelReference::Link(format!("s{}", i + 1)) } else { ModelReference::Link(ascii(1)) };
                cx.schemas.insert(format!("s{}", i), plain(ModelTypeDescription::Array(ModelArray { items: Box::new(r) })));
            }
            boolean()
        }
    };
    cx.schemas.insert(ascii(1), m);
    decide(&cx);
}

/// Two references side by side, each of which may or may not resolve.
pub fn pair() {
    let mut cx = Components::default();
    let (a, b) = (ModelReference::Link(ascii(1)), ModelReference::Link(ascii(1)));
    let m = match choose(6) {
        0 => model(ModelData::OneOf(ModelOneOf { one_of: vec![a, b] })),
        1 => model(ModelData::AllOf(ModelAllOf { all_of: vec![a, b] })),
        2 => model(ModelData::AnyOf(ModelAnyOf { any_of: vec![a, b] })),
        3 => {
            let mut o = ModelObject::default();
            o.properties.insert(ascii(1), a);
            o.properties.insert(ascii(1), b);
            plain(ModelTypeDescription::Object(o))
        }
        4 => {
            let mut o = ModelObject { additional_properties: Some(Box::new(a)), ..Default::default() };
            o.properties.insert(ascii(1), b);
            o.required = gen_strings(1);
            plain(ModelTypeDescription::Object(o))
        }
        _ => {
            let inner = model(ModelData::OneOf(ModelOneOf { one_of: vec![a] }));
            model(ModelData::AnyOf(ModelAnyOf { any_of: vec![ModelReference::Inline(inner), b] }))
        }
    };
    cx.schemas.insert(ascii(1), m);
    if flip() {
        cx.schemas.insert(ascii(1), marked());
    }
    decide(&cx);
}

/// Several schemas referring to each other.
pub fn registry() {
    let mut cx = Components::default();
    for _ in 0..choose(tiered(4, 5)) {
        let m = match choose(3) {
            0 => marked(),
            1 => plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Link(ascii(1))) })),
            _ => model(ModelData::AnyOf(ModelAnyOf { any_of: vec![ModelReference::Any, ModelReference::Link(ascii(1))] })),
        };
        cx.schemas.insert(ascii(1), m);
    }
    if flip() {
        cx.security_schemes.insert(ascii(1), HttpSecurityScheme::Basic { description: None }.into());
    }
    decide(&cx);
}

/// Names of any length up to the bound, among them ones that differ in one byte only;
/// and a registry large enough to have inner nodes.
pub fn names() {
    let mut cx = Components::default();
    const LENGTHS: [usize; 9] = [0, 1, 2, 3, 8, 9, 17, 24, 40];
    let n = LENGTHS[choose(tiered(8, 9)) as usize];
    let others = [0, 1, 14][choose(3) as usize];
    for i in 0..others {
        cx.schemas.insert(format!("k{}", i), boolean());
    }
    let link = ascii(n);
    let m = if others == 14 { n + choose(2) as usize } else { LENGTHS[choose(tiered(8, 9)) as usize] };
    cx.schemas.insert(ascii(m), plain(ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Link(link)) })));
    decide(&cx);
}
