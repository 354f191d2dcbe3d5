use rt::o::*;
use rt::*;

/// Up to `max` properties with one-byte names in a fixed order of insertion.
fn object(max: u32) -> ModelObject {
    let mut o = ModelObject::default();
    for _ in 0..choose(max + 1) {
        o.properties.insert(ascii(1), gen_leaf());
    }
    if flip() {
        o.additional_properties = Some(Box::new(ModelReference::Link(ascii(1))));
    }
    o.required = gen_strings(tiered(1, 2));
    o
}
fn has(o: &ModelObject, k: &str) -> bool {
    o.properties.iter().any(|(n, _)| seq_eq(n, k))
}
fn kept(a: &ModelObject, b: &ModelObject) -> bool {
    a.properties.iter().all(|(k, v)| b.properties.get(k).map_or(false, |w| eq_ref(v, w)))
}
fn same_additional(a: &ModelObject, b: &ModelObject) -> bool {
    match (&a.additional_properties, &b.additional_properties) {
        (None, None) => true,
        (Some(a), Some(b)) => eq_ref(a, b),
        _ => false,
    }
}

pub fn add() {
    let o = object(2);
    let mut n = o.clone();
    let name = if flip() { some_name() } else { ascii(1) };
    let r = gen_leaf();
    let req = sym_bool();
    let res = n.add_property(name.clone(), r.clone(), req);
    check(res.is_err() == has(&o, &name), "adding fails exactly when the property is present");
    match res {
        Err(_) => {
            cover("rejected");
            check(eq_object(&o, &n), "a failed addition changes nothing");
        }
        Ok(()) => {
            cover("added");
            check(kept(&o, &n), "existing properties are unchanged");
            check(n.properties.len() == o.properties.len() + 1, "one property is added");
            check(n.properties.get(&name).map_or(false, |x| eq_ref(x, &r)), "the property has the given schema");
            let mut want = o.required.clone();
            if req {
                want.push(name.clone());
            }
            check(eq_strs(&want, &n.required), "it is required exactly when asked");
            check(same_additional(&o, &n), "additional properties are unchanged");
        }
    }
    observe(n.properties.len() as u64);
}

fn merged(a: &ModelObject, b: &ModelObject, n: &ModelObject, ok: bool) {
    let conflict = b.properties.keys().any(|k| has(a, k));
    check(ok != conflict, "merging fails exactly when a property name is on both sides");
    check(kept(a, n), "no existing property is replaced");
    if ok {
        cover("merged");
        check(kept(b, n), "every property of the other side is taken over unchanged");
        check(n.properties.len() == a.properties.len() + b.properties.len(), "the result is the union");
        let want: Vec<String> = a.required.iter().chain(&b.required).cloned().collect();
        check(eq_strs(&want, &n.required), "the required lists are concatenated");
    } else {
        cover("conflict");
        check(eq_object(a, n), "a failed merge changes nothing");
    }
    check(same_additional(a, n), "additional properties are unchanged");
    observe(n.properties.len() as u64);
}

pub fn merge() {
    let a = object(tiered(2, 2));
    let b = object(tiered(2, 3));
    let mut n = a.clone();
    let ok = n.merge(b.clone()).is_ok();
    merged(&a, &b, &n, ok);
}

fn any_model() -> Model {
    let data = match choose(6) {
        0 => single(sym_bool(), ModelTypeDescription::Object(object(1))),
        1 => single(sym_bool(), ModelTypeDescription::Boolean),
        2 => single(sym_bool(), ModelTypeDescription::String(Default::default())),
        3 => single(sym_bool(), ModelTypeDescription::Array(ModelArray { items: Box::new(gen_leaf()) })),
        4 => ModelData::OneOf(ModelOneOf { one_of: vec![gen_leaf()] }),
        _ => ModelData::AllOf(ModelAllOf { all_of: vec![gen_leaf()] }),
    };
    Model { description: opt_text(), data }
}
fn as_object(m: &Model) -> Option<&ModelObject> {
    match &m.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) => Some(o),
        _ => None,
    }
}

pub fn try_merge() {
    let a = any_model();
    let b = any_model();
    let mut n = a.clone();
    let ok = n.try_merge(b.clone()).is_ok();
    check(eq_opt(&a.description, &n.description), "the description is unchanged");
    match (as_object(&a), as_object(&b)) {
        (Some(x), Some(y)) => {
            cover("objects");
            match (as_object(&n), &a.data, &n.data) {
                (Some(z), ModelData::Single(s), ModelData::Single(t)) => {
                    check(s.nullable == t.nullable, "nullability is unchanged");
                    merged(x, y, z, ok)
                }
                _ => check(false, "an object stays an object"),
            }
        }
        _ => {
            cover("not objects");
            check(!ok, "only objects merge");
            check(eq_model(&a, &n), "a refused merge changes nothing");
        }
    }
}

/// Objects with many properties, one of each side under a symbolic name.
pub fn large() {
    let sizes = [3, 13, 40];
    let side = |p: &str, n: usize| {
        let mut o = ModelObject::default();
        for i in 0..n {
            o.properties.insert(format!("{}{}", p, i), ModelReference::Inline(boolean()));
            o.required.push(format!("{}{}", p, i));
        }
        o.properties.insert(if flip() { some_name() } else { format!("a{}", ascii(1)) }, ModelReference::Link(ascii(1)));
        o
    };
    let a = side("a", sizes[choose(3) as usize]);
    let b = side("b", sizes[choose(3) as usize]);
    let mut n = a.clone();
    let ok = n.merge(b.clone()).is_ok();
    merged(&a, &b, &n, ok);
    let mut n = a.clone();
    let ok = b.properties.iter().all(|(k, r)| n.add_property(k.clone(), r.clone(), false).is_ok());
    check(ok != b.properties.keys().any(|k| has(&a, k)), "adding fails exactly when the property is present");
    check(kept(&a, &n), "existing properties are unchanged");
}

/// Required lists: any names, repeated or not, of properties or not.
pub fn required() {
    let len = 1 + choose(3) as usize;
    let side = || {
        let mut o = ModelObject::default();
        if flip() {
            o.properties.insert(ascii(len), ModelReference::Any);
        }
        for _ in 0..choose(tiered(4, 5)) {
            o.required.push(ascii(len));
        }
        o
    };
    let a = side();
    let b = side();
    let mut n = a.clone();
    let ok = n.merge(b.clone()).is_ok();
    merged(&a, &b, &n, ok);
    let mut n = a.clone();
    let name = ascii(len);
    let ok = n.add_property(name.clone(), ModelReference::Any, true).is_ok();
    check(ok != has(&a, &name), "adding fails exactly when the property is present");
    let mut want = a.required.clone();
    if ok {
        want.push(name);
    }
    check(eq_strs(&want, &n.required), "it is required exactly when asked");
}
