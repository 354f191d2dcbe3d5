use rt::o::*;
use rt::*;
use std::collections::BTreeMap;

/// Everything stored before is stored unchanged.
fn kept(old: &BTreeMap<String, Model>, new: &BTreeMap<String, Model>) -> bool {
    old.iter().all(|(k, m)| match new.get(k) {
        Some(n) => eq_model(m, n),
        None => false,
    })
}

/// Parameters of a mention: none, one of them, or all.
fn some_params() -> ContextParams {
    params_of(choose(tiered(3, 6)))
}
fn params_of(k: u32) -> ContextParams {
    let is = |n| k == 2 || k == n;
    ContextParams {
        description: if is(1) { Some(ascii(1)) } else { None },
        nullable: if is(3) { Some(sym_bool()) } else { None },
        variants: if is(4) { Some(vec![ascii(1)]) } else { None },
        format: if is(5) { Some(ascii(1)) } else { None },
        example: if is(5) { Some(ascii(1)) } else { None },
    }
}

fn after_store(old: &Components, cx: &Components, name: &str, m: &Model) {
    check(kept(&old.schemas, &cx.schemas), "what was registered is unchanged");
    let was = registered(old, name);
    check(registered(cx, name), "the name is registered afterwards");
    if was {
        cover("present");
        check(cx.schemas.len() == old.schemas.len(), "nothing is added for a name that is present");
    } else {
        cover("absent");
        check(cx.schemas.len() == old.schemas.len() + 1, "exactly one name is added");
        check(cx.schemas.get(name).map_or(false, |s| eq_model(s, m)), "the given schema is stored under the name");
    }
    check(eq_schemes(&old.security_schemes, &cx.security_schemes), "security schemes are untouched");
    check(cx.contains_model(name), "contains_model sees it");
}

pub fn add() {
    let mut cx = gen_registry(tiered(2, 3));
    if flip() {
        cx.security_schemes.insert(ascii(1), HttpSecurityScheme::Basic { description: None }.into());
    }
    let old = cx.clone();
    let name = text(tiered(1, 2));
    let m = gen_model(0);
    check(cx.contains_model(&name) == registered(&cx, &name), "contains_model answers for the exact name");
    cx.add_model(&name, m.clone());
    after_store(&old, &cx, &name, &m);
    observe(cx.schemas.len() as u64);
}

pub fn mention_leaf() {
    let mut cx = gen_registry(tiered(2, 3));
    gen_leaf_type(0, 0);
    let old = cx.clone();
    let r = mention(&mut cx, 0, false, &params_none());
    let s = spec(0).clone();
    match (&s.name, &r) {
        (Some(n), ModelReference::Link(l)) => {
            check(seq_eq(n, l), "the reference is the type's name");
            after_store(&old, &cx, n, &s.schema);
        }
        (None, ModelReference::Inline(_)) => check(eq_components(&old, &cx), "an unnamed type registers nothing"),
        _ => check(false, "reference for named, embedded schema for unnamed types"),
    }
    let mid = cx.clone();
    let r2 = mention(&mut cx, 0, false, &params_none());
    check(eq_ref(&r, &r2), "repeating a mention returns the same reference");
    check(eq_components(&mid, &cx), "repeating a mention changes nothing");
    observe(cx.schemas.len() as u64);
}

/// A type whose schema mentions another one, over a registry that may hold either.
pub fn nested() {
    let mut cx = gen_registry(tiered(1, 2));
    let inner_name = if flip() { Some(ascii(1)) } else { None };
    let inner = marked();
    set_spec(1, Spec { name: inner_name.clone(), schema: inner.clone(), mentions: vec![], calls: 0 });
    let outer_name = ascii(1);
    let outer = plain(ModelTypeDescription::Object(ModelObject::default()));
    let inline = flip();
    set_spec(0, Spec { name: Some(outer_name.clone()), schema: outer.clone(), mentions: vec![(1, inline)], calls: 0 });
    if let Some(n) = &inner_name {
        assume(*n != outer_name);
    }
    let old = cx.clone();
    let p = some_params();
    let r = mention(&mut cx, 0, flip(), &p);
    check(kept(&old.schemas, &cx.schemas), "what was registered is unchanged");
    if let ModelReference::Link(_) = &r {
        let was = registered(&old, &outer_name);
        check(registered(&cx, &outer_name), "the mentioned type is registered");
        if !was {
            cover("outer new");
            let want_inner = match &inner_name {
                Some(n) if !inline => {
                    check(registered(&cx, n), "the inner type is registered");
                    if !registered(&old, n) {
                        check(eq_model(&cx.schemas[n], &inner), "the inner type is stored as given");
                    }
                    ModelReference::Link(n.clone())
                }
                _ => ModelReference::Inline(inner.clone()),
            };
            check(eq_model(&cx.schemas[&outer_name], &attach(outer, 0, want_inner)), "the outer type is stored as given");
        } else {
            check(eq_components(&old, &cx), "a registered type is not generated again");
        }
    }
    let mid = cx.clone();
    let r2 = mention(&mut cx, 0, matches!(r, ModelReference::Inline(_)), &p);
    check(eq_ref(&r, &r2), "repeating a mention returns the same reference");
    check(eq_components(&mid, &cx), "repeating a mention changes nothing");
    observe(cx.schemas.len() as u64);
}

fn gen_scheme() -> SecurityScheme {
    match choose(3) {
        0 => HttpSecurityScheme::Basic { description: opt_text() }.into(),
        1 => HttpSecurityScheme::Bearer { format: opt_text(), description: opt_text() }.into(),
        _ => ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: ascii(1), description: opt_text() }.into(),
    }
}

pub fn security() {
    let mut cx = gen_registry(1);
    for _ in 0..choose(tiered(3, 4)) {
        let d = Some(ascii(1));
        let s: SecurityScheme = match choose(3) {
            0 => HttpSecurityScheme::Basic { description: d }.into(),
            1 => HttpSecurityScheme::Bearer { format: d, description: None }.into(),
            _ => ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: d.unwrap(), description: None }.into(),
        };
        cx.security_schemes.insert(ascii(1), s);
    }
    let old = cx.clone();
    let name = text(1);
    let s = gen_scheme();
    let got = match &s {
        SecurityScheme::Http(h) if flip() => cx.mention_security_scheme(name.clone(), h),
        SecurityScheme::ApiKey(k) if flip() => cx.mention_security_scheme(name.clone(), k),
        s => cx.mention_security_scheme(name.clone(), s),
    };
    check(seq_eq(&got, &name), "the name is returned");
    check(eq_schemas(&old.schemas, &cx.schemas), "schemas are untouched");
    let was = old.security_schemes.iter().any(|(k, _)| seq_eq(k, &name));
    check(
        old.security_schemes.iter().all(|(k, v)| cx.security_schemes.get(k).map_or(false, |w| eq_scheme(v, w))),
        "registered security schemes are unchanged",
    );
    check(cx.security_schemes.len() == old.security_schemes.len() + !was as usize, "at most the name is added");
    if !was {
        cover("new scheme");
        check(cx.security_schemes.get(&name).map_or(false, |w| eq_scheme(&s, w)), "the scheme is stored as given");
    } else {
        cover("old scheme");
    }
    observe(cx.security_schemes.len() as u64);
}

/// Arbitrary histories of additions and mentions: the first to store a name wins.
pub fn history() {
    let mut cx = Components::default();
    set_spec(0, Spec { name: Some(ascii(1)), schema: marked(), mentions: vec![], calls: 0 });
    set_spec(1, Spec { name: Some(ascii(1)), schema: plain(ModelTypeDescription::Object(Default::default())), mentions: vec![(0, false)], calls: 0 });
    let mut first: Vec<(String, Model)> = Vec::new();
    for _ in 0..tiered(3, 4) {
        match choose(3) {
            0 => {
                let (n, m) = (ascii(1), marked());
                cx.add_model(n.clone(), m.clone());
                if !first.iter().any(|(k, _)| *k == n) {
                    first.push((n, m));
                }
            }
            i => {
                mention(&mut cx, i as usize - 1, false, &some_params());
            }
        }
        // whatever has been seen under a name stays
        for (k, m) in &first {
            check(cx.schemas.get(k).map_or(false, |x| eq_model(x, m)), "the first schema of a name stays");
        }
        for (k, m) in &cx.schemas {
            if !first.iter().any(|(n, _)| n == k) {
                first.push((k.clone(), m.clone()));
            }
        }
        check(first.len() == cx.schemas.len(), "no name disappears");
    }
    observe(cx.schemas.len() as u64);
}

/// Large registries, long names.
pub fn large() {
    let pre = [4, 11, 12, 50][choose(4) as usize];
    let mut cx = Components::default();
    for i in 0..pre {
        cx.schemas.insert(format!("k{}", i), marked_at(i == pre / 2));
        cx.security_schemes.insert(format!("k{}", i), HttpSecurityScheme::Basic { description: Some(format!("{}", i)) }.into());
    }
    let name = match choose(4) {
        0 => some_name(),
        1 => format!("k{}", ascii(1)),
        2 => format!("k{}", pre / 2),
        _ => format!("k{}{}", pre - 1, ascii(1)),
    };
    let old = cx.clone();
    match choose(3) {
        0 => {
            let m = marked();
            cx.add_model(&name, m.clone());
            after_store(&old, &cx, &name, &m);
        }
        1 => {
            let m = marked();
            set_spec(0, Spec { name: Some(name.clone()), schema: m.clone(), mentions: vec![], calls: 0 });
            let r = mention(&mut cx, 0, false, &some_params());
            check(matches!(&r, ModelReference::Link(l) if seq_eq(l, &name)), "the reference is the type's name");
            after_store(&old, &cx, &name, &m);
        }
        _ => {
            let s: SecurityScheme = HttpSecurityScheme::Basic { description: Some(ascii(1)) }.into();
            let got = cx.mention_security_scheme(name.clone(), &s);
            check(seq_eq(&got, &name), "the name is returned");
            check(eq_schemas(&old.schemas, &cx.schemas), "schemas are untouched");
            let was = old.security_schemes.iter().any(|(k, _)| seq_eq(k, &name));
            check(
                old.security_schemes.iter().all(|(k, v)| cx.security_schemes.get(k).map_or(false, |w| eq_scheme(v, w))),
                "registered security schemes are unchanged",
            );
            check(cx.security_schemes.len() == pre + !was as usize, "at most the name is added");
            check(was || cx.security_schemes.get(&name).map_or(false, |w| eq_scheme(&s, w)), "the scheme is stored as given");
        }
    }
    observe(cx.schemas.len() as u64);
}
fn marked_at(here: bool) -> Model {
    if here {
        marked()
    } else {
        boolean()
    }
}

/// Whatever is registered stays, of any kind, including empty and unconstrained schemas.
pub fn kinds() {
    let mut cx = Components::default();
    cx.schemas.insert(ascii(1), gen_model(tiered(0, 1)));
    let old = cx.clone();
    let name = ascii(1);
    let m = match choose(4) {
        0 => plain(ModelTypeDescription::Object(ModelObject::default())),
        1 => marked(),
        2 => model(ModelData::OneOf(ModelOneOf { one_of: vec![] })),
        _ => plain(ModelTypeDescription::String(ModelString { variants: None, data: ModelSimple { format: None, example: Some(ascii(1)) } })),
    };
    if flip() {
        cx.add_model(&name, m.clone());
    } else {
        set_spec(0, Spec { name: Some(name.clone()), schema: m.clone(), mentions: vec![], calls: 0 });
        let r = mention(&mut cx, 0, false, &params_of(2 * choose(2)));
        check(matches!(&r, ModelReference::Link(l) if seq_eq(l, &name)), "the reference is the type's name");
    }
    after_store(&old, &cx, &name, &m);
    observe(cx.schemas.len() as u64);
}
