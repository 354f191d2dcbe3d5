//! Mention graphs over symbolic types.
use rt::o::*;
use rt::*;

/// Three types, each an object (or a oneOf) that mentions up to `edges` others.
/// Inlining (an inline edge, or an unnamed target) goes to higher indices only, so
/// that the types are finite when written out.
fn types(n: usize, edges: u32, back: bool) {
    for i in 0..n {
        let name = if flip() { Some(ascii(1)) } else { None };
        set_spec(i, Spec { name, schema: boolean(), mentions: Vec::new(), calls: 0 });
    }
    for i in 0..n {
        let mut mentions = Vec::new();
        for _ in 0..choose(edges + 1) {
            let j = choose(n as u32) as usize;
            let inline = flip();
            let expands = inline || spec(j).name.is_none();
            assume(j > i || (back && !expands));
            mentions.push((j, inline));
        }
        let s = spec(i);
        s.schema = match choose(2) {
            0 => plain(ModelTypeDescription::Object(ModelObject::default())),
            _ => model(ModelData::OneOf(ModelOneOf::default())),
        };
        s.mentions = mentions;
    }
}

/// No context parameters, or all of them.
fn context() -> ContextParams {
    if flip() {
        ContextParams { description: Some(ascii(1)), nullable: Some(sym_bool()), variants: Some(vec![]), format: Some(ascii(1)), example: Some(ascii(1)) }
    } else {
        params_none()
    }
}

fn run(n: usize, len: u32, pre: u32) {
    let mut cx = gen_registry(pre);
    let p = context();
    for _ in 0..len {
        let i = choose(n as u32) as usize;
        let inline = flip();
        // written out, an inlined recursive type is not finite
        let r = mention(&mut cx, i, inline, &p);
        check(closed(&cx), "registry has no dangling reference");
        check(closed_ref(&cx, &r), "returned reference resolves");
        match &r {
            ModelReference::Link(l) => {
                let named = match &spec(i).name {
                    Some(n) => n == l,
                    None => false,
                };
                check(named && !inline, "a reference is returned only for a named type");
                cover("link");
            }
            ModelReference::Inline(_) => check(spec(i).name.is_none() || inline, "a named type is referenced"),
            ModelReference::Any => check(false, "mention never yields an unconstrained schema"),
        }
    }
    if cx.schemas.len() > 1 {
        cover("several");
    }
    observe(cx.schemas.len() as u64);
    for (k, m) in &cx.schemas {
        observe_str(k);
        if let Some(j) = to_j(m) {
            observe_j(&j);
        }
    }
}

/// Acyclic graphs, any order of mentions.
pub fn graph() {
    let n = 3;
    types(n, 1, false);
    run(n, tiered(2, 3), 1);
}

/// Graphs with cycles through references.
pub fn cycle() {
    let n = tiered(2, 3);
    types(n, tiered(2, 1), true);
    run(n, 2, 0);
}

/// C15: with cycles, each named type is generated and registered once.
pub fn terminates() {
    let n = tiered(2, 3);
    types(n, tiered(2, 1), true);
    // distinct types have distinct names
    for i in 0..n {
        for k in 0..i {
            if let (Some(a), Some(b)) = (&spec(i).name, &spec(k).name) {
                assume(a != b);
            }
        }
    }
    let mut cx = gen_registry(1);
    // names of the pre-existing registry do not clash with the types under test
    for k in cx.schemas.keys() {
        for i in 0..n {
            if let Some(a) = &spec(i).name {
                assume(a != k);
            }
        }
    }
    let before = cx.schemas.len();
    let first = choose(n as u32) as usize;
    let p = context();
    let r = mention(&mut cx, first, false, &p);
    check(closed(&cx) && closed_ref(&cx, &r), "recursion is represented by references that resolve");
    let mut registered_now = 0;
    for i in 0..n {
        if let Some(name) = &spec(i).name {
            if registered(&cx, name) {
                registered_now += 1;
                // the stored schema is the type's own: one entry per mention it makes
                let stored = cx.schemas.get(name).map(|m| match &m.data {
                    ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) => Some(o.properties.len()),
                    ModelData::OneOf(o) => Some(o.one_of.len()),
                    _ => None,
                });
                check(stored == Some(Some(spec(i).mentions.len())), "the registered schema is complete");
                cover("registered");
            }
        }
    }
    check(cx.schemas.len() == before + registered_now, "nothing else is registered");
    // a second mention of any member adds nothing
    let after = cx.clone();
    let again = choose(n as u32) as usize;
    let name = spec(again).name.clone();
    if let Some(name) = name {
        if registered(&after, &name) {
            let r = mention(&mut cx, again, false, &p);
            check(matches!(&r, ModelReference::Link(l) if l == &name), "a registered type is referenced");
            check(eq_components(&cx, &after), "mentioning it again changes nothing");
        }
    }
    observe(cx.schemas.len() as u64);
}

/// Long chains and rings of types, in a registry that may be large already.
pub fn chain() {
    let n = N;
    let ring = flip();
    let names: Vec<String> = (0..n).map(|i| if i == 1 { ascii(1) } else { format!("T{}", i) }).collect();
    for i in 0..n {
        let mentions = if i + 1 < n {
            vec![(i + 1, false)]
        } else if ring {
            vec![(0, false), (1, false)]
        } else {
            vec![]
        };
        set_spec(i, Spec { name: Some(names[i].clone()), schema: plain(ModelTypeDescription::Object(ModelObject::default())), mentions, calls: 0 });
    }
    let mut cx = Components::default();
    let pre = [0, 5, 12, 40][choose(4) as usize];
    for i in 0..pre {
        cx.schemas.insert(format!("k{}", i), boolean());
    }
    let p = context();
    let first = choose(n as u32) as usize;
    let r = mention(&mut cx, first, false, &p);
    check(matches!(&r, ModelReference::Link(l) if seq_eq(l, &names[first])), "a named type is referenced");
    check(closed(&cx) && closed_ref(&cx, &r), "registry has no dangling reference");
    let from = if ring { 0 } else { first };
    for i in from..n {
        check(registered(&cx, &names[i]), "every type that is reached is registered");
    }
    check(cx.schemas.len() == pre + n - from, "each type is registered exactly once");
    for i in from..n {
        check(spec(i).calls == 1, "each schema is generated once");
    }
    observe(cx.schemas.len() as u64);
}
