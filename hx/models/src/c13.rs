use rt::o::*;
use rt::*;

fn params() -> ContextParams {
    ContextParams {
        description: opt_text(),
        nullable: if flip() { Some(sym_bool()) } else { None },
        variants: None,
        format: opt_text(),
        example: if thorough() { opt_text() } else { None },
    }
}

pub fn select() {
    let name = if flip() { Some(ascii(1)) } else { None };
    let schema = match choose(4) {
        0 => Model { description: opt_text(), data: single(sym_bool(), ModelTypeDescription::Integer(gen_simple())) },
        1 => model(ModelData::OneOf(ModelOneOf { one_of: vec![gen_leaf()] })),
        2 => plain(ModelTypeDescription::Object(ModelObject::default())),
        _ => marked(),
    };
    set_spec(0, Spec { name: name.clone(), schema: schema.clone(), mentions: vec![], calls: 0 });
    let mut cx = gen_registry(tiered(1, 2));
    let old = cx.clone();
    let inline = flip();
    let p = params();
    let r = mention(&mut cx, 0, inline, &p);
    match (&name, inline) {
        (Some(n), false) => {
            cover("linked");
            check(matches!(&r, ModelReference::Link(l) if seq_eq(l, n)), "a named type is referenced by its name");
            if registered(&old, n) {
                check(eq_components(&old, &cx), "a registered type is left alone");
            } else {
                check(cx.schemas.get(n).map_or(false, |m| eq_model(m, &schema)), "its unmodified schema is registered");
                check(cx.schemas.len() == old.schemas.len() + 1, "and nothing else");
            }
        }
        _ => {
            cover("embedded");
            check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &overlay(&schema, &p))), "the complete schema is embedded with the parameters applied");
            check(eq_components(&old, &cx), "nothing is registered");
        }
    }
    observe(cx.schemas.len() as u64);
}

/// Unnamed library types are embedded whether or not inlining is requested.
pub fn containers() {
    set_spec(0, Spec { name: if flip() { Some(ascii(1)) } else { None }, schema: marked(), mentions: vec![], calls: 0 });
    let mut cx = Components::default();
    let inline = flip();
    let p = params();
    fn one<M: OpgModel + ?Sized>(cx: &mut Components, inline: bool, p: &ContextParams) {
        check(M::type_name().is_none(), "the type has no name");
        let r = cx.mention_schema::<M>(inline, p);
        let want = overlay(&M::get_schema(&mut cx.clone()), p);
        check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &want)), "an unnamed type is embedded with the parameters applied");
        check(closed(cx) && closed_ref(cx, &r), "what it mentions is registered");
    }
    match choose(tiered(10, 13)) {
        0 => one::<Vec<T<0>>>(&mut cx, inline, &p),
        1 => one::<[T<0>]>(&mut cx, inline, &p),
        2 => one::<(T<0>, u8)>(&mut cx, inline, &p),
        3 => one::<std::collections::BTreeMap<String, T<0>>>(&mut cx, inline, &p),
        4 => one::<[T<0>; 3]>(&mut cx, inline, &p),
        5 => one::<String>(&mut cx, inline, &p),
        6 => one::<bool>(&mut cx, inline, &p),
        7 => one::<()>(&mut cx, inline, &p),
        8 => one::<u64>(&mut cx, inline, &p),
        9 => one::<f32>(&mut cx, inline, &p),
        10 => one::<std::collections::LinkedList<T<0>>>(&mut cx, inline, &p),
        11 => one::<std::collections::HashMap<String, T<0>>>(&mut cx, inline, &p),
        _ => one::<uuid::Uuid>(&mut cx, inline, &p),
    }
    observe(cx.schemas.len() as u64);
}

/// Inlining is not contagious: what an inlined type mentions is still referenced.
pub fn nested() {
    let inner = ascii(1);
    set_spec(1, Spec { name: Some(inner.clone()), schema: marked(), mentions: vec![], calls: 0 });
    let outer = if flip() { Some(ascii(1)) } else { None };
    if let Some(o) = &outer {
        assume(*o != inner);
    }
    let base = match choose(3) {
        0 => plain(ModelTypeDescription::Object(ModelObject::default())),
        1 => model(ModelData::AnyOf(ModelAnyOf::default())),
        _ => boolean(),
    };
    let inner_inline = flip();
    set_spec(0, Spec { name: outer, schema: base.clone(), mentions: vec![(1, inner_inline)], calls: 0 });
    let p = params();
    let mut cx = Components::default();
    let r = mention(&mut cx, 0, true, &p);
    let iref = if inner_inline { ModelReference::Inline(spec(1).schema.clone()) } else { ModelReference::Link(inner.clone()) };
    let want = overlay(&attach(base, 0, iref), &p);
    check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &want)), "the complete schema is embedded");
    if inner_inline {
        check(cx.schemas.is_empty(), "nothing is registered");
    } else {
        check(cx.schemas.len() == 1 && eq_model(&cx.schemas[&inner], &spec(1).schema), "only the referenced type is registered");
    }
}
