use rt::o::*;
use rt::*;

fn run(m: Model, p: ContextParams) {
    let want = overlay(&m, &p);
    let got = m.clone().apply_params(&p);
    if let Some(j) = to_j(&got) {
        observe_j(&j);
    }
    check(eq_opt(&want.description, &got.description), "the description is overridden exactly when given");
    if let (ModelData::Single(w), ModelData::Single(g)) = (&want.data, &got.data) {
        check(w.nullable == g.nullable, "nullability is overridden exactly when given");
    }
    check(eq_model(&want, &got), "every other attribute and the structure are unchanged");
    let twice = got.clone().apply_params(&p);
    check(eq_model(&twice, &got), "applying parameters twice equals applying them once");
    let none = m.clone().apply_params(&params_none());
    check(eq_model(&none, &m), "empty parameters change nothing");
    let def = m.clone().apply_params(&ContextParams::default());
    check(eq_model(&def, &m), "default parameters are empty");
}

/// Scalars with any attributes under any parameters.
pub fn apply() {
    let m = Model { description: opt_text(), data: single(sym_bool(), gen_scalar()) };
    run(m, gen_params());
}

/// Compound schemas: parameters never reach into them.
pub fn nested() {
    let m = Model {
        description: opt_text(),
        data: match choose(5) {
            0 => single(sym_bool(), ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(string())) })),
            1 => {
                let mut o = ModelObject::default();
                o.properties.insert(ascii(1), ModelReference::Inline(string()));
                if flip() {
                    o.additional_properties = Some(Box::new(ModelReference::Inline(string())));
                }
                if flip() {
                    o.required.push(ascii(1));
                }
                single(sym_bool(), ModelTypeDescription::Object(o))
            }
            2 => ModelData::OneOf(ModelOneOf { one_of: vec![ModelReference::Inline(string())] }),
            3 => ModelData::AllOf(ModelAllOf { all_of: vec![ModelReference::Inline(string()), gen_leaf()] }),
            _ => ModelData::AnyOf(ModelAnyOf { any_of: vec![gen_leaf(), ModelReference::Inline(string())] }),
        },
    };
    run(m, gen_params());
}

fn string() -> Model {
    Model {
        description: Some(ascii(1)),
        data: single(
            sym_bool(),
            ModelTypeDescription::String(ModelString { variants: None, data: ModelSimple { format: Some(ascii(1)), example: None } }),
        ),
    }
}

/// The same through the trait: `get_schema_with_params` is the schema overlaid.
pub fn through_trait() {
    let schema = Model { description: opt_text(), data: single(sym_bool(), gen_scalar()) };
    let name = if flip() { Some(ascii(1)) } else { None };
    set_spec(0, Spec { name, schema: schema.clone(), mentions: vec![], calls: 0 });
    let p = ContextParams { description: opt_text(), nullable: if flip() { Some(sym_bool()) } else { None }, variants: None, format: opt_text(), example: None };
    let mut cx = gen_registry(1);
    let old = cx.clone();
    let got = T::<0>::get_schema_with_params(&mut cx, &p);
    check(eq_model(&got, &overlay(&schema, &p)), "the schema carries the parameters");
    check(eq_components(&old, &cx), "nothing is registered");
    let bare = T::<0>::get_schema_with_params(&mut cx, &params_none());
    check(eq_model(&bare, &schema), "empty parameters yield the bare schema");
}
