//! Attribute placements that do not fit the generated family.
#![allow(dead_code)]
use crate::attrs::*;
use crate::kit::*;

pub const EXAMPLE: &str = "shown";

// several attributes instead of one list
#[derive(OpgModel, Serialize)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
#[opg(nullable)]
struct Split {
    #[opg("d")]
    #[opg(format = "f")]
    #[serde(rename = "renamed")]
    #[opg(example = "e", nullable)]
    #[opg(inline, optional)]
    some_field: V<0>,
    #[opg(optional)]
    other_field: String,
}
#[derive(OpgModel)]
#[opg("plain enum", nullable)]
enum Plain {
    #[opg("ignored here")]
    One,
    Two,
}
#[derive(OpgModel)]
#[opg("numbers")]
#[repr(u8)]
enum Numbers {
    One = 1,
}
#[derive(OpgModel)]
struct Std {
    #[opg("n", format = "custom", example = "5")]
    a: u32,
    #[opg(nullable)]
    b: Vec<V<0>>,
    #[opg("opt")]
    c: Option<String>,
    #[opg("map")]
    d: std::collections::BTreeMap<String, V<1>>,
    #[opg("pair", nullable)]
    e: (u8, V<0>),
    #[opg("flag", format = "ignored", example = "ignored")]
    f: bool,
    #[opg(string, format = "date")]
    g: NoModel,
    #[opg(any)]
    h: NoModel,
}
struct NoModel;
#[derive(OpgModel)]
#[opg("inlined", inline, nullable)]
struct Inl {
    a: V<0>,
}
#[derive(OpgModel)]
#[opg("named")]
struct Nam {
    #[opg("field")]
    a: V<0>,
}
#[derive(OpgModel)]
struct Uses {
    #[opg("overridden")]
    a: Inl,
    b: Inl,
    #[opg("dropped: documented by reference")]
    c: Nam,
    #[opg("kept", inline, nullable)]
    d: Nam,
    e: Box<Inl>,
    #[opg("over the wrapper")]
    f: Box<Inl>,
}
#[derive(OpgModel)]
#[opg("outer", format = "of", example = "oe", nullable)]
struct Wrap(Inner);
#[derive(OpgModel)]
#[opg("inner", format = "if")]
struct Inner(#[opg(example = "ie", inline)] String);
#[derive(OpgModel)]
struct Quotes {
    #[opg("a \"quoted\" {} \\ text\nwith lines", format = "{0}", example = "{}{{}}")]
    a: String,
    #[opg("", format = "", example = "")]
    b: String,
}

fn text(format: Option<&str>, example: Option<&str>) -> ModelTypeDescription {
    ModelTypeDescription::String(ModelString {
        variants: None,
        data: ModelSimple { format: format.map(|s| s.to_owned()), example: example.map(|s| s.to_owned()) },
    })
}
pub fn forms() {
    pick_kinds(2, KINDS);
    described_kinds();
    match choose(8) {
        0 => {
            let a = A { d: Some("d"), f: Some("f"), e: Some("e"), n: true, inline: true, t: "" };
            structure(ty::<Split>(), obj(Some("about"), true, vec![("renamed", want::<V<0>>(a), false), ("otherField", want::<String>(NONE), false)]))
        }
        1 => {
            let m = schema_of(ty::<Plain>(), &mut Components::default());
            let ok = matches!(&m, Model { description: Some(d), data: ModelData::Single(ModelType { nullable: true, type_description: ModelTypeDescription::String(_) }) } if seq_eq(d, "plain enum"));
            check(ok, "a plain enum carries its attributes")
        }
        2 => {
            let m = schema_of(ty::<Numbers>(), &mut Components::default());
            check(matches!(&m, Model { description: Some(d), data: ModelData::OneOf(_) } if seq_eq(d, "numbers")), "a numeric enum carries its description")
        }
        3 => {
            let a = |d: &'static str, n: bool| A { d: if d.is_empty() { None } else { Some(d) }, n, ..NONE };
            structure(
                ty::<Std>(),
                obj(
                    None,
                    false,
                    vec![
                        ("a", want::<u32>(A { d: Some("n"), f: Some("custom"), e: Some("5"), ..NONE }), true),
                        ("b", want::<Vec<V<0>>>(a("", true)), true),
                        ("c", want::<Option<String>>(a("opt", false)), true),
                        ("d", want::<std::collections::BTreeMap<String, V<1>>>(a("map", false)), true),
                        ("e", want::<(u8, V<0>)>(a("pair", true)), true),
                        ("f", want::<bool>(a("flag", false)), true),
                        ("g", ModelReference::Inline(plain(text(Some("date"), None))), true),
                        ("h", ModelReference::Any, true),
                    ],
                ),
            )
        }
        4 => {
            let inl = |d: &str| ModelReference::Inline(obj(Some(d), true, vec![("a", want::<V<0>>(NONE), true)]));
            let field = |d: &'static str| want::<V<0>>(A { d: Some(d), ..NONE });
            let nam = ModelReference::Inline(obj(Some("kept"), true, vec![("a", field("field"), true)]));
            let mut cx = Components::default();
            let m = schema_of(ty::<Uses>(), &mut cx);
            let want = obj(
                None,
                false,
                vec![
                    ("a", inl("overridden"), true),
                    ("b", inl("inlined"), true),
                    ("c", ModelReference::Link("Nam".to_owned()), true),
                    ("d", nam, true),
                    ("e", inl("inlined"), true),
                    ("f", inl("over the wrapper"), true),
                ],
            );
            check(eq_model(&m, &want), "attributes appear on exactly the elements that give them");
            check(
                matches!(cx.schemas.get("Nam"), Some(m) if eq_model(m, &obj(Some("named"), false, vec![("a", field("field"), true)]))),
                "a mention's attributes do not leak into the component",
            );
        }
        5 => structure(ty::<Wrap>(), Model { description: Some("outer".to_owned()), data: single(true, text(Some("of"), Some("oe"))) }),
        6 => structure(ty::<Inner>(), Model { description: Some("inner".to_owned()), data: single(false, text(Some("if"), Some("ie"))) }),
        _ => structure(
            ty::<Quotes>(),
            obj(
                None,
                false,
                vec![
                    ("a", ModelReference::Inline(Model { description: Some("a \"quoted\" {} \\ text\nwith lines".to_owned()), data: single(false, text(Some("{0}"), Some("{}{{}}"))) }), true),
                    ("b", ModelReference::Inline(Model { description: Some(String::new()), data: single(false, text(Some(""), Some(""))) }), true),
                ],
            ),
        ),
    }
}

#[derive(OpgModel, Serialize)]
#[opg(nullable)]
#[serde(tag = "t")]
enum NullableTagged {
    A { a: u8 },
}
pub fn known() {
    check(true, "reached");
    let mut cx = Components::default();
    let m = schema_of(ty::<NullableTagged>(), &mut cx);
    check(admits(&cx, &m, &J::Null), "kf.nullable-on-alternatives");
}
