//! Inlining as the derive writes it: V<0> is embedded, V<1> is not.
#![allow(dead_code)]
use crate::kit::attrs::variants_of;
use crate::kit::*;


// ---- structs
#[derive(OpgModel)]
struct S0 {
    #[opg(inline)]
    a: V<0>,
    b: V<1>,
}
#[derive(OpgModel)]
struct S1 {
    b: V<1>,
    #[opg(inline, "text", nullable)]
    a: V<0>,
}
#[derive(OpgModel)]
struct S2(V<1>, #[opg("text", inline)] V<0>);
#[derive(OpgModel)]
struct S3(#[opg(inline)] V<0>, V<1>, V<1>);
#[derive(OpgModel)]
#[opg(inline)]
struct S4 {
    #[opg(inline, format = "f", example = "e")]
    a: V<0>,
    b: V<1>,
}
#[derive(OpgModel)]
#[opg(inline, "about")]
struct S5(#[opg(inline)] V<0>, V<1>);
#[derive(OpgModel, Serialize)]
#[serde(tag = "kind")]
struct S6 {
    #[opg(inline)]
    a: V<0>,
    #[opg(optional)]
    b: V<1>,
}
// ---- externally tagged
#[derive(OpgModel, Serialize)]
enum X0 {
    A(#[opg(inline)] V<0>),
    B(V<1>),
}
#[derive(OpgModel, Serialize)]
enum X1 {
    #[opg(inline)]
    A(V<0>),
    B {
        b: V<1>,
    },
}
#[derive(OpgModel, Serialize)]
enum X2 {
    A(#[opg(inline, "text")] V<0>, V<1>),
    B,
}
#[derive(OpgModel, Serialize)]
enum X3 {
    #[opg(inline)]
    A(V<0>, u8),
    B(V<1>, u8),
}
#[derive(OpgModel, Serialize)]
enum X4 {
    #[opg(inline)]
    A {
        a: V<0>,
    },
    B {
        b: V<1>,
    },
}
#[derive(OpgModel, Serialize)]
#[opg(inline)]
enum X5 {
    A {
        #[opg(inline, nullable)]
        a: V<0>,
        b: V<1>,
    },
}
// ---- internally tagged (contents of newtype variants are always embedded)
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum I0 {
    A {
        #[opg(inline)]
        a: V<0>,
        b: V<1>,
    },
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum I1 {
    #[opg(inline)]
    A {
        a: V<0>,
    },
    B {
        b: V<1>,
    },
    C,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
#[opg(inline)]
enum I2 {
    B {
        b: V<1>,
        #[opg(inline, "text")]
        a: V<0>,
    },
}
// ---- adjacently tagged
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum A0 {
    A(#[opg(inline)] V<0>),
    B(V<1>),
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum A1 {
    #[opg(inline)]
    A(V<0>),
    B(V<1>, u8),
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum A2 {
    #[opg(inline)]
    A(V<0>, u8),
    B {
        b: V<1>,
    },
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
enum A3 {
    #[opg(inline)]
    A {
        a: V<0>,
    },
    B(V<1>),
    C,
}
// ---- untagged
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
enum U0 {
    A(#[opg(inline, "text")] V<0>),
    B(V<1>),
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
enum U1 {
    #[opg(inline)]
    A(V<0>),
    B { b: V<1> },
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
enum U2 {
    A { #[opg(inline)] a: V<0>, b: V<1> },
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
#[opg(inline)]
enum U3 {
    #[opg(inline)]
    A(V<0>, u8),
    B(V<1>, u8),
}
// ---- through standard types: inlining stops at the container
#[derive(OpgModel)]
struct W0 {
    #[opg(inline)]
    a: Box<V<0>>,
    b: Vec<V<1>>,
}
#[derive(OpgModel)]
struct W1 {
    #[opg(inline)]
    a: std::sync::Arc<V<0>>,
    #[opg(inline)]
    b: Vec<V<1>>,
}
#[derive(OpgModel)]
struct W2 {
    #[opg(inline)]
    a: &'static V<0>,
    b: std::collections::BTreeMap<String, V<1>>,
}

fn text(d: Option<&str>, n: bool, f: Option<&str>, e: Option<&str>) -> ContextParams {
    let own = |s: Option<&str>| s.map(|s| s.to_owned());
    ContextParams { description: own(d), nullable: if n { Some(true) } else { None }, variants: None, format: own(f), example: own(e) }
}
fn holds_ref(r: &ModelReference, want: &Model) -> bool {
    matches!(r, ModelReference::Inline(m) if holds(m, want))
}
/// Is the schema embedded somewhere?
fn holds(m: &Model, want: &Model) -> bool {
    eq_model(m, want)
        || match &m.data {
            ModelData::OneOf(o) => o.one_of.iter().any(|r| holds_ref(r, want)),
            ModelData::AllOf(o) => o.all_of.iter().any(|r| holds_ref(r, want)),
            ModelData::AnyOf(o) => o.any_of.iter().any(|r| holds_ref(r, want)),
            ModelData::Single(t) => match &t.type_description {
                ModelTypeDescription::Array(a) => holds_ref(&a.items, want),
                ModelTypeDescription::Object(o) => {
                    o.properties.values().any(|r| holds_ref(r, want)) || o.additional_properties.as_ref().map_or(false, |r| holds_ref(r, want))
                }
                _ => false,
            },
        }
}
fn given(all: bool) -> ContextParams {
    // none, each alone or all of the parameters that are for certain kinds of schema
    let other = if all { choose(5) } else { choose(2) * 4 };
    let some = |i: u32, s: &str| if other == i || other == 4 { Some(s.to_owned()) } else { None };
    ContextParams {
        description: if flip() { Some(if all { some_text() } else { "given".to_owned() }) } else { None },
        nullable: if flip() { Some(sym_bool()) } else { None },
        variants: some(1, "v").map(|v| vec![v, "w".to_owned()]),
        format: some(2, "g"),
        example: some(3, "h"),
    }
}
/// Any type, mentioned in any way: `name` is none for types declared inline.
fn mentioned(t: Ty, name: Option<&str>, others: &[&str], all: bool) -> (Components, Model) {
    let mut cx = Components::default();
    let known = flip();
    if known {
        cx.schemas.insert("known".to_owned(), marked());
    }
    let inline = flip();
    let p = given(all);
    let r = (t.mention)(&mut cx, inline, &p);
    let schema = (t.schema)(&mut Components::default());
    let linked = match name {
        Some(n) if !inline => {
            check(matches!(&r, ModelReference::Link(l) if seq_eq(l, n)), "a named type is referenced by its name");
            check(cx.schemas.get(n).map_or(false, |m| eq_model(m, &schema)), "its unmodified schema is registered");
            true
        }
        _ => {
            check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &overlay(&schema, &p))), "the complete schema is embedded with the parameters applied");
            if let Some(n) = name {
                check(!registered(&cx, n), "an embedded type is not registered");
            }
            false
        }
    };
    check(
        cx.schemas.len() == known as usize + linked as usize + others.len() && others.iter().all(|n| registered(&cx, n)),
        "exactly the referenced types are registered",
    );
    check(closed(&cx) && closed_ref(&cx, &r), "no dangling reference");
    (cx, schema)
}
/// A derived type that embeds V<0> and references V<1>.
fn derived_type(t: Ty, name: Option<&str>, p: ContextParams) {
    let others: &[&str] = if named(1) { &["V1"] } else { &[] };
    let (cx, schema) = mentioned(t, name, others, false);
    let mut l = Vec::new();
    links(&schema, &mut l);
    check(!l.iter().any(|n| seq_eq(n, "V0")), "an inlined field is not referenced");
    check(!registered(&cx, "V0"), "an inlined field is not registered");
    let want = overlay(&V::<0>::get_schema(&mut Components::default()), &p);
    check(holds(&schema, &want), "an inlined field embeds the complete schema with its attributes");
    if named(1) {
        check(l.iter().any(|n| seq_eq(n, "V1")), "a field that is not inlined is referenced");
        let v1 = V::<1>::get_schema(&mut Components::default());
        check(cx.schemas.get("V1").map_or(false, |m| eq_model(m, &v1)), "and registered as it is");
    }
    observe(cx.schemas.len() as u64);
}
pub fn derived() {
    // the embedded type is told from the others by its description
    pick_kinds(2, tiered(4, KINDS));
    described_kinds();
    let d = || V::<0>::get_schema(&mut Components::default()).description;
    assume(d() != V::<1>::get_schema(&mut Components::default()).description);
    macro_rules! cases {
        ($($i:literal $t:ty, $name:expr, $p:expr;)*) => {{
            match choose(29) {
                $($i => { tag(stringify!($t)); derived_type(ty::<$t>(), $name, $p) })*
                _ => assume(false),
            }
        }};
    }
    let none = || text(None, false, None, None);
    let says = || text(Some("text"), false, None, None);
    cases! {
        0 S0, Some("S0"), none();
        1 S1, Some("S1"), text(Some("text"), true, None, None);
        2 S2, Some("S2"), says();
        3 S3, Some("S3"), none();
        4 S4, None, text(None, false, Some("f"), Some("e"));
        5 S5, None, none();
        6 S6, Some("S6"), none();
        7 X0, Some("X0"), none();
        8 X1, Some("X1"), none();
        9 X2, Some("X2"), says();
        10 X3, Some("X3"), none();
        11 X4, Some("X4"), none();
        12 X5, None, text(None, true, None, None);
        13 I0, Some("I0"), none();
        14 I1, Some("I1"), none();
        15 I2, None, says();
        16 A0, Some("A0"), none();
        17 A1, Some("A1"), none();
        18 A2, Some("A2"), none();
        19 A3, None, none();
        20 U0, Some("U0"), says();
        21 U1, Some("U1"), none();
        22 U2, Some("U2"), none();
        23 U3, None, none();
        24 W0, Some("W0"), none();
        25 W1, Some("W1"), none();
        26 W2, Some("W2"), none();
        27 G<V<0>>, Some("G"), none();
        28 GI<V<0>>, None, none();
    }
}
#[derive(OpgModel)]
struct G<T> {
    #[opg(inline)]
    a: T,
    b: V<1>,
}
#[derive(OpgModel)]
#[opg(inline)]
struct GI<T>(#[opg(inline)] T, V<1>);

// ---- newtypes, plain and numeric enums: no fields of their own
#[derive(OpgModel)]
struct D0(V<0>);
#[derive(OpgModel)]
#[opg(inline)]
struct D1(V<0>);
#[derive(OpgModel)]
#[opg(inline, "about", nullable, format = "f", example = "e")]
struct D2(#[opg(inline)] V<0>);
#[derive(OpgModel)]
#[opg(string, inline)]
struct D3(V<0>);
#[derive(OpgModel)]
#[opg(string)]
struct D4(V<0>);
#[derive(OpgModel, Serialize)]
enum D5 {
    A,
    B,
}
#[derive(OpgModel, Serialize)]
#[opg(inline)]
enum D6 {
    A,
    B,
}
#[derive(OpgModel)]
#[repr(u8)]
enum D7 {
    A = 1,
    B = 2,
}
#[derive(OpgModel)]
#[repr(u8)]
#[opg(inline)]
enum D8 {
    A = 1,
    B = 2,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum D9 {
    A,
    B,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
#[opg(inline)]
enum D10 {
    A,
    B,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum D11 {
    A(V<0>),
    B,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum D12 {
    A(#[opg(inline)] V<0>),
    #[opg(inline)]
    B(V<0>),
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
enum D13 {
    A,
    B(u8),
}
#[derive(OpgModel, Serialize)]
#[opg(inline)]
struct D14 {
    #[serde(skip)]
    a: u8,
}

#[derive(OpgModel)]
struct Names {
    a: D0,
    b: D1,
    c: D5,
    d: D6,
    e: Box<D10>,
    f: &'static D9,
}
pub fn declared() {
    pick_kinds(1, KINDS);
    described_kinds();
    macro_rules! cases {
        ($($i:literal $t:ty, $name:expr;)*) => {{
            match choose(18) {
                $($i => { tag(stringify!($t)); mentioned(ty::<$t>(), $name, &[], true); })*
                11 | 12 => {
                    assume(named(0) || kind(0) == 5);
                    let (t, n) = if flip() { (ty::<D11>(), "D11") } else { (ty::<D12>(), "D12") };
                    let (cx, m) = mentioned(t, Some(n), &[], true);
                    let mut l = Vec::new();
                    links(&m, &mut l);
                    check(l.is_empty() && !registered(&cx, "V0"), "the content of an internally tagged variant is embedded");
                    let want = V::<0>::get_schema(&mut Components::default());
                    check(variants_of(&m, Repr::Internal("t")).iter().any(|r| holds_ref(r, &want)), "completely");
                }
                _ => {
                    let (_, m) = mentioned(ty::<Names>(), Some("Names"), &["D0", "D5", "D9"], true);
                    let mut l = Vec::new();
                    links(&m, &mut l);
                    check(l.len() == 3, "types declared inline are not referenced");
                    let schema = |t: Ty| (t.schema)(&mut Components::default());
                    check(holds(&m, &schema(ty::<D1>())) && holds(&m, &schema(ty::<D6>())) && holds(&m, &schema(ty::<D10>())), "types declared inline are embedded");
                }
            }
        }};
    }
    cases! {
        0 D0, Some("D0");
        1 D1, None;
        2 D2, None;
        3 D3, None;
        4 D4, Some("D4");
        5 D5, Some("D5");
        6 D6, None;
        7 D7, Some("D7");
        8 D8, None;
        9 D9, Some("D9");
        10 D10, None;
        13 D13, Some("D13");
        14 D14, None;
        15 Box<D0>, Some("D0");
        16 std::rc::Rc<D1>, None;
    }
}
