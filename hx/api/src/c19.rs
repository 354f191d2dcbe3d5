//! describe_type!
use crate::kit::*;

fn simple(f: Option<&str>, e: Option<&str>) -> ModelSimple {
    ModelSimple { format: f.map(own), example: e.map(own) }
}
fn md(description: Option<&str>, t: ModelTypeDescription) -> Model {
    Model { description: description.map(own), data: single(false, t) }
}
fn st(d: Option<&str>, f: Option<&str>, e: Option<&str>, v: Option<&[&str]>) -> Model {
    md(d, ModelTypeDescription::String(ModelString { variants: v.map(strs), data: simple(f, e) }))
}
fn is(got: Model, want: Model) {
    if let Some(j) = to_j(&got) {
        observe_j(&j);
    }
    check(eq_opt(&got.description, &want.description), "the description is as written");
    check(eq_model(&got, &want), "the schema is exactly what is written");
}

pub fn scalars() {
    use ModelTypeDescription as D;
    match choose(31) {
        0 => is(describe_type!(string => {}), st(None, None, None, None)),
        1 => is(describe_type!(string => { description: "d" }), st(Some("d"), None, None, None)),
        2 => is(describe_type!(string => { format: "f" }), st(None, Some("f"), None, None)),
        3 => is(describe_type!(string => { example: "e" }), st(None, None, Some("e"), None)),
        4 => is(describe_type!(string => { variants: [] }), st(None, None, None, Some(&[]))),
        5 => is(describe_type!(string => { variants: ["b", "a", "b"] }), st(None, None, None, Some(&["b", "a", "b"]))),
        6 => is(
            describe_type!(string => { description: "d" format: "f" example: "e" variants: ["x", ""] }),
            st(Some("d"), Some("f"), Some("e"), Some(&["x", ""])),
        ),
        7 => is(describe_type!(string => { format: "f" example: "e" }), st(None, Some("f"), Some("e"), None)),
        8 => is(describe_type!(string => { description: "" example: "" }), st(Some(""), None, Some(""), None)),
        9 => is(describe_type!(string => { description: "d" variants: ["only"] }), st(Some("d"), None, None, Some(&["only"]))),
        10 => is(describe_type!(number => {}), md(None, D::Number(simple(None, None)))),
        11 => is(describe_type!(number => { description: "d" }), md(Some("d"), D::Number(simple(None, None)))),
        12 => is(describe_type!(number => { format: "f" }), md(None, D::Number(simple(Some("f"), None)))),
        13 => is(describe_type!(number => { example: "1.5" }), md(None, D::Number(simple(None, Some("1.5"))))),
        14 => is(describe_type!(number => { description: "d" format: "f" example: "e" }), md(Some("d"), D::Number(simple(Some("f"), Some("e"))))),
        15 => is(describe_type!(number => { format: "f" example: 2 }), md(None, D::Number(simple(Some("f"), Some("2"))))),
        16 => is(describe_type!(integer => {}), md(None, D::Integer(simple(None, None)))),
        17 => is(describe_type!(integer => { description: "d" }), md(Some("d"), D::Integer(simple(None, None)))),
        18 => is(describe_type!(integer => { format: "f" }), md(None, D::Integer(simple(Some("f"), None)))),
        19 => is(describe_type!(integer => { example: 7 }), md(None, D::Integer(simple(None, Some("7"))))),
        20 => is(describe_type!(integer => { description: "d" format: "f" example: "e" }), md(Some("d"), D::Integer(simple(Some("f"), Some("e"))))),
        21 => is(describe_type!(integer => { description: "d" example: "e" }), md(Some("d"), D::Integer(simple(None, Some("e"))))),
        22 => is(describe_type!(boolean => {}), md(None, D::Boolean)),
        23 => is(describe_type!(boolean => { description: "d" }), md(Some("d"), D::Boolean)),
        24 => is(describe_type!(string => { variants: ["b", "b", "a", "", "", "A"] }), st(None, None, None, Some(&["b", "b", "a", "", "", "A"]))),
        25 => is(
            describe_type!(string => { description: " Two\nlines. " format: "Date-Time " example: " 2020 " variants: [" x", "y "] }),
            st(Some(" Two\nlines. "), Some("Date-Time "), Some(" 2020 "), Some(&[" x", "y "])),
        ),
        26 => is(describe_type!(number => { description: "" format: "" example: "" }), md(Some(""), D::Number(simple(Some(""), Some(""))))),
        27 => is(describe_type!(integer => { description: "" format: "" example: -1 }), md(Some(""), D::Integer(simple(Some(""), Some("-1"))))),
        28 => is(describe_type!(string => { example: 1.50 }), st(None, None, Some("1.5"), None)),
        29 => is(describe_type!(string => { example: true variants: [1, 'c', false] }), st(None, None, Some("true"), Some(&["1", "c", "false"]))),
        _ => is(describe_type!(boolean => { description: "" }), md(Some(""), D::Boolean)),
    }
}

/// Ready-made schemas and data embedded by name.
pub fn raw() {
    let m = gen_model(0);
    let keep = m.clone();
    match choose(4) {
        0 => is(describe_type!(raw_model => m), keep),
        1 => {
            let data = m.data;
            is(describe_type!(raw_type => { ident: data }), Model { description: None, data: keep.data })
        }
        2 => {
            let data = m.data;
            is(describe_type!(raw_type => { description: "d" ident: data }), Model { description: opt("d"), data: keep.data })
        }
        _ => is(
            describe_type!(array => { items: (raw_model => m) }),
            md(None, ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(keep)) })),
        ),
    }
}

fn arr(d: Option<&str>, r: ModelReference) -> Model {
    md(d, ModelTypeDescription::Array(ModelArray { items: Box::new(r) }))
}
fn obj(d: Option<&str>, p: BTreeMap<String, ModelReference>, required: &[&str]) -> Model {
    md(d, ModelTypeDescription::Object(ModelObject { properties: p, additional_properties: None, required: strs(required) }))
}
fn inl(m: Model) -> ModelReference {
    ModelReference::Inline(m)
}

pub fn compound() {
    // any short text, or one that looks like a reference already
    let link = if flip() { some_text() } else { own("#/components/schemas/") + &ascii(1) };
    let lk = || ModelReference::Link(link.clone());
    let m = marked();
    let keep = m.clone();
    match choose(16) {
        0 => is(describe_type!(array => { items: (string => {}) }), arr(None, inl(st(None, None, None, None)))),
        1 => is(describe_type!(array => { description: "d" items: (link => "L") }), arr(Some("d"), ModelReference::Link(own("L")))),
        2 => is(describe_type!(array => { items: (link => link) }), arr(None, lk())),
        3 => is(
            describe_type!(array => { items: (array => { description: "in" items: (link => link) }) }),
            arr(None, inl(arr(Some("in"), lk()))),
        ),
        4 => is(describe_type!(object => { properties: {} }), obj(None, map([]), &[])),
        5 => is(describe_type!(object => { description: "d" properties: {} }), obj(Some("d"), map([]), &[])),
        6 => is(describe_type!(object => { properties: { a: (string => {}) } }), obj(None, map([(own("a"), inl(st(None, None, None, None)))]), &[])),
        7 => is(
            describe_type!(object => { properties: { a[required]: (string => { format: "f" }) } }),
            obj(None, map([(own("a"), inl(st(None, Some("f"), None, None)))]), &["a"]),
        ),
        8 => is(
            describe_type!(object => { description: "d" properties: { z[required]: (link => link) b: (link => "L") a[required]: (raw_model => m) } }),
            obj(Some("d"), map([(own("z"), lk()), (own("b"), ModelReference::Link(own("L"))), (own("a"), inl(keep))]), &["z", "a"]),
        ),
        9 => is(
            describe_type!(object => { properties: { camelCase: (boolean => {}) snake_case[required]: (integer => { format: "int8" }) } }),
            obj(
                None,
                map([
                    (own("camelCase"), inl(md(None, ModelTypeDescription::Boolean))),
                    (own("snake_case"), inl(md(None, ModelTypeDescription::Integer(simple(Some("int8"), None))))),
                ]),
                &["snake_case"],
            ),
        ),
        10 => is(
            describe_type!(object => { properties: { o[required]: (object => { description: "in" properties: { x[required]: (link => link) y: (number => {}) } }) } }),
            obj(
                None,
                map([(own("o"), inl(obj(Some("in"), map([(own("x"), lk()), (own("y"), inl(md(None, ModelTypeDescription::Number(simple(None, None)))))]), &["x"])))]),
                &["o"],
            ),
        ),
        11 => is(
            describe_type!(array => { items: (object => { properties: { x: (array => { items: (raw_model => m) }) } }) }),
            arr(None, inl(obj(None, map([(own("x"), inl(arr(None, inl(keep))))]), &[]))),
        ),
        12 => {
            let data = m.data;
            is(
                describe_type!(object => { properties: { x[required]: (raw_type => { description: "dd" ident: data }) } }),
                obj(None, map([(own("x"), inl(Model { description: opt("dd"), data: keep.data }))]), &["x"]),
            )
        }
        13 => is(
            describe_type!(object => { properties: { a[required]: (boolean => {}) b[required]: (boolean => {}) c[required]: (boolean => {}) d: (boolean => {}) } }),
            obj(
                None,
                map([
                    (own("a"), inl(boolean())),
                    (own("b"), inl(boolean())),
                    (own("c"), inl(boolean())),
                    (own("d"), inl(boolean())),
                ]),
                &["a", "b", "c"],
            ),
        ),
        14 => is(
            describe_type!(array => { description: "d" items: (string => { variants: ["p", "q"] }) }),
            arr(Some("d"), inl(st(None, None, None, Some(&["p", "q"])))),
        ),
        _ => {
            let name: &str = &link;
            is(describe_type!(object => { properties: { a: (link => name) } }), obj(None, map([(own("a"), lk())]), &[]))
        }
    }
}

/// Many properties, allowed values and levels.
pub fn large() {
    let link = ascii(1);
    let lk = || ModelReference::Link(link.clone());
    match choose(5) {
        0 => {
            let names = ["p20", "p19", "p18", "p17", "p16", "p15", "p14", "p13", "p12", "p11", "p10", "p09", "p08", "p07", "p06", "p05", "p04", "p03", "p02", "p01"];
            let got = describe_type!(object => { properties: {
                p20[required]: (link => link) p19[required]: (link => link) p18[required]: (link => link) p17[required]: (link => link) p16[required]: (link => link)
                p15[required]: (link => link) p14[required]: (link => link) p13[required]: (link => link) p12[required]: (link => link) p11[required]: (link => link)
                p10[required]: (link => link) p09[required]: (link => link) p08[required]: (link => link) p07[required]: (link => link) p06[required]: (link => link)
                p05[required]: (link => link) p04[required]: (link => link) p03[required]: (link => link) p02[required]: (link => link) p01[required]: (link => link)
            } });
            let mut p = BTreeMap::new();
            for n in names {
                p.insert(own(n), lk());
            }
            is(got, obj(None, p, &names))
        }
        1 => is(
            describe_type!(string => { variants: ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "a"] }),
            st(None, None, None, Some(&["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "a"])),
        ),
        3 => is(
            describe_type!(object => { properties: { id_name[required]: (link => link) ID[required]: (link => link) id[required]: (link => link) i[required]: (link => link) name[required]: (link => link) id_: (link => link) type[required]: (link => link) id_type[required]: (link => link) } }),
            obj(
                None,
                map([(own("id_name"), lk()), (own("ID"), lk()), (own("id"), lk()), (own("i"), lk()), (own("name"), lk()), (own("id_"), lk()), (own("type"), lk()), (own("id_type"), lk())]),
                &["id_name", "ID", "id", "i", "name", "type", "id_type"],
            ),
        ),
        2 => is(
            describe_type!(array => { items: (array => { items: (array => { items: (object => { properties: { a[required]: (object => { properties: { a[required]: (object => { properties: { a: (link => link) } }) } }) } }) }) }) }),
            arr(
                None,
                inl(arr(
                    None,
                    inl(arr(
                        None,
                        inl(obj(None, map([(own("a"), inl(obj(None, map([(own("a"), inl(obj(None, map([(own("a"), lk())]), &[])))]), &["a"])))]), &["a"])),
                    )),
                )),
            ),
        ),
        _ => is(
            describe_type!(object => { properties: { _under: (link => link) UPPER[required]: (link => link) with_2_digits: (link => link) mixedCase_x[required]: (link => link) required[required]: (link => link) link: (link => link) } }),
            obj(
                None,
                map([(own("_under"), lk()), (own("UPPER"), lk()), (own("with_2_digits"), lk()), (own("mixedCase_x"), lk()), (own("required"), lk()), (own("link"), lk())]),
                &["UPPER", "mixedCase_x", "required"],
            ),
        ),
    }
}
