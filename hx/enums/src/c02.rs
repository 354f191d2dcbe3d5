//! Enum forms that do not fit the generated family, and known findings.
#![allow(dead_code)]
use crate::kit::*;

#[derive(Serialize, OpgModel)]
enum G0<T> {
    A(T),
    #[serde(rename_all = "camelCase")]
    BeTa { the_value: T, other: bool },
    C(T, T),
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
enum G1<'a, T> {
    A(&'a str),
    B { b: &'a T },
    N,
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", content = "value", rename_all = "snake_case")]
enum G2<T> {
    FirstOne(Box<T>),
    Second(Vec<T>),
    Third,
    Fourth(Option<u8>),
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type")]
enum Outer<T> {
    A(Inner<T>),
    B { nested: Inner<T> },
    C(Box<Inner<T>>),
}
#[derive(Serialize, OpgModel)]
struct Inner<T> {
    x: T,
}
#[derive(Serialize, OpgModel)]
enum One {
    #[serde(rename = "")]
    Only,
}
#[derive(Serialize, OpgModel)]
enum Many {
    A,
    B,
    C,
    D,
    E,
    F,
    G,
    H,
    I,
    J,
    K,
    L,
}
#[derive(Serialize, OpgModel)]
enum Nested {
    Plain(Many),
    Deep(G0<V<0>>),
    Empty {},
}
#[derive(Serialize, OpgModel)]
enum Skipping<T> {
    #[serde(skip)]
    Never(T),
    #[serde(skip_serializing)]
    NorThis {
        t: T,
    },
    Kept(bool),
}
struct NoModel;

pub fn forms() {
    pick_kinds(2, tiered(3, KINDS));
    let v = V::<0>::any;
    let d = V::<0>::default;
    match choose(7) {
        0 => {
            let js = [j(&G0::A(d())), j(&G0::BeTa { the_value: d(), other: true }), j(&G0::C(d(), d()))];
            let x = match choose(3) {
                0 => G0::A(v()),
                1 => G0::BeTa { the_value: v(), other: sym_bool() },
                _ => G0::C(v(), v()),
            };
            enumeration(ty::<G0<V<0>>>(), Repr::External, &js, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Tuple], &j(&x))
        }
        1 => {
            let (t, b, db) = (ascii(1), v(), d());
            let js = [j(&G1::<V<0>>::A("a")), j(&G1::B { b: &db }), j(&G1::<V<0>>::N)];
            let x = match choose(3) {
                0 => G1::A(t.as_str()),
                1 => G1::B { b: &b },
                _ => G1::N,
            };
            enumeration(ty::<G1<V<0>>>(), Repr::Untagged, &js, &[Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&x))
        }
        2 => {
            let js = [j(&G2::FirstOne(Box::new(d()))), j(&G2::Second(vec![d()])), j(&G2::<V<0>>::Third), j(&G2::<V<0>>::Fourth(None))];
            let x = match choose(4) {
                0 => G2::FirstOne(Box::new(v())),
                1 => G2::Second((0..choose(3)).map(|_| v()).collect()),
                2 => G2::Third,
                _ => G2::Fourth(if flip() { Some(sym_u8()) } else { None }),
            };
            enumeration(ty::<G2<V<0>>>(), Repr::Adjacent("type", "value"), &js, &[Mask::Other; 4], &j(&x))
        }
        3 => {
            let js = [j(&Outer::A(Inner { x: d() })), j(&Outer::B { nested: Inner { x: d() } }), j(&Outer::C(Box::new(Inner { x: d() })))];
            let x = match choose(3) {
                0 => Outer::A(Inner { x: v() }),
                1 => Outer::B { nested: Inner { x: v() } },
                _ => Outer::C(Box::new(Inner { x: v() })),
            };
            enumeration(ty::<Outer<V<0>>>(), Repr::Internal("type"), &js, &[Mask::Fields(&[true, true]), Mask::Fields(&[true, true]), Mask::Fields(&[true, true])], &j(&x))
        }
        4 => enumeration(ty::<One>(), Repr::Plain, &[j(&One::Only)], &[Mask::Other], &j(&One::Only)),
        5 => {
            use Many::*;
            let all = [A, B, C, D, E, F, G, H, I, J, K, L];
            let js: Vec<_> = all.iter().map(|x| j(x)).collect();
            enumeration(ty::<Many>(), Repr::Plain, &js, &[Mask::Other; 12], &j(&all[choose(12) as usize]))
        }
        _ => {
            let js = [j(&Nested::Plain(Many::A)), j(&Nested::Deep(G0::A(d()))), j(&Nested::Empty {})];
            let x = match choose(3) {
                0 => Nested::Plain(Many::L),
                1 => Nested::Deep(G0::C(v(), v())),
                _ => Nested::Empty {},
            };
            enumeration(ty::<Nested>(), Repr::External, &js, &[Mask::Other, Mask::Other, Mask::Fields(&[])], &j(&x));
            let k = [j(&Skipping::<u8>::Kept(true))];
            enumeration(ty::<Skipping<NoModel>>(), Repr::External, &k, &[Mask::Other], &j(&Skipping::<u8>::Kept(sym_bool())))
        }
    }
}

macro_rules! case_names {
    ($n:ident $(#[$a:meta])*) => {
        /// Names that differ little from one another.
        #[derive(Serialize, OpgModel)]
        $(#[$a])*
        enum $n {
            #[serde(rename = "name")]
            A,
            #[serde(rename = "NAME")]
            B,
            #[serde(rename = "Name")]
            C,
            #[serde(rename = " name")]
            D,
            #[serde(rename = "name ")]
            E,
            #[serde(rename = "")]
            F,
            #[serde(rename = "na\u{e0}me \"q\" \\ \n")]
            G,
            #[serde(rename = "names")]
            H,
            #[serde(rename = "12")]
            I,
            #[serde(rename = "true")]
            J,
        }
        impl $n {
            const ALL: [$n; 10] = [$n::A, $n::B, $n::C, $n::D, $n::E, $n::F, $n::G, $n::H, $n::I, $n::J];
        }
    };
}
case_names!(Names0);
case_names!(Names1 #[serde(tag = "t")]);
case_names!(Names2 #[serde(tag = "t", content = "c")]);
/// Keys that differ little from one another.
#[derive(Serialize, OpgModel)]
enum Keys<T> {
    #[serde(rename = "v")]
    A {
        #[serde(rename = "k")]
        a: T,
        #[serde(rename = "K")]
        b: T,
        #[serde(rename = "k ")]
        c: T,
        #[serde(rename = "")]
        d: T,
        #[serde(rename = "\u{e9}\"\\\n")]
        e: T,
    },
    #[serde(rename = "V")]
    B(T),
    #[serde(rename = "")]
    C(T, T),
    #[serde(rename = "v ")]
    D {},
}
macro_rules! all_fields {
    ($n:ident, $a:meta) => {
        #[derive(Serialize, OpgModel)]
        #[$a]
        #[serde(rename_all = "UPPERCASE", rename_all_fields = "kebab-case")]
        enum $n<T> {
            A { first_one: T, #[serde(rename = "given_one")] second_one: T },
            #[serde(rename_all = "camelCase")]
            B { first_one: T, #[serde(skip)] second_one: T, #[serde(skip_serializing_if = "gone")] third_one: V<0> },
        }
        impl<T> $n<T> {
            fn all(v: fn() -> T, w: fn() -> V<0>) -> [Self; 2] {
                [$n::A { first_one: v(), second_one: v() }, $n::B { first_one: v(), second_one: v(), third_one: w() }]
            }
            fn decide(repr: Repr)
            where
                Self: Serialize,
                T: OpgModel + 'static + From<V<0>>,
            {
                let d = || T::from(V::default());
                let js: Vec<_> = Self::all(d, V::default).iter().map(|x| j(x)).collect();
                let x = &Self::all(|| T::from(V::any()), V::maybe)[choose(2) as usize];
                // an internal tag comes before the fields
                let masks = match repr {
                    Repr::Internal(_) => [Mask::Fields(&[true, true, true]), Mask::Fields(&[true, true, false])],
                    _ => [Mask::Fields(&[true, true]), Mask::Fields(&[true, false])],
                };
                enumeration(ty::<Self>(), repr, &js, &masks, &j(x))
            }
        }
    };
}
all_fields!(AllFields0, serde());
all_fields!(AllFields1, serde(tag = "t"));
all_fields!(AllFields2, serde(tag = "t", content = "c"));
all_fields!(AllFields3, serde(untagged));
pub fn all_fields() {
    set_kind(0, choose(tiered(2, KINDS)));
    match choose(4) {
        0 => AllFields0::<V<0>>::decide(Repr::External),
        1 => AllFields1::<V<0>>::decide(Repr::Internal("t")),
        2 => AllFields2::<V<0>>::decide(Repr::Adjacent("t", "c")),
        _ => AllFields3::<V<0>>::decide(Repr::Untagged),
    }
}
pub fn names() {
    set_kind(0, choose(tiered(2, KINDS)));
    let v = V::<0>::any;
    let d = V::<0>::default;
    match choose(4) {
        0 => {
            let js: Vec<_> = Names0::ALL.iter().map(|x| j(x)).collect();
            enumeration(ty::<Names0>(), Repr::Plain, &js, &[Mask::Other; 10], &js[choose(10) as usize])
        }
        1 => {
            let js: Vec<_> = Names1::ALL.iter().map(|x| j(x)).collect();
            enumeration(ty::<Names1>(), Repr::Internal("t"), &js, &[Mask::Other; 10], &js[choose(10) as usize])
        }
        2 => {
            let js: Vec<_> = Names2::ALL.iter().map(|x| j(x)).collect();
            enumeration(ty::<Names2>(), Repr::Adjacent("t", "c"), &js, &[Mask::Other; 10], &js[choose(10) as usize])
        }
        _ => {
            let js = [j(&Keys::A { a: d(), b: d(), c: d(), d: d(), e: d() }), j(&Keys::B(d())), j(&Keys::C(d(), d())), j(&Keys::<V<0>>::D {})];
            let x = match choose(4) {
                0 => Keys::A { a: v(), b: v(), c: v(), d: v(), e: v() },
                1 => Keys::B(v()),
                2 => Keys::C(v(), v()),
                _ => Keys::D {},
            };
            enumeration(ty::<Keys<V<0>>>(), Repr::External, &js, &[Mask::Fields(&[true; 5]), Mask::Other, Mask::Tuple, Mask::Fields(&[])], &j(&x))
        }
    }
}

#[derive(Serialize, OpgModel)]
enum Mixed {
    Unit,
    Data(u8),
}
#[derive(Serialize, OpgModel)]
enum UntaggedVariant {
    A(u8),
    #[serde(untagged)]
    B(bool),
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
enum Clash {
    A(HasTag),
}
#[derive(Serialize, OpgModel)]
struct HasTag {
    #[serde(skip_serializing_if = "never")]
    t: String,
    u: u8,
}
fn never<T>(_: &T) -> bool {
    true
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
enum MapInside {
    A(std::collections::BTreeMap<String, u8>),
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
enum EnumInside {
    A(Other),
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "k")]
enum Other {
    X { x: u8 },
}
pub fn known() {
    check(true, "reached");
    let mut cx = Components::default();
    match choose(5) {
        4 => {
            let m = schema_of(ty::<UntaggedVariant>(), &mut cx);
            let v = j(&if flip() { UntaggedVariant::A(sym_u8()) } else { UntaggedVariant::B(sym_bool()) });
            check(admits(&cx, &m, &v), "kf.untagged-variant");
        }
        0 => {
            let m = schema_of(ty::<Mixed>(), &mut cx);
            let v = j(&if flip() { Mixed::Unit } else { Mixed::Data(sym_u8()) });
            check(admits(&cx, &m, &v), "kf.unit-variant-among-data-variants");
        }
        1 => {
            let m = schema_of(ty::<Clash>(), &mut cx);
            let v = j(&Clash::A(HasTag { t: String::new(), u: sym_u8() }));
            let ok = match &m.data {
                ModelData::OneOf(o) => o.one_of.iter().all(|r| match r {
                    ModelReference::Inline(Model { data: ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }), .. }) => {
                        o.required.iter().any(|k| k == "t")
                    }
                    _ => false,
                }),
                _ => false,
            };
            check(ok && admits(&cx, &m, &v), "kf.internal-tag-named-like-a-property");
        }
        2 => {
            let m = schema_of(ty::<MapInside>(), &mut cx);
            let v = j(&MapInside::A(Default::default()));
            check(admits(&cx, &m, &v), "a tagged map is admitted");
        }
        _ => {
            let m = schema_of(ty::<EnumInside>(), &mut cx);
            let v = j(&EnumInside::A(Other::X { x: sym_u8() }));
            check(admits(&cx, &m, &v), "kf.internal-tag-around-alternatives");
        }
    }
}
