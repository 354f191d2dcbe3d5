//! Struct forms that do not fit the generated family: newtypes, generics, lifetimes,
//! standard field types, nesting.
#![allow(dead_code)]
use crate::kit::*;
use std::collections::*;

fn absent<T>(o: &Option<T>) -> bool {
    o.is_none()
}

// ---- newtypes
#[derive(Serialize, OpgModel)]
struct N0(V<0>);
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
struct N1(V<0>);
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other", rename_all = "camelCase")]
struct N2(#[serde(rename = "x")] V<0>);
#[derive(Serialize, OpgModel)]
#[opg(inline)]
struct N3(V<0>);
#[derive(Serialize, OpgModel)]
struct N4(#[opg(inline)] V<0>);
#[derive(Serialize, OpgModel)]
struct N5(N0);
#[derive(Serialize, OpgModel)]
struct N6(Vec<V<0>>);
#[derive(Serialize, OpgModel)]
struct N7<T>(T);
#[derive(Serialize, OpgModel)]
struct N8<'a, T: ?Sized>(&'a T);
#[derive(Serialize, OpgModel)]
struct N9(BTreeMap<String, V<0>>);
#[derive(Serialize, OpgModel)]
struct N10((V<0>, V<1>));
#[derive(Serialize, OpgModel)]
struct N11(Box<N6>);

#[derive(Serialize, OpgModel)]
#[serde(transparent)]
struct N12 {
    #[serde(rename = "x")]
    a: V<0>,
}
#[derive(Serialize, OpgModel)]
#[serde(transparent, rename = "Other")]
struct N13<T> {
    #[serde(skip)]
    a: u8,
    b: V<0>,
    c: std::marker::PhantomData<T>,
    #[serde(skip_serializing)]
    d: String,
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
struct N14<T>(std::marker::PhantomData<T>, Vec<V<0>>);

pub fn newtypes() {
    pick_kinds(2, KINDS);
    let v = V::<0>::any();
    match choose(15) {
        0 => newtype_struct(ty::<N0>(), ty::<V<0>>(), &j(&N0(v))),
        1 => newtype_struct(ty::<N1>(), ty::<V<0>>(), &j(&N1(v))),
        2 => newtype_struct(ty::<N2>(), ty::<V<0>>(), &j(&N2(v))),
        3 => newtype_struct(ty::<N3>(), ty::<V<0>>(), &j(&N3(v))),
        4 => newtype_struct(ty::<N4>(), ty::<V<0>>(), &j(&N4(v))),
        5 => newtype_struct(ty::<N5>(), ty::<V<0>>(), &j(&N5(N0(v)))),
        6 => newtype_struct(ty::<N6>(), ty::<Vec<V<0>>>(), &j(&N6(vec![v, V::any()]))),
        7 => newtype_struct(ty::<N7<V<0>>>(), ty::<V<0>>(), &j(&N7(v))),
        8 => newtype_struct(ty::<N8<V<0>>>(), ty::<V<0>>(), &j(&N8(&v))),
        9 => {
            let mut m = BTreeMap::new();
            m.insert("k".to_owned(), v);
            newtype_struct(ty::<N9>(), ty::<BTreeMap<String, V<0>>>(), &j(&N9(m)))
        }
        10 => newtype_struct(ty::<N10>(), ty::<(V<0>, V<1>)>(), &j(&N10((v, V::any())))),
        11 => newtype_struct(ty::<N12>(), ty::<V<0>>(), &j(&N12 { a: v })),
        12 => newtype_struct(ty::<N13<NoModel>>(), ty::<V<0>>(), &j(&N13::<NoModel> { a: 1, b: v, c: std::marker::PhantomData, d: String::new() })),
        13 => newtype_struct(ty::<N14<NoModel>>(), ty::<Vec<V<0>>>(), &j(&N14::<NoModel>(std::marker::PhantomData, vec![v]))),
        _ => newtype_struct(ty::<N11>(), ty::<N6>(), &j(&N11(Box::new(N6(vec![v]))))),
    }
}

// ---- generics and lifetimes
#[derive(Serialize, OpgModel)]
struct G0<T> {
    a: T,
    b: Vec<T>,
}
#[derive(Serialize, OpgModel)]
struct G1<T, U>
where
    U: Clone,
{
    #[serde(skip_serializing_if = "absent")]
    a: Option<T>,
    b: U,
}
#[derive(Serialize, OpgModel)]
struct G2<'a, T: Clone = u8> {
    a: &'a str,
    b: &'a T,
    #[serde(skip)]
    c: std::marker::PhantomData<T>,
}
#[derive(Serialize, OpgModel)]
struct G3<const N: usize> {
    a: Box<V<N>>,
    #[serde(rename = "N")]
    b: std::rc::Rc<V<N>>,
}
trait Has {
    type Out;
}
struct Yes;
impl Has for Yes {
    type Out = V<1>;
}
#[derive(Serialize, OpgModel)]
#[serde(bound(serialize = "T::Out: Serialize"))]
struct G4<T: Has> {
    a: T::Out,
    b: bool,
}
#[derive(Serialize, OpgModel)]
struct G5<T>(T, Option<T>);
#[derive(Serialize, OpgModel)]
struct G6<'a, 'b: 'a>(String, &'a str, #[serde(skip)] &'b u8);
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
struct G7<A, B, C> {
    only_this: A,
    #[serde(skip)]
    not_this: B,
    #[serde(skip_serializing)]
    nor_that: std::marker::PhantomData<C>,
}
struct NoModel;

pub fn generics() {
    pick_kinds(2, KINDS);
    // None of a named type is a known finding of C12
    let v = || V::<0>::any();
    match choose(8) {
        0 => {
            let f = j(&G0 { a: v(), b: vec![v(), v()] });
            named_struct(ty::<G0<V<0>>>(), &f, &f, &[true, true])
        }
        1 => {
            let full = j(&G1 { a: Some(v()), b: V::<1>::any() });
            let some = j(&G1 { a: if flip() { Some(v()) } else { None }, b: V::<1>::any() });
            named_struct(ty::<G1<V<0>, V<1>>>(), &full, &some, &[false, true])
        }
        2 => {
            let (t, x) = (ascii(1), v());
            let f = j(&G2 { a: &t, b: &x, c: std::marker::PhantomData });
            named_struct(ty::<G2<V<0>>>(), &f, &f, &[true, true])
        }
        3 => {
            let f = j(&G3::<1> { a: Box::new(V::any()), b: std::rc::Rc::new(V::any()) });
            named_struct(ty::<G3<1>>(), &f, &f, &[true, true])
        }
        4 => {
            let f = j(&G4::<Yes> { a: V::any(), b: sym_bool() });
            named_struct(ty::<G4<Yes>>(), &f, &f, &[true, true])
        }
        5 => {
            let o = if named(0) || flip() { Some(v()) } else { None };
            tuple_struct(ty::<G5<V<0>>>(), &j(&G5(v(), o)))
        }
        6 => tuple_struct(ty::<G6>(), &j(&G6(ascii(1), &ascii(1), &0))),
        _ => {
            let f = j(&G7 { only_this: v(), not_this: NoModel, nor_that: std::marker::PhantomData::<NoModel> });
            named_struct(ty::<G7<V<0>, NoModel, NoModel>>(), &f, &f, &[true])
        }
    }
}

// ---- standard field types, nesting
#[derive(Serialize, OpgModel)]
struct F0 {
    u8_: u8,
    i64_: i64,
    text: String,
    #[serde(rename = "float")]
    f: f64,
    flag: bool,
    opt: Option<u16>,
    unit: (),
    c: char,
}
#[derive(Serialize, OpgModel)]
struct F1 {
    list: Vec<V<0>>,
    set: VecDeque<V<1>>,
    map: BTreeMap<String, V<0>>,
    arr: [V<1>; 2],
    pair: (V<0>, bool),
    opt_list: Option<Vec<V<0>>>,
}
#[derive(Serialize, OpgModel)]
struct F2 {
    inner: F3,
    #[opg(inline)]
    again: F3,
    list: Vec<F3>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    maybe: Vec<F3>,
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
struct F3 {
    some_field: V<0>,
    deeper: F4,
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
struct F4 {
    x: V<1>,
}
#[derive(Serialize, OpgModel)]
struct Empty {}
#[derive(Serialize, OpgModel)]
struct EmptyTuple();
#[derive(Serialize, OpgModel)]
struct AllSkipped {
    #[serde(skip)]
    a: NoModel,
    #[serde(skip_serializing)]
    b: NoModel,
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
struct TaggedEmpty {}
#[derive(Serialize, OpgModel)]
struct Long(V<0>, V<1>, bool, u8, String, Option<bool>, (u8, bool), [bool; 3]);
#[derive(Serialize, OpgModel)]
struct Wide {
    z: V<0>,
    y: V<1>,
    x: u8,
    w: u8,
    v: u8,
    u: u8,
    t: u8,
    s: u8,
    r: u8,
    q: u8,
    p: u8,
    o: u8,
    n: u8,
    m: u8,
}

fn f3() -> F3 {
    F3 { some_field: V::any(), deeper: F4 { x: V::any() } }
}
pub fn fields() {
    pick_kinds(2, tiered(3, KINDS));
    match choose(9) {
        0 => {
            let ch = char::from_u32(sym(7) as u32).unwrap_or('a');
            let f = j(&F0 {
                u8_: sym_u8(),
                i64_: sym(64) as i64,
                text: text(2),
                f: f64::from_bits(sym(64)),
                flag: sym_bool(),
                opt: if flip() { Some(sym(16) as u16) } else { None },
                unit: (),
                c: ch,
            });
            named_struct(ty::<F0>(), &f, &f, &[true; 8])
        }
        1 => {
            let mut map = BTreeMap::new();
            map.insert(ascii(1), V::any());
            let f = j(&F1 {
                list: (0..choose(3)).map(|_| V::any()).collect(),
                set: (0..choose(2)).map(|_| V::any()).collect(),
                map,
                arr: [V::any(), V::any()],
                pair: (V::any(), sym_bool()),
                opt_list: if flip() { Some(vec![V::any()]) } else { None },
            });
            named_struct(ty::<F1>(), &f, &f, &[true; 6])
        }
        2 => {
            let full = j(&F2 { inner: f3(), again: f3(), list: vec![f3()], maybe: vec![f3()] });
            let some = j(&F2 { inner: f3(), again: f3(), list: vec![], maybe: if flip() { vec![f3()] } else { vec![] } });
            named_struct(ty::<F2>(), &full, &some, &[true, true, true, false])
        }
        3 => named_struct(ty::<Empty>(), &j(&Empty {}), &j(&Empty {}), &[]),
        4 => tuple_struct(ty::<EmptyTuple>(), &j(&EmptyTuple())),
        5 => {
            let f = j(&AllSkipped { a: NoModel, b: NoModel });
            named_struct(ty::<AllSkipped>(), &f, &f, &[])
        }
        6 => named_struct(ty::<TaggedEmpty>(), &j(&TaggedEmpty {}), &j(&TaggedEmpty {}), &[true]),
        7 => tuple_struct(
            ty::<Long>(),
            &j(&Long(V::any(), V::any(), sym_bool(), sym_u8(), ascii(1), if flip() { Some(sym_bool()) } else { None }, (sym_u8(), sym_bool()), [sym_bool(), true, false])),
        ),
        _ => {
            let n = sym_u8;
            let f = j(&Wide { z: V::any(), y: V::any(), x: n(), w: n(), v: n(), u: n(), t: n(), s: n(), r: n(), q: n(), p: n(), o: n(), n: n(), m: n() });
            named_struct(ty::<Wide>(), &f, &f, &[true; 14])
        }
    }
}

// ---- recorded defects
#[derive(Serialize, OpgModel)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: Rest,
}
#[derive(Serialize, OpgModel)]
struct Rest {
    b: u8,
}
#[derive(Serialize, OpgModel)]
struct Twice {
    a: G0<u8>,
    b: G0<String>,
}
#[derive(Clone, Serialize, OpgModel)]
#[serde(into = "String")]
struct Written {
    a: u8,
}
impl From<Written> for String {
    fn from(_: Written) -> String {
        ascii(1)
    }
}
pub fn known() {
    check(true, "reached");
    let is = |t: Ty, v: &J, id: &str| {
        let mut cx = Components::default();
        let m = schema_of(t, &mut cx);
        check(admits(&cx, &m, v), id);
    };
    is(ty::<Flat>(), &j(&Flat { a: 1, rest: Rest { b: 2 } }), "kf.flatten");
    is(ty::<Written>(), &j(&Written { a: 1 }), "kf.into");
    is(
        ty::<Twice>(),
        &j(&Twice { a: G0 { a: 1, b: vec![] }, b: G0 { a: ascii(1), b: vec![] } }),
        "kf.instantiations-share-a-name",
    );
}

// ---- many fields, keys that differ little
#[derive(Serialize, OpgModel)]
struct VeryWide {
    f0: V<0>,
    f1: V<1>,
    f2: V<0>,
    #[serde(skip_serializing_if = "gone")] f3: V<1>,
    f4: V<0>,
    #[serde(skip)] f5: V<1>,
    #[opg(optional)] f6: V<0>,
    f7: V<1>,
    f8: V<0>,
    f9: V<1>,
    #[serde(skip_serializing_if = "gone")] f10: V<0>,
    f11: V<1>,
    f12: V<0>,
    f13: V<1>,
    f14: V<0>,
    f15: V<1>,
    #[serde(skip)] f16: V<0>,
    #[serde(skip_serializing_if = "gone")] f17: V<1>,
    f18: V<0>,
    #[opg(optional)] f19: V<1>,
    f20: V<0>,
    f21: V<1>,
    f22: V<0>,
    f23: V<1>,
    #[serde(skip_serializing_if = "gone")] f24: V<0>,
    f25: V<1>,
    f26: V<0>,
    #[serde(skip)] f27: V<1>,
    f28: V<0>,
    f29: V<1>,
    f30: V<0>,
    #[serde(skip_serializing_if = "gone")] f31: V<1>,
    #[opg(optional)] f32: V<0>,
    f33: V<1>,
    f34: V<0>,
    f35: V<1>,
    f36: V<0>,
    f37: V<1>,
    #[serde(skip_serializing_if = "gone")] f38: V<0>,
    f39: V<1>,
}
#[derive(Serialize, OpgModel)]
struct Keys<T> {
    #[serde(rename = "k")]
    a: T,
    #[serde(rename = "K")]
    b: T,
    #[serde(rename = "k ")]
    c: T,
    #[serde(rename = "")]
    d: T,
    #[serde(rename = "\u{e9}\"\\\n")]
    e: T,
    #[serde(rename = "$ref", skip_serializing_if = "gone")]
    f: V<0>,
    #[serde(rename = "type")]
    g: T,
    #[serde(rename = "a")]
    h: T,
    #[serde(rename = "12", skip_serializing)]
    i: T,
    #[serde(rename = "required")]
    #[opg(optional)]
    l: T,
}
#[derive(Serialize, OpgModel)]
struct VeryLong(V<0>, V<1>, V<0>, V<1>, V<0>, V<1>, V<0>, V<1>, V<0>, V<1>, V<0>, V<1>, V<0>, #[serde(skip)] V<1>, bool, V<0>, V<0>, V<0>, V<0>, u8);
#[derive(Serialize, OpgModel)]
struct ShortTuple(V<0>, #[serde(skip_serializing_if = "gone")] V<1>, #[serde(skip_serializing_if = "gone")] V<0>);
#[derive(Serialize, OpgModel)]
struct MaybeEmpty(#[serde(skip_serializing_if = "gone")] V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip_serializing_if = "gone")] V<1>);
pub fn wide() {
    pick_kinds(2, tiered(3, KINDS));
    let d = V::<0>::default;
    match choose(5) {
        3 => admitted(ty::<ShortTuple>(), &j(&ShortTuple(V::any(), V::maybe(), V::maybe()))),
        4 => admitted(ty::<MaybeEmpty>(), &j(&MaybeEmpty(V::maybe(), V::default(), V::maybe()))),
        0 => named_struct(
            ty::<VeryWide>(),
            &j(&VeryWide { f0: V::default(), f1: V::default(), f2: V::default(), f3: V::default(), f4: V::default(), f5: V::default(), f6: V::default(), f7: V::default(), f8: V::default(), f9: V::default(), f10: V::default(), f11: V::default(), f12: V::default(), f13: V::default(), f14: V::default(), f15: V::default(), f16: V::default(), f17: V::default(), f18: V::default(), f19: V::default(), f20: V::default(), f21: V::default(), f22: V::default(), f23: V::default(), f24: V::default(), f25: V::default(), f26: V::default(), f27: V::default(), f28: V::default(), f29: V::default(), f30: V::default(), f31: V::default(), f32: V::default(), f33: V::default(), f34: V::default(), f35: V::default(), f36: V::default(), f37: V::default(), f38: V::default(), f39: V::default() }),
            &j(&VeryWide { f0: V::any(), f1: V::default(), f2: V::default(), f3: V::maybe(), f4: V::default(), f5: V::default(), f6: V::default(), f7: V::default(), f8: V::default(), f9: V::default(), f10: V::default(), f11: V::default(), f12: V::default(), f13: V::default(), f14: V::default(), f15: V::default(), f16: V::default(), f17: V::default(), f18: V::default(), f19: V::default(), f20: V::default(), f21: V::default(), f22: V::default(), f23: V::default(), f24: V::default(), f25: V::default(), f26: V::default(), f27: V::default(), f28: V::default(), f29: V::default(), f30: V::default(), f31: V::default(), f32: V::default(), f33: V::default(), f34: V::default(), f35: V::default(), f36: V::default(), f37: V::default(), f38: V::maybe(), f39: V::any() }),
            &[true, true, true, false, true, false, true, true, true, false, true, true, true, true, true, false, true, false, true, true, true, true, false, true, true, true, true, true, false, false, true, true, true, true, true, false, true],
        ),
        1 => {
            let v = V::<0>::any;
            let full = j(&Keys { a: d(), b: d(), c: d(), d: d(), e: d(), f: d(), g: d(), h: d(), i: d(), l: d() });
            let some = j(&Keys { a: v(), b: d(), c: v(), d: v(), e: v(), f: V::maybe(), g: v(), h: v(), i: d(), l: v() });
            named_struct(ty::<Keys<V<0>>>(), &full, &some, &[true, true, true, true, true, false, true, true, false])
        }
        _ => {
            let e = V::<1>::default;
            tuple_struct(
                ty::<VeryLong>(),
                &j(&VeryLong(V::any(), V::any(), d(), e(), d(), e(), d(), e(), d(), e(), d(), e(), V::any(), e(), sym_bool(), d(), d(), d(), V::any(), sym_u8())),
            )
        }
    }
}
