//! Standard types.
use crate::kit::*;
use std::cell::*;
use std::collections::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::Arc;

fn single_of(m: &Model) -> Option<&ModelTypeDescription> {
    match &m.data {
        ModelData::Single(t) if !t.nullable => Some(&t.type_description),
        _ => None,
    }
}
/// An integer type: kind, and a format (if any) whose range covers the type.
fn int_case(t: Ty, v: J, lo: i128, hi: i128) {
    admitted(t, &v);
    let m = (t.schema)(&mut Components::default());
    let ok = match single_of(&m) {
        Some(ModelTypeDescription::Integer(s)) => match s.format.as_deref() {
            None => true,
            Some(f) => match int_range(f) {
                Some((l, h)) => l <= lo && hi <= h,
                None => false,
            },
        },
        _ => false,
    };
    check(ok, "an integer format covers the range of the type");
    inline_only(t);
}
/// Scalars have no name: always embedded, never registered.
fn inline_only(t: Ty) {
    let mut cx = Components::default();
    let p = gen_params();
    let r = (t.mention)(&mut cx, sym_bool(), &p);
    let want = overlay(&(t.schema)(&mut Components::default()), &p);
    check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &want)), "a scalar is embedded with its context parameters");
    check(cx.schemas.is_empty() && cx.security_schemes.is_empty(), "a scalar registers nothing");
}
macro_rules! ints {
    ($($i:expr => $t:ident $a:ident),*) => {
        match choose(2 * [$($i),*].len() as u32) {
            $(n if n == 2 * $i => {
                let v = sym(64) as $t;
                int_case(ty::<$t>(), j(&v), $t::MIN as i128, $t::MAX as i128)
            })*
            $(n if n == 2 * $i + 1 => {
                let v = $a::new(sym(64) as $t);
                int_case(ty::<$a>(), j(&v), $t::MIN as i128, $t::MAX as i128)
            })*
            _ => assume(false),
        }
    };
}
pub fn integers() {
    ints!(0 => i8 AtomicI8, 1 => u8 AtomicU8, 2 => i16 AtomicI16, 3 => u16 AtomicU16, 4 => i32 AtomicI32, 5 => u32 AtomicU32,
          6 => i64 AtomicI64, 7 => u64 AtomicU64, 8 => isize AtomicIsize, 9 => usize AtomicUsize)
}
fn number_case(t: Ty, v: J, double: bool) {
    admitted(t, &v);
    let m = (t.schema)(&mut Components::default());
    let ok = match single_of(&m) {
        Some(ModelTypeDescription::Number(s)) => match s.format.as_deref() {
            None | Some("double") => true,
            Some("float") => !double,
            _ => false,
        },
        _ => false,
    };
    check(ok, "a number format covers the range of the type");
    inline_only(t);
}
pub fn scalars() {
    match choose(9) {
        0 => number_case(ty::<f32>(), j(&f32::from_bits(sym(32) as u32)), false),
        1 => number_case(ty::<f64>(), j(&f64::from_bits(sym(64))), true),
        2 => {
            admitted(ty::<bool>(), &j(&sym_bool()));
            inline_only(ty::<bool>())
        }
        3 => {
            admitted(ty::<AtomicBool>(), &j(&AtomicBool::new(sym_bool())));
            inline_only(ty::<AtomicBool>())
        }
        4 => {
            let c = char::from_u32(sym(32) as u32);
            assume(c.is_some());
            admitted(ty::<char>(), &j(&c.unwrap_or('a')));
            inline_only(ty::<char>())
        }
        5 => {
            admitted(ty::<str>(), &j(text(3).as_str()));
            inline_only(ty::<str>())
        }
        6 => {
            admitted(ty::<String>(), &j(&text(3)));
            inline_only(ty::<String>())
        }
        7 => {
            admitted(ty::<()>(), &j(&()));
            inline_only(ty::<()>());
            // and nothing else
            let m = <()>::get_schema(&mut Components::default());
            check(!admits(&Components::default(), &m, &J::Str(ascii(1))) && !admits(&Components::default(), &m, &J::Bool(sym_bool())), "only null is a unit");
        }
        _ => {
            let d = ascii(3);
            let (t, v) = match choose(4) {
                0 => (ty::<uuid::Uuid>(), "uuid"),
                1 => (ty::<chrono::NaiveDateTime>(), ""),
                2 => (ty::<chrono::DateTime<chrono::Utc>>(), ""),
                _ => (ty::<chrono::NaiveDate>(), "date"),
            };
            admitted(t, &J::Str(d));
            let m = (t.schema)(&mut Components::default());
            check(
                match single_of(&m) {
                    Some(ModelTypeDescription::String(s)) => v.is_empty() || s.data.format.as_deref() == Some(v),
                    _ => false,
                },
                "a formatted text",
            );
            inline_only(t)
        }
    }
}

/// An array of what `elem` is: embedded, unnamed, its items a mention of the element.
fn array_case(t: Ty, elem: Ty, v: J) {
    admitted(t, &v);
    let m = (t.schema)(&mut Components::default());
    let want = (elem.mention)(&mut Components::default(), false, &params_none());
    check(
        match single_of(&m) {
            Some(ModelTypeDescription::Array(a)) => eq_ref(&a.items, &want),
            _ => false,
        },
        "the items of a sequence are documented as its element type",
    );
    embedded(t);
}
/// An unnamed container is embedded, whatever is asked.
fn embedded(t: Ty) {
    let mut cx = Components::default();
    let p = gen_params();
    let r = (t.mention)(&mut cx, sym_bool(), &p);
    let mut want_cx = Components::default();
    let want = overlay(&(t.schema)(&mut want_cx), &p);
    check(matches!(&r, ModelReference::Inline(m) if eq_model(m, &want)), "a container is embedded with its context parameters");
    check(eq_components(&cx, &want_cx) && closed(&cx) && closed_ref(&cx, &r), "mentioning a container registers what it holds");
}
fn vs<const I: usize>() -> Vec<V<I>> {
    (0..choose(3)).map(|_| V::any()).collect()
}
pub fn sequences() {
    set_kind(0, choose(KINDS));
    let e = ty::<V<0>>();
    match choose(11) {
        0 => array_case(ty::<Vec<V<0>>>(), e, j(&vs::<0>())),
        1 => array_case(ty::<[V<0>]>(), e, j(&vs::<0>()[..])),
        2 => array_case(ty::<LinkedList<V<0>>>(), e, j(&vs::<0>().into_iter().collect::<LinkedList<_>>())),
        3 => array_case(ty::<VecDeque<V<0>>>(), e, j(&vs::<0>().into_iter().collect::<VecDeque<_>>())),
        4 => {
            unordered();
            let s: HashSet<u8> = [3, 200].iter().cloned().take(choose(3) as usize).collect();
            array_case(ty::<HashSet<u8>>(), ty::<u8>(), j(&s))
        }
        5 => {
            let s: BinaryHeap<i16> = (0..choose(3)).map(|_| sym(16) as i16).collect();
            array_case(ty::<BinaryHeap<i16>>(), ty::<i16>(), j(&s))
        }
        6 => array_case(ty::<[V<0>; 1]>(), e, j(&[V::<0>::any()])),
        7 => array_case(ty::<[V<0>; 3]>(), e, j(&[V::<0>::any(), V::any(), V::any()])),
        8 => array_case(ty::<[u8; 32]>(), ty::<u8>(), j(&[sym_u8(); 32])),
        9 => array_case(ty::<Vec<Vec<V<0>>>>(), ty::<Vec<V<0>>>(), j(&vec![vs::<0>(), vs::<0>()])),
        _ => array_case(ty::<Vec<Option<Box<u8>>>>(), ty::<Option<Box<u8>>>(), j(&vec![None, Some(Box::new(sym_u8()))])),
    }
}
fn map_case(t: Ty, elem: Ty, v: J) {
    admitted(t, &v);
    let m = (t.schema)(&mut Components::default());
    let want = (elem.mention)(&mut Components::default(), false, &params_none());
    check(
        match single_of(&m) {
            Some(ModelTypeDescription::Object(o)) => o.properties.is_empty() && o.required.is_empty() && matches!(&o.additional_properties, Some(r) if eq_ref(r, &want)),
            _ => false,
        },
        "the values of a map are documented as its value type",
    );
    embedded(t);
}
pub fn maps() {
    set_kind(0, choose(KINDS));
    let e = ty::<V<0>>();
    match choose(5) {
        0 => {
            let mut m = BTreeMap::new();
            for _ in 0..choose(3) {
                m.insert(ascii(1), V::<0>::any());
            }
            map_case(ty::<BTreeMap<String, V<0>>>(), e, j(&m))
        }
        1 => {
            unordered();
            let mut m = HashMap::new();
            for k in ["a", "b"].iter().take(choose(3) as usize) {
                m.insert(*k, V::<0>::any());
            }
            map_case(ty::<HashMap<&str, V<0>>>(), e, j(&m))
        }
        2 => {
            let mut m = BTreeMap::new();
            m.insert(7u16, V::<0>::any());
            map_case(ty::<BTreeMap<u16, V<0>>>(), e, j(&m))
        }
        3 => {
            let mut m = BTreeMap::new();
            m.insert("k", vec![V::<0>::any()]);
            map_case(ty::<BTreeMap<&str, Vec<V<0>>>>(), ty::<Vec<V<0>>>(), j(&m))
        }
        _ => {
            let mut m = HashMap::new();
            m.insert("k", HashMap::<String, u8>::new());
            map_case(ty::<HashMap<&str, HashMap<String, u8>>>(), ty::<HashMap<String, u8>>(), j(&m))
        }
    }
}
fn tuple_case(t: Ty, v: J) {
    admitted(t, &v);
    let mut cx = Components::default();
    let m = (t.schema)(&mut cx);
    check(exact_tuple(&cx, &m, &v), "one item alternative per element, in order");
    embedded(t);
}
pub fn tuples() {
    pick_kinds(2, tiered(3, KINDS));
    let (a, b) = (V::<0>::any, V::<1>::any);
    let (u, t) = (sym_u8, || ascii(1));
    match choose(11) {
        0 => tuple_case(ty::<(V<0>,)>(), j(&(a(),))),
        1 => tuple_case(ty::<(V<0>, V<1>)>(), j(&(a(), b()))),
        2 => tuple_case(ty::<(V<0>, u8, V<1>)>(), j(&(a(), u(), b()))),
        3 => tuple_case(ty::<(V<0>, u8, V<1>, String)>(), j(&(a(), u(), b(), t()))),
        4 => tuple_case(ty::<(u8, String, bool, f32, V<0>)>(), j(&(u(), t(), sym_bool(), 1.5f32, a()))),
        5 => tuple_case(ty::<(V<0>, u8, u16, bool, i64, V<1>)>(), j(&(a(), u(), sym(16) as u16, sym_bool(), sym(64) as i64, b()))),
        6 => tuple_case(ty::<(u8, u8, u8, u8, u8, u8, bool)>(), j(&(u(), u(), u(), u(), u(), u(), sym_bool()))),
        7 => tuple_case(ty::<(u8, u8, u8, u8, u8, u8, u8, bool)>(), j(&(u(), u(), u(), u(), u(), u(), u(), sym_bool()))),
        8 => tuple_case(ty::<(u8, u8, u8, u8, u8, u8, u8, u8, bool)>(), j(&(u(), u(), u(), u(), u(), u(), u(), u(), sym_bool()))),
        9 => tuple_case(ty::<(String, u8, u8, u8, u8, u8, u8, u8, u8, bool)>(), j(&(t(), u(), u(), u(), u(), u(), u(), u(), u(), sym_bool()))),
        _ => tuple_case(ty::<((V<0>, bool), Vec<V<1>>)>(), j(&((a(), sym_bool()), vs::<1>()))),
    }
}

/// A wrapper is the wrapped type: same schema, same references, same registry.
fn transparent(w: Ty, wn: Option<std::borrow::Cow<'static, str>>, t: Ty, tn: Option<std::borrow::Cow<'static, str>>) {
    let (mut a, mut b) = (Components::default(), Components::default());
    check(eq_model(&(w.schema)(&mut a), &(t.schema)(&mut b)) && eq_components(&a, &b), "a wrapper has the schema of the wrapped type");
    check(
        match (&wn, &tn) {
            (None, None) => true,
            (Some(a), Some(b)) => seq_eq(a, b),
            _ => false,
        },
        "a wrapper has the name of the wrapped type",
    );
    let (mut a, mut b) = (Components::default(), Components::default());
    let p = gen_params();
    let inline = sym_bool();
    let (x, y) = ((w.mention)(&mut a, inline, &p), (t.mention)(&mut b, inline, &p));
    check(eq_ref(&x, &y) && eq_components(&a, &b), "a wrapper is mentioned as the wrapped type");
}
macro_rules! wrap {
    ($w:ty, $t:ty) => {
        transparent(ty::<$w>(), <$w>::type_name(), ty::<$t>(), <$t>::type_name())
    };
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
struct Inl {
    a: V<0>,
}
#[derive(Serialize, OpgModel)]
struct Nam {
    a: V<0>,
}
pub fn wrappers() {
    set_kind(0, choose(KINDS));
    if flip() {
        described_kinds();
    }
    match choose(17) {
        0 => wrap!(&V<0>, V<0>),
        1 => wrap!(&mut V<0>, V<0>),
        2 => wrap!(Box<V<0>>, V<0>),
        3 => wrap!(Rc<V<0>>, V<0>),
        4 => wrap!(Arc<V<0>>, V<0>),
        5 => wrap!(Cell<V<0>>, V<0>),
        6 => wrap!(RefCell<V<0>>, V<0>),
        7 => wrap!(Box<Rc<&V<0>>>, V<0>),
        8 => wrap!(&str, str),
        9 => wrap!(Arc<str>, str),
        10 => wrap!(Box<[V<0>]>, [V<0>]),
        11 => wrap!(Box<Inl>, Inl),
        12 => wrap!(Arc<RefCell<Nam>>, Nam),
        13 => wrap!(&Inl, Inl),
        14 => wrap!(Rc<Vec<V<0>>>, Vec<V<0>>),
        15 => wrap!(Box<Option<V<0>>>, Option<V<0>>),
        _ => wrap!(&&mut Nam, Nam),
    }
    // and serializes as one
    match choose(4) {
        0 => admitted(ty::<Box<V<0>>>(), &j(&Box::new(V::<0>::any()))),
        1 => admitted(ty::<Cell<u8>>(), &j(&Cell::new(sym_u8()))),
        2 => admitted(ty::<Arc<RefCell<V<0>>>>(), &j(&Arc::new(RefCell::new(V::<0>::any())))),
        _ => admitted(ty::<&V<0>>(), &j(&&V::<0>::any())),
    }
}
/// Option is the wrapped schema made nullable.
fn optional(o: Ty, t: Ty, embedded: bool) {
    let (mut a, mut b) = (Components::default(), Components::default());
    let (x, y) = ((o.schema)(&mut a), (t.schema)(&mut b));
    let mut want = y;
    if let ModelData::Single(t) = &mut want.data {
        t.nullable = true;
    }
    check(eq_model(&x, &want) && eq_components(&a, &b), "an optional schema differs from the wrapped one only in being nullable");
    let mut cx = Components::default();
    let inline = embedded || sym_bool();
    let r = (o.mention)(&mut cx, inline, &params_none());
    match (&r, inline) {
        (ModelReference::Inline(m), _) => check(eq_model(m, &want), "an embedded option is nullable"),
        (ModelReference::Link(l), false) => check(matches!(cx.schemas.get(l), Some(m) if eq_model(m, &want)), "an option mentioned first registers a nullable schema"),
        _ => check(false, "an embedded option is embedded"),
    }
    check(closed(&cx) && closed_ref(&cx, &r), "no dangling reference");
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t")]
enum OneOfInline {
    A { a: u8 },
}
pub fn options() {
    set_kind(0, choose(KINDS));
    if flip() {
        described_kinds();
    }
    let n = flip();
    match choose(7) {
        0 => {
            optional(ty::<Option<V<0>>>(), ty::<V<0>>(), !named(0));
            admitted(ty::<Option<V<0>>>(), &j(&if n { None } else { Some(V::<0>::any()) }));
        }
        1 => {
            optional(ty::<Option<Vec<V<0>>>>(), ty::<Vec<V<0>>>(), true);
            admitted(ty::<Option<Vec<V<0>>>>(), &j(&if n { None } else { Some(vec![V::<0>::any()]) }));
        }
        2 => {
            optional(ty::<Option<Box<str>>>(), ty::<str>(), true);
            admitted(ty::<Option<Box<str>>>(), &j(&if n { None } else { Some(ascii(1)) }));
        }
        3 => {
            optional(ty::<Box<Option<u64>>>(), ty::<u64>(), true);
            admitted(ty::<Option<u64>>(), &j(&if n { None } else { Some(sym(64)) }));
        }
        4 => {
            optional(ty::<Option<Option<f64>>>(), ty::<f64>(), true);
            admitted(ty::<Option<Option<f64>>>(), &j(&if n { None } else { Some(Some(f64::from_bits(sym(64)))) }));
        }
        5 => optional(ty::<Option<(V<0>, u8)>>(), ty::<(V<0>, u8)>(), true),
        _ => {
            optional(ty::<Option<Inl>>(), ty::<Inl>(), true);
            admitted(ty::<Option<Inl>>(), &j(&if n { None } else { Some(Inl { a: V::any() }) }));
        }
    }
}
/// Known findings: what an optional named type, or an optional alternative, documents.
#[derive(Serialize, OpgModel)]
struct Both {
    plain: Nam,
    maybe: Option<Nam>,
}
#[derive(Serialize, OpgModel)]
struct BothOther {
    maybe: Option<Nam>,
    plain: Nam,
}
pub fn known() {
    set_kind(0, choose(KINDS));
    check(true, "reached");
    let nam = || Nam { a: V::any() };
    match choose(3) {
        0 => {
            let mut cx = Components::default();
            let m = schema_of(ty::<Both>(), &mut cx);
            let v = j(&Both { plain: nam(), maybe: if flip() { Some(nam()) } else { None } });
            check(admits(&cx, &m, &v), "kf.option-of-named-type-not-nullable");
        }
        1 => {
            let mut cx = Components::default();
            let m = schema_of(ty::<BothOther>(), &mut cx);
            let v = J::Obj(vec![("maybe".to_owned(), J::Null), ("plain".to_owned(), J::Null)]);
            check(!admits(&cx, &m, &v), "kf.option-mention-makes-named-type-nullable");
        }
        _ => {
            let mut cx = Components::default();
            let m = schema_of(ty::<Option<OneOfInline>>(), &mut cx);
            let v = j(&if flip() { Some(OneOfInline::A { a: sym_u8() }) } else { None });
            check(admits(&cx, &m, &v), "kf.option-of-alternatives-not-nullable");
        }
    }
}

/// Containers and wrappers of an arbitrary type, over a registry that may hold it already.
pub fn arbitrary() {
    gen_leaf_type(0, 0);
    let s = spec(0).clone();
    let mut cx = gen_registry(1);
    let old = cx.clone();
    let item = match &s.name {
        Some(n) => ModelReference::Link(n.clone()),
        None => ModelReference::Inline(s.schema.clone()),
    };
    let array = |r: ModelReference| plain(ModelTypeDescription::Array(ModelArray { items: Box::new(r) }));
    let map = |r: ModelReference| plain(ModelTypeDescription::Object(ModelObject { additional_properties: Some(Box::new(r)), ..Default::default() }));
    let tuple = |v: Vec<ModelReference>| array(ModelReference::Inline(model(ModelData::OneOf(ModelOneOf { one_of: v }))));
    let null = |mut m: Model| {
        if let ModelData::Single(t) = &mut m.data {
            t.nullable = true;
        }
        m
    };
    let boolean = || ModelReference::Inline(boolean());
    // the schema of a wrapper is the wrapped one, that of a container mentions it
    let (got, want, mentions) = match choose(tiered(14, 20)) {
        0 => (<Vec<T<0>>>::get_schema(&mut cx), array(item), true),
        1 => (<BTreeMap<String, T<0>>>::get_schema(&mut cx), map(item), true),
        2 => (<(T<0>, bool)>::get_schema(&mut cx), tuple(vec![item, boolean()]), true),
        3 => (<[T<0>; 5]>::get_schema(&mut cx), array(item), true),
        4 => (<Option<T<0>>>::get_schema(&mut cx), null(s.schema.clone()), false),
        5 => (<Box<T<0>>>::get_schema(&mut cx), s.schema.clone(), false),
        6 => (<Arc<Rc<T<0>>>>::get_schema(&mut cx), s.schema.clone(), false),
        7 => (<RefCell<Cell<T<0>>>>::get_schema(&mut cx), s.schema.clone(), false),
        8 => (<&mut &T<0>>::get_schema(&mut cx), s.schema.clone(), false),
        9 => (<Option<Vec<T<0>>>>::get_schema(&mut cx), null(array(item)), true),
        10 => (<HashMap<u8, Vec<T<0>>>>::get_schema(&mut cx), map(ModelReference::Inline(array(item))), true),
        11 => (<HashSet<T<0>>>::get_schema(&mut cx), array(item), true),
        12 => (<(bool, T<0>, bool)>::get_schema(&mut cx), tuple(vec![boolean(), item, boolean()]), true),
        13 => (<Vec<Box<T<0>>>>::get_schema(&mut cx), array(item), true),
        14 => (<LinkedList<T<0>>>::get_schema(&mut cx), array(item), true),
        15 => (<VecDeque<T<0>>>::get_schema(&mut cx), array(item), true),
        16 => (<BinaryHeap<T<0>>>::get_schema(&mut cx), array(item), true),
        17 => (<[T<0>]>::get_schema(&mut cx), array(item), true),
        18 => (<(T<0>,)>::get_schema(&mut cx), tuple(vec![item]), true),
        _ => (<Box<Option<&T<0>>>>::get_schema(&mut cx), null(s.schema.clone()), false),
    };
    check(eq_model(&got, &want), "a container is documented over the mention of its element, a wrapper as what it wraps");
    match &s.name {
        Some(n) if mentions => {
            check(registered(&cx, n), "the element is registered");
            let known = registered(&old, n);
            check(cx.schemas.len() == old.schemas.len() + !known as usize, "nothing else is registered");
            check(known || cx.schemas.get(n).map_or(false, |m| eq_model(m, &s.schema)), "the element is registered as it is");
        }
        _ => check(eq_components(&old, &cx), "nothing is registered"),
    }
    observe(cx.schemas.len() as u64);
}
/// Arrays of every supported length.
pub fn lengths() {
    macro_rules! lens {
        ($($n:literal)*) => {
            match choose(32) + 1 {
                $($n => array_case(ty::<[V<0>; $n]>(), ty::<V<0>>(), j(&std::array::from_fn::<V<0>, $n, _>(|i| if i == 0 { V::any() } else { V::default() }))),)*
                _ => assume(false),
            }
        };
    }
    set_kind(0, choose(tiered(2, KINDS)));
    lens!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
