//! Which declarations the derive accepts, and that it always answers.
use crate::tok::*;

/// Where an opg attribute may stand: container, variant, field.
#[derive(Clone, Copy, PartialEq)]
enum At {
    Container,
    Variant,
    Field,
}
const POSITIONS: u32 = 10;
fn place(pos: u32, a: &TokenStream) -> (At, TokenStream) {
    match pos {
        0 => (At::Container, quote!(#a struct S { f: T })),
        1 => (At::Field, quote!(struct S { g: T, #a f: T })),
        2 => (At::Container, quote!(#a enum E { A, B })),
        3 => (At::Variant, quote!(enum E { #a A(T), B { f: T } })),
        4 => (At::Field, quote!(enum E { A(#a T), B })),
        5 => (At::Container, quote!(#a struct S(String);)),
        6 => (At::Field, quote!(struct S(#a String);)),
        7 => (At::Variant, quote!(#[serde(tag = "t")] enum E { A, #a B { f: T } })),
        8 => (At::Field, quote!(#[serde(untagged)] enum E { A(u8, #a T), B { f: T } })),
        _ => (At::Field, quote!(struct S(T, #a T);)),
    }
}
fn is(w: &str, v: &[&str]) -> bool {
    let mut r = false;
    for x in v {
        r |= seq_eq(w, x);
    }
    r
}
const TYPES: [&str; 5] = ["string", "number", "integer", "boolean", "any"];
fn known_word(w: &str, at: At) -> bool {
    let mut r = is(w, &TYPES) | is(w, &["inline"]);
    if at != At::Variant {
        r |= is(w, &["nullable"]);
    }
    if at == At::Field {
        r |= is(w, &["optional"]);
    }
    r
}
/// Any word: accepted exactly when it is an attribute of that position.
pub fn words() {
    let pos = choose(POSITIONS);
    let s = word(1 + choose(tiered(8, 11)) as usize);
    // `any` says nothing about what a newtype is
    assume(!(seq_eq(&s, "any") & ((pos == 5) | (pos == 6))));
    let w = ident(&s);
    let (at, d) = place(pos, &quote!(#[opg(#w)]));
    let out = expand(d);
    let known = known_word(&s, at);
    check(rejected(&out) != known, "a word is accepted iff it is an attribute here");
    check(rejected(&out) != implements(&out), "errors or an implementation");
}
/// Lower case words, `_` included; keywords too.
fn word(n: usize) -> String {
    let mut b = Vec::new();
    let mut body = false;
    for i in 0..n {
        let c = sym_u8();
        let alpha = c.wrapping_sub(b'a') < 26;
        assume(alpha | (c == b'_'));
        body |= (c != b'_') | (i > 0);
        b.push(c);
    }
    assume(body);
    let s = unsafe { String::from_utf8_unchecked(b) };
    assume(!seq_eq(&s, "true") & !seq_eq(&s, "false"));
    s
}
/// Any word with a value.
pub fn values() {
    let pos = choose(POSITIONS);
    let s = word(1 + choose(tiered(8, 12)) as usize);
    let w = ident(&s);
    let form = choose(3);
    let (_, d) = place(pos, &match form {
        0 => quote!(#[opg(#w = "one")]),
        1 => quote!(#[opg(#w = 1)]),
        _ => quote!(#[opg(#w("one"))]),
    });
    let out = expand(d);
    let known = (form == 0) & is(&s, &["format", "example", "example_with"]);
    check(rejected(&out) != known, "a word with a value is accepted iff it takes a string and is given one");
    check(rejected(&out) != implements(&out), "errors or an implementation");
}
/// (what is given, what it sets, where it may stand)
fn item(k: u32) -> (TokenStream, u32, bool, bool) {
    match k {
        0 => (quote!(inline), 0, true, true),
        1 => (quote!(nullable), 1, false, true),
        2 => (quote!("text"), 2, true, true),
        3 => (quote!(format = "f"), 3, true, true),
        4 => (quote!(example = "e"), 4, true, true),
        5 => (quote!(example_with = "f(1)"), 4, true, true),
        6 => (quote!(string), 5, true, true),
        7 => (quote!(boolean), 5, true, true),
        _ => (quote!(optional), 6, false, false),
    }
}
/// Several attributes: rejected exactly when one is given twice (or does not belong there).
pub fn pairs() {
    let pos = choose(POSITIONS);
    // quick: pairs, and one attribute up to four times
    let mut items: Vec<_>;
    if thorough() || !flip() {
        let n = 2 + (thorough() && flip()) as usize;
        items = (0..n).map(|_| item(choose(9))).collect();
    } else {
        let k = choose(9);
        items = (0..3 + choose(2)).map(|_| item(k)).collect();
        items.push(item(choose(2)));
    }
    let n = items.len();
    let ts: Vec<_> = items.iter().map(|i| &i.0).collect();
    let (at, d) = place(pos, &if flip() { quote!(#[opg(#(#ts),*)]) } else { quote!(#(#[opg(#ts)])*) });
    let mut wrong = false;
    for i in 0..n {
        for k in 0..i {
            wrong |= items[i].1 == items[k].1;
        }
        wrong |= match at {
            At::Field => false,
            At::Container => !items[i].3,
            At::Variant => !items[i].2,
        };
    }
    let out = expand(d);
    check(rejected(&out) == wrong, "attributes are rejected iff one is repeated or misplaced");
    check(rejected(&out) != implements(&out), "errors or an implementation");
}
pub fn malformed() {
    let pos = choose(POSITIONS);
    let n = sym(64);
    let a = match choose(24) {
        0 => quote!(#[opg]),
        1 => quote!(#[opg = "text"]),
        2 => quote!(#[opg(5)]),
        3 => quote!(#[opg(true)]),
        4 => quote!(#[opg('c')]),
        5 => quote!(#[opg(b"text")]),
        6 => quote!(#[opg(1.5)]),
        7 => quote!(#[opg("text" "more")]),
        8 => quote!(#[opg(format)]),
        9 => quote!(#[opg(format = )]),
        10 => quote!(#[opg(format("f"))]),
        11 => quote!(#[opg(inline())]),
        12 => quote!(#[opg(nullable = "true")]),
        13 => quote!(#[opg(example = 1.5)]),
        14 => quote!(#[opg(example_with = "1 +")]),
        15 => quote!(#[opg(example_with = "")]),
        16 => quote!(#[opg(example_with = ")")]),
        17 => quote!(#[opg(opg::inline)]),
        18 => quote!(#[opg(inline nullable)]),
        19 => quote!(#[opg(-)]),
        20 => quote!(#[opg{inline}]),
        21 => quote!(#[opg(#[opg(inline)])]),
        22 => quote!(#[opg(inline, 7)]),
        _ => {
            let l = Literal::u64_unsuffixed(n & 7);
            quote!(#[opg(#l)])
        }
    };
    let (_, d) = place(pos, &a);
    let out = expand(d);
    check(rejected(&out), "malformed attributes are rejected");
    check(!implements(&out), "no implementation beside errors");
}
fn serde_container(k: u32) -> TokenStream {
    match k {
        0 => quote!(),
        1 => quote!(#[serde(rename_all = "camelCase")]),
        2 => quote!(#[serde(rename = "x")]),
        3 => quote!(#[serde(deny_unknown_fields, default)]),
        4 => quote!(#[serde(bound = "T: Clone")]),
        5 => quote!(#[serde(rename_all(serialize = "kebab-case", deserialize = "lowercase"))]),
        6 => quote!(#[serde(crate = "serde")]),
        7 => quote!(#[serde(from = "A", into = "B")]),
        8 => quote!(#[doc = "about"] #[allow(dead_code)] #[cfg_attr(all(), serde(default))]),
        9 => quote!(#[serde(bound(serialize = "T: Clone", deserialize = ""))]),
        10 => quote!(#[serde()]),
        11 => quote!(#[repr(C)]),
        12 => quote!(#[repr(align(8))] #[serde(rename(serialize = "y"))]),
        13 => quote!(#[serde(expecting = "a thing", try_from = "A")]),
        14 => quote!(#[serde(remote = "m::Other", default = "m::f")] #[automatically_derived]),
        15 => quote!(#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))] #[non_exhaustive] #[must_use = "x"]),
        _ => quote!(#[serde(rename_all = "snake_case", rename(deserialize = "z"))]),
    }
}
const CONTAINERS: u32 = 17;
fn serde_field(k: u32) -> TokenStream {
    match k {
        0 => quote!(),
        1 => quote!(#[serde(skip)]),
        2 => quote!(#[serde(skip_serializing_if = "Option::is_none", default)]),
        3 => quote!(#[serde(rename = "")]),
        4 => quote!(#[serde(with = "m", borrow)]),
        5 => quote!(#[serde(skip_serializing, skip_deserializing)]),
        6 => quote!(#[serde(alias = "a", alias = "b")]),
        7 => quote!(#[serde(getter = "S::get")]),
        8 => quote!(#[serde(rename(deserialize = "a"))]),
        9 => quote!(#[serde(default = "path::to::f")]),
        10 => quote!(#[serde(borrow = "'a + 'b")]),
        11 => quote!(#[serde(serialize_with = "m::f", deserialize_with = "m::g")]),
        12 => quote!(#[serde(bound(serialize = "T: Clone"), rename(serialize = "a", deserialize = "b"))]),
        _ => quote!(#[serde(flatten)]),
    }
}
const FIELDS: u32 = 14;
fn field_type(k: u32) -> TokenStream {
    match k {
        0 => quote!(T),
        1 => quote!(Option<Vec<T>>),
        2 => quote!(&'a str),
        3 => quote!((T, [u8; 4])),
        4 => quote!(PhantomData<T>),
        5 => quote!(T::Item),
        6 => quote!(fn(T) -> u8),
        7 => quote!(Box<dyn Tr + 'a>),
        8 => quote!(m!(T)),
        _ => quote!(<T as Tr>::Out),
    }
}
const TYPE_FORMS: u32 = 10;
fn generics(k: u32) -> (TokenStream, TokenStream) {
    match k {
        0 => (quote!(), quote!()),
        1 => (quote!(<T>), quote!()),
        2 => (quote!(<'a, T: Tr + 'a = u8>), quote!(where T: Clone)),
        _ => (quote!(<'a, 'b: 'a, T, const N: usize>), quote!(where T: Tr<Item = u8>, [u8; N]: Sized)),
    }
}
/// `supported`: nothing in the declaration is a problem to report.
fn answers(d: TokenStream, supported: bool) {
    let out = expand(d);
    check(!supported || implements(&out), "a declaration without a problem gets an implementation");
    check(rejected(&out) != implements(&out), "errors or an implementation");
    check(!out.is_empty(), "an answer");
}
pub fn structs() {
    let part = if thorough() { 2 } else { choose(2) };
    let c = serde_container(if part != 1 { choose(CONTAINERS) } else { 0 });
    let (g, w) = generics(if part != 1 { choose(4) } else { 2 });
    let f = serde_field(if part != 0 { choose(FIELDS) } else { 0 });
    let t = field_type(if part != 0 { choose(TYPE_FORMS) } else { 0 });
    let id = ident(["a", "r_", "_x"][choose(tiered(1, 3)) as usize]);
    let form = choose(9);
    let d = match form {
        0 => quote!(#c struct S #g #w { #f #id: #t }),
        1 => quote!(#c struct S #g #w { #f pub #id: #t, pub(crate) b: u8, }),
        2 => quote!(#c pub(super) struct S #g (#f #t) #w;),
        3 => quote!(#c struct S #g (#f #t, u8) #w;),
        4 => quote!(#c struct S #g #w {}),
        5 => quote!(#c struct S #g () #w;),
        6 => quote!(#c struct S #g #w;),
        7 => quote!(#c #[serde(transparent)] struct S #g #w { #f #id: #t }),
        _ => quote!(#c #[serde(tag = "t")] struct S #g #w { #f #id: #t }),
    };
    // unit structs are not supported
    answers(d, form != 6);
}
fn serde_variant(k: u32) -> TokenStream {
    match k {
        0 => quote!(),
        1 => quote!(#[serde(skip)]),
        2 => quote!(#[serde(rename = "x")]),
        3 => quote!(#[serde(rename_all = "UPPERCASE")]),
        4 => quote!(#[serde(other)]),
        5 => quote!(#[serde(untagged)]),
        6 => quote!(#[serde(alias = "a", skip_deserializing)]),
        7 => quote!(#[serde(with = "m")]),
        _ => quote!(#[serde(skip_serializing, bound = "")]),
    }
}
const VARIANTS: u32 = 9;
pub fn enums() {
    // quick: containers and generics, or variants and fields; thorough: all together
    let part = if thorough() { 2 } else { choose(2) };
    let kind = if part != 1 { choose(CONTAINERS) } else { 0 };
    let c = serde_container(kind);
    let (g, w) = generics(if part != 1 { choose(4) } else { 1 });
    let repr = choose(6);
    let tag = match repr {
        0 => quote!(),
        1 => quote!(#[serde(tag = "t")]),
        2 => quote!(#[serde(tag = "t", content = "c")]),
        3 => quote!(#[serde(untagged)]),
        4 => quote!(#[repr(u8)]),
        _ => quote!(#[serde(rename_all_fields = "camelCase")]),
    };
    let v = serde_variant(if part != 0 { choose(VARIANTS) } else { 0 });
    let f = serde_field(if part != 0 { choose(FIELDS) } else { 0 });
    let form = choose(12);
    // serde rejects tuple variants in internally tagged enums
    assume(!(repr == 1 && (form == 5 || form == 7)));
    let d = match form {
        0 => quote!(#c #tag enum E #g #w {}),
        1 => quote!(#c #tag enum E #g #w { #v A }),
        2 => quote!(#c #tag enum E #g #w { #v A, B = 5 }),
        3 => quote!(#c #tag enum E #g #w { #v A = 1, B = 1 << 4, C = -3 }),
        4 => quote!(#c #tag enum E #g #w { #v A(#f T) }),
        5 => quote!(#c #tag enum E #g #w { #v A(#f T, u8), B }),
        6 => quote!(#c #tag enum E #g #w { #v A { #f a: T }, B(u8) }),
        7 => quote!(#c #tag enum E #g #w { #v A(), B {} }),
        8 => quote!(#c #tag enum E #g #w { B { b: u8 }, #v A { #f a: T, c: u8 }, }),
        9 => quote!(#c #tag enum E #g #w { B(#f T), #v A }),
        10 => quote!(#c #tag enum E #g #w { #v r#A(#f T) }),
        _ => quote!(#c #tag enum E #g #w { #v __(#f T), }),
    };
    // some variants with a discriminant and some without, untagged units only, two repr attributes: not supported
    answers(d, form != 2 && !(repr == 3 && form < 4) && !(repr == 4 && (kind == 11 || kind == 12)));
}

/// Declarations of unusual forms, with and without an opg attribute on them.
pub fn forms() {
    let a = match choose(9) {
        0 => quote!(),
        1 => quote!(#[opg()]),
        2 => quote!(#[opg("text",)]),
        3 => quote!(#[opg(r#"a "text""#, format = r"f", inline)]),
        4 => quote!(#[doc(hidden)] #[opg(inline)] #[doc = "x"] #[opg("text")]),
        5 => quote!(#[tool::opg(5)] #[opg::other = 3]),
        6 => quote!(#[opg(example_with = "m::f::<u8>(1, \"a\").x[0] + S::K")]),
        7 => quote!(#[opg(inline,)] #[opg()] #[opg("text")]),
        _ => quote!(#[opg("t\u{e9}xt\n", example = "")]),
    };
    let (d, supported) = match choose(44) {
        0 => (quote!(#a pub(in a::b) struct S { pub(in a::b) f: T }), true),
        1 => (quote!(#a struct S<const N: usize = 3> { f: [u8; N] }), true),
        2 => (quote!(#a struct S where Self: Sized { f: T }), true),
        3 => (quote!(#a struct S<'a, T: ?Sized + 'a>(#[serde(borrow)] &'a T) where for<'b> &'b T: Tr<'b>;), true),
        4 => (quote!(#a struct S { r#type: T, r#fn: r#T }), true),
        5 => (quote!(#a struct S { f: *const T, g: !, h: (T), i: (), j: [T] }), true),
        6 => (quote!(#a struct S { f: Box<dyn Fn(u8) -> T + Send>, g: extern "C" fn(), h: unsafe fn(x: u8, ...) }), true),
        7 => (quote!(#a struct S { f: _ }), true),
        8 => (quote!(#a struct S { #[cfg(x)] f: T, #[allow(dead_code)] #[doc = "a"] g: T }), true),
        9 => (quote!(#a struct S(#[cfg(x)] T,);), true),
        10 => (quote!(#a struct S<>(T) where;), true),
        11 => (quote!(#a struct S<> where {}), true),
        12 => (quote!(#a #[serde(transparent)] struct S { f: T, #[serde(skip)] g: PhantomData<T> }), true),
        13 => (quote!(#a #[serde(transparent)] struct S(#[serde(skip)] PhantomData<T>, T);), true),
        14 => (quote!(#a struct S(#[serde(skip)] u8, #[serde(skip)] T);), true),
        15 => (quote!(#a struct S { #[serde(skip)] f: T }), true),
        16 => (quote!(#a struct S { #[serde(rename = "g")] f: T, g: T }), true),
        17 => (quote!(#a struct S { a: T, b: T, c: T, d: T, e: T, f: T, g: T, h: T, i: T, j: T, k: T, l: T, m: T, n: T, o: T, p: T, q: T }), true),
        18 => (quote!(#a struct S(T, T, T, T, T, T, T, T, T, T, T, T, T, T, T, T, T);), true),
        19 => (quote!(#a struct été { naïve: T }), true),
        20 => (quote!(#a enum E { #[cfg(x)] A, #[doc = "b"] B }), true),
        21 => (quote!(#a #[repr(i8)] enum E { A = -1, B = 0x7f, C = b'c' as i8 }), true),
        22 => (quote!(#a #[repr(u16)] enum E { A = K, B = m::f(2), C = !1 }), true),
        23 => (quote!(#a #[repr(isize)] enum E { A = 1 }), true),
        24 => (quote!(#a #[repr(u128)] enum E { A = 1, B = 2 }), true),
        25 => (quote!(#a enum E { A, A { f: T }, A(T) }), true),
        26 => (quote!(#a enum E { r#fn(T), r#match { r#type: T } }), true),
        27 => (quote!(#a enum E<const N: usize> { A([u8; N]), B { f: [T; N] } }), true),
        28 => (quote!(#a enum E { Été, ÀÇ { é: T }, 東(T) }), true),
        29 => (quote!(#a #[serde(tag = "t")] enum E { A { t: T }, B(T), C }), true),
        30 => (quote!(#a #[serde(tag = "", content = "")] enum E { A, B(T) }), true),
        31 => (quote!(#a #[serde(untagged)] enum E { A(T), B(T, T), C { f: T } }), true),
        32 => (quote!(#a enum E { A, B, C, D, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T }), true),
        33 => (quote!(#a enum E { A(#[serde(skip)] T), B { #[serde(skip)] f: T } }), true),
        34 => (quote!(#a enum E { pub A, crate B }), false),
        // syn without its "full" feature reports this one
        42 => (quote!(#a #[repr(u8)] enum E { A = { 3 } }), false),
        35 => (quote!(#a union U { f: u8, g: T }), false),
        36 => (quote!(#a #[serde(tag = "t")] #[serde(untagged)] enum E { A(T) }), false),
        37 => (quote!(#a #[serde(content = "c")] enum E { A(T) }), false),
        38 => (quote!(#a #[serde(tag = "t")] struct S(T);), false),
        39 => (quote!(#a #[serde(transparent)] struct S { f: T, g: T }), false),
        40 => (quote!(#a #[serde(transparent)] enum E { A(T) }), false),
        41 => (quote!(#a #[serde(unknown)] struct S { #[serde(rename = 5)] f: T }), false),
        _ => (quote!(#a #[serde(rename_all = "nonsense")] struct S { #[serde(default, default)] f: T }), false),
    };
    answers(d, supported);
}

/// Values of serde's attributes that are paths or lists, wherever they stand.
pub fn serde_values() {
    let a = match choose(24) {
        0 => quote!(skip_serializing_if = "f"),
        1 => quote!(skip_serializing_if = "<Option<T>>::is_none"),
        2 => quote!(skip_serializing_if = "<Vec<T> as m::Tr<'static, u8>>::gone"),
        3 => quote!(skip_serializing_if = "Option::<T>::is_none"),
        4 => quote!(skip_serializing_if = "::m::f"),
        5 => quote!(skip_serializing_if = "self::f"),
        6 => quote!(skip_serializing_if = "super::super::f"),
        7 => quote!(skip_serializing_if = "crate::a::r#fn"),
        8 => quote!(skip_serializing_if = "Self::gone"),
        9 => quote!(skip_serializing_if = "<[_]>::is_empty"),
        10 => quote!(skip_serializing_if = "<[T; 3]>::is_empty"),
        11 => quote!(skip_serializing_if = " str :: is_empty "),
        12 => quote!(skip_serializing_if = "<&'static str as Tr>::gone"),
        13 => quote!(skip_serializing_if = "HashMap::<String, Vec<(T, u8)>>::is_empty"),
        14 => quote!(skip_serializing_if = r"f"),
        15 => quote!(rename = r#"a "b""#),
        16 => quote!(rename(serialize = "a"), rename(deserialize = "b")),
        17 => quote!(rename(deserialize = "a", serialize = "b",)),
        18 => quote!(default = "<T as Default>::default"),
        19 => quote!(with = "::m::n"),
        20 => quote!(serialize_with = "<T>::to::<S>"),
        21 => quote!(alias = "a", default, skip_serializing_if = "f", rename = "b"),
        22 => quote!(skip_deserializing, bound = "T: m::Tr<Out = [u8; 3]>"),
        _ => quote!(deserialize_with = "m::f", borrow),
    };
    let a = if flip() { quote!(#[serde(#a)]) } else { quote!(#[opg("text")] #[serde(#a,)] #[serde()]) };
    let d = match choose(10) {
        0 => quote!(struct S { #a f: T }),
        1 => quote!(struct S { g: T, #a f: T, h: T }),
        2 => quote!(struct S(#a T);),
        3 => quote!(struct S(T, #a T);),
        4 => quote!(enum E { A(#a T), B }),
        5 => quote!(enum E { B, A { #a f: T } }),
        6 => quote!(#[serde(tag = "t")] enum E { A { #a f: T } }),
        7 => quote!(#[serde(tag = "t", content = "c")] enum E { A(T, #a T) }),
        8 => quote!(#[serde(untagged)] enum E { A(T), B { #a f: T } }),
        _ => quote!(#[serde(transparent)] struct S { #a f: T }),
    };
    answers(d, true);
}
