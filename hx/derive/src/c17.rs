//! Texts pass through the derive unchanged: the output for a declaration carrying a symbolic
//! text is the output for the same declaration carrying a marker, with the marker replaced.
use crate::tok::*;

fn attr(k: u32, t: &str) -> TokenStream {
    match k {
        0 => quote!(#[opg(#t)]),
        1 => quote!(#[opg(format = #t)]),
        2 => quote!(#[opg(example = #t)]),
        3 => quote!(#[opg(inline, #t, nullable)]),
        4 => quote!(#[opg("other")] #[opg(string, format = #t)]),
        5 => quote!(#[opg(example = #t, "other", integer)]),
        6 => quote!(#[opg(boolean, #t)]),
        _ => quote!(#[opg(#t, format = #t, example = #t)]),
    }
}
const ATTRS: u32 = 8;
const POSITIONS: u32 = 16;
/// Is the text shown there?
fn shown(pos: u32, k: u32) -> bool {
    // containers with fields, struct and tuple variants, unit variants: descriptions only
    let described = matches!(k, 0 | 3 | 6 | 7);
    match pos {
        0 | 1 | 2 | 3 | 7 | 8 | 10 | 14 => described,
        _ => true,
    }
}
/// nullable does not apply to variants
fn applies(pos: u32, k: u32) -> bool {
    !(k == 3 && matches!(pos, 7 | 8 | 9 | 10 | 14))
}
fn place(pos: u32, a: TokenStream) -> TokenStream {
    match pos {
        0 => quote!(#a struct S { f: T }),
        1 => quote!(#a struct S(T, T);),
        2 => quote!(#a enum E { A, B }),
        3 => quote!(#a enum E { A(T), B { f: T } }),
        4 => quote!(#a struct S(T);),
        5 => quote!(struct S { g: T, #a f: T }),
        6 => quote!(struct S(T, #a T, T);),
        7 => quote!(enum E { #a A(T, T), B { f: T } }),
        8 => quote!(enum E { A(T), #a B { f: T } }),
        9 => quote!(enum E { #a A(T), B { f: T } }),
        10 => quote!(#[serde(tag = "t")] enum E { #a A { f: T }, B }),
        11 => quote!(#[serde(tag = "t", content = "c")] enum E { A { #a f: T }, B }),
        12 => quote!(#[serde(untagged)] enum E { A(#a T), B { f: T } }),
        13 => quote!(struct S(#a T);),
        14 => quote!(#[serde(tag = "t", content = "c")] enum E { N, #a A(T, T, T) }),
        _ => quote!(#[serde(untagged)] enum E { A(T, #a T), B { f: T } }),
    }
}
const MARK: &str = "~mark~";

pub fn texts() {
    let pos = choose(POSITIONS);
    let k = choose(ATTRS);
    assume(applies(pos, k));
    let t = match choose(tiered(6, 8)) {
        4 => words(24),
        5 => format!("{}{}{}", words(2), "long text. ".repeat(30), words(2)),
        0 => plain_text(0),
        1 => plain_text(1),
        2 => plain_text(3),
        3 => ["a\n", "\ttab", "quo\"te\\", "  ", "{}", "é\u{1F600}", "two words.", "https://a.b/c?d=e&f"][choose(8) as usize].to_owned(),
        6 => plain_text(6),
        _ => format!("Some longer {} description{}", plain_text(2), plain_text(2)),
    };
    let (got, marked) = (expand(place(pos, attr(k, &t))), expand(place(pos, attr(k, MARK))));
    check(!rejected(&got) && !rejected(&marked), "accepted");
    let mark = Literal::string(MARK).to_string();
    let lit = Literal::string(&t).to_string();
    let marked = literals(&marked);
    let n = marked.iter().filter(|x| **x == mark).count();
    check((n > 0) == shown(pos, k), "the text is shown where it belongs");
    let want: Vec<String> = marked.into_iter().map(|x| if x == mark { lit.clone() } else { x }).collect();
    check(same(&literals(&got), &want), "texts reach the schema unchanged");
    observe_str(&t);
}
