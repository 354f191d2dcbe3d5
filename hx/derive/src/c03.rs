//! Names. The derive's output for a declaration is compared with its output for the same
//! declaration carrying the name serde gives as an explicit rename; that explicit names
//! reach the schema is checked here (they occur) and over compiled types (C01, C02).
use crate::serde_case::RenameRule;
use crate::tok::*;

const RULES: [&str; 8] = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];

fn rule_attr(r: &Option<String>, forms: u32) -> TokenStream {
    match r {
        None => quote!(),
        Some(r) => match choose(forms) {
            0 => quote!(#[serde(rename_all = #r)]),
            _ => quote!(#[serde(rename_all(serialize = #r, deserialize = "kebab-case"))]),
        },
    }
}
fn serde_rule(r: &Option<String>) -> RenameRule {
    match r {
        None => RenameRule::None,
        Some(r) => RenameRule::from_str(r).unwrap_or(RenameRule::None),
    }
}
fn any_rule() -> Option<String> {
    match choose(9) {
        0 => None,
        k => Some(RULES[k as usize - 1].to_owned()),
    }
}
/// A declaration with a field in some position, the rule in force for it, other elements around.
fn with_field(rule: &TokenStream, attr: TokenStream, id: &Ident, pos: u32) -> TokenStream {
    match pos {
        0 => quote!(#rule struct S { #attr #id: T }),
        1 => quote!(#rule struct S { #[serde(rename = "one")] f1: T, #attr #id: T, #[opg(optional)] #[serde(rename = "two")] f2: T }),
        2 => quote!(enum E { #rule A { #attr #id: T }, B(T) }),
        3 => quote!(#[serde(tag = "t")] enum E { #rule A { #attr #id: T } }),
        4 => quote!(#[serde(tag = "t", content = "c")] enum E { N, #rule A { #attr #id: T } }),
        5 => quote!(#[serde(untagged)] enum E { #rule A { #attr #id: T, #[serde(rename = "one")] f1: T } }),
        6 => quote!(#[serde(tag = "t")] #rule struct S { #attr #id: T }),
        // a rule for the variants does not concern their fields
        7 => quote!(#[serde(rename_all = "SCREAMING-KEBAB-CASE")] enum E { #rule #[serde(rename = "one")] A { #attr #id: T } }),
        8 => quote!(#[serde(untagged, rename_all = "PascalCase")] enum E { #rule #[serde(rename = "one")] A { #attr #id: T } }),
        _ => quote!(#[serde(tag = "t", content = "c", rename_all = "camelCase")] enum E { #[serde(rename = "one")] F1(T), #rule #[serde(rename = "two")] A { #attr #id: T } }),
    }
}
const FIELD_POSITIONS: u32 = 10;
fn with_variant(rule: &TokenStream, attr: TokenStream, id: &Ident, pos: u32) -> TokenStream {
    match pos {
        0 => quote!(#rule enum E { #attr #id }),
        1 => quote!(#rule enum E { #[serde(rename = "one")] F1, #attr #id, #[serde(skip)] F2 }),
        2 => quote!(#rule enum E { #[serde(rename = "one")] F1(T), #attr #id }),
        3 => quote!(#rule #[serde(tag = "t")] enum E { #attr #id }),
        4 => quote!(#rule #[serde(tag = "t")] enum E { #attr #id(T), #[serde(rename = "one")] F1 { #[serde(rename = "f")] f: T } }),
        5 => quote!(#rule #[serde(tag = "t")] enum E { #[serde(rename = "one")] F1(T), #attr #id { #[serde(rename = "f")] f: T } }),
        6 => quote!(#rule #[serde(tag = "t", content = "c")] enum E { #attr #id, #[serde(rename = "one")] F1(T) }),
        7 => quote!(#rule #[serde(tag = "t", content = "c")] enum E { #attr #id(T) }),
        _ => quote!(#rule #[serde(tag = "t", content = "c")] enum E { #[serde(rename = "one")] F1, #attr #id { #[serde(rename = "f")] f: T } }),
    }
}
const VARIANT_POSITIONS: u32 = 9;

fn decide(got: TokenStream, want: TokenStream, expected: &str) {
    let (got, want) = (expand(got), expand(want));
    check(!rejected(&got), "accepted");
    check(!rejected(&want), "accepted with an explicit name");
    let (got, want) = (literals(&got), literals(&want));
    check(occurs(&want, expected), "an explicit name is documented");
    check(same(&got, &want), "documented names are serde's");
    observe_str(expected);
}

pub fn fields() {
    let rule = any_rule();
    let n = 1 + choose(tiered(4, 6)) as usize;
    let pos = choose(FIELD_POSITIONS);
    let s = name(n);
    let expected = serde_rule(&rule).apply_to_field(&s);
    let r = rule_attr(&rule, 2);
    let got = with_field(&r, quote!(), &ident(&s), pos);
    let want = with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), pos);
    decide(got, want, &expected);
}
pub fn variants() {
    let rule = any_rule();
    let n = 1 + choose(tiered(4, 6)) as usize;
    let pos = choose(VARIANT_POSITIONS);
    let s = name(n);
    let expected = serde_rule(&rule).apply_to_variant(&s);
    let r = rule_attr(&rule, 2);
    let got = with_variant(&r, quote!(), &ident(&s), pos);
    let want = with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), pos);
    decide(got, want, &expected);
}
/// Any text as a rule: short texts, and every rule with one character replaced, removed or added.
pub fn rules() {
    let rule = if flip() {
        plain_text(choose(tiered(3, 8)) as usize)
    } else {
        let base = RULES[choose(8) as usize];
        let at = choose(base.len() as u32 + 1) as usize;
        match choose(3) {
            0 if at < base.len() => format!("{}{}{}", &base[..at], plain_text(1), &base[at + 1..]),
            1 if at < base.len() => format!("{}{}", &base[..at], &base[at + 1..]),
            _ => format!("{}{}{}", &base[..at], plain_text(1), &base[at..]),
        }
    };
    let rule = Some(rule);
    let r = rule_attr(&rule, tiered(1, 2));
    if flip() {
        let expected = serde_rule(&rule).apply_to_field("ab_c1");
        let pos = choose(tiered(1, FIELD_POSITIONS));
        decide(with_field(&r, quote!(), &ident("ab_c1"), pos), with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), pos), &expected);
    } else {
        let expected = serde_rule(&rule).apply_to_variant("AbC1");
        let pos = choose(tiered(1, VARIANT_POSITIONS));
        decide(with_variant(&r, quote!(), &ident("AbC1"), pos), with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), pos), &expected);
    }
}
/// An explicit name wins over every rule, however it is written.
pub fn renames() {
    let rule = any_rule();
    let own = flip();
    let to = if own { String::new() } else { plain_text((if thorough() { choose(5) } else { 3 * choose(2) }) as usize) };
    let field = flip();
    // the explicit name may be the identifier's own
    let to = if !own { to } else if field { "ab_C1".to_owned() } else { "AbC1".to_owned() };
    let attr = match choose(5) {
        0 => quote!(#[serde(rename = #to)]),
        1 => quote!(#[serde(rename(serialize = #to))]),
        2 => quote!(#[serde(rename(deserialize = "other", serialize = #to))]),
        3 => quote!(#[serde(default, rename = #to)]),
        _ => quote!(#[serde(rename(serialize = #to, deserialize = "other"))] #[serde(alias = "more")]),
    };
    let r = rule_attr(&rule, tiered(1, 2));
    if field {
        let pos = choose(FIELD_POSITIONS);
        decide(with_field(&r, attr, &ident("ab_C1"), pos), with_field(&quote!(), quote!(#[serde(rename = #to)]), &ident("x"), pos), &to);
    } else {
        let pos = choose(VARIANT_POSITIONS);
        decide(with_variant(&r, attr, &ident("AbC1"), pos), with_variant(&quote!(), quote!(#[serde(rename = #to)]), &ident("X"), pos), &to);
    }
}
/// Raw identifiers, and renames that only concern deserialization.
pub fn raw() {
    let rule = any_rule();
    let s = if flip() { name(1 + choose(tiered(2, 3)) as usize) } else { ["type", "match", "r", "async"][choose(4) as usize].to_owned() };
    let id = Ident::new_raw(&s, Span::call_site());
    let r = rule_attr(&rule, tiered(1, 2));
    let attr = if flip() { quote!() } else { quote!(#[serde(rename(deserialize = "other"))]) };
    if flip() {
        let expected = serde_rule(&rule).apply_to_field(&s);
        let pos = choose(FIELD_POSITIONS);
        decide(with_field(&r, attr, &id, pos), with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), pos), &expected);
    } else {
        let expected = serde_rule(&rule).apply_to_variant(&s);
        let pos = choose(VARIANT_POSITIONS);
        decide(with_variant(&r, attr, &id, pos), with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), pos), &expected);
    }
}

/// Longer identifiers: known parts around symbolic characters.
fn long_name(variant: bool) -> String {
    let (a, b): (&str, &str) = if variant {
        [("HttpServer", "Id2"), ("A", "BCDefGh"), ("x1_", "_Y"), ("Under_Score", "s"), ("ALLCAPS", "NAMEs"), ("T", "123456789")][choose(6) as usize]
    } else {
        [("first_name_", "id2"), ("a_b_c", "_d_e"), ("camelCased", "Name_x"), ("__lead", "tail__"), ("x1_2y", "_3Z"), ("SHOUT_", "ED_NAME")][choose(6) as usize]
    };
    let n = tiered(1, 2);
    format!("{}{}{}", a, name_part(n), b)
}
pub fn long() {
    let rule = any_rule();
    let field = flip();
    let s = long_name(!field);
    let r = rule_attr(&rule, tiered(1, 2));
    if field {
        let expected = serde_rule(&rule).apply_to_field(&s);
        let pos = choose(FIELD_POSITIONS);
        decide(with_field(&r, quote!(), &ident(&s), pos), with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), pos), &expected);
    } else {
        let expected = serde_rule(&rule).apply_to_variant(&s);
        let pos = choose(VARIANT_POSITIONS);
        decide(with_variant(&r, quote!(), &ident(&s), pos), with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), pos), &expected);
    }
}

/// Identifiers with characters that are not ASCII: letters with and without case, letters whose
/// other case is longer or is not one character, letters that compose; and explicit names with them.
pub fn unicode() {
    const CHARS: [&str; 10] = ["\u{e9}", "\u{c9}", "\u{df}", "\u{416}", "\u{131}", "\u{1c5}", "\u{149}", "\u{6f22}", "\u{3a3}", "\u{10400}"];
    let rule = any_rule();
    let c = CHARS[choose(10) as usize];
    let field = flip();
    let at = choose(4);
    let s = match at {
        0 => format!("{}{}", name(1), c),
        1 => format!("a{}{}", c, name_part(1)),
        2 => format!("B_{}x_{}Y", c, c),
        _ => format!("{}{}", c, name_part(1)),
    };
    // serde does not accept these: it takes the first byte for a character
    let first = if field { s.trim_start_matches('_') } else { &s[..] };
    assume(!(matches!(serde_rule(&rule), RenameRule::CamelCase) && !first.as_bytes()[0].is_ascii()));
    let r = rule_attr(&rule, 1);
    let explicit = at == 2 && flip();
    let s = if explicit && flip() { ["q\"uo\\te\u{7}", "two\nlines\t\r", " {} # $ref/~1 ", "\u{301}\u{0}r#"][choose(4) as usize].to_owned() } else { s };
    let attr = if explicit { quote!(#[serde(rename = #s)]) } else { quote!() };
    let id = if explicit { ident("Xy_Z") } else { ident(&s) };
    if field {
        let expected = if explicit { s } else { serde_rule(&rule).apply_to_field(&s) };
        let pos = choose(tiered(3, FIELD_POSITIONS));
        decide(with_field(&r, attr, &id, pos), with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), pos), &expected);
    } else {
        let expected = if explicit { s } else { serde_rule(&rule).apply_to_variant(&s) };
        let pos = choose(tiered(3, VARIANT_POSITIONS));
        decide(with_variant(&r, attr, &id, pos), with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), pos), &expected);
    }
}

/// Any words as a rule, up to longer than the longest rule; any words as an explicit name.
pub fn texts() {
    let explicit = flip();
    let text = words(choose(tiered(23, 33)) as usize);
    let (rule, attr) = if explicit { (any_rule(), quote!(#[serde(rename = #text)])) } else { (Some(text.clone()), quote!()) };
    let r = rule_attr(&rule, 1);
    if flip() {
        let expected = if explicit { text } else { serde_rule(&rule).apply_to_field("ab_c1") };
        decide(with_field(&r, attr, &ident("ab_c1"), 0), with_field(&quote!(), quote!(#[serde(rename = #expected)]), &ident("x"), 0), &expected);
    } else {
        let expected = if explicit { text } else { serde_rule(&rule).apply_to_variant("AbC1") };
        decide(with_variant(&r, attr, &ident("AbC1"), 0), with_variant(&quote!(), quote!(#[serde(rename = #expected)]), &ident("X"), 0), &expected);
    }
}

/// A rule for the fields of all variants: a variant's own rule wins, the rule for variants does not concern fields.
pub fn all_fields() {
    let all = any_rule();
    let own = match choose(3) {
        0 => None,
        k => Some(["PascalCase", "kebab-case"][k as usize - 1].to_owned()),
    };
    let s = format!("{}_b", name(1 + choose(tiered(1, 2)) as usize));
    let explicit = flip();
    let expected = if explicit { "given_name".to_owned() } else { serde_rule(if own.is_some() { &own } else { &all }).apply_to_field(&s) };
    let a = match (&all, choose(tiered(2, 3))) {
        (None, _) => quote!(#[serde(rename_all_fields(deserialize = "UPPERCASE"))]),
        (Some(r), 0) => quote!(#[serde(rename_all_fields = #r)]),
        (Some(r), 1) => quote!(#[serde(rename_all_fields(deserialize = "lowercase", serialize = #r))]),
        (Some(r), _) => quote!(#[serde(deny_unknown_fields, rename_all_fields(serialize = #r))]),
    };
    let pos = choose(5);
    let decl = |c: &TokenStream, a: &TokenStream, v: &TokenStream, f: &TokenStream, id: &Ident| match pos {
        0 => quote!(#c #a enum E { #[serde(rename = "one")] F1(T), #v #[serde(rename = "two")] A { #f #id: T, #[serde(rename = "three")] g_h: T } }),
        1 => quote!(#a #c #[serde(tag = "t")] enum E { #v #[serde(rename = "two")] A { #f #id: T }, #[serde(rename = "one")] F1 }),
        2 => quote!(#c #[serde(tag = "t", content = "c")] #a enum E { #v #[serde(rename = "two")] A { #f #id: T } }),
        3 => quote!(#[serde(untagged)] #a enum E { A(#f T), #v B { #f #id: T }, C { #[serde(rename = "f")] f: T } }),
        _ => quote!(#a enum E { #v #[serde(rename = "two")] A { #f #id: T }, #[serde(rename_all = "UPPERCASE", rename = "one")] B { #[serde(rename = "f")] f: T } }),
    };
    let c = if flip() { quote!() } else { quote!(#[serde(rename_all = "SCREAMING_SNAKE_CASE")]) };
    let v = rule_attr(&own, 1);
    let f = if explicit { quote!(#[serde(rename = "given_name")]) } else { quote!() };
    let none = quote!();
    decide(decl(&c, &a, &v, &f, &ident(&s)), decl(&none, &none, &none, &quote!(#[serde(rename = #expected)]), &ident("x")), &expected);
}
