//! Token streams: building declarations, reading what the derive returns.
pub use opg_derive_src::expand;
pub use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
pub use quote::quote;
pub use rt::*;

/// Did the derive report an error?
pub fn rejected(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => rejected(&g.stream()),
        _ => false,
    })
}
/// Does it implement the model trait?
pub fn implements(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "OpgModel",
        TokenTree::Group(g) => implements(&g.stream()),
        _ => false,
    })
}
pub fn literals(ts: &TokenStream) -> Vec<String> {
    let mut v = Vec::new();
    collect(ts, &mut v);
    v
}
fn collect(ts: &TokenStream, out: &mut Vec<String>) {
    for t in ts.clone() {
        match t {
            TokenTree::Literal(l) => out.push(l.to_string()),
            TokenTree::Group(g) => collect(&g.stream(), out),
            _ => {}
        }
    }
}
pub fn same(a: &[String], b: &[String]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= seq_eq(&a[i], &b[i]);
    }
    ok
}
/// Occurs among the literals, as a string.
pub fn occurs(v: &[String], name: &str) -> bool {
    let q = Literal::string(name).to_string();
    let mut found = false;
    for x in v {
        found |= seq_eq(x, &q);
    }
    found
}
pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
const KEYWORDS: &[&str] = &[
    "_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for",
    "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
    "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];
/// Any identifier of `n` ASCII characters that is not a keyword.
pub fn name(n: usize) -> String {
    let mut b = Vec::new();
    let mut body = false;
    for i in 0..n {
        let c = sym_u8();
        let alpha = (c.wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'A') < 26);
        let digit = c.wrapping_sub(b'0') < 10;
        assume(alpha | (c == b'_') | (digit & (i > 0)));
        body |= c != b'_';
        b.push(c);
    }
    // serde itself does not accept a name of underscores only under every rule
    assume(body);
    let s = unsafe { String::from_utf8_unchecked(b) };
    for k in KEYWORDS {
        assume(!seq_eq(&s, k));
    }
    s
}
/// Any text of `n` printable ASCII characters that need no escape.
pub fn plain_text(n: usize) -> String {
    let mut b = Vec::new();
    for _ in 0..n {
        let c = sym_u8();
        assume((c >= b' ') & (c < 0x7f) & (c != b'"') & (c != b'\\'));
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// Any characters an identifier may continue with.
pub fn name_part(n: usize) -> String {
    let mut b = Vec::new();
    for _ in 0..n {
        let c = sym_u8();
        let alpha = (c.wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'A') < 26);
        assume(alpha | (c == b'_') | (c.wrapping_sub(b'0') < 10));
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// Any letters, digits, dashes, underscores, dots and spaces.
pub fn words(n: usize) -> String {
    let mut b = Vec::new();
    for _ in 0..n {
        let c = sym_u8();
        assume(((c | 0x20).wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'0') < 10) | (c == b'-') | (c == b'_') | (c == b'.') | (c == b' '));
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
