//! Security schemes and requirements.
use crate::kit::*;

fn observe_all(o: &Opg) {
    observe_doc(o);
}
fn schemes_are(o: &Opg, want: BTreeMap<String, SecurityScheme>) {
    observe_all(o);
    check(o.components.security_schemes.len() == want.len(), "every declared scheme is registered, and nothing else");
    check(want.keys().all(|k| o.components.security_schemes.contains_key(k)), "a scheme is registered under its name");
    check(eq_schemes(&o.components.security_schemes, &want), "kind, location, format and description are those given");
}
fn basic(d: Option<String>) -> SecurityScheme {
    SecurityScheme::Http(HttpSecurityScheme::Basic { description: d })
}
fn bearer(f: Option<String>, d: Option<String>) -> SecurityScheme {
    SecurityScheme::Http(HttpSecurityScheme::Bearer { format: f, description: d })
}
fn key(parameter_in: ParameterIn, name: &str, description: Option<String>) -> SecurityScheme {
    SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in, name: name.to_owned(), description })
}

pub fn literals() {
    let (a, b, n) = if flip() { (text(2), text(2), ascii(2)) } else { (some_text(), some_text(), some_text()) };
    match choose(18) {
        0 => schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Basic } } }, map([(own("h"), basic(None))])),
        1 => schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Basic, description: &a } } }, map([(own("h"), basic(Some(a)))])),
        2 => schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Bearer } } }, map([(own("h"), bearer(None, None))])),
        3 => schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Bearer, bearer_format: &a } } }, map([(own("h"), bearer(Some(a), None))])),
        4 => schemes_are(
            &describe_api! { security_schemes: { (http "h"): { scheme: Bearer, bearer_format: &a, description: &b } } },
            map([(own("h"), bearer(Some(a), Some(b)))]),
        ),
        5 => schemes_are(
            &describe_api! { security_schemes: { (http "h"): { description: &b, bearer_format: &a, scheme: Bearer, } } },
            map([(own("h"), bearer(Some(a), Some(b)))]),
        ),
        6 => schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Bearer, description: &b } } }, map([(own("h"), bearer(None, Some(b)))])),
        7 => schemes_are(&describe_api! { security_schemes: { (apiKey "k"): { name: &n } } }, map([(own("k"), key(ParameterIn::Header, &n, None))])),
        8 => schemes_are(
            &describe_api! { security_schemes: { (apiKey "k"): { parameter_in: Query, name: &n } } },
            map([(own("k"), key(ParameterIn::Query, &n, None))]),
        ),
        9 => schemes_are(
            &describe_api! { security_schemes: { (apiKey "k"): { parameter_in: Cookie, name: &n, description: &a } } },
            map([(own("k"), key(ParameterIn::Cookie, &n, Some(a)))]),
        ),
        10 => schemes_are(
            &describe_api! { security_schemes: { (apiKey &b): { description: &a, name: &n, parameter_in: Header } } },
            map([(b, key(ParameterIn::Header, &n, Some(a)))]),
        ),
        11 => schemes_are(
            &describe_api! { security_schemes: { (http "h"): { scheme: Basic, description: &a }, (apiKey "k"): { name: &n }, (http "b"): { scheme: Bearer, bearer_format: &b } } },
            map([(own("h"), basic(Some(a))), (own("k"), key(ParameterIn::Header, &n, None)), (own("b"), bearer(Some(b), None))]),
        ),
        12 => {
            let my_basic = HttpSecurityScheme::Basic { description: Some(a.clone()) };
            schemes_are(&describe_api! { security_schemes: { my_basic } }, map([(own("my_basic"), basic(Some(a)))]))
        }
        13 => {
            let k = ApiKeySecurityScheme { parameter_in: ParameterIn::Path, name: n.clone(), description: Some(a.clone()) };
            let h = HttpSecurityScheme::Bearer { format: Some(b.clone()), description: None };
            schemes_are(
                &describe_api! { security_schemes: { k, (http "z"): { scheme: Basic }, h, } },
                map([(own("k"), key(ParameterIn::Path, &n, Some(a))), (own("h"), bearer(Some(b), None)), (own("z"), basic(None))]),
            )
        }
        14 => {
            let whole = bearer(Some(a.clone()), Some(b.clone()));
            schemes_are(&describe_api! { security_schemes: { whole } }, map([(own("whole"), bearer(Some(a), Some(b)))]))
        }
        15 => {
            // a variable does not replace what is declared under its name
            let h = HttpSecurityScheme::Bearer { format: Some(b.clone()), description: None };
            schemes_are(&describe_api! { security_schemes: { (http "h"): { scheme: Basic, description: &a }, h } }, map([(own("h"), basic(Some(a)))]))
        }
        16 => {
            let k = key(ParameterIn::Query, &n, None);
            let j = basic(None);
            schemes_are(
                &describe_api! { security_schemes: { j, k, (apiKey "l"): { name: &b }, j } },
                map([(own("j"), basic(None)), (own("k"), key(ParameterIn::Query, &n, None)), (own("l"), key(ParameterIn::Header, &b, None))]),
            )
        }
        _ => schemes_are(
            &describe_api! { security_schemes: { (apiKey "p"): { parameter_in: Path, name: "lit", description: 7 } } },
            map([(own("p"), key(ParameterIn::Path, "lit", opt("7")))]),
        ),
    }
}

fn requires(o: &Opg, want: Vec<BTreeMap<String, Vec<String>>>, schemes: BTreeMap<String, SecurityScheme>) {
    let op = only_op(o);
    check(op.security.len() == want.len(), "one requirement per alternative");
    check(eq_security(&op.security, &want), "requirements carry their schemes and scopes, in order");
    schemes_are(o, schemes);
}

pub fn requirements() {
    let d = some_text();
    let h = HttpSecurityScheme::Basic { description: Some(d.clone()) };
    let k = ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: d.clone(), description: None };
    let hs = || basic(Some(d.clone()));
    let ks = || key(ParameterIn::Header, &d, None);
    match choose(18) {
        0 => requires(&describe_api! { paths: { ("a"): { GET: { security: {}, 200: None } } } }, vec![], map([])),
        1 => requires(&describe_api! { paths: { ("a"): { GET: { security: { "s" }, 200: None } } } }, vec![map([(own("s"), vec![])])], map([])),
        2 => requires(&describe_api! { paths: { ("a"): { GET: { security: { "s"["r"] }, 200: None } } } }, vec![map([(own("s"), strs(&["r"]))])], map([])),
        3 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { "s"["r2", "r1"], "t" }, 200: None } } } },
            vec![map([(own("s"), strs(&["r2", "r1"]))]), map([(own("t"), vec![])])],
            map([]),
        ),
        4 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { "t" && "s"["x"], "s" }, 200: None } } } },
            vec![map([(own("t"), vec![]), (own("s"), strs(&["x"]))]), map([(own("s"), vec![])])],
            map([]),
        ),
        5 => requires(&describe_api! { paths: { ("a"): { GET: { security: { h }, 200: None } } } }, vec![map([(own("h"), vec![])])], map([(own("h"), hs())])),
        6 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { h["r"] }, 200: None } } } },
            vec![map([(own("h"), strs(&["r"]))])],
            map([(own("h"), hs())]),
        ),
        7 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { h && k, k["x", "y"] }, 200: None } } } },
            vec![map([(own("h"), vec![]), (own("k"), vec![])]), map([(own("k"), strs(&["x", "y"]))])],
            map([(own("h"), hs()), (own("k"), ks())]),
        ),
        8 => requires(
            &describe_api! { paths: { ("a"): { GET: { 200: None, security: { "lit" && h["a"] && k["b"], } } } } },
            vec![map([(own("lit"), vec![]), (own("h"), strs(&["a"])), (own("k"), strs(&["b"]))])],
            map([(own("h"), hs()), (own("k"), ks())]),
        ),
        9 => requires(
            // the one declared under the variable's name stays
            &describe_api! { security_schemes: { (http "h"): { scheme: Bearer, bearer_format: &d } }, paths: { ("a"): { GET: { security: { h }, 200: None } } } },
            vec![map([(own("h"), vec![])])],
            map([(own("h"), bearer(Some(d.clone()), None))]),
        ),
        15 => requires(
            &describe_api! { security_schemes: { (apiKey "h"): { name: &d, parameter_in: Query }, k }, paths: { ("a"): { GET: { security: { h && k["x"] }, 200: None } } } },
            vec![map([(own("h"), vec![]), (own("k"), strs(&["x"]))])],
            map([(own("h"), key(ParameterIn::Query, &d, None)), (own("k"), ks())]),
        ),
        16 => requires(
            // a later declaration by variable does not replace the one written out
            &describe_api! { security_schemes: { (apiKey "h"): { name: &d }, h, k, (http "x"): { scheme: Basic } }, paths: { ("a"): { GET: { security: { k, h }, 200: None } } } },
            vec![map([(own("k"), vec![])]), map([(own("h"), vec![])])],
            map([(own("h"), ks()), (own("k"), ks()), (own("x"), basic(None))]),
        ),
        10 => requires(
            &describe_api! { security_schemes: { h, (apiKey "k2"): { name: &d } }, paths: { ("a"): { GET: { security: { h, "k2", k }, 200: None } } } },
            vec![map([(own("h"), vec![])]), map([(own("k2"), vec![])]), map([(own("k"), vec![])])],
            map([(own("h"), hs()), (own("k2"), ks()), (own("k"), ks())]),
        ),
        11 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { "s"[], "t"[""] }, 200: None } } } },
            vec![map([(own("s"), vec![])]), map([(own("t"), strs(&[""]))])],
            map([]),
        ),
        12 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { h, h["again"] }, 200: None } } } },
            vec![map([(own("h"), vec![])]), map([(own("h"), strs(&["again"]))])],
            map([(own("h"), hs())]),
        ),
        13 => requires(
            // written twice, listed twice
            &describe_api! { paths: { ("a"): { GET: { security: { "s"["x"], h, "s"["x"], h && "s", "s"["y", "x"] }, 200: None } } } },
            vec![
                map([(own("s"), strs(&["x"]))]),
                map([(own("h"), vec![])]),
                map([(own("s"), strs(&["x"]))]),
                map([(own("h"), vec![]), (own("s"), vec![])]),
                map([(own("s"), strs(&["y", "x"]))]),
            ],
            map([(own("h"), hs())]),
        ),
        14 => requires(
            &describe_api! { paths: { ("a"): { GET: { security: { k["z", "", "Z z", "z"] && h["k"] && "a"["b", "c"] && "b" }, 200: None } } } },
            vec![map([(own("k"), strs(&["z", "", "Z z", "z"])), (own("h"), strs(&["k"])), (own("a"), strs(&["b", "c"])), (own("b"), vec![])])],
            map([(own("h"), hs()), (own("k"), ks())]),
        ),
        _ => {
            // requirements stay with their operation
            let o = describe_api! { paths: {
                ("a"): { GET: { security: { h }, 200: None }, POST: { 200: None }, PUT: { security: { "s", k }, 200: None } },
                ("b"): { GET: { security: { k["q"] }, 200: None } },
            } };
            check(o.paths.len() == 2 && o.paths[0].1.operations.len() == 3 && o.paths[1].1.operations.len() == 1, "all operations are there");
            let at = |i: usize, m: HttpMethod| &o.paths[i].1.operations[&m].security;
            check(eq_security(at(0, HttpMethod::GET), &[map([(own("h"), vec![])])]), "requirements stay with their operation");
            check(at(0, HttpMethod::POST).is_empty(), "requirements stay with their operation");
            check(eq_security(at(0, HttpMethod::PUT), &[map([(own("s"), vec![])]), map([(own("k"), vec![])])]), "requirements stay with their operation");
            check(eq_security(at(1, HttpMethod::GET), &[map([(own("k"), strs(&["q"]))])]), "requirements stay with their operation");
            schemes_are(&o, map([(own("h"), hs()), (own("k"), ks())]));
        }
    }
}

/// Registration by variable over any registry.
pub fn registered_first() {
    let mut cx = Components::default();
    for _ in 0..choose(3) {
        let d = ascii(1);
        let s = match choose(3) {
            0 => basic(Some(d)),
            1 => bearer(Some(d), None),
            _ => key(ParameterIn::Header, &d, None),
        };
        cx.security_schemes.insert(ascii(1), s);
    }
    let old = cx.clone();
    let name = ascii(1);
    let s = match choose(3) {
        0 => basic(None),
        1 => bearer(Some(ascii(1)), None),
        _ => key(ParameterIn::Cookie, "n", None),
    };
    let n = cx.mention_security_scheme(name.clone(), &s);
    check(seq_eq(&n, &name), "the requirement names the scheme");
    let mut want = old.security_schemes.clone();
    if !want.contains_key(&name) {
        want.insert(name, s);
    }
    check(eq_schemes(&cx.security_schemes, &want), "registered without replacing an existing scheme");
}
