//! Documents: the serialized form against one written down from the OpenAPI 3.0
//! specification.
use rt::o::*;
use rt::*;
use std::collections::BTreeMap;

type Kv = Vec<(String, J)>;
fn put(v: &mut Kv, k: &str, j: J) {
    v.push((k.to_owned(), j));
}
fn s(t: &str) -> J {
    J::Str(t.to_owned())
}
fn put_opt(v: &mut Kv, k: &str, t: &Option<String>) {
    if let Some(t) = t {
        put(v, k, s(t))
    }
}
fn put_true(v: &mut Kv, k: &str, b: bool) {
    if b {
        put(v, k, J::Bool(true))
    }
}
fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| s(x)).collect())
}
/// A schema reference as a document fragment (its own fidelity is C09's subject).
fn reference(r: &ModelReference) -> J {
    match r {
        ModelReference::Link(l) => J::Obj(vec![("$ref".to_owned(), J::Str(["#/components/schemas/", l].concat()))]),
        ModelReference::Any => J::Obj(vec![]),
        ModelReference::Inline(m) => schema(m),
    }
}
fn schema(m: &Model) -> J {
    let mut v = Kv::new();
    put_opt(&mut v, "description", &m.description);
    if let ModelData::Single(t) = &m.data {
        put_true(&mut v, "nullable", t.nullable);
    }
    put(&mut v, "type", s("boolean"));
    J::Obj(v)
}
fn small_ref() -> ModelReference {
    match choose(3) {
        0 => ModelReference::Link(some_text()),
        1 => ModelReference::Any,
        _ => ModelReference::Inline(Model { description: Some(some_text()), data: single(false, ModelTypeDescription::Boolean) }),
    }
}
fn content(r: &ModelReference) -> J {
    J::Obj(vec![("application/json".to_owned(), J::Obj(vec![("schema".to_owned(), reference(r))]))])
}

fn gen_parameter() -> OperationParameter {
    OperationParameter {
        description: opt_text(),
        parameter_in: match choose(4) {
            0 => ParameterIn::Query,
            1 => ParameterIn::Header,
            2 => ParameterIn::Path,
            _ => ParameterIn::Cookie,
        },
        required: sym_bool(),
        deprecated: sym_bool(),
        schema: if flip() { Some(small_ref()) } else { None },
    }
}
fn small_parameter() -> OperationParameter {
    OperationParameter { description: Some(some_text()), parameter_in: ParameterIn::Query, required: sym_bool(), deprecated: false, schema: None }
}
fn place(p: ParameterIn) -> J {
    s(match p {
        ParameterIn::Query => "query",
        ParameterIn::Header => "header",
        ParameterIn::Path => "path",
        ParameterIn::Cookie => "cookie",
    })
}
fn parameter_j(name: &str, p: &OperationParameter) -> J {
    let mut v = Kv::new();
    put(&mut v, "name", s(name));
    put(&mut v, "in", place(p.parameter_in));
    put_opt(&mut v, "description", &p.description);
    put_true(&mut v, "required", p.required);
    put_true(&mut v, "deprecated", p.deprecated);
    if let Some(r) = &p.schema {
        put(&mut v, "schema", reference(r));
    }
    J::Obj(v)
}
fn put_parameters(v: &mut Kv, ps: &BTreeMap<String, OperationParameter>) {
    if !ps.is_empty() {
        put(v, "parameters", J::Arr(ps.iter().map(|(n, p)| parameter_j(n, p)).collect()));
    }
}
fn body_j(b: &RequestBody) -> J {
    let mut v = Kv::new();
    put_opt(&mut v, "description", &b.description);
    put_true(&mut v, "required", b.required);
    put(&mut v, "content", content(&b.schema));
    J::Obj(v)
}
fn response_j(r: &Response) -> J {
    let mut v = Kv::new();
    put(&mut v, "description", s(&r.description));
    if let Some(r) = &r.schema {
        put(&mut v, "content", content(r));
    }
    J::Obj(v)
}
fn operation_j(o: &Operation) -> J {
    let mut v = Kv::new();
    if !o.tags.is_empty() {
        put(&mut v, "tags", strs(&o.tags));
    }
    put_opt(&mut v, "summary", &o.summary);
    put_opt(&mut v, "operationId", &o.operation_id);
    put_opt(&mut v, "description", &o.description);
    put_true(&mut v, "deprecated", o.deprecated);
    if !o.security.is_empty() {
        put(
            &mut v,
            "security",
            J::Arr(o.security.iter().map(|m| J::Obj(m.iter().map(|(k, x)| (k.clone(), strs(x))).collect())).collect()),
        );
    }
    if let Some(b) = &o.request_body {
        put(&mut v, "requestBody", body_j(b));
    }
    put(&mut v, "responses", J::Obj(o.responses.iter().map(|(c, r)| (c.to_string(), response_j(r))).collect()));
    put_parameters(&mut v, &o.parameters);
    if !o.callbacks.is_empty() {
        put(
            &mut v,
            "callbacks",
            J::Obj(o.callbacks.iter().map(|(k, c)| (k.clone(), J::Obj(c.paths.iter().map(|(p, x)| (path_text(p), item_j(x))).collect()))).collect()),
        );
    }
    J::Obj(v)
}
fn path_text(p: &Path) -> String {
    let mut t = String::new();
    for e in &p.0 {
        t.push('/');
        match e {
            PathElement::Path(x) => t.push_str(x),
            PathElement::Parameter(x) => {
                t.push('{');
                t.push_str(x);
                t.push('}');
            }
        }
    }
    t
}
fn method(m: &HttpMethod) -> &'static str {
    match m {
        HttpMethod::GET => "get",
        HttpMethod::PUT => "put",
        HttpMethod::POST => "post",
        HttpMethod::DELETE => "delete",
        HttpMethod::OPTIONS => "options",
        HttpMethod::HEAD => "head",
        HttpMethod::PATCH => "patch",
        HttpMethod::TRACE => "trace",
    }
}
fn item_j(p: &PathValue) -> J {
    let mut v = Kv::new();
    put_opt(&mut v, "summary", &p.summary);
    put_opt(&mut v, "description", &p.description);
    for (m, o) in &p.operations {
        put(&mut v, method(m), operation_j(o));
    }
    put_parameters(&mut v, &p.parameters);
    J::Obj(v)
}
fn scheme_j(x: &SecurityScheme) -> J {
    let mut v = Kv::new();
    match x {
        SecurityScheme::ApiKey(k) => {
            put(&mut v, "type", s("apiKey"));
            put(&mut v, "in", place(k.parameter_in));
            put(&mut v, "name", s(&k.name));
            put_opt(&mut v, "description", &k.description);
        }
        SecurityScheme::Http(HttpSecurityScheme::Basic { description }) => {
            put(&mut v, "type", s("http"));
            put(&mut v, "scheme", s("basic"));
            put_opt(&mut v, "description", description);
        }
        SecurityScheme::Http(HttpSecurityScheme::Bearer { format, description }) => {
            put(&mut v, "type", s("http"));
            put(&mut v, "scheme", s("bearer"));
            put_opt(&mut v, "bearerFormat", format);
            put_opt(&mut v, "description", description);
        }
    }
    J::Obj(v)
}
fn no_null(j: &J) -> bool {
    match j {
        J::Null => false,
        J::Arr(v) => v.iter().all(no_null),
        J::Obj(v) => v.iter().all(|(_, x)| no_null(x)),
        _ => true,
    }
}
/// The elements of an array in any order (each expected one matched once).
fn same_set(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.same(y))) && b.iter().all(|x| a.iter().any(|y| x.same(y))),
        _ => a.same(b),
    }
}
/// Objects whose array under `key` is a set.
fn same_but(a: &J, b: &J, key: &str) -> bool {
    match (a, b) {
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len()
                && distinct(x)
                && distinct(y)
                && x.iter().all(|(k, v)| match b.get(k) {
                    Some(w) => {
                        if k == key {
                            same_set(v, w)
                        } else {
                            v.same(w)
                        }
                    }
                    None => false,
                })
        }
        _ => false,
    }
}
fn record<T: serde::Serialize>(v: &T) -> J {
    let j = to_j(v);
    check(j.is_some(), "serializes");
    let j = j.unwrap();
    observe_j(&j);
    check(no_null(&j), "absent attributes are omitted, not null");
    j
}

fn in_item(o: Operation) -> PathValue {
    let mut p = PathValue::default();
    p.operations.insert(HttpMethod::GET, o);
    p
}

pub fn operation() {
    let o = Operation {
        tags: gen_strings(tiered(1, 2)),
        summary: opt_text(),
        operation_id: opt_text(),
        description: opt_text(),
        deprecated: sym_bool(),
        security: match choose(6) {
            0 => vec![],
            4 => vec![BTreeMap::new()],
            5 => vec![BTreeMap::new(), [(some_text(), vec![])].into_iter().collect(), BTreeMap::new()],
            1 => vec![[(some_text(), vec![])].into_iter().collect()],
            2 => vec![[(some_text(), vec![some_text()])].into_iter().collect(), BTreeMap::new()],
            _ => vec![[("a".to_owned(), vec![some_text(), some_text()]), (some_text(), vec![])].into_iter().collect()],
        },
        ..Default::default()
    };
    let j = record(&o);
    check(j.same(&operation_j(&o)), "an operation carries exactly its attributes");
}
pub fn parameter() {
    let mut ps = BTreeMap::new();
    ps.insert(some_text(), gen_parameter());
    let p = PathValue { parameters: ps, ..Default::default() };
    let j = record(&p);
    check(j.same(&item_j(&p)), "a parameter carries exactly its attributes");
}
pub fn parameters() {
    let mut ps = BTreeMap::new();
    for _ in 0..choose(4) {
        ps.insert(some_text(), small_parameter());
    }
    let (j, want) = if flip() {
        let o = Operation { parameters: ps, ..Default::default() };
        (record(&o), operation_j(&o))
    } else {
        let p = PathValue { parameters: ps, ..Default::default() };
        (record(&p), item_j(&p))
    };
    check(same_but(&j, &want, "parameters"), "every parameter appears exactly once");
}
pub fn bodies() {
    let mut o = Operation::default();
    if flip() {
        let b = RequestBody { description: opt_text(), required: sym_bool(), schema: small_ref() };
        o.with_request_body(b);
        cover("body");
    }
    const CODES: [u16; 4] = [200, 404, 99, 65535];
    for c in CODES.iter().take(choose(tiered(3, 5)) as usize) {
        o.responses.insert(*c, Response { description: some_text(), schema: if flip() { Some(small_ref()) } else { None } });
        cover("response");
    }
    let p = in_item(o);
    let j = record(&p);
    check(j.same(&item_j(&p)), "bodies and responses carry exactly their attributes");
}
pub fn path_item() {
    let all = [HttpMethod::GET, HttpMethod::PUT, HttpMethod::POST, HttpMethod::DELETE, HttpMethod::OPTIONS, HttpMethod::HEAD, HttpMethod::PATCH, HttpMethod::TRACE];
    let mut p = PathValue { summary: opt_text(), description: opt_text(), ..Default::default() };
    for _ in 0..choose(tiered(3, 4)) {
        let m = all[choose(8) as usize].clone();
        p.operations.insert(m, Operation { summary: Some(some_text()), deprecated: sym_bool(), ..Default::default() });
    }
    if flip() {
        p.parameters.insert(some_text(), small_parameter());
    }
    let j = record(&p);
    check(j.same(&item_j(&p)), "a path item carries exactly its operations and attributes");
}
pub fn callbacks() {
    let mut o = Operation::default();
    for _ in 0..choose(tiered(2, 3)) {
        let mut c = CallbackObject::default();
        for i in 0..choose(3) {
            let mut it = PathValue { summary: Some(some_text()), ..Default::default() };
            if flip() {
                it.operations.insert(HttpMethod::POST, Operation { description: Some(some_text()), ..Default::default() });
            }
            let path = Path(vec![PathElement::Path(["x", "y"][i as usize].to_owned()), PathElement::Parameter(some_text())]);
            c.paths.push((path, it));
        }
        o.callbacks.insert(some_text(), c);
    }
    let j = record(&o);
    check(j.same(&operation_j(&o)), "callbacks carry exactly their paths and operations");
    if let Some(J::Obj(cs)) = j.get("callbacks") {
        for (k, c) in cs {
            let want: Vec<String> = o.callbacks[k].paths.iter().map(|p| path_text(&p.0)).collect();
            check(c.keys().len() == want.len() && c.keys().iter().zip(&want).all(|(a, b)| seq_eq(a, b)), "callback paths keep their order");
            cover("callback");
        }
    }
}
pub fn document() {
    let mut d = Opg::default();
    d.info = Info { title: some_text(), description: opt_text(), version: some_text() };
    for _ in 0..choose(tiered(2, 3)) {
        d.tags.insert(some_text(), Tag { description: opt_text() });
    }
    for _ in 0..choose(3) {
        d.servers.push(Server { url: some_text(), description: opt_text() });
    }
    let order = choose(2);
    for i in 0..choose(3) {
        let path = Path(vec![PathElement::Path([["y", "x"], ["x", "y"]][order as usize][i as usize].to_owned())]);
        d.paths.push((path, PathValue { summary: Some(some_text()), ..Default::default() }));
    }
    whole(&d);
}
fn document_j(d: &Opg) -> J {
    let mut v = Kv::new();
    put(&mut v, "openapi", s("3.0.3"));
    let mut info = Kv::new();
    put(&mut info, "title", s(&d.info.title));
    put_opt(&mut info, "description", &d.info.description);
    put(&mut info, "version", s(&d.info.version));
    put(&mut v, "info", J::Obj(info));
    if !d.tags.is_empty() {
        put(
            &mut v,
            "tags",
            J::Arr(
                d.tags
                    .iter()
                    .map(|(n, t)| {
                        let mut v = Kv::new();
                        put(&mut v, "name", s(n));
                        put_opt(&mut v, "description", &t.description);
                        J::Obj(v)
                    })
                    .collect(),
            ),
        );
    }
    if !d.servers.is_empty() {
        put(
            &mut v,
            "servers",
            J::Arr(
                d.servers
                    .iter()
                    .map(|x| {
                        let mut v = Kv::new();
                        put(&mut v, "url", s(&x.url));
                        put_opt(&mut v, "description", &x.description);
                        J::Obj(v)
                    })
                    .collect(),
            ),
        );
    }
    if !d.paths.is_empty() {
        put(&mut v, "paths", J::Obj(d.paths.iter().map(|(p, x)| (path_text(p), item_j(x))).collect()));
    }
    put(&mut v, "components", components_j(&d.components));
    J::Obj(v)
}
fn whole(d: &Opg) {
    let j = record(d);
    check(same_but(&j, &document_j(d), "tags"), "a document carries exactly its parts");
    if let Some(p) = j.get("paths") {
        let want: Vec<String> = d.paths.iter().map(|p| path_text(&p.0)).collect();
        check(p.keys().len() == want.len() && p.keys().iter().zip(&want).all(|(a, b)| seq_eq(a, b)), "paths keep declaration order");
        cover("paths");
    }
}
fn components_j(c: &Components) -> J {
    let mut v = Kv::new();
    if !c.schemas.is_empty() {
        put(&mut v, "schemas", J::Obj(c.schemas.iter().map(|(k, m)| (k.clone(), schema(m))).collect()));
    }
    if !c.security_schemes.is_empty() {
        put(&mut v, "securitySchemes", J::Obj(c.security_schemes.iter().map(|(k, m)| (k.clone(), scheme_j(m))).collect()));
    }
    J::Obj(v)
}
/// Collections far larger than the other bounds, one of them at a time, symbolic in one element.
pub fn large() {
    let n = [6, 13, 40][choose(3) as usize];
    let key = |i: usize| format!("k{}", i);
    let mut d = Opg::default();
    let mut o = Operation::default();
    match choose(10) {
        0 => {
            for i in 0..n {
                d.tags.insert(key(i), Tag { description: Some(ascii(1)) });
            }
        }
        1 => {
            for i in 0..n {
                d.servers.push(Server { url: if i == n / 2 { ascii(1) } else { key(i % 4) }, description: None });
            }
        }
        2 => {
            for i in 0..n {
                d.paths.push((Path(vec![PathElement::Path(key(n - i))]), PathValue { summary: Some(ascii(1)), ..Default::default() }));
            }
        }
        3 => {
            for i in 0..n {
                d.components.schemas.insert(key(i), Model { description: Some(ascii(1)), data: single(i == n / 2 && sym_bool(), ModelTypeDescription::Boolean) });
            }
        }
        4 => {
            for i in 0..n {
                d.components.security_schemes.insert(key(i), HttpSecurityScheme::Basic { description: Some(ascii(1)) }.into());
            }
        }
        5 => {
            for i in 0..n {
                o.parameters.insert(key(i), OperationParameter { required: i == n / 2 && sym_bool(), ..small_parameter() });
            }
        }
        6 => {
            for i in 0..n {
                o.responses.insert(100 + i as u16, Response { description: ascii(1), schema: None });
            }
        }
        7 => o.tags = (0..n).map(|i| if i == n / 2 { ascii(1) } else { key(i % 4) }).collect(),
        8 => o.security = (0..n).map(|i| [(key(i % 4), if i == n / 2 { (0..n).map(|_| ascii(1)).collect() } else { vec![] })].into_iter().collect()).collect(),
        _ => {
            for i in 0..n {
                o.callbacks.insert(key(i), CallbackObject { paths: vec![(Path(vec![PathElement::Path(ascii(1))]), PathValue::default())] });
            }
        }
    }
    let mut item = in_item(o);
    if flip() {
        for m in [HttpMethod::PUT, HttpMethod::POST, HttpMethod::DELETE, HttpMethod::OPTIONS, HttpMethod::HEAD, HttpMethod::PATCH, HttpMethod::TRACE] {
            item.operations.insert(m, Operation { description: Some(ascii(1)), ..Default::default() });
        }
    }
    d.paths.push((Path(vec![PathElement::Path("last".to_owned())]), item));
    whole(&d);
}
/// Any status code.
pub fn codes() {
    let mut o = Operation::default();
    let c = sym(16) as u16;
    o.responses.insert(c, Response { description: ascii(1), schema: None });
    let j = record(&o);
    check(j.same(&operation_j(&o)), "a response is found under its status code");
}
pub fn components() {
    let mut c = Components::default();
    for _ in 0..choose(3) {
        c.schemas.insert(some_text(), Model { description: Some(some_text()), data: single(false, ModelTypeDescription::Boolean) });
    }
    for _ in 0..choose(tiered(2, 3)) {
        let x = match choose(3) {
            0 => HttpSecurityScheme::Basic { description: opt_text() }.into(),
            1 => HttpSecurityScheme::Bearer { format: opt_text(), description: opt_text() }.into(),
            _ => ApiKeySecurityScheme {
                parameter_in: match choose(4) {
                    0 => ParameterIn::Query,
                    1 => ParameterIn::Header,
                    2 => ParameterIn::Path,
                    _ => ParameterIn::Cookie,
                },
                name: some_text(),
                description: opt_text(),
            }
            .into(),
        };
        c.security_schemes.insert(some_text(), x);
    }
    let d = Opg { components: c.clone(), ..Default::default() };
    let j = record(&d);
    check(j.get("components").map_or(false, |x| x.same(&components_j(&c))), "every component appears exactly once");
}
/// C11: the text of a path.
pub fn path_render() {
    let long = flip();
    let n = if long { 1 + choose(2) } else { choose(tiered(4, 5)) };
    let p = Path(
        (0..n)
            .map(|_| {
                let t = if long { some_text() } else { text(2) };
                if flip() {
                    PathElement::Path(t)
                } else {
                    PathElement::Parameter(t)
                }
            })
            .collect(),
    );
    let j = record(&p);
    check(matches!(&j, J::Str(t) if seq_eq(t, &path_text(&p))), "segments are rendered in order, each after a slash");
    let mut d = Opg::default();
    d.paths.push((p.clone(), PathValue::default()));
    let j = record(&d);
    check(j.get("paths").map_or(false, |x| x.keys().len() == 1 && seq_eq(x.keys()[0], &path_text(&p))), "the path is the key of its item");
}
