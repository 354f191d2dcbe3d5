//! describe_api!: operations, bodies, responses, parameters, tags, servers, callbacks.
use crate::kit::*;

fn texts() -> (String, String, String) {
    if flip() {
        (text(2), text(2), text(2))
    } else {
        (some_text(), some_text(), some_text())
    }
}

pub fn info() {
    let (a, b, c) = texts();
    let (o, want) = match choose(7) {
        0 => (describe_api! { info: { title: &a, version: &b, } }, Info { title: a, version: b, description: None }),
        1 => (describe_api! { info: { title: &a, version: &b, description: &c } }, Info { title: a, version: b, description: Some(c) }),
        2 => (describe_api! { info: { description: &c, title: &a } }, Info { title: a, version: own(""), description: Some(c) }),
        3 => (describe_api! { info: { version: 12 } }, Info { title: own(""), version: own("12"), description: None }),
        4 => (describe_api! { info: { title: a } }, Info { title: a.clone(), version: own(""), description: None }),
        5 => (describe_api! { info: { version: b.clone(), title: "t" }, }, Info { title: own("t"), version: b, description: None }),
        _ => (describe_api! { tags: { x } }, Info { title: own(""), version: own(""), description: None }),
    };
    observe_doc(&o);
    check(seq_eq(&o.info.title, &want.title), "the title is the one given");
    check(seq_eq(&o.info.version, &want.version), "the version is the one given");
    check(eq_opt(&o.info.description, &want.description), "the description is the one given");
    check(o.paths.is_empty() && o.servers.is_empty(), "nothing else appears");
}

pub fn tags() {
    let (a, b, _) = texts();
    let (o, want): (Opg, Vec<(&str, Option<String>)>) = match choose(6) {
        0 => (describe_api! { tags: { one } }, vec![("one", None)]),
        1 => (describe_api! { tags: { one(&a) } }, vec![("one", Some(a))]),
        2 => (describe_api! { tags: { two, one(&a), three(&b), } }, vec![("two", None), ("one", Some(a)), ("three", Some(b))]),
        3 => (describe_api! { tags: { one("lit"), Two, snake_case } }, vec![("one", opt("lit")), ("Two", None), ("snake_case", None)]),
        4 => (describe_api! { tags: { a(3), b(&b), c, d } }, vec![("a", opt("3")), ("b", Some(b)), ("c", None), ("d", None)]),
        _ => (describe_api! { tags: { z, a }, info: { title: "t" } }, vec![("z", None), ("a", None)]),
    };
    observe_doc(&o);
    check(o.tags.len() == want.len(), "every tag is present, and nothing else");
    for (k, d) in &want {
        check(o.tags.get(*k).map_or(false, |t| eq_opt(&t.description, d)), "a tag carries the description given");
    }
}

pub fn servers() {
    let (a, b, _) = texts();
    let (s, d): (&str, &str) = (&a, &b);
    let owned = a.clone();
    let (o, want): (Opg, Vec<(String, Option<String>)>) = match choose(7) {
        0 => (describe_api! { servers: { "u" } }, vec![(own("u"), None)]),
        1 => (describe_api! { servers: { "u"("d") } }, vec![(own("u"), opt("d"))]),
        2 => (describe_api! { servers: { s } }, vec![(a.clone(), None)]),
        3 => (describe_api! { servers: { s(d), "u" } }, vec![(a.clone(), Some(b.clone())), (own("u"), None)]),
        4 => (describe_api! { servers: { "u"(d), s("d"), "v", } }, vec![(own("u"), Some(b.clone())), (a.clone(), opt("d")), (own("v"), None)]),
        5 => (describe_api! { servers: { owned } }, vec![(a.clone(), None)]),
        _ => (describe_api! { servers: { "same", "same"("d") } }, vec![(own("same"), None), (own("same"), opt("d"))]),
    };
    observe_doc(&o);
    check(o.servers.len() == want.len(), "every server is present");
    check(o.servers.iter().zip(&want).all(|(s, w)| seq_eq(&s.url, &w.0) && eq_opt(&s.description, &w.1)), "servers keep url, description and order");
}

fn is_op(o: Opg, m: HttpMethod, want: Operation, used: &[usize]) {
    observe_doc(&o);
    let got = only_op(&o);
    check(o.paths[0].1.operations.contains_key(&m), "the operation is under its method");
    check(eq_strs(&got.tags, &want.tags), "tags are those given");
    check(eq_opt(&got.summary, &want.summary) && eq_opt(&got.operation_id, &want.operation_id) && eq_opt(&got.description, &want.description), "summary, id and description are those given");
    check(got.deprecated == want.deprecated, "deprecated as given");
    check(eq_body(&got.request_body, &want.request_body), "the request body is the one given");
    check(got.responses.len() == want.responses.len(), "every response is present under its code");
    check(eq_responses(&got.responses, &want.responses), "responses carry description and schema");
    check(got.parameters.len() == want.parameters.len(), "every parameter is present under its name");
    check(eq_parameters(&got.parameters, &want.parameters), "parameters carry what is given or the defaults");
    check(eq_operation(got, &want), "the operation is exactly what is written");
    check(o.paths[0].1.summary.is_none() && o.paths[0].1.description.is_none() && o.paths[0].1.parameters.is_empty(), "nothing leaks into the path");
    check(eq_schemas(&o.components.schemas, &schemas(used)), "the types written are registered");
}
fn op() -> Operation {
    Operation::default()
}
fn ok() -> BTreeMap<u16, Response> {
    map([(200u16, response("OK", None))])
}

pub fn methods() {
    let d = text(1);
    let w = Operation { summary: Some(d.clone()), responses: ok(), ..op() };
    let s = d.as_str();
    use HttpMethod::*;
    match choose(9) {
        0 => is_op(describe_api! { paths: { ("a"): { GET: { summary: s, 200: None } } } }, GET, w, &[]),
        1 => is_op(describe_api! { paths: { ("a"): { PUT: { summary: s, 200: None } } } }, PUT, w, &[]),
        2 => is_op(describe_api! { paths: { ("a"): { POST: { summary: s, 200: None } } } }, POST, w, &[]),
        3 => is_op(describe_api! { paths: { ("a"): { DELETE: { summary: s, 200: None } } } }, DELETE, w, &[]),
        4 => is_op(describe_api! { paths: { ("a"): { OPTIONS: { summary: s, 200: None } } } }, OPTIONS, w, &[]),
        5 => is_op(describe_api! { paths: { ("a"): { HEAD: { summary: s, 200: None } } } }, HEAD, w, &[]),
        6 => is_op(describe_api! { paths: { ("a"): { PATCH: { summary: s, 200: None } } } }, PATCH, w, &[]),
        7 => is_op(describe_api! { paths: { ("a"): { TRACE: { summary: s, 200: None } } } }, TRACE, w, &[]),
        _ => {
            let o = describe_api! { paths: { ("a"): {
                TRACE: { summary: s, 200: None }, GET: { 201: None }, PUT: { 202: None }, POST: { 203: None },
                DELETE: { 204: None }, OPTIONS: { 205: None }, HEAD: { 206: None }, PATCH: { 207: None },
            } } };
            observe_doc(&o);
            check(o.paths.len() == 1 && o.paths[0].1.operations.len() == 8, "every operation is present");
            for (m, c) in [(TRACE, 200u16), (GET, 201), (PUT, 202), (POST, 203), (DELETE, 204), (OPTIONS, 205), (HEAD, 206), (PATCH, 207)] {
                let p = o.paths[0].1.operations.get(&m);
                check(p.map_or(false, |p| p.responses.len() == 1 && p.responses.contains_key(&c)), "each operation is under its method");
                check(p.map_or(false, |p| p.summary.is_some() == (c == 200)), "each operation is under its method");
            }
        }
    }
}

pub fn attributes() {
    use HttpMethod::*;
    let (a, b, c) = texts();
    let (s, i, d) = (a.as_str(), b.as_str(), c.as_str());
    let f = sym_bool();
    match choose(9) {
        0 => is_op(describe_api! { paths: { ("a"): { GET: { 200: None } } } }, GET, Operation { responses: ok(), ..op() }, &[]),
        1 => is_op(describe_api! { paths: { ("a"): { GET: {} } } }, GET, op(), &[]),
        2 => is_op(
            describe_api! { paths: { ("a"): { GET: { summary: s, operationId: i, description: d, deprecated: f, tags: { x, y }, 200: None } } } },
            GET,
            Operation { summary: Some(a), operation_id: Some(b), description: Some(c), deprecated: f, tags: strs(&["x", "y"]), responses: ok(), ..op() },
            &[],
        ),
        3 => is_op(
            describe_api! { paths: { ("a"): { GET: { 200: None, tags: { y, x, y, }, deprecated: true, description: d } } } },
            GET,
            Operation { description: Some(c), deprecated: true, tags: strs(&["y", "x", "y"]), responses: ok(), ..op() },
            &[],
        ),
        4 => is_op(describe_api! { paths: { ("a"): { GET: { operationId: i, 200: None } } } }, GET, Operation { operation_id: Some(b), responses: ok(), ..op() }, &[]),
        5 => is_op(describe_api! { paths: { ("a"): { GET: { description: d, 200: None } } } }, GET, Operation { description: Some(c), responses: ok(), ..op() }, &[]),
        6 => is_op(describe_api! { paths: { ("a"): { GET: { deprecated: f, 200: None } } } }, GET, Operation { deprecated: f, responses: ok(), ..op() }, &[]),
        7 => is_op(describe_api! { paths: { ("a"): { GET: { tags: {only}, 200: None } } } }, GET, Operation { tags: strs(&["only"]), responses: ok(), ..op() }, &[]),
        _ => is_op(describe_api! { paths: { ("a"): { GET: { tags: {}, summary: "", 200: None } } } }, GET, Operation { summary: opt(""), responses: ok(), ..op() }, &[]),
    }
}

pub fn bodies() {
    use HttpMethod::*;
    types();
    let body = |description: Option<&str>, required: bool, i: usize| Operation {
        request_body: Some(RequestBody { description: description.map(own), required, schema: rf(i) }),
        responses: ok(),
        ..op()
    };
    match choose(10) {
        0 => is_op(describe_api! { paths: { ("a"): { POST: { body: UserId, 200: None } } } }, POST, body(None, true, 0), &[0]),
        1 => is_op(describe_api! { paths: { ("a"): { POST: { body: deep::OrderId, 200: None } } } }, POST, body(None, true, 1), &[1]),
        2 => is_op(describe_api! { paths: { ("a"): { POST: { body: { schema: UserId }, 200: None } } } }, POST, body(None, true, 0), &[0]),
        3 => is_op(describe_api! { paths: { ("a"): { POST: { body: { schema: UserId, description: "d" }, 200: None } } } }, POST, body(Some("d"), true, 0), &[0]),
        4 => is_op(describe_api! { paths: { ("a"): { POST: { body: { schema: UserId, required: false }, 200: None } } } }, POST, body(None, false, 0), &[0]),
        5 => is_op(
            describe_api! { paths: { ("a"): { POST: { body: { required: false, description: "d", schema: Payload, }, 200: None } } } },
            POST,
            body(Some("d"), false, 1),
            &[1],
        ),
        6 => is_op(describe_api! { paths: { ("a"): { POST: { 200: None, body: { description: "d", schema: Payload, required: true } } } } }, POST, body(Some("d"), true, 1), &[1]),
        7 => is_op(
            describe_api! { paths: { ("a"): { POST: { body: Vec<UserId>, 200: None } } } },
            POST,
            Operation {
                request_body: Some(RequestBody {
                    description: None,
                    required: true,
                    schema: ModelReference::Inline(plain(ModelTypeDescription::Array(ModelArray { items: Box::new(rf(0)) }))),
                }),
                responses: ok(),
                ..op()
            },
            &[0],
        ),
        8 => is_op(
            describe_api! { paths: { ("a"): { POST: { body: String, 200: None } } } },
            POST,
            Operation { request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: ok(), ..op() },
            &[],
        ),
        _ => {
            // each body stays with its operation
            let o = describe_api! { paths: { ("a"): { POST: { body: UserId, 200: None }, PUT: { 200: None }, PATCH: { body: { schema: Payload, required: false }, 200: None } } } };
            observe_doc(&o);
            check(o.paths.len() == 1 && o.paths[0].1.operations.len() == 3, "every operation is present");
            check(eq_operation(&o.paths[0].1.operations[&POST], &body(None, true, 0)), "each body stays with its operation");
            check(eq_operation(&o.paths[0].1.operations[&PUT], &Operation { responses: ok(), ..op() }), "each body stays with its operation");
            check(eq_operation(&o.paths[0].1.operations[&PATCH], &body(None, false, 1)), "each body stays with its operation");
            check(eq_schemas(&o.components.schemas, &schemas(&[0, 1])), "the types written are registered");
        }
    }
}

fn unit() -> ModelReference {
    ModelReference::Inline(<() as OpgModel>::get_schema(&mut Components::default()))
}

pub fn responses() {
    use HttpMethod::*;
    types();
    let r = |m: BTreeMap<u16, Response>| Operation { responses: m, ..op() };
    match choose(12) {
        0 => is_op(describe_api! { paths: { ("a"): { GET: { 200: UserId } } } }, GET, r(map([(200, response("OK", Some(rf(0))))])), &[0]),
        1 => is_op(describe_api! { paths: { ("a"): { GET: { 200("d"): UserId } } } }, GET, r(map([(200, response("d", Some(rf(0))))])), &[0]),
        2 => is_op(describe_api! { paths: { ("a"): { GET: { 404: None } } } }, GET, r(map([(404, response("Not Found", None))])), &[]),
        3 => is_op(describe_api! { paths: { ("a"): { GET: { 404("d"): None } } } }, GET, r(map([(404, response("d", None))])), &[]),
        4 => is_op(describe_api! { paths: { ("a"): { GET: { 201: () } } } }, GET, r(map([(201, response("Created", Some(unit())))])), &[]),
        5 => is_op(describe_api! { paths: { ("a"): { GET: { 201("d"): () } } } }, GET, r(map([(201, response("d", Some(unit())))])), &[]),
        6 => is_op(
            describe_api! { paths: { ("a"): { GET: { 500: deep::OrderId, 200("x"): UserId, 404: None, 299: (), 418(""): None } } } },
            GET,
            r(map([
                (500, response("Internal Server Error", Some(rf(1)))),
                (200, response("x", Some(rf(0)))),
                (404, response("Not Found", None)),
                (299, response("", Some(unit()))),
                (418, response("", None)),
            ])),
            &[0, 1],
        ),
        7 => is_op(describe_api! { paths: { ("a"): { GET: { 599: UserId, } } } }, GET, r(map([(599, response("", Some(rf(0))))])), &[0]),
        8 => is_op(describe_api! { paths: { ("a"): { GET: { 99: None, 1000: UserId } } } }, GET, r(map([(99, response("", None)), (1000, response("", Some(rf(0))))])), &[0]),
        9 => is_op(
            describe_api! { paths: { ("a"): { GET: { 200: Vec<UserId>, 400: String } } } },
            GET,
            r(map([
                (200, response("OK", Some(ModelReference::Inline(plain(ModelTypeDescription::Array(ModelArray { items: Box::new(rf(0)) })))))),
                (400, response("Bad Request", Some(string()))),
            ])),
            &[0],
        ),
        10 => {
            let given = marked();
            let keep = given.clone();
            is_op(
                describe_api! { paths: { ("a"): { GET: { 200("d"): { Some(ModelReference::Inline(given)) } } } } },
                GET,
                r(map([(200, response("d", Some(ModelReference::Inline(keep))))])),
                &[],
            )
        }
        _ => is_op(
            describe_api! { paths: { ("a"): { GET: { 204: None, 203: UserId, 202: Payload, 201: UserId, 200: None } } } },
            GET,
            r(map([
                (204, response("No Content", None)),
                (203, response("Non Authoritative Information", Some(rf(0)))),
                (202, response("Accepted", Some(rf(1)))),
                (201, response("Created", Some(rf(0)))),
                (200, response("OK", None)),
            ])),
            &[0, 1],
        ),
    }
}

pub fn parameters() {
    use HttpMethod::*;
    types();
    let (n, d) = if flip() { (ascii(2), text(1)) } else { (some_text(), some_text()) };
    let (f, g) = (sym_bool(), sym_bool());
    let name = n.as_str();
    let w = |m: BTreeMap<String, OperationParameter>| Operation { parameters: m, responses: ok(), ..op() };
    let h = || param(ParameterIn::Header, true, string());
    let q = |i: usize| param(ParameterIn::Query, false, rf(i));
    match choose(13) {
        0 => is_op(describe_api! { paths: { ("a"): { GET: { parameters: { (header name) }, 200: None } } } }, GET, w(map([(n.clone(), h())])), &[]),
        1 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (header name): { description: &d, required: f, deprecated: g, schema: UserId } }, 200: None } } } },
            GET,
            w(map([(n.clone(), OperationParameter { description: Some(d.clone()), required: f, deprecated: g, schema: Some(rf(0)), ..h() })])),
            &[0],
        ),
        2 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (header "X-Lit"): { deprecated: g } }, 200: None } } } },
            GET,
            w(map([(own("X-Lit"), OperationParameter { deprecated: g, ..h() })])),
            &[],
        ),
        3 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (header name): { required: f } }, 200: None } } } },
            GET,
            w(map([(n.clone(), OperationParameter { required: f, ..h() })])),
            &[],
        ),
        4 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (header name): { description: &d, } }, 200: None } } } },
            GET,
            w(map([(n.clone(), OperationParameter { description: Some(d.clone()), ..h() })])),
            &[],
        ),
        5 => is_op(describe_api! { paths: { ("a"): { GET: { parameters: { (query q: UserId) }, 200: None } } } }, GET, w(map([(own("q"), q(0))])), &[0]),
        6 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (query some_name: UserId): { required: f, description: &d, deprecated: g } }, 200: None } } } },
            GET,
            w(map([(own("some_name"), OperationParameter { description: Some(d.clone()), required: f, deprecated: g, ..q(0) })])),
            &[0],
        ),
        7 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (query camelCase: deep::OrderId): { schema: UserId } }, 200: None } } } },
            GET,
            w(map([(own("camelCase"), q(0))])),
            &[0, 1],
        ),
        8 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (query q: UserId): { deprecated: g } }, 200: None } } } },
            GET,
            w(map([(own("q"), OperationParameter { deprecated: g, ..q(0) })])),
            &[0],
        ),
        9 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (query z: UserId), (header "H"), (query b: Payload): { required: true }, (header "A"): { required: false } }, 200: None } } } },
            GET,
            w(map([
                (own("z"), q(0)),
                (own("H"), h()),
                (own("b"), OperationParameter { required: true, ..q(1) }),
                (own("A"), OperationParameter { required: false, ..h() }),
            ])),
            &[0, 1],
        ),
        10 => is_op(describe_api! { paths: { ("a"): { GET: { parameters: {}, 200: None } } } }, GET, w(map([])), &[]),
        11 => is_op(
            describe_api! { paths: { ("a"): { GET: { parameters: { (header 12), }, 200: None } } } },
            GET,
            w(map([(own("12"), h())])),
            &[],
        ),
        _ => {
            // at path level, next to an operation
            let o = describe_api! { paths: { ("a" / {id: UserId}): {
                summary: "s",
                parameters: { (header name), (query q: Payload): { required: f } },
                GET: { 200: None },
                description: "d",
            } } };
            observe_doc(&o);
            check(o.paths.len() == 1, "one path");
            let mut ps = map([(own("id"), param(ParameterIn::Path, true, rf(0))), (own("q"), OperationParameter { required: f, ..q(1) })]);
            if n != "id" && n != "q" {
                // a name of its own
                ps.insert(n.clone(), h());
                let want = PathValue { summary: opt("s"), description: opt("d"), operations: map([(GET, Operation { responses: ok(), ..op() })]), parameters: ps };
                check(eq_item(&o.paths[0].1, &want), "a path carries its attributes, parameters and operations");
                check(eq_schemas(&o.components.schemas, &schemas(&[0, 1])), "the types written are registered");
            }
        }
    }
}

pub fn callbacks() {
    use HttpMethod::*;
    fixed_types();
    let d = ascii(1);
    let s = d.as_str();
    let cb = |paths: Vec<(Path, PathValue)>| CallbackObject { paths };
    let post = |o: Operation| PathValue { operations: map([(POST, o)]), ..Default::default() };
    match choose(5) {
        0 => is_op(
            describe_api! { paths: { ("a"): { POST: { callbacks: { done: { ("x"): { POST: { summary: s, 200: None } } } }, 200: None } } } },
            POST,
            Operation { responses: ok(), callbacks: map([(own("done"), cb(vec![(Path(vec![lit("x")]), post(Operation { summary: Some(d.clone()), responses: ok(), ..op() }))]))]), ..op() },
            &[],
        ),
        1 => is_op(
            describe_api! { paths: { ("a"): { POST: { callbacks: { "on-done": { ("x"): { POST: { summary: s, 200: None } } } }, 200: None } } } },
            POST,
            Operation { responses: ok(), callbacks: map([(own("on-done"), cb(vec![(Path(vec![lit("x")]), post(Operation { summary: Some(d.clone()), responses: ok(), ..op() }))]))]), ..op() },
            &[],
        ),
        2 => is_op(
            describe_api! { paths: { ("a"): { POST: { callbacks: {
                b: { ("x"): { POST: { body: UserId, 200: None } }, ("y"): { summary: "ys", GET: { 204: None } } },
                "a": { ("z"): { POST: { 200: Payload } } },
            }, 200: None } } } },
            POST,
            Operation {
                responses: ok(),
                callbacks: map([
                    (
                        own("b"),
                        cb(vec![
                            (
                                Path(vec![lit("x")]),
                                post(Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: ok(), ..op() }),
                            ),
                            (
                                Path(vec![lit("y")]),
                                PathValue { summary: opt("ys"), operations: map([(GET, Operation { responses: map([(204, response("No Content", None))]), ..op() })]), ..Default::default() },
                            ),
                        ]),
                    ),
                    (own("a"), cb(vec![(Path(vec![lit("z")]), post(Operation { responses: map([(200, response("OK", Some(rf(1))))]), ..op() }))])),
                ]),
                ..op()
            },
            &[0, 1],
        ),
        3 => is_op(
            describe_api! { paths: { ("a"): { POST: { 200: None, callbacks: { done: {} } } } } },
            POST,
            Operation { responses: ok(), callbacks: map([(own("done"), cb(vec![]))]), ..op() },
            &[],
        ),
        _ => is_op(
            describe_api! { paths: { ("a"): { POST: { callbacks: { done: { ("x"): { description: "d", parameters: { (header "H") }, POST: { deprecated: true, 200: None } } } }, 200: None } } } },
            POST,
            Operation {
                responses: ok(),
                callbacks: map([(
                    own("done"),
                    cb(vec![(
                        Path(vec![lit("x")]),
                        PathValue {
                            summary: None,
                            description: opt("d"),
                            parameters: map([(own("H"), param(ParameterIn::Header, true, string()))]),
                            operations: map([(POST, Operation { deprecated: true, responses: ok(), ..op() })]),
                        },
                    )]),
                )]),
                ..op()
            },
            &[],
        ),
    }
}

/// A whole document: parts do not disturb each other, whatever their order.
pub fn whole() {
    fixed_types();
    let t = ascii(1);
    let s = t.as_str();
    let f = sym_bool();
    let o = describe_api! {
        info: { title: s, version: "1", description: "about" },
        tags: { internal, admin("only") },
        servers: { "https://a"("main"), s },
        paths: {
            ("users" / {id: UserId}): {
                summary: "one user",
                parameters: { (header "Auth") },
                GET: { tags: { internal }, summary: s, 200("found"): UserId, 404: None },
                DELETE: { deprecated: f, parameters: { (query force: Payload) }, 204: None },
            },
            ("users"): {
                POST: { body: { schema: Payload, description: "new" }, 201: UserId, callbacks: { made: { ("hook" / {cid: UserId}): { POST: { 200: None } } } } },
            },
        },
        security_schemes: { (http "basic"): { scheme: Basic } },
    };
    observe_doc(&o);
    check(seq_eq(&o.info.title, s) && seq_eq(&o.info.version, "1") && eq_opt(&o.info.description, &opt("about")), "info as written");
    check(o.tags.len() == 2 && o.tags.get("internal").map_or(false, |t| t.description.is_none()), "tags as written");
    check(o.tags.get("admin").map_or(false, |t| eq_opt(&t.description, &opt("only"))), "tags as written");
    check(o.servers.len() == 2 && seq_eq(&o.servers[0].url, "https://a") && eq_opt(&o.servers[0].description, &opt("main")), "servers as written");
    check(seq_eq(&o.servers[1].url, s) && o.servers[1].description.is_none(), "servers as written");
    use HttpMethod::*;
    let want = vec![
        (
            Path(vec![lit("users"), par("id")]),
            PathValue {
                summary: opt("one user"),
                description: None,
                parameters: map([(own("id"), param(ParameterIn::Path, true, rf(0))), (own("Auth"), param(ParameterIn::Header, true, string()))]),
                operations: map([
                    (
                        GET,
                        Operation {
                            tags: strs(&["internal"]),
                            summary: Some(t.clone()),
                            responses: map([(200, response("found", Some(rf(0)))), (404, response("Not Found", None))]),
                            ..op()
                        },
                    ),
                    (
                        DELETE,
                        Operation {
                            deprecated: f,
                            parameters: map([(own("force"), param(ParameterIn::Query, false, rf(1)))]),
                            responses: map([(204, response("No Content", None))]),
                            ..op()
                        },
                    ),
                ]),
            },
        ),
        (
            Path(vec![lit("users")]),
            PathValue {
                operations: map([(
                    POST,
                    Operation {
                        request_body: Some(RequestBody { description: opt("new"), required: true, schema: rf(1) }),
                        responses: map([(201, response("Created", Some(rf(0))))]),
                        callbacks: map([(
                            own("made"),
                            CallbackObject {
                                paths: vec![(
                                    Path(vec![lit("hook"), par("cid")]),
                                    PathValue {
                                        parameters: map([(own("cid"), param(ParameterIn::Path, true, rf(0)))]),
                                        operations: map([(POST, Operation { responses: ok(), ..op() })]),
                                        ..Default::default()
                                    },
                                )],
                            },
                        )]),
                        ..op()
                    },
                )]),
                ..Default::default()
            },
        ),
    ];
    check(eq_paths(&o.paths, &want), "paths and operations are exactly those written");
    check(eq_schemas(&o.components.schemas, &schemas(&[0, 1])), "the types written are registered");
    check(o.components.security_schemes.len() == 1, "security schemes as written");
    check(closed(&o.components), "nothing dangles");
}

/// Builder methods on an operation.
pub fn builders() {
    let (a, b, c) = texts();
    let f = sym_bool();
    fixed_types();
    let mut o = op();
    let mut want = op();
    for _ in 0..tiered(2, 3) {
        match choose(5) {
            0 => {
                o.with_summary(&a);
                want.summary = Some(a.clone());
            }
            1 => {
                o.with_operation_id(b.as_str());
                want.operation_id = Some(b.clone());
            }
            2 => {
                o.with_description(&c);
                want.description = Some(c.clone());
            }
            3 => {
                o.mark_deprecated(f);
                want.deprecated = f;
            }
            _ => {
                o.with_request_body(RequestBody { description: Some(a.clone()), required: f, schema: rf(0) });
                want.request_body = Some(RequestBody { description: Some(a.clone()), required: f, schema: rf(0) });
            }
        }
        check(eq_operation(&o, &want), "a builder sets exactly its attribute");
    }
    observe(o.deprecated as u64);
}

/// Many parts of each kind, and parts of the same name in different places.
pub fn many() {
    use HttpMethod::*;
    fixed_types();
    let t = words();
    let s = t.as_str();
    match choose(6) {
        0 => {
            let o = describe_api! { paths: {
                ("d"): { GET: { summary: s, 200: None } }, ("c"): { GET: { 201: None } }, ("d"): { PUT: { 202: None } }, ("a"): { GET: { 203: None } },
                ("b"): { GET: { 204: None } }, ("d"): { GET: { 205: None } }, ("d" / "d"): {}, ("c"): { GET: { 206: None } }, ("a"): { summary: "again" },
            } };
            observe_doc(&o);
            let it = |m: HttpMethod, c: u16, r: &str, summary: Option<String>| PathValue { operations: map([(m, Operation { summary, responses: map([(c, response(r, None))]), ..op() })]), ..Default::default() };
            let p = |a: &str| Path(vec![lit(a)]);
            let want = vec![
                (p("d"), it(GET, 200, "OK", Some(t.clone()))),
                (p("c"), it(GET, 201, "Created", None)),
                (p("d"), it(PUT, 202, "Accepted", None)),
                (p("a"), it(GET, 203, "Non Authoritative Information", None)),
                (p("b"), it(GET, 204, "No Content", None)),
                (p("d"), it(GET, 205, "Reset Content", None)),
                (Path(vec![lit("d"), lit("d")]), PathValue::default()),
                (p("c"), it(GET, 206, "Partial Content", None)),
                (p("a"), PathValue { summary: opt("again"), ..Default::default() }),
            ];
            check(eq_paths(&o.paths, &want), "every path written is present, in order");
        }
        1 => {
            let q = |required: bool| OperationParameter { required, ..param(ParameterIn::Query, false, rf(0)) };
            let mut ps = BTreeMap::new();
            for n in ["q01", "q02", "q03", "q04", "q05", "q06", "q07", "q08", "q09", "q10", "q11", "q12", "q13", "q14", "q15", "q16", "q17"] {
                ps.insert(own(n), q(n == "q03" || n == "q17"));
            }
            is_op(
                describe_api! { paths: { ("a"): { GET: {
                    parameters: { (query q17: UserId): { required: true }, (query q16: UserId), (query q15: UserId), (query q14: UserId), (query q13: UserId), (query q12: UserId) },
                    200: None,
                    parameters: {
                        (query q11: UserId), (query q10: UserId), (query q09: UserId), (query q08: UserId), (query q07: UserId), (query q06: UserId),
                        (query q05: UserId), (query q04: UserId), (query q03: UserId): { required: true }, (query q02: UserId), (query q01: UserId),
                    },
                } } } },
                GET,
                Operation { parameters: ps, responses: ok(), ..op() },
                &[0],
            )
        }
        2 => {
            let mut rs = BTreeMap::new();
            for c in 460u16..480 {
                rs.insert(c, response("", if c % 2 == 0 { Some(rf(0)) } else { None }));
            }
            rs.insert(200, response("OK", Some(rf(1))));
            is_op(
                describe_api! { paths: { ("a"): { GET: {
                    479: None, 478: UserId, 477: None, 476: UserId, 475: None, 474: UserId, 473: None, 472: UserId, 471: None, 470: UserId, 200: Payload,
                    460: UserId, 461: None, 462: UserId, 463: None, 464: UserId, 465: None, 466: UserId, 467: None, 468: UserId, 469: None,
                } } } },
                GET,
                Operation { responses: rs, ..op() },
                &[0, 1],
            )
        }
        3 => {
            // the same name at both levels and in another operation
            let o = describe_api! { paths: { ("a"): {
                parameters: { (header s): { required: false } },
                GET: { parameters: { (header s): { description: "here" } }, 200: None },
                PUT: { 200: None, parameters: { (header s): { deprecated: true } } },
                DELETE: { 200: None },
            } } };
            observe_doc(&o);
            let h = || param(ParameterIn::Header, true, string());
            let with = |p: OperationParameter| Operation { parameters: map([(t.clone(), p)]), responses: ok(), ..op() };
            let want = vec![(
                Path(vec![lit("a")]),
                PathValue {
                    parameters: map([(t.clone(), OperationParameter { required: false, ..h() })]),
                    operations: map([
                        (GET, with(OperationParameter { description: opt("here"), ..h() })),
                        (PUT, with(OperationParameter { deprecated: true, ..h() })),
                        (DELETE, Operation { responses: ok(), ..op() }),
                    ]),
                    ..Default::default()
                },
            )];
            check(eq_paths(&o.paths, &want), "parameters stay where they are written");
        }
        4 => {
            // callbacks within callbacks
            let o = describe_api! { paths: { ("a"): { GET: { 200: None, callbacks: {
                one: { ("x" / {id: UserId}): { POST: { summary: s, callbacks: { two: { ("y"): { parameters: { (header s) }, PUT: { body: Payload, 202: None } } } }, 201: None } } },
            } } } } };
            observe_doc(&o);
            let inner = CallbackObject {
                paths: vec![(
                    Path(vec![lit("y")]),
                    PathValue {
                        parameters: map([(t.clone(), param(ParameterIn::Header, true, string()))]),
                        operations: map([(
                            PUT,
                            Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(202, response("Accepted", None))]), ..op() },
                        )]),
                        ..Default::default()
                    },
                )],
            };
            let outer = CallbackObject {
                paths: vec![(
                    Path(vec![lit("x"), par("id")]),
                    PathValue {
                        parameters: map([(own("id"), param(ParameterIn::Path, true, rf(0)))]),
                        operations: map([(
                            POST,
                            Operation { summary: Some(t.clone()), callbacks: map([(own("two"), inner)]), responses: map([(201, response("Created", None))]), ..op() },
                        )]),
                        ..Default::default()
                    },
                )],
            };
            let want = vec![(
                Path(vec![lit("a")]),
                PathValue { operations: map([(GET, Operation { responses: ok(), callbacks: map([(own("one"), outer)]), ..op() })]), ..Default::default() },
            )];
            check(eq_paths(&o.paths, &want), "callbacks of callbacks are kept");
            check(eq_schemas(&o.components.schemas, &schemas(&[0, 1])), "the types written are registered");
        }
        _ => {
            let o = describe_api! {
                tags: { t9, t8(s), t7, t6, t5, t4, t3, t2, t1, t0, ta, tb, tc("c"), td, te, tf, tg },
                servers: { "9", "8", "7"(s), "6", "5", "4", "3", "2", "1", "0", s, "a", "b", "c", "d", "e"("x"), "f" },
            };
            observe_doc(&o);
            let tags = ["t9", "t8", "t7", "t6", "t5", "t4", "t3", "t2", "t1", "t0", "ta", "tb", "tc", "td", "te", "tf", "tg"];
            check(o.tags.len() == tags.len(), "every tag is present, and nothing else");
            for k in tags {
                let d = match k {
                    "t8" => Some(t.clone()),
                    "tc" => opt("c"),
                    _ => None,
                };
                check(o.tags.get(k).map_or(false, |x| eq_opt(&x.description, &d)), "a tag carries the description given");
            }
            let urls = ["9", "8", "7", "6", "5", "4", "3", "2", "1", "0", s, "a", "b", "c", "d", "e", "f"];
            check(o.servers.len() == urls.len(), "every server is present");
            check(o.servers.iter().zip(urls).all(|(x, u)| seq_eq(&x.url, u)), "servers keep url and order");
            check(
                o.servers.iter().enumerate().all(|(i, x)| {
                    eq_opt(
                        &x.description,
                        &match i {
                            2 => Some(t.clone()),
                            15 => opt("x"),
                            _ => None,
                        },
                    )
                }),
                "servers keep their descriptions",
            );
        }
    }
}

/// Recorded, not repaired (see known-findings.txt).
pub fn known() {
    fixed_types();
    let t = words();
    let s = t.as_str();
    let d = sym_bool();
    check(true, "reached");
    let o = describe_api! { paths: { ("a"): { GET: {
        parameters: { (header "id"): { description: s, deprecated: d }, (query id: UserId): { deprecated: d } },
        200: None,
    } } } };
    observe_doc(&o);
    let op = &o.paths[0].1.operations[&HttpMethod::GET];
    check(op.parameters.len() == 2, "kf.parameters-share-a-name");
}
