// Generated by tools/gen_api.py.
#![allow(unused)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use crate::kit::*;
use crate::parts::*;

fn d0(decide: fn(&Opg, &Want)) {
    tag("0");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("other text" / "a.b"): { DELETE: { 403: deep::OrderId, body: { description: "ünïcode", schema: Box<Payload> } }, TRACE: { parameters: {  }, callbacks: { "cb-1": { ("{x}" / "" / "quote \" here"): { description: "ünïcode", parameters: {  } }, ("lit"): { POST: { body: { schema: crate::kit::UserId }, summary: u, parameters: { (query q4: deep::OrderId): { deprecated: !f, description: s, schema: Payload, }, (query camelQ5: UserId), (header format!("Some Header 6{}", s)), }, }, PUT: { deprecated: false, 201("lit"): (), description: "", operationId: "a \"b\" {c}" }, PATCH: { 422(""): None, summary: "a \"b\" {c}" }, parameters: { (query Q2: deep::OrderId), (header "h3"): {  } }, } }, onCb7: { ("lit"): { TRACE: { 301: Payload, operationId: "a \"b\" {c}", 99: Vec<UserId>, }, PATCH: { body: { schema: deep::er::ItemKey, required: false, description: "quote \" here", }, 503: { Some(ModelReference::Link(own("Given"))) }, 599(""): { Some(ModelReference::Link(own("Given"))) }, operationId: s, 409: Vec<UserId>, summary: u, 204("{x}"): None }, } }, }, 401: None, description: s, 99("quote \" here"): deep::er::ItemKey, 204("other text"): { Some(ModelReference::Link(own("Given"))) } }, PUT: { 409: (), 404: (), 301("quote \" here"): { Some(ModelReference::Link(own("Given"))) } }, description: "other text", }, ("quote \" here" / UserId): { TRACE: { description: u, 503: () }, summary: "lit", DELETE: { deprecated: !f, security: { "lit b"["b", "a"] && keyed["r"], }, 200: Box<Payload>, 299("other text"): (), summary: s, operationId: u, tags: { snake_case }, body: crate::kit::UserId, 599("quote \" here"): String, 202(""): deep::OrderId, callbacks: { onCb8: {  } }, parameters: { (query some_q9: UserId): { required: !f, schema: Payload, description: &t }, (query q10: Payload) }, description: "", parameters: {  } } }, }, info: { title: s, description: u, version: format!("{}!", 7) }, tags: { snake_case("lit"), z9("") }, };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: own("7!"), description: Some(v.clone()) },
            tags: vec![("snake_case", Some(own("lit"))), ("z9", Some(own("")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("other text"), lit("a.b")]), PathValue { description: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([]), callbacks: map([(own("cb-1"), CallbackObject { paths: vec![(Path(vec![lit("{x}"), lit(""), lit("quote \" here")]), PathValue { description: Some(own("ünïcode")), parameters: map([]), operations: map([]), ..Default::default() }), (Path(vec![lit("lit")]), PathValue { parameters: map([(own("Q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("h3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { summary: Some(own("a \"b\" {c}")), responses: map([(422u16, Response { description: own(""), schema: None })]), ..Default::default() }), (HttpMethod::POST, Operation { summary: Some(v.clone()), parameters: map([(own("q4"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(rf(1)) }), (own("camelQ5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 6") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { deprecated: false, operation_id: Some(own("a \"b\" {c}")), description: Some(own("")), responses: map([(201u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb7"), CallbackObject { paths: vec![(Path(vec![lit("lit")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { operation_id: Some(own("a \"b\" {c}")), responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(rf(1)) }), (99u16, Response { description: own(""), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { operation_id: Some(t.clone()), summary: Some(v.clone()), request_body: Some(RequestBody { description: Some(own("quote \" here")), required: false, schema: rf(0) }), responses: map([(204u16, Response { description: own("{x}"), schema: None }), (409u16, Response { description: own("Conflict"), schema: Some(list(rf(0))) }), (599u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(t.clone()), responses: map([(204u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) }), (401u16, Response { description: own("Unauthorized"), schema: None }), (99u16, Response { description: own("quote \" here"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: Some(own("ünïcode")), required: true, schema: rf(1) }), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::PUT, Operation { responses: map([(301u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (404u16, Response { description: own("Not Found"), schema: Some(unit()) }), (409u16, Response { description: own("Conflict"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("quote \" here"), par("userId")]), PathValue { summary: Some(own("lit")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { description: Some(v.clone()), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { description: Some(own("")), callbacks: map([(own("onCb8"), CallbackObject { paths: vec![] })]), operation_id: Some(v.clone()), security: vec![map([(own("lit b"), strs(&["b", "a"])), (own("keyed"), strs(&["r"]))])], request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(t.clone()), deprecated: !f, parameters: map([(own("some_q9"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(rf(1)) }), (own("q10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), tags: strs(&["snake_case"]), responses: map([(200u16, Response { description: own("OK"), schema: Some(rf(1)) }), (299u16, Response { description: own("other text"), schema: Some(unit()) }), (599u16, Response { description: own("quote \" here"), schema: Some(string()) }), (202u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v))]),
        },
    )
}

fn d1(decide: fn(&Opg, &Want)) {
    tag("1");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (""): { HEAD: { 500: { Some(ModelReference::Link(own("Given"))) }, parameters: {  }, 299("other text"): None, 503: (), summary: "a \"b\" {c}" }, parameters: { (header "h1"): { schema: crate::kit::UserId }, }, }, ("ünïcode" / deep::OrderId / "lit" / {some_id2: UserId}): { GET: {  }, }, (deep::er::ItemKey / {Id3: deep::er::ItemKey} / UserId / {id4: crate::kit::UserId}): { GET: { 204: deep::er::ItemKey, 304: Payload, }, PUT: { body: crate::kit::UserId, summary: u, deprecated: true, operationId: &t }, parameters: {  }, HEAD: { operationId: s, callbacks: { "cb-5": { ({id6: UserId} / {id7: UserId} / "users"): { DELETE: { 401: (), body: { description: "{x}", schema: String, required: false, }, summary: "a \"b\" {c}", description: u, }, PUT: { 301("other text"): { Some(ModelReference::Link(own("Given"))) }, 202("lit"): deep::er::ItemKey, 99("{x}"): Box<Payload> }, PATCH: { 500: { Some(ModelReference::Link(own("Given"))) }, deprecated: false } }, ("{x}"): { parameters: { (header String::from("Some Header 8")): {  }, (query q9: deep::OrderId), }, PATCH: { 400: UserId, 403: Box<Payload>, 301: () }, } }, }, tags: { one, one }, 400("ünïcode"): (), 299("ünïcode"): (), parameters: {  }, }, summary: "{x}" }, }, servers: { ""(s), "x"("https://a.b/c") }, security_schemes: { (http "decl10"): { scheme: Bearer, description: format!("{}!", 7), bearer_format: t.clone(), }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![(own(""), Some(t.clone())), (own("x"), Some(own("https://a.b/c")))],
            paths: vec![(Path(vec![lit("")]), PathValue { parameters: map([(own("h1"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::HEAD, Operation { parameters: map([]), summary: Some(own("a \"b\" {c}")), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(unit()) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) }), (299u16, Response { description: own("other text"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("ünïcode"), par("orderId"), lit("lit"), par("some_id2")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("some_id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey"), par("Id3"), par("userId"), par("id4")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Id3"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("id4"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { operation_id: Some(t.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), deprecated: true, summary: Some(v.clone()), responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { parameters: map([]), operation_id: Some(t.clone()), callbacks: map([(own("cb-5"), CallbackObject { paths: vec![(Path(vec![par("id6"), par("id7"), lit("users")]), PathValue { parameters: map([(own("id6"), param(ParameterIn::Path, true, rf(0))), (own("id7"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { summary: Some(own("a \"b\" {c}")), description: Some(v.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: string() }), responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { responses: map([(99u16, Response { description: own("{x}"), schema: Some(rf(1)) }), (202u16, Response { description: own("lit"), schema: Some(rf(0)) }), (301u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { deprecated: false, responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("{x}")]), PathValue { parameters: map([(own("Some Header 8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q9"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::PATCH, Operation { responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(rf(1)) }), (301u16, Response { description: own("Moved Permanently"), schema: Some(unit()) }), (400u16, Response { description: own("Bad Request"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["one", "one"]), responses: map([(299u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (400u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::GET, Operation { responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(rf(1)) }), (204u16, Response { description: own("No Content"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("decl10"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: Some(t.clone()), description: Some(own("7!")) }))]),
        },
    )
}

fn d2(decide: fn(&Opg, &Want)) {
    tag("2");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { two(s), snake_case(&t), z9(format!("{}!", 7)), one }, security_schemes: { keyed, (apiKey "Decl 46"): { description: u, name: u, parameter_in: Cookie, }, whole, }, paths: { ("{x}" / {id1: String}): { TRACE: { 409("ünïcode"): (), 500("{x}"): None, 299("ünïcode"): None, summary: "", security: { "lit b" && "basic"["b", "a"] }, callbacks: { "cb-18": { ("$x:y" / {id19: deep::OrderId} / "other text"): { HEAD: { 404(""): { Some(ModelReference::Link(own("Given"))) }, security: {  }, deprecated: false, description: &t }, PATCH: { deprecated: !f, security: { keyed["a", "a", ""] && "basic", whole["b", "a"] && "lit b"["a", "a", ""], whole["a", "a", ""] && basic["b", "a"] }, description: s, parameters: { (header "Some Header 26"), }, parameters: { (header "X-H23"): { deprecated: g }, (query camelQ24: crate::kit::UserId): {  }, (query q25: deep::OrderId): { deprecated: false, description: format!("{}!", 7) } } }, GET: { body: UserId, callbacks: { cb20: { ("a.b"): { DELETE: { 201("quote \" here"): Box<Payload>, 404: None, 200("other text"): None, }, PUT: { tags: { Three }, 202: deep::er::ItemKey, operationId: "", 400(""): Box<Payload>, parameters: { (header "Some Header 21"): { schema: Payload, required: g, description: t.clone(), deprecated: true } }, 1000(""): (), 201("lit"): (), }, description: "", POST: { deprecated: f } } } }, parameters: { (header String::from("X-H22")): { schema: UserId, required: f, description: "", deprecated: false }, }, security: { "z" && whole["a", "a", ""], whole["a", "a", ""] }, deprecated: false } } }, }, 460: deep::er::ItemKey }, summary: "{x}", PATCH: { callbacks: { onCb2: { ("$x:y" / "a.b" / UserId / "ünïcode"): { OPTIONS: { parameters: { (query q7: Box<Payload>), (query camelQ8: Vec<Payload>), }, 200: (), security: { "basic"["a", "a", ""] && keyed, "z", }, deprecated: g, body: { required: true, schema: String, description: "lit" }, summary: "lit", description: u, 204: None, 599(""): None, parameters: { (header "h5"), (header String::from("Some Header 6")): {  } }, operationId: u, 1000("ünïcode"): None, callbacks: { cb3: { ("users" / "quote \" here"): { PUT: { 304: Payload, summary: u, 599("ünïcode"): String, body: { schema: UserId }, security: {  }, 404(""): String, }, } }, "cb-4": { (String / "ünïcode"): { HEAD: { summary: &t, 204: (), 403: Vec<UserId>, }, } }, }, tags: { two, two, Three }, }, summary: "lit", parameters: {  }, description: "" }, ("lit" / {some_id9: deep::OrderId} / "other text"): { GET: { 299("other text"): String, security: { keyed["b", "a"] && whole[], "basic", }, body: { schema: Box<Payload>, }, callbacks: { cb10: { ("$x:y"): { TRACE: { 500: Box<Payload>, 460: Payload, 304("lit"): { Some(ModelReference::Link(own("Given"))) }, }, parameters: { (header String::from("X-H11")): { schema: Payload, required: f, deprecated: g, description: "", }, (query Q12: Box<Payload>): {  } }, DELETE: { summary: "", 403("lit"): UserId, deprecated: true, parameters: { (header format!("h13{}", s)), (header String::from("Some Header 14")): { schema: Vec<UserId>, required: f, deprecated: !f, }, (query camelQ15: UserId): { deprecated: false, description: &t, required: !f, schema: Payload, } }, tags: { Three, one, one }, description: &t, parameters: { (header "h16"): { schema: Payload, deprecated: g, required: g, description: format!("{}!", 7) }, (query Q17: UserId): {  }, }, }, } } }, 403: { Some(ModelReference::Link(own("Given"))) } }, description: "other text" } }, } }, PUT: { 202: (), 99("quote \" here"): (), operationId: s, deprecated: true } }, ("other text" / {id27: deep::er::ItemKey} / UserId): { parameters: {  }, GET: { 299("other text"): None, callbacks: { cb28: { ("a.b" / {some_id29: UserId} / "lit" / "{x}"): { description: "lit", PUT: { callbacks: { onCb30: {  }, }, body: { schema: UserId }, 404: { Some(ModelReference::Link(own("Given"))) }, deprecated: false }, DELETE: { 599("quote \" here"): UserId, 299: None, 404: Payload, 200: { Some(ModelReference::Link(own("Given"))) }, } }, (deep::er::ItemKey / "quote \" here" / "other text" / {Id31: deep::er::ItemKey}): { DELETE: { tags: { two }, description: &t, summary: u, operationId: "a \"b\" {c}", callbacks: { "cb-36": { ("other text" / "a.b"): { PUT: { 403("ünïcode"): deep::OrderId, parameters: { (header "h41"): { deprecated: true, required: f, schema: Vec<Payload>, description: "lit" }, }, body: Vec<Payload>, 202: Box<Payload>, tags: { two, }, 422: None, security: { "z", basic["r"] && keyed["r"] } }, PATCH: { summary: &t, parameters: { (query some_q39: Vec<UserId>): { required: false, schema: deep::er::ItemKey }, (query Q40: deep::OrderId) }, operationId: "a \"b\" {c}", parameters: {  } }, TRACE: { 460("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, operationId: s, 201: None, 299(""): None, 500: crate::kit::UserId, description: "", security: { whole["a", "a", ""] && basic["b", "a"], keyed && basic[] && whole["r"], keyed && "z" && whole[] }, }, parameters: { (header "Some Header 37"): { required: true, schema: Payload }, (query camelQ38: deep::er::ItemKey): { description: u, deprecated: false, required: false, } }, description: "quote \" here" }, ({Id42: Payload}): { description: "{x}", parameters: { (header "X-H43"): { description: "lit", deprecated: false, schema: Vec<UserId>, required: g } } } } }, 503: None, body: { required: false, schema: String, description: "" }, 400: { Some(ModelReference::Link(own("Given"))) }, security: {  }, parameters: { (header format!("Some Header 35{}", s)): {  }, }, deprecated: false, }, parameters: { (query q32: Payload): { schema: Box<Payload>, required: false, }, (header "X-H33") }, description: "quote \" here", TRACE: { tags: {}, parameters: { (query some_q34: String): { schema: Payload, description: t.clone() } }, operationId: s }, } }, onCb44: {  } }, tags: {}, 404("ünïcode"): (), summary: s, 200: None }, summary: "quote \" here" }, }, servers: { "x"("x"), "https://a.b/c", s, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("two", Some(t.clone())), ("snake_case", Some(t.clone())), ("z9", Some(own("7!"))), ("one", None)],
            servers: vec![(own("x"), Some(own("x"))), (own("https://a.b/c"), None), (t.clone(), None)],
            paths: vec![(Path(vec![lit("{x}"), par("id1")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("id1"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PATCH, Operation { callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![lit("$x:y"), lit("a.b"), par("userId"), lit("ünïcode")]), PathValue { summary: Some(own("lit")), description: Some(own("")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { security: vec![map([(own("basic"), strs(&["a", "a", ""])), (own("keyed"), strs(&[]))]), map([(own("z"), strs(&[]))])], tags: strs(&["two", "two", "Three"]), operation_id: Some(v.clone()), deprecated: g, callbacks: map([(own("cb3"), CallbackObject { paths: vec![(Path(vec![lit("users"), lit("quote \" here")]), PathValue { parameters: map([]), operations: map([(HttpMethod::PUT, Operation { security: vec![], request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(v.clone()), responses: map([(599u16, Response { description: own("ünïcode"), schema: Some(string()) }), (404u16, Response { description: own(""), schema: Some(string()) }), (304u16, Response { description: own("Not Modified"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-4"), CallbackObject { paths: vec![(Path(vec![par("string"), lit("ünïcode")]), PathValue { parameters: map([(own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::HEAD, Operation { summary: Some(t.clone()), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) }), (403u16, Response { description: own("Forbidden"), schema: Some(list(rf(0))) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: string() }), summary: Some(own("lit")), description: Some(v.clone()), parameters: map([(own("h5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("camelQ8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), responses: map([(200u16, Response { description: own("OK"), schema: Some(unit()) }), (204u16, Response { description: own("No Content"), schema: None }), (1000u16, Response { description: own("ünïcode"), schema: None }), (599u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), par("some_id9"), lit("other text")]), PathValue { description: Some(own("other text")), parameters: map([(own("some_id9"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), callbacks: map([(own("cb10"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { parameters: map([(own("X-H11"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: f, deprecated: g, schema: Some(rf(1)) }), (own("Q12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { parameters: map([(own("h13") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 14"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: !f, schema: Some(list(rf(0))) }), (own("camelQ15"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(rf(1)) }), (own("h16"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: g, deprecated: g, schema: Some(rf(1)) }), (own("Q17"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), tags: strs(&["Three", "one", "one"]), deprecated: true, summary: Some(own("")), description: Some(t.clone()), responses: map([(403u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { responses: map([(304u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(rf(1)) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("keyed"), strs(&["b", "a"])), (own("whole"), strs(&[]))]), map([(own("basic"), strs(&[]))])], responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(ModelReference::Link(own("Given"))) }), (299u16, Response { description: own("other text"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { operation_id: Some(t.clone()), deprecated: true, responses: map([(202u16, Response { description: own("Accepted"), schema: Some(unit()) }), (99u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { summary: Some(own("")), security: vec![map([(own("lit b"), strs(&[])), (own("basic"), strs(&["b", "a"]))])], callbacks: map([(own("cb-18"), CallbackObject { paths: vec![(Path(vec![lit("$x:y"), par("id19"), lit("other text")]), PathValue { parameters: map([(own("id19"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { security: vec![], description: Some(t.clone()), deprecated: false, responses: map([(404u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), callbacks: map([(own("cb20"), CallbackObject { paths: vec![(Path(vec![lit("a.b")]), PathValue { description: Some(own("")), parameters: map([]), operations: map([(HttpMethod::POST, Operation { deprecated: f, responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { operation_id: Some(own("")), tags: strs(&["Three"]), parameters: map([(own("Some Header 21"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: g, deprecated: true, schema: Some(rf(1)) })]), responses: map([(1000u16, Response { description: own(""), schema: Some(unit()) }), (201u16, Response { description: own("lit"), schema: Some(unit()) }), (400u16, Response { description: own(""), schema: Some(rf(1)) }), (202u16, Response { description: own("Accepted"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([(404u16, Response { description: own("Not Found"), schema: None }), (200u16, Response { description: own("other text"), schema: None }), (201u16, Response { description: own("quote \" here"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("z"), strs(&[])), (own("whole"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""]))])], deprecated: false, parameters: map([(own("X-H22"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: f, deprecated: false, schema: Some(rf(0)) })]), responses: map([]), ..Default::default() }), (HttpMethod::PATCH, Operation { deprecated: !f, security: vec![map([(own("keyed"), strs(&["a", "a", ""])), (own("basic"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"])), (own("lit b"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""])), (own("basic"), strs(&["b", "a"]))])], description: Some(t.clone()), parameters: map([(own("X-H23"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(string()) }), (own("camelQ24"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("q25"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 26"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(299u16, Response { description: own("ünïcode"), schema: None }), (409u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (500u16, Response { description: own("{x}"), schema: None }), (460u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("other text"), par("id27"), par("userId")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("id27"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { summary: Some(t.clone()), tags: strs(&[]), callbacks: map([(own("cb28"), CallbackObject { paths: vec![(Path(vec![lit("a.b"), par("some_id29"), lit("lit"), lit("{x}")]), PathValue { description: Some(own("lit")), parameters: map([(own("some_id29"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { callbacks: map([(own("onCb30"), CallbackObject { paths: vec![] })]), deprecated: false, request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: map([(404u16, Response { description: own("Not Found"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([(599u16, Response { description: own("quote \" here"), schema: Some(rf(0)) }), (404u16, Response { description: own("Not Found"), schema: Some(rf(1)) }), (299u16, Response { description: own(""), schema: None }), (200u16, Response { description: own("OK"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey"), lit("quote \" here"), lit("other text"), par("Id31")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Id31"), param(ParameterIn::Path, true, rf(0))), (own("q32"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("X-H33"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::TRACE, Operation { operation_id: Some(t.clone()), tags: strs(&[]), parameters: map([(own("some_q34"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), responses: map([]), ..Default::default() }), (HttpMethod::DELETE, Operation { security: vec![], request_body: Some(RequestBody { description: Some(own("")), required: false, schema: string() }), operation_id: Some(own("a \"b\" {c}")), deprecated: false, parameters: map([(own("Some Header 35") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&["two"]), description: Some(t.clone()), summary: Some(v.clone()), callbacks: map([(own("cb-36"), CallbackObject { paths: vec![(Path(vec![lit("other text"), lit("a.b")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("Some Header 37"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(1)) }), (own("camelQ38"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::PATCH, Operation { parameters: map([(own("some_q39"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Q40"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operation_id: Some(own("a \"b\" {c}")), summary: Some(t.clone()), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { tags: strs(&["two"]), parameters: map([(own("h41"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: f, deprecated: true, schema: Some(list(rf(1))) })]), security: vec![map([(own("z"), strs(&[]))]), map([(own("basic"), strs(&["r"])), (own("keyed"), strs(&["r"]))])], request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), responses: map([(403u16, Response { description: own("ünïcode"), schema: Some(rf(1)) }), (202u16, Response { description: own("Accepted"), schema: Some(rf(1)) }), (422u16, Response { description: own("Unprocessable Entity"), schema: None })]), ..Default::default() }), (HttpMethod::TRACE, Operation { operation_id: Some(t.clone()), security: vec![map([(own("whole"), strs(&["a", "a", ""])), (own("basic"), strs(&["b", "a"]))]), map([(own("keyed"), strs(&[])), (own("basic"), strs(&[])), (own("whole"), strs(&["r"]))]), map([(own("keyed"), strs(&[])), (own("z"), strs(&[])), (own("whole"), strs(&[]))])], description: Some(own("")), responses: map([(299u16, Response { description: own(""), schema: None }), (460u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (201u16, Response { description: own("Created"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id42")]), PathValue { description: Some(own("{x}")), parameters: map([(own("Id42"), param(ParameterIn::Path, true, rf(1))), (own("X-H43"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(list(rf(0))) })]), operations: map([]), ..Default::default() })] })]), responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("Service Unavailable"), schema: None })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb44"), CallbackObject { paths: vec![] })]), responses: map([(200u16, Response { description: own("OK"), schema: None }), (404u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (299u16, Response { description: own("other text"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("Decl 46"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: v.clone(), description: Some(v.clone()) }))]),
        },
    )
}

fn d3(decide: fn(&Opg, &Want)) {
    tag("3");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: s, description: format!("{}!", 7), version: "" }, paths: { ({Id1: Payload} / "quote \" here" / deep::OrderId / "quote \" here"): { parameters: {  } }, }, };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: own(""), description: Some(own("7!")) },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("Id1"), lit("quote \" here"), par("orderId"), lit("quote \" here")]), PathValue { parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(1))), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })],
            used: vec![1],
            schemes: map([]),
        },
    )
}

fn d4(decide: fn(&Opg, &Want)) {
    tag("4");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("a.b" / deep::er::ItemKey / "ünïcode"): { OPTIONS: { 201: deep::er::ItemKey, 299("{x}"): (), security: { whole["a", "a", ""] }, operationId: s, callbacks: { "cb-1": { ("$x:y"): { HEAD: { 409: deep::OrderId, operationId: &t, security: { "z"[] && keyed["r"] }, 200: Vec<Payload>, callbacks: { cb2: { ("lit"): { HEAD: { 1000: (), security: { keyed && "basic"["a", "a", ""] }, description: "a \"b\" {c}", 401("lit"): UserId, parameters: { (header String::from("h3")): { deprecated: g, description: "lit", schema: deep::OrderId, }, (header format!("X-H4{}", s)), (header format!("Some Header 5{}", s)): { description: "lit", schema: UserId }, }, }, OPTIONS: { 200("{x}"): (), body: Payload, 404: Payload, 400: String, operationId: u, }, description: "quote \" here" } } }, deprecated: f, 403("lit"): Vec<UserId>, tags: { one }, }, } }, }, deprecated: true, 301("lit"): None, summary: "lit", parameters: { (header "X-H7"): { required: true, schema: Vec<UserId>, deprecated: g, }, (header format!("h8{}", s)) }, body: Box<Payload>, tags: { one }, description: "lit", parameters: { (header format!("X-H6{}", s)): { deprecated: false, description: "lit", required: !f, }, } } }, ("$x:y" / "other text" / {id9: Payload} / "ünïcode"): { summary: "ünïcode", } }, info: { version: "", }, security_schemes: { (apiKey "decl10"): { name: "lit", parameter_in: Header, }, basic, keyed, }, tags: { one(&t), snake_case(format!("{}!", 7)), two(""), Three("lit"), } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("one", Some(t.clone())), ("snake_case", Some(own("7!"))), ("two", Some(own(""))), ("Three", Some(own("lit")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("a.b"), par("itemKey"), lit("ünïcode")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { description: Some(own("lit")), security: vec![map([(own("whole"), strs(&["a", "a", ""]))])], operation_id: Some(t.clone()), deprecated: true, request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), tags: strs(&["one"]), callbacks: map([(own("cb-1"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { deprecated: f, security: vec![map([(own("z"), strs(&[])), (own("keyed"), strs(&["r"]))])], tags: strs(&["one"]), callbacks: map([(own("cb2"), CallbackObject { paths: vec![(Path(vec![lit("lit")]), PathValue { description: Some(own("quote \" here")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { description: Some(own("a \"b\" {c}")), parameters: map([(own("h3"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(rf(1)) }), (own("X-H4") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 5") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) })]), security: vec![map([(own("keyed"), strs(&[])), (own("basic"), strs(&["a", "a", ""]))])], responses: map([(1000u16, Response { description: own(""), schema: Some(unit()) }), (401u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { operation_id: Some(v.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(200u16, Response { description: own("{x}"), schema: Some(unit()) }), (404u16, Response { description: own("Not Found"), schema: Some(rf(1)) }), (400u16, Response { description: own("Bad Request"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() })] })]), operation_id: Some(t.clone()), responses: map([(403u16, Response { description: own("lit"), schema: Some(list(rf(0))) }), (409u16, Response { description: own("Conflict"), schema: Some(rf(1)) }), (200u16, Response { description: own("OK"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("lit")), parameters: map([(own("X-H6") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(string()) }), (own("X-H7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(list(rf(0))) }), (own("h8") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(0)) }), (299u16, Response { description: own("{x}"), schema: Some(unit()) }), (301u16, Response { description: own("lit"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("$x:y"), lit("other text"), par("id9"), lit("ünïcode")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("id9"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl10"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: own("lit"), description: None }))]),
        },
    )
}

fn d5(decide: fn(&Opg, &Want)) {
    tag("5");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { version: u, description: &t, }, tags: { z9(&t), snake_case(u), one(t.clone()), Three(s), two(u), }, servers: { "", "https://a.b/c"(s), "x"(s), s }, paths: { ({id1: deep::OrderId} / "a.b" / {some_id2: String} / deep::er::ItemKey): { PUT: { summary: "", parameters: {  } }, PATCH: { summary: "lit", 500: Payload, 200("lit"): deep::er::ItemKey, parameters: { (query Q3: deep::er::ItemKey), (header String::from("X-H4")), (header "h5"): {  } }, 503: None, parameters: {  }, tags: { one, Three }, }, }, ({Id6: deep::er::ItemKey} / "" / {some_id7: UserId} / String): { POST: { deprecated: false, body: { required: true, schema: String, }, security: {  }, description: "" }, OPTIONS: { tags: { snake_case, one }, deprecated: g, summary: u, 301("lit"): String, 201: None, 202("other text"): () }, PUT: { tags: {}, description: "lit", security: {  }, } } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: v.clone(), description: Some(t.clone()) },
            tags: vec![("z9", Some(t.clone())), ("snake_case", Some(v.clone())), ("one", Some(t.clone())), ("Three", Some(t.clone())), ("two", Some(v.clone()))],
            servers: vec![(own(""), None), (own("https://a.b/c"), Some(t.clone())), (own("x"), Some(t.clone())), (t.clone(), None)],
            paths: vec![(Path(vec![par("id1"), lit("a.b"), par("some_id2"), par("itemKey")]), PathValue { parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(1))), (own("some_id2"), param(ParameterIn::Path, true, string())), (own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PATCH, Operation { parameters: map([(own("Q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("X-H4"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&["one", "Three"]), summary: Some(own("lit")), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) }), (200u16, Response { description: own("lit"), schema: Some(rf(0)) }), (503u16, Response { description: own("Service Unavailable"), schema: None })]), ..Default::default() }), (HttpMethod::PUT, Operation { parameters: map([]), summary: Some(own("")), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id6"), lit(""), par("some_id7"), par("string")]), PathValue { parameters: map([(own("Id6"), param(ParameterIn::Path, true, rf(0))), (own("some_id7"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::POST, Operation { deprecated: false, security: vec![], description: Some(own("")), request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: map([]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { deprecated: g, summary: Some(v.clone()), tags: strs(&["snake_case", "one"]), responses: map([(202u16, Response { description: own("other text"), schema: Some(unit()) }), (301u16, Response { description: own("lit"), schema: Some(string()) }), (201u16, Response { description: own("Created"), schema: None })]), ..Default::default() }), (HttpMethod::PUT, Operation { tags: strs(&[]), security: vec![], description: Some(own("lit")), responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d6(decide: fn(&Opg, &Want)) {
    tag("6");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { basic, (apiKey "Decl 3"): { name: &t, parameter_in: Cookie }, (http "decl4"): { description: u, scheme: Basic }, (http "Decl 5"): { scheme: Basic } }, servers: { ""(s) }, paths: { ("lit" / "other text" / crate::kit::UserId): { parameters: {  }, OPTIONS: { 400(""): None, 301: UserId, 304("lit"): None, tags: { one, snake_case, two }, 202: { Some(ModelReference::Link(own("Given"))) } }, DELETE: { description: u, deprecated: false, tags: {}, body: { description: "", schema: Vec<Payload>, required: false }, }, description: "{x}", }, (deep::OrderId): {  }, ("quote \" here" / Payload / "" / {some_id1: String}): { DELETE: { 401(""): { Some(ModelReference::Link(own("Given"))) }, 204(""): { Some(ModelReference::Link(own("Given"))) }, security: { keyed, keyed[], "z"["a", "a", ""], }, } } }, info: { description: t.clone(), version: "", title: u }, };
    decide(
        &o,
        &Want {
            info: Info { title: v.clone(), version: own(""), description: Some(t.clone()) },
            tags: vec![],
            servers: vec![(own(""), Some(t.clone()))],
            paths: vec![(Path(vec![lit("lit"), lit("other text"), par("userId")]), PathValue { description: Some(own("{x}")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: Some(own("")), required: false, schema: list(rf(1)) }), description: Some(v.clone()), deprecated: false, tags: strs(&[]), responses: map([]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { tags: strs(&["one", "snake_case", "two"]), responses: map([(304u16, Response { description: own("lit"), schema: None }), (400u16, Response { description: own(""), schema: None }), (301u16, Response { description: own("Moved Permanently"), schema: Some(rf(0)) }), (202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("orderId")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() }), (Path(vec![lit("quote \" here"), par("payload"), lit(""), par("some_id1")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("some_id1"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::DELETE, Operation { security: vec![map([(own("keyed"), strs(&[]))]), map([(own("keyed"), strs(&[]))]), map([(own("z"), strs(&["a", "a", ""]))])], responses: map([(401u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (204u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("Decl 3"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: t.clone(), description: None })), (own("decl4"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(v.clone()) })), (own("Decl 5"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None }))]),
        },
    )
}

fn d7(decide: fn(&Opg, &Want)) {
    tag("7");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: "lit", version: "lit" }, paths: { ("a.b" / Payload / UserId): { DELETE: { body: { schema: deep::er::ItemKey, description: "other text", required: false }, security: { "z"["r"], "lit b"[] && whole["b", "a"] && "lit_a"[], basic[] && "z"[] && whole, } }, parameters: { (header String::from("h1")): { deprecated: false, required: false }, (query q2: Payload): {  } }, PUT: { callbacks: { "cb-3": { ("quote \" here"): { description: "", }, ("a.b" / deep::er::ItemKey): { PATCH: { deprecated: f, body: { schema: Vec<Payload> }, parameters: {  }, callbacks: { onCb6: { ("$x:y" / {some_id7: UserId} / {Id8: crate::kit::UserId} / "ünïcode"): { summary: "{x}", } }, "cb-9": { (crate::kit::UserId / "lit" / "a.b" / {Id10: UserId}): { OPTIONS: { deprecated: g, security: { "z", }, 299("quote \" here"): deep::er::ItemKey, body: { schema: Box<Payload>, required: false }, 301: (), tags: { two, }, description: "lit", 500: { Some(ModelReference::Link(own("Given"))) }, summary: "", parameters: { (header format!("h14{}", s)): {  }, (query some_q15: Vec<UserId>): { description: format!("{}!", 7), required: true }, (header format!("h16{}", s)) }, operationId: s }, POST: { 500("{x}"): None, body: { required: true, schema: deep::OrderId, }, deprecated: f }, TRACE: { body: { required: false, schema: Vec<UserId>, description: "ünïcode", }, security: { basic["r"], "lit_a", "basic"["r"] && keyed["b", "a"] && "lit b", }, 304: UserId, 201("quote \" here"): UserId, parameters: { (query Q17: deep::OrderId): { required: g, description: "lit", schema: deep::OrderId }, (query some_q18: UserId), }, 204: { Some(ModelReference::Link(own("Given"))) }, 460: { Some(ModelReference::Link(own("Given"))) } }, parameters: { (query camelQ11: Vec<Payload>): {  }, (query q12: crate::kit::UserId): { schema: Payload, required: false, description: t.clone(), }, (header format!("Some Header 13{}", s)), }, } } }, description: "lit", security: { "lit_a"["a", "a", ""], "z" && "basic"[] && "lit_a"["a", "a", ""] }, operationId: &t, summary: "a \"b\" {c}", parameters: {  }, tags: {} }, parameters: { (query camelQ4: String): { required: !f, }, (query Q5: Vec<Payload>): {  } }, summary: "{x}" } }, }, security: {  }, operationId: "lit", parameters: {  }, description: &t, 400("other text"): (), } }, (""): { DELETE: { callbacks: { cb22: { (Payload): { PATCH: { operationId: s, body: { schema: String, required: true, description: "quote \" here" }, 202: Vec<UserId>, security: {  }, 304("lit"): crate::kit::UserId, tags: { two, one, }, parameters: { (header String::from("X-H23")): {  }, (query q24: String): { required: true, schema: deep::OrderId }, (query some_q25: Payload): {  }, }, summary: "", description: &t, 99(""): { Some(ModelReference::Link(own("Given"))) }, callbacks: { cb26: { ("{x}" / "quote \" here"): { description: "", OPTIONS: { parameters: { (query q29: deep::er::ItemKey): { schema: deep::er::ItemKey, required: f }, (query some_q30: UserId) }, security: {  }, parameters: {  }, 403: Vec<UserId>, tags: { Three, Three, Three, }, }, PATCH: { 599(""): Vec<Payload>, 299(""): { Some(ModelReference::Link(own("Given"))) }, 422("ünïcode"): crate::kit::UserId }, parameters: { (query camelQ27: Vec<Payload>), (query q28: String) } }, ("users" / "a.b"): { TRACE: { body: { description: "other text", schema: crate::kit::UserId }, 404: None, 201: None, parameters: {  }, parameters: { (header format!("h31{}", s)), (query Q32: String): { description: u, required: !f }, (query Q33: Vec<UserId>) }, summary: "", 1000("other text"): deep::OrderId, security: { "basic" && "lit_a"["r"], keyed, }, }, } } }, deprecated: !f }, GET: { 401: { Some(ModelReference::Link(own("Given"))) }, 403: None, 304: None }, PUT: { 299: { Some(ModelReference::Link(own("Given"))) }, 202("ünïcode"): (), 409("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, 204: Payload }, } } }, }, OPTIONS: { 400("quote \" here"): None, 401: UserId, }, parameters: { (header format!("h19{}", s)): { required: true, description: "lit", schema: Vec<Payload> }, (query q20: deep::er::ItemKey), (query q21: crate::kit::UserId): { deprecated: !f, description: u, required: g, schema: Box<Payload> } }, }, ("lit" / "ünïcode" / "ünïcode"): { PUT: { deprecated: f, body: { schema: String, required: true, }, callbacks: { onCb34: {  } }, 301("ünïcode"): None, 401("ünïcode"): UserId, security: { whole && basic["a", "a", ""] && "lit_a"["a", "a", ""], keyed["b", "a"], "z"["b", "a"], } }, summary: "quote \" here", GET: { operationId: &t, description: "a \"b\" {c}", callbacks: { "cb-35": { ("{x}"): { parameters: {  }, HEAD: { parameters: { (query camelQ37: deep::er::ItemKey), (header format!("Some Header 38{}", s)): { description: &t } }, security: { "lit b"["b", "a"] && "basic"["a", "a", ""], whole["a", "a", ""], whole["a", "a", ""] && "lit_a"["r"] && basic["r"] }, operationId: u, parameters: { (header String::from("X-H36")): { deprecated: !f, required: f, description: t.clone() } }, 503: (), description: u }, DELETE: { 204("lit"): Payload }, } }, cb39: { (deep::er::ItemKey / deep::OrderId / "lit" / "{x}"): { HEAD: { 200("{x}"): deep::er::ItemKey }, description: "lit" } } }, parameters: { (header format!("Some Header 40{}", s)): { schema: Payload, description: "", deprecated: !f, required: f, }, (header String::from("X-H41")): {  } }, deprecated: true }, description: "", PATCH: { 304: Vec<UserId>, body: { required: false, schema: deep::er::ItemKey } } }, }, };
    decide(
        &o,
        &Want {
            info: Info { title: own("lit"), version: own("lit"), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![lit("a.b"), par("payload"), par("userId")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("h1"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(string()) }), (own("q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: Some(own("other text")), required: false, schema: rf(0) }), security: vec![map([(own("z"), strs(&["r"]))]), map([(own("lit b"), strs(&[])), (own("whole"), strs(&["b", "a"])), (own("lit_a"), strs(&[]))]), map([(own("basic"), strs(&[])), (own("z"), strs(&[])), (own("whole"), strs(&[]))])], responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { parameters: map([]), callbacks: map([(own("cb-3"), CallbackObject { paths: vec![(Path(vec![lit("quote \" here")]), PathValue { description: Some(own("")), parameters: map([]), operations: map([]), ..Default::default() }), (Path(vec![lit("a.b"), par("itemKey")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("camelQ4"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(string()) }), (own("Q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), operations: map([(HttpMethod::PATCH, Operation { summary: Some(own("a \"b\" {c}")), security: vec![map([(own("lit_a"), strs(&["a", "a", ""]))]), map([(own("z"), strs(&[])), (own("basic"), strs(&[])), (own("lit_a"), strs(&["a", "a", ""]))])], description: Some(own("lit")), tags: strs(&[]), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), callbacks: map([(own("onCb6"), CallbackObject { paths: vec![(Path(vec![lit("$x:y"), par("some_id7"), par("Id8"), lit("ünïcode")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("some_id7"), param(ParameterIn::Path, true, rf(0))), (own("Id8"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })] }), (own("cb-9"), CallbackObject { paths: vec![(Path(vec![par("userId"), lit("lit"), lit("a.b"), par("Id10")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Id10"), param(ParameterIn::Path, true, rf(0))), (own("camelQ11"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("q12"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 13") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::OPTIONS, Operation { summary: Some(own("")), operation_id: Some(t.clone()), tags: strs(&["two"]), description: Some(own("lit")), request_body: Some(RequestBody { description: None, required: false, schema: rf(1) }), security: vec![map([(own("z"), strs(&[]))])], parameters: map([(own("h14") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q15"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(list(rf(0))) }), (own("h16") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: g, responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(unit()) }), (299u16, Response { description: own("quote \" here"), schema: Some(rf(0)) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: Some(own("ünïcode")), required: false, schema: list(rf(0)) }), parameters: map([(own("Q17"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: g, deprecated: false, schema: Some(rf(1)) }), (own("some_q18"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("lit_a"), strs(&[]))]), map([(own("basic"), strs(&["r"])), (own("keyed"), strs(&["b", "a"])), (own("lit b"), strs(&[]))])], responses: map([(201u16, Response { description: own("quote \" here"), schema: Some(rf(0)) }), (304u16, Response { description: own("Not Modified"), schema: Some(rf(0)) }), (204u16, Response { description: own("No Content"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::POST, Operation { deprecated: f, request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(500u16, Response { description: own("{x}"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), deprecated: f, operation_id: Some(t.clone()), parameters: map([]), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), operation_id: Some(own("lit")), description: Some(t.clone()), security: vec![], responses: map([(400u16, Response { description: own("other text"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("")]), PathValue { parameters: map([(own("h19") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(list(rf(1))) }), (own("q20"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("q21"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: g, deprecated: !f, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { callbacks: map([(own("cb22"), CallbackObject { paths: vec![(Path(vec![par("payload")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { responses: map([(204u16, Response { description: own("No Content"), schema: Some(rf(1)) }), (299u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (409u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (202u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::GET, Operation { responses: map([(304u16, Response { description: own("Not Modified"), schema: None }), (401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) }), (403u16, Response { description: own("Forbidden"), schema: None })]), ..Default::default() }), (HttpMethod::PATCH, Operation { request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: string() }), deprecated: !f, summary: Some(own("")), operation_id: Some(t.clone()), description: Some(t.clone()), parameters: map([(own("X-H23"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q24"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(rf(1)) }), (own("some_q25"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), tags: strs(&["two", "one"]), callbacks: map([(own("cb26"), CallbackObject { paths: vec![(Path(vec![lit("{x}"), lit("quote \" here")]), PathValue { description: Some(own("")), parameters: map([(own("camelQ27"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("q28"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { responses: map([(422u16, Response { description: own("ünïcode"), schema: Some(rf(0)) }), (299u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (599u16, Response { description: own(""), schema: Some(list(rf(1))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { security: vec![], tags: strs(&["Three", "Three", "Three"]), parameters: map([(own("q29"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(0)) }), (own("some_q30"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(list(rf(0))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users"), lit("a.b")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([(own("h31") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Q32"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(string()) }), (own("Q33"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) })]), summary: Some(own("")), security: vec![map([(own("basic"), strs(&[])), (own("lit_a"), strs(&["r"]))]), map([(own("keyed"), strs(&[]))])], request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: rf(0) }), responses: map([(1000u16, Response { description: own("other text"), schema: Some(rf(1)) }), (404u16, Response { description: own("Not Found"), schema: None }), (201u16, Response { description: own("Created"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![], responses: map([(202u16, Response { description: own("Accepted"), schema: Some(list(rf(0))) }), (304u16, Response { description: own("lit"), schema: Some(rf(0)) }), (99u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(rf(0)) }), (400u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), lit("ünïcode"), lit("ünïcode")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("")), parameters: map([]), operations: map([(HttpMethod::PUT, Operation { callbacks: map([(own("onCb34"), CallbackObject { paths: vec![] })]), security: vec![map([(own("whole"), strs(&[])), (own("basic"), strs(&["a", "a", ""])), (own("lit_a"), strs(&["a", "a", ""]))]), map([(own("keyed"), strs(&["b", "a"]))]), map([(own("z"), strs(&["b", "a"]))])], deprecated: f, request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: map([(301u16, Response { description: own("ünïcode"), schema: None }), (401u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::GET, Operation { callbacks: map([(own("cb-35"), CallbackObject { paths: vec![(Path(vec![lit("{x}")]), PathValue { parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { operation_id: Some(v.clone()), description: Some(v.clone()), parameters: map([(own("X-H36"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: f, deprecated: !f, schema: Some(string()) }), (own("camelQ37"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 38") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![map([(own("lit b"), strs(&["b", "a"])), (own("basic"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""])), (own("lit_a"), strs(&["r"])), (own("basic"), strs(&["r"]))])], responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([(204u16, Response { description: own("lit"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb39"), CallbackObject { paths: vec![(Path(vec![par("itemKey"), par("orderId"), lit("lit"), lit("{x}")]), PathValue { description: Some(own("lit")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { responses: map([(200u16, Response { description: own("{x}"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), operation_id: Some(t.clone()), parameters: map([(own("Some Header 40") + s, OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: f, deprecated: !f, schema: Some(rf(1)) }), (own("X-H41"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: true, description: Some(own("a \"b\" {c}")), responses: map([]), ..Default::default() }), (HttpMethod::PATCH, Operation { request_body: Some(RequestBody { description: None, required: false, schema: rf(0) }), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(list(rf(0))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("keyed"), keyed_scheme(&v))]),
        },
    )
}

fn d8(decide: fn(&Opg, &Want)) {
    tag("8");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { description: &t, version: t.clone(), title: "a \"b\" {c}" }, paths: { ("quote \" here" / {id1: deep::er::ItemKey}): { PUT: { security: { "z", }, 460("quote \" here"): String, description: "lit", 400: (), 599: (), callbacks: { cb2: {  }, }, 99: { Some(ModelReference::Link(own("Given"))) } } }, ("users"): { parameters: { (query q3: UserId), (header format!("Some Header 4{}", s)): { deprecated: false, description: "lit", schema: String, }, (header "X-H5"): { schema: String }, }, TRACE: { body: { required: true, schema: String }, 422(""): Payload, 401: None, } }, }, servers: { "", "" }, tags: { two(""), z9(&t), Three(s), snake_case, one }, security_schemes: { (apiKey "Decl 6"): { parameter_in: Header, name: format!("{}!", 7), description: "" }, (apiKey "Decl 7"): { parameter_in: Header, name: &t, }, (http "decl8"): { scheme: Basic, description: t.clone() } } };
    decide(
        &o,
        &Want {
            info: Info { title: own("a \"b\" {c}"), version: t.clone(), description: Some(t.clone()) },
            tags: vec![("two", Some(own(""))), ("z9", Some(t.clone())), ("Three", Some(t.clone())), ("snake_case", None), ("one", None)],
            servers: vec![(own(""), None), (own(""), None)],
            paths: vec![(Path(vec![lit("quote \" here"), par("id1")]), PathValue { parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { description: Some(own("lit")), security: vec![map([(own("z"), strs(&[]))])], callbacks: map([(own("cb2"), CallbackObject { paths: vec![] })]), responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(unit()) }), (460u16, Response { description: own("quote \" here"), schema: Some(string()) }), (599u16, Response { description: own(""), schema: Some(unit()) }), (99u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users")]), PathValue { parameters: map([(own("q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 4") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: map([(422u16, Response { description: own(""), schema: Some(rf(1)) }), (401u16, Response { description: own("Unauthorized"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("Decl 6"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: own("7!"), description: Some(own("")) })), (own("Decl 7"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: t.clone(), description: None })), (own("decl8"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(t.clone()) }))]),
        },
    )
}

fn d9(decide: fn(&Opg, &Want)) {
    tag("9");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { Three, one, two("a \"b\" {c}"), }, info: { title: "", version: &t }, servers: { ""("x"), s }, paths: { (crate::kit::UserId / "lit" / String / {some_id1: crate::kit::UserId}): { HEAD: { body: { schema: deep::OrderId, }, 299(""): (), callbacks: { onCb2: { (deep::er::ItemKey / String): { GET: { 422("lit"): (), 1000("other text"): None, summary: "", operationId: u, security: { "lit_a"["b", "a"] && "z"["b", "a"] && whole[], "basic"["b", "a"], keyed["b", "a"] }, description: "a \"b\" {c}", body: { schema: Vec<Payload>, }, tags: { Three, two }, 201("lit"): deep::er::ItemKey, parameters: {  }, 401(""): (), callbacks: { "cb-3": { ({Id4: String}): { parameters: { (header String::from("X-H5")): { deprecated: false, required: g, description: format!("{}!", 7), }, (header "Some Header 6"): { description: "", }, }, PATCH: { tags: { two, Three, one }, security: { basic, basic["b", "a"], }, body: { description: "{x}", schema: deep::OrderId }, operationId: s, parameters: { (header "Some Header 7"), (header "Some Header 8"): { deprecated: false, description: "lit", required: g }, (header format!("Some Header 9{}", s)) }, summary: "", 460(""): None, description: s, deprecated: f }, }, ("lit" / "users"): { summary: "lit" } }, }, deprecated: true }, PATCH: { parameters: { (query Q11: Vec<Payload>): { required: false, deprecated: f, description: "", } }, 1000("{x}"): { Some(ModelReference::Link(own("Given"))) }, 200: (), parameters: { (query some_q10: UserId): {  } } }, TRACE: { 200: { Some(ModelReference::Link(own("Given"))) }, 460: (), 299: Payload, 599: { Some(ModelReference::Link(own("Given"))) }, } }, ("" / "users"): { description: "{x}", HEAD: { 404: deep::OrderId, callbacks: { "cb-12": { ("{x}"): { summary: "other text", OPTIONS: { 500("{x}"): Payload, deprecated: true, 599: deep::OrderId, security: { keyed["r"] && "lit_a"["a", "a", ""] && "z"[], "basic"["r"], }, 299: crate::kit::UserId, } } }, cb13: { ("other text"): { POST: { 404: None, description: &t, parameters: { (query some_q23: Vec<Payload>): { required: f, description: t.clone(), schema: deep::er::ItemKey, }, (query some_q24: Vec<UserId>) }, summary: "a \"b\" {c}", 503("other text"): { Some(ModelReference::Link(own("Given"))) }, tags: { two, one, snake_case }, 460: deep::OrderId }, description: "lit", GET: { 1000: Box<Payload>, deprecated: false, summary: "lit", operationId: "", parameters: { (header "X-H20"): { description: t.clone(), required: false, schema: deep::er::ItemKey, deprecated: false }, (query camelQ21: deep::OrderId): {  }, (query Q22: crate::kit::UserId), }, parameters: { (header "Some Header 17"): { required: false, deprecated: f, schema: Box<Payload>, description: &t }, (query some_q18: Box<Payload>): { required: f, }, (header format!("h19{}", s)) } }, HEAD: { security: { basic["b", "a"], }, 301: None, 503("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, 409("ünïcode"): () }, parameters: { (header "Some Header 14"): { deprecated: !f, schema: UserId, description: u, required: false }, (header format!("h15{}", s)): { schema: deep::OrderId, description: "a \"b\" {c}", deprecated: false, required: f }, (query some_q16: Box<Payload>): { description: t.clone() } }, summary: "ünïcode", } } }, 403: { Some(ModelReference::Link(own("Given"))) }, }, summary: "" } }, onCb25: {  } }, 460("quote \" here"): (), 200: None, deprecated: !f, 400: { Some(ModelReference::Link(own("Given"))) } }, TRACE: { operationId: "lit", 204("{x}"): deep::OrderId, 500: (), 460: Vec<UserId>, summary: "", callbacks: { onCb26: { (UserId / {Id27: deep::OrderId}): { OPTIONS: { description: s, callbacks: { onCb28: { (UserId): { GET: { 304: Payload, operationId: s, 460("other text"): (), tags: { snake_case, } }, } } }, security: { whole["b", "a"], "z"["a", "a", ""], whole[] && "lit_a"["b", "a"], }, summary: u, 204("other text"): (), 202("other text"): (), }, }, (UserId): { summary: "other text", PATCH: { 404("lit"): None, }, } } } }, summary: "quote \" here", PATCH: { 204: (), 460: (), tags: { snake_case, two, snake_case }, summary: &t } }, (deep::er::ItemKey / {id29: crate::kit::UserId} / "" / "lit"): {  } }, security_schemes: { keyed, whole, (http "decl32"): { scheme: Bearer, description: u, bearer_format: "" }, (apiKey "Decl 33"): { name: &t } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![("Three", None), ("one", None), ("two", Some(own("a \"b\" {c}")))],
            servers: vec![(own(""), Some(own("x"))), (t.clone(), None)],
            paths: vec![(Path(vec![par("userId"), lit("lit"), par("string"), par("some_id1")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string())), (own("some_id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { deprecated: !f, request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![par("itemKey"), par("string")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::GET, Operation { summary: Some(own("")), description: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), tags: strs(&["Three", "two"]), security: vec![map([(own("lit_a"), strs(&["b", "a"])), (own("z"), strs(&["b", "a"])), (own("whole"), strs(&[]))]), map([(own("basic"), strs(&["b", "a"]))]), map([(own("keyed"), strs(&["b", "a"]))])], parameters: map([]), operation_id: Some(v.clone()), deprecated: true, callbacks: map([(own("cb-3"), CallbackObject { paths: vec![(Path(vec![par("Id4")]), PathValue { parameters: map([(own("Id4"), param(ParameterIn::Path, true, string())), (own("X-H5"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(string()) }), (own("Some Header 6"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { tags: strs(&["two", "Three", "one"]), security: vec![map([(own("basic"), strs(&[]))]), map([(own("basic"), strs(&["b", "a"]))])], summary: Some(own("")), operation_id: Some(t.clone()), description: Some(t.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: rf(1) }), parameters: map([(own("Some Header 7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 8"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(string()) }), (own("Some Header 9") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: f, responses: map([(460u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), lit("users")]), PathValue { summary: Some(own("lit")), parameters: map([]), operations: map([]), ..Default::default() })] })]), responses: map([(401u16, Response { description: own(""), schema: Some(unit()) }), (1000u16, Response { description: own("other text"), schema: None }), (422u16, Response { description: own("lit"), schema: Some(unit()) }), (201u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { responses: map([(599u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (200u16, Response { description: own("OK"), schema: Some(ModelReference::Link(own("Given"))) }), (299u16, Response { description: own(""), schema: Some(rf(1)) }), (460u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { parameters: map([(own("some_q10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Q11"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: false, deprecated: f, schema: Some(list(rf(1))) })]), responses: map([(1000u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) }), (200u16, Response { description: own("OK"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit(""), lit("users")]), PathValue { summary: Some(own("")), description: Some(own("{x}")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { callbacks: map([(own("cb-12"), CallbackObject { paths: vec![(Path(vec![lit("{x}")]), PathValue { summary: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::OPTIONS, Operation { security: vec![map([(own("keyed"), strs(&["r"])), (own("lit_a"), strs(&["a", "a", ""])), (own("z"), strs(&[]))]), map([(own("basic"), strs(&["r"]))])], deprecated: true, responses: map([(500u16, Response { description: own("{x}"), schema: Some(rf(1)) }), (299u16, Response { description: own(""), schema: Some(rf(0)) }), (599u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb13"), CallbackObject { paths: vec![(Path(vec![lit("other text")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("lit")), parameters: map([(own("Some Header 14"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Header, required: false, deprecated: !f, schema: Some(rf(0)) }), (own("h15") + s, OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Header, required: f, deprecated: false, schema: Some(rf(1)) }), (own("some_q16"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::HEAD, Operation { security: vec![map([(own("basic"), strs(&["b", "a"]))])], responses: map([(409u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (301u16, Response { description: own("Moved Permanently"), schema: None }), (503u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { parameters: map([(own("Some Header 17"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: false, deprecated: f, schema: Some(rf(1)) }), (own("some_q18"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(1)) }), (own("h19") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H20"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ21"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Q22"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), summary: Some(own("lit")), deprecated: false, operation_id: Some(own("")), responses: map([(1000u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::POST, Operation { tags: strs(&["two", "one", "snake_case"]), parameters: map([(own("some_q23"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(0)) }), (own("some_q24"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) })]), summary: Some(own("a \"b\" {c}")), description: Some(t.clone()), responses: map([(460u16, Response { description: own(""), schema: Some(rf(1)) }), (503u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) }), (404u16, Response { description: own("Not Found"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(ModelReference::Link(own("Given"))) }), (404u16, Response { description: own("Not Found"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb25"), CallbackObject { paths: vec![] })]), responses: map([(460u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (299u16, Response { description: own(""), schema: Some(unit()) }), (400u16, Response { description: own("Bad Request"), schema: Some(ModelReference::Link(own("Given"))) }), (200u16, Response { description: own("OK"), schema: None })]), ..Default::default() }), (HttpMethod::TRACE, Operation { summary: Some(own("")), operation_id: Some(own("lit")), callbacks: map([(own("onCb26"), CallbackObject { paths: vec![(Path(vec![par("userId"), par("Id27")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Id27"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { callbacks: map([(own("onCb28"), CallbackObject { paths: vec![(Path(vec![par("userId")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { tags: strs(&["snake_case"]), operation_id: Some(t.clone()), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(rf(1)) }), (460u16, Response { description: own("other text"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(t.clone()), security: vec![map([(own("whole"), strs(&["b", "a"]))]), map([(own("z"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&[])), (own("lit_a"), strs(&["b", "a"]))])], summary: Some(v.clone()), responses: map([(204u16, Response { description: own("other text"), schema: Some(unit()) }), (202u16, Response { description: own("other text"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("userId")]), PathValue { summary: Some(own("other text")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PATCH, Operation { responses: map([(404u16, Response { description: own("lit"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(204u16, Response { description: own("{x}"), schema: Some(rf(1)) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) }), (460u16, Response { description: own(""), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { tags: strs(&["snake_case", "two", "snake_case"]), summary: Some(t.clone()), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) }), (460u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey"), par("id29"), lit(""), lit("lit")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("id29"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl32"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: Some(own("")), description: Some(v.clone()) })), (own("Decl 33"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: t.clone(), description: None }))]),
        },
    )
}

fn d10(decide: fn(&Opg, &Want)) {
    tag("10");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { Three, snake_case(&t) }, paths: { (crate::kit::UserId): { HEAD: { security: { "lit_a"["r"], basic["r"], "lit b" && "z" && basic["a", "a", ""] }, 401: None, body: deep::er::ItemKey, tags: { two, snake_case, one, }, parameters: {  }, summary: u, operationId: &t, deprecated: f, description: "", callbacks: { "cb-2": {  }, onCb3: { ("a.b"): { description: "{x}", HEAD: {  }, } } }, }, parameters: { (query Q1: deep::er::ItemKey): { description: u }, }, description: "ünïcode" }, ("quote \" here" / "{x}"): { TRACE: { callbacks: { cb8: {  }, "cb-9": { ("quote \" here" / "users" / "ünïcode"): { PUT: { 422("quote \" here"): (), 204: (), 1000("quote \" here"): None, deprecated: f, 200: String }, GET: { deprecated: f, callbacks: { cb10: { ("users"): { PUT: { 1000("other text"): deep::er::ItemKey, 400("lit"): crate::kit::UserId, tags: { Three, Three, }, parameters: { (query Q11: Payload), (query Q12: Vec<Payload>), (header format!("Some Header 13{}", s)) }, body: UserId, 304: deep::er::ItemKey, 401: crate::kit::UserId }, POST: { 200: (), }, }, ("lit" / "$x:y"): { description: "{x}" } } }, parameters: { (header "Some Header 14"): { schema: crate::kit::UserId, required: true, description: format!("{}!", 7), deprecated: f, } }, } } } }, 460("lit"): None, tags: { Three, two } }, GET: { 500("lit"): (), parameters: { (query some_q5: Payload), (query q6: Payload): { required: f, schema: crate::kit::UserId, description: "", deprecated: true }, (query q7: Payload), } }, HEAD: { description: u, 299: (), parameters: { (header String::from("Some Header 4")): { required: f, }, } }, summary: "other text" }, }, info: { version: format!("{}!", 7) }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("7!"), description: None },
            tags: vec![("Three", None), ("snake_case", Some(t.clone()))],
            servers: vec![],
            paths: vec![(Path(vec![par("userId")]), PathValue { description: Some(own("ünïcode")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Q1"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::HEAD, Operation { callbacks: map([(own("cb-2"), CallbackObject { paths: vec![] }), (own("onCb3"), CallbackObject { paths: vec![(Path(vec![lit("a.b")]), PathValue { description: Some(own("{x}")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("lit_a"), strs(&["r"]))]), map([(own("basic"), strs(&["r"]))]), map([(own("lit b"), strs(&[])), (own("z"), strs(&[])), (own("basic"), strs(&["a", "a", ""]))])], tags: strs(&["two", "snake_case", "one"]), deprecated: f, summary: Some(v.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), operation_id: Some(t.clone()), parameters: map([]), description: Some(own("")), responses: map([(401u16, Response { description: own("Unauthorized"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("quote \" here"), lit("{x}")]), PathValue { summary: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { parameters: map([(own("Some Header 4"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: false, schema: Some(string()) })]), description: Some(v.clone()), responses: map([(299u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::GET, Operation { parameters: map([(own("some_q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("q6"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: f, deprecated: true, schema: Some(rf(0)) }), (own("q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), responses: map([(500u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { callbacks: map([(own("cb8"), CallbackObject { paths: vec![] }), (own("cb-9"), CallbackObject { paths: vec![(Path(vec![lit("quote \" here"), lit("users"), lit("ünïcode")]), PathValue { parameters: map([]), operations: map([(HttpMethod::GET, Operation { deprecated: f, callbacks: map([(own("cb10"), CallbackObject { paths: vec![(Path(vec![lit("users")]), PathValue { parameters: map([]), operations: map([(HttpMethod::PUT, Operation { parameters: map([(own("Q11"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Q12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("Some Header 13") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), tags: strs(&["Three", "Three"]), responses: map([(400u16, Response { description: own("lit"), schema: Some(rf(0)) }), (304u16, Response { description: own("Not Modified"), schema: Some(rf(0)) }), (1000u16, Response { description: own("other text"), schema: Some(rf(0)) }), (401u16, Response { description: own("Unauthorized"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([(200u16, Response { description: own("OK"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), lit("$x:y")]), PathValue { description: Some(own("{x}")), parameters: map([]), operations: map([]), ..Default::default() })] })]), parameters: map([(own("Some Header 14"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: f, schema: Some(rf(0)) })]), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { deprecated: f, responses: map([(1000u16, Response { description: own("quote \" here"), schema: None }), (204u16, Response { description: own("No Content"), schema: Some(unit()) }), (200u16, Response { description: own("OK"), schema: Some(string()) }), (422u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["Three", "two"]), responses: map([(460u16, Response { description: own("lit"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d11(decide: fn(&Opg, &Want)) {
    tag("11");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { two("lit"), one(format!("{}!", 7)), Three(&t), snake_case(t.clone()), z9(t.clone()) }, paths: { (""): {  }, ({some_id1: String} / {some_id2: String} / "a.b" / String): { parameters: { (header String::from("h3")) }, HEAD: { 460: Vec<Payload> }, TRACE: { operationId: &t, tags: {} }, }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("two", Some(own("lit"))), ("one", Some(own("7!"))), ("Three", Some(t.clone())), ("snake_case", Some(t.clone())), ("z9", Some(t.clone()))],
            servers: vec![],
            paths: vec![(Path(vec![lit("")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() }), (Path(vec![par("some_id1"), par("some_id2"), lit("a.b"), par("string")]), PathValue { parameters: map([(own("some_id1"), param(ParameterIn::Path, true, string())), (own("some_id2"), param(ParameterIn::Path, true, string())), (own("string"), param(ParameterIn::Path, true, string())), (own("h3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::TRACE, Operation { operation_id: Some(t.clone()), tags: strs(&[]), responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { responses: map([(460u16, Response { description: own(""), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![1],
            schemes: map([]),
        },
    )
}

fn d12(decide: fn(&Opg, &Want)) {
    tag("12");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({some_id1: Payload} / {id2: String}): { TRACE: { security: {  }, operationId: "a \"b\" {c}", callbacks: { "cb-3": {  }, onCb4: { ("" / {Id5: deep::OrderId}): { description: "lit", OPTIONS: { 409("{x}"): UserId, description: &t, parameters: { (query q6: String), (query camelQ7: deep::OrderId): {  }, (query camelQ8: deep::OrderId): { deprecated: !f, schema: deep::er::ItemKey, }, }, 403: Vec<UserId>, 503: None, operationId: u, 202(""): None, }, PUT: { deprecated: !f, 400: None, summary: "", security: {  } }, POST: { 202: { Some(ModelReference::Link(own("Given"))) } }, } }, }, body: Vec<UserId> }, summary: "quote \" here" }, ({id9: UserId} / "{x}" / "lit" / {id10: crate::kit::UserId}): { HEAD: { tags: { Three, two }, security: { "lit_a"["b", "a"], keyed["b", "a"], basic["b", "a"], }, 202: Payload, 404: None, deprecated: g, summary: "", 409("ünïcode"): Box<Payload>, 503: None }, summary: "lit", TRACE: { 304: None, deprecated: !f, 422: Payload, tags: {} } } }, security_schemes: { (http "decl11"): { scheme: Basic }, (apiKey "decl12"): { parameter_in: Cookie, name: &t }, (http "decl13"): { description: format!("{}!", 7), scheme: Bearer, }, (http "decl14"): { description: &t, scheme: Basic, } }, info: { title: "lit", version: s, description: "", } };
    decide(
        &o,
        &Want {
            info: Info { title: own("lit"), version: t.clone(), description: Some(own("")) },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("some_id1"), par("id2")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("some_id1"), param(ParameterIn::Path, true, rf(1))), (own("id2"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::TRACE, Operation { operation_id: Some(own("a \"b\" {c}")), callbacks: map([(own("cb-3"), CallbackObject { paths: vec![] }), (own("onCb4"), CallbackObject { paths: vec![(Path(vec![lit(""), par("Id5")]), PathValue { description: Some(own("lit")), parameters: map([(own("Id5"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { summary: Some(own("")), security: vec![], deprecated: !f, responses: map([(400u16, Response { description: own("Bad Request"), schema: None })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([(202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { parameters: map([(own("q6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("camelQ7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("camelQ8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(rf(0)) })]), operation_id: Some(v.clone()), description: Some(t.clone()), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(list(rf(0))) }), (202u16, Response { description: own(""), schema: None }), (503u16, Response { description: own("Service Unavailable"), schema: None }), (409u16, Response { description: own("{x}"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![], request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("id9"), lit("{x}"), lit("lit"), par("id10")]), PathValue { summary: Some(own("lit")), parameters: map([(own("id9"), param(ParameterIn::Path, true, rf(0))), (own("id10"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { tags: strs(&[]), deprecated: !f, responses: map([(304u16, Response { description: own("Not Modified"), schema: None }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { deprecated: g, tags: strs(&["Three", "two"]), summary: Some(own("")), security: vec![map([(own("lit_a"), strs(&["b", "a"]))]), map([(own("keyed"), strs(&["b", "a"]))]), map([(own("basic"), strs(&["b", "a"]))])], responses: map([(202u16, Response { description: own("Accepted"), schema: Some(rf(1)) }), (503u16, Response { description: own("Service Unavailable"), schema: None }), (404u16, Response { description: own("Not Found"), schema: None }), (409u16, Response { description: own("ünïcode"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl11"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None })), (own("decl12"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: t.clone(), description: None })), (own("decl13"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: Some(own("7!")) })), (own("decl14"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(t.clone()) }))]),
        },
    )
}

fn d13(decide: fn(&Opg, &Want)) {
    tag("13");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (apiKey "decl2"): { parameter_in: Cookie, name: "lit" }, (apiKey "decl3"): { name: "a \"b\" {c}", }, }, servers: { "https://a.b/c"(s), "x" }, tags: { one(format!("{}!", 7)), two(format!("{}!", 7)), snake_case(u), z9("a \"b\" {c}"), Three(t.clone()) }, info: { description: format!("{}!", 7), title: "a \"b\" {c}" }, paths: { (crate::kit::UserId / "ünïcode" / "quote \" here" / {Id1: deep::OrderId}): { DELETE: { 403: { Some(ModelReference::Link(own("Given"))) }, security: { basic["a", "a", ""] && "z", "basic"["a", "a", ""] && keyed && whole["a", "a", ""], "lit_a" && basic["a", "a", ""], }, 304: deep::er::ItemKey, deprecated: !f, 204: Box<Payload>, description: "" }, OPTIONS: { 201("other text"): deep::er::ItemKey, summary: "a \"b\" {c}", 503("quote \" here"): None, security: {  } }, HEAD: { tags: { Three, snake_case }, operationId: &t, security: { "basic"["r"] && whole["a", "a", ""], "basic"[] && "lit_a"["b", "a"], "basic"["b", "a"] && "z"["a", "a", ""] && keyed["r"] }, body: Payload, description: "" } }, ("$x:y"): {  }, }, };
    decide(
        &o,
        &Want {
            info: Info { title: own("a \"b\" {c}"), version: own(""), description: Some(own("7!")) },
            tags: vec![("one", Some(own("7!"))), ("two", Some(own("7!"))), ("snake_case", Some(v.clone())), ("z9", Some(own("a \"b\" {c}"))), ("Three", Some(t.clone()))],
            servers: vec![(own("https://a.b/c"), Some(t.clone())), (own("x"), None)],
            paths: vec![(Path(vec![par("userId"), lit("ünïcode"), lit("quote \" here"), par("Id1")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Id1"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { summary: Some(own("a \"b\" {c}")), security: vec![], responses: map([(503u16, Response { description: own("quote \" here"), schema: None }), (201u16, Response { description: own("other text"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { operation_id: Some(t.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), security: vec![map([(own("basic"), strs(&["r"])), (own("whole"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&[])), (own("lit_a"), strs(&["b", "a"]))]), map([(own("basic"), strs(&["b", "a"])), (own("z"), strs(&["a", "a", ""])), (own("keyed"), strs(&["r"]))])], tags: strs(&["Three", "snake_case"]), description: Some(own("")), responses: map([]), ..Default::default() }), (HttpMethod::DELETE, Operation { security: vec![map([(own("basic"), strs(&["a", "a", ""])), (own("z"), strs(&[]))]), map([(own("basic"), strs(&["a", "a", ""])), (own("keyed"), strs(&[])), (own("whole"), strs(&["a", "a", ""]))]), map([(own("lit_a"), strs(&[])), (own("basic"), strs(&["a", "a", ""]))])], description: Some(own("")), deprecated: !f, responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(rf(0)) }), (204u16, Response { description: own("No Content"), schema: Some(rf(1)) }), (403u16, Response { description: own("Forbidden"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("$x:y")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl2"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: own("lit"), description: None })), (own("decl3"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: own("a \"b\" {c}"), description: None }))]),
        },
    )
}

fn d14(decide: fn(&Opg, &Want)) {
    tag("14");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (Payload / "ünïcode" / "other text"): { GET: { 204: (), description: u, 422("lit"): (), summary: u, deprecated: f, callbacks: { cb2: { ({some_id3: crate::kit::UserId} / "lit"): { POST: { summary: s, body: { description: "lit", schema: deep::OrderId, }, 503: None, 409: None, security: { "basic", "z"[] && keyed[], }, 599: deep::er::ItemKey, 204: crate::kit::UserId, callbacks: { "cb-4": {  } }, tags: {} }, }, (deep::er::ItemKey / "a.b" / {some_id5: Payload}): { OPTIONS: { summary: u, parameters: { (header format!("h6{}", s)), (query some_q7: String): { deprecated: g, schema: Vec<Payload> }, (header format!("Some Header 8{}", s)): { deprecated: !f, required: true, description: "lit" } }, callbacks: { cb9: { ("other text" / {Id10: deep::OrderId} / ""): { summary: "ünïcode", GET: { security: { keyed, }, body: { schema: UserId }, 500("{x}"): () }, OPTIONS: { 422: None, summary: u, 204("{x}"): crate::kit::UserId, security: { "z"["a", "a", ""] && "lit_a"["r"] && keyed, whole[], whole["b", "a"] }, 404: (), deprecated: !f }, PUT: { 200: deep::OrderId, 299: Payload, operationId: "", 599("ünïcode"): UserId, tags: { two }, }, } } }, 202: UserId, security: { keyed["a", "a", ""], "lit b", whole[] && basic }, body: { schema: deep::er::ItemKey }, 404: (), tags: {}, description: &t, 460: None, operationId: "a \"b\" {c}", deprecated: true }, } } }, 301: { Some(ModelReference::Link(own("Given"))) }, 99: Box<Payload>, operationId: &t, body: crate::kit::UserId, parameters: { (header String::from("Some Header 11")), (query some_q12: deep::OrderId), (query camelQ13: deep::OrderId): { required: g, deprecated: false } }, security: { keyed["a", "a", ""], }, tags: { snake_case } }, OPTIONS: { callbacks: { "cb-14": { (deep::OrderId / "users"): { OPTIONS: { summary: "a \"b\" {c}", 422("lit"): None, 500: deep::OrderId, 409: None, callbacks: { cb24: {  }, "cb-25": { ("users"): { HEAD: { 500: Vec<Payload>, operationId: s, 201: None, deprecated: g, 460("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, security: { basic["a", "a", ""] && "lit_a"[], "basic"["a", "a", ""] && "z"["b", "a"] && whole["r"] }, summary: "a \"b\" {c}" }, description: "quote \" here", parameters: { (query Q26: UserId), (query camelQ27: UserId): { description: "a \"b\" {c}" }, (query Q28: Payload) }, PATCH: { 301: Box<Payload>, description: u, deprecated: true }, GET: { 404(""): None, 599("ünïcode"): None, body: { schema: Vec<UserId>, required: false }, tags: { two }, security: { basic[] && "lit_a"["a", "a", ""], keyed && whole[] }, deprecated: g, summary: u, operationId: &t, parameters: {  }, description: "lit", parameters: { (query q29: Vec<Payload>): {  }, (header format!("h30{}", s)): {  }, }, 409: { Some(ModelReference::Link(own("Given"))) }, } } } }, body: crate::kit::UserId, }, PUT: { deprecated: false, 409(""): { Some(ModelReference::Link(own("Given"))) }, 201("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, summary: "lit", 304: (), parameters: {  }, callbacks: { "cb-15": {  }, "cb-16": { ("lit" / {Id17: Payload} / "a.b"): { parameters: { (header String::from("X-H18")): { deprecated: true, schema: Vec<UserId>, description: "", required: !f }, (query Q19: Vec<Payload>): {  }, (header "X-H20"), }, DELETE: { deprecated: true, parameters: { (query camelQ21: String): {  }, }, summary: "lit", security: { "lit b", basic["a", "a", ""] && keyed }, 301("ünïcode"): None, operationId: u, description: "a \"b\" {c}", 400: None, 503("lit"): Box<Payload>, body: Vec<Payload>, tags: { one, snake_case, one }, 299: { Some(ModelReference::Link(own("Given"))) } }, } } }, operationId: "lit", tags: { two, }, security: {  }, description: u, body: { schema: Vec<UserId> }, parameters: { (query some_q22: UserId), (query q23: Payload): { deprecated: true, schema: crate::kit::UserId, required: g, description: "a \"b\" {c}" } }, 460: String, }, DELETE: { 409: None, summary: s, security: {  }, operationId: "a \"b\" {c}", } } } }, 403("quote \" here"): None, 301: String, description: u, deprecated: !f }, TRACE: { parameters: { (header format!("h1{}", s)): { description: t.clone(), deprecated: false, required: !f, schema: UserId } }, 202("other text"): None, 422: Box<Payload>, parameters: {  }, body: UserId }, parameters: {  } }, (""): { description: "other text", parameters: {  }, PATCH: { 422: (), deprecated: true, description: "", 202: Vec<UserId>, 503("lit"): String, 403("lit"): String, operationId: "lit", }, summary: "quote \" here", }, (""): { PATCH: { deprecated: !f, operationId: "lit", body: { schema: deep::er::ItemKey, description: "lit", required: true, }, 299("lit"): { Some(ModelReference::Link(own("Given"))) }, security: { "basic"["r"] }, parameters: { (query q31: crate::kit::UserId): { description: format!("{}!", 7) }, (header format!("h32{}", s)), (header String::from("X-H33")): { schema: String, required: false, deprecated: false, description: "a \"b\" {c}", } }, tags: { two, one, }, callbacks: { onCb34: {  }, onCb35: {  } }, description: s, summary: u }, DELETE: { parameters: { (header "h36"): { deprecated: false, schema: Vec<UserId>, required: !f, description: "lit" } }, 460("quote \" here"): Vec<Payload>, summary: "lit", callbacks: { "cb-37": { ("a.b"): { OPTIONS: { 304("other text"): Payload, 422("lit"): UserId, 500: (), 1000("{x}"): crate::kit::UserId, tags: { one, }, } } }, }, description: s, tags: {}, security: {  }, body: { schema: Vec<UserId>, description: "lit", required: true }, deprecated: false, operationId: u, }, summary: "quote \" here", }, }, tags: { snake_case(format!("{}!", 7)), one(s), Three(&t), two(t.clone()), }, servers: { s(u), s(s), ""("x") }, info: { title: "lit", description: "lit", version: u, } };
    decide(
        &o,
        &Want {
            info: Info { title: own("lit"), version: v.clone(), description: Some(own("lit")) },
            tags: vec![("snake_case", Some(own("7!"))), ("one", Some(t.clone())), ("Three", Some(t.clone())), ("two", Some(t.clone()))],
            servers: vec![(t.clone(), Some(v.clone())), (t.clone(), Some(t.clone())), (own(""), Some(own("x")))],
            paths: vec![(Path(vec![par("payload"), lit("ünïcode"), lit("other text")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), parameters: map([(own("h1") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(rf(0)) })]), responses: map([(202u16, Response { description: own("other text"), schema: None }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { security: vec![map([(own("keyed"), strs(&["a", "a", ""]))])], operation_id: Some(t.clone()), summary: Some(v.clone()), deprecated: f, request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), callbacks: map([(own("cb2"), CallbackObject { paths: vec![(Path(vec![par("some_id3"), lit("lit")]), PathValue { parameters: map([(own("some_id3"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { tags: strs(&[]), request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: rf(1) }), summary: Some(t.clone()), callbacks: map([(own("cb-4"), CallbackObject { paths: vec![] })]), security: vec![map([(own("basic"), strs(&[]))]), map([(own("z"), strs(&[])), (own("keyed"), strs(&[]))])], responses: map([(599u16, Response { description: own(""), schema: Some(rf(0)) }), (204u16, Response { description: own("No Content"), schema: Some(rf(0)) }), (503u16, Response { description: own("Service Unavailable"), schema: None }), (409u16, Response { description: own("Conflict"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey"), lit("a.b"), par("some_id5")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("some_id5"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { description: Some(t.clone()), operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("h6") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: g, schema: Some(list(rf(1))) }), (own("Some Header 8") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: !f, schema: Some(string()) })]), summary: Some(v.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), tags: strs(&[]), security: vec![map([(own("keyed"), strs(&["a", "a", ""]))]), map([(own("lit b"), strs(&[]))]), map([(own("whole"), strs(&[])), (own("basic"), strs(&[]))])], callbacks: map([(own("cb9"), CallbackObject { paths: vec![(Path(vec![lit("other text"), par("Id10"), lit("")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("Id10"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), security: vec![map([(own("keyed"), strs(&[]))])], responses: map([(500u16, Response { description: own("{x}"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { tags: strs(&["two"]), operation_id: Some(own("")), responses: map([(200u16, Response { description: own("OK"), schema: Some(rf(1)) }), (299u16, Response { description: own(""), schema: Some(rf(1)) }), (599u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { deprecated: !f, security: vec![map([(own("z"), strs(&["a", "a", ""])), (own("lit_a"), strs(&["r"])), (own("keyed"), strs(&[]))]), map([(own("whole"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"]))])], summary: Some(v.clone()), responses: map([(204u16, Response { description: own("{x}"), schema: Some(rf(0)) }), (422u16, Response { description: own("Unprocessable Entity"), schema: None }), (404u16, Response { description: own("Not Found"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), deprecated: true, responses: map([(202u16, Response { description: own("Accepted"), schema: Some(rf(0)) }), (460u16, Response { description: own(""), schema: None }), (404u16, Response { description: own("Not Found"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(v.clone()), tags: strs(&["snake_case"]), parameters: map([(own("Some Header 11"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("camelQ13"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: g, deprecated: false, schema: Some(rf(1)) })]), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) }), (422u16, Response { description: own("lit"), schema: Some(unit()) }), (99u16, Response { description: own(""), schema: Some(rf(1)) }), (301u16, Response { description: own("Moved Permanently"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { deprecated: !f, description: Some(v.clone()), callbacks: map([(own("cb-14"), CallbackObject { paths: vec![(Path(vec![par("orderId"), lit("users")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { tags: strs(&["two"]), callbacks: map([(own("cb-15"), CallbackObject { paths: vec![] }), (own("cb-16"), CallbackObject { paths: vec![(Path(vec![lit("lit"), par("Id17"), lit("a.b")]), PathValue { parameters: map([(own("Id17"), param(ParameterIn::Path, true, rf(1))), (own("X-H18"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: !f, deprecated: true, schema: Some(list(rf(0))) }), (own("Q19"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("X-H20"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), tags: strs(&["one", "snake_case", "one"]), parameters: map([(own("camelQ21"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), description: Some(own("a \"b\" {c}")), summary: Some(own("lit")), operation_id: Some(v.clone()), deprecated: true, security: vec![map([(own("lit b"), strs(&[]))]), map([(own("basic"), strs(&["a", "a", ""])), (own("keyed"), strs(&[]))])], responses: map([(299u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("lit"), schema: Some(rf(1)) }), (400u16, Response { description: own("Bad Request"), schema: None }), (301u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(v.clone()), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), security: vec![], parameters: map([(own("some_q22"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("q23"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: g, deprecated: true, schema: Some(rf(0)) })]), deprecated: false, operation_id: Some(own("lit")), summary: Some(own("lit")), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(unit()) }), (201u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(string()) }), (409u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { operation_id: Some(own("a \"b\" {c}")), summary: Some(t.clone()), security: vec![], responses: map([(409u16, Response { description: own("Conflict"), schema: None })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(own("a \"b\" {c}")), callbacks: map([(own("cb24"), CallbackObject { paths: vec![] }), (own("cb-25"), CallbackObject { paths: vec![(Path(vec![lit("users")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("Q26"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ27"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Q28"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::GET, Operation { operation_id: Some(t.clone()), deprecated: g, request_body: Some(RequestBody { description: None, required: false, schema: list(rf(0)) }), tags: strs(&["two"]), description: Some(own("lit")), security: vec![map([(own("basic"), strs(&[])), (own("lit_a"), strs(&["a", "a", ""]))]), map([(own("keyed"), strs(&[])), (own("whole"), strs(&[]))])], summary: Some(v.clone()), parameters: map([(own("q29"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("h30") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([(599u16, Response { description: own("ünïcode"), schema: None }), (409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) }), (404u16, Response { description: own(""), schema: None })]), ..Default::default() }), (HttpMethod::PATCH, Operation { deprecated: true, description: Some(v.clone()), responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { operation_id: Some(t.clone()), deprecated: g, summary: Some(own("a \"b\" {c}")), security: vec![map([(own("basic"), strs(&["a", "a", ""])), (own("lit_a"), strs(&[]))]), map([(own("basic"), strs(&["a", "a", ""])), (own("z"), strs(&["b", "a"])), (own("whole"), strs(&["r"]))])], responses: map([(201u16, Response { description: own("Created"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(list(rf(1))) }), (460u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) }), (422u16, Response { description: own("lit"), schema: None }), (409u16, Response { description: own("Conflict"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(string()) }), (403u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { description: Some(own("")), operation_id: Some(own("lit")), deprecated: true, responses: map([(202u16, Response { description: own("Accepted"), schema: Some(list(rf(0))) }), (503u16, Response { description: own("lit"), schema: Some(string()) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(unit()) }), (403u16, Response { description: own("lit"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("")]), PathValue { summary: Some(own("quote \" here")), parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { operation_id: Some(own("lit")), parameters: map([(own("q31"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("h32") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H33"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(string()) })]), tags: strs(&["two", "one"]), security: vec![map([(own("basic"), strs(&["r"]))])], request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: rf(0) }), summary: Some(v.clone()), deprecated: !f, description: Some(t.clone()), callbacks: map([(own("onCb34"), CallbackObject { paths: vec![] }), (own("onCb35"), CallbackObject { paths: vec![] })]), responses: map([(299u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { description: Some(t.clone()), parameters: map([(own("h36"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(list(rf(0))) })]), deprecated: false, security: vec![], tags: strs(&[]), summary: Some(own("lit")), callbacks: map([(own("cb-37"), CallbackObject { paths: vec![(Path(vec![lit("a.b")]), PathValue { parameters: map([]), operations: map([(HttpMethod::OPTIONS, Operation { tags: strs(&["one"]), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) }), (422u16, Response { description: own("lit"), schema: Some(rf(0)) }), (1000u16, Response { description: own("{x}"), schema: Some(rf(0)) }), (304u16, Response { description: own("other text"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: list(rf(0)) }), operation_id: Some(v.clone()), responses: map([(460u16, Response { description: own("quote \" here"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d15(decide: fn(&Opg, &Want)) {
    tag("15");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({Id1: Payload}): { GET: { 299: (), deprecated: false, 301("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, 409: { Some(ModelReference::Link(own("Given"))) }, body: { schema: Payload, description: "ünïcode" }, 201(""): None, security: { "lit_a", "basic" && whole["a", "a", ""] }, callbacks: { onCb2: { ("ünïcode"): { summary: "lit", } }, }, } } }, security_schemes: { (apiKey "Decl 3"): { parameter_in: Cookie, name: t.clone() }, (apiKey "decl4"): { name: u, parameter_in: Header }, (apiKey "Decl 5"): { name: format!("{}!", 7), parameter_in: Query }, (apiKey "decl6"): { description: u, name: s, parameter_in: Query } }, info: { version: t.clone(), } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("Id1")]), PathValue { parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { security: vec![map([(own("lit_a"), strs(&[]))]), map([(own("basic"), strs(&[])), (own("whole"), strs(&["a", "a", ""]))])], request_body: Some(RequestBody { description: Some(own("ünïcode")), required: true, schema: rf(1) }), callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode")]), PathValue { summary: Some(own("lit")), parameters: map([]), operations: map([]), ..Default::default() })] })]), deprecated: false, responses: map([(301u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) }), (201u16, Response { description: own(""), schema: None }), (299u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("Decl 3"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: t.clone(), description: None })), (own("decl4"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: v.clone(), description: None })), (own("Decl 5"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: own("7!"), description: None })), (own("decl6"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: Some(v.clone()) }))]),
        },
    )
}

fn d16(decide: fn(&Opg, &Want)) {
    tag("16");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: &t }, paths: { (crate::kit::UserId): { OPTIONS: { 422: { Some(ModelReference::Link(own("Given"))) }, security: { keyed["b", "a"] && basic["r"], whole["b", "a"] }, description: "a \"b\" {c}", tags: { one }, body: crate::kit::UserId } }, ("a.b"): { DELETE: { deprecated: true, operationId: s, 99: (), description: "a \"b\" {c}", security: { "lit b"["b", "a"], "lit b"["a", "a", ""] }, body: { schema: String, required: true, description: "lit" }, }, parameters: { (header String::from("X-H1")): { deprecated: f, schema: String, description: "lit", required: g, }, (query q2: deep::er::ItemKey): {  }, (header String::from("X-H3")): {  } } }, ("ünïcode" / {some_id4: deep::OrderId} / String): { summary: "lit", HEAD: { operationId: "a \"b\" {c}", 204: (), }, DELETE: { security: { whole[], keyed["b", "a"] && "z"[], }, summary: &t, deprecated: true, 301: { Some(ModelReference::Link(own("Given"))) }, body: UserId, }, TRACE: { deprecated: false, 409: { Some(ModelReference::Link(own("Given"))) }, security: { keyed["r"], "lit_a"[], "z", }, 503("quote \" here"): Payload, 400("ünïcode"): Vec<Payload>, 304("{x}"): UserId, description: u, } } }, };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("userId")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { security: vec![map([(own("keyed"), strs(&["b", "a"])), (own("basic"), strs(&["r"]))]), map([(own("whole"), strs(&["b", "a"]))])], description: Some(own("a \"b\" {c}")), tags: strs(&["one"]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: map([(422u16, Response { description: own("Unprocessable Entity"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("a.b")]), PathValue { parameters: map([(own("X-H1"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: g, deprecated: f, schema: Some(string()) }), (own("q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("X-H3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: string() }), operation_id: Some(t.clone()), deprecated: true, description: Some(own("a \"b\" {c}")), security: vec![map([(own("lit b"), strs(&["b", "a"]))]), map([(own("lit b"), strs(&["a", "a", ""]))])], responses: map([(99u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("ünïcode"), par("some_id4"), par("string")]), PathValue { summary: Some(own("lit")), parameters: map([(own("some_id4"), param(ParameterIn::Path, true, rf(1))), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::TRACE, Operation { security: vec![map([(own("keyed"), strs(&["r"]))]), map([(own("lit_a"), strs(&[]))]), map([(own("z"), strs(&[]))])], deprecated: false, description: Some(v.clone()), responses: map([(304u16, Response { description: own("{x}"), schema: Some(rf(0)) }), (503u16, Response { description: own("quote \" here"), schema: Some(rf(1)) }), (409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) }), (400u16, Response { description: own("ünïcode"), schema: Some(list(rf(1))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { summary: Some(t.clone()), security: vec![map([(own("whole"), strs(&[]))]), map([(own("keyed"), strs(&["b", "a"])), (own("z"), strs(&[]))])], request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), deprecated: true, responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { operation_id: Some(own("a \"b\" {c}")), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v))]),
        },
    )
}

fn d17(decide: fn(&Opg, &Want)) {
    tag("17");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { version: format!("{}!", 7), }, paths: { (deep::OrderId / "lit" / "users" / "{x}"): { PATCH: { parameters: {  }, body: { description: "{x}", required: true, schema: Payload }, summary: &t, parameters: { (header format!("X-H4{}", s)): { deprecated: true, schema: deep::er::ItemKey, required: f, description: "lit", }, (query q5: deep::OrderId), }, operationId: "lit", security: {  } }, description: "other text", POST: { summary: "a \"b\" {c}", body: String, 409: deep::er::ItemKey, 204: UserId, 599: (), security: {  } }, PUT: { security: {  }, deprecated: true, parameters: { (query q1: UserId), (header String::from("Some Header 2")): {  }, (query q3: Vec<Payload>) }, summary: "lit", 500: { Some(ModelReference::Link(own("Given"))) }, 204: (), operationId: u, 404("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, 599: String }, parameters: {  } }, (deep::er::ItemKey): {  }, (UserId / "other text"): { TRACE: { callbacks: { onCb8: { ("lit" / crate::kit::UserId / ""): { GET: { 409("ünïcode"): Vec<Payload>, security: { "lit_a"["r"] }, 200: String, summary: "", description: "lit", operationId: s, tags: {}, }, parameters: {  } }, ({Id9: crate::kit::UserId} / "other text" / "quote \" here" / deep::OrderId): { GET: { parameters: { (header format!("Some Header 18{}", s)): { required: false, deprecated: true }, (query camelQ19: deep::er::ItemKey): {  }, (query camelQ20: Vec<UserId>): {  } }, 200(""): String, 1000: (), security: {  }, body: String, }, summary: "lit", POST: { tags: { snake_case, snake_case, }, parameters: {  }, security: { "basic" }, description: u, summary: &t }, OPTIONS: { callbacks: { cb10: { ({Id11: deep::OrderId}): { summary: "other text", GET: { security: { "lit_a"["a", "a", ""], whole["a", "a", ""] && basic }, description: s, operationId: s, }, OPTIONS: { parameters: { (header format!("h13{}", s)): { schema: Vec<UserId>, required: true, description: "", deprecated: true }, (query q14: Payload), (query some_q15: Vec<UserId>): { deprecated: !f, schema: Vec<Payload>, } }, 400("{x}"): { Some(ModelReference::Link(own("Given"))) }, summary: &t, operationId: "a \"b\" {c}", security: { basic, whole["r"] && basic["b", "a"], "basic" && "lit b"[] && keyed[], }, parameters: {  }, }, parameters: { (header "h12"): { required: true, schema: Vec<UserId>, deprecated: true, description: format!("{}!", 7) }, }, DELETE: { 404: (), 202: { Some(ModelReference::Link(own("Given"))) }, 201("lit"): { Some(ModelReference::Link(own("Given"))) }, 422(""): None } }, ("other text" / {Id16: UserId} / "ünïcode"): { description: "lit", POST: { parameters: {  }, summary: "", security: { basic[], "lit_a" } }, } }, cb17: { ("users" / "$x:y" / "quote \" here"): { PUT: { operationId: s, 202("lit"): Box<Payload>, 422("lit"): None, 460: { Some(ModelReference::Link(own("Given"))) }, deprecated: true, }, description: "ünïcode", summary: "lit" }, ("a.b" / "ünïcode"): { TRACE: { summary: "a \"b\" {c}", description: u, body: { required: false, schema: deep::OrderId, }, }, description: "ünïcode" } } }, security: { "lit_a"[] && keyed["b", "a"], whole["b", "a"], "lit b"[], }, 304("lit"): (), parameters: {  }, operationId: u, 201: None, summary: "a \"b\" {c}" }, } }, }, parameters: { (query Q21: deep::er::ItemKey): { schema: deep::OrderId, deprecated: true, required: true, description: "", } }, 500: { Some(ModelReference::Link(own("Given"))) }, operationId: s }, parameters: { (header String::from("Some Header 6")): { schema: Vec<UserId>, }, (header "Some Header 7"): { deprecated: g, } }, PATCH: { 304(""): { Some(ModelReference::Link(own("Given"))) }, tags: { snake_case } }, description: "", } }, tags: { two(t.clone()), z9("a \"b\" {c}"), snake_case(""), } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("7!"), description: None },
            tags: vec![("two", Some(t.clone())), ("z9", Some(own("a \"b\" {c}"))), ("snake_case", Some(own("")))],
            servers: vec![],
            paths: vec![(Path(vec![par("orderId"), lit("lit"), lit("users"), lit("{x}")]), PathValue { description: Some(own("other text")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { security: vec![], summary: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: map([(204u16, Response { description: own("No Content"), schema: Some(rf(0)) }), (409u16, Response { description: own("Conflict"), schema: Some(rf(0)) }), (599u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { security: vec![], deprecated: true, summary: Some(own("lit")), operation_id: Some(v.clone()), parameters: map([(own("q1"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 2"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) }), (599u16, Response { description: own(""), schema: Some(string()) }), (404u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { summary: Some(t.clone()), security: vec![], parameters: map([(own("X-H4") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: f, deprecated: true, schema: Some(rf(0)) }), (own("q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operation_id: Some(own("lit")), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: rf(1) }), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() }), (Path(vec![par("userId"), lit("other text")]), PathValue { description: Some(own("")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Some Header 6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(list(rf(0))) }), (own("Some Header 7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { tags: strs(&["snake_case"]), responses: map([(304u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { operation_id: Some(t.clone()), callbacks: map([(own("onCb8"), CallbackObject { paths: vec![(Path(vec![lit("lit"), par("userId"), lit("")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { security: vec![map([(own("lit_a"), strs(&["r"]))])], operation_id: Some(t.clone()), description: Some(own("lit")), tags: strs(&[]), summary: Some(own("")), responses: map([(200u16, Response { description: own("OK"), schema: Some(string()) }), (409u16, Response { description: own("ünïcode"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id9"), lit("other text"), lit("quote \" here"), par("orderId")]), PathValue { summary: Some(own("lit")), parameters: map([(own("Id9"), param(ParameterIn::Path, true, rf(0))), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { tags: strs(&["snake_case", "snake_case"]), description: Some(v.clone()), security: vec![map([(own("basic"), strs(&[]))])], summary: Some(t.clone()), parameters: map([]), responses: map([]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { summary: Some(own("a \"b\" {c}")), security: vec![map([(own("lit_a"), strs(&[])), (own("keyed"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["b", "a"]))]), map([(own("lit b"), strs(&[]))])], callbacks: map([(own("cb10"), CallbackObject { paths: vec![(Path(vec![par("Id11")]), PathValue { summary: Some(own("other text")), parameters: map([(own("Id11"), param(ParameterIn::Path, true, rf(1))), (own("h12"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::GET, Operation { security: vec![map([(own("lit_a"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""])), (own("basic"), strs(&[]))])], description: Some(t.clone()), operation_id: Some(t.clone()), responses: map([]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([(422u16, Response { description: own(""), schema: None }), (404u16, Response { description: own("Not Found"), schema: Some(unit()) }), (201u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) }), (202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("h13") + s, OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(list(rf(0))) }), (own("q14"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("some_q15"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(list(rf(1))) })]), security: vec![map([(own("basic"), strs(&[]))]), map([(own("whole"), strs(&["r"])), (own("basic"), strs(&["b", "a"]))]), map([(own("basic"), strs(&[])), (own("lit b"), strs(&[])), (own("keyed"), strs(&[]))])], summary: Some(t.clone()), responses: map([(400u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("other text"), par("Id16"), lit("ünïcode")]), PathValue { description: Some(own("lit")), parameters: map([(own("Id16"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { summary: Some(own("")), parameters: map([]), security: vec![map([(own("basic"), strs(&[]))]), map([(own("lit_a"), strs(&[]))])], responses: map([]), ..Default::default() })]), ..Default::default() })] }), (own("cb17"), CallbackObject { paths: vec![(Path(vec![lit("users"), lit("$x:y"), lit("quote \" here")]), PathValue { summary: Some(own("lit")), description: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::PUT, Operation { operation_id: Some(t.clone()), deprecated: true, responses: map([(202u16, Response { description: own("lit"), schema: Some(rf(1)) }), (460u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (422u16, Response { description: own("lit"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("a.b"), lit("ünïcode")]), PathValue { description: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { summary: Some(own("a \"b\" {c}")), description: Some(v.clone()), request_body: Some(RequestBody { description: None, required: false, schema: rf(1) }), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), parameters: map([]), operation_id: Some(v.clone()), responses: map([(304u16, Response { description: own("lit"), schema: Some(unit()) }), (201u16, Response { description: own("Created"), schema: None })]), ..Default::default() }), (HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: string() }), security: vec![], parameters: map([(own("Some Header 18") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: false, deprecated: true, schema: Some(string()) }), (own("camelQ19"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ20"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) })]), responses: map([(1000u16, Response { description: own(""), schema: Some(unit()) }), (200u16, Response { description: own(""), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() })] })]), parameters: map([(own("Q21"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: true, deprecated: true, schema: Some(rf(1)) })]), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d18(decide: fn(&Opg, &Want)) {
    tag("18");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({some_id1: String}): { parameters: {  }, DELETE: { summary: u, tags: { one, }, 403: UserId, deprecated: true, description: "", operationId: s, 1000: deep::OrderId, 400: (), }, }, ({some_id2: String} / "" / String): { description: "other text", parameters: { (header String::from("X-H3")), (header "h4"): { description: format!("{}!", 7), schema: deep::OrderId, deprecated: true, required: !f, }, } } }, servers: { "x"(u) } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![(own("x"), Some(v.clone()))],
            paths: vec![(Path(vec![par("some_id1")]), PathValue { parameters: map([(own("some_id1"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::DELETE, Operation { tags: strs(&["one"]), summary: Some(v.clone()), description: Some(own("")), deprecated: true, operation_id: Some(t.clone()), responses: map([(1000u16, Response { description: own(""), schema: Some(rf(1)) }), (403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) }), (400u16, Response { description: own("Bad Request"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id2"), lit(""), par("string")]), PathValue { description: Some(own("other text")), parameters: map([(own("some_id2"), param(ParameterIn::Path, true, string())), (own("string"), param(ParameterIn::Path, true, string())), (own("X-H3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h4"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: !f, deprecated: true, schema: Some(rf(1)) })]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d19(decide: fn(&Opg, &Want)) {
    tag("19");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { z9(""), one(s), snake_case(""), Three(u), }, servers: { "https://a.b/c"("x"), u, "x"("x") }, security_schemes: { keyed, keyed, (http "Decl 17"): { scheme: Bearer, } }, paths: { (Payload): { summary: "ünïcode", GET: { callbacks: { "cb-4": { ("quote \" here" / "ünïcode" / "users"): { TRACE: { 503("ünïcode"): (), security: { keyed[] && whole["r"] && "lit b"["a", "a", ""] }, 304: { Some(ModelReference::Link(own("Given"))) }, 301("{x}"): Box<Payload> }, HEAD: { 400: Vec<UserId>, deprecated: !f, tags: {}, summary: "", description: u, callbacks: { onCb7: { ({some_id8: deep::er::ItemKey} / "a.b" / "quote \" here" / {id9: String}): { summary: "quote \" here", TRACE: { 201("{x}"): deep::OrderId } } }, "cb-10": {  } }, parameters: { (header String::from("Some Header 5")): { schema: deep::er::ItemKey, description: &t, required: g }, (query camelQ6: deep::OrderId): { description: format!("{}!", 7) }, }, body: { schema: deep::er::ItemKey, required: false }, security: { keyed && basic, "z"[] }, operationId: "" } }, ("a.b" / "{x}" / {id11: String}): { PATCH: { 99: crate::kit::UserId, tags: { one, Three, snake_case }, summary: "a \"b\" {c}", operationId: &t, description: s, security: { keyed[], } }, } }, }, 599: Vec<Payload>, 500: Vec<Payload>, parameters: { (query some_q1: Vec<UserId>): { description: t.clone(), }, (header String::from("X-H2")), (query Q3: crate::kit::UserId): {  } }, 202: (), deprecated: false, summary: "lit", 200: String, body: { description: "lit", required: false, schema: deep::er::ItemKey } } }, (Payload / {Id12: UserId} / {Id13: Payload} / deep::OrderId): { OPTIONS: { 401("other text"): None, 200: Vec<UserId>, 299(""): None }, HEAD: { operationId: &t, deprecated: g, 401: { Some(ModelReference::Link(own("Given"))) }, callbacks: { cb14: {  }, } }, }, }, info: { description: &t, version: "", title: "", } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: Some(t.clone()) },
            tags: vec![("z9", Some(own(""))), ("one", Some(t.clone())), ("snake_case", Some(own(""))), ("Three", Some(v.clone()))],
            servers: vec![(own("https://a.b/c"), Some(own("x"))), (v.clone(), None), (own("x"), Some(own("x")))],
            paths: vec![(Path(vec![par("payload")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { deprecated: false, parameters: map([(own("some_q1"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) }), (own("X-H2"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), request_body: Some(RequestBody { description: Some(own("lit")), required: false, schema: rf(0) }), callbacks: map([(own("cb-4"), CallbackObject { paths: vec![(Path(vec![lit("quote \" here"), lit("ünïcode"), lit("users")]), PathValue { parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { description: Some(v.clone()), parameters: map([(own("Some Header 5"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(rf(0)) }), (own("camelQ6"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), deprecated: !f, request_body: Some(RequestBody { description: None, required: false, schema: rf(0) }), tags: strs(&[]), callbacks: map([(own("onCb7"), CallbackObject { paths: vec![(Path(vec![par("some_id8"), lit("a.b"), lit("quote \" here"), par("id9")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("some_id8"), param(ParameterIn::Path, true, rf(0))), (own("id9"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::TRACE, Operation { responses: map([(201u16, Response { description: own("{x}"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-10"), CallbackObject { paths: vec![] })]), summary: Some(own("")), operation_id: Some(own("")), security: vec![map([(own("keyed"), strs(&[])), (own("basic"), strs(&[]))]), map([(own("z"), strs(&[]))])], responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { security: vec![map([(own("keyed"), strs(&[])), (own("whole"), strs(&["r"])), (own("lit b"), strs(&["a", "a", ""]))])], responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(ModelReference::Link(own("Given"))) }), (301u16, Response { description: own("{x}"), schema: Some(rf(1)) }), (503u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("a.b"), lit("{x}"), par("id11")]), PathValue { parameters: map([(own("id11"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PATCH, Operation { operation_id: Some(t.clone()), security: vec![map([(own("keyed"), strs(&[]))])], summary: Some(own("a \"b\" {c}")), description: Some(t.clone()), tags: strs(&["one", "Three", "snake_case"]), responses: map([(99u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("lit")), responses: map([(200u16, Response { description: own("OK"), schema: Some(string()) }), (202u16, Response { description: own("Accepted"), schema: Some(unit()) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(list(rf(1))) }), (599u16, Response { description: own(""), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("payload"), par("Id12"), par("Id13"), par("orderId")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("Id12"), param(ParameterIn::Path, true, rf(0))), (own("Id13"), param(ParameterIn::Path, true, rf(1))), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(299u16, Response { description: own(""), schema: None }), (401u16, Response { description: own("other text"), schema: None }), (200u16, Response { description: own("OK"), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { callbacks: map([(own("cb14"), CallbackObject { paths: vec![] })]), deprecated: g, operation_id: Some(t.clone()), responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("Decl 17"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: None }))]),
        },
    )
}

fn d20(decide: fn(&Opg, &Want)) {
    tag("20");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: u, }, security_schemes: { keyed, (apiKey "decl5"): { name: u, description: "lit" }, keyed, }, servers: { "x"("https://a.b/c"), u("https://a.b/c"), u(s), "https://a.b/c"("") }, paths: { ("{x}" / "quote \" here" / "other text"): { POST: { deprecated: g, description: &t, 409: (), 201("quote \" here"): (), callbacks: { onCb1: {  } }, parameters: { (header format!("Some Header 2{}", s)), (header String::from("X-H3")): { required: true }, }, operationId: s, }, }, ("ünïcode" / "lit" / deep::er::ItemKey / String): { OPTIONS: { description: &t, 201("quote \" here"): Box<Payload>, tags: {}, }, } }, tags: { Three, z9(t.clone()) } };
    decide(
        &o,
        &Want {
            info: Info { title: v.clone(), version: own(""), description: None },
            tags: vec![("Three", None), ("z9", Some(t.clone()))],
            servers: vec![(own("x"), Some(own("https://a.b/c"))), (v.clone(), Some(own("https://a.b/c"))), (v.clone(), Some(t.clone())), (own("https://a.b/c"), Some(own("")))],
            paths: vec![(Path(vec![lit("{x}"), lit("quote \" here"), lit("other text")]), PathValue { parameters: map([]), operations: map([(HttpMethod::POST, Operation { callbacks: map([(own("onCb1"), CallbackObject { paths: vec![] })]), parameters: map([(own("Some Header 2") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: g, description: Some(t.clone()), operation_id: Some(t.clone()), responses: map([(201u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (409u16, Response { description: own("Conflict"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("ünïcode"), lit("lit"), par("itemKey"), par("string")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::OPTIONS, Operation { description: Some(t.clone()), tags: strs(&[]), responses: map([(201u16, Response { description: own("quote \" here"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("decl5"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: v.clone(), description: Some(own("lit")) }))]),
        },
    )
}

fn d21(decide: fn(&Opg, &Want)) {
    tag("21");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { servers: { ""("https://a.b/c"), u("x"), "https://a.b/c"(u), u(u) }, paths: { (deep::OrderId / {id1: deep::OrderId}): { DELETE: { summary: &t, parameters: { (query Q3: crate::kit::UserId) }, callbacks: { cb4: {  }, onCb5: { ("a.b"): { HEAD: { operationId: &t, 304: { Some(ModelReference::Link(own("Given"))) }, deprecated: g, parameters: { (query q6: deep::er::ItemKey), (query some_q7: Payload), } }, description: "lit", PATCH: { summary: "lit", 500: Box<Payload>, body: { schema: UserId, required: false, description: "ünïcode" }, operationId: "lit", parameters: { (header "h8"), (header String::from("Some Header 9")): { schema: deep::OrderId, required: f, description: format!("{}!", 7), deprecated: g } }, parameters: {  } }, OPTIONS: { tags: { one }, 460: Payload, }, } } }, deprecated: !f, 503: { Some(ModelReference::Link(own("Given"))) }, }, parameters: { (query Q2: UserId): { deprecated: g, description: u, required: !f, }, }, POST: { 599: None, 500("lit"): (), 204("lit"): None, body: { schema: UserId, required: false, description: "ünïcode" }, 200("quote \" here"): (), }, TRACE: { parameters: { (query q10: Vec<Payload>): { required: g }, }, 500: Box<Payload>, 1000: None, deprecated: true, body: { schema: String, required: true, } } }, ({id11: crate::kit::UserId}): { DELETE: { 201: UserId, 400: { Some(ModelReference::Link(own("Given"))) }, body: { schema: Vec<Payload>, description: "{x}" }, 503: None, description: s, } } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![(own(""), Some(own("https://a.b/c"))), (v.clone(), Some(own("x"))), (own("https://a.b/c"), Some(v.clone())), (v.clone(), Some(v.clone()))],
            paths: vec![(Path(vec![par("orderId"), par("id1")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("id1"), param(ParameterIn::Path, true, rf(1))), (own("Q2"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: g, schema: Some(rf(0)) })]), operations: map([(HttpMethod::DELETE, Operation { parameters: map([(own("Q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), deprecated: !f, summary: Some(t.clone()), callbacks: map([(own("cb4"), CallbackObject { paths: vec![] }), (own("onCb5"), CallbackObject { paths: vec![(Path(vec![lit("a.b")]), PathValue { description: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { deprecated: g, operation_id: Some(t.clone()), parameters: map([(own("q6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("some_q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { parameters: map([(own("h8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 9"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: f, deprecated: g, schema: Some(rf(1)) })]), request_body: Some(RequestBody { description: Some(own("ünïcode")), required: false, schema: rf(0) }), summary: Some(own("lit")), operation_id: Some(own("lit")), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { tags: strs(&["one"]), responses: map([(460u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::POST, Operation { request_body: Some(RequestBody { description: Some(own("ünïcode")), required: false, schema: rf(0) }), responses: map([(200u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (204u16, Response { description: own("lit"), schema: None }), (500u16, Response { description: own("lit"), schema: Some(unit()) }), (599u16, Response { description: own(""), schema: None })]), ..Default::default() }), (HttpMethod::TRACE, Operation { parameters: map([(own("q10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: g, deprecated: false, schema: Some(list(rf(1))) })]), request_body: Some(RequestBody { description: None, required: true, schema: string() }), deprecated: true, responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) }), (1000u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("id11")]), PathValue { parameters: map([(own("id11"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { description: Some(t.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: list(rf(1)) }), responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(0)) }), (400u16, Response { description: own("Bad Request"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("Service Unavailable"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d22(decide: fn(&Opg, &Want)) {
    tag("22");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (http "decl18"): { scheme: Basic }, basic, (apiKey "Decl 20"): { parameter_in: Query, name: t.clone() }, (http "Decl 21"): { scheme: Bearer, bearer_format: "" } }, tags: { two(""), z9(u), Three(&t), snake_case("") }, paths: { ({id1: deep::er::ItemKey}): { description: "other text", DELETE: { tags: { one }, 599("other text"): { Some(ModelReference::Link(own("Given"))) }, 202: Vec<UserId>, body: { schema: Vec<UserId> }, description: s, operationId: &t, callbacks: { cb2: { ("{x}" / {Id3: Payload}): { POST: { 400: None, parameters: { (query camelQ13: Box<Payload>): { required: false, }, (query q14: Vec<Payload>), (header String::from("h15")) }, tags: { two, two }, security: {  }, parameters: { (header String::from("X-H12")): {  }, }, description: s, 99(""): None }, GET: { 204: None, summary: s, callbacks: { onCb4: { ("other text"): { DELETE: { tags: { snake_case, snake_case, one, }, security: { keyed && whole, "z"["a", "a", ""] && "lit_a" && keyed["r"], "basic"[] }, 400: Box<Payload>, operationId: "", summary: s }, HEAD: { operationId: "a \"b\" {c}", 200(""): Box<Payload>, 400("lit"): (), summary: "lit", 403: UserId, tags: {} }, PATCH: { 201(""): None, security: { keyed["a", "a", ""], basic["a", "a", ""] && keyed["b", "a"], basic["b", "a"] }, body: { schema: Vec<Payload>, required: true, description: "lit" }, }, parameters: { (query camelQ5: String): { description: t.clone(), }, (header "X-H6") }, }, ("quote \" here" / {id7: deep::OrderId} / {id8: crate::kit::UserId} / "lit"): { POST: { summary: u, deprecated: true }, parameters: { (header format!("X-H9{}", s)): {  }, (query q10: Box<Payload>), (header String::from("h11")): {  }, }, summary: "quote \" here" } } }, operationId: "a \"b\" {c}", deprecated: g, }, } }, }, security: {  }, 403: crate::kit::UserId, parameters: { (header format!("h16{}", s)): { description: u }, (header String::from("Some Header 17")): { deprecated: g, required: !f, schema: Vec<UserId>, } }, summary: "a \"b\" {c}", deprecated: f }, summary: "quote \" here", }, (deep::er::ItemKey / String / deep::OrderId): { description: "", summary: "ünïcode" } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("two", Some(own(""))), ("z9", Some(v.clone())), ("Three", Some(t.clone())), ("snake_case", Some(own("")))],
            servers: vec![],
            paths: vec![(Path(vec![par("id1")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("other text")), parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { summary: Some(own("a \"b\" {c}")), callbacks: map([(own("cb2"), CallbackObject { paths: vec![(Path(vec![lit("{x}"), par("Id3")]), PathValue { parameters: map([(own("Id3"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { summary: Some(t.clone()), operation_id: Some(own("a \"b\" {c}")), deprecated: g, callbacks: map([(own("onCb4"), CallbackObject { paths: vec![(Path(vec![lit("other text")]), PathValue { parameters: map([(own("camelQ5"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("X-H6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::DELETE, Operation { summary: Some(t.clone()), operation_id: Some(own("")), tags: strs(&["snake_case", "snake_case", "one"]), security: vec![map([(own("keyed"), strs(&[])), (own("whole"), strs(&[]))]), map([(own("z"), strs(&["a", "a", ""])), (own("lit_a"), strs(&[])), (own("keyed"), strs(&["r"]))]), map([(own("basic"), strs(&[]))])], responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { tags: strs(&[]), operation_id: Some(own("a \"b\" {c}")), summary: Some(own("lit")), responses: map([(400u16, Response { description: own("lit"), schema: Some(unit()) }), (403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) }), (200u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: list(rf(1)) }), security: vec![map([(own("keyed"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&["a", "a", ""])), (own("keyed"), strs(&["b", "a"]))]), map([(own("basic"), strs(&["b", "a"]))])], responses: map([(201u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("quote \" here"), par("id7"), par("id8"), lit("lit")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("id7"), param(ParameterIn::Path, true, rf(1))), (own("id8"), param(ParameterIn::Path, true, rf(0))), (own("X-H9") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("h11"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::POST, Operation { summary: Some(v.clone()), deprecated: true, responses: map([]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(204u16, Response { description: own("No Content"), schema: None })]), ..Default::default() }), (HttpMethod::POST, Operation { description: Some(t.clone()), security: vec![], tags: strs(&["two", "two"]), parameters: map([(own("X-H12"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("camelQ13"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("q14"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("h15"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([(99u16, Response { description: own(""), schema: None }), (400u16, Response { description: own("Bad Request"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), operation_id: Some(t.clone()), parameters: map([(own("h16") + s, OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 17"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: !f, deprecated: g, schema: Some(list(rf(0))) })]), security: vec![], tags: strs(&["one"]), deprecated: f, description: Some(t.clone()), responses: map([(599u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) }), (403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) }), (202u16, Response { description: own("Accepted"), schema: Some(list(rf(0))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("itemKey"), par("string"), par("orderId")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string())), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl18"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None })), (own("Decl 20"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: None })), (own("Decl 21"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: Some(own("")), description: None }))]),
        },
    )
}

fn d23(decide: fn(&Opg, &Want)) {
    tag("23");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("a.b" / crate::kit::UserId / "a.b"): { HEAD: { description: "lit", deprecated: true, 403: (), parameters: { (header format!("h11{}", s)), }, callbacks: { "cb-1": { (deep::OrderId): { POST: { body: { schema: Vec<UserId>, }, description: "", callbacks: { cb2: {  }, "cb-3": { ({some_id4: UserId} / "$x:y" / deep::er::ItemKey): { parameters: { (query Q5: UserId), (query Q6: deep::OrderId): {  }, }, PATCH: { parameters: { (query q8: String): { required: true, }, (header format!("X-H9{}", s)): { deprecated: !f, description: format!("{}!", 7), schema: Vec<Payload>, required: true }, (header format!("Some Header 10{}", s)): { description: "lit" } }, 304: { Some(ModelReference::Link(own("Given"))) }, 422: (), description: u, summary: &t, operationId: "", security: {  }, body: { description: "", schema: UserId, required: true }, deprecated: true, tags: { snake_case, one }, 99: () }, PUT: { body: { description: "quote \" here", schema: crate::kit::UserId, required: true }, security: { "lit_a"[], "lit_a"["b", "a"] && "z"["a", "a", ""], }, 460: (), 200("lit"): None, }, HEAD: { 304(""): crate::kit::UserId, tags: { snake_case }, description: "lit", parameters: {  }, security: { whole[] && "basic", "z"["r"] }, operationId: s, 400: (), deprecated: g, parameters: { (header "X-H7") }, body: { schema: deep::er::ItemKey, description: "{x}", required: false, }, summary: u }, summary: "", } }, }, operationId: s, } }, ("users"): { parameters: {  } } } }, security: { whole[] && "z"["b", "a"] && "lit b", "z" }, } } }, tags: { z9(u), Three(&t), snake_case(s), two, one(format!("{}!", 7)) } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("z9", Some(v.clone())), ("Three", Some(t.clone())), ("snake_case", Some(t.clone())), ("two", None), ("one", Some(own("7!")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("a.b"), par("userId"), lit("a.b")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { callbacks: map([(own("cb-1"), CallbackObject { paths: vec![(Path(vec![par("orderId")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { description: Some(own("")), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), callbacks: map([(own("cb2"), CallbackObject { paths: vec![] }), (own("cb-3"), CallbackObject { paths: vec![(Path(vec![par("some_id4"), lit("$x:y"), par("itemKey")]), PathValue { summary: Some(own("")), parameters: map([(own("some_id4"), param(ParameterIn::Path, true, rf(0))), (own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Q6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::HEAD, Operation { tags: strs(&["snake_case"]), deprecated: g, request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: rf(0) }), operation_id: Some(t.clone()), summary: Some(v.clone()), description: Some(own("lit")), parameters: map([(own("X-H7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![map([(own("whole"), strs(&[])), (own("basic"), strs(&[]))]), map([(own("z"), strs(&["r"]))])], responses: map([(304u16, Response { description: own(""), schema: Some(rf(0)) }), (400u16, Response { description: own("Bad Request"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { summary: Some(t.clone()), description: Some(v.clone()), tags: strs(&["snake_case", "one"]), parameters: map([(own("q8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(string()) }), (own("X-H9") + s, OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: !f, schema: Some(list(rf(1))) }), (own("Some Header 10") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: Some(own("")), required: true, schema: rf(0) }), deprecated: true, operation_id: Some(own("")), security: vec![], responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(ModelReference::Link(own("Given"))) }), (99u16, Response { description: own(""), schema: Some(unit()) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { security: vec![map([(own("lit_a"), strs(&[]))]), map([(own("lit_a"), strs(&["b", "a"])), (own("z"), strs(&["a", "a", ""]))])], request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: rf(0) }), responses: map([(200u16, Response { description: own("lit"), schema: None }), (460u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), operation_id: Some(t.clone()), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() })] })]), description: Some(own("lit")), deprecated: true, security: vec![map([(own("whole"), strs(&[])), (own("z"), strs(&["b", "a"])), (own("lit b"), strs(&[]))]), map([(own("z"), strs(&[]))])], parameters: map([(own("h11") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v))]),
        },
    )
}

fn d24(decide: fn(&Opg, &Want)) {
    tag("24");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { version: t.clone() }, servers: { "x", u(u), "https://a.b/c"("x"), u(s), }, security_schemes: { keyed }, paths: { ({id1: UserId}): {  }, ({id2: deep::er::ItemKey} / ""): { summary: "other text", OPTIONS: { security: { "z", }, callbacks: { cb4: { ({id5: String} / UserId / deep::er::ItemKey): { parameters: { (query camelQ6: Payload): { deprecated: g, required: !f, schema: Vec<Payload> }, (header format!("h7{}", s)): { schema: UserId, deprecated: f, description: "", }, (query q8: crate::kit::UserId): {  } }, OPTIONS: { 404: None, parameters: { (header String::from("Some Header 9")): { required: !f, deprecated: g, description: "lit", schema: Vec<UserId>, }, (header "X-H10"): { deprecated: !f, description: t.clone(), schema: deep::er::ItemKey, required: f, }, (query q11: Vec<Payload>), }, security: {  }, summary: u, operationId: s, tags: { Three, }, }, HEAD: { 599("ünïcode"): (), callbacks: { cb14: {  } }, body: { description: "{x}", schema: deep::OrderId, }, summary: "a \"b\" {c}", security: { keyed && basic["b", "a"] }, parameters: { (header format!("h12{}", s)), (header "Some Header 13"): { schema: Vec<Payload>, deprecated: f, description: t.clone(), required: false }, }, operationId: "lit", tags: { one }, description: &t, deprecated: true, }, }, (crate::kit::UserId / "" / "$x:y"): { GET: { summary: u, callbacks: { cb15: { ({some_id16: Payload} / {Id17: Payload}): { parameters: { (header format!("Some Header 18{}", s)): {  }, }, } }, }, deprecated: true, tags: { two, one, snake_case, }, 200: None }, summary: "", parameters: {  }, } }, }, deprecated: true, 401("ünïcode"): { Some(ModelReference::Link(own("Given"))) } }, parameters: { (header format!("X-H3{}", s)): {  } }, HEAD: { summary: "lit", description: s, parameters: { (header "h19"): {  }, (header String::from("Some Header 20")), (query some_q21: deep::er::ItemKey): { description: &t, } }, }, description: "{x}", } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![],
            servers: vec![(own("x"), None), (v.clone(), Some(v.clone())), (own("https://a.b/c"), Some(own("x"))), (v.clone(), Some(t.clone()))],
            paths: vec![(Path(vec![par("id1")]), PathValue { parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() }), (Path(vec![par("id2"), lit("")]), PathValue { summary: Some(own("other text")), description: Some(own("{x}")), parameters: map([(own("id2"), param(ParameterIn::Path, true, rf(0))), (own("X-H3") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::OPTIONS, Operation { deprecated: true, callbacks: map([(own("cb4"), CallbackObject { paths: vec![(Path(vec![par("id5"), par("userId"), par("itemKey")]), PathValue { parameters: map([(own("id5"), param(ParameterIn::Path, true, string())), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("camelQ6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: !f, deprecated: g, schema: Some(list(rf(1))) }), (own("h7") + s, OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: f, schema: Some(rf(0)) }), (own("q8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { security: vec![], operation_id: Some(t.clone()), tags: strs(&["Three"]), summary: Some(v.clone()), parameters: map([(own("Some Header 9"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: !f, deprecated: g, schema: Some(list(rf(0))) }), (own("X-H10"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: f, deprecated: !f, schema: Some(rf(0)) }), (own("q11"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), responses: map([(404u16, Response { description: own("Not Found"), schema: None })]), ..Default::default() }), (HttpMethod::HEAD, Operation { security: vec![map([(own("keyed"), strs(&[])), (own("basic"), strs(&["b", "a"]))])], operation_id: Some(own("lit")), parameters: map([(own("h12") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 13"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: false, deprecated: f, schema: Some(list(rf(1))) })]), deprecated: true, request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: rf(1) }), callbacks: map([(own("cb14"), CallbackObject { paths: vec![] })]), tags: strs(&["one"]), description: Some(t.clone()), summary: Some(own("a \"b\" {c}")), responses: map([(599u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("userId"), lit(""), lit("$x:y")]), PathValue { summary: Some(own("")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { deprecated: true, summary: Some(v.clone()), tags: strs(&["two", "one", "snake_case"]), callbacks: map([(own("cb15"), CallbackObject { paths: vec![(Path(vec![par("some_id16"), par("Id17")]), PathValue { parameters: map([(own("some_id16"), param(ParameterIn::Path, true, rf(1))), (own("Id17"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 18") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([]), ..Default::default() })] })]), responses: map([(200u16, Response { description: own("OK"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("z"), strs(&[]))])], responses: map([(401u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { summary: Some(own("lit")), description: Some(t.clone()), parameters: map([(own("h19"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 20"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q21"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d25(decide: fn(&Opg, &Want)) {
    tag("25");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({id1: String} / "{x}" / String): { description: "quote \" here", OPTIONS: { 401("quote \" here"): { Some(ModelReference::Link(own("Given"))) } }, parameters: { (query camelQ2: UserId): { required: false, description: &t, deprecated: true }, (query Q3: crate::kit::UserId), (header "h4"): { description: s, } }, summary: "quote \" here" }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("id1"), lit("{x}"), par("string")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("quote \" here")), parameters: map([(own("id1"), param(ParameterIn::Path, true, string())), (own("string"), param(ParameterIn::Path, true, string())), (own("camelQ2"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: true, schema: Some(rf(0)) }), (own("Q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("h4"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(401u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0],
            schemes: map([]),
        },
    )
}

fn d26(decide: fn(&Opg, &Want)) {
    tag("26");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { z9(s), one(s), snake_case("lit") }, security_schemes: { keyed, (apiKey "Decl 15"): { parameter_in: Cookie, name: u, description: format!("{}!", 7) }, (http "Decl 16"): { description: format!("{}!", 7), scheme: Basic }, }, paths: { (Payload / {id1: String} / deep::OrderId): { parameters: {  }, PATCH: { deprecated: false, }, POST: { body: { required: true, schema: Vec<UserId>, }, tags: {}, summary: "a \"b\" {c}", callbacks: { cb2: { ({id3: UserId}): { OPTIONS: { 204: None, 299: (), tags: { two, Three, snake_case, }, 503: Vec<UserId>, 460("other text"): Payload }, parameters: {  }, PUT: { summary: "a \"b\" {c}", callbacks: { "cb-4": { ("" / "{x}" / "a.b" / "$x:y"): { summary: "lit", HEAD: { deprecated: !f, operationId: &t, 200: { Some(ModelReference::Link(own("Given"))) }, }, } } }, description: "a \"b\" {c}" } }, ("lit" / {some_id5: deep::OrderId} / UserId / String): { description: "other text" } }, }, security: {  } }, TRACE: { tags: {}, security: { "z" && "lit b"["a", "a", ""], whole["a", "a", ""], "basic" && "lit b"["r"], }, parameters: {  }, 401("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, 200: crate::kit::UserId, 403("other text"): (), operationId: "a \"b\" {c}", summary: "a \"b\" {c}", } }, ("quote \" here"): { GET: { operationId: "", 201("ünïcode"): deep::er::ItemKey }, PATCH: { tags: {}, 400: crate::kit::UserId }, POST: { parameters: {  }, tags: { Three, }, callbacks: { onCb6: { ({Id7: deep::OrderId} / {some_id8: deep::OrderId} / "quote \" here" / "quote \" here"): { DELETE: { 201: Payload }, parameters: { (query Q9: crate::kit::UserId), (query camelQ10: Payload) }, GET: { operationId: &t, 403(""): Payload, 99: None, 409("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, description: "lit", parameters: { (header "Some Header 11"): { schema: deep::er::ItemKey, deprecated: false, description: &t, }, (header String::from("X-H12")): { required: false, deprecated: true, schema: String }, (query q13: deep::er::ItemKey): { deprecated: true, description: "", required: f, schema: UserId }, }, security: { "basic" && keyed[] && whole, }, summary: "lit" }, } } }, body: { required: true, description: "{x}", schema: Vec<Payload> }, description: "a \"b\" {c}" }, summary: "lit", }, }, info: { version: &t }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![("z9", Some(t.clone())), ("one", Some(t.clone())), ("snake_case", Some(own("lit")))],
            servers: vec![],
            paths: vec![(Path(vec![par("payload"), par("id1"), par("orderId")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("id1"), param(ParameterIn::Path, true, string())), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PATCH, Operation { deprecated: false, responses: map([]), ..Default::default() }), (HttpMethod::TRACE, Operation { operation_id: Some(own("a \"b\" {c}")), summary: Some(own("a \"b\" {c}")), security: vec![map([(own("z"), strs(&[])), (own("lit b"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&[])), (own("lit b"), strs(&["r"]))])], tags: strs(&[]), parameters: map([]), responses: map([(403u16, Response { description: own("other text"), schema: Some(unit()) }), (401u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (200u16, Response { description: own("OK"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { summary: Some(own("a \"b\" {c}")), security: vec![], request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), callbacks: map([(own("cb2"), CallbackObject { paths: vec![(Path(vec![par("id3")]), PathValue { parameters: map([(own("id3"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { tags: strs(&["two", "Three", "snake_case"]), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(list(rf(0))) }), (299u16, Response { description: own(""), schema: Some(unit()) }), (204u16, Response { description: own("No Content"), schema: None }), (460u16, Response { description: own("other text"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::PUT, Operation { callbacks: map([(own("cb-4"), CallbackObject { paths: vec![(Path(vec![lit(""), lit("{x}"), lit("a.b"), lit("$x:y")]), PathValue { summary: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { operation_id: Some(t.clone()), deprecated: !f, responses: map([(200u16, Response { description: own("OK"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("a \"b\" {c}")), description: Some(own("a \"b\" {c}")), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), par("some_id5"), par("userId"), par("string")]), PathValue { description: Some(own("other text")), parameters: map([(own("some_id5"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })] })]), tags: strs(&[]), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("quote \" here")]), PathValue { summary: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { tags: strs(&[]), responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { tags: strs(&["Three"]), description: Some(own("a \"b\" {c}")), callbacks: map([(own("onCb6"), CallbackObject { paths: vec![(Path(vec![par("Id7"), par("some_id8"), lit("quote \" here"), lit("quote \" here")]), PathValue { parameters: map([(own("Id7"), param(ParameterIn::Path, true, rf(1))), (own("some_id8"), param(ParameterIn::Path, true, rf(1))), (own("Q9"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { summary: Some(own("lit")), parameters: map([(own("Some Header 11"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("X-H12"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: false, deprecated: true, schema: Some(string()) }), (own("q13"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: f, deprecated: true, schema: Some(rf(0)) })]), operation_id: Some(t.clone()), description: Some(own("lit")), security: vec![map([(own("basic"), strs(&[])), (own("keyed"), strs(&[])), (own("whole"), strs(&[]))])], responses: map([(409u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (99u16, Response { description: own(""), schema: None }), (403u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: list(rf(1)) }), parameters: map([]), responses: map([]), ..Default::default() }), (HttpMethod::GET, Operation { operation_id: Some(own("")), responses: map([(201u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("Decl 15"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: v.clone(), description: Some(own("7!")) })), (own("Decl 16"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(own("7!")) }))]),
        },
    )
}

fn d27(decide: fn(&Opg, &Want)) {
    tag("27");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (http "decl3"): { scheme: Basic, }, (http "Decl 4"): { scheme: Bearer } }, tags: { two(t.clone()), one(&t), Three }, paths: { ("ünïcode"): { TRACE: { parameters: { (query q1: String), }, tags: {}, deprecated: !f, 202("ünïcode"): None, description: "" }, }, ({Id2: crate::kit::UserId}): {  } }, servers: { ""(s), "", }, info: { version: "", description: "", title: format!("{}!", 7) } };
    decide(
        &o,
        &Want {
            info: Info { title: own("7!"), version: own(""), description: Some(own("")) },
            tags: vec![("two", Some(t.clone())), ("one", Some(t.clone())), ("Three", None)],
            servers: vec![(own(""), Some(t.clone())), (own(""), None)],
            paths: vec![(Path(vec![lit("ünïcode")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { description: Some(own("")), parameters: map([(own("q1"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), tags: strs(&[]), deprecated: !f, responses: map([(202u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id2")]), PathValue { parameters: map([(own("Id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })],
            used: vec![0],
            schemes: map([(own("decl3"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None })), (own("Decl 4"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: None }))]),
        },
    )
}

fn d28(decide: fn(&Opg, &Want)) {
    tag("28");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({Id1: deep::er::ItemKey} / {Id2: crate::kit::UserId} / "" / "other text"): { description: "{x}", PUT: { tags: { two, Three, }, description: u, summary: &t, 202: String } }, (String): { HEAD: { deprecated: false, 301: Box<Payload>, body: { required: false, schema: UserId }, summary: s, }, PUT: {  }, POST: { 422: UserId }, }, ({Id3: UserId} / crate::kit::UserId): { TRACE: { callbacks: { cb4: { ("" / "{x}" / "{x}"): { PATCH: { parameters: { (query camelQ5: UserId): {  }, }, deprecated: true, 400: Box<Payload>, parameters: {  }, callbacks: { "cb-6": {  }, onCb7: { ({some_id8: UserId}): { HEAD: { 301("quote \" here"): (), 202: { Some(ModelReference::Link(own("Given"))) }, summary: "", parameters: { (header "h9"): { description: "", deprecated: true, required: !f, schema: Box<Payload>, } }, deprecated: true, description: "a \"b\" {c}" } }, ({some_id10: deep::er::ItemKey} / crate::kit::UserId): { parameters: { (query q11: String), (query some_q12: UserId): { deprecated: true, description: t.clone(), required: f, schema: deep::er::ItemKey }, (header "Some Header 13"): { schema: Payload, }, }, DELETE: { 1000: deep::OrderId }, } } }, tags: { one }, summary: u, body: { required: false, schema: Payload }, operationId: "lit", description: u, security: {  } }, summary: "ünïcode" }, ("a.b"): { TRACE: { 503: (), tags: { Three }, callbacks: { "cb-16": { ("$x:y"): { description: "quote \" here", POST: { summary: "", tags: { snake_case }, 401: None, operationId: u, 200("{x}"): crate::kit::UserId, body: { schema: Vec<Payload> } }, summary: "{x}" } }, }, operationId: &t, body: UserId, 304("quote \" here"): None, deprecated: false, summary: "", security: { "lit_a", whole, "z"["b", "a"] && "lit b" && "basic"["r"] }, parameters: { (header format!("h14{}", s)), (header String::from("Some Header 15")): {  } }, description: u }, summary: "other text", PUT: { body: { schema: deep::er::ItemKey, description: "", required: true }, 422("quote \" here"): (), summary: "", callbacks: { "cb-17": {  }, cb18: {  }, }, tags: { one } }, description: "quote \" here", } } }, parameters: {  }, description: "", 204: () }, POST: { 1000("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, 599(""): (), 500("quote \" here"): (), tags: { Three, two } }, }, }, security_schemes: { (http "Decl 19"): { description: &t, scheme: Basic }, (http "decl20"): { scheme: Basic }, }, servers: { ""(""), }, tags: { Three(""), one(""), z9("lit"), two("lit") }, info: { version: &t }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![("Three", Some(own(""))), ("one", Some(own(""))), ("z9", Some(own("lit"))), ("two", Some(own("lit")))],
            servers: vec![(own(""), Some(own("")))],
            paths: vec![(Path(vec![par("Id1"), par("Id2"), lit(""), lit("other text")]), PathValue { description: Some(own("{x}")), parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(0))), (own("Id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { summary: Some(t.clone()), description: Some(v.clone()), tags: strs(&["two", "Three"]), responses: map([(202u16, Response { description: own("Accepted"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("string")]), PathValue { parameters: map([(own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PUT, Operation { responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { deprecated: false, request_body: Some(RequestBody { description: None, required: false, schema: rf(0) }), summary: Some(t.clone()), responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([(422u16, Response { description: own("Unprocessable Entity"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id3"), par("userId")]), PathValue { parameters: map([(own("Id3"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([]), description: Some(own("")), callbacks: map([(own("cb4"), CallbackObject { paths: vec![(Path(vec![lit(""), lit("{x}"), lit("{x}")]), PathValue { summary: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { tags: strs(&["one"]), summary: Some(v.clone()), security: vec![], parameters: map([(own("camelQ5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operation_id: Some(own("lit")), request_body: Some(RequestBody { description: None, required: false, schema: rf(1) }), callbacks: map([(own("cb-6"), CallbackObject { paths: vec![] }), (own("onCb7"), CallbackObject { paths: vec![(Path(vec![par("some_id8")]), PathValue { parameters: map([(own("some_id8"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { deprecated: true, parameters: map([(own("h9"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: !f, deprecated: true, schema: Some(rf(1)) })]), description: Some(own("a \"b\" {c}")), summary: Some(own("")), responses: map([(202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) }), (301u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id10"), par("userId")]), PathValue { parameters: map([(own("some_id10"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("q11"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("some_q12"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: f, deprecated: true, schema: Some(rf(0)) }), (own("Some Header 13"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { responses: map([(1000u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), deprecated: true, description: Some(v.clone()), responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("a.b")]), PathValue { summary: Some(own("other text")), description: Some(own("quote \" here")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { description: Some(v.clone()), parameters: map([(own("h14") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 15"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![map([(own("lit_a"), strs(&[]))]), map([(own("whole"), strs(&[]))]), map([(own("z"), strs(&["b", "a"])), (own("lit b"), strs(&[])), (own("basic"), strs(&["r"]))])], request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(own("")), deprecated: false, operation_id: Some(t.clone()), tags: strs(&["Three"]), callbacks: map([(own("cb-16"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { summary: Some(own("{x}")), description: Some(own("quote \" here")), parameters: map([]), operations: map([(HttpMethod::POST, Operation { request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), tags: strs(&["snake_case"]), operation_id: Some(v.clone()), summary: Some(own("")), responses: map([(200u16, Response { description: own("{x}"), schema: Some(rf(0)) }), (401u16, Response { description: own("Unauthorized"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(unit()) }), (304u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() }), (HttpMethod::PUT, Operation { summary: Some(own("")), request_body: Some(RequestBody { description: Some(own("")), required: true, schema: rf(0) }), callbacks: map([(own("cb-17"), CallbackObject { paths: vec![] }), (own("cb18"), CallbackObject { paths: vec![] })]), tags: strs(&["one"]), responses: map([(422u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::POST, Operation { tags: strs(&["Three", "two"]), responses: map([(500u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (599u16, Response { description: own(""), schema: Some(unit()) }), (1000u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("Decl 19"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(t.clone()) })), (own("decl20"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None }))]),
        },
    )
}

fn d29(decide: fn(&Opg, &Want)) {
    tag("29");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("$x:y"): { TRACE: { 301(""): Box<Payload>, body: Payload, 404("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, callbacks: { onCb1: { ({some_id2: Payload} / "$x:y" / {Id3: String}): { HEAD: { 304("{x}"): { Some(ModelReference::Link(own("Given"))) } }, PUT: { callbacks: { onCb4: {  } }, summary: "", tags: {} }, description: "", GET: { tags: {}, summary: "", deprecated: g, description: &t, security: {  }, 400: (), 201("other text"): (), 403(""): None, }, } }, }, 403("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, operationId: &t }, DELETE: { operationId: u, deprecated: g, security: {  }, 204("ünïcode"): None }, }, ("quote \" here"): { TRACE: { tags: {}, parameters: { (query camelQ5: deep::er::ItemKey): { deprecated: f }, (query q6: Payload): {  } }, deprecated: !f, 299: (), 301("ünïcode"): { Some(ModelReference::Link(own("Given"))) } }, }, ("users"): { parameters: { (header String::from("h7")): { description: "lit", deprecated: f, schema: deep::er::ItemKey, required: f, }, }, }, }, info: { version: format!("{}!", 7), title: "a \"b\" {c}" }, tags: { one(""), two(t.clone()), Three }, };
    decide(
        &o,
        &Want {
            info: Info { title: own("a \"b\" {c}"), version: own("7!"), description: None },
            tags: vec![("one", Some(own(""))), ("two", Some(t.clone())), ("Three", None)],
            servers: vec![],
            paths: vec![(Path(vec![lit("$x:y")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), callbacks: map([(own("onCb1"), CallbackObject { paths: vec![(Path(vec![par("some_id2"), lit("$x:y"), par("Id3")]), PathValue { description: Some(own("")), parameters: map([(own("some_id2"), param(ParameterIn::Path, true, rf(1))), (own("Id3"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PUT, Operation { tags: strs(&[]), callbacks: map([(own("onCb4"), CallbackObject { paths: vec![] })]), summary: Some(own("")), responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { responses: map([(304u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { deprecated: g, summary: Some(own("")), tags: strs(&[]), security: vec![], description: Some(t.clone()), responses: map([(201u16, Response { description: own("other text"), schema: Some(unit()) }), (403u16, Response { description: own(""), schema: None }), (400u16, Response { description: own("Bad Request"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), operation_id: Some(t.clone()), responses: map([(403u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (301u16, Response { description: own(""), schema: Some(rf(1)) }), (404u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { operation_id: Some(v.clone()), deprecated: g, security: vec![], responses: map([(204u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("quote \" here")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([(own("camelQ5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: f, schema: Some(rf(0)) }), (own("q6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), tags: strs(&[]), deprecated: !f, responses: map([(299u16, Response { description: own(""), schema: Some(unit()) }), (301u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users")]), PathValue { parameters: map([(own("h7"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: f, deprecated: f, schema: Some(rf(0)) })]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d30(decide: fn(&Opg, &Want)) {
    tag("30");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({Id1: String}): { parameters: { (query q2: Box<Payload>) }, HEAD: { security: { keyed }, body: { required: false, schema: Box<Payload>, description: "" } }, }, ({some_id3: UserId}): { PUT: { parameters: {  }, 403(""): deep::OrderId, deprecated: f, callbacks: { "cb-4": { ("$x:y"): { PUT: { description: s, 409("other text"): None, parameters: {  }, parameters: { (header "h6") }, operationId: "a \"b\" {c}", tags: { one, one, Three } }, description: "ünïcode", parameters: { (query some_q5: Payload) }, OPTIONS: { 299: { Some(ModelReference::Link(own("Given"))) }, }, } } } }, }, (String / "$x:y"): { summary: "other text" } }, tags: { one(format!("{}!", 7)), snake_case(s), two("a \"b\" {c}") }, security_schemes: { (apiKey "Decl 7"): { name: format!("{}!", 7) }, (apiKey "Decl 8"): { name: t.clone(), }, (apiKey "decl9"): { name: format!("{}!", 7), parameter_in: Cookie, description: "lit" }, basic }, servers: { "x"(""), "x", ""(u) } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("one", Some(own("7!"))), ("snake_case", Some(t.clone())), ("two", Some(own("a \"b\" {c}")))],
            servers: vec![(own("x"), Some(own(""))), (own("x"), None), (own(""), Some(v.clone()))],
            paths: vec![(Path(vec![par("Id1")]), PathValue { parameters: map([(own("Id1"), param(ParameterIn::Path, true, string())), (own("q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::HEAD, Operation { security: vec![map([(own("keyed"), strs(&[]))])], request_body: Some(RequestBody { description: Some(own("")), required: false, schema: rf(1) }), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id3")]), PathValue { parameters: map([(own("some_id3"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { callbacks: map([(own("cb-4"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { description: Some(own("ünïcode")), parameters: map([(own("some_q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(299u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PUT, Operation { operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("h6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&["one", "one", "Three"]), description: Some(t.clone()), responses: map([(409u16, Response { description: own("other text"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), parameters: map([]), deprecated: f, responses: map([(403u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("string"), lit("$x:y")]), PathValue { summary: Some(own("other text")), parameters: map([(own("string"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("Decl 7"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: own("7!"), description: None })), (own("Decl 8"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: t.clone(), description: None })), (own("decl9"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: own("7!"), description: Some(own("lit")) }))]),
        },
    )
}

fn d31(decide: fn(&Opg, &Want)) {
    tag("31");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("users" / String / {Id1: crate::kit::UserId}): { summary: "lit", description: "lit", HEAD: { 400: Payload, 202(""): Box<Payload>, body: Vec<Payload>, deprecated: g, 401: Vec<Payload>, callbacks: { "cb-2": { (Payload / "ünïcode"): { OPTIONS: { 599("lit"): None, body: { required: false, schema: UserId, }, 401: Vec<UserId>, callbacks: { cb4: { ("lit" / "{x}" / deep::er::ItemKey / "{x}"): { DELETE: {  }, OPTIONS: { 301("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, }, HEAD: { tags: {}, deprecated: true, 422("lit"): { Some(ModelReference::Link(own("Given"))) }, description: &t, } }, ("lit" / "quote \" here"): { description: "other text", summary: "ünïcode", TRACE: { 460("ünïcode"): (), tags: { two, Three, snake_case, }, security: {  }, 201: Payload, body: crate::kit::UserId, summary: s, description: s, } } } }, 422("lit"): Vec<Payload>, parameters: { (query q3: UserId): { deprecated: true } }, 500("quote \" here"): (), security: { "lit b"["b", "a"], "basic"["a", "a", ""] && whole["b", "a"] }, } }, ("{x}" / "other text" / deep::er::ItemKey / deep::OrderId): { summary: "", POST: { 202("lit"): None, 401("{x}"): { Some(ModelReference::Link(own("Given"))) }, description: "lit", 503("ünïcode"): (), 422("{x}"): Vec<Payload> }, GET: { tags: {}, 99("ünïcode"): () }, parameters: {  }, PUT: { body: { description: "lit", schema: Box<Payload>, required: true, }, 500: (), operationId: "a \"b\" {c}", 200: deep::er::ItemKey, 460: (), 503(""): { Some(ModelReference::Link(own("Given"))) }, description: "a \"b\" {c}", }, } }, onCb5: { ("$x:y"): { description: "other text", DELETE: { body: { description: "lit", required: true, schema: deep::er::ItemKey }, summary: s, 403: deep::er::ItemKey, tags: {}, 599("quote \" here"): deep::er::ItemKey }, GET: {  }, TRACE: { 403: (), 500("lit"): (), callbacks: { cb6: { ({id7: deep::er::ItemKey} / "" / crate::kit::UserId): { POST: { summary: "a \"b\" {c}", deprecated: !f, tags: { Three, snake_case, Three }, 503(""): None, parameters: { (header String::from("Some Header 8")): { description: &t, required: !f, schema: UserId }, (header String::from("Some Header 9")): { required: !f, deprecated: g, description: &t, }, (query camelQ10: deep::OrderId): { description: "lit", schema: UserId, deprecated: f, } }, operationId: u, security: { "lit_a" && "basic"["b", "a"], "basic", "lit b"[] && "z"[], }, 400("other text"): None, body: { description: "", schema: UserId, required: true, }, description: "a \"b\" {c}" }, } }, "cb-11": { ({some_id12: deep::er::ItemKey} / UserId): { GET: { 400("lit"): (), 301: Payload, 202: () } } }, }, tags: { one, snake_case }, 99: None, 409: Box<Payload> }, summary: "other text", } } } } }, }, tags: { z9(format!("{}!", 7)), snake_case(&t), Three(format!("{}!", 7)), }, security_schemes: { whole, (http "decl14"): { scheme: Bearer, bearer_format: "", } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("z9", Some(own("7!"))), ("snake_case", Some(t.clone())), ("Three", Some(own("7!")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("users"), par("string"), par("Id1")]), PathValue { summary: Some(own("lit")), description: Some(own("lit")), parameters: map([(own("string"), param(ParameterIn::Path, true, string())), (own("Id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), callbacks: map([(own("cb-2"), CallbackObject { paths: vec![(Path(vec![par("payload"), lit("ünïcode")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { parameters: map([(own("q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: true, schema: Some(rf(0)) })]), callbacks: map([(own("cb4"), CallbackObject { paths: vec![(Path(vec![lit("lit"), lit("{x}"), par("itemKey"), lit("{x}")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { description: Some(t.clone()), deprecated: true, tags: strs(&[]), responses: map([(422u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { responses: map([(301u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), lit("quote \" here")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { tags: strs(&["two", "Three", "snake_case"]), summary: Some(t.clone()), description: Some(t.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), security: vec![], responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(1)) }), (460u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: None, required: false, schema: rf(0) }), security: vec![map([(own("lit b"), strs(&["b", "a"]))]), map([(own("basic"), strs(&["a", "a", ""])), (own("whole"), strs(&["b", "a"]))])], responses: map([(422u16, Response { description: own("lit"), schema: Some(list(rf(1))) }), (401u16, Response { description: own("Unauthorized"), schema: Some(list(rf(0))) }), (599u16, Response { description: own("lit"), schema: None }), (500u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("{x}"), lit("other text"), par("itemKey"), par("orderId")]), PathValue { summary: Some(own("")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { description: Some(own("lit")), responses: map([(503u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (422u16, Response { description: own("{x}"), schema: Some(list(rf(1))) }), (401u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) }), (202u16, Response { description: own("lit"), schema: None })]), ..Default::default() }), (HttpMethod::PUT, Operation { request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: rf(1) }), description: Some(own("a \"b\" {c}")), operation_id: Some(own("a \"b\" {c}")), responses: map([(503u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(unit()) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) }), (200u16, Response { description: own("OK"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::GET, Operation { tags: strs(&[]), responses: map([(99u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb5"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { summary: Some(own("other text")), description: Some(own("other text")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { tags: strs(&["one", "snake_case"]), callbacks: map([(own("cb6"), CallbackObject { paths: vec![(Path(vec![par("id7"), lit(""), par("userId")]), PathValue { parameters: map([(own("id7"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { deprecated: !f, tags: strs(&["Three", "snake_case", "Three"]), request_body: Some(RequestBody { description: Some(own("")), required: true, schema: rf(0) }), security: vec![map([(own("lit_a"), strs(&[])), (own("basic"), strs(&["b", "a"]))]), map([(own("basic"), strs(&[]))]), map([(own("lit b"), strs(&[])), (own("z"), strs(&[]))])], summary: Some(own("a \"b\" {c}")), parameters: map([(own("Some Header 8"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 9"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: !f, deprecated: g, schema: Some(string()) }), (own("camelQ10"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: false, deprecated: f, schema: Some(rf(0)) })]), operation_id: Some(v.clone()), description: Some(own("a \"b\" {c}")), responses: map([(503u16, Response { description: own(""), schema: None }), (400u16, Response { description: own("other text"), schema: None })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-11"), CallbackObject { paths: vec![(Path(vec![par("some_id12"), par("userId")]), PathValue { parameters: map([(own("some_id12"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(rf(1)) }), (202u16, Response { description: own("Accepted"), schema: Some(unit()) }), (400u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(99u16, Response { description: own(""), schema: None }), (409u16, Response { description: own("Conflict"), schema: Some(rf(1)) }), (500u16, Response { description: own("lit"), schema: Some(unit()) }), (403u16, Response { description: own("Forbidden"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { tags: strs(&[]), request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: rf(0) }), summary: Some(t.clone()), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) }), (599u16, Response { description: own("quote \" here"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::GET, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })] })]), deprecated: g, responses: map([(400u16, Response { description: own("Bad Request"), schema: Some(rf(1)) }), (401u16, Response { description: own("Unauthorized"), schema: Some(list(rf(1))) }), (202u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("decl14"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: Some(own("")), description: None }))]),
        },
    )
}

fn d32(decide: fn(&Opg, &Want)) {
    tag("32");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { servers: { u, u(s), "x" }, paths: { (deep::OrderId): { OPTIONS: { tags: {}, 503(""): String, deprecated: g, callbacks: { onCb2: { ({Id3: UserId} / "users" / {id4: UserId} / "other text"): { DELETE: { tags: {}, 401(""): (), 403(""): UserId, deprecated: !f, 422: { Some(ModelReference::Link(own("Given"))) }, } }, ("users"): { parameters: { (query q5: crate::kit::UserId): { required: true, deprecated: !f }, (header "Some Header 6"): { schema: UserId }, (query camelQ7: UserId): { required: g, description: format!("{}!", 7), deprecated: !f, schema: Vec<UserId> } }, TRACE: { 400("lit"): { Some(ModelReference::Link(own("Given"))) }, 304: { Some(ModelReference::Link(own("Given"))) }, 401: (), 460("lit"): UserId } } } }, }, parameters: { (header "Some Header 1"): { required: true, description: "lit", schema: deep::er::ItemKey }, }, summary: "ünïcode", }, ("a.b" / {some_id8: Payload} / "users" / "lit"): { TRACE: { 460: { Some(ModelReference::Link(own("Given"))) }, summary: "a \"b\" {c}", }, GET: { 409: (), deprecated: true, body: Vec<Payload>, 500("quote \" here"): (), operationId: "a \"b\" {c}", 301("{x}"): { Some(ModelReference::Link(own("Given"))) }, 400: Box<Payload> }, parameters: { (header format!("X-H9{}", s)): { deprecated: f, schema: deep::er::ItemKey, required: f, description: &t }, }, OPTIONS: { description: s, 503("lit"): { Some(ModelReference::Link(own("Given"))) }, operationId: "lit", 201(""): crate::kit::UserId, summary: &t } }, ("{x}" / crate::kit::UserId): { summary: "quote \" here", parameters: { (query camelQ10: crate::kit::UserId): {  }, (header "Some Header 11"): { deprecated: false, description: format!("{}!", 7), required: true } } }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![(v.clone(), None), (v.clone(), Some(t.clone())), (own("x"), None)],
            paths: vec![(Path(vec![par("orderId")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 1"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { deprecated: g, tags: strs(&[]), callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![par("Id3"), lit("users"), par("id4"), lit("other text")]), PathValue { parameters: map([(own("Id3"), param(ParameterIn::Path, true, rf(0))), (own("id4"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { tags: strs(&[]), deprecated: !f, responses: map([(401u16, Response { description: own(""), schema: Some(unit()) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(ModelReference::Link(own("Given"))) }), (403u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users")]), PathValue { parameters: map([(own("q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: true, deprecated: !f, schema: Some(rf(0)) }), (own("Some Header 6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("camelQ7"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: g, deprecated: !f, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::TRACE, Operation { responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(ModelReference::Link(own("Given"))) }), (400u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) }), (401u16, Response { description: own("Unauthorized"), schema: Some(unit()) }), (460u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(503u16, Response { description: own(""), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("a.b"), par("some_id8"), lit("users"), lit("lit")]), PathValue { parameters: map([(own("some_id8"), param(ParameterIn::Path, true, rf(1))), (own("X-H9") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: f, deprecated: f, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { summary: Some(t.clone()), operation_id: Some(own("lit")), description: Some(t.clone()), responses: map([(201u16, Response { description: own(""), schema: Some(rf(0)) }), (503u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { deprecated: true, operation_id: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), responses: map([(301u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) }), (500u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (400u16, Response { description: own("Bad Request"), schema: Some(rf(1)) }), (409u16, Response { description: own("Conflict"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { summary: Some(own("a \"b\" {c}")), responses: map([(460u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("{x}"), par("userId")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("camelQ10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 11"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d33(decide: fn(&Opg, &Want)) {
    tag("33");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (deep::OrderId): { description: "{x}", parameters: { (query camelQ1: Payload): { deprecated: g, required: false, description: "lit", }, (query q2: String) } }, (crate::kit::UserId): { PUT: { summary: "lit", 301: (), security: { "z"[] && "lit_a"["b", "a"] }, operationId: s, parameters: { (header String::from("Some Header 3")): { deprecated: false, schema: Vec<Payload>, description: "", required: true }, (query some_q4: String): { required: f, schema: Box<Payload>, description: u }, (header String::from("Some Header 5")): { schema: Payload, required: !f }, }, 403: () }, }, ({some_id6: UserId} / {id7: Payload}): { HEAD: { callbacks: { onCb8: { ({Id9: deep::er::ItemKey} / {id10: UserId} / {id11: deep::er::ItemKey}): { summary: "lit" } } }, }, summary: "lit", description: "lit", POST: {  }, }, }, security_schemes: { (apiKey "Decl 12"): { name: "", parameter_in: Query }, basic, whole }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("orderId")]), PathValue { description: Some(own("{x}")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("camelQ1"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: false, deprecated: g, schema: Some(rf(1)) }), (own("q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), operations: map([]), ..Default::default() }), (Path(vec![par("userId")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { security: vec![map([(own("z"), strs(&[])), (own("lit_a"), strs(&["b", "a"]))])], summary: Some(own("lit")), operation_id: Some(t.clone()), parameters: map([(own("Some Header 3"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(list(rf(1))) }), (own("some_q4"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(rf(1)) })]), responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(unit()) }), (403u16, Response { description: own("Forbidden"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id6"), par("id7")]), PathValue { summary: Some(own("lit")), description: Some(own("lit")), parameters: map([(own("some_id6"), param(ParameterIn::Path, true, rf(0))), (own("id7"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { callbacks: map([(own("onCb8"), CallbackObject { paths: vec![(Path(vec![par("Id9"), par("id10"), par("id11")]), PathValue { summary: Some(own("lit")), parameters: map([(own("Id9"), param(ParameterIn::Path, true, rf(0))), (own("id10"), param(ParameterIn::Path, true, rf(0))), (own("id11"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })] })]), responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("Decl 12"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: own(""), description: None }))]),
        },
    )
}

fn d34(decide: fn(&Opg, &Want)) {
    tag("34");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({id1: deep::er::ItemKey} / "{x}" / {Id2: crate::kit::UserId}): { OPTIONS: { parameters: { (query q10: deep::er::ItemKey): { required: false }, (query Q11: deep::OrderId): { description: "a \"b\" {c}", required: false } }, operationId: u, callbacks: { "cb-3": { ({Id4: deep::er::ItemKey} / "ünïcode" / {id5: Payload}): { HEAD: { operationId: "lit", deprecated: !f, 299("lit"): crate::kit::UserId, parameters: { (header String::from("Some Header 9")): { schema: String, description: "a \"b\" {c}", } }, description: "", parameters: { (header String::from("Some Header 6")): { deprecated: true, required: g, schema: String }, (header format!("X-H7{}", s)), (header String::from("Some Header 8")): { deprecated: false, required: false } }, 409: (), body: Box<Payload>, }, description: "", } }, }, description: s, 299: UserId, tags: { two, }, deprecated: false, security: { "basic" }, body: deep::OrderId, summary: "lit" }, DELETE: { 200("lit"): { Some(ModelReference::Link(own("Given"))) }, summary: "lit", }, }, ({Id12: deep::er::ItemKey}): { POST: { description: &t, parameters: { (header "h13"): { schema: deep::OrderId }, (header String::from("Some Header 14")), (header format!("Some Header 15{}", s)) }, 503("ünïcode"): None, summary: "", 204: (), 99("other text"): crate::kit::UserId, 500("lit"): None }, GET: { 202: { Some(ModelReference::Link(own("Given"))) }, tags: { one, Three }, security: {  }, 299: (), callbacks: { cb16: { ("other text" / {id17: String} / "$x:y"): { summary: "lit" } } }, 409: { Some(ModelReference::Link(own("Given"))) } }, description: "{x}", summary: "{x}", }, }, info: { version: "a \"b\" {c}", }, servers: { u(s), s("https://a.b/c"), }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("a \"b\" {c}"), description: None },
            tags: vec![],
            servers: vec![(v.clone(), Some(t.clone())), (t.clone(), Some(own("https://a.b/c")))],
            paths: vec![(Path(vec![par("id1"), lit("{x}"), par("Id2")]), PathValue { parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(0))), (own("Id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { summary: Some(own("lit")), responses: map([(200u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { callbacks: map([(own("cb-3"), CallbackObject { paths: vec![(Path(vec![par("Id4"), lit("ünïcode"), par("id5")]), PathValue { description: Some(own("")), parameters: map([(own("Id4"), param(ParameterIn::Path, true, rf(0))), (own("id5"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { parameters: map([(own("Some Header 6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: g, deprecated: true, schema: Some(string()) }), (own("X-H7") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(string()) }), (own("Some Header 9"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: !f, description: Some(own("")), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), operation_id: Some(own("lit")), responses: map([(299u16, Response { description: own("lit"), schema: Some(rf(0)) }), (409u16, Response { description: own("Conflict"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["two"]), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), deprecated: false, operation_id: Some(v.clone()), security: vec![map([(own("basic"), strs(&[]))])], description: Some(t.clone()), parameters: map([(own("q10"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Q11"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), summary: Some(own("lit")), responses: map([(299u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id12")]), PathValue { summary: Some(own("{x}")), description: Some(own("{x}")), parameters: map([(own("Id12"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { summary: Some(own("")), parameters: map([(own("h13"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 14"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 15") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), description: Some(t.clone()), responses: map([(204u16, Response { description: own("No Content"), schema: Some(unit()) }), (503u16, Response { description: own("ünïcode"), schema: None }), (99u16, Response { description: own("other text"), schema: Some(rf(0)) }), (500u16, Response { description: own("lit"), schema: None })]), ..Default::default() }), (HttpMethod::GET, Operation { tags: strs(&["one", "Three"]), callbacks: map([(own("cb16"), CallbackObject { paths: vec![(Path(vec![lit("other text"), par("id17"), lit("$x:y")]), PathValue { summary: Some(own("lit")), parameters: map([(own("id17"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })] })]), security: vec![], responses: map([(409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) }), (299u16, Response { description: own(""), schema: Some(unit()) }), (202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d35(decide: fn(&Opg, &Want)) {
    tag("35");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { description: t.clone(), title: t.clone(), version: "lit" }, paths: { ({some_id1: String} / "a.b" / deep::er::ItemKey): { GET: { parameters: { (header "X-H3"): { required: true, schema: Vec<UserId>, }, (query Q4: deep::OrderId), (query q5: UserId): {  } }, body: { description: "lit", schema: String, required: true }, description: "lit", tags: {}, parameters: { (query q2: deep::OrderId) }, callbacks: { cb6: { ({id7: UserId}): { HEAD: { 500("quote \" here"): (), 99("ünïcode"): (), body: Vec<Payload>, 301: None, 503("lit"): { Some(ModelReference::Link(own("Given"))) }, security: { "basic"["r"], basic["a", "a", ""], basic }, }, TRACE: { deprecated: f, }, } }, cb8: { ({id9: String} / "quote \" here" / String): { POST: {  }, OPTIONS: { operationId: &t, summary: "", 460("lit"): deep::OrderId, deprecated: false } } } }, security: { basic["r"], keyed, }, summary: u, deprecated: false, operationId: "", }, TRACE: { 403("lit"): Payload, summary: u, 503("ünïcode"): None, 460: (), }, summary: "quote \" here" }, }, security_schemes: { keyed, (http "Decl 11"): { scheme: Bearer }, (apiKey "decl12"): { name: "lit", description: t.clone(), parameter_in: Query }, (http "Decl 13"): { description: "a \"b\" {c}", scheme: Basic }, }, servers: { s("https://a.b/c") } };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: own("lit"), description: Some(t.clone()) },
            tags: vec![],
            servers: vec![(t.clone(), Some(own("https://a.b/c")))],
            paths: vec![(Path(vec![par("some_id1"), lit("a.b"), par("itemKey")]), PathValue { summary: Some(own("quote \" here")), parameters: map([(own("some_id1"), param(ParameterIn::Path, true, string())), (own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { summary: Some(v.clone()), responses: map([(460u16, Response { description: own(""), schema: Some(unit()) }), (403u16, Response { description: own("lit"), schema: Some(rf(1)) }), (503u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() }), (HttpMethod::GET, Operation { parameters: map([(own("q2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("X-H3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(list(rf(0))) }), (own("Q4"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), tags: strs(&[]), operation_id: Some(own("")), deprecated: false, summary: Some(v.clone()), callbacks: map([(own("cb6"), CallbackObject { paths: vec![(Path(vec![par("id7")]), PathValue { parameters: map([(own("id7"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { deprecated: f, responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("basic"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&[]))])], responses: map([(301u16, Response { description: own("Moved Permanently"), schema: None }), (99u16, Response { description: own("ünïcode"), schema: Some(unit()) }), (500u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (503u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb8"), CallbackObject { paths: vec![(Path(vec![par("id9"), lit("quote \" here"), par("string")]), PathValue { parameters: map([(own("id9"), param(ParameterIn::Path, true, string())), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::OPTIONS, Operation { operation_id: Some(t.clone()), summary: Some(own("")), deprecated: false, responses: map([(460u16, Response { description: own("lit"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("keyed"), strs(&[]))])], request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: string() }), description: Some(own("lit")), responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("Decl 11"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: None })), (own("decl12"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: own("lit"), description: Some(t.clone()) })), (own("Decl 13"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(own("a \"b\" {c}")) }))]),
        },
    )
}

fn d36(decide: fn(&Opg, &Want)) {
    tag("36");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (crate::kit::UserId / "other text"): { PATCH: { 401: None, 409("lit"): (), 201: None, 400("other text"): (), body: Box<Payload>, }, }, ({some_id1: deep::OrderId} / crate::kit::UserId): {  }, }, servers: { s(""), u(s), s("https://a.b/c"), "https://a.b/c" }, tags: { two(t.clone()), one(format!("{}!", 7)) }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("two", Some(t.clone())), ("one", Some(own("7!")))],
            servers: vec![(t.clone(), Some(own(""))), (v.clone(), Some(t.clone())), (t.clone(), Some(own("https://a.b/c"))), (own("https://a.b/c"), None)],
            paths: vec![(Path(vec![par("userId"), lit("other text")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PATCH, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(201u16, Response { description: own("Created"), schema: None }), (400u16, Response { description: own("other text"), schema: Some(unit()) }), (409u16, Response { description: own("lit"), schema: Some(unit()) }), (401u16, Response { description: own("Unauthorized"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id1"), par("userId")]), PathValue { parameters: map([(own("some_id1"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d37(decide: fn(&Opg, &Want)) {
    tag("37");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ({Id1: deep::er::ItemKey} / crate::kit::UserId / {some_id2: UserId}): { OPTIONS: { 201: Vec<Payload> }, summary: "other text", }, ("users" / "lit"): { summary: "other text", PATCH: { security: { "lit b", whole["a", "a", ""], whole && "lit_a"["b", "a"] }, deprecated: !f, description: s, 422: deep::OrderId, summary: "a \"b\" {c}", tags: { snake_case, }, callbacks: { cb5: { (deep::OrderId): { TRACE: { 422: { Some(ModelReference::Link(own("Given"))) }, description: "", deprecated: g, 401: { Some(ModelReference::Link(own("Given"))) }, parameters: { (query q8: crate::kit::UserId), (header format!("Some Header 9{}", s)): { required: true, deprecated: !f, schema: Vec<Payload> }, (header String::from("h10")): { deprecated: true } }, callbacks: { onCb11: { (deep::OrderId / Payload): { TRACE: { deprecated: f, parameters: { (query camelQ12: Payload): { schema: Vec<UserId>, required: !f }, (query camelQ13: deep::er::ItemKey): { required: true, description: s, deprecated: true, schema: deep::OrderId, }, }, description: "a \"b\" {c}", tags: {}, body: Box<Payload>, summary: "", 202: (), operationId: &t, parameters: { (query some_q14: crate::kit::UserId): { description: t.clone(), deprecated: !f }, (header "Some Header 15") }, security: { "basic"["b", "a"], whole && "lit_a"["b", "a"] && basic }, } }, (String / crate::kit::UserId / {Id16: UserId} / {some_id17: UserId}): { description: "lit", GET: { parameters: { (header "h18"), (query q19: deep::OrderId): { description: &t }, (header "X-H20"): { schema: deep::er::ItemKey, deprecated: true, required: g, description: "lit", } }, 301("{x}"): (), security: { "z", whole["a", "a", ""] }, tags: { Three, snake_case, snake_case, }, summary: "", }, PUT: { 500: () } } }, }, 460: None, security: { "z"[] && keyed["r"] }, parameters: { (header String::from("Some Header 6")): { required: true, description: "lit", deprecated: g, }, (query camelQ7: UserId): { deprecated: f, description: t.clone(), required: g } }, tags: { snake_case, snake_case, }, summary: u, 201: { Some(ModelReference::Link(own("Given"))) }, operationId: "lit", body: deep::er::ItemKey }, POST: { 503(""): { Some(ModelReference::Link(own("Given"))) } }, summary: "other text", PUT: { 599("ünïcode"): deep::er::ItemKey, summary: s, callbacks: { cb21: {  } }, 409("other text"): deep::er::ItemKey, } } }, }, operationId: s, 301: None, parameters: {  }, body: { description: "quote \" here", schema: UserId, required: true }, 503: { Some(ModelReference::Link(own("Given"))) }, 403: deep::er::ItemKey }, description: "", parameters: { (query Q3: crate::kit::UserId): { description: t.clone(), required: true, deprecated: false }, (header format!("Some Header 4{}", s)): {  }, } } }, security_schemes: { (apiKey "decl22"): { parameter_in: Query, name: "" }, keyed }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("Id1"), par("userId"), par("some_id2")]), PathValue { summary: Some(own("other text")), parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(0))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("some_id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(201u16, Response { description: own("Created"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users"), lit("lit")]), PathValue { summary: Some(own("other text")), description: Some(own("")), parameters: map([(own("Q3"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 4") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { description: Some(t.clone()), operation_id: Some(t.clone()), security: vec![map([(own("lit b"), strs(&[]))]), map([(own("whole"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&[])), (own("lit_a"), strs(&["b", "a"]))])], request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: rf(0) }), tags: strs(&["snake_case"]), parameters: map([]), callbacks: map([(own("cb5"), CallbackObject { paths: vec![(Path(vec![par("orderId")]), PathValue { summary: Some(own("other text")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::TRACE, Operation { tags: strs(&["snake_case", "snake_case"]), parameters: map([(own("Some Header 6"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(string()) }), (own("camelQ7"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: g, deprecated: f, schema: Some(rf(0)) }), (own("q8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 9") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: !f, schema: Some(list(rf(1))) }), (own("h10"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(string()) })]), description: Some(own("")), security: vec![map([(own("z"), strs(&[])), (own("keyed"), strs(&["r"]))])], callbacks: map([(own("onCb11"), CallbackObject { paths: vec![(Path(vec![par("orderId"), par("payload")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([(own("camelQ12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(list(rf(0))) }), (own("camelQ13"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: true, deprecated: true, schema: Some(rf(1)) }), (own("some_q14"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(rf(0)) }), (own("Some Header 15"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), operation_id: Some(t.clone()), tags: strs(&[]), description: Some(own("a \"b\" {c}")), security: vec![map([(own("basic"), strs(&["b", "a"]))]), map([(own("whole"), strs(&[])), (own("lit_a"), strs(&["b", "a"])), (own("basic"), strs(&[]))])], deprecated: f, summary: Some(own("")), responses: map([(202u16, Response { description: own("Accepted"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("string"), par("userId"), par("Id16"), par("some_id17")]), PathValue { description: Some(own("lit")), parameters: map([(own("string"), param(ParameterIn::Path, true, string())), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("Id16"), param(ParameterIn::Path, true, rf(0))), (own("some_id17"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::GET, Operation { parameters: map([(own("h18"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q19"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("X-H20"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: g, deprecated: true, schema: Some(rf(0)) })]), security: vec![map([(own("z"), strs(&[]))]), map([(own("whole"), strs(&["a", "a", ""]))])], summary: Some(own("")), tags: strs(&["Three", "snake_case", "snake_case"]), responses: map([(301u16, Response { description: own("{x}"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(v.clone()), operation_id: Some(own("lit")), deprecated: g, responses: map([(460u16, Response { description: own(""), schema: None }), (401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) }), (201u16, Response { description: own("Created"), schema: Some(ModelReference::Link(own("Given"))) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PUT, Operation { callbacks: map([(own("cb21"), CallbackObject { paths: vec![] })]), summary: Some(t.clone()), responses: map([(409u16, Response { description: own("other text"), schema: Some(rf(0)) }), (599u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([(503u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("a \"b\" {c}")), deprecated: !f, responses: map([(301u16, Response { description: own("Moved Permanently"), schema: None }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(rf(1)) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(ModelReference::Link(own("Given"))) }), (403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("decl22"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: own(""), description: None }))]),
        },
    )
}

fn d38(decide: fn(&Opg, &Want)) {
    tag("38");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (http "decl10"): { description: "", scheme: Basic }, keyed, (apiKey "decl12"): { name: u, parameter_in: Query, description: "" }, }, servers: { u("x"), u }, paths: { ("lit" / "other text" / {id1: UserId} / "$x:y"): { PUT: { 503: Box<Payload>, summary: &t, body: UserId, operationId: u, parameters: { (query camelQ7: Vec<UserId>): { deprecated: g, required: true, }, (header String::from("h8")): { required: !f } }, security: { "z"["r"] && keyed, basic["r"] && whole["a", "a", ""] }, 599("{x}"): None, 401("ünïcode"): None, 422: None }, PATCH: { deprecated: false, operationId: u, callbacks: { onCb2: { ({some_id3: UserId}): {  }, ({Id4: String} / UserId): { summary: "quote \" here", description: "quote \" here", parameters: { (query some_q5: crate::kit::UserId): {  }, (header format!("X-H6{}", s)): { description: "", required: true, }, } } } }, 304: { Some(ModelReference::Link(own("Given"))) }, tags: { snake_case, snake_case }, body: { schema: Box<Payload>, description: "" } }, }, ({Id9: UserId} / "" / "{x}" / "quote \" here"): { DELETE: { security: { basic["a", "a", ""], }, 599("other text"): (), deprecated: g, summary: s, 299("other text"): (), body: { description: "{x}", schema: Payload, required: false } }, } }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![(v.clone(), Some(own("x"))), (v.clone(), None)],
            paths: vec![(Path(vec![lit("lit"), lit("other text"), par("id1"), lit("$x:y")]), PathValue { parameters: map([(own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PATCH, Operation { request_body: Some(RequestBody { description: Some(own("")), required: true, schema: rf(1) }), deprecated: false, callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![par("some_id3")]), PathValue { parameters: map([(own("some_id3"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() }), (Path(vec![par("Id4"), par("userId")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("quote \" here")), parameters: map([(own("Id4"), param(ParameterIn::Path, true, string())), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("some_q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("X-H6") + s, OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([]), ..Default::default() })] })]), operation_id: Some(v.clone()), tags: strs(&["snake_case", "snake_case"]), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PUT, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), operation_id: Some(v.clone()), parameters: map([(own("camelQ7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: true, deprecated: g, schema: Some(list(rf(0))) }), (own("h8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(string()) })]), summary: Some(t.clone()), security: vec![map([(own("z"), strs(&["r"])), (own("keyed"), strs(&[]))]), map([(own("basic"), strs(&["r"])), (own("whole"), strs(&["a", "a", ""]))])], responses: map([(422u16, Response { description: own("Unprocessable Entity"), schema: None }), (401u16, Response { description: own("ünïcode"), schema: None }), (503u16, Response { description: own("Service Unavailable"), schema: Some(rf(1)) }), (599u16, Response { description: own("{x}"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id9"), lit(""), lit("{x}"), lit("quote \" here")]), PathValue { parameters: map([(own("Id9"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { deprecated: g, summary: Some(t.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: rf(1) }), security: vec![map([(own("basic"), strs(&["a", "a", ""]))])], responses: map([(599u16, Response { description: own("other text"), schema: Some(unit()) }), (299u16, Response { description: own("other text"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("decl10"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(own("")) })), (own("decl12"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: v.clone(), description: Some(own("")) }))]),
        },
    )
}

fn d39(decide: fn(&Opg, &Want)) {
    tag("39");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: s, version: "a \"b\" {c}" }, servers: { "https://a.b/c"(s), s(u), "x"(s), "x" }, paths: { ("ünïcode"): { description: "", summary: "ünïcode", parameters: { (header format!("X-H1{}", s)): { deprecated: false, schema: String, description: s }, (query some_q2: Payload): { deprecated: !f, required: !f, schema: deep::er::ItemKey, description: s, } }, POST: { body: { schema: String, }, callbacks: { "cb-3": {  } }, tags: { one, one, Three } } }, ({Id4: deep::OrderId} / UserId): { OPTIONS: { operationId: "a \"b\" {c}" }, description: "ünïcode", POST: { 200(""): None, 599("ünïcode"): None, parameters: { (header format!("Some Header 8{}", s)) }, 401("lit"): (), parameters: { (header "h9"): { description: u, schema: String, deprecated: g, }, }, }, parameters: { (query camelQ5: deep::er::ItemKey), (query camelQ6: Box<Payload>): { schema: Vec<Payload>, description: u, required: true }, (query q7: deep::er::ItemKey): { required: f, deprecated: false, description: "lit", schema: String }, }, } } };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: own("a \"b\" {c}"), description: None },
            tags: vec![],
            servers: vec![(own("https://a.b/c"), Some(t.clone())), (t.clone(), Some(v.clone())), (own("x"), Some(t.clone())), (own("x"), None)],
            paths: vec![(Path(vec![lit("ünïcode")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("")), parameters: map([(own("X-H1") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q2"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: !f, schema: Some(rf(0)) })]), operations: map([(HttpMethod::POST, Operation { callbacks: map([(own("cb-3"), CallbackObject { paths: vec![] })]), tags: strs(&["one", "one", "Three"]), request_body: Some(RequestBody { description: None, required: true, schema: string() }), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id4"), par("userId")]), PathValue { description: Some(own("ünïcode")), parameters: map([(own("Id4"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("camelQ5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ6"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(list(rf(1))) }), (own("q7"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::OPTIONS, Operation { operation_id: Some(own("a \"b\" {c}")), responses: map([]), ..Default::default() }), (HttpMethod::POST, Operation { parameters: map([(own("Some Header 8") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h9"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(string()) })]), responses: map([(599u16, Response { description: own("ünïcode"), schema: None }), (401u16, Response { description: own("lit"), schema: Some(unit()) }), (200u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d40(decide: fn(&Opg, &Want)) {
    tag("40");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { description: format!("{}!", 7) }, tags: { one(format!("{}!", 7)), z9(t.clone()), Three("lit"), two("lit"), snake_case("a \"b\" {c}"), }, paths: { ("$x:y" / "ünïcode"): { parameters: { (query some_q1: Box<Payload>): {  }, (query camelQ2: deep::er::ItemKey): {  }, (header format!("X-H3{}", s)): { required: true, description: &t, deprecated: f, }, }, PATCH: { parameters: { (query camelQ6: deep::OrderId) }, parameters: { (header String::from("X-H4")): { schema: UserId }, (query Q5: Vec<Payload>): { description: format!("{}!", 7), schema: Payload, required: !f, deprecated: false, } }, description: u, security: {  } }, summary: "other text", description: "ünïcode", }, ({some_id7: deep::er::ItemKey}): { HEAD: { callbacks: { cb8: {  }, }, description: "lit", 460: None }, summary: "" }, ("other text" / "$x:y" / String / "a.b"): { description: "{x}" }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: Some(own("7!")) },
            tags: vec![("one", Some(own("7!"))), ("z9", Some(t.clone())), ("Three", Some(own("lit"))), ("two", Some(own("lit"))), ("snake_case", Some(own("a \"b\" {c}")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("$x:y"), lit("ünïcode")]), PathValue { summary: Some(own("other text")), description: Some(own("ünïcode")), parameters: map([(own("some_q1"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("camelQ2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("X-H3") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: f, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { description: Some(v.clone()), security: vec![], parameters: map([(own("X-H4"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("Q5"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(rf(1)) }), (own("camelQ6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id7")]), PathValue { summary: Some(own("")), parameters: map([(own("some_id7"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { description: Some(own("lit")), callbacks: map([(own("cb8"), CallbackObject { paths: vec![] })]), responses: map([(460u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("other text"), lit("$x:y"), par("string"), lit("a.b")]), PathValue { description: Some(own("{x}")), parameters: map([(own("string"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d41(decide: fn(&Opg, &Want)) {
    tag("41");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { Three("a \"b\" {c}"), z9(format!("{}!", 7)), one(u) }, paths: { (Payload): { parameters: { (header String::from("Some Header 1")): {  }, (query q2: crate::kit::UserId): { description: "lit", required: g, schema: Vec<Payload> } } }, ("users" / {id3: crate::kit::UserId} / "other text"): { DELETE: { parameters: { (header String::from("Some Header 4")): { required: g, }, (header "h5") }, body: crate::kit::UserId, parameters: { (query some_q6: Payload), (header format!("X-H7{}", s)): { description: format!("{}!", 7), deprecated: g, schema: Payload }, (header "Some Header 8"), }, callbacks: { onCb9: { ("users" / "$x:y"): { description: "lit" } } }, }, description: "ünïcode", }, ({Id10: Payload}): { description: "", OPTIONS: { 500: (), 99(""): (), 204("lit"): None, callbacks: { cb32: { ({id33: deep::OrderId} / {Id34: deep::OrderId} / "$x:y"): { HEAD: { 403("ünïcode"): () }, POST: { summary: &t, description: u, 422("quote \" here"): Vec<Payload>, deprecated: f, callbacks: { onCb35: { ("ünïcode" / {Id36: deep::OrderId} / Payload): { HEAD: { deprecated: f, operationId: u, description: s, security: { basic["b", "a"] && keyed["b", "a"] && "z"[], keyed["b", "a"], keyed["a", "a", ""] }, 201("lit"): Vec<Payload> } } } }, }, DELETE: { 500: { Some(ModelReference::Link(own("Given"))) }, 1000: deep::OrderId, security: { basic["r"], } } } }, cb37: { ({some_id38: UserId} / "lit" / {Id39: String} / "quote \" here"): { summary: "other text", description: "{x}", } } }, parameters: { (query some_q31: String) }, operationId: "a \"b\" {c}", }, POST: { description: "a \"b\" {c}", 500("quote \" here"): None, 599: deep::er::ItemKey, tags: { one, one, snake_case }, callbacks: { "cb-11": {  }, "cb-12": { ("ünïcode" / "{x}" / "a.b" / "other text"): { HEAD: { operationId: s, 401: (), description: s, tags: { Three, two, }, parameters: { (query camelQ25: Vec<Payload>), (query some_q26: Vec<Payload>) }, summary: "lit", security: { whole && "basic"["b", "a"], whole["a", "a", ""], basic, }, parameters: { (query q27: deep::er::ItemKey): { required: g, description: s, deprecated: g, schema: Vec<UserId> } }, callbacks: { cb18: { ("quote \" here" / {id19: deep::OrderId} / "users" / "a.b"): { PATCH: {  }, parameters: { (header format!("Some Header 20{}", s)): { schema: UserId, }, (header String::from("h21")), (query q22: UserId), }, OPTIONS: { security: {  }, tags: { one, Three }, deprecated: g, description: "lit", 204("quote \" here"): (), operationId: &t, }, GET: { 400("lit"): { Some(ModelReference::Link(own("Given"))) } }, } }, "cb-23": { (deep::OrderId / {Id24: deep::OrderId}): { summary: "ünïcode", parameters: {  } } } }, deprecated: !f, body: { schema: deep::er::ItemKey, required: false }, }, GET: { operationId: "lit", tags: { two, }, deprecated: false, security: { whole["a", "a", ""] && "basic" && "lit b"["r"], "lit_a" && "z" && whole["a", "a", ""], "basic" && keyed }, callbacks: { "cb-13": { ("$x:y" / "ünïcode" / {Id14: Payload} / Payload): { GET: { tags: { snake_case, two }, deprecated: f, body: Box<Payload>, description: s, operationId: "", 400("lit"): { Some(ModelReference::Link(own("Given"))) } }, summary: "ünïcode" } }, cb15: { ("lit"): { description: "{x}", GET: { 299("quote \" here"): crate::kit::UserId, 304: None, }, } } }, summary: &t, parameters: { (query camelQ16: Vec<Payload>): {  }, (header "X-H17"): { schema: Payload }, }, description: &t, 500: deep::OrderId, body: { required: true, schema: deep::er::ItemKey }, }, OPTIONS: { body: { required: true, schema: String, description: "other text", }, security: { keyed[] && "lit b"[], "basic" }, deprecated: false, parameters: { (query Q28: Box<Payload>): { required: true, description: s, }, (header format!("h29{}", s)): { required: g, deprecated: true, schema: Payload, description: "lit" }, (header "X-H30"): { deprecated: !f, } }, operationId: "a \"b\" {c}", } } }, } }, summary: "ünïcode" } }, servers: { s }, info: { version: "a \"b\" {c}", description: format!("{}!", 7), }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("a \"b\" {c}"), description: Some(own("7!")) },
            tags: vec![("Three", Some(own("a \"b\" {c}"))), ("z9", Some(own("7!"))), ("one", Some(v.clone()))],
            servers: vec![(t.clone(), None)],
            paths: vec![(Path(vec![par("payload")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 1"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q2"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: g, deprecated: false, schema: Some(list(rf(1))) })]), operations: map([]), ..Default::default() }), (Path(vec![lit("users"), par("id3"), lit("other text")]), PathValue { description: Some(own("ünïcode")), parameters: map([(own("id3"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), parameters: map([(own("Some Header 4"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(string()) }), (own("h5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q6"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("X-H7") + s, OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: g, schema: Some(rf(1)) }), (own("Some Header 8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), callbacks: map([(own("onCb9"), CallbackObject { paths: vec![(Path(vec![lit("users"), lit("$x:y")]), PathValue { description: Some(own("lit")), parameters: map([]), operations: map([]), ..Default::default() })] })]), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id10")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("")), parameters: map([(own("Id10"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { tags: strs(&["one", "one", "snake_case"]), callbacks: map([(own("cb-11"), CallbackObject { paths: vec![] }), (own("cb-12"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode"), lit("{x}"), lit("a.b"), lit("other text")]), PathValue { parameters: map([]), operations: map([(HttpMethod::GET, Operation { security: vec![map([(own("whole"), strs(&["a", "a", ""])), (own("basic"), strs(&[])), (own("lit b"), strs(&["r"]))]), map([(own("lit_a"), strs(&[])), (own("z"), strs(&[])), (own("whole"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&[])), (own("keyed"), strs(&[]))])], operation_id: Some(own("lit")), description: Some(t.clone()), callbacks: map([(own("cb-13"), CallbackObject { paths: vec![(Path(vec![lit("$x:y"), lit("ünïcode"), par("Id14"), par("payload")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("Id14"), param(ParameterIn::Path, true, rf(1))), (own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), tags: strs(&["snake_case", "two"]), description: Some(t.clone()), deprecated: f, operation_id: Some(own("")), responses: map([(400u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb15"), CallbackObject { paths: vec![(Path(vec![lit("lit")]), PathValue { description: Some(own("{x}")), parameters: map([]), operations: map([(HttpMethod::GET, Operation { responses: map([(299u16, Response { description: own("quote \" here"), schema: Some(rf(0)) }), (304u16, Response { description: own("Not Modified"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["two"]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), deprecated: false, summary: Some(t.clone()), parameters: map([(own("camelQ16"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("X-H17"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(1)) })]), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { description: Some(t.clone()), tags: strs(&["Three", "two"]), callbacks: map([(own("cb18"), CallbackObject { paths: vec![(Path(vec![lit("quote \" here"), par("id19"), lit("users"), lit("a.b")]), PathValue { parameters: map([(own("id19"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 20") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("h21"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q22"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { operation_id: Some(t.clone()), security: vec![], deprecated: g, tags: strs(&["one", "Three"]), description: Some(own("lit")), responses: map([(204u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::GET, Operation { responses: map([(400u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })] }), (own("cb-23"), CallbackObject { paths: vec![(Path(vec![par("orderId"), par("Id24")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("Id24"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })] })]), deprecated: !f, operation_id: Some(t.clone()), security: vec![map([(own("whole"), strs(&[])), (own("basic"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["a", "a", ""]))]), map([(own("basic"), strs(&[]))])], parameters: map([(own("camelQ25"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("some_q26"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("q27"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: g, deprecated: g, schema: Some(list(rf(0))) })]), request_body: Some(RequestBody { description: None, required: false, schema: rf(0) }), summary: Some(own("lit")), responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { parameters: map([(own("Q28"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(rf(1)) }), (own("h29") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: g, deprecated: true, schema: Some(rf(1)) }), (own("X-H30"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: !f, schema: Some(string()) })]), operation_id: Some(own("a \"b\" {c}")), deprecated: false, security: vec![map([(own("keyed"), strs(&[])), (own("lit b"), strs(&[]))]), map([(own("basic"), strs(&[]))])], request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: string() }), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), description: Some(own("a \"b\" {c}")), responses: map([(599u16, Response { description: own(""), schema: Some(rf(0)) }), (500u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { parameters: map([(own("some_q31"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), operation_id: Some(own("a \"b\" {c}")), callbacks: map([(own("cb32"), CallbackObject { paths: vec![(Path(vec![par("id33"), par("Id34"), lit("$x:y")]), PathValue { parameters: map([(own("id33"), param(ParameterIn::Path, true, rf(1))), (own("Id34"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::DELETE, Operation { security: vec![map([(own("basic"), strs(&["r"]))])], responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) }), (1000u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::POST, Operation { deprecated: f, callbacks: map([(own("onCb35"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode"), par("Id36"), par("payload")]), PathValue { parameters: map([(own("Id36"), param(ParameterIn::Path, true, rf(1))), (own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { operation_id: Some(v.clone()), security: vec![map([(own("basic"), strs(&["b", "a"])), (own("keyed"), strs(&["b", "a"])), (own("z"), strs(&[]))]), map([(own("keyed"), strs(&["b", "a"]))]), map([(own("keyed"), strs(&["a", "a", ""]))])], deprecated: f, description: Some(t.clone()), responses: map([(201u16, Response { description: own("lit"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(v.clone()), summary: Some(t.clone()), responses: map([(422u16, Response { description: own("quote \" here"), schema: Some(list(rf(1))) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { responses: map([(403u16, Response { description: own("ünïcode"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb37"), CallbackObject { paths: vec![(Path(vec![par("some_id38"), lit("lit"), par("Id39"), lit("quote \" here")]), PathValue { summary: Some(own("other text")), description: Some(own("{x}")), parameters: map([(own("some_id38"), param(ParameterIn::Path, true, rf(0))), (own("Id39"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })] })]), responses: map([(204u16, Response { description: own("lit"), schema: None }), (99u16, Response { description: own(""), schema: Some(unit()) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d42(decide: fn(&Opg, &Want)) {
    tag("42");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { Three("lit"), one(u), two(&t), z9("a \"b\" {c}") }, servers: { "", ""("x"), s(""), }, info: { description: "a \"b\" {c}" }, paths: { ({some_id1: String}): { PUT: { security: { keyed["a", "a", ""] && "z", "lit b"["b", "a"], whole["a", "a", ""] }, 409: (), tags: {}, body: { schema: String, required: false, }, deprecated: f, operationId: "a \"b\" {c}", }, description: "{x}" }, ("" / "a.b" / "lit" / "lit"): { DELETE: { description: "", summary: "", tags: { two, two }, operationId: "a \"b\" {c}", callbacks: { onCb18: {  }, "cb-19": { ({Id20: crate::kit::UserId} / "" / {Id21: crate::kit::UserId} / "other text"): { parameters: { (query Q22: Box<Payload>): { required: f, schema: Payload, description: u, deprecated: false } } }, ({Id23: Payload} / "ünïcode" / {some_id24: deep::OrderId}): { OPTIONS: { description: "", summary: s }, GET: { security: { keyed["r"], "basic" }, deprecated: false, parameters: { (query camelQ27: String): { description: u, }, (header format!("Some Header 28{}", s)), }, summary: "lit", tags: { snake_case, }, operationId: "lit", body: { description: "{x}", schema: String, }, 403: { Some(ModelReference::Link(own("Given"))) }, callbacks: { onCb29: { ({id30: deep::OrderId} / "{x}" / crate::kit::UserId): { HEAD: { 460(""): None, 403("lit"): (), }, parameters: {  }, description: "quote \" here" } }, onCb31: { ("" / "" / "a.b" / "lit"): { summary: "other text", POST: { 460("{x}"): None, 99: (), tags: { Three, snake_case, two, }, parameters: { (header format!("X-H34{}", s)) } }, parameters: { (query camelQ32: crate::kit::UserId), (header format!("Some Header 33{}", s)): {  } }, description: "{x}", } } }, parameters: { (query Q25: String): { deprecated: false }, (query some_q26: String): { description: "lit" } }, description: "" } } } }, parameters: { (header "h35"): { deprecated: !f, } }, 201("quote \" here"): (), parameters: {  }, security: { "lit_a"["a", "a", ""], }, body: { schema: String, required: false, description: "{x}" }, deprecated: g }, PUT: { 599: (), operationId: s, security: { keyed, keyed["a", "a", ""] && whole, "lit_a"["r"] }, parameters: {  }, 460: None, summary: "lit", deprecated: true, tags: { snake_case, Three, snake_case }, 403("lit"): None, body: Vec<Payload>, description: "", callbacks: { onCb2: { ("lit" / Payload / "other text"): { summary: "ünïcode", HEAD: { tags: { Three, Three, Three } } }, ({id3: UserId} / Payload / {some_id4: UserId}): { parameters: { (query q5: UserId): { description: "" } }, OPTIONS: { description: u, 204(""): UserId } } }, cb6: { ("ünïcode"): { OPTIONS: { tags: { two }, operationId: u, 500("other text"): (), callbacks: { "cb-9": { (Payload): { parameters: { (header format!("X-H10{}", s)), (header String::from("Some Header 11")): { schema: Vec<Payload>, deprecated: true }, (header String::from("Some Header 12")): { required: g, deprecated: !f } }, POST: { 503("lit"): None, 200("ünïcode"): String, 403("lit"): crate::kit::UserId, 304(""): deep::OrderId }, HEAD: { 201("lit"): Vec<Payload>, parameters: { (query Q13: UserId): { deprecated: f, schema: deep::er::ItemKey, description: "lit", required: g }, (query q14: Box<Payload>): { deprecated: !f, schema: String, required: !f, description: &t }, (header format!("X-H15{}", s)) }, 404("other text"): (), summary: &t, deprecated: true, operationId: "a \"b\" {c}", description: u, }, PUT: { 299: UserId, 200: None, 500("ünïcode"): { Some(ModelReference::Link(own("Given"))) } } } }, "cb-16": {  } }, parameters: { (query q7: String), (query some_q8: Vec<UserId>): { description: "lit" } }, 503: deep::OrderId, deprecated: f, }, }, (Payload / UserId / "a.b" / {id17: UserId}): { description: "quote \" here" } }, }, 503: () }, description: "" }, }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: Some(own("a \"b\" {c}")) },
            tags: vec![("Three", Some(own("lit"))), ("one", Some(v.clone())), ("two", Some(t.clone())), ("z9", Some(own("a \"b\" {c}")))],
            servers: vec![(own(""), None), (own(""), Some(own("x"))), (t.clone(), Some(own("")))],
            paths: vec![(Path(vec![par("some_id1")]), PathValue { description: Some(own("{x}")), parameters: map([(own("some_id1"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PUT, Operation { request_body: Some(RequestBody { description: None, required: false, schema: string() }), operation_id: Some(own("a \"b\" {c}")), tags: strs(&[]), deprecated: f, security: vec![map([(own("keyed"), strs(&["a", "a", ""])), (own("z"), strs(&[]))]), map([(own("lit b"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["a", "a", ""]))])], responses: map([(409u16, Response { description: own("Conflict"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit(""), lit("a.b"), lit("lit"), lit("lit")]), PathValue { description: Some(own("")), parameters: map([]), operations: map([(HttpMethod::PUT, Operation { operation_id: Some(t.clone()), callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![lit("lit"), par("payload"), lit("other text")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { tags: strs(&["Three", "Three", "Three"]), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("id3"), par("payload"), par("some_id4")]), PathValue { parameters: map([(own("id3"), param(ParameterIn::Path, true, rf(0))), (own("payload"), param(ParameterIn::Path, true, rf(1))), (own("some_id4"), param(ParameterIn::Path, true, rf(0))), (own("q5"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { description: Some(v.clone()), responses: map([(204u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb6"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode")]), PathValue { parameters: map([]), operations: map([(HttpMethod::OPTIONS, Operation { parameters: map([(own("q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("some_q8"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) })]), deprecated: f, tags: strs(&["two"]), callbacks: map([(own("cb-9"), CallbackObject { paths: vec![(Path(vec![par("payload")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("X-H10") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 11"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(list(rf(1))) }), (own("Some Header 12"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: g, deprecated: !f, schema: Some(string()) })]), operations: map([(HttpMethod::POST, Operation { responses: map([(503u16, Response { description: own("lit"), schema: None }), (304u16, Response { description: own(""), schema: Some(rf(1)) }), (200u16, Response { description: own("ünïcode"), schema: Some(string()) }), (403u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { description: Some(v.clone()), parameters: map([(own("Q13"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: g, deprecated: f, schema: Some(rf(0)) }), (own("q14"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: !f, schema: Some(string()) }), (own("X-H15") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), summary: Some(t.clone()), deprecated: true, operation_id: Some(own("a \"b\" {c}")), responses: map([(404u16, Response { description: own("other text"), schema: Some(unit()) }), (201u16, Response { description: own("lit"), schema: Some(list(rf(1))) })]), ..Default::default() }), (HttpMethod::PUT, Operation { responses: map([(299u16, Response { description: own(""), schema: Some(rf(0)) }), (500u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (200u16, Response { description: own("OK"), schema: None })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-16"), CallbackObject { paths: vec![] })]), operation_id: Some(v.clone()), responses: map([(500u16, Response { description: own("other text"), schema: Some(unit()) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("payload"), par("userId"), lit("a.b"), par("id17")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0))), (own("id17"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })] })]), summary: Some(own("lit")), parameters: map([]), description: Some(own("")), deprecated: true, security: vec![map([(own("keyed"), strs(&[]))]), map([(own("keyed"), strs(&["a", "a", ""])), (own("whole"), strs(&[]))]), map([(own("lit_a"), strs(&["r"]))])], request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), tags: strs(&["snake_case", "Three", "snake_case"]), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: Some(unit()) }), (403u16, Response { description: own("lit"), schema: None }), (599u16, Response { description: own(""), schema: Some(unit()) }), (460u16, Response { description: own(""), schema: None })]), ..Default::default() }), (HttpMethod::DELETE, Operation { tags: strs(&["two", "two"]), deprecated: g, security: vec![map([(own("lit_a"), strs(&["a", "a", ""]))])], callbacks: map([(own("onCb18"), CallbackObject { paths: vec![] }), (own("cb-19"), CallbackObject { paths: vec![(Path(vec![par("Id20"), lit(""), par("Id21"), lit("other text")]), PathValue { parameters: map([(own("Id20"), param(ParameterIn::Path, true, rf(0))), (own("Id21"), param(ParameterIn::Path, true, rf(0))), (own("Q22"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(1)) })]), operations: map([]), ..Default::default() }), (Path(vec![par("Id23"), lit("ünïcode"), par("some_id24")]), PathValue { parameters: map([(own("Id23"), param(ParameterIn::Path, true, rf(1))), (own("some_id24"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { summary: Some(own("lit")), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: string() }), tags: strs(&["snake_case"]), operation_id: Some(own("lit")), parameters: map([(own("Q25"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("some_q26"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("camelQ27"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("Some Header 28") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), callbacks: map([(own("onCb29"), CallbackObject { paths: vec![(Path(vec![par("id30"), lit("{x}"), par("userId")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("id30"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { responses: map([(460u16, Response { description: own(""), schema: None }), (403u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb31"), CallbackObject { paths: vec![(Path(vec![lit(""), lit(""), lit("a.b"), lit("lit")]), PathValue { summary: Some(own("other text")), description: Some(own("{x}")), parameters: map([(own("camelQ32"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("Some Header 33") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::POST, Operation { parameters: map([(own("X-H34") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&["Three", "snake_case", "two"]), responses: map([(460u16, Response { description: own("{x}"), schema: None }), (99u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(own("")), deprecated: false, security: vec![map([(own("keyed"), strs(&["r"]))]), map([(own("basic"), strs(&[]))])], responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { summary: Some(t.clone()), description: Some(own("")), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: string() }), summary: Some(own("")), operation_id: Some(own("a \"b\" {c}")), description: Some(own("")), parameters: map([(own("h35"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: !f, schema: Some(string()) })]), responses: map([(201u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v))]),
        },
    )
}

fn d43(decide: fn(&Opg, &Want)) {
    tag("43");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { servers: { "https://a.b/c"("x"), "x"(s), u, "https://a.b/c"(u), }, paths: { ("lit"): { PATCH: { operationId: "lit", }, PUT: { operationId: &t, body: Payload, tags: { snake_case, one, one }, deprecated: !f, 401(""): () }, summary: "lit", GET: { 400("lit"): { Some(ModelReference::Link(own("Given"))) }, description: s, operationId: "a \"b\" {c}", 403("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, security: { "lit b"["b", "a"], "lit_a", }, } }, ({some_id1: String} / "" / "other text" / {some_id2: UserId}): { DELETE: { body: { description: "quote \" here", schema: crate::kit::UserId }, summary: "lit", 301("quote \" here"): deep::OrderId, description: "" }, } }, tags: { Three("lit") }, info: { title: u, }, };
    decide(
        &o,
        &Want {
            info: Info { title: v.clone(), version: own(""), description: None },
            tags: vec![("Three", Some(own("lit")))],
            servers: vec![(own("https://a.b/c"), Some(own("x"))), (own("x"), Some(t.clone())), (v.clone(), None), (own("https://a.b/c"), Some(v.clone()))],
            paths: vec![(Path(vec![lit("lit")]), PathValue { summary: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::GET, Operation { security: vec![map([(own("lit b"), strs(&["b", "a"]))]), map([(own("lit_a"), strs(&[]))])], description: Some(t.clone()), operation_id: Some(own("a \"b\" {c}")), responses: map([(403u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (400u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { operation_id: Some(own("lit")), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { deprecated: !f, operation_id: Some(t.clone()), tags: strs(&["snake_case", "one", "one"]), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(401u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id1"), lit(""), lit("other text"), par("some_id2")]), PathValue { parameters: map([(own("some_id1"), param(ParameterIn::Path, true, string())), (own("some_id2"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: rf(0) }), summary: Some(own("lit")), description: Some(own("")), responses: map([(301u16, Response { description: own("quote \" here"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d44(decide: fn(&Opg, &Want)) {
    tag("44");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (http "Decl 12"): { scheme: Bearer } }, paths: { (Payload / "users" / "other text"): { TRACE: { deprecated: g, body: { required: false, schema: Payload }, parameters: {  }, 299: (), security: { "lit b"["a", "a", ""], whole["r"], "lit_a", }, operationId: "a \"b\" {c}" }, PUT: {  }, PATCH: { summary: u, 200(""): None, body: Box<Payload>, callbacks: { onCb4: { (deep::OrderId): { summary: "ünïcode", parameters: { (query some_q5: Vec<Payload>), (query camelQ6: Vec<Payload>): { description: s, schema: String, deprecated: f, required: false }, (header format!("Some Header 7{}", s)): { required: f, deprecated: f, description: "a \"b\" {c}" } } } }, }, tags: {}, 202: Vec<UserId>, description: u }, parameters: { (header String::from("Some Header 1")): { schema: UserId, deprecated: false, required: true, }, (query camelQ2: UserId): { schema: Vec<Payload>, required: true }, (query q3: crate::kit::UserId): { description: format!("{}!", 7), schema: deep::er::ItemKey } } }, ({id8: String}): { parameters: { (header format!("X-H9{}", s)): { schema: String, description: &t, }, (header format!("h10{}", s)), (query camelQ11: Vec<Payload>) }, summary: "" }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("payload"), lit("users"), lit("other text")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 1"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("camelQ2"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: true, deprecated: false, schema: Some(list(rf(1))) }), (own("q3"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([]), deprecated: g, operation_id: Some(own("a \"b\" {c}")), security: vec![map([(own("lit b"), strs(&["a", "a", ""]))]), map([(own("whole"), strs(&["r"]))]), map([(own("lit_a"), strs(&[]))])], request_body: Some(RequestBody { description: None, required: false, schema: rf(1) }), responses: map([(299u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { summary: Some(v.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), callbacks: map([(own("onCb4"), CallbackObject { paths: vec![(Path(vec![par("orderId")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("some_q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("camelQ6"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: f, schema: Some(string()) }), (own("Some Header 7") + s, OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Header, required: f, deprecated: f, schema: Some(string()) })]), operations: map([]), ..Default::default() })] })]), description: Some(v.clone()), tags: strs(&[]), responses: map([(200u16, Response { description: own(""), schema: None }), (202u16, Response { description: own("Accepted"), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::PUT, Operation { responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("id8")]), PathValue { summary: Some(own("")), parameters: map([(own("id8"), param(ParameterIn::Path, true, string())), (own("X-H9") + s, OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h10") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("camelQ11"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("Decl 12"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: None }))]),
        },
    )
}

fn d45(decide: fn(&Opg, &Want)) {
    tag("45");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { version: s }, paths: { (deep::er::ItemKey): { OPTIONS: { operationId: "a \"b\" {c}", description: "", body: { schema: String, description: "quote \" here", required: false, }, summary: s, callbacks: { "cb-3": { ({some_id4: deep::OrderId}): { parameters: { (header String::from("Some Header 5")) } } }, cb6: { ("ünïcode"): { PATCH: { summary: "lit", 301: String, body: Vec<Payload>, operationId: &t, callbacks: { cb9: {  } }, deprecated: !f, tags: {}, 400(""): (), security: { "basic", "lit b"[] }, parameters: { (header String::from("h8")) }, 409: Box<Payload>, description: "lit" }, parameters: { (header String::from("X-H7")): { deprecated: false }, }, GET: { security: { "z"["r"], whole["r"], "lit b" && "basic", }, parameters: { (header format!("h10{}", s)): { schema: Box<Payload>, deprecated: true, description: "lit", required: f }, }, 400("lit"): Box<Payload>, 1000: { Some(ModelReference::Link(own("Given"))) }, operationId: "a \"b\" {c}", 301: { Some(ModelReference::Link(own("Given"))) } } } } }, parameters: { (header String::from("h11")), (header String::from("h12")): { description: format!("{}!", 7), required: true, }, }, tags: {}, security: {  }, deprecated: g, 403: UserId }, parameters: { (header "Some Header 1"): { required: f, schema: UserId, deprecated: f }, (header "h2"): { description: "", schema: crate::kit::UserId, } }, }, ("{x}"): { PATCH: { security: { basic["r"], "lit b", whole["b", "a"], }, summary: &t, callbacks: { onCb13: {  }, } }, description: "ünïcode" }, } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: t.clone(), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("itemKey")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Some Header 1"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: f, schema: Some(rf(0)) }), (own("h2"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::OPTIONS, Operation { tags: strs(&[]), callbacks: map([(own("cb-3"), CallbackObject { paths: vec![(Path(vec![par("some_id4")]), PathValue { parameters: map([(own("some_id4"), param(ParameterIn::Path, true, rf(1))), (own("Some Header 5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([]), ..Default::default() })] }), (own("cb6"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode")]), PathValue { parameters: map([(own("X-H7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::PATCH, Operation { security: vec![map([(own("basic"), strs(&[]))]), map([(own("lit b"), strs(&[]))])], summary: Some(own("lit")), deprecated: !f, parameters: map([(own("h8"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&[]), description: Some(own("lit")), operation_id: Some(t.clone()), callbacks: map([(own("cb9"), CallbackObject { paths: vec![] })]), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), responses: map([(400u16, Response { description: own(""), schema: Some(unit()) }), (301u16, Response { description: own("Moved Permanently"), schema: Some(string()) }), (409u16, Response { description: own("Conflict"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("h10") + s, OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: f, deprecated: true, schema: Some(rf(1)) })]), security: vec![map([(own("z"), strs(&["r"]))]), map([(own("whole"), strs(&["r"]))]), map([(own("lit b"), strs(&[])), (own("basic"), strs(&[]))])], responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(ModelReference::Link(own("Given"))) }), (400u16, Response { description: own("lit"), schema: Some(rf(1)) }), (1000u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), security: vec![], parameters: map([(own("h11"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h12"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: g, summary: Some(t.clone()), description: Some(own("")), operation_id: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: Some(own("quote \" here")), required: false, schema: string() }), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("{x}")]), PathValue { description: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { callbacks: map([(own("onCb13"), CallbackObject { paths: vec![] })]), security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("lit b"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"]))])], summary: Some(t.clone()), responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("whole"), whole_scheme(&v)), (own("basic"), basic_scheme(&v))]),
        },
    )
}

fn d46(decide: fn(&Opg, &Want)) {
    tag("46");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (String / "{x}" / {id1: crate::kit::UserId}): {  } }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("string"), lit("{x}"), par("id1")]), PathValue { parameters: map([(own("string"), param(ParameterIn::Path, true, string())), (own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() })],
            used: vec![0],
            schemes: map([]),
        },
    )
}

fn d47(decide: fn(&Opg, &Want)) {
    tag("47");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { security_schemes: { (http "decl69"): { scheme: Bearer, description: "lit" }, }, info: { description: &t }, paths: { ({Id1: Payload} / "" / {Id2: deep::OrderId} / "other text"): { description: "quote \" here", PUT: { 500: deep::OrderId, callbacks: { onCb5: { ({Id6: crate::kit::UserId}): { TRACE: { parameters: { (header format!("X-H8{}", s)), (header "Some Header 9"): {  }, }, 404("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, callbacks: { "cb-10": { ({Id11: String} / "" / "{x}"): { POST: { deprecated: true, parameters: { (query Q12: UserId): { required: f, schema: UserId, }, (query q13: deep::er::ItemKey), (header "h14"): {  }, }, security: { "basic", "lit b"["r"] && basic["b", "a"] }, 200("other text"): (), tags: {}, operationId: "", 400: UserId, summary: "lit", description: "a \"b\" {c}", body: { schema: Vec<UserId>, description: "quote \" here" } }, HEAD: { deprecated: false, parameters: { (query camelQ15: Box<Payload>): { schema: Vec<UserId>, deprecated: false, description: s, required: !f, }, (query Q16: crate::kit::UserId): {  } }, description: "a \"b\" {c}", security: { whole && keyed[], whole["a", "a", ""] && "basic"["r"], keyed["r"] && "z"["b", "a"] }, tags: { two }, }, } } }, security: {  }, body: { description: "lit", schema: String }, }, DELETE: { 1000: { Some(ModelReference::Link(own("Given"))) }, 401: { Some(ModelReference::Link(own("Given"))) }, parameters: { (query some_q7: deep::OrderId): {  } }, 204("quote \" here"): UserId }, parameters: {  }, description: "ünïcode" } }, }, 401: None, parameters: { (query q3: UserId), (query camelQ4: Box<Payload>) }, description: "", 200("ünïcode"): Box<Payload>, operationId: u, tags: { Three, snake_case, two } } }, ("lit" / "ünïcode"): { POST: { security: {  }, operationId: u, deprecated: !f, parameters: { (header "Some Header 17"): { deprecated: true, schema: deep::OrderId, description: u }, (header String::from("h18")) }, description: u, 460(""): (), 304("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, callbacks: { "cb-19": { ({id20: UserId} / {some_id21: deep::er::ItemKey} / {Id22: Payload} / "quote \" here"): { description: "", POST: { 422("other text"): { Some(ModelReference::Link(own("Given"))) }, security: { keyed["a", "a", ""] }, description: &t }, parameters: { (query some_q23: deep::er::ItemKey): { deprecated: true, schema: crate::kit::UserId, required: g, description: &t } } } }, "cb-24": { (Payload / crate::kit::UserId / "$x:y"): { description: "other text", POST: { 400: None, deprecated: false, 202: (), 401("ünïcode"): deep::er::ItemKey, body: { description: "{x}", schema: Vec<UserId>, }, 1000: None, operationId: "a \"b\" {c}" }, PUT: { parameters: {  }, operationId: "", deprecated: f, 1000: UserId, 599: None, summary: "", description: "lit", 409: None, 201("lit"): { Some(ModelReference::Link(own("Given"))) }, }, TRACE: { parameters: {  }, parameters: {  }, body: { schema: deep::OrderId }, 503("ünïcode"): None, callbacks: { cb25: {  } }, 500: { Some(ModelReference::Link(own("Given"))) }, tags: {}, 301("{x}"): { Some(ModelReference::Link(own("Given"))) }, 202("ünïcode"): deep::OrderId, security: { "lit_a" && "z"["a", "a", ""] && "basic", whole["b", "a"] && "lit b"[], } }, }, ("lit" / {Id26: deep::OrderId} / deep::OrderId / {Id27: deep::OrderId}): {  } } }, body: { schema: String, description: "{x}", required: true, }, tags: {}, summary: "" } }, ({Id28: String} / {Id29: deep::OrderId} / {some_id30: Payload}): { DELETE: { 299("other text"): { Some(ModelReference::Link(own("Given"))) }, tags: { one }, callbacks: { cb31: { ("other text" / UserId / {some_id32: crate::kit::UserId} / {id33: crate::kit::UserId}): { GET: { description: "lit", body: UserId, parameters: {  }, summary: u, tags: { two, snake_case, Three }, operationId: "a \"b\" {c}", callbacks: { onCb44: { ("$x:y"): { GET: { operationId: "a \"b\" {c}", parameters: { (header String::from("Some Header 46")): { description: format!("{}!", 7), schema: Vec<Payload> } }, description: s, summary: &t }, HEAD: { body: { description: "", schema: crate::kit::UserId, required: true, }, 401: String, security: { "basic"[], }, deprecated: false, parameters: { (header format!("Some Header 47{}", s)), (header String::from("h48")): { description: "lit", required: false, schema: Box<Payload>, }, (header "Some Header 49"), } }, parameters: { (header String::from("X-H45")): { required: g, deprecated: true, schema: Vec<UserId>, description: s } } }, (Payload): { description: "lit", PUT: { security: { keyed["r"] && whole["b", "a"], }, 304: (), description: "", 503: Vec<UserId>, 404: None }, } }, "cb-50": {  } }, deprecated: true, security: { basic["b", "a"], whole["b", "a"] && basic["r"], keyed[] }, }, HEAD: { description: "lit", 401: { Some(ModelReference::Link(own("Given"))) }, body: { schema: deep::OrderId, description: "quote \" here", required: true, }, deprecated: false, summary: "lit", 503: None, callbacks: { "cb-35": { (deep::er::ItemKey): { DELETE: { 422: { Some(ModelReference::Link(own("Given"))) }, 202: Payload, 204: None, 404: crate::kit::UserId, deprecated: true }, OPTIONS: { tags: { two, two, snake_case, }, 422("{x}"): crate::kit::UserId, parameters: {  }, summary: s, security: { "basic" }, operationId: "a \"b\" {c}" }, POST: { 301("{x}"): None, body: { schema: crate::kit::UserId, description: "other text" }, 201: deep::OrderId, 500("other text"): deep::OrderId, 200: (), description: "" }, parameters: {  } } }, "cb-36": { ("" / "a.b"): { TRACE: { deprecated: !f, body: { schema: String, required: false }, 301(""): deep::er::ItemKey, operationId: u }, parameters: { (header format!("Some Header 37{}", s)): { deprecated: true, }, (header format!("h38{}", s)), (header format!("X-H39{}", s)): { deprecated: !f, schema: Box<Payload>, required: !f } }, description: "other text", summary: "lit" }, ("other text"): { parameters: { (header String::from("h40")): { required: f, description: "a \"b\" {c}", deprecated: true, schema: Vec<UserId> }, }, summary: "ünïcode", TRACE: { parameters: { (header "h41"), (query q42: deep::OrderId): {  }, (header format!("Some Header 43{}", s)), }, security: { whole && "basic"[], whole, }, body: { description: "other text", schema: Box<Payload> }, 599(""): Vec<Payload>, summary: u, 460(""): crate::kit::UserId, description: s, 200("{x}"): None, 500: () }, } } }, }, OPTIONS: { 204: { Some(ModelReference::Link(own("Given"))) }, 301("quote \" here"): None, 400: { Some(ModelReference::Link(own("Given"))) } }, parameters: { (query some_q34: deep::er::ItemKey): {  }, }, } }, onCb51: { ("{x}" / "a.b" / "{x}" / Payload): { DELETE: { 1000("lit"): Payload, callbacks: { cb55: {  } }, operationId: "a \"b\" {c}", 99: deep::OrderId, 403("other text"): { Some(ModelReference::Link(own("Given"))) }, 301("lit"): () }, OPTIONS: { 201("ünïcode"): Vec<UserId>, security: { whole }, description: "", summary: u, 1000(""): (), 202("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, deprecated: f, 503(""): deep::er::ItemKey, parameters: {  }, parameters: { (header "h52"): { description: s, deprecated: true }, (query q53: Box<Payload>): { deprecated: false, required: false, description: "a \"b\" {c}" }, (query some_q54: Payload): { description: "a \"b\" {c}" } } }, POST: { body: Vec<Payload>, parameters: { (header "h56") }, operationId: "lit", tags: { snake_case, Three, snake_case }, callbacks: { cb57: { ("a.b" / "{x}" / "users"): {  } } }, summary: &t, 503: None, description: s, parameters: {  }, security: { whole["b", "a"], "lit_a", }, deprecated: true, 400("lit"): None } }, (""): { GET: { tags: { two, snake_case }, security: { "z"["r"], "basic" && keyed["b", "a"], keyed["r"] }, deprecated: true, operationId: &t, description: "a \"b\" {c}", callbacks: { cb58: { ({id59: Payload} / {Id60: String} / String): { GET: { 400: UserId, 422: None, description: u }, PUT: { security: { "basic" && "lit b"["b", "a"] && whole["r"] }, operationId: u, 304(""): deep::OrderId, description: "", summary: "", }, } }, cb61: { ("$x:y"): { parameters: {  }, TRACE: { 401: (), }, description: "{x}", } }, }, parameters: {  }, 301(""): deep::er::ItemKey, body: deep::OrderId, summary: s, }, DELETE: { 200: () }, OPTIONS: { parameters: { (query q65: String): { required: !f, deprecated: false, schema: String, description: "a \"b\" {c}", }, (header String::from("h66")), (header "Some Header 67") }, description: "", 304: Box<Payload>, body: { description: "other text", schema: deep::er::ItemKey, }, tags: { two, }, deprecated: f, summary: s, callbacks: { onCb68: {  } }, operationId: "lit", parameters: { (query q62: Vec<Payload>): { schema: Box<Payload> }, (query Q63: Vec<Payload>): { schema: Vec<Payload>, deprecated: !f, required: !f, description: t.clone(), }, (header String::from("Some Header 64")) }, security: { keyed["r"], keyed["r"], "basic"[] }, }, } }, } }, HEAD: { 404("quote \" here"): None, 409("ünïcode"): Box<Payload>, 503: Box<Payload> }, PATCH: {  }, } } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: Some(t.clone()) },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![par("Id1"), lit(""), par("Id2"), lit("other text")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(1))), (own("Id2"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { description: Some(own("")), parameters: map([(own("q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("camelQ4"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), tags: strs(&["Three", "snake_case", "two"]), operation_id: Some(v.clone()), callbacks: map([(own("onCb5"), CallbackObject { paths: vec![(Path(vec![par("Id6")]), PathValue { description: Some(own("ünïcode")), parameters: map([(own("Id6"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::DELETE, Operation { parameters: map([(own("some_q7"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), responses: map([(204u16, Response { description: own("quote \" here"), schema: Some(rf(0)) }), (1000u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: Some(own("lit")), required: true, schema: string() }), parameters: map([(own("X-H8") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 9"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), callbacks: map([(own("cb-10"), CallbackObject { paths: vec![(Path(vec![par("Id11"), lit(""), lit("{x}")]), PathValue { parameters: map([(own("Id11"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::POST, Operation { operation_id: Some(own("")), security: vec![map([(own("basic"), strs(&[]))]), map([(own("lit b"), strs(&["r"])), (own("basic"), strs(&["b", "a"]))])], description: Some(own("a \"b\" {c}")), summary: Some(own("lit")), tags: strs(&[]), parameters: map([(own("Q12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(0)) }), (own("q13"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("h14"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: true, request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: list(rf(0)) }), responses: map([(200u16, Response { description: own("other text"), schema: Some(unit()) }), (400u16, Response { description: own("Bad Request"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::HEAD, Operation { tags: strs(&["two"]), deprecated: false, security: vec![map([(own("whole"), strs(&[])), (own("keyed"), strs(&[]))]), map([(own("whole"), strs(&["a", "a", ""])), (own("basic"), strs(&["r"]))]), map([(own("keyed"), strs(&["r"])), (own("z"), strs(&["b", "a"]))])], parameters: map([(own("camelQ15"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(list(rf(0))) }), (own("Q16"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), description: Some(own("a \"b\" {c}")), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), security: vec![], responses: map([(404u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(401u16, Response { description: own("Unauthorized"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(rf(1)) }), (200u16, Response { description: own("ünïcode"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), lit("ünïcode")]), PathValue { parameters: map([]), operations: map([(HttpMethod::POST, Operation { deprecated: !f, parameters: map([(own("Some Header 17"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(rf(1)) }), (own("h18"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), tags: strs(&[]), description: Some(v.clone()), operation_id: Some(v.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: string() }), security: vec![], summary: Some(own("")), callbacks: map([(own("cb-19"), CallbackObject { paths: vec![(Path(vec![par("id20"), par("some_id21"), par("Id22"), lit("quote \" here")]), PathValue { description: Some(own("")), parameters: map([(own("id20"), param(ParameterIn::Path, true, rf(0))), (own("some_id21"), param(ParameterIn::Path, true, rf(0))), (own("Id22"), param(ParameterIn::Path, true, rf(1))), (own("some_q23"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: g, deprecated: true, schema: Some(rf(0)) })]), operations: map([(HttpMethod::POST, Operation { security: vec![map([(own("keyed"), strs(&["a", "a", ""]))])], description: Some(t.clone()), responses: map([(422u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-24"), CallbackObject { paths: vec![(Path(vec![par("payload"), par("userId"), lit("$x:y")]), PathValue { description: Some(own("other text")), parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { callbacks: map([(own("cb25"), CallbackObject { paths: vec![] })]), security: vec![map([(own("lit_a"), strs(&[])), (own("z"), strs(&["a", "a", ""])), (own("basic"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"])), (own("lit b"), strs(&[]))])], parameters: map([]), tags: strs(&[]), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(202u16, Response { description: own("ünïcode"), schema: Some(rf(1)) }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) }), (301u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() }), (HttpMethod::POST, Operation { operation_id: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: list(rf(0)) }), deprecated: false, responses: map([(1000u16, Response { description: own(""), schema: None }), (202u16, Response { description: own("Accepted"), schema: Some(unit()) }), (400u16, Response { description: own("Bad Request"), schema: None }), (401u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::PUT, Operation { operation_id: Some(own("")), description: Some(own("lit")), summary: Some(own("")), parameters: map([]), deprecated: f, responses: map([(409u16, Response { description: own("Conflict"), schema: None }), (201u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) }), (1000u16, Response { description: own(""), schema: Some(rf(0)) }), (599u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("lit"), par("Id26"), par("orderId"), par("Id27")]), PathValue { parameters: map([(own("Id26"), param(ParameterIn::Path, true, rf(1))), (own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("Id27"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })] })]), responses: map([(304u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id28"), par("Id29"), par("some_id30")]), PathValue { parameters: map([(own("Id28"), param(ParameterIn::Path, true, string())), (own("Id29"), param(ParameterIn::Path, true, rf(1))), (own("some_id30"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { responses: map([(404u16, Response { description: own("quote \" here"), schema: None }), (409u16, Response { description: own("ünïcode"), schema: Some(rf(1)) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { callbacks: map([(own("cb31"), CallbackObject { paths: vec![(Path(vec![lit("other text"), par("userId"), par("some_id32"), par("id33")]), PathValue { parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("some_id32"), param(ParameterIn::Path, true, rf(0))), (own("id33"), param(ParameterIn::Path, true, rf(0))), (own("some_q34"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::HEAD, Operation { callbacks: map([(own("cb-35"), CallbackObject { paths: vec![(Path(vec![par("itemKey")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { description: Some(own("")), request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: rf(0) }), responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(1)) }), (500u16, Response { description: own("other text"), schema: Some(rf(1)) }), (301u16, Response { description: own("{x}"), schema: None }), (200u16, Response { description: own("OK"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { summary: Some(t.clone()), tags: strs(&["two", "two", "snake_case"]), operation_id: Some(own("a \"b\" {c}")), parameters: map([]), security: vec![map([(own("basic"), strs(&[]))])], responses: map([(422u16, Response { description: own("{x}"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { deprecated: true, responses: map([(404u16, Response { description: own("Not Found"), schema: Some(rf(0)) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(ModelReference::Link(own("Given"))) }), (202u16, Response { description: own("Accepted"), schema: Some(rf(1)) }), (204u16, Response { description: own("No Content"), schema: None })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-36"), CallbackObject { paths: vec![(Path(vec![lit(""), lit("a.b")]), PathValue { summary: Some(own("lit")), description: Some(own("other text")), parameters: map([(own("Some Header 37") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(string()) }), (own("h38") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H39") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: !f, deprecated: !f, schema: Some(rf(1)) })]), operations: map([(HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: None, required: false, schema: string() }), operation_id: Some(v.clone()), deprecated: !f, responses: map([(301u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("other text")]), PathValue { summary: Some(own("ünïcode")), parameters: map([(own("h40"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Header, required: f, deprecated: true, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::TRACE, Operation { summary: Some(v.clone()), description: Some(t.clone()), parameters: map([(own("h41"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q42"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 43") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: rf(1) }), security: vec![map([(own("whole"), strs(&[])), (own("basic"), strs(&[]))]), map([(own("whole"), strs(&[]))])], responses: map([(460u16, Response { description: own(""), schema: Some(rf(0)) }), (200u16, Response { description: own("{x}"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) }), (599u16, Response { description: own(""), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("lit")), request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: rf(1) }), description: Some(own("lit")), deprecated: false, responses: map([(503u16, Response { description: own("Service Unavailable"), schema: None }), (401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { tags: strs(&["two", "snake_case", "Three"]), parameters: map([]), summary: Some(v.clone()), security: vec![map([(own("basic"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["b", "a"])), (own("basic"), strs(&["r"]))]), map([(own("keyed"), strs(&[]))])], request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), callbacks: map([(own("onCb44"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { parameters: map([(own("X-H45"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: g, deprecated: true, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::GET, Operation { description: Some(t.clone()), summary: Some(t.clone()), operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("Some Header 46"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(list(rf(1))) })]), responses: map([]), ..Default::default() }), (HttpMethod::HEAD, Operation { parameters: map([(own("Some Header 47") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("h48"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Some Header 49"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![map([(own("basic"), strs(&[]))])], request_body: Some(RequestBody { description: Some(own("")), required: true, schema: rf(0) }), deprecated: false, responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("payload")]), PathValue { description: Some(own("lit")), parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { description: Some(own("")), security: vec![map([(own("keyed"), strs(&["r"])), (own("whole"), strs(&["b", "a"]))])], responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(unit()) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(list(rf(0))) }), (404u16, Response { description: own("Not Found"), schema: None })]), ..Default::default() })]), ..Default::default() })] }), (own("cb-50"), CallbackObject { paths: vec![] })]), deprecated: true, operation_id: Some(own("a \"b\" {c}")), description: Some(own("lit")), responses: map([]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { responses: map([(301u16, Response { description: own("quote \" here"), schema: None }), (400u16, Response { description: own("Bad Request"), schema: Some(ModelReference::Link(own("Given"))) }), (204u16, Response { description: own("No Content"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb51"), CallbackObject { paths: vec![(Path(vec![lit("{x}"), lit("a.b"), lit("{x}"), par("payload")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::OPTIONS, Operation { security: vec![map([(own("whole"), strs(&[]))])], deprecated: f, summary: Some(v.clone()), parameters: map([(own("h52"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(string()) }), (own("q53"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("some_q54"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) })]), description: Some(own("")), responses: map([(201u16, Response { description: own("ünïcode"), schema: Some(list(rf(0))) }), (503u16, Response { description: own(""), schema: Some(rf(0)) }), (1000u16, Response { description: own(""), schema: Some(unit()) }), (202u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { callbacks: map([(own("cb55"), CallbackObject { paths: vec![] })]), operation_id: Some(own("a \"b\" {c}")), responses: map([(99u16, Response { description: own(""), schema: Some(rf(1)) }), (403u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) }), (1000u16, Response { description: own("lit"), schema: Some(rf(1)) }), (301u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::POST, Operation { summary: Some(t.clone()), tags: strs(&["snake_case", "Three", "snake_case"]), parameters: map([(own("h56"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![map([(own("whole"), strs(&["b", "a"]))]), map([(own("lit_a"), strs(&[]))])], deprecated: true, description: Some(t.clone()), callbacks: map([(own("cb57"), CallbackObject { paths: vec![(Path(vec![lit("a.b"), lit("{x}"), lit("users")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() })] })]), operation_id: Some(own("lit")), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), responses: map([(503u16, Response { description: own("Service Unavailable"), schema: None }), (400u16, Response { description: own("lit"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("")]), PathValue { parameters: map([]), operations: map([(HttpMethod::DELETE, Operation { responses: map([(200u16, Response { description: own("OK"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::GET, Operation { tags: strs(&["two", "snake_case"]), description: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), operation_id: Some(t.clone()), security: vec![map([(own("z"), strs(&["r"]))]), map([(own("basic"), strs(&[])), (own("keyed"), strs(&["b", "a"]))]), map([(own("keyed"), strs(&["r"]))])], callbacks: map([(own("cb58"), CallbackObject { paths: vec![(Path(vec![par("id59"), par("Id60"), par("string")]), PathValue { parameters: map([(own("id59"), param(ParameterIn::Path, true, rf(1))), (own("Id60"), param(ParameterIn::Path, true, string())), (own("string"), param(ParameterIn::Path, true, string()))]), operations: map([(HttpMethod::PUT, Operation { security: vec![map([(own("basic"), strs(&[])), (own("lit b"), strs(&["b", "a"])), (own("whole"), strs(&["r"]))])], operation_id: Some(v.clone()), description: Some(own("")), summary: Some(own("")), responses: map([(304u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { description: Some(v.clone()), responses: map([(422u16, Response { description: own("Unprocessable Entity"), schema: None }), (400u16, Response { description: own("Bad Request"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb61"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { description: Some(own("{x}")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), deprecated: true, parameters: map([]), summary: Some(t.clone()), responses: map([(301u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { deprecated: f, request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: rf(0) }), tags: strs(&["two"]), parameters: map([(own("q62"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Q63"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: !f, schema: Some(list(rf(1))) }), (own("Some Header 64"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q65"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(string()) }), (own("h66"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 67"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), callbacks: map([(own("onCb68"), CallbackObject { paths: vec![] })]), summary: Some(t.clone()), description: Some(own("")), operation_id: Some(own("lit")), security: vec![map([(own("keyed"), strs(&["r"]))]), map([(own("keyed"), strs(&["r"]))]), map([(own("basic"), strs(&[]))])], responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["one"]), responses: map([(299u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("decl69"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: Some(own("lit")) }))]),
        },
    )
}

fn d48(decide: fn(&Opg, &Want)) {
    tag("48");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("" / Payload / "other text" / {id1: crate::kit::UserId}): { TRACE: { callbacks: { onCb2: { ("{x}"): { POST: { parameters: { (header "h3"), (header String::from("Some Header 4")): { required: !f, description: "", } }, 201: deep::er::ItemKey }, summary: "", } } }, operationId: "", tags: {}, deprecated: false, 200("quote \" here"): None, security: { basic[], "lit_a"["r"] && "basic"["b", "a"] && keyed } } }, ("{x}" / {Id5: String}): { parameters: { (query camelQ6: Payload): { required: false, schema: String, description: "", deprecated: f }, (header "X-H7"): { schema: deep::er::ItemKey }, (header format!("X-H8{}", s)) }, GET: { parameters: { (query camelQ9: Vec<UserId>): {  }, (header format!("h10{}", s)): { deprecated: true }, }, security: { "basic"["r"], "lit b"["b", "a"] && whole["b", "a"] } }, summary: "lit", POST: { 400: { Some(ModelReference::Link(own("Given"))) }, 99: deep::er::ItemKey, }, PUT: { parameters: { (query camelQ11: Box<Payload>): { description: format!("{}!", 7), deprecated: !f }, (query camelQ12: crate::kit::UserId): { schema: Vec<Payload> }, (header String::from("h13")) }, summary: s, tags: { Three, snake_case, }, parameters: { (query camelQ14: String): {  } }, 500: None, } }, }, servers: { "x"("x"), u(""), "x"(u), s("https://a.b/c") }, info: { version: format!("{}!", 7), description: t.clone(), title: "" }, security_schemes: { (apiKey "Decl 15"): { name: format!("{}!", 7), description: t.clone(), parameter_in: Cookie }, whole, (apiKey "decl17"): { description: "lit", name: s }, }, tags: { Three(u), two(&t), one("a \"b\" {c}"), snake_case(&t), z9("lit") } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("7!"), description: Some(t.clone()) },
            tags: vec![("Three", Some(v.clone())), ("two", Some(t.clone())), ("one", Some(own("a \"b\" {c}"))), ("snake_case", Some(t.clone())), ("z9", Some(own("lit")))],
            servers: vec![(own("x"), Some(own("x"))), (v.clone(), Some(own(""))), (own("x"), Some(v.clone())), (t.clone(), Some(own("https://a.b/c")))],
            paths: vec![(Path(vec![lit(""), par("payload"), lit("other text"), par("id1")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("id1"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::TRACE, Operation { operation_id: Some(own("")), deprecated: false, callbacks: map([(own("onCb2"), CallbackObject { paths: vec![(Path(vec![lit("{x}")]), PathValue { summary: Some(own("")), parameters: map([]), operations: map([(HttpMethod::POST, Operation { parameters: map([(own("h3"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Some Header 4"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: !f, deprecated: false, schema: Some(string()) })]), responses: map([(201u16, Response { description: own("Created"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&[]), security: vec![map([(own("basic"), strs(&[]))]), map([(own("lit_a"), strs(&["r"])), (own("basic"), strs(&["b", "a"])), (own("keyed"), strs(&[]))])], responses: map([(200u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("{x}"), par("Id5")]), PathValue { summary: Some(own("lit")), parameters: map([(own("Id5"), param(ParameterIn::Path, true, string())), (own("camelQ6"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Query, required: false, deprecated: f, schema: Some(string()) }), (own("X-H7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(0)) }), (own("X-H8") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::POST, Operation { responses: map([(99u16, Response { description: own(""), schema: Some(rf(0)) }), (400u16, Response { description: own("Bad Request"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("lit b"), strs(&["b", "a"])), (own("whole"), strs(&["b", "a"]))])], parameters: map([(own("camelQ9"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) }), (own("h10") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: true, schema: Some(string()) })]), responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { tags: strs(&["Three", "snake_case"]), parameters: map([(own("camelQ11"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(rf(1)) }), (own("camelQ12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) }), (own("h13"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("camelQ14"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), summary: Some(t.clone()), responses: map([(500u16, Response { description: own("Internal Server Error"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("Decl 15"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: own("7!"), description: Some(t.clone()) })), (own("decl17"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: t.clone(), description: Some(own("lit")) }))]),
        },
    )
}

fn d49(decide: fn(&Opg, &Want)) {
    tag("49");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { info: { title: u }, paths: { ("other text" / "lit"): { POST: {  }, TRACE: { operationId: "lit", parameters: {  }, 202("ünïcode"): crate::kit::UserId, body: { schema: Vec<Payload>, required: true, }, } }, ({Id1: deep::er::ItemKey}): { GET: { 409: String, body: deep::er::ItemKey, summary: &t, 99("ünïcode"): deep::OrderId, }, description: "lit", OPTIONS: { description: s, deprecated: true, callbacks: { cb4: { ("$x:y"): { summary: "ünïcode", PATCH: { tags: { two, Three, }, body: UserId, 401("lit"): UserId, operationId: "a \"b\" {c}", 204: (), deprecated: !f, 404("{x}"): { Some(ModelReference::Link(own("Given"))) }, 201("quote \" here"): { Some(ModelReference::Link(own("Given"))) } }, GET: { body: { schema: crate::kit::UserId }, tags: {}, description: &t, }, PUT: { security: { basic["r"], basic && "lit_a", "basic"[] && keyed["b", "a"] }, body: { required: false, description: "{x}", schema: String, }, 202: Vec<UserId>, }, }, ({some_id5: UserId} / {id6: deep::er::ItemKey} / "a.b"): { OPTIONS: { 500: Vec<Payload>, 1000: None, 401("lit"): None, 299: None }, PATCH: { 204: { Some(ModelReference::Link(own("Given"))) }, 404: Vec<Payload>, parameters: { (query q9: deep::OrderId): { deprecated: true, schema: Vec<Payload> }, (header String::from("X-H10")) }, description: "", callbacks: { onCb11: { ("a.b" / {some_id12: deep::OrderId} / deep::OrderId / {some_id13: deep::er::ItemKey}): { description: "{x}", HEAD: { 460: (), description: u, 599: Vec<UserId>, deprecated: true, summary: s, security: {  }, 301(""): Payload, }, GET: { 409: { Some(ModelReference::Link(own("Given"))) }, 500: (), security: { "z"["b", "a"] && "basic"["a", "a", ""], }, operationId: "lit", 204("lit"): Vec<UserId>, 599("lit"): Box<Payload> }, OPTIONS: { security: {  }, body: { description: "lit", schema: Vec<Payload>, required: false }, summary: "lit", 301(""): { Some(ModelReference::Link(own("Given"))) } } }, ({some_id14: Payload} / {some_id15: UserId} / Payload): { GET: { parameters: { (header String::from("X-H22")), (query some_q23: Vec<Payload>): { schema: Payload, required: g, deprecated: g, description: format!("{}!", 7) } }, tags: { snake_case, snake_case }, body: { required: false, schema: String, description: "quote \" here" }, summary: s, operationId: "lit", deprecated: !f, security: { "basic", whole["b", "a"], basic["r"] && "z"["a", "a", ""] }, description: s, 460(""): () }, PUT: { security: {  }, deprecated: g, body: deep::OrderId, 1000: Payload, parameters: { (header "Some Header 19"), (query some_q20: Box<Payload>): { required: false, schema: crate::kit::UserId, description: s, }, (header "h21"): {  } } }, PATCH: { operationId: u, deprecated: true, tags: { two, Three }, 299: String, parameters: { (query q16: Vec<UserId>), (header "X-H17"): {  }, (header String::from("X-H18")): { required: f }, }, security: {  }, description: s, summary: "", body: crate::kit::UserId, }, } }, }, 422: Vec<Payload>, deprecated: false, 460: Vec<UserId>, parameters: { (header format!("Some Header 7{}", s)): { deprecated: true, required: f }, (query camelQ8: deep::OrderId): { required: !f, schema: Payload, } }, }, GET: { security: { "z"["b", "a"] }, body: { schema: String, }, tags: {}, 304("lit"): None, description: "a \"b\" {c}", deprecated: false }, } }, onCb24: { ("quote \" here"): { parameters: { (header String::from("X-H25")): { description: "", required: false, schema: Payload, }, (query Q26: String): { description: format!("{}!", 7), deprecated: false, required: f }, (query Q27: UserId): { required: f, } } }, ("ünïcode" / ""): { OPTIONS: { 409("lit"): { Some(ModelReference::Link(own("Given"))) } }, } }, }, parameters: {  }, 1000("{x}"): { Some(ModelReference::Link(own("Given"))) }, security: {  }, operationId: u, body: { required: true, schema: Vec<Payload> }, summary: "a \"b\" {c}", tags: {}, }, DELETE: { 460("other text"): Box<Payload>, security: { keyed["r"], keyed["b", "a"], whole["b", "a"] && "lit_a" }, callbacks: { "cb-28": {  }, cb29: { (""): { TRACE: { security: { basic[], keyed && basic[] && "z"["r"], }, 403("lit"): None, description: s, body: { schema: deep::OrderId, description: "quote \" here", required: true }, deprecated: f, operationId: s }, description: "lit", summary: "ünïcode", DELETE: { parameters: { (query some_q30: UserId): { deprecated: g, description: u, required: !f }, (header "Some Header 31") }, deprecated: false, 599: Vec<UserId>, body: { schema: Box<Payload> }, } } } }, 304("{x}"): Payload }, parameters: { (header String::from("X-H2")), (query q3: Vec<UserId>) } }, ("users" / {some_id32: String} / "users"): { description: "" }, }, security_schemes: { basic, (apiKey "decl34"): { parameter_in: Query, name: t.clone() }, (apiKey "decl35"): { name: u, parameter_in: Query }, (apiKey "decl36"): { name: u } }, tags: { Three(""), two("a \"b\" {c}"), one(t.clone()), z9, snake_case(""), } };
    decide(
        &o,
        &Want {
            info: Info { title: v.clone(), version: own(""), description: None },
            tags: vec![("Three", Some(own(""))), ("two", Some(own("a \"b\" {c}"))), ("one", Some(t.clone())), ("z9", None), ("snake_case", Some(own("")))],
            servers: vec![],
            paths: vec![(Path(vec![lit("other text"), lit("lit")]), PathValue { parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { parameters: map([]), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), operation_id: Some(own("lit")), responses: map([(202u16, Response { description: own("ünïcode"), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id1")]), PathValue { description: Some(own("lit")), parameters: map([(own("Id1"), param(ParameterIn::Path, true, rf(0))), (own("X-H2"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::OPTIONS, Operation { parameters: map([]), security: vec![], request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), tags: strs(&[]), deprecated: true, operation_id: Some(v.clone()), callbacks: map([(own("cb4"), CallbackObject { paths: vec![(Path(vec![lit("$x:y")]), PathValue { summary: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::PUT, Operation { security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("basic"), strs(&[])), (own("lit_a"), strs(&[]))]), map([(own("basic"), strs(&[])), (own("keyed"), strs(&["b", "a"]))])], request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: string() }), responses: map([(202u16, Response { description: own("Accepted"), schema: Some(list(rf(0))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { deprecated: !f, operation_id: Some(own("a \"b\" {c}")), tags: strs(&["two", "Three"]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: map([(401u16, Response { description: own("lit"), schema: Some(rf(0)) }), (204u16, Response { description: own("No Content"), schema: Some(unit()) }), (201u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (404u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { tags: strs(&[]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), description: Some(t.clone()), responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id5"), par("id6"), lit("a.b")]), PathValue { parameters: map([(own("some_id5"), param(ParameterIn::Path, true, rf(0))), (own("id6"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(299u16, Response { description: own(""), schema: None }), (401u16, Response { description: own("lit"), schema: None }), (1000u16, Response { description: own(""), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(list(rf(1))) })]), ..Default::default() }), (HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: string() }), tags: strs(&[]), security: vec![map([(own("z"), strs(&["b", "a"]))])], deprecated: false, description: Some(own("a \"b\" {c}")), responses: map([(304u16, Response { description: own("lit"), schema: None })]), ..Default::default() }), (HttpMethod::PATCH, Operation { deprecated: false, description: Some(own("")), parameters: map([(own("Some Header 7") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: true, schema: Some(string()) }), (own("camelQ8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: !f, deprecated: false, schema: Some(rf(1)) }), (own("q9"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: true, schema: Some(list(rf(1))) }), (own("X-H10"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), callbacks: map([(own("onCb11"), CallbackObject { paths: vec![(Path(vec![lit("a.b"), par("some_id12"), par("orderId"), par("some_id13")]), PathValue { description: Some(own("{x}")), parameters: map([(own("some_id12"), param(ParameterIn::Path, true, rf(1))), (own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("some_id13"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::HEAD, Operation { summary: Some(t.clone()), deprecated: true, description: Some(v.clone()), security: vec![], responses: map([(460u16, Response { description: own(""), schema: Some(unit()) }), (599u16, Response { description: own(""), schema: Some(list(rf(0))) }), (301u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { request_body: Some(RequestBody { description: Some(own("lit")), required: false, schema: list(rf(1)) }), security: vec![], summary: Some(own("lit")), responses: map([(301u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { operation_id: Some(own("lit")), security: vec![map([(own("z"), strs(&["b", "a"])), (own("basic"), strs(&["a", "a", ""]))])], responses: map([(500u16, Response { description: own("Internal Server Error"), schema: Some(unit()) }), (599u16, Response { description: own("lit"), schema: Some(rf(1)) }), (204u16, Response { description: own("lit"), schema: Some(list(rf(0))) }), (409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id14"), par("some_id15"), par("payload")]), PathValue { parameters: map([(own("some_id14"), param(ParameterIn::Path, true, rf(1))), (own("some_id15"), param(ParameterIn::Path, true, rf(0))), (own("payload"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PATCH, Operation { parameters: map([(own("q16"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) }), (own("X-H17"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("X-H18"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: false, schema: Some(string()) })]), summary: Some(own("")), deprecated: true, request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), security: vec![], operation_id: Some(v.clone()), description: Some(t.clone()), tags: strs(&["two", "Three"]), responses: map([(299u16, Response { description: own(""), schema: Some(string()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), security: vec![], parameters: map([(own("Some Header 19"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q20"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("h21"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), deprecated: g, responses: map([(1000u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { parameters: map([(own("X-H22"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q23"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: g, deprecated: g, schema: Some(rf(1)) })]), deprecated: !f, summary: Some(t.clone()), tags: strs(&["snake_case", "snake_case"]), description: Some(t.clone()), request_body: Some(RequestBody { description: Some(own("quote \" here")), required: false, schema: string() }), security: vec![map([(own("basic"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"]))]), map([(own("basic"), strs(&["r"])), (own("z"), strs(&["a", "a", ""]))])], operation_id: Some(own("lit")), responses: map([(460u16, Response { description: own(""), schema: Some(unit()) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(204u16, Response { description: own("No Content"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(list(rf(0))) }), (404u16, Response { description: own("Not Found"), schema: Some(list(rf(1))) }), (422u16, Response { description: own("Unprocessable Entity"), schema: Some(list(rf(1))) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb24"), CallbackObject { paths: vec![(Path(vec![lit("quote \" here")]), PathValue { parameters: map([(own("X-H25"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(rf(1)) }), (own("Q26"), OperationParameter { description: Some(own("7!")), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(string()) }), (own("Q27"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(rf(0)) })]), operations: map([]), ..Default::default() }), (Path(vec![lit("ünïcode"), lit("")]), PathValue { parameters: map([]), operations: map([(HttpMethod::OPTIONS, Operation { responses: map([(409u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(t.clone()), summary: Some(own("a \"b\" {c}")), responses: map([(1000u16, Response { description: own("{x}"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { security: vec![map([(own("keyed"), strs(&["r"]))]), map([(own("keyed"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["b", "a"])), (own("lit_a"), strs(&[]))])], callbacks: map([(own("cb-28"), CallbackObject { paths: vec![] }), (own("cb29"), CallbackObject { paths: vec![(Path(vec![lit("")]), PathValue { summary: Some(own("ünïcode")), description: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::TRACE, Operation { security: vec![map([(own("basic"), strs(&[]))]), map([(own("keyed"), strs(&[])), (own("basic"), strs(&[])), (own("z"), strs(&["r"]))])], operation_id: Some(t.clone()), deprecated: f, request_body: Some(RequestBody { description: Some(own("quote \" here")), required: true, schema: rf(1) }), description: Some(t.clone()), responses: map([(403u16, Response { description: own("lit"), schema: None })]), ..Default::default() }), (HttpMethod::DELETE, Operation { deprecated: false, request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), parameters: map([(own("some_q30"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: !f, deprecated: g, schema: Some(rf(0)) }), (own("Some Header 31"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), responses: map([(599u16, Response { description: own(""), schema: Some(list(rf(0))) })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(460u16, Response { description: own("other text"), schema: Some(rf(1)) }), (304u16, Response { description: own("{x}"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), summary: Some(t.clone()), responses: map([(99u16, Response { description: own("ünïcode"), schema: Some(rf(1)) }), (409u16, Response { description: own("Conflict"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users"), par("some_id32"), lit("users")]), PathValue { description: Some(own("")), parameters: map([(own("some_id32"), param(ParameterIn::Path, true, string()))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("decl34"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: None })), (own("decl35"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: v.clone(), description: None })), (own("decl36"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: v.clone(), description: None }))]),
        },
    )
}

fn d50(decide: fn(&Opg, &Want)) {
    tag("50");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { two("a \"b\" {c}"), snake_case(""), z9("a \"b\" {c}"), }, servers: { "https://a.b/c"("https://a.b/c"), }, paths: { ("{x}" / "quote \" here" / deep::OrderId): { HEAD: { summary: "a \"b\" {c}", 500("other text"): { Some(ModelReference::Link(own("Given"))) }, body: deep::er::ItemKey, }, PATCH: { 401: { Some(ModelReference::Link(own("Given"))) }, 304: None, 301(""): deep::er::ItemKey, security: { keyed, "lit_a", }, body: { schema: String, required: false }, callbacks: { onCb1: { ({some_id2: deep::OrderId}): { PATCH: { security: { basic["r"] }, tags: { snake_case, Three, one, }, summary: "a \"b\" {c}", 202: { Some(ModelReference::Link(own("Given"))) } }, GET: { parameters: { (query q3: String): { schema: Box<Payload>, description: "lit", deprecated: true, required: true }, (query camelQ4: deep::er::ItemKey): { description: "a \"b\" {c}", schema: Vec<UserId>, }, (header "X-H5"), }, body: { schema: Payload, description: "other text", required: true }, 401("{x}"): String, deprecated: true, parameters: {  }, }, POST: {  }, summary: "{x}", } } }, 503(""): String, deprecated: f, summary: s, }, }, ({Id6: deep::OrderId}): { description: "quote \" here", } }, security_schemes: { (http "decl7"): { scheme: Basic }, (apiKey "decl8"): { name: s, description: u, parameter_in: Query } }, info: { version: "a \"b\" {c}", description: "a \"b\" {c}" } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own("a \"b\" {c}"), description: Some(own("a \"b\" {c}")) },
            tags: vec![("two", Some(own("a \"b\" {c}"))), ("snake_case", Some(own(""))), ("z9", Some(own("a \"b\" {c}")))],
            servers: vec![(own("https://a.b/c"), Some(own("https://a.b/c")))],
            paths: vec![(Path(vec![lit("{x}"), lit("quote \" here"), par("orderId")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PATCH, Operation { callbacks: map([(own("onCb1"), CallbackObject { paths: vec![(Path(vec![par("some_id2")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("some_id2"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::GET, Operation { parameters: map([(own("q3"), OperationParameter { description: Some(own("lit")), parameter_in: ParameterIn::Query, required: true, deprecated: true, schema: Some(rf(1)) }), (own("camelQ4"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) }), (own("X-H5"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), request_body: Some(RequestBody { description: Some(own("other text")), required: true, schema: rf(1) }), deprecated: true, responses: map([(401u16, Response { description: own("{x}"), schema: Some(string()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { tags: strs(&["snake_case", "Three", "one"]), security: vec![map([(own("basic"), strs(&["r"]))])], summary: Some(own("a \"b\" {c}")), responses: map([(202u16, Response { description: own("Accepted"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::POST, Operation { responses: map([]), ..Default::default() })]), ..Default::default() })] })]), security: vec![map([(own("keyed"), strs(&[]))]), map([(own("lit_a"), strs(&[]))])], summary: Some(t.clone()), request_body: Some(RequestBody { description: None, required: false, schema: string() }), deprecated: f, responses: map([(301u16, Response { description: own(""), schema: Some(rf(0)) }), (401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own(""), schema: Some(string()) }), (304u16, Response { description: own("Not Modified"), schema: None })]), ..Default::default() }), (HttpMethod::HEAD, Operation { summary: Some(own("a \"b\" {c}")), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), responses: map([(500u16, Response { description: own("other text"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id6")]), PathValue { description: Some(own("quote \" here")), parameters: map([(own("Id6"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("keyed"), keyed_scheme(&v)), (own("decl7"), SecurityScheme::Http(HttpSecurityScheme::Basic { description: None })), (own("decl8"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: Some(v.clone()) }))]),
        },
    )
}

fn d51(decide: fn(&Opg, &Want)) {
    tag("51");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { tags: { one(u), Three, snake_case(t.clone()), z9(t.clone()), two(u) }, security_schemes: { keyed }, paths: { ({some_id1: deep::OrderId}): { description: "other text", parameters: {  } } }, servers: { "https://a.b/c"("x"), u, s, s(u) }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("one", Some(v.clone())), ("Three", None), ("snake_case", Some(t.clone())), ("z9", Some(t.clone())), ("two", Some(v.clone()))],
            servers: vec![(own("https://a.b/c"), Some(own("x"))), (v.clone(), None), (t.clone(), None), (t.clone(), Some(v.clone()))],
            paths: vec![(Path(vec![par("some_id1")]), PathValue { description: Some(own("other text")), parameters: map([(own("some_id1"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() })],
            used: vec![1],
            schemes: map([(own("keyed"), keyed_scheme(&v))]),
        },
    )
}

fn d52(decide: fn(&Opg, &Want)) {
    tag("52");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("{x}" / "quote \" here" / "{x}" / {some_id1: deep::OrderId}): { parameters: { (query Q2: Vec<Payload>): { description: u, deprecated: !f, schema: Vec<UserId>, required: false, } }, summary: "quote \" here", description: "{x}", PATCH: { 99: Vec<Payload>, 301: deep::er::ItemKey, 304("other text"): None, }, }, ("$x:y"): { description: "lit", OPTIONS: { 200: { Some(ModelReference::Link(own("Given"))) }, tags: { Three, }, body: { required: true, schema: String, description: "{x}", }, callbacks: { "cb-3": {  } } }, PUT: { 201: (), 422("quote \" here"): (), deprecated: false, 404: None, callbacks: { cb17: { ({id18: Payload}): { parameters: { (query q19: Vec<UserId>): {  }, (header String::from("h20")): { required: false, description: &t }, }, POST: { summary: "", 503: UserId, body: { schema: Vec<UserId>, description: "ünïcode", required: false }, 500(""): None, tags: { Three, }, security: { "basic"[], whole["b", "a"], whole["a", "a", ""] && "lit b", }, 403: (), callbacks: { "cb-22": {  }, "cb-23": { ({Id24: deep::OrderId} / "$x:y" / ""): {  }, ("{x}" / ""): { summary: "quote \" here", description: "{x}", parameters: { (query camelQ25: deep::OrderId), (query camelQ26: UserId): { deprecated: false, required: f, schema: Vec<Payload>, description: "a \"b\" {c}" }, (query camelQ27: Vec<Payload>), }, HEAD: { parameters: { (query camelQ28: UserId): { schema: deep::er::ItemKey, deprecated: f, required: f, }, (header "X-H29"): { description: "", schema: Box<Payload> }, (query q30: UserId) }, security: {  }, 202("lit"): { Some(ModelReference::Link(own("Given"))) }, summary: "", 299("{x}"): deep::OrderId, tags: {}, operationId: "lit", }, GET: { 301: Box<Payload>, tags: { snake_case, }, security: { keyed["r"] && "lit b"["r"], }, summary: &t, }, PATCH: { 460("ünïcode"): { Some(ModelReference::Link(own("Given"))) }, operationId: u, summary: u, security: { "basic"[] && whole && keyed, "lit_a"[], keyed["b", "a"] && "basic", }, 503: crate::kit::UserId, 200(""): None, deprecated: !f, description: "a \"b\" {c}", 409: { Some(ModelReference::Link(own("Given"))) }, } } }, }, description: s, 400: (), deprecated: false, operationId: "a \"b\" {c}", parameters: { (query some_q21: String): { deprecated: true, schema: Box<Payload> } } }, TRACE: { 460(""): { Some(ModelReference::Link(own("Given"))) }, 401: { Some(ModelReference::Link(own("Given"))) }, 503("quote \" here"): String, 99: UserId, body: { description: "{x}", schema: Vec<UserId>, }, }, HEAD: { 403("quote \" here"): (), 204: None } }, ("other text" / deep::er::ItemKey / {Id31: Payload} / ""): { parameters: {  }, HEAD: { 409("lit"): (), description: &t, callbacks: { "cb-32": { ("users"): {  } } }, 1000("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, }, description: "other text" } }, cb33: {  } }, body: { required: true, schema: Vec<Payload> } }, DELETE: { 404: Vec<Payload>, 403("lit"): (), parameters: {  }, 204: None, callbacks: { onCb4: { ("lit"): { description: "quote \" here", }, ("other text"): { GET: { operationId: "", callbacks: { onCb5: { (crate::kit::UserId / "lit" / {id6: crate::kit::UserId}): { parameters: { (header String::from("Some Header 7")), (query camelQ8: String), (query camelQ9: deep::er::ItemKey): { schema: String }, }, summary: "{x}", POST: { 99(""): (), summary: &t, tags: { Three, }, parameters: {  }, body: { description: "{x}", required: true, schema: String, }, deprecated: false, description: u, operationId: &t, security: { keyed[] && "lit b"["a", "a", ""], "lit b"["b", "a"] && "basic" }, 299("lit"): deep::er::ItemKey } }, ({some_id10: crate::kit::UserId}): { parameters: { (header "h11"), (query q12: Payload): { deprecated: true } }, DELETE: { body: deep::OrderId, }, } } }, body: { schema: Vec<Payload>, required: false, description: "{x}" }, tags: { snake_case, snake_case, }, 500: None, deprecated: g, 99: { Some(ModelReference::Link(own("Given"))) }, 304("lit"): (), parameters: { (query Q13: Vec<UserId>): { deprecated: g } }, description: u, security: { "basic" }, 403(""): UserId, summary: "", parameters: { (header "Some Header 14"): { schema: deep::er::ItemKey, required: g, } }, } } }, }, parameters: { (header format!("h15{}", s)): {  }, (query Q16: Payload): { deprecated: !f, } }, } } }, security_schemes: { (apiKey "decl34"): { parameter_in: Query, name: s }, (apiKey "Decl 35"): { name: format!("{}!", 7), parameter_in: Header }, (http "decl36"): { description: s, scheme: Bearer }, (apiKey "Decl 37"): { description: s, name: &t, parameter_in: Query, } }, };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![],
            servers: vec![],
            paths: vec![(Path(vec![lit("{x}"), lit("quote \" here"), lit("{x}"), par("some_id1")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("{x}")), parameters: map([(own("some_id1"), param(ParameterIn::Path, true, rf(1))), (own("Q2"), OperationParameter { description: Some(v.clone()), parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(list(rf(0))) })]), operations: map([(HttpMethod::PATCH, Operation { responses: map([(99u16, Response { description: own(""), schema: Some(list(rf(1))) }), (304u16, Response { description: own("other text"), schema: None }), (301u16, Response { description: own("Moved Permanently"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("$x:y")]), PathValue { description: Some(own("lit")), parameters: map([]), operations: map([(HttpMethod::OPTIONS, Operation { callbacks: map([(own("cb-3"), CallbackObject { paths: vec![] })]), tags: strs(&["Three"]), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: string() }), responses: map([(200u16, Response { description: own("OK"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { callbacks: map([(own("onCb4"), CallbackObject { paths: vec![(Path(vec![lit("lit")]), PathValue { description: Some(own("quote \" here")), parameters: map([]), operations: map([]), ..Default::default() }), (Path(vec![lit("other text")]), PathValue { parameters: map([]), operations: map([(HttpMethod::GET, Operation { summary: Some(own("")), operation_id: Some(own("")), deprecated: g, request_body: Some(RequestBody { description: Some(own("{x}")), required: false, schema: list(rf(1)) }), callbacks: map([(own("onCb5"), CallbackObject { paths: vec![(Path(vec![par("userId"), lit("lit"), par("id6")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("userId"), param(ParameterIn::Path, true, rf(0))), (own("id6"), param(ParameterIn::Path, true, rf(0))), (own("Some Header 7"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("camelQ8"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("camelQ9"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::POST, Operation { deprecated: false, parameters: map([]), tags: strs(&["Three"]), description: Some(v.clone()), operation_id: Some(t.clone()), request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: string() }), summary: Some(t.clone()), security: vec![map([(own("keyed"), strs(&[])), (own("lit b"), strs(&["a", "a", ""]))]), map([(own("lit b"), strs(&["b", "a"])), (own("basic"), strs(&[]))])], responses: map([(99u16, Response { description: own(""), schema: Some(unit()) }), (299u16, Response { description: own("lit"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("some_id10")]), PathValue { parameters: map([(own("some_id10"), param(ParameterIn::Path, true, rf(0))), (own("h11"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("q12"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: true, schema: Some(rf(1)) })]), operations: map([(HttpMethod::DELETE, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([]), ..Default::default() })]), ..Default::default() })] })]), tags: strs(&["snake_case", "snake_case"]), security: vec![map([(own("basic"), strs(&[]))])], parameters: map([(own("Q13"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: g, schema: Some(list(rf(0))) }), (own("Some Header 14"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: g, deprecated: false, schema: Some(rf(0)) })]), description: Some(v.clone()), responses: map([(304u16, Response { description: own("lit"), schema: Some(unit()) }), (403u16, Response { description: own(""), schema: Some(rf(0)) }), (99u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (500u16, Response { description: own("Internal Server Error"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), parameters: map([(own("h15") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("Q16"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: !f, schema: Some(rf(1)) })]), responses: map([(403u16, Response { description: own("lit"), schema: Some(unit()) }), (404u16, Response { description: own("Not Found"), schema: Some(list(rf(1))) }), (204u16, Response { description: own("No Content"), schema: None })]), ..Default::default() }), (HttpMethod::PUT, Operation { callbacks: map([(own("cb17"), CallbackObject { paths: vec![(Path(vec![par("id18")]), PathValue { parameters: map([(own("id18"), param(ParameterIn::Path, true, rf(1))), (own("q19"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(0))) }), (own("h20"), OperationParameter { description: Some(t.clone()), parameter_in: ParameterIn::Header, required: false, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::HEAD, Operation { responses: map([(204u16, Response { description: own("No Content"), schema: None }), (403u16, Response { description: own("quote \" here"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { request_body: Some(RequestBody { description: Some(own("{x}")), required: true, schema: list(rf(0)) }), responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(ModelReference::Link(own("Given"))) }), (460u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("quote \" here"), schema: Some(string()) }), (99u16, Response { description: own(""), schema: Some(rf(0)) })]), ..Default::default() }), (HttpMethod::POST, Operation { tags: strs(&["Three"]), deprecated: false, security: vec![map([(own("basic"), strs(&[]))]), map([(own("whole"), strs(&["b", "a"]))]), map([(own("whole"), strs(&["a", "a", ""])), (own("lit b"), strs(&[]))])], operation_id: Some(own("a \"b\" {c}")), parameters: map([(own("some_q21"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: true, schema: Some(rf(1)) })]), request_body: Some(RequestBody { description: Some(own("ünïcode")), required: false, schema: list(rf(0)) }), callbacks: map([(own("cb-22"), CallbackObject { paths: vec![] }), (own("cb-23"), CallbackObject { paths: vec![(Path(vec![par("Id24"), lit("$x:y"), lit("")]), PathValue { parameters: map([(own("Id24"), param(ParameterIn::Path, true, rf(1)))]), operations: map([]), ..Default::default() }), (Path(vec![lit("{x}"), lit("")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("{x}")), parameters: map([(own("camelQ25"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(1)) }), (own("camelQ26"), OperationParameter { description: Some(own("a \"b\" {c}")), parameter_in: ParameterIn::Query, required: f, deprecated: false, schema: Some(list(rf(1))) }), (own("camelQ27"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), operations: map([(HttpMethod::HEAD, Operation { operation_id: Some(own("lit")), security: vec![], parameters: map([(own("camelQ28"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: f, deprecated: f, schema: Some(rf(0)) }), (own("X-H29"), OperationParameter { description: Some(own("")), parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(rf(1)) }), (own("q30"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), tags: strs(&[]), summary: Some(own("")), responses: map([(299u16, Response { description: own("{x}"), schema: Some(rf(1)) }), (202u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { operation_id: Some(v.clone()), security: vec![map([(own("basic"), strs(&[])), (own("whole"), strs(&[])), (own("keyed"), strs(&[]))]), map([(own("lit_a"), strs(&[]))]), map([(own("keyed"), strs(&["b", "a"])), (own("basic"), strs(&[]))])], summary: Some(v.clone()), deprecated: !f, description: Some(own("a \"b\" {c}")), responses: map([(200u16, Response { description: own(""), schema: None }), (409u16, Response { description: own("Conflict"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(rf(0)) }), (460u16, Response { description: own("ünïcode"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::GET, Operation { summary: Some(t.clone()), tags: strs(&["snake_case"]), security: vec![map([(own("keyed"), strs(&["r"])), (own("lit b"), strs(&["r"]))])], responses: map([(301u16, Response { description: own("Moved Permanently"), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] })]), description: Some(t.clone()), summary: Some(own("")), responses: map([(403u16, Response { description: own("Forbidden"), schema: Some(unit()) }), (503u16, Response { description: own("Service Unavailable"), schema: Some(rf(0)) }), (400u16, Response { description: own("Bad Request"), schema: Some(unit()) }), (500u16, Response { description: own(""), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("other text"), par("itemKey"), par("Id31"), lit("")]), PathValue { description: Some(own("other text")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Id31"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::HEAD, Operation { description: Some(t.clone()), callbacks: map([(own("cb-32"), CallbackObject { paths: vec![(Path(vec![lit("users")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() })] })]), responses: map([(409u16, Response { description: own("lit"), schema: Some(unit()) }), (1000u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] }), (own("cb33"), CallbackObject { paths: vec![] })]), request_body: Some(RequestBody { description: None, required: true, schema: list(rf(1)) }), deprecated: false, responses: map([(201u16, Response { description: own("Created"), schema: Some(unit()) }), (422u16, Response { description: own("quote \" here"), schema: Some(unit()) }), (404u16, Response { description: own("Not Found"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("keyed"), keyed_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("decl34"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: None })), (own("Decl 35"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: own("7!"), description: None })), (own("decl36"), SecurityScheme::Http(HttpSecurityScheme::Bearer { format: None, description: Some(t.clone()) })), (own("Decl 37"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Query, name: t.clone(), description: Some(t.clone()) }))]),
        },
    )
}

fn d53(decide: fn(&Opg, &Want)) {
    tag("53");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { (deep::er::ItemKey / {Id1: crate::kit::UserId}): { GET: { body: { schema: deep::OrderId }, callbacks: { onCb3: { ("other text"): { summary: "quote \" here", HEAD: { 500: { Some(ModelReference::Link(own("Given"))) }, 409("quote \" here"): None, 204: (), 99: deep::OrderId }, description: "ünïcode" } }, onCb4: { ("other text"): { HEAD: { 202: (), security: { "lit_a"["b", "a"] }, 1000: crate::kit::UserId, tags: { one, snake_case, Three } }, PUT: { parameters: {  }, tags: { one, two, two }, 401: None, body: Vec<UserId>, }, DELETE: {  } }, (Payload): { POST: { summary: &t, deprecated: g, body: { description: "ünïcode", schema: deep::er::ItemKey }, 422("ünïcode"): None, 500: { Some(ModelReference::Link(own("Given"))) } }, parameters: { (query some_q5: deep::er::ItemKey) }, } }, }, operationId: "a \"b\" {c}", summary: &t, 204: None }, summary: "{x}", parameters: { (header "X-H2"): { required: f, }, } }, ({Id6: crate::kit::UserId} / deep::OrderId / UserId): { PUT: { 400("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, 503("other text"): deep::er::ItemKey, 1000: String, description: "", operationId: s }, GET: { deprecated: f, body: Box<Payload>, callbacks: { onCb7: { ("ünïcode" / "lit" / {id8: UserId}): {  }, (deep::OrderId / {some_id9: deep::OrderId}): { POST: { security: { "lit_a" && "lit b"["r"], basic[], }, 401: UserId, tags: { Three, Three, Three, }, 301("quote \" here"): { Some(ModelReference::Link(own("Given"))) }, description: s, body: deep::OrderId, operationId: s, 409: Payload, }, OPTIONS: { operationId: s, 460(""): { Some(ModelReference::Link(own("Given"))) }, 409("lit"): (), 200(""): (), tags: {}, }, PATCH: { 301("ünïcode"): None } } }, }, 304: String, }, POST: {  }, } }, tags: { one(format!("{}!", 7)) }, security_schemes: { (apiKey "Decl 10"): { name: s, }, }, info: { title: "lit" }, };
    decide(
        &o,
        &Want {
            info: Info { title: own("lit"), version: own(""), description: None },
            tags: vec![("one", Some(own("7!")))],
            servers: vec![],
            paths: vec![(Path(vec![par("itemKey"), par("Id1")]), PathValue { summary: Some(own("{x}")), parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0))), (own("Id1"), param(ParameterIn::Path, true, rf(0))), (own("X-H2"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: f, deprecated: false, schema: Some(string()) })]), operations: map([(HttpMethod::GET, Operation { operation_id: Some(own("a \"b\" {c}")), summary: Some(t.clone()), callbacks: map([(own("onCb3"), CallbackObject { paths: vec![(Path(vec![lit("other text")]), PathValue { summary: Some(own("quote \" here")), description: Some(own("ünïcode")), parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { responses: map([(409u16, Response { description: own("quote \" here"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) }), (204u16, Response { description: own("No Content"), schema: Some(unit()) }), (99u16, Response { description: own(""), schema: Some(rf(1)) })]), ..Default::default() })]), ..Default::default() })] }), (own("onCb4"), CallbackObject { paths: vec![(Path(vec![lit("other text")]), PathValue { parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { security: vec![map([(own("lit_a"), strs(&["b", "a"]))])], tags: strs(&["one", "snake_case", "Three"]), responses: map([(1000u16, Response { description: own(""), schema: Some(rf(0)) }), (202u16, Response { description: own("Accepted"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PUT, Operation { request_body: Some(RequestBody { description: None, required: true, schema: list(rf(0)) }), parameters: map([]), tags: strs(&["one", "two", "two"]), responses: map([(401u16, Response { description: own("Unauthorized"), schema: None })]), ..Default::default() }), (HttpMethod::DELETE, Operation { responses: map([]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("payload")]), PathValue { parameters: map([(own("payload"), param(ParameterIn::Path, true, rf(1))), (own("some_q5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) })]), operations: map([(HttpMethod::POST, Operation { deprecated: g, request_body: Some(RequestBody { description: Some(own("ünïcode")), required: true, schema: rf(0) }), summary: Some(t.clone()), responses: map([(422u16, Response { description: own("ünïcode"), schema: None }), (500u16, Response { description: own("Internal Server Error"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() })]), ..Default::default() })] })]), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), responses: map([(204u16, Response { description: own("No Content"), schema: None })]), ..Default::default() })]), ..Default::default() }), (Path(vec![par("Id6"), par("orderId"), par("userId")]), PathValue { parameters: map([(own("Id6"), param(ParameterIn::Path, true, rf(0))), (own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("userId"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::POST, Operation { responses: map([]), ..Default::default() }), (HttpMethod::PUT, Operation { description: Some(own("")), operation_id: Some(t.clone()), responses: map([(400u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (503u16, Response { description: own("other text"), schema: Some(rf(0)) }), (1000u16, Response { description: own(""), schema: Some(string()) })]), ..Default::default() }), (HttpMethod::GET, Operation { request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), deprecated: f, callbacks: map([(own("onCb7"), CallbackObject { paths: vec![(Path(vec![lit("ünïcode"), lit("lit"), par("id8")]), PathValue { parameters: map([(own("id8"), param(ParameterIn::Path, true, rf(0)))]), operations: map([]), ..Default::default() }), (Path(vec![par("orderId"), par("some_id9")]), PathValue { parameters: map([(own("orderId"), param(ParameterIn::Path, true, rf(1))), (own("some_id9"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::POST, Operation { tags: strs(&["Three", "Three", "Three"]), security: vec![map([(own("lit_a"), strs(&[])), (own("lit b"), strs(&["r"]))]), map([(own("basic"), strs(&[]))])], operation_id: Some(t.clone()), request_body: Some(RequestBody { description: None, required: true, schema: rf(1) }), description: Some(t.clone()), responses: map([(401u16, Response { description: own("Unauthorized"), schema: Some(rf(0)) }), (301u16, Response { description: own("quote \" here"), schema: Some(ModelReference::Link(own("Given"))) }), (409u16, Response { description: own("Conflict"), schema: Some(rf(1)) })]), ..Default::default() }), (HttpMethod::OPTIONS, Operation { operation_id: Some(t.clone()), tags: strs(&[]), responses: map([(200u16, Response { description: own(""), schema: Some(unit()) }), (460u16, Response { description: own(""), schema: Some(ModelReference::Link(own("Given"))) }), (409u16, Response { description: own("lit"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { responses: map([(301u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), responses: map([(304u16, Response { description: own("Not Modified"), schema: Some(string()) })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("Decl 10"), SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Header, name: t.clone(), description: None }))]),
        },
    )
}

fn d54(decide: fn(&Opg, &Want)) {
    tag("54");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { servers: { "https://a.b/c"("x"), "", s }, tags: { z9, two("lit"), snake_case, one(t.clone()), Three("lit"), }, paths: { ("$x:y" / "" / "a.b"): {  }, (deep::er::ItemKey / "a.b" / "users"): { PUT: { deprecated: true, 201: deep::OrderId, tags: {}, 200: { Some(ModelReference::Link(own("Given"))) }, operationId: s, 460("other text"): String, 304("ünïcode"): UserId }, TRACE: { 201("quote \" here"): None } }, }, info: { title: &t, version: &t } };
    decide(
        &o,
        &Want {
            info: Info { title: t.clone(), version: t.clone(), description: None },
            tags: vec![("z9", None), ("two", Some(own("lit"))), ("snake_case", None), ("one", Some(t.clone())), ("Three", Some(own("lit")))],
            servers: vec![(own("https://a.b/c"), Some(own("x"))), (own(""), None), (t.clone(), None)],
            paths: vec![(Path(vec![lit("$x:y"), lit(""), lit("a.b")]), PathValue { parameters: map([]), operations: map([]), ..Default::default() }), (Path(vec![par("itemKey"), lit("a.b"), lit("users")]), PathValue { parameters: map([(own("itemKey"), param(ParameterIn::Path, true, rf(0)))]), operations: map([(HttpMethod::PUT, Operation { tags: strs(&[]), operation_id: Some(t.clone()), deprecated: true, responses: map([(200u16, Response { description: own("OK"), schema: Some(ModelReference::Link(own("Given"))) }), (304u16, Response { description: own("ünïcode"), schema: Some(rf(0)) }), (201u16, Response { description: own("Created"), schema: Some(rf(1)) }), (460u16, Response { description: own("other text"), schema: Some(string()) })]), ..Default::default() }), (HttpMethod::TRACE, Operation { responses: map([(201u16, Response { description: own("quote \" here"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([]),
        },
    )
}

fn d55(decide: fn(&Opg, &Want)) {
    tag("55");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { paths: { ("other text"): { HEAD: { parameters: { (query camelQ1: crate::kit::UserId) }, 301: crate::kit::UserId, security: { "z"[] && basic && whole["a", "a", ""], }, 460: (), deprecated: !f, 99: None, body: { description: "lit", schema: crate::kit::UserId, required: false, }, 409(""): Box<Payload>, parameters: { (header "h2"), (query some_q3: Vec<Payload>), } }, }, ("users" / "$x:y" / {Id4: Payload} / "{x}"): { PUT: { summary: "a \"b\" {c}", security: { basic["r"], keyed[] && basic[] && "z", }, operationId: "a \"b\" {c}", description: "a \"b\" {c}", 409("lit"): { Some(ModelReference::Link(own("Given"))) }, tags: { Three, snake_case }, deprecated: true, body: { schema: Payload, description: "quote \" here", required: false }, callbacks: { cb7: { ("users"): { PATCH: { body: { required: true, schema: crate::kit::UserId }, 403: None, description: s, 460: None, parameters: {  }, operationId: "a \"b\" {c}" } } }, }, parameters: { (query camelQ5: String), (header String::from("X-H6")), }, parameters: {  } }, DELETE: { 1000: deep::OrderId, summary: u, 304: (), deprecated: g, security: { keyed["b", "a"] && "z"["b", "a"], "z"["r"], } }, PATCH: { parameters: { (header format!("Some Header 8{}", s)): {  }, }, security: {  }, body: { required: false, description: "other text", schema: deep::OrderId }, description: "lit", 599("ünïcode"): None, summary: "a \"b\" {c}", } } }, tags: { Three(u), one(t.clone()) } };
    decide(
        &o,
        &Want {
            info: Info { title: own(""), version: own(""), description: None },
            tags: vec![("Three", Some(v.clone())), ("one", Some(t.clone()))],
            servers: vec![],
            paths: vec![(Path(vec![lit("other text")]), PathValue { parameters: map([]), operations: map([(HttpMethod::HEAD, Operation { security: vec![map([(own("z"), strs(&[])), (own("basic"), strs(&[])), (own("whole"), strs(&["a", "a", ""]))])], parameters: map([(own("camelQ1"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(rf(0)) }), (own("h2"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) }), (own("some_q3"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(list(rf(1))) })]), request_body: Some(RequestBody { description: Some(own("lit")), required: false, schema: rf(0) }), deprecated: !f, responses: map([(460u16, Response { description: own(""), schema: Some(unit()) }), (409u16, Response { description: own(""), schema: Some(rf(1)) }), (99u16, Response { description: own(""), schema: None }), (301u16, Response { description: own("Moved Permanently"), schema: Some(rf(0)) })]), ..Default::default() })]), ..Default::default() }), (Path(vec![lit("users"), lit("$x:y"), par("Id4"), lit("{x}")]), PathValue { parameters: map([(own("Id4"), param(ParameterIn::Path, true, rf(1)))]), operations: map([(HttpMethod::PUT, Operation { tags: strs(&["Three", "snake_case"]), request_body: Some(RequestBody { description: Some(own("quote \" here")), required: false, schema: rf(1) }), parameters: map([(own("camelQ5"), OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(string()) }), (own("X-H6"), OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), description: Some(own("a \"b\" {c}")), security: vec![map([(own("basic"), strs(&["r"]))]), map([(own("keyed"), strs(&[])), (own("basic"), strs(&[])), (own("z"), strs(&[]))])], callbacks: map([(own("cb7"), CallbackObject { paths: vec![(Path(vec![lit("users")]), PathValue { parameters: map([]), operations: map([(HttpMethod::PATCH, Operation { parameters: map([]), request_body: Some(RequestBody { description: None, required: true, schema: rf(0) }), operation_id: Some(own("a \"b\" {c}")), description: Some(t.clone()), responses: map([(460u16, Response { description: own(""), schema: None }), (403u16, Response { description: own("Forbidden"), schema: None })]), ..Default::default() })]), ..Default::default() })] })]), summary: Some(own("a \"b\" {c}")), deprecated: true, operation_id: Some(own("a \"b\" {c}")), responses: map([(409u16, Response { description: own("lit"), schema: Some(ModelReference::Link(own("Given"))) })]), ..Default::default() }), (HttpMethod::DELETE, Operation { summary: Some(v.clone()), deprecated: g, security: vec![map([(own("keyed"), strs(&["b", "a"])), (own("z"), strs(&["b", "a"]))]), map([(own("z"), strs(&["r"]))])], responses: map([(1000u16, Response { description: own(""), schema: Some(rf(1)) }), (304u16, Response { description: own("Not Modified"), schema: Some(unit()) })]), ..Default::default() }), (HttpMethod::PATCH, Operation { summary: Some(own("a \"b\" {c}")), parameters: map([(own("Some Header 8") + s, OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(string()) })]), security: vec![], request_body: Some(RequestBody { description: Some(own("other text")), required: false, schema: rf(1) }), description: Some(own("lit")), responses: map([(599u16, Response { description: own("ünïcode"), schema: None })]), ..Default::default() })]), ..Default::default() })],
            used: vec![0, 1],
            schemes: map([(own("basic"), basic_scheme(&v)), (own("whole"), whole_scheme(&v)), (own("keyed"), keyed_scheme(&v))]),
        },
    )
}

fn group0(decide: fn(&Opg, &Want)) {
    types();
    match choose(28) {
        0 => d0(decide),
        1 => d1(decide),
        2 => d2(decide),
        3 => d3(decide),
        4 => d4(decide),
        5 => d5(decide),
        6 => d6(decide),
        7 => d7(decide),
        8 => d8(decide),
        9 => d9(decide),
        10 => d10(decide),
        11 => d11(decide),
        12 => d12(decide),
        13 => d13(decide),
        14 => d14(decide),
        15 => d15(decide),
        16 => d16(decide),
        17 => d17(decide),
        18 => d18(decide),
        19 => d19(decide),
        20 => d20(decide),
        21 => d21(decide),
        22 => d22(decide),
        23 => d23(decide),
        24 => d24(decide),
        25 => d25(decide),
        26 => d26(decide),
        _ => d27(decide),
    }
}
pub fn c11_0() {
    group0(c11)
}
pub fn c14_0() {
    group0(c14)
}
pub fn c18_0() {
    group0(c18)
}
fn group1(decide: fn(&Opg, &Want)) {
    types();
    match choose(28) {
        0 => d28(decide),
        1 => d29(decide),
        2 => d30(decide),
        3 => d31(decide),
        4 => d32(decide),
        5 => d33(decide),
        6 => d34(decide),
        7 => d35(decide),
        8 => d36(decide),
        9 => d37(decide),
        10 => d38(decide),
        11 => d39(decide),
        12 => d40(decide),
        13 => d41(decide),
        14 => d42(decide),
        15 => d43(decide),
        16 => d44(decide),
        17 => d45(decide),
        18 => d46(decide),
        19 => d47(decide),
        20 => d48(decide),
        21 => d49(decide),
        22 => d50(decide),
        23 => d51(decide),
        24 => d52(decide),
        25 => d53(decide),
        26 => d54(decide),
        _ => d55(decide),
    }
}
pub fn c11_1() {
    group1(c11)
}
pub fn c14_1() {
    group1(c14)
}
pub fn c18_1() {
    group1(c18)
}
