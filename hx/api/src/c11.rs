//! Path templates written in an API description.
use crate::kit::*;

fn decide(o: Opg, want: Vec<PathElement>, params: BTreeMap<String, OperationParameter>, used: &[usize]) {
    observe_doc(&o);
    check(o.paths.len() == 1, "one path");
    let (path, item) = &o.paths[0];
    check(eq_path(path, &Path(want)), "the segments are those written, in order");
    check(item.parameters.len() == params.len(), "every templated parameter is declared exactly once, and nothing else");
    check(eq_parameters(&item.parameters, &params), "a required path parameter of that name with the schema of its type");
    check(eq_schemas(&o.components.schemas, &schemas(used)), "the types of the parameters are registered");
}
fn p(i: usize) -> OperationParameter {
    param(ParameterIn::Path, true, rf(i))
}

pub fn family() {
    types();
    match choose(17) {
        0 => decide(describe_api! { paths: { ("a"): {} } }, vec![lit("a")], map([]), &[]),
        1 => decide(describe_api! { paths: { ("a" / "b.c" / "d"): {} } }, vec![lit("a"), lit("b.c"), lit("d")], map([]), &[]),
        2 => decide(describe_api! { paths: { (UserId): {} } }, vec![par("userId")], map([(own("userId"), p(0))]), &[0]),
        3 => decide(describe_api! { paths: { ("a" / UserId): {} } }, vec![lit("a"), par("userId")], map([(own("userId"), p(0))]), &[0]),
        4 => decide(describe_api! { paths: { (UserId / "a"): {} } }, vec![par("userId"), lit("a")], map([(own("userId"), p(0))]), &[0]),
        5 => decide(
            describe_api! { paths: { ("a" / deep::OrderId / "b" / deep::er::ItemKey): {} } },
            vec![lit("a"), par("orderId"), lit("b"), par("itemKey")],
            map([(own("orderId"), p(1)), (own("itemKey"), p(0))]),
            &[0, 1],
        ),
        6 => decide(describe_api! { paths: { ({id: UserId}): {} } }, vec![par("id")], map([(own("id"), p(0))]), &[0]),
        7 => decide(
            describe_api! { paths: { ("x" / {z_first: UserId} / {a_second: Payload} / "y"): {} } },
            vec![lit("x"), par("z_first"), par("a_second"), lit("y")],
            map([(own("z_first"), p(0)), (own("a_second"), p(1))]),
            &[0, 1],
        ),
        8 => decide(
            describe_api! { paths: { ({Upper: UserId} / Payload): {} } },
            vec![par("Upper"), par("payload")],
            map([(own("Upper"), p(0)), (own("payload"), p(1))]),
            &[0, 1],
        ),
        9 => decide(
            describe_api! { paths: { ({a: UserId} / {b: UserId} / {c: UserId}): {} } },
            vec![par("a"), par("b"), par("c")],
            map([(own("a"), p(0)), (own("b"), p(0)), (own("c"), p(0))]),
            &[0],
        ),
        10 => decide(describe_api! { paths: { ("{literal}" / "$x:y"): {} } }, vec![lit("{literal}"), lit("$x:y")], map([]), &[]),
        11 => decide(describe_api! { paths: { ("" / "a"): {} } }, vec![lit(""), lit("a")], map([]), &[]),
        12 => decide(
            describe_api! { paths: { ("a" / {id: UserId}): { GET: { 200: None } } } },
            vec![lit("a"), par("id")],
            map([(own("id"), p(0))]),
            &[0],
        ),
        13 => decide(describe_api! { paths: { ("a" / Élément): {} } }, vec![lit("a"), par("Élément")], map([(own("Élément"), p(0))]), &[0]),
        14 => decide(describe_api! { paths: { (deep::ñ / {naïve: UserId}): {} } }, vec![par("ñ"), par("naïve")], map([(own("ñ"), p(1)), (own("naïve"), p(0))]), &[0, 1]),
        15 => decide(
            describe_api! { paths: { ("1" / {p1: UserId} / "2" / {p2: Payload} / "3" / {p3: UserId} / "4" / {p4: Payload} / "5" / {p5: UserId} / "6" / {p6: Payload} / "7" / "8"): {} } },
            vec![lit("1"), par("p1"), lit("2"), par("p2"), lit("3"), par("p3"), lit("4"), par("p4"), lit("5"), par("p5"), lit("6"), par("p6"), lit("7"), lit("8")],
            map([(own("p1"), p(0)), (own("p2"), p(1)), (own("p3"), p(0)), (own("p4"), p(1)), (own("p5"), p(0)), (own("p6"), p(1))]),
            &[0, 1],
        ),
        _ => decide(
            describe_api! { paths: { ("a" / String / {id: deep::OrderId}): { parameters: { (query q: UserId) } } } },
            vec![lit("a"), par("string"), par("id")],
            map([(own("string"), param(ParameterIn::Path, true, string())), (own("id"), p(1)), (own("q"), param(ParameterIn::Query, false, rf(0)))]),
            &[0, 1],
        ),
    }
}

/// Several paths: order, and parameters stay with their own path.
pub fn several() {
    types();
    let o = describe_api! {
        paths: {
            ("b" / {id: UserId}): { summary: "first" },
            ("a" / {id: Payload} / {other: UserId}): {},
            ("b"): { description: "third" },
        }
    };
    observe_doc(&o);
    let want = vec![
        (Path(vec![lit("b"), par("id")]), PathValue { summary: opt("first"), parameters: map([(own("id"), p(0))]), ..Default::default() }),
        (Path(vec![lit("a"), par("id"), par("other")]), PathValue { parameters: map([(own("id"), p(1)), (own("other"), p(0))]), ..Default::default() }),
        (Path(vec![lit("b")]), PathValue { description: opt("third"), ..Default::default() }),
    ];
    check(eq_paths(&o.paths, &want), "each path keeps its own segments and parameters, in declaration order");
    check(eq_schemas(&o.components.schemas, &schemas(&[0, 1])), "the types of the parameters are registered");
}

/// Paths of callbacks follow the same rules.
pub fn callbacks() {
    types();
    let o = describe_api! {
        paths: {
            ("a"): {
                POST: {
                    200: None,
                    callbacks: {
                        done: {
                            ("x" / {id: UserId}): { POST: { 200: None } },
                            (deep::OrderId): { POST: { 200: None } }
                        },
                    }
                }
            }
        }
    };
    observe_doc(&o);
    let op = only_op(&o);
    check(o.paths[0].1.parameters.is_empty() && op.parameters.is_empty(), "parameters of a callback path stay there");
    check(op.callbacks.len() == 1, "one callback");
    let c = match op.callbacks.get("done") {
        Some(c) => c,
        None => return check(false, "the callback is under its name"),
    };
    check(c.paths.len() == 2, "two callback paths");
    check(eq_path(&c.paths[0].0, &Path(vec![lit("x"), par("id")])) && eq_path(&c.paths[1].0, &Path(vec![par("orderId")])), "callback paths keep segments and order");
    check(eq_parameters(&c.paths[0].1.parameters, &map([(own("id"), p(0))])), "a callback path declares its parameter");
    check(eq_parameters(&c.paths[1].1.parameters, &map([(own("orderId"), p(1))])), "a callback path declares its parameter");
}

/// Recorded, not repaired (see known-findings.txt).
pub fn known() {
    types();
    check(true, "reached");
    let o = describe_api! { paths: { ("a" / {id: UserId}): { parameters: { (query id: Payload) } } } };
    observe_doc(&o);
    let p = &o.paths[0].1.parameters;
    check(p.values().any(|p| matches!(p.parameter_in, ParameterIn::Path) && p.required), "kf.path-parameter-replaced");
}
