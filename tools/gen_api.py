#!/usr/bin/env python3
"""Writes hx/api/src/gen.rs: API descriptions that combine every form a description is made of, each with
what it should produce. Committed; rerun after changing it."""
import os
import random

R = random.Random(20)
METHODS = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]
CODES = {200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 301: "Moved Permanently", 304: "Not Modified", 400: "Bad Request", 401: "Unauthorized",
         403: "Forbidden", 404: "Not Found", 409: "Conflict", 422: "Unprocessable Entity", 500: "Internal Server Error", 503: "Service Unavailable",
         299: "", 460: "", 599: "", 99: "", 1000: ""}
TYPES = [("UserId", "rf(0)", 0), ("Payload", "rf(1)", 1), ("deep::OrderId", "rf(1)", 1), ("deep::er::ItemKey", "rf(0)", 0), ("Box<Payload>", "rf(1)", 1),
         ("Vec<UserId>", "list(rf(0))", 0), ("Vec<Payload>", "list(rf(1))", 1), ("String", "string()", None), ("crate::kit::UserId", "rf(0)", 0)]
TEXTS = [('"lit"', 'own("lit")'), ("s", "t.clone()"), ("&t", "t.clone()"), ('""', 'own("")'), ('"a \\"b\\" {c}"', 'own("a \\"b\\" {c}")'), ("t.clone()", "t.clone()"), ("format!(\"{}!\", 7)", 'own("7!")'), ("u", "v.clone()")]
LITS = ['"lit"', '""', '"other text"', '"{x}"', '"quote \\" here"', '"ünïcode"']
FLAGS = [("true", "true"), ("false", "false"), ("f", "f"), ("g", "g"), ("!f", "!f")]


class Doc:
    def __init__(self):
        self.used = set()
        self.names = 0
        self.schemes = {}

    def fresh(self, *kinds):
        self.names += 1
        return R.choice(kinds) % self.names


def some(d, opts):
    t = R.choice(opts)
    if t[2] is not None:
        d.used.add(t[2])
    return t


def join(parts, tail=None):
    return ", ".join(parts) + ("," if parts and (R.random() < 0.4 if tail is None else tail) else "")


def parameters(d, n):
    src, want = [], []
    for _ in range(n):
        header = R.random() < 0.5
        props = []
        if header:
            k = d.fresh("X-H%d", "h%d", "Some Header %d")
            form, key = R.choice([('"%s"' % k, 'own("%s")' % k), ('String::from("%s")' % k, 'own("%s")' % k), ('format!("%s{}", s)' % k, 'own("%s") + s' % k)])
            head = "(header %s)" % form
            p = {"description": "None", "required": "true", "deprecated": "false", "schema": "string()"}
        else:
            k = d.fresh("q%d", "some_q%d", "camelQ%d", "Q%d")
            ty, ref, _ = some(d, TYPES)
            head = "(query %s: %s)" % (k, ty)
            key = 'own("%s")' % k
            p = {"description": "None", "required": "false", "deprecated": "false", "schema": ref}
        if R.random() < 0.65:
            for w in R.sample(["description", "required", "deprecated", "schema"], R.randint(0, 4)):
                if w == "description":
                    a, b = R.choice(TEXTS)
                    props.append("description: %s" % a)
                    p[w] = "Some(%s)" % b
                elif w == "schema":
                    ty, ref, _ = some(d, TYPES)
                    props.append("schema: %s" % ty)
                    p[w] = ref
                else:
                    a, b = R.choice(FLAGS)
                    props.append("%s: %s" % (w, a))
                    p[w] = b
            head += ": { %s }" % join(props)
        src.append(head)
        want.append("(%s, OperationParameter { description: %s, parameter_in: ParameterIn::%s, required: %s, deprecated: %s, schema: Some(%s) })" % (
            key, p["description"], "Header" if header else "Query", p["required"], p["deprecated"], p["schema"]))
    return "parameters: { %s }" % join(src), want


def scheme_var(d):
    n = R.choice(["basic", "keyed", "whole"])
    d.schemes.setdefault(n, "%s_scheme(&v)" % n)
    return n


def security(d):
    alts, want = [], []
    for _ in range(R.randint(0, 3)):
        items, keys = [], {}
        for _ in range(R.choice([1, 1, 2, 3])):
            if R.random() < 0.5:
                n = R.choice(["basic", "keyed", "whole"])
                if n in keys:
                    continue
                d.schemes.setdefault(n, "%s_scheme(&v)" % n)
                form = n
            else:
                n = R.choice(["lit_a", "lit b", "basic", "z"])
                form = '"%s"' % n
            if n in keys:
                continue
            scopes = R.choice([None, None, [], ['"r"'], ['"b"', '"a"'], ['"a"', '"a"', '""']])
            items.append(form + ("[%s]" % ", ".join(scopes) if scopes is not None else ""))
            keys[n] = scopes or []
        alts.append(" && ".join(items))
        want.append("map([%s])" % ", ".join('(own("%s"), strs(&[%s]))' % (k, ", ".join(v)) for k, v in keys.items()))
    return "security: { %s }" % join(alts), "vec![%s]" % ", ".join(want)


def body(d):
    ty, ref, _ = some(d, TYPES)
    if R.random() < 0.35:
        return "body: %s" % ty, "Some(RequestBody { description: None, required: true, schema: %s })" % ref
    desc, req = "None", "true"
    props = ["schema: %s" % ty]
    if R.random() < 0.6:
        l = R.choice(LITS)
        desc = "Some(own(%s))" % l
        props.append("description: %s" % l)
    if R.random() < 0.6:
        req = R.choice(["true", "false"])
        props.append("required: %s" % req)
    R.shuffle(props)
    return "body: { %s }" % join(props), "Some(RequestBody { description: %s, required: %s, schema: %s })" % (desc, req, ref)


def responses(d, n):
    out, want = [], []
    for c in R.sample(sorted(CODES), n):
        desc = 'own("%s")' % CODES[c]
        head = str(c)
        if R.random() < 0.45:
            l = R.choice(LITS)
            head += "(%s)" % l
            desc = "own(%s)" % l
        k = R.randint(0, 4)
        if k == 0:
            v, ref = "None", "None"
        elif k == 1:
            v, ref = "()", "Some(unit())"
        elif k == 2:
            v, ref = '{ Some(ModelReference::Link(own("Given"))) }', 'Some(ModelReference::Link(own("Given")))'
        else:
            ty, r, _ = some(d, TYPES)
            v, ref = ty, "Some(%s)" % r
        out.append("%s: %s" % (head, v))
        want.append("(%du16, Response { description: %s, schema: %s })" % (c, desc, ref))
    return out, want


def operation(d, depth):
    props, want = [], []
    words = ["summary", "operationId", "description", "deprecated", "tags", "parameters", "security", "body", "callbacks"]
    for w in R.sample(words, R.choice([0, 1, 2, 3, 3, 4, 5, 9])):
        if w in ("summary", "operationId", "description"):
            a, b = R.choice([x for x in TEXTS if "(" not in x[0]])
            props.append("%s: %s" % (w, a))
            want.append("%s: Some(%s)" % ("operation_id" if w == "operationId" else w, b))
        elif w == "deprecated":
            a, b = R.choice(FLAGS)
            props.append("deprecated: %s" % a)
            want.append("deprecated: %s" % b)
        elif w == "tags":
            l = [R.choice(["one", "two", "Three", "snake_case"]) for _ in range(R.randint(0, 3))]
            props.append("tags: { %s }" % join(l) if l else "tags: {}")
            want.append("tags: strs(&[%s])" % ", ".join('"%s"' % x for x in l))
        elif w == "parameters":
            blocks = [parameters(d, R.randint(0, 3)) for _ in range(R.choice([1, 1, 2]))]
            props += [x[0] for x in blocks]
            want.append("parameters: map([%s])" % ", ".join(y for x in blocks for y in x[1]))
        elif w == "security":
            a, b = security(d)
            props.append(a)
            want.append("security: %s" % b)
        elif w == "body":
            a, b = body(d)
            props.append(a)
            want.append("request_body: %s" % b)
        elif depth:
            cs, ws = [], []
            for _ in range(R.choice([1, 1, 2])):
                k = d.fresh("cb%d", "onCb%d", '"cb-%d"')
                ps = [path(d, depth - 1) for _ in range(R.choice([0, 1, 1, 2]))]
                cs.append("%s: { %s }" % (k, join([p[0] for p in ps], False)))
                ws.append('(own("%s"), CallbackObject { paths: vec![%s] })' % (k.strip('"'), ", ".join(p[1] for p in ps)))
            props.append("callbacks: { %s }" % join(cs))
            want.append("callbacks: map([%s])" % ", ".join(ws))
    rs, rw = responses(d, R.choice([0, 1, 1, 2, 3, 4]))
    props += rs
    want.append("responses: map([%s])" % ", ".join(rw))
    R.shuffle(props)
    return "{ %s }" % join(props), "Operation { %s, ..Default::default() }" % ", ".join(want)


def path(d, depth):
    seg, els, par = [], [], []
    short = set()
    for _ in range(R.choice([1, 1, 2, 3, 4])):
        k = R.randint(0, 3)
        ty, ref, _ = R.choice([t for t in TYPES if "<" not in t[0]])
        name = ty.split("::")[-1]
        name = name[0].lower() + name[1:]
        if k == 2 and name in short:
            k = 3
        if k < 2:
            l = R.choice(LITS + ['"a.b"', '"$x:y"', '"users"'])
            seg.append(l)
            els.append("lit(%s)" % l)
            continue
        if k == 2:
            short.add(name)
            seg.append(ty)
        else:
            name = d.fresh("id%d", "some_id%d", "Id%d")
            seg.append("{%s: %s}" % (name, ty))
        d.used.update([t[2] for t in TYPES if t[0] == ty and t[2] is not None])
        els.append('par("%s")' % name)
        par.append('(own("%s"), param(ParameterIn::Path, true, %s))' % (name, ref))
    props, want = [], []
    for w in ("summary", "description"):
        if R.random() < 0.3:
            l = R.choice(LITS)
            props.append("%s: %s" % (w, l))
            want.append("%s: Some(own(%s))" % (w, l))
    if R.random() < 0.4:
        src, pw = parameters(d, R.randint(0, 3))
        props.append(src)
        par += pw
    ops = []
    for m in R.sample(METHODS, R.choice([0, 1, 1, 2, 3])):
        a, b = operation(d, depth)
        props.append("%s: %s" % (m, a))
        ops.append("(HttpMethod::%s, %s)" % (m, b))
    R.shuffle(props)
    want.append("parameters: map([%s])" % ", ".join(par))
    want.append("operations: map([%s])" % ", ".join(ops))
    return "(%s): { %s }" % (" / ".join(seg), join(props)), "(Path(vec![%s]), PathValue { %s, ..Default::default() })" % (", ".join(els), ", ".join(want))


def document(i):
    d = Doc()
    ps = [path(d, 2) for _ in range(R.choice([1, 2, 2, 3]))]
    parts = [("paths", join([p[0] for p in ps]))]
    want = {"title": 'own("")', "version": 'own("")', "description": "None", "tags": [], "servers": []}
    if R.random() < 0.6:
        l = []
        for w in R.sample(["title", "version", "description"], R.randint(1, 3)):
            a, b = R.choice(TEXTS)
            l.append("%s: %s" % (w, a))
            want[w] = "Some(%s)" % b if w == "description" else b
        parts.append(("info", join(l)))
    if R.random() < 0.6:
        l = []
        for w in R.sample(["one", "two", "Three", "snake_case", "z9"], R.randint(1, 5)):
            a, b = R.choice([(None, None)] + TEXTS)
            l.append("%s(%s)" % (w, a) if a else w)
            want["tags"].append('("%s", %s)' % (w, "Some(%s)" % b if a else "None"))
        parts.append(("tags", join(l)))
    if R.random() < 0.6:
        l = []
        for _ in range(R.randint(1, 4)):
            ab = [('"https://a.b/c"', 'own("https://a.b/c")'), ("s", "t.clone()"), ('""', 'own("")'), ("u", "v.clone()"), ('"x"', 'own("x")')]
            a, b = R.choice(ab)
            c, e = R.choice(ab + [(None, None)] * 3)
            l.append("%s(%s)" % (a, c) if c else a)
            want["servers"].append("(%s, %s)" % (b, "Some(%s)" % e if c else "None"))
        parts.append(("servers", join(l)))
    if R.random() < 0.6:
        l, declared = [], {}
        for _ in range(R.randint(1, 4)):
            k = R.randint(0, 2)
            n = d.fresh("decl%d", "Decl %d")
            a, b = R.choice(TEXTS)
            c, e = R.choice(TEXTS)
            if k == 0:
                n = scheme_var(d)
                l.append(n)
            elif k == 1:
                bearer = R.random() < 0.6
                ps_ = ["scheme: %s" % ("Bearer" if bearer else "Basic")]
                de, fo = "None", "None"
                if R.random() < 0.5:
                    ps_.append("description: %s" % a)
                    de = "Some(%s)" % b
                if bearer and R.random() < 0.6:
                    ps_.append("bearer_format: %s" % c)
                    fo = "Some(%s)" % e
                R.shuffle(ps_)
                l.append('(http "%s"): { %s }' % (n, join(ps_)))
                declared[n] = "SecurityScheme::Http(HttpSecurityScheme::%s)" % ("Bearer { format: %s, description: %s }" % (fo, de) if bearer else "Basic { description: %s }" % de)
            else:
                ps_ = ["name: %s" % a]
                de, at = "None", "Header"
                if R.random() < 0.5:
                    ps_.append("description: %s" % c)
                    de = "Some(%s)" % e
                if R.random() < 0.6:
                    at = R.choice(["Header", "Query", "Cookie"])
                    ps_.append("parameter_in: %s" % at)
                R.shuffle(ps_)
                l.append('(apiKey "%s"): { %s }' % (n, join(ps_)))
                declared[n] = "SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::%s, name: %s, description: %s })" % (at, b, de)
        d.schemes.update(declared)
        parts.append(("security_schemes", join(l)))
    R.shuffle(parts)
    return """fn d%d(decide: fn(&Opg, &Want)) {
    tag("%d");
    setup!(t v s u f g basic keyed whole);
    let o = describe_api! { %s };
    decide(
        &o,
        &Want {
            info: Info { title: %s, version: %s, description: %s },
            tags: vec![%s],
            servers: vec![%s],
            paths: vec![%s],
            used: vec![%s],
            schemes: map([%s]),
        },
    )
}
""" % (i, i, join(["%s: { %s }" % p for p in parts]), want["title"], want["version"], want["description"], ", ".join(want["tags"]), ", ".join(want["servers"]),
       ", ".join(p[1] for p in ps), ", ".join(map(str, sorted(d.used))), ", ".join('(own("%s"), %s)' % kv for kv in d.schemes.items()))


def main():
    n, per = 56, 28
    o = ["// Generated by tools/gen_api.py.", "#![allow(unused)]", "#![cfg_attr(rustfmt, rustfmt_skip)]", "use crate::kit::*;", "use crate::parts::*;", ""]
    o += [document(i) for i in range(n)]
    for k in range(0, n, per):
        o.append("fn group%d(decide: fn(&Opg, &Want)) {\n    types();\n    match choose(%d) {\n%s    }\n}" % (
            k // per, per, "".join("        %s => d%d(decide),\n" % (j if j < per - 1 else "_", k + j) for j in range(per))))
        for p in ("c11", "c14", "c18"):
            o.append("pub fn %s_%d() {\n    group%d(%s)\n}" % (p, k // per, k // per, p))
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hx/api/src/gen.rs")
    open(here, "w").write("\n".join(o) + "\n")
    print(n, "descriptions")


main()
