#!/usr/bin/env python3
"""Writes the families of derived types in hx/structs, hx/enums and hx/docs.

Every declaration is one a user could write: serde and opg attributes in every
combination of a container attribute with a field or variant attribute. What serde does
with it is not computed here: the harness asks serde's own output at run time. The
generator only knows which fields are never serialized, which are sometimes left out,
and which are marked optional."""
import re
import os, random
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hx")
RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]

# (attributes, serialized: yes/no/maybe, required)
FIELD = [
    ([], "yes", True),
    (['serde(rename = "x-Y")'], "yes", True),
    (['serde(rename(serialize = "sE", deserialize = "dE"))'], "yes", True),
    (['serde(rename(deserialize = "dE"))'], "yes", True),
    (["serde(skip)"], "no", False),
    (["serde(skip_serializing)"], "no", False),
    (["serde(skip_deserializing)"], "yes", True),
    (['serde(skip_serializing_if = "gone")'], "maybe", False),
    (["serde(default)"], "yes", True),
    (["opg(optional)"], "yes", False),
    (["opg(inline)"], "yes", True),
    (['serde(rename = "r", skip_serializing_if = "gone")', "opg(optional)"], "maybe", False),
    (['serde(alias = "other")', "opg(inline, optional)"], "yes", False),
    (['opg("text")', "serde(default, skip_deserializing)"], "yes", True),
    (["serde(default)", 'serde(rename = "two")', "serde(alias = \"a1\", alias = \"a2\")"], "yes", True),
    (["serde(skip_serializing)", "opg(optional)"], "no", False),
    (["opg(nullable)"], "yes", True),
    (['opg("text", format = "f", example = "e", nullable, inline)'], "yes", True),
    (['serde(default, skip_serializing_if = "gone")', 'opg(nullable, "text")'], "maybe", False),
]


def product():
    """Every serde attribute of a field with none, one, two or all of the opg attributes and every explicit type: FIELD entries, then the explicit type's number."""
    words = [["optional"], ["inline"], ["nullable"], ['"text"'], ['format = "f"', 'example = "e"']]
    subsets = [[]] + [[i] for i in range(5)] + [[i, k] for i in range(5) for k in range(i)] + [list(range(5))]
    types = [(None, None), ("string", 0), ("integer", 1), ("number", 2), ("boolean", 3), ("any", None)]
    serde = [([], "yes"), (['serde(rename = "re-N%d")'], "yes"), (['serde(rename(serialize = "Ser%d", deserialize = "De%d"))'], "yes"), (['serde(skip_serializing_if = "gone")'], "maybe"),
             (['serde(rename = "Gone %d", skip_serializing_if = "gone")'], "maybe"), (["serde(default)"], "yes"), (["serde(skip_deserializing)"], "yes")]
    out = []
    for si, (sa, kind) in enumerate(serde):
        for ti, (ty, num) in enumerate(types):
            for k, sub in enumerate(subsets):
                ws = [w for i in sub for w in words[i]] + ([ty] if ty else [])
                if (k + ti) % 2:
                    ws.reverse()
                at = [a.replace("%d", str(len(out))) for a in sa]
                og = ["opg(%s)" % ", ".join(ws)] if ws else []
                out.append(((at + og) if (k + si) % 2 else (og + at), kind, kind == "yes" and 0 not in sub, num))
    for sa in ("serde(skip)", "serde(skip_serializing)"):
        for w in (["optional"], ["inline"], ['"text"', "nullable"], ["string"], ["any", "optional"]):
            out.append(([sa, "opg(%s)" % ", ".join(w)], "no", False, None))
    # neighbours in a declaration should differ in more than one attribute
    random.Random(1).shuffle(out)
    return out


def ftype(f, i):
    return "X<%d>" % f[3] if len(f) > 3 and f[3] is not None else "V<%d>" % i


# (attributes, tag)
CONTAINER = [
    ([], False),
] + [(['serde(rename_all = "%s")' % r], False) for r in RULES] + [
    (['serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))'], False),
    (['serde(rename_all(deserialize = "UPPERCASE"))'], False),
    (['serde(rename = "Other")'], False),
    (['serde(tag = "kind")'], True),
    (['serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")'], True),
    (["serde(default, deny_unknown_fields)"], False),
    (["opg(inline)"], False),
    (['opg("about")', 'serde(rename_all = "camelCase")'], False),
    (["opg(nullable)"], False),
]
# identifiers with interesting shapes
IDENTS = ["first_one", "second", "r#type", "_lead", "a1_b2", "x__y", "tail_", "r#fn", "is_ok", "deep_er_name"]


def attrs(l):
    return "".join("#[%s]\n    " % a for a in l)


def val(kind, i):
    return "%s::%s()" % (("V<%d>" % i if isinstance(i, int) else i).replace("<", "::<"), kind)


def c01():
    o = ["// Generated by tools/gen_types.py.", "#![allow(dead_code, non_snake_case, non_camel_case_types)]", "use crate::kit::*;", ""]
    fns = []
    n = 0
    for ci, (cat, tag) in enumerate(CONTAINER):
        for fi, f in enumerate(FIELD):
            g = FIELD[(fi * 5 + ci * 3 + 1) % len(FIELD)]
            name = "S%d" % n
            ids = [IDENTS[(n + k * 3) % len(IDENTS)] for k in range(3)]
            fields = [(ids[0], f, 0), (ids[1], FIELD[0], 1), (ids[2], g, 2)]
            if n % 3 == 1:
                fields = fields[1:] + fields[:1]
            # two explicit renames to the same key would collide in serde's own output
            seen, keep = set(), []
            for x in fields:
                rn = [a for a in x[1][0] if "rename" in a]
                k = rn[0] if rn else None
                if k and k in seen:
                    continue
                seen.add(k)
                keep.append(x)
            fields = keep
            body = "".join("    %spub %s: V<%d>,\n" % (attrs(x[1][0]), x[0], x[2]) for x in fields)
            dflt = any("default" in a for a in cat)
            needs_de = False
            o.append("#[derive(Serialize, OpgModel%s)]" % (", Default" if dflt else ""))
            for a in cat:
                o.append("#[%s]" % a)
            o.append("pub struct %s {\n%s}" % (name, body))
            mask = (["true"] if tag else []) + [str(x[1][2]).lower() for x in fields if x[1][1] != "no"]
            full = ", ".join("%s: %s" % (x[0], val("default", x[2])) for x in fields)
            some = ", ".join("%s: %s" % (x[0], val("maybe" if x[1][1] == "maybe" else "any", x[2])) for x in fields)
            o.append("fn s%d() {\n    tag(\"%s\");\n    let full = j(&%s { %s });\n    let v = j(&%s { %s });\n    named_struct(ty::<%s>(), &full, &v, &[%s]);\n}" % (
                n, name, name, full, name, some, name, ", ".join(mask)))
            fns.append("s%d" % n)
            n += 1
    fs = product()
    for k in range(0, len(fs), 6):
        cat, tag = CONTAINER[(k // 6) % len(CONTAINER)]
        part = [(IDENTS[(k + i * 3) % len(IDENTS)] if i < 3 else "f%d_x" % i, f, ftype(f, i % 3)) for i, f in enumerate(fs[k:k + 6])]
        name = "P%d" % n
        o.append("#[derive(Serialize, OpgModel%s)]" % (", Default" if any("default" in a for a in cat) else ""))
        for a in cat:
            o.append("#[%s]" % a)
        o.append("pub struct %s {\n%s}" % (name, "".join("    %spub %s: %s,\n" % (attrs(f[0]), i, t) for i, f, t in part)))
        mask = (["true"] if tag else []) + [str(f[2]).lower() for _, f, _ in part if f[1] != "no"]
        full = ", ".join("%s: %s" % (i, val("default", t)) for i, f, t in part)
        one = [i for i, f, t in part if f[1] == "maybe"]
        some = ", ".join("%s: %s" % (i, "if gone == %d { %s } else { %s }" % (one.index(i), val("maybe", t), val("any", t)) if f[1] == "maybe" else val("any", t)) for i, f, t in part)
        o.append("fn p%d() {\n    tag(\"%s\");\n    let full = j(&%s { %s });\n%s    let v = j(&%s { %s });\n    named_struct(ty::<%s>(), &full, &v, &[%s]);\n}" % (
            n, name, name, full, "    let gone = choose(%d);\n" % len(one) if one else "", name, some, name, ", ".join(mask)))
        fns.append("p%d" % n)
        n += 1
    ts = [f for f in fs if f[1] in ("yes", "no") and not any("rename" in a or "optional" in a or "default" in a for a in f[0])]
    for k in range(0, len(ts), 4):
        part = ts[k:k + 4]
        if len(part) < 2:
            part = part + ts[:2]
        name = "Q%d" % n
        o.append("#[derive(Serialize, OpgModel)]")
        o.append("pub struct %s(%s);" % (name, ", ".join("%s%s" % ("".join("#[%s] " % y for y in f[0]), ftype(f, i % 3)) for i, f in enumerate(part))))
        o.append("fn q%d() {\n    tag(\"%s\");\n    tuple_struct(ty::<%s>(), &j(&%s(%s)));\n}" % (n, name, name, name, ", ".join(val("any", ftype(f, i % 3)) for i, f in enumerate(part))))
        fns.append("q%d" % n)
        n += 1
    # transparent structs and newtypes: one field counts, whatever stands around it
    for k, f in enumerate([x for x in fs if x[1] != "no" and not any(re.search(r"\bany\b", a) for a in x[0])][:120]):
        t = ftype(f, 0)
        named = k % 3 != 2 or any("default" in a for a in f[0])
        extra = [[], ["#[serde(skip)] %su8"], ["%sstd::marker::PhantomData<std::sync::Barrier>"], ["#[serde(skip_serializing)] #[opg(optional)] %sString", "%sstd::marker::PhantomData<std::sync::Barrier>"], ["#[opg(optional)] %sstd::marker::PhantomData<std::sync::Barrier>"]][k % 5 if k % 6 != 5 else 0]
        fields = ["".join("#[%s] " % y for y in f[0]) + "%s" + t] + extra
        at = k % len(fields)
        fields = fields[1:at + 1] + fields[:1] + fields[at + 1:]
        name = "N%d" % n
        o.append("#[derive(Serialize, OpgModel)]")
        if extra or named:
            o.append("#[serde(transparent)]")
        for a in (CONTAINER[k % len(CONTAINER)][0] if not any("tag" in a or "default" in a or "nullable" in a or "about" in a for a in CONTAINER[k % len(CONTAINER)][0]) else []):
            o.append("#[%s]" % a)
        vals = ["std::marker::PhantomData" if "Phantom" in x else "String::new()" if "String" in x else "7" if "u8" in x else val("any", t) for x in fields]
        if named:
            o.append("pub struct %s { %s }" % (name, ", ".join(x % ("f%d: " % i) for i, x in enumerate(fields))))
            v = "%s { %s }" % (name, ", ".join("f%d: %s" % (i, x) for i, x in enumerate(vals)))
        else:
            o.append("pub struct %s(%s);" % (name, ", ".join(x % "" for x in fields)))
            v = "%s(%s)" % (name, ", ".join(vals))
        plain = t.startswith("V") and not any(w in a for a in f[0] for w in ("nullable", "text", "format", "any"))
        o.append("fn n%d() {\n    tag(\"%s\");\n    %s;\n}" % (n, name, "newtype_struct(ty::<%s>(), ty::<%s>(), &j(&%s))" % (name, t, v) if plain else "admitted(ty::<%s>(), &j(&%s))" % (name, v)))
        fns.append("n%d" % n)
        n += 1
    # everything a container can say, in combination, over structs of no, one and several fields
    for k in range(64):
        on = [k >> b & 1 for b in range(6)]
        serde = (["tag = \"%s\"" % ["kind", "t-Ag", "type"][k % 3]] if on[0] else []) + (['rename = "%s"' % ["Other", 'an \\"other\\"', ""][k // 3 % 3]] if on[1] else []) + (['rename_all = "%s"' % RULES[k % len(RULES)]] if on[2] else [])
        og = (["nullable"] if on[3] else []) + (["inline"] if on[4] else []) + (['"about"'] if on[5] else [])
        cat = (["serde(%s)" % ", ".join(serde)] if serde else []) + (["opg(%s)" % ", ".join(og)] if og else [])
        for m in range(2):
            if m:
                cat = cat[::-1]
            part = [FIELD[0], FIELD[(k * 7 + m) % len(FIELD)], FIELD[(k * 3 + 1) % len(FIELD)]][: [0, 2, 1, 3][(k + (k >> 2) + (k >> 4) + m) % 4]]
            if k % 5 == 0 and m:
                part = part[1:]
            part = [("k%d_x" % i, f, ftype(f, i)) for i, f in enumerate(uniq(part))]
            name = "K%d" % n
            o.append("#[derive(Serialize, OpgModel)]")
            for a in cat:
                o.append("#[%s]" % a)
            o.append("pub struct %s {\n%s}" % (name, "".join("    %spub %s: %s,\n" % (attrs(f[0]), i, t) for i, f, t in part)))
            mask = (["true"] if on[0] else []) + [str(f[2]).lower() for _, f, _ in part if f[1] != "no"]
            full = ", ".join("%s: %s" % (i, val("default", t)) for i, f, t in part)
            some = ", ".join("%s: %s" % (i, val("maybe" if f[1] == "maybe" else "any", t)) for i, f, t in part)
            o.append("fn k%d() {\n    tag(\"%s\");\n    let full = j(&%s { %s });\n    let v = j(&%s { %s });\n    named_struct(ty::<%s>(), &full, &v, &[%s]);\n}" % (n, name, name, full, name, some, name, ", ".join(mask)))
            fns.append("k%d" % n)
            n += 1
    # tuple structs
    TF = [([], True), (["serde(skip)"], False), (["serde(skip_serializing)"], False), (["opg(inline)"], True), (['opg("text")'], True), (["serde(skip_deserializing)"], True)]
    for ci, cat in enumerate([[], ['serde(rename = "Other")'], ["opg(inline)"], ['opg("about")']]):
        for a in range(len(TF)):
            for b in range(len(TF)):
                if (a + b + ci) % 2 and ci:
                    continue
                fs = [TF[a], TF[b]] + ([TF[0]] if (a + b) % 3 == 0 else [])
                name = "T%d" % n
                o.append("#[derive(Serialize, OpgModel)]")
                for x in cat:
                    o.append("#[%s]" % x)
                o.append("pub struct %s(%s);" % (name, ", ".join("%sV<%d>" % ("".join("#[%s] " % y for y in x[0]), i) for i, x in enumerate(fs))))
                o.append("fn t%d() {\n    tag(\"%s\");\n    tuple_struct(ty::<%s>(), &j(&%s(%s)));\n}" % (n, name, name, name, ", ".join(val("any", i) for i in range(len(fs)))))
                fns.append("t%d" % n)
                n += 1
    return o, fns


def group(o, fns, per, prefix, setup):
    names = []
    for i in range(0, len(fns), per):
        part = fns[i:i + per]
        nm = "%s%d" % (prefix, i // per)
        o.append("pub fn %s() {\n    %s\n    match choose(%d) {\n%s    }\n}" % (
            nm, setup, len(part), "".join("        %s => %s(),\n" % (k if k < len(part) - 1 else "_", f) for k, f in enumerate(part))))
        names.append(nm)
    return names


# enums -------------------------------------------------------------------------------
VARIANT = [
    [],
    ['serde(rename = "re-Named")'],
    ['serde(rename(serialize = "sV", deserialize = "dV"))'],
    ['serde(rename_all = "SCREAMING-KEBAB-CASE")'],
    ["serde(skip)"],
    ["serde(skip_serializing)"],
    ["serde(skip_deserializing)"],
    ['serde(alias = "ali")', 'opg("text")'],
    ["opg(inline)"],
    ['serde(rename = "both", rename_all = "camelCase")'],
    ['serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))'],
]
VN = ["First", "SecondOne", "HTTPThird", "X4th", "r#Fifth", "Six_th", "Z"]


def c02():
    o = ["// Generated by tools/gen_types.py.", "#![allow(dead_code, non_snake_case, non_camel_case_types)]", "use crate::kit::*;", "use serde_repr::Serialize_repr;", ""]
    fns = []
    n = [0]

    def emit(repr_, cat, variants, objects=False, derive="Serialize", extra="", numeric=None):
        """variants: (name, attrs, style, fields) with style unit|new|tuple|struct; fields: FIELD entries"""
        name = "E%d" % n[0]
        o.append("#[derive(%s, OpgModel)]" % derive)
        for a in cat:
            o.append("#[%s]" % a)
        b = []
        allv, masks, anyv = [], [], []
        for vi, (vn, va, style, fs) in enumerate(variants):
            a = attrs(va)
            skip = any(x in ("serde(skip)", "serde(skip_serializing)") for x in va)
            pre = "%s::%s" % (name, vn)
            if style == "unit":
                b.append("    %s%s%s,\n" % (a, vn, (" = %d" % numeric[vi]) if numeric else ""))
                c, m = lambda k: pre, "Mask::Other"
            elif style == "new":
                b.append("    %s%s(%s%s),\n" % (a, vn, "".join("#[%s] " % x for x in fs[0][0]), ftype(fs[0], 3 if objects else vi % 2)))
                c = (lambda pre, vi, fs: lambda k: "%s(%s)" % (pre, val("any" if k else "default", ftype(fs[0], 3 if objects else vi % 2))))(pre, vi, fs)
                m = "Mask::Other"
            elif style == "tuple":
                b.append("    %s%s(%s),\n" % (a, vn, ", ".join("%s%s" % ("".join("#[%s] " % x for x in f[0]), ftype(f, i % 3)) for i, f in enumerate(fs))))
                c = (lambda pre, fs: lambda k: "%s(%s)" % (pre, ", ".join(val("any" if k else "default", ftype(f, i % 3)) for i, f in enumerate(fs))))(pre, fs)
                m = "Mask::Tuple"
            else:
                ids = [IDENTS[(n[0] + vi + i * 3) % len(IDENTS)] if i < 3 else "f%d_x" % i for i in range(len(fs))]
                b.append("    %s%s {\n%s    },\n" % (a, vn, "".join("        %s%s: %s,\n" % ("".join("#[%s] " % x for x in f[0]), ids[i], ftype(f, i % 3)) for i, f in enumerate(fs))))
                c = (lambda pre, fs, ids: lambda k: "%s { %s }" % (pre, ", ".join("%s: %s" % (ids[i], val(("maybe" if f[1] == "maybe" and i < 3 else "any") if k else "default", ftype(f, i % 3))) for i, f in enumerate(fs))))(pre, fs, ids)
                mk = (["true"] if repr_.startswith("Repr::Internal") else []) + [str(f[2]).lower() for f in fs if f[1] != "no"]
                m = "Mask::Fields(&[%s])" % ", ".join(mk)
            if not skip:
                allv.append(c(0))
                anyv.append(c(1))
                masks.append(m)
        o.append("pub enum %s {\n%s}" % (name, "".join(b)))
        arms = "".join("        %s => %s,\n" % (i if i < len(anyv) - 1 else "_", x) for i, x in enumerate(anyv))
        o.append("fn e%d() {\n    tag(\"%s\");\n    let all = [%s];\n    let v = match choose(%d) {\n%s    };\n    enumeration(ty::<%s>(), %s, &all, &[%s], &j(&v));\n}" % (
            n[0], name, ", ".join("j(&%s)" % x for x in allv), len(anyv), arms, name, repr_, ", ".join(masks)))
        fns.append("e%d" % n[0])
        n[0] += 1

    def vname(k):
        return VN[k % len(VN)]

    CATS = [[]] + [['serde(rename_all = "%s")' % r] for r in RULES] + [
        ['serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))'], ['serde(rename = "Other")'], ["opg(inline)"], ['opg("about")']]
    # plain: every container attribute with every variant attribute
    for ci, c in enumerate(CATS):
        for va in range(0, len(VARIANT), 3):
            vs = [(vname(ci + k), VARIANT[(va + k) % len(VARIANT)] if k != 1 else [], "unit", []) for k in range(4)]
            emit("Repr::Plain", c, dedup(vs))
    # numeric
    for ty, nums in (("u8", [0, 7, 255]), ("i8", [-128, 0, 5]), ("u16", [1, 2, 65535]), ("i32", [-5, 10, 2147483647]), ("u32", [3, 2, 1])):
        for va in ([], ['serde(rename = "q")'], ["serde(skip)"]):
            if va == ["serde(skip)"]:
                continue  # serde_repr serializes every variant
            vs = [(vname(k), va if k == 0 and not va else [], "unit", []) for k in range(3)]
            emit("Repr::Numeric", ["repr(%s)" % ty], vs, derive="Clone, Copy, Serialize_repr", numeric=nums)
        emit("Repr::Numeric", ["repr(%s)" % ty], [(vname(k), [], "unit", []) for k in range(4)], derive="Clone, Copy, Serialize_repr")
    # with data
    REPRS = [("Repr::External", []), ('Repr::Internal("t-Ag")', ['serde(tag = "t-Ag")']), ('Repr::Adjacent("t", "c")', ['serde(tag = "t", content = "c")']), ("Repr::Untagged", ["serde(untagged)"])]
    TUPLE = [FIELD[0], (["serde(skip)"], "no", False), (["serde(skip_serializing)"], "no", False), FIELD[10], (["serde(skip_deserializing)"], "yes", True), (['opg("text")'], "yes", True), FIELD[16]]
    rnd = random.Random(7)
    for rn, ra in REPRS:
        internal = "Internal" in rn
        external = "External" in rn
        for ci, c in enumerate(CATS):
            for k in range(5):
                x = ci * 5 + k
                vs = []
                for j in range(rnd.choice([2, 3, 4, 4, 5])):
                    va = VARIANT[(x + j * 2) % len(VARIANT)] if j != 1 else []
                    styles = ["struct", "new"] + ([] if internal else ["tuple"]) + ([] if external else ["unit"])
                    st = rnd.choice(styles)
                    if st == "new":
                        fs = [FIELD[rnd.choice([0, 10, 8])]]
                    elif st == "tuple":
                        fs = [rnd.choice(TUPLE), rnd.choice(TUPLE)] + ([rnd.choice(TUPLE)] if rnd.random() < 0.5 else [])
                        if rnd.random() < 0.5:
                            fs[0] = FIELD[0]
                    elif st == "struct":
                        fs = uniq([rnd.choice(FIELD), FIELD[0], rnd.choice(FIELD), rnd.choice(FIELD)])[: rnd.choice([0, 1, 2, 2, 3, 3])]
                    else:
                        fs = []
                    vs.append((vname(x + j), va, st, fs))
                vs = dedup(vs)
                # a newtype variant whose field is not serialized is written like a unit variant
                if not external and k % 2:
                    vs[0] = (vs[0][0], vs[0][1], "new", [((["serde(skip)"], "no", False), (["serde(skip_serializing)"], "no", False))[x % 2]])
                if "Untagged" in rn and all(v[2] == "unit" for v in vs if not any("skip)" in a or "skip_serializing)" in a for a in v[1])):
                    vs[0] = (vs[0][0], [], "struct", [FIELD[0]])  # the derive reports untagged enums of unit variants
                emit(rn, c + ra, vs, objects=internal)
    # unit variants only, tagged
    for rn, ra in REPRS[1:3]:
        for va in range(0, len(VARIANT), 2):
            emit(rn, ra, dedup([(vname(k), VARIANT[(va + k) % len(VARIANT)] if k else [], "unit", []) for k in range(3)]))
    # the product of field attributes, spread over representations, container and variant attributes
    fs = product()
    ts = [f for f in fs if f[1] in ("yes", "no") and not any("rename" in a or "optional" in a or "default" in a for a in f[0])]
    ns = [f for f in ts if f[1] == "yes"]
    VA = [v for v in VARIANT if not any("skip" in a for a in v)]
    x = 0
    while fs:
        rn, ra = REPRS[x % 4]
        vs = []
        for j in range(3):
            part, fs = fs[:5], fs[5:]
            vs.append((vname(x + j), VA[(x + j) % len(VA)] if j else [], "struct", part))
        if "Internal" not in rn:
            part, ts = ts[:3], ts[3:]
            if len(part) > 1:
                vs.append((vname(x + 3), VA[(x * 5) % len(VA)], "tuple", part))
            for j in range(2):
                part, ns = ns[:1], ns[1:]
                if part:
                    vs.append((vname(x + 4 + j), VA[(x * 3 + j) % len(VA)], "new", part))
        emit(rn, CATS[x % len(CATS)] + ra, dedup(vs), objects="Internal" in rn)
        x += 1
    # layouts that say nothing about the serialized form
    for i, c in enumerate((["repr(C)"], ["repr(align(8))"], ["repr(C, align(4))"], ["repr(C)", 'serde(rename_all = "snake_case")'])):
        emit("Repr::Plain", c, [(vname(k), [], "unit", []) for k in range(3)], numeric=[4, 1, 9] if i % 2 else None)
    for rn, ra in REPRS:
        for c in (["repr(C, u8)"], ["repr(u16)"], ["repr(C)"], ["repr(u8, align(4))"]):
            emit(rn, c + ra, [(vname(0), [], "struct", [FIELD[0], FIELD[3]]), (vname(1), [], "new", [FIELD[0]]), (vname(2), [], "struct", [FIELD[0]])], objects="Internal" in rn)
    for ty, nums in (("u64", [1, 2, 3]), ("i16", [-7, 7, 0]), ("i64", [-9, 0, 9]), ("usize", [0, 1, 2]), ("isize", [-1, 0, 1])):
        emit("Repr::Numeric", ["repr(%s)" % ty], [(vname(k), [], "unit", []) for k in range(3)], derive="Clone, Copy, Serialize_repr", numeric=nums)
    # everything a container can say, in combination
    for rn, ra in [("Repr::Plain", [])] + REPRS:
        for k in range(16):
            on = [k >> b & 1 for b in range(4)]
            og = (["nullable"] if on[0] else []) + (["inline"] if on[1] else []) + (['"about"'] if on[2] else [])
            c = (['serde(rename_all = "%s")' % RULES[k % len(RULES)]] if on[3] else []) + (["opg(%s)" % ", ".join(og)] if og else []) + (['serde(rename = "Other")'] if k % 3 == 0 else [])
            vs = []
            for j in range([2, 3, 1, 8][(k + (k >> 2)) % 4]):
                st = "unit" if rn == "Repr::Plain" else [["struct", "new", "tuple"], ["struct", "new", "unit"], ["struct", "unit", "new", "tuple"], ["struct", "new", "tuple", "unit"]][[x[0] for x in REPRS].index(rn)]
                st = st if st == "unit" else st[(j + k) % len(st)]
                vs.append((vname(k + j), VARIANT[(k + j * 5) % len(VARIANT)] if j else [], st, {"unit": [], "new": [FIELD[0]], "tuple": [FIELD[0], FIELD[0]], "struct": [FIELD[0], FIELD[k % len(FIELD)]][: k % 3]}[st]))
            vs = dedup(vs)
            if "Untagged" in rn and all(v[2] == "unit" for v in vs if not any("skip)" in a or "skip_serializing)" in a for a in v[1])):
                vs[0] = (vs[0][0], [], "struct", [FIELD[0]])
            emit(rn, (c + ra)[::-1] if k % 2 else c + ra, vs, objects="Internal" in rn)
    return o, fns


def uniq(fs):
    """No two fields with an explicit rename to the same key."""
    out, seen = [], set()
    for f in fs:
        rn = [a for a in f[0] if "rename" in a]
        k = rn[0] if rn else None
        if k and k in seen:
            continue
        seen.add(k)
        out.append(f)
    return out


def dedup(vs):
    out, seen = [], set()
    for v in vs:
        rn = [a for a in v[1] if "rename(" in a or "rename =" in a]
        k = rn[0] if rn else v[0]
        if k in seen or v[0] in [x[0] for x in out]:
            continue
        seen.add(k)
        out.append(v)
    if all(any(a in ("serde(skip)", "serde(skip_serializing)") for a in v[1]) for v in out):
        out[0] = (out[0][0], [], out[0][2], out[0][3])
    return out


# attributes -------------------------------------------------------------------------
# (opg attributes, description, format, example, nullable, inline, type)
ATTR = [
    ([], None, None, None, 0, 0, ""),
    (['"d1"'], "d1", None, None, 0, 0, ""),
    (['format = "f1"'], None, "f1", None, 0, 0, ""),
    (['example = "e1"'], None, None, "e1", 0, 0, ""),
    (['example_with = "3 + 4"'], None, None, "7", 0, 0, ""),
    (["nullable"], None, None, None, 1, 0, ""),
    (["inline"], None, None, None, 0, 1, ""),
    (['" d2\\n"', 'format = " F2 "', 'example = "e 2 "', "nullable", "inline"], " d2\\n", " F2 ", "e 2 ", 1, 1, ""),
    (["string"], None, None, None, 0, 0, "string"),
    (["integer", 'format = "f3"', '"d3"'], "d3", "f3", None, 0, 0, "integer"),
    (["number", 'example = "e3"', "nullable"], None, None, "e3", 1, 0, "number"),
    (["boolean", '"d4"', "nullable"], "d4", None, None, 1, 0, "boolean"),
    (["any"], None, None, None, 0, 0, "any"),
    (["inline", 'example_with = "crate::c17::EXAMPLE"', "nullable"], None, None, "shown", 1, 1, ""),
    (["string", 'format = "f4"', 'example_with = "1 == 1"', "inline"], None, "f4", "true", 0, 1, "string"),
]
# what a variant can say about its newtype content
VATTR = [a for a in ATTR if "nullable" not in a[0]]


def lit(a):
    q = lambda x: "None" if x is None else 'Some("%s")' % x
    return 'A { d: %s, f: %s, e: %s, n: %s, inline: %s, t: "%s" }' % (q(a[1]), q(a[2]), q(a[3]), "true" if a[4] else "false", "true" if a[5] else "false", a[6])


def opg(a, optional=False):
    l = list(a[0]) + (["optional"] if optional else [])
    return "#[opg(%s)] " % ", ".join(l) if l else ""


def c17():
    o = ["// Generated by tools/gen_types.py.", "#![allow(dead_code)]", "use crate::attrs::*;", "use crate::kit::*;", ""]
    fns = []

    def q(x):
        return "None" if x is None else 'Some("%s")' % x

    rnd = random.Random(17)
    CONT = [("", None, False), ('#[opg("cd")]\n', "cd", False), ("#[opg(nullable)]\n", None, True), ('#[opg(nullable, " Ce: \\"x\\" ")]\n', ' Ce: \\"x\\" ', True)]
    n = 0
    for i, a in enumerate(ATTR):
        for opt in (False, True):
            c = CONT[(i + opt) % 4]
            b = ATTR[(i * 4 + 3 + opt) % len(ATTR)]
            o.append("#[derive(OpgModel)]\n%spub struct N%d {\n    %sfirst: V<0>,\n    plain: V<1>,\n    %slast: V<0>,\n}" % (c[0], n, opg(a, opt), opg(b)))
            o.append('fn n%d() {\n    tag("N%d");\n    structure(ty::<N%d>(), obj(%s, %s, vec![("first", want::<V<0>>(%s), %s), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(%s), true)]));\n}' % (
                n, n, n, q(c[1]), str(c[2]).lower(), lit(a), str(not opt).lower(), lit(b)))
            fns.append("n%d" % n)
            n += 1
        c = CONT[i % 4]
        b = ATTR[(i * 7 + 1) % len(ATTR)]
        more = i % 4
        o.append("#[derive(OpgModel)]\n%spub struct T%d(%sV<0>, V<1>, %sV<1>%s);" % (c[0], n, opg(a), opg(b), ", V<0>" * more))
        o.append('fn t%d() {\n    tag("T%d");\n    structure(ty::<T%d>(), arr(%s, %s, vec![want::<V<0>>(%s), want::<V<1>>(NONE), want::<V<1>>(%s)%s]));\n}' % (n, n, n, q(c[1]), str(c[2]).lower(), lit(a), lit(b), ", want::<V<0>>(NONE)" * more))
        fns.append("t%d" % n)
        n += 1
    # none, one, two or all of the attributes, with every explicit type and some of serde's
    words = ["optional", "inline", "nullable", '"td"', 'format = "tf"', 'example = "te"']
    subsets = [[]] + [[i] for i in range(6)] + [[i, k] for i in range(6) for k in range(i)] + [list(range(6))]
    fs = []
    for sa in ([], ["rename"], ['serde(skip_serializing_if = "gone")']):
        for ti, t in enumerate(("", "string", "integer", "number", "boolean", "any")):
            for k, sub in enumerate(subsets):
                ws = [words[i] for i in sub] + ([t] if t else [])
                if (k + ti) % 2:
                    ws.reverse()
                key = "re-N%d" % len(fs) if sa == ["rename"] else None
                at = ['serde(rename = "%s")' % key] if key else sa
                og = ["opg(%s)" % ", ".join(ws)] if ws else []
                a = (None, "td" if 3 in sub else None, "tf" if 4 in sub else None, "te" if 5 in sub else None, 2 in sub, 1 in sub, t)
                fs.append(((at + og) if k % 2 else (og + at), key, a, not (0 in sub or "skip" in "".join(at))))
    random.Random(2).shuffle(fs)

    def fields(part):
        decl = "".join("    %s f%d: V<%d>,\n" % (" ".join("#[%s]" % x for x in f[0]), i, i % 2) for i, f in enumerate(part))
        return decl, lambda a: ", ".join('("%s", want::<V<%d>>(%s), %s)' % (f[1] or "f%d" % i, i % 2, a(lit(f[2])), str(f[3]).lower()) for i, f in enumerate(part))

    for k in range(0, len(fs), 6):
        c = CONT[(k // 6) % 4]
        decl, ws = fields(fs[k:k + 6])
        o.append("#[derive(Serialize, OpgModel)]\n%spub struct P%d {\n%s}" % (c[0], n, decl))
        o.append('fn p%d() {\n    tag("P%d");\n    structure(ty::<P%d>(), obj(%s, %s, vec![%s]));\n}' % (n, n, n, q(c[1]), str(c[2]).lower(), ws(lambda x: x)))
        fns.append("p%d" % n)
        n += 1
    for k in range(0, len(fs), 15):
        rn, ra = [("Repr::External", ""), ('Repr::Internal("tag")', '#[serde(tag = "tag")]\n'), ('Repr::Adjacent("t", "c")', '#[serde(tag = "t", content = "c")]\n'), ("Repr::Untagged", "#[serde(untagged)]\n")][(k // 15) % 4]
        c = CONT[(k // 15) % 2]
        vs, ws = [], []
        for j in range(3):
            decl, w = fields(fs[k + 5 * j:k + 5 * j + 5])
            inl = (k // 15 + j) % 3 == 0
            sv = (['"vd%d"' % j] if j else []) + (["inline"] if inl else [])
            vs.append("%sV%d {\n%s}" % ("#[opg(%s)] " % ", ".join(sv) if sv else "", j, decl))
            ws.append("ModelReference::Inline(obj(%s, false, vec![%s]))" % (q("vd%d" % j if j else None), w(lambda x: "over(%s, A { inline: true, ..NONE })" % x if inl else x)))
        o.append("#[derive(Serialize, OpgModel)]\n%s%spub enum Y%d {\n%s}" % (ra, c[0], n, ",\n".join(vs)))
        o.append('fn y%d() {\n    tag("Y%d");\n    alternatives(ty::<Y%d>(), %s, %s, %s, vec![%s]);\n}' % (n, n, n, rn, q(c[1]), str(c[2]).lower(), ", ".join(ws)))
        fns.append("y%d" % n)
        n += 1
    # tuple structs without elements
    for c in CONT:
        o.append("#[derive(OpgModel)]\n%spub struct Z%d();" % (c[0], n))
        o.append('fn z%d() {\n    tag("Z%d");\n    structure(ty::<Z%d>(), arr(%s, %s, vec![]));\n}' % (n, n, n, q(c[1]), str(c[2]).lower()))
        fns.append("z%d" % n)
        n += 1
    # newtype structs: field over container
    for i, a in enumerate(ATTR):
        for k, b in enumerate(ATTR):
            if (i + k) % 2 and i and k:
                continue
            if a[6] == "any" or (a[6] == "" and b[6] == "any"):
                continue
            # an inline container is unnamed
            o.append("#[derive(OpgModel)]\n%s\npub struct W%d(%sV<0>);" % (opg(b).strip(), n, opg(a)))
            o.append('fn w%d() {\n    tag("W%d");\n    structure(ty::<W%d>(), want_model::<V<0>>(over(%s, %s)));\n}' % (n, n, n, lit(a), lit(b)))
            fns.append("w%d" % n)
            n += 1
    # enums
    for rn, ra in [("Repr::External", ""), ('Repr::Internal("tag")', '#[serde(tag = "tag")]\n'), ('Repr::Adjacent("t", "c")', '#[serde(tag = "t", content = "c")]\n'), ("Repr::Untagged", "#[serde(untagged)]\n")]:
        internal = "Internal" in rn
        oneof = internal or "Untagged" in rn
        for i in range(30):
            va = rnd.choice(VATTR)
            fa = ATTR[i % len(ATTR)]
            vd = rnd.choice([None, "vd", " Vd. ", "vd"])
            vinl = rnd.random() < 0.35
            c = CONT[rnd.randrange(2 if oneof else 4)]
            if internal and va[6]:
                va = rnd.choice(VATTR[:6])
            if internal and fa[6]:
                fa = rnd.choice(ATTR[:8])
            inner = "V<3>" if internal else "V<0>"
            vs, ws = [], []
            vs.append("    %sAlpha(%s%s),\n" % (opg(va), opg(fa), inner))
            if internal:
                ws.append("ModelReference::Inline(want_model::<V<3>>(over(%s, %s)))" % (lit(fa), lit(va)))
            else:
                ws.append("want::<V<0>>(over(%s, %s))" % (lit(fa), lit(va)))
            sv = (["%s" % ('"%s"' % vd)] if vd else []) + (["inline"] if vinl else [])
            sa = "#[opg(%s)] " % ", ".join(sv) if sv else ""
            fb = rnd.choice(ATTR)
            opt = rnd.random() < 0.3
            vout = 'A { inline: %s, ..NONE }' % ("true" if vinl else "false")
            vs.append("    %sBeta { %sx: V<0>, y: V<1> },\n" % (sa, opg(fb, opt)))
            ws.append('ModelReference::Inline(obj(%s, false, vec![("x", want::<V<0>>(over(%s, %s)), %s), ("y", want::<V<1>>(%s), true)]))' % (q(vd), lit(fb), vout, str(not opt).lower(), vout))
            if not internal:
                fc = rnd.choice(ATTR)
                more = rnd.randrange(4)
                vs.append("    %sGamma(V<1>, %sV<0>%s),\n" % (sa, opg(fc), ", V<1>" * more))
                ws.append('ModelReference::Inline(arr(%s, false, vec![want::<V<1>>(%s), want::<V<0>>(over(%s, %s))%s]))' % (q(vd), vout, lit(fc), vout, (", want::<V<1>>(%s)" % vout) * more))
            if internal:
                vs.append('    #[opg("unit")] Delta,\n')
                ws.append('ModelReference::Inline(obj(Some("unit"), false, vec![]))')
            if "Untagged" in rn:
                vs.append('    #[opg("unit")] Delta,\n')
                ws.append('want::<()>(A { d: Some("unit"), ..NONE })')
            o.append("#[derive(Serialize, OpgModel)]\n%s%spub enum E%d {\n%s}" % (ra, c[0], n, "".join(vs)))
            o.append('fn e%d() {\n    tag("E%d");\n    alternatives(ty::<E%d>(), %s, %s, %s, vec![%s]);\n}' % (n, n, n, rn, q(c[1]), str(c[2]).lower(), ", ".join(ws)))
            fns.append("e%d" % n)
            n += 1
    return o, fns


if __name__ == "__main__":
    for f, (o, fns), per, setup in (("c01", c01(), 24, "pick_kinds(3, tiered(3, KINDS));"), ("c02", c02(), 24, "pick_kinds(2, tiered(3, KINDS));\n    set_kind(2, 2);\n    set_kind(3, if flip() { 1 } else { 5 });"),
                                    ("c17", c17(), 24, "pick_kinds(2, KINDS);\n    set_kind(3, if flip() { 1 } else { 5 });\n    described_kinds();")):
        names = group(o, fns, per, "g", setup)
        with open(os.path.join(OUT, {"c01": "structs", "c02": "enums", "c17": "docs"}[f], "src", f + "_gen.rs"), "w") as h:
            h.write("\n".join(o) + "\n")
        print(f, len(fns), "types", len(names), "groups")
