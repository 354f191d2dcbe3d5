"""What each property is decided over: harness crates, bounds, shards."""

CRATES = {
    "models": {},
    "api": {"declarations": True},
    "structs": {"declarations": True},
    "enums": {"declarations": True},
    "standard": {"declarations": True},
    "plain": {"declarations": True},
    "docs": {"declarations": True},
    "graphs": {"declarations": True},
    "derive": {"generate": "tools/gen_derive.py"},
}

# entry -> (shards quick, shards thorough); others: 1 and 8
SHARDS = {
    "c04_graph": (8, 8),
    "c04_cycle": (4, 8),
    "c05_spine": (8, 8),
    "c05_names": (4, 8),
    "c08_merge": (8, 8),
    "c08_large": (8, 8),
    "c12_wrappers": (4, 8),
    "c12_tuples": (4, 8),
    "c12_arbitrary": (4, 8),
    "c06_add": (4, 8),
    "c06_mention": (2, 8),
    "c09_tree": (4, 8),
    "c15_graph": (4, 8),
    "c01_fields": (8, 8),
    "c03_fields": (8, 8),
    "c03_variants": (8, 8),
    "c03_rules": (8, 8),
    "c03_renames": (8, 8),
    "c03_raw": (8, 8),
    "c16_enums": (8, 8),
    "c16_structs": (4, 8),
    "c16_pairs": (2, 8),
    "c03_long": (4, 8),
    "c03_unicode": (3, 8),
    "c03_texts": (3, 8),
    "c17_texts": (4, 8),
    "c13_derived": (4, 8),
    "c04_derived": (2, 8),
    "c19_raw": (2, 8),
}

ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness, /repo and std (release, opt-level 1, lto=fat, overflow checks on, panic=abort) means what the compiled code does; the native replay is an unoptimised debug build of the same sources",
    "the symbolic executor /verif/sx implements LLVM IR and its intrinsics correctly (sampled paths are replayed natively and compared observation by observation; sampled queries are re-decided by cvc5 and a second z3)",
    "allocation never fails",
    "the recording serializer stands for any serde serializer: what opg passes to it is what a format writes",
]

FAMILY = ("declarations outside the family (the derive runs at compile time: one expansion per declaration); "
          "field types are symbolic: V<I> takes any of six schema and value shapes, so a declaration stands for all its instantiations over them")

PROPS = {
    "C01": {
        "title": "struct schemas",
        "crates": ["structs"],
        "bounds": [
            "836 generated struct declarations (named, tuple, newtype and transparent, up to 6 fields; every rename_all rule, rename, skip, skip_serializing, skip_serializing_if, default, each with none, one, two or all of optional, inline, nullable, description, format and example, and with every explicit type; every combination of tag, rename, rename_all, nullable, inline and description on the container), a struct of 40 fields, one whose keys need escapes or differ little, a tuple struct of 20 fields, and hand-written newtypes, generics, lifetimes and standard field types; every field type takes 3 of 6 symbolic shapes with symbolic values, present or absent where it can be skipped",
            "all six shapes for each field",
        ],
        "outside": FAMILY,
    },
    "C02": {
        "title": "enum schemas",
        "crates": ["enums"],
        "bounds": [
            "493 generated enum declarations (plain, external, internal, adjacent, untagged, numeric repr; unit, newtype, tuple and struct variants; every rename_all rule, rename, skip, also of a newtype variant's only field; every combination of rename_all, nullable, inline and description on the container; every serde attribute of a field with none, one, two or all opg attributes and every explicit type) and hand-written generic ones; every variant, every field type of 3 of 6 symbolic shapes with symbolic values",
            "all six shapes for each field",
        ],
        "outside": FAMILY,
    },
    "C03": {
        "title": "names",
        "crates": ["derive"],
        "bounds": [
            "the derive's own source executed over token streams: every identifier of up to 4 ASCII characters (letters, digits, underscores; symbolic) and identifiers of up to 18 characters with one symbolic character inside, raw or not, as field or variant in 10 and 9 kinds of declaration, under every rename_all rule (both spellings); every rename_all_fields rule against the variant's own rule, in 5 kinds of enum; any rule text of up to 2 printable characters or 22 letters, digits, dashes, underscores, dots and spaces, and every rule with one symbolic character replaced, removed or added at every place; any explicit name of 0 or 3 printable characters or of up to 22 letters, digits and the like; identifiers with one of ten letters that are not ASCII next to a symbolic one, and explicit names with such letters, quotes, escapes and control characters; oracle: serde_derive 1.0.229's own renaming code, executed on the same symbolic identifier",
            "identifiers of up to 6 characters, rule texts of up to 7 printable characters or 32 letters and the like, explicit names of up to 4, every kind of declaration",
        ],
        "outside": "other identifiers that are not ASCII, those that serde itself does not accept, and those of underscores only; the step from the derive's literals to the schema, which the compiled families of C01 and C02 decide",
        "assumptions": ["proc_macro2's own token streams behave as the compiler's do"],
    },
    "C04": {
        "title": "no dangling references",
        "crates": ["models", "graphs"],
        "bounds": [
            "graphs of up to 3 symbolic types (named by 1 symbolic byte or unnamed; object or oneOf; up to 2 mentions each, inline or not, with or without context parameters, cycles through links), 2 mentions in any order, registry empty or produced by earlier mentions; chains and rings of 4 types in registries of up to 40 schemas; histories of 2 mentions over 17 derived and standard types",
            "as quick, with up to 3 mentions in a history",
        ],
    },
    "C05": {
        "title": "verify_schemas iff",
        "crates": ["models"],
        "bounds": [
            "every position of a reference down to depth 2 in one schema, with siblings, descriptions and nullability around it; a reference at depths up to 130 and in collections of up to 40; registries of up to 2 schemas with names of 1 symbolic byte, and a reference and a name each of 0 to 24 symbolic bytes (8 lengths each) in registries of up to 15 schemas",
            "depth 3; registries of up to 3 schemas",
        ],
    },
    "C06": {
        "title": "never overwritten",
        "crates": ["models"],
        "bounds": [
            "registries of up to 2 schemas under symbolic names, symbolic schemas of depth 1; histories of up to 3 operations; mentions without parameters, with a description, with all parameters; up to 2 earlier security schemes; registries of up to 40 schemas",
            "deeper schemas, histories of up to 4 operations",
        ],
    },
    "C07": {
        "title": "context parameters",
        "crates": ["models"],
        "bounds": [
            "all combinations of parameters over symbolic schemas to depth 2; texts: any ASCII text of up to 16 bytes (all texts of a run of one length), any two-byte UTF-8 character of one block, or 302 bytes symbolic at both ends",
            "depth 3",
        ],
    },
    "C08": {
        "title": "merge",
        "crates": ["models"],
        "bounds": [
            "objects of up to 2 properties under symbolic 1-byte names on each side; objects of 3, 13 and 40 properties with symbolic collisions; required lists of up to 3 symbolic names of 1 to 3 bytes on each side",
            "objects of up to 3 properties",
        ],
    },
    "C09": {
        "title": "schema serialization",
        "crates": ["models"],
        "bounds": [
            "symbolic schemas of every kind to depth 2, lists of up to 2 (and of 13, 40); texts: any ASCII text of up to 16 bytes (all texts of a run of one length), any two-byte UTF-8 character of one block, or 302 bytes symbolic at both ends",
            "depth 3, longer lists",
        ],
    },
    "C10": {
        "title": "document serialization",
        "crates": ["models"],
        "bounds": [
            "every optional attribute present or absent, collections of up to 2 elements (and of 13, 40), every status code; texts: any ASCII text of up to 16 bytes (all texts of a run of one length), any two-byte UTF-8 character of one block, or 302 bytes symbolic at both ends",
            "collections of up to 3",
        ],
    },
    "C11": {
        "title": "path templates",
        "crates": ["models", "api"],
        "bounds": [
            "paths of up to 3 segments of up to 2 symbolic bytes; longer texts; 17 forms of templates in descriptions (types with ASCII and other names, 14 segments); 56 generated whole descriptions that combine the forms (1 to 3 paths, nested callbacks, properties in any order, with and without trailing commas), types named or not, texts and flags symbolic",
            "paths of up to 4 segments",
        ],
    },
    "C12": {
        "title": "standard types",
        "crates": ["standard", "plain"],
        "bounds": [
            "every OpgModel implementation for a standard type; integers, floats and characters over all their values; sequences, sets, maps of up to 2 elements, arrays of every length up to 32 (with and without opg's default features); element types symbolic (6 shapes, described or not) or arbitrary symbolic schemas",
            "sequences and maps of up to 3 elements",
        ],
        "outside": "longer sequences; uuid and chrono values other than the ones symbolic bytes reach",
    },
    "C13": {
        "title": "inlining",
        "crates": ["models", "graphs"],
        "bounds": ["symbolic types named or not, all parameter combinations, nesting 2; 47 derived types (structs, newtypes, every enum representation) with inlining on container, variant or field, over symbolic field types, mentioned with symbolic parameters", "as quick with empty texts"],
    },
    "C14": {
        "title": "api descriptions",
        "crates": ["api"],
        "bounds": [
            "a fixed family of API descriptions covering every syntactic form of the describe_api! grammar, every expression in them (descriptions, titles, versions, urls, flags) symbolic: texts as for C07, flags symbolic; up to 17 parameters, tags and servers, 21 responses, 9 paths with repeated templates, callbacks within callbacks; every status code from 100 to 999; 56 generated whole descriptions that combine the forms (1 to 3 paths, nested callbacks, properties in any order, with and without trailing commas), types named or not, texts and flags symbolic",
            "as quick, longer texts",
        ],
        "outside": "descriptions whose syntactic form is not in the family (the macro is expanded at compile time: one expansion per form)",
    },
    "C15": {
        "title": "recursive types",
        "crates": ["models", "graphs"],
        "bounds": ["graphs of up to 3 symbolic types with cycles; 26 recursive derived types (direct, mutual, through every standard container, newtypes, generics and every enum representation), each entered from every member of its cycle", "more edges, all field shapes"],
    },
    "C16": {
        "title": "the derive always answers",
        "crates": ["derive"],
        "bounds": [
            "the derive's own source executed over token streams: any word of up to 8 lower case letters and underscores (symbolic) as opg attribute, bare, with a string, a number or a list, in 10 positions; all pairs of opg attributes in one or two lists; 24 malformed forms; struct and enum declarations over 17 container, 14 field and 9 variant serde attributes, 10 type forms, 4 generics, 6 enum representations (containers x generics, fields x types, variants x fields); 44 declarations of unusual form (visibilities, const generics, raw and non-ASCII names, odd types, discriminant expressions, unions, what serde rejects) each with 9 attribute lists; serde attributes with every form of value",
            "words of up to 12 letters, triples of attributes, the full product of declarations",
        ],
        "outside": "declarations not composed of these parts; expressions that syn without its full feature does not parse (blocks), in discriminants and example_with; tuple variants in internally tagged enums (serde rejects them)",
        "assumptions": ["proc_macro2's own token streams behave as the compiler's do"],
    },
    "C17": {
        "title": "documentation attributes",
        "crates": ["docs", "derive"],
        "bounds": [
            "381 generated declarations placing description, format, example, nullable, optional, inline and explicit types on containers, variants and fields in combination, and hand-written ones; field types symbolic (6 shapes); any printable text of 0, 1 or 3 characters, any of 24 letters, digits and spaces, texts of 334 characters and texts with escapes as description, format or example in 16 positions of the derive's own source",
            "texts of up to 6 characters",
        ],
        "outside": FAMILY,
    },
    "C18": {
        "title": "security",
        "crates": ["api"],
        "bounds": [
            "a fixed family of API descriptions covering every syntactic form of security declarations and requirements, names, descriptions, formats and scopes symbolic texts (as for C07); 56 generated whole descriptions that combine the forms (1 to 3 paths, nested callbacks, properties in any order, with and without trailing commas), types named or not, texts and flags symbolic",
            "as quick, longer texts",
        ],
        "outside": "syntactic forms not in the family",
    },
    "C19": {
        "title": "literal schemas",
        "crates": ["api"],
        "bounds": [
            "a fixed family of describe_type! literals covering every syntactic form, every expression in them symbolic; link texts any text or one that looks like a reference already; literals of many properties",
            "as quick, longer texts",
        ],
        "outside": "syntactic forms not in the family",
    },
}

NOT_APPLICABLE = {}
