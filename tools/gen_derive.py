#!/usr/bin/env python3
"""Writes work/gen/opg_derive_src: /repo/opg_derive's current sources as an ordinary library.

A procedural macro runs only inside the compiler; the same functions over proc_macro2's
own token streams run anywhere. Only the outermost boundary is replaced: the compiler's
TokenStream, the attribute that registers the macro, and the parse_macro_input! helper.
"""
import os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/opg_derive"
OUT = os.path.join(VERIF, "work", "gen", "opg_derive_src")

SHIM = '''
#[allow(unused_macros)]
macro_rules! parse_macro_input {
    ($x:ident as $t:ty) => {
        match syn::parse2::<$t>(proc_macro2::TokenStream::from($x)) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($x:ident) => {
        match syn::parse2(proc_macro2::TokenStream::from($x)) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error().into(),
        }
    };
}
'''


def transform(s, root):
    entry = None
    m = re.search(r"#\[proc_macro_derive\([^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub fn (\w+)", s)
    if m:
        entry = m.group(1)
    s = re.sub(r"#\[proc_macro_derive\([^\]]*\]", "", s)
    s = re.sub(r"extern crate proc_macro;", "", s)
    s = re.sub(r"\bproc_macro::", "proc_macro2::", s)
    s = re.sub(r"(?:::)?\bsyn::parse_macro_input\s*!", "parse_macro_input!", s)
    s = re.sub(r"use syn::parse_macro_input;", "", s)
    s = re.sub(r"(use syn::\{[^;]*?)\bparse_macro_input\s*,?", r"\1", s)
    return s, entry


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def main():
    entry, seen = None, set()
    for base, dirs, files in os.walk(os.path.join(SRC, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            p = os.path.join(base, f)
            rel = os.path.relpath(p, SRC)
            s, e = transform(open(p).read(), rel == "src/lib.rs")
            if e:
                entry = (rel, e)
            if rel == "src/lib.rs":
                root = s
            else:
                put(os.path.join(OUT, rel), s)
                seen.add(rel)
    if not entry or entry[0] != "src/lib.rs":
        sys.exit("no derive entry point found in %s/src/lib.rs" % SRC)
    # inner attributes and doc comments stay first
    m = re.match(r"(?:\s*(?://[^\n]*|#!\[[^\]]*\])\s*\n)*", root)
    root = root[: m.end()] + SHIM + root[m.end():]
    root += "\n#[allow(clippy::useless_conversion)]\npub fn expand(input: proc_macro2::TokenStream) -> proc_macro2::TokenStream {\n    %s(input.into()).into()\n}\n" % entry[1]
    put(os.path.join(OUT, "src/lib.rs"), root)
    seen.add("src/lib.rs")
    for base, dirs, files in os.walk(os.path.join(OUT, "src")):
        for f in files:
            if os.path.relpath(os.path.join(base, f), OUT) not in seen:
                os.remove(os.path.join(base, f))
    toml = open(os.path.join(SRC, "Cargo.toml")).read()
    ed = re.search(r'edition\s*=\s*"(\d+)"', toml)
    deps = ""
    sect = re.search(r"\[dependencies\]\n(.*?)(?=\n\[|\Z)", toml, re.S).group(1)
    for line in sect.strip().split("\n"):
        name = line.split("=")[0].strip()
        if name in ("syn", "quote", "proc-macro2"):
            continue
        deps += line + "\n"
    put(os.path.join(OUT, "Cargo.toml"), '''[package]
name = "opg_derive_src"
version = "0.0.0"
edition = "%s"

[workspace]

[dependencies]
syn = { version = "1.0", default-features = false, features = ["derive", "parsing", "printing", "clone-impls", "visit"] }
quote = { version = "1.0", default-features = false }
proc-macro2 = { version = "1.0", default-features = false }
%s''' % (ed.group(1) if ed else "2018", deps))


main()
