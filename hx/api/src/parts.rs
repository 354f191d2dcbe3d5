//! The parts of a description that each property is about.
use crate::kit::*;

pub struct Want {
    pub info: Info,
    pub tags: Vec<(&'static str, Option<String>)>,
    pub servers: Vec<(String, Option<String>)>,
    pub paths: Vec<(Path, PathValue)>,
    pub used: Vec<usize>,
    pub schemes: BTreeMap<String, SecurityScheme>,
}

macro_rules! setup {
    ($t:ident $v:ident $s:ident $u:ident $f:ident $g:ident $basic:ident $keyed:ident $whole:ident) => {
        let ($t, $v) = (ascii(1), ascii(2));
        let ($s, $u) = ($t.as_str(), $v.as_str());
        let ($f, $g) = (sym_bool(), sym_bool());
        let $basic = HttpSecurityScheme::Basic { description: Some($v.clone()) };
        let $keyed = ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: $v.clone(), description: None };
        let $whole = whole_scheme(&$v);
    };
}
pub(crate) use setup;

pub fn basic_scheme(v: &str) -> SecurityScheme {
    SecurityScheme::Http(HttpSecurityScheme::Basic { description: opt(v) })
}
pub fn keyed_scheme(v: &str) -> SecurityScheme {
    SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: own(v), description: None })
}
pub fn whole_scheme(v: &str) -> SecurityScheme {
    SecurityScheme::Http(HttpSecurityScheme::Bearer { format: opt(v), description: opt("whole") })
}
pub fn list(items: ModelReference) -> ModelReference {
    ModelReference::Inline(plain(ModelTypeDescription::Array(ModelArray { items: Box::new(items) })))
}
pub fn unit() -> ModelReference {
    ModelReference::Inline(<() as OpgModel>::get_schema(&mut Components::default()))
}

/// Every path item, those of callbacks after the one they belong to.
fn all<'a>(paths: &'a [(Path, PathValue)], out: &mut Vec<&'a (Path, PathValue)>) {
    for p in paths {
        out.push(p);
        for o in p.1.operations.values() {
            for c in o.callbacks.values() {
                all(&c.paths, out);
            }
        }
    }
}
fn items(paths: &[(Path, PathValue)]) -> Vec<&(Path, PathValue)> {
    let mut out = Vec::new();
    all(paths, &mut out);
    out
}

pub fn c11(o: &Opg, w: &Want) {
    observe_doc(o);
    let (a, b) = (items(&o.paths), items(&w.paths));
    check(a.len() == b.len(), "every path is present");
    for (a, b) in a.iter().zip(&b) {
        check(eq_path(&a.0, &b.0), "the segments are those written, in order");
        let only = |v: &PathValue| -> BTreeMap<String, OperationParameter> {
            let mut m = BTreeMap::new();
            for (k, p) in &v.parameters {
                if matches!(p.parameter_in, ParameterIn::Path) {
                    m.insert(k.clone(), p.clone());
                }
            }
            m
        };
        check(eq_parameters(&only(&a.1), &only(&b.1)), "a required path parameter of that name with the schema of its type");
        check(a.1.operations.values().all(|o| o.parameters.values().all(|p| !matches!(p.parameter_in, ParameterIn::Path))), "a templated parameter is declared once");
    }
}

fn unsecured(v: &mut PathValue) {
    for o in v.operations.values_mut() {
        o.security.clear();
        for c in o.callbacks.values_mut() {
            for p in &mut c.paths {
                unsecured(&mut p.1);
            }
        }
    }
}

pub fn c14(o: &Opg, w: &Want) {
    observe_doc(o);
    check(seq_eq(&o.info.title, &w.info.title) && seq_eq(&o.info.version, &w.info.version) && eq_opt(&o.info.description, &w.info.description), "info as written");
    check(o.tags.len() == w.tags.len(), "every tag is present, and nothing else");
    for (k, d) in &w.tags {
        check(o.tags.get(*k).map_or(false, |t| eq_opt(&t.description, d)), "a tag carries the description given");
    }
    check(o.servers.len() == w.servers.len(), "every server is present");
    check(o.servers.iter().zip(&w.servers).all(|(s, w)| seq_eq(&s.url, &w.0) && eq_opt(&s.description, &w.1)), "servers keep url, description and order");
    check(o.paths.len() == w.paths.len(), "every path is present");
    for (a, b) in o.paths.iter().zip(&w.paths) {
        let (mut a, mut b) = (a.1.clone(), b.1.clone());
        unsecured(&mut a);
        unsecured(&mut b);
        check(a.operations.len() == b.operations.len(), "every operation is present");
        check(eq_item(&a, &b), "paths and operations are exactly those written");
    }
    check(eq_schemas(&o.components.schemas, &schemas(&w.used)), "the types written are registered");
}

pub fn c18(o: &Opg, w: &Want) {
    observe_doc(o);
    check(o.components.security_schemes.len() == w.schemes.len(), "every declared scheme is registered, and nothing else");
    check(eq_schemes(&o.components.security_schemes, &w.schemes), "kind, location, format and description are those given");
    let (a, b) = (items(&o.paths), items(&w.paths));
    check(a.len() == b.len(), "every path is present");
    for (a, b) in a.iter().zip(&b) {
        check(a.1.operations.len() == b.1.operations.len(), "every operation is present");
        for (a, b) in a.1.operations.values().zip(b.1.operations.values()) {
            check(eq_security(&a.security, &b.security), "requirements carry their schemes and scopes, in order");
        }
    }
}
