//! Derived types that mention themselves and each other.
#![allow(dead_code)]
use crate::kit::*;
use std::collections::*;

// ---- direct recursion
#[derive(OpgModel, Serialize)]
struct List {
    value: V<0>,
    next: Option<Box<List>>,
}
#[derive(OpgModel, Serialize)]
struct Tree {
    children: Vec<Tree>,
}
#[derive(OpgModel, Serialize)]
struct Trie {
    #[opg("described", nullable)]
    next: BTreeMap<String, Trie>,
    leaf: V<0>,
}
#[derive(OpgModel, Serialize)]
struct Node(V<0>, Vec<Node>);
#[derive(OpgModel, Serialize)]
struct Gen<T> {
    value: T,
    #[opg("other")]
    next: Option<Box<Gen<T>>>,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "k")]
struct Tagged {
    me: Box<Tagged>,
}
#[derive(OpgModel, Serialize)]
enum Expr {
    Lit(V<0>),
    Neg(Box<Expr>),
    Add(Box<Expr>, Box<Expr>),
    Let { value: Box<Expr>, body: Vec<Expr> },
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
enum Value {
    Null,
    Text(String),
    List(Vec<Value>),
    Map(BTreeMap<String, Value>),
    Pair(Box<Value>, V<0>),
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum Adj {
    End,
    Next(Box<Adj>),
    Both(Box<Adj>, V<0>),
    Named { at: Option<Box<Adj>> },
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum Int {
    End,
    Next { at: Box<Int>, value: V<0> },
}
// ---- through every standard type that holds others
#[derive(OpgModel)]
struct Tuples {
    v: V<0>,
    one: Box<(Tuples,)>,
    two: Vec<(u8, Tuples)>,
    three: Option<Box<(Tuples, u8, Box<Tuples>)>>,
    ten: Box<(u8, u8, u8, u8, u8, u8, u8, u8, u8, Tuples)>,
}
#[derive(OpgModel)]
struct Arrays(V<0>, Box<[Arrays; 1]>, Vec<[Arrays; 3]>, #[opg("described")] Box<[Arrays; 32]>, Box<[Arrays]>);
#[derive(OpgModel)]
struct Seqs {
    v: V<0>,
    deque: VecDeque<Seqs>,
    list: LinkedList<Seqs>,
    set: HashSet<Seqs>,
    #[opg(nullable)]
    heap: BinaryHeap<Seqs>,
    map: HashMap<String, Seqs>,
    deep: BTreeMap<String, HashMap<u8, Vec<Seqs>>>,
}
#[derive(OpgModel)]
struct Owners {
    v: V<0>,
    rc: Rc<Owners>,
    arc: std::sync::Arc<Owners>,
    cell: Box<std::cell::Cell<Owners>>,
    #[opg(optional)]
    refcell: Rc<std::cell::RefCell<Owners>>,
    by_ref: &'static Owners,
    by_mut: &'static mut Owners,
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum Mixed {
    A(Box<(Mixed, V<0>)>),
    B(HashMap<String, (Mixed, Mixed)>),
    C { c: Rc<[Mixed; 2]> },
}
// ---- mutual recursion
#[derive(OpgModel, Serialize)]
struct Ping {
    pong: Box<Pong>,
    #[opg("described")]
    again: Option<Vec<Pong>>,
}
#[derive(OpgModel, Serialize)]
struct Pong {
    ping: Box<Ping>,
    v: V<0>,
}
#[derive(OpgModel, Serialize)]
enum Stmt {
    Expr(Term),
    Block(Vec<Stmt>),
}
#[derive(OpgModel, Serialize)]
enum Term {
    Call { args: Vec<Term> },
    Lambda(Box<Stmt>),
    Value(V<0>),
}
#[derive(OpgModel, Serialize)]
struct One(Box<Two>, u8);
#[derive(OpgModel, Serialize)]
struct Two {
    three: BTreeMap<String, Three>,
}
#[derive(OpgModel, Serialize)]
enum Three {
    One(Vec<One>),
    Two(Box<Two>),
    V(V<0>),
}
// a newtype inside the cycle, and a type that is inlined into it
#[derive(OpgModel, Serialize)]
struct Parent {
    kids: Kids,
    #[opg(inline)]
    leaf: Leaf,
}
#[derive(OpgModel, Serialize)]
struct Kids(Vec<Parent>);
#[derive(OpgModel, Serialize)]
struct Leaf {
    v: V<0>,
}
// a type declared inline that mentions the cycle
#[derive(OpgModel, Serialize)]
#[opg(inline)]
struct Hidden {
    home: Box<Home>,
    v: V<0>,
}
#[derive(OpgModel, Serialize)]
struct Home {
    hidden: Vec<Hidden>,
}
// a type that is not part of a cycle but reaches several
#[derive(OpgModel, Serialize)]
struct All {
    list: List,
    #[opg("described")]
    expr: Expr,
    ping: Ping,
    // (an Option of a named type that was not mentioned before: see known-findings)
    pong: Option<Pong>,
    two: Rc<Two>,
}
use std::rc::Rc;

#[derive(Clone, Copy)]
struct Cycle {
    t: Ty,
    name: &'static str,
    reach: &'static [&'static str],
}
fn cycle(i: u32) -> Cycle {
    let c = |t: Ty, name: &'static str, reach: &'static [&'static str]| Cycle { t, name, reach };
    match i {
        0 => c(ty::<List>(), "List", &["List"]),
        1 => c(ty::<Tree>(), "Tree", &["Tree"]),
        2 => c(ty::<Trie>(), "Trie", &["Trie"]),
        3 => c(ty::<Node>(), "Node", &["Node"]),
        4 => c(ty::<Gen<V<0>>>(), "Gen", &["Gen"]),
        5 => c(ty::<Tagged>(), "Tagged", &["Tagged"]),
        6 => c(ty::<Expr>(), "Expr", &["Expr"]),
        7 => c(ty::<Value>(), "Value", &["Value"]),
        8 => c(ty::<Adj>(), "Adj", &["Adj"]),
        9 => c(ty::<Int>(), "Int", &["Int"]),
        10 => c(ty::<Ping>(), "Ping", &["Ping", "Pong"]),
        11 => c(ty::<Pong>(), "Pong", &["Ping", "Pong"]),
        12 => c(ty::<Stmt>(), "Stmt", &["Stmt", "Term"]),
        13 => c(ty::<Term>(), "Term", &["Stmt", "Term"]),
        14 => c(ty::<One>(), "One", &["One", "Two", "Three"]),
        15 => c(ty::<Two>(), "Two", &["One", "Two", "Three"]),
        16 => c(ty::<Three>(), "Three", &["One", "Two", "Three"]),
        17 => c(ty::<Parent>(), "Parent", &["Parent", "Kids"]),
        18 => c(ty::<Kids>(), "Kids", &["Parent", "Kids"]),
        19 => c(ty::<Home>(), "Home", &["Home"]),
        20 => c(ty::<Tuples>(), "Tuples", &["Tuples"]),
        21 => c(ty::<Arrays>(), "Arrays", &["Arrays"]),
        22 => c(ty::<Seqs>(), "Seqs", &["Seqs"]),
        23 => c(ty::<Owners>(), "Owners", &["Owners"]),
        24 => c(ty::<Mixed>(), "Mixed", &["Mixed"]),
        _ => c(ty::<All>(), "All", &["All", "List", "Expr", "Ping", "Pong", "One", "Two", "Three"]),
    }
}
const CYCLES: u32 = 26;

/// Mentions of types that reach every name given, and what is registered afterwards.
fn exactly(cx: &Components, names: &[&str]) {
    let mut want: Vec<&str> = Vec::new();
    for n in names {
        if !want.contains(n) {
            want.push(n);
        }
    }
    if named(0) && !want.contains(&"V0") && (names.len() != 1 || names[0] != "Tree") && (names.len() != 1 || names[0] != "Tagged") {
        // every other cycle holds a V<0>
        want.push("V0");
    }
    check(want.iter().all(|n| registered(cx, n)), "every type of the cycle is registered");
    check(cx.schemas.len() == want.len(), "and nothing else");
}
fn has_link(m: &Model, names: &[&str]) -> bool {
    let mut l = Vec::new();
    links(m, &mut l);
    l.iter().any(|x| names.contains(x))
}
pub fn cycles() {
    pick_kinds(1, tiered(2, KINDS));
    let c = cycle(choose(CYCLES));
    tag(c.name);
    let mut cx = Components::default();
    let p = ContextParams { description: opt_text(), nullable: if flip() { Some(sym_bool()) } else { None }, ..Default::default() };
    let r = (c.t.mention)(&mut cx, false, &p);
    check(matches!(&r, ModelReference::Link(l) if seq_eq(l, c.name)), "a recursive type is referenced");
    exactly(&cx, c.reach);
    check(closed(&cx), "no dangling reference");
    check(cx.verify_schemas().is_ok(), "the registry verifies");
    for n in c.reach {
        match cx.schemas.get(*n) {
            Some(m) => check(has_link(m, c.reach), "the recursion is a reference"),
            None => check(false, "every type of the cycle is registered"),
        }
    }
    // the order in which the cycle is entered does not matter
    let other = cycle(choose(CYCLES));
    if c.reach.contains(&other.name) {
        let old = cx.clone();
        let mut fresh = Components::default();
        let s = (other.t.schema)(&mut fresh);
        check(closed(&fresh) && closed_model(&fresh, &s), "asking for a schema leaves no dangling reference");
        check(cx.schemas.get(other.name).map_or(false, |m| eq_model(m, &s)), "each type has one schema, however the cycle is entered");
        (other.t.mention)(&mut cx, false, &params_none());
        check(eq_components(&old, &cx), "mentioning a type of the cycle again changes nothing");
        let mut entered = Components::default();
        (other.t.mention)(&mut entered, false, &p);
        for n in other.reach {
            let (a, b) = (cx.schemas.get(*n), entered.schemas.get(*n));
            check(matches!((a, b), (Some(a), Some(b)) if eq_model(a, b)), "each type has one schema, however the cycle is entered");
        }
    }
    observe(cx.schemas.len() as u64);
}

// ---- histories of mentions of derived and standard types
#[derive(OpgModel, Serialize)]
struct Flat {
    a: V<0>,
    b: Vec<V<1>>,
    #[opg(inline)]
    c: Deep,
}
#[derive(OpgModel, Serialize)]
struct Deep {
    a: Option<Deeper>,
    b: (Deeper, V<1>),
}
#[derive(OpgModel, Serialize)]
enum Deeper {
    A(V<1>),
    B { c: V<0> },
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t")]
enum Merge {
    A(Deep),
    B(Flat),
}
#[derive(OpgModel, Serialize)]
#[serde(tag = "t", content = "c")]
enum Pairs {
    #[opg(inline)]
    A(Deep, Deeper),
    B(Flat),
    C,
}
#[derive(OpgModel, Serialize)]
#[serde(untagged)]
#[opg(inline)]
enum Any {
    A(Deep),
    B(BTreeMap<String, Flat>),
    C { f: V<0> },
}
#[derive(OpgModel, Serialize)]
struct Wrapper(Deep);
#[derive(OpgModel, Serialize)]
#[opg(inline)]
struct Inl(#[opg(inline)] Flat);

fn member(i: u32) -> Ty {
    match i {
        0 => ty::<Flat>(),
        1 => ty::<Deep>(),
        2 => ty::<Deeper>(),
        3 => ty::<Merge>(),
        4 => ty::<Pairs>(),
        5 => ty::<Any>(),
        6 => ty::<Wrapper>(),
        7 => ty::<Inl>(),
        8 => ty::<Vec<Deep>>(),
        9 => ty::<Option<Flat>>(),
        10 => ty::<BTreeMap<String, Pairs>>(),
        11 => ty::<(V<0>, Box<Deeper>)>(),
        12 => ty::<All>(),
        13 => ty::<V<1>>(),
        14 => ty::<HashMap<String, Vec<Option<Rc<Merge>>>>>(),
        15 => ty::<Home>(),
        _ => ty::<Hidden>(),
    }
}
pub fn histories() {
    pick_kinds(2, 2);
    let mut cx = Components::default();
    let n = tiered(2, 3);
    for i in 0..n {
        let t = member(choose(17));
        let before = cx.clone();
        let inline = flip();
        let p = if i == 1 && flip() { ContextParams { description: Some(ascii(1)), nullable: Some(sym_bool()), ..Default::default() } } else { params_none() };
        let r = (t.mention)(&mut cx, inline, &p);
        check(closed(&cx), "registry has no dangling reference");
        check(closed_ref(&cx, &r), "returned reference is registered");
        check(matches!(cx.verify_schemas(), Ok(())), "the registry verifies");
        check(before.schemas.iter().all(|(k, v)| cx.schemas.get(k).map_or(false, |m| eq_model(m, v))), "registered schemas are unchanged");
    }
    observe(cx.schemas.len() as u64);
}
