// Generated by tools/gen_types.py.
#![allow(dead_code)]
use crate::attrs::*;
use crate::kit::*;

#[derive(OpgModel)]
pub struct N0 {
    first: V<0>,
    plain: V<1>,
    #[opg(example = "e1")] last: V<0>,
}
fn n0() {
    tag("N0");
    structure(ty::<N0>(), obj(None, false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N1 {
    #[opg(optional)] first: V<0>,
    plain: V<1>,
    #[opg(example_with = "3 + 4")] last: V<0>,
}
fn n1() {
    tag("N1");
    structure(ty::<N1>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct T2(V<0>, V<1>, #[opg("d1")] V<1>);
fn t2() {
    tag("T2");
    structure(ty::<T2>(), arr(None, false, vec![want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N3 {
    #[opg("d1")] first: V<0>,
    plain: V<1>,
    #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] last: V<0>,
}
fn n3() {
    tag("N3");
    structure(ty::<N3>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N4 {
    #[opg("d1", optional)] first: V<0>,
    plain: V<1>,
    #[opg(string)] last: V<0>,
}
fn n4() {
    tag("N4");
    structure(ty::<N4>(), obj(None, true, vec![("first", want::<V<0>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct T5(#[opg("d1")] V<0>, V<1>, #[opg(string)] V<1>, V<0>);
fn t5() {
    tag("T5");
    structure(ty::<T5>(), arr(Some("cd"), false, vec![want::<V<0>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N6 {
    #[opg(format = "f1")] first: V<0>,
    plain: V<1>,
    #[opg(boolean, "d4", nullable)] last: V<0>,
}
fn n6() {
    tag("N6");
    structure(ty::<N6>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N7 {
    #[opg(format = "f1", optional)] first: V<0>,
    plain: V<1>,
    #[opg(any)] last: V<0>,
}
fn n7() {
    tag("N7");
    structure(ty::<N7>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct T8(#[opg(format = "f1")] V<0>, V<1>, V<1>, V<0>, V<0>);
fn t8() {
    tag("T8");
    structure(ty::<T8>(), arr(None, true, vec![want::<V<0>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N9 {
    #[opg(example = "e1")] first: V<0>,
    plain: V<1>,
    last: V<0>,
}
fn n9() {
    tag("N9");
    structure(ty::<N9>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct N10 {
    #[opg(example = "e1", optional)] first: V<0>,
    plain: V<1>,
    #[opg("d1")] last: V<0>,
}
fn n10() {
    tag("N10");
    structure(ty::<N10>(), obj(None, false, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct T11(#[opg(example = "e1")] V<0>, V<1>, #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<1>, V<0>, V<0>, V<0>);
fn t11() {
    tag("T11");
    structure(ty::<T11>(), arr(Some(" Ce: \"x\" "), true, vec![want::<V<0>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), want::<V<0>>(NONE), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
pub struct N12 {
    #[opg(example_with = "3 + 4")] first: V<0>,
    plain: V<1>,
    #[opg(example_with = "3 + 4")] last: V<0>,
}
fn n12() {
    tag("N12");
    structure(ty::<N12>(), obj(None, false, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N13 {
    #[opg(example_with = "3 + 4", optional)] first: V<0>,
    plain: V<1>,
    #[opg(nullable)] last: V<0>,
}
fn n13() {
    tag("N13");
    structure(ty::<N13>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct T14(#[opg(example_with = "3 + 4")] V<0>, V<1>, #[opg(string, format = "f4", example_with = "1 == 1", inline)] V<1>);
fn t14() {
    tag("T14");
    structure(ty::<T14>(), arr(None, false, vec![want::<V<0>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N15 {
    #[opg(nullable)] first: V<0>,
    plain: V<1>,
    #[opg(string)] last: V<0>,
}
fn n15() {
    tag("N15");
    structure(ty::<N15>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N16 {
    #[opg(nullable, optional)] first: V<0>,
    plain: V<1>,
    #[opg(integer, format = "f3", "d3")] last: V<0>,
}
fn n16() {
    tag("N16");
    structure(ty::<N16>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct T17(#[opg(nullable)] V<0>, V<1>, #[opg(inline)] V<1>, V<0>);
fn t17() {
    tag("T17");
    structure(ty::<T17>(), arr(Some("cd"), false, vec![want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N18 {
    #[opg(inline)] first: V<0>,
    plain: V<1>,
    #[opg(any)] last: V<0>,
}
fn n18() {
    tag("N18");
    structure(ty::<N18>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N19 {
    #[opg(inline, optional)] first: V<0>,
    plain: V<1>,
    #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] last: V<0>,
}
fn n19() {
    tag("N19");
    structure(ty::<N19>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct T20(#[opg(inline)] V<0>, V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<1>, V<0>, V<0>);
fn t20() {
    tag("T20");
    structure(ty::<T20>(), arr(None, true, vec![want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N21 {
    #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] first: V<0>,
    plain: V<1>,
    #[opg("d1")] last: V<0>,
}
fn n21() {
    tag("N21");
    structure(ty::<N21>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct N22 {
    #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline, optional)] first: V<0>,
    plain: V<1>,
    #[opg(format = "f1")] last: V<0>,
}
fn n22() {
    tag("N22");
    structure(ty::<N22>(), obj(None, false, vec![("first", want::<V<0>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct T23(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>, V<1>, #[opg(nullable)] V<1>, V<0>, V<0>, V<0>);
fn t23() {
    tag("T23");
    structure(ty::<T23>(), arr(Some(" Ce: \"x\" "), true, vec![want::<V<0>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), want::<V<0>>(NONE), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
pub struct N24 {
    #[opg(string)] first: V<0>,
    plain: V<1>,
    #[opg(nullable)] last: V<0>,
}
fn n24() {
    tag("N24");
    structure(ty::<N24>(), obj(None, false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N25 {
    #[opg(string, optional)] first: V<0>,
    plain: V<1>,
    #[opg(inline)] last: V<0>,
}
fn n25() {
    tag("N25");
    structure(ty::<N25>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct T26(#[opg(string)] V<0>, V<1>, #[opg(any)] V<1>);
fn t26() {
    tag("T26");
    structure(ty::<T26>(), arr(None, false, vec![want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" })]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N27 {
    #[opg(integer, format = "f3", "d3")] first: V<0>,
    plain: V<1>,
    #[opg(integer, format = "f3", "d3")] last: V<0>,
}
fn n27() {
    tag("N27");
    structure(ty::<N27>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N28 {
    #[opg(integer, format = "f3", "d3", optional)] first: V<0>,
    plain: V<1>,
    #[opg(number, example = "e3", nullable)] last: V<0>,
}
fn n28() {
    tag("N28");
    structure(ty::<N28>(), obj(None, true, vec![("first", want::<V<0>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct T29(#[opg(integer, format = "f3", "d3")] V<0>, V<1>, #[opg(example_with = "3 + 4")] V<1>, V<0>);
fn t29() {
    tag("T29");
    structure(ty::<T29>(), arr(Some("cd"), false, vec![want::<V<0>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N30 {
    #[opg(number, example = "e3", nullable)] first: V<0>,
    plain: V<1>,
    #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] last: V<0>,
}
fn n30() {
    tag("N30");
    structure(ty::<N30>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N31 {
    #[opg(number, example = "e3", nullable, optional)] first: V<0>,
    plain: V<1>,
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] last: V<0>,
}
fn n31() {
    tag("N31");
    structure(ty::<N31>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct T32(#[opg(number, example = "e3", nullable)] V<0>, V<1>, #[opg(boolean, "d4", nullable)] V<1>, V<0>, V<0>);
fn t32() {
    tag("T32");
    structure(ty::<T32>(), arr(None, true, vec![want::<V<0>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }), want::<V<1>>(NONE), want::<V<1>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N33 {
    #[opg(boolean, "d4", nullable)] first: V<0>,
    plain: V<1>,
    #[opg(format = "f1")] last: V<0>,
}
fn n33() {
    tag("N33");
    structure(ty::<N33>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct N34 {
    #[opg(boolean, "d4", nullable, optional)] first: V<0>,
    plain: V<1>,
    #[opg(example = "e1")] last: V<0>,
}
fn n34() {
    tag("N34");
    structure(ty::<N34>(), obj(None, false, vec![("first", want::<V<0>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct T35(#[opg(boolean, "d4", nullable)] V<0>, V<1>, #[opg(example = "e1")] V<1>, V<0>, V<0>, V<0>);
fn t35() {
    tag("T35");
    structure(ty::<T35>(), arr(Some(" Ce: \"x\" "), true, vec![want::<V<0>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }), want::<V<0>>(NONE), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
pub struct N36 {
    #[opg(any)] first: V<0>,
    plain: V<1>,
    #[opg(inline)] last: V<0>,
}
fn n36() {
    tag("N36");
    structure(ty::<N36>(), obj(None, false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N37 {
    #[opg(any, optional)] first: V<0>,
    plain: V<1>,
    #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] last: V<0>,
}
fn n37() {
    tag("N37");
    structure(ty::<N37>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }), true)]));
}
#[derive(OpgModel)]
pub struct T38(#[opg(any)] V<0>, V<1>, #[opg(number, example = "e3", nullable)] V<1>);
fn t38() {
    tag("T38");
    structure(ty::<T38>(), arr(None, false, vec![want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct N39 {
    #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] first: V<0>,
    plain: V<1>,
    #[opg(number, example = "e3", nullable)] last: V<0>,
}
fn n39() {
    tag("N39");
    structure(ty::<N39>(), obj(Some("cd"), false, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N40 {
    #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable, optional)] first: V<0>,
    plain: V<1>,
    #[opg(boolean, "d4", nullable)] last: V<0>,
}
fn n40() {
    tag("N40");
    structure(ty::<N40>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }), true)]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct T41(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>, #[opg(format = "f1")] V<1>, V<0>);
fn t41() {
    tag("T41");
    structure(ty::<T41>(), arr(Some("cd"), false, vec![want::<V<0>>(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }), want::<V<1>>(NONE), want::<V<1>>(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }), want::<V<0>>(NONE)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct N42 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] first: V<0>,
    plain: V<1>,
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] last: V<0>,
}
fn n42() {
    tag("N42");
    structure(ty::<N42>(), obj(None, true, vec![("first", want::<V<0>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }), true), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct N43 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline, optional)] first: V<0>,
    plain: V<1>,
    last: V<0>,
}
fn n43() {
    tag("N43");
    structure(ty::<N43>(), obj(Some(" Ce: \"x\" "), true, vec![("first", want::<V<0>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }), false), ("plain", want::<V<1>>(NONE), true), ("last", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct T44(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>, V<1>, #[opg(integer, format = "f3", "d3")] V<1>, V<0>, V<0>);
fn t44() {
    tag("T44");
    structure(ty::<T44>(), arr(None, true, vec![want::<V<0>>(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }), want::<V<1>>(NONE), want::<V<1>>(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }), want::<V<0>>(NONE), want::<V<0>>(NONE)]));
}
#[derive(Serialize, OpgModel)]
pub struct P45 {
    #[opg(any, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(any)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(string, optional, nullable)] f2: V<0>,
    #[opg(example = "te")] #[serde(rename = "re-N144")] f3: V<1>,
    #[opg(nullable, example = "te")] f4: V<0>,
    #[opg(format = "tf", "td")] #[serde(rename = "re-N154")] f5: V<1>,
}
fn p45() {
    tag("P45");
    structure(ty::<P45>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), false), ("re-N144", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }), true), ("re-N154", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P46 {
    #[opg(number, "td", example = "te")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, any)] f1: V<1>,
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(boolean)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(example = "te", inline, integer)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(number, inline, example = "te")] #[serde(rename = "re-N225")] f5: V<1>,
}
fn p46() {
    tag("P46");
    structure(ty::<P46>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), false), ("re-N225", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P47 {
    #[opg(inline)] #[serde(rename = "re-N140")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, string)] f1: V<1>,
    #[opg(example = "te", integer)] f2: V<0>,
    #[opg(example = "te", inline, boolean)] f3: V<1>,
    #[opg(number, example = "te")] f4: V<0>,
    #[opg(inline, optional, number)] f5: V<1>,
}
fn p47() {
    tag("P47");
    structure(ty::<P47>(), obj(None, true, vec![("re-N140", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P48 {
    #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N145")] #[opg(optional, inline)] f1: V<1>,
    #[serde(rename = "re-N272")] #[opg(example = "te", nullable, any)] f2: V<0>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] #[serde(rename = "re-N252")] f3: V<1>,
    #[opg(format = "tf", inline, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(rename = "re-N153")] #[opg(nullable, format = "tf")] f5: V<1>,
}
fn p48() {
    tag("P48");
    structure(ty::<P48>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("re-N145", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N272", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), true), ("re-N252", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }), false), ("re-N153", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P49 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] f0: V<0>,
    #[opg(example = "te", optional, string)] f1: V<1>,
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N275")] f2: V<0>,
    #[opg(integer, nullable)] f3: V<1>,
    #[serde(rename = "re-N147")] #[opg(inline, nullable)] f4: V<0>,
    #[opg(number, optional, nullable)] #[serde(rename = "re-N215")] f5: V<1>,
}
fn p49() {
    tag("P49");
    structure(ty::<P49>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("re-N275", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), true), ("re-N147", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "" }), true), ("re-N215", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P50 {
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable, format = "tf")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, example = "te")] f1: V<1>,
    #[opg(string, nullable, "td")] #[serde(rename = "re-N173")] f2: V<0>,
    #[opg(boolean, inline, "td")] f3: V<1>,
    #[opg(example = "te", integer)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(inline, integer)] f5: V<1>,
}
fn p50() {
    tag("P50");
    structure(ty::<P50>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }), false), ("re-N173", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P51 {
    #[opg(string, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, inline, "td")] f1: V<1>,
    #[serde(rename = "re-N237")] #[opg(boolean, optional, inline)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, any)] f3: V<1>,
    #[opg(optional, inline)] f4: V<0>,
    #[opg("td", nullable, integer)] #[serde(rename = "re-N196")] f5: V<1>,
}
fn p51() {
    tag("P51");
    structure(ty::<P51>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }), false), ("re-N237", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N196", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P52 {
    #[opg(any, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(inline, "td")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, any)] f2: V<0>,
    #[opg(format = "tf", example = "te")] f3: V<1>,
    #[opg("td", optional, integer)] f4: V<0>,
    #[opg("td", optional, boolean)] #[serde(rename = "re-N240")] f5: V<1>,
}
fn p52() {
    tag("P52");
    structure(ty::<P52>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N240", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P53 {
    #[opg(format = "tf", inline, integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N170")] #[opg(nullable, inline, string)] f1: V<1>,
    #[opg(any, inline)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional)] f3: V<1>,
    #[opg(number, "td")] #[serde(rename = "re-N211")] f4: V<0>,
    #[serde(rename = "re-N270")] #[opg(example = "te", optional, any)] f5: V<1>,
}
fn p53() {
    tag("P53");
    structure(ty::<P53>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }), false), ("re-N170", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N211", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), true), ("re-N270", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P54 {
    #[opg(number, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(example = "te", "td", boolean)] f1: V<1>,
    #[serde(rename = "re-N218")] #[opg("td", inline, number)] f2: V<0>,
    #[opg(any, inline)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(any, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, format = "tf")] f5: V<1>,
}
fn p54() {
    tag("P54");
    structure(ty::<P54>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("re-N218", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }), false), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P55 {
    #[opg(integer, format = "tf")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, string)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, number)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional)] f3: V<1>,
    #[opg("td", optional, integer)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N183")] f5: V<1>,
}
fn p55() {
    tag("P55");
    structure(ty::<P55>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N183", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P56 {
    #[opg("td", boolean)] #[serde(rename = "re-N234")] f0: V<0>,
    #[opg(any, example = "te")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable, format = "tf")] f2: V<0>,
    #[opg("td", optional, boolean)] f3: V<1>,
    #[opg(string, "td")] #[serde(rename = "re-N165")] f4: V<0>,
    #[opg(optional, number)] f5: V<1>,
}
fn p56() {
    tag("P56");
    structure(ty::<P56>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N234", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("re-N165", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P57 {
    #[opg(any, example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(boolean, inline, nullable)] f1: V<1>,
    #[opg(number, optional, nullable)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, string)] f3: V<1>,
    #[opg("td", integer)] #[serde(rename = "re-N188")] f4: V<0>,
    #[opg(boolean, optional, example = "te")] f5: V<1>,
}
fn p57() {
    tag("P57");
    structure(ty::<P57>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }), false), ("re-N188", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P58 {
    #[opg(format = "tf", "td")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(string)] #[serde(rename = "re-N161")] f1: V<1>,
    #[opg(boolean, optional, inline)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable, example = "te")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", string)] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, number)] f5: V<1>,
}
fn p58() {
    tag("P58");
    structure(ty::<P58>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("re-N161", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P59 {
    #[opg(example = "te", inline, boolean)] #[serde(rename = "re-N248")] f0: V<0>,
    #[opg(any, inline, format = "tf")] f1: V<1>,
    #[opg(example = "te", inline, integer)] #[serde(rename = "re-N202")] f2: V<0>,
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] f3: V<1>,
    #[opg(string, inline, format = "tf")] f4: V<0>,
    #[serde(rename = "re-N210")] #[opg(nullable, number)] f5: V<1>,
}
fn p59() {
    tag("P59");
    structure(ty::<P59>(), obj(None, true, vec![("re-N248", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }), true), ("re-N202", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }), true), ("re-N210", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P60 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] #[serde(rename = "re-N160")] f0: V<0>,
    #[opg(format = "tf", inline, integer)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, inline, "td")] f2: V<0>,
    #[serde(rename = "re-N254")] #[opg(optional, any)] f3: V<1>,
    #[opg(any, "td", example = "te")] #[serde(rename = "re-N273")] f4: V<0>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p60() {
    tag("P60");
    structure(ty::<P60>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N160", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }), false), ("re-N254", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("re-N273", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P61 {
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, format = "tf")] f0: V<0>,
    #[opg(string, "td")] f1: V<1>,
    #[opg(example = "te", inline)] #[serde(rename = "re-N156")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, number)] f3: V<1>,
    #[opg("td", nullable)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(rename = "re-N138")] f5: V<1>,
}
fn p61() {
    tag("P61");
    structure(ty::<P61>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), true), ("re-N156", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), false), ("re-N138", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P62 {
    #[serde(skip_serializing_if = "gone")] #[opg(optional, inline)] f0: V<0>,
    #[opg(integer)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, string)] f2: V<0>,
    #[opg(format = "tf", inline, boolean)] #[serde(rename = "re-N244")] f3: V<1>,
    #[serde(rename = "re-N231")] #[opg(boolean, optional)] f4: V<0>,
    #[opg(number)] #[serde(rename = "re-N207")] f5: V<1>,
}
fn p62() {
    tag("P62");
    structure(ty::<P62>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), false), ("re-N244", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }), true), ("re-N231", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("re-N207", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P63 {
    #[opg(example = "te", format = "tf", string)] f0: V<0>,
    #[opg(any, optional, nullable)] f1: V<1>,
    #[opg(optional, example = "te")] f2: V<0>,
    #[opg(string, "td", format = "tf")] #[serde(rename = "re-N177")] f3: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] f4: V<0>,
    #[serde(rename = "re-N168")] #[opg(inline, optional, string)] f5: V<1>,
}
fn p63() {
    tag("P63");
    structure(ty::<P63>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N177", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }), false), ("re-N168", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P64 {
    #[opg(string)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, "td")] f1: V<1>,
    #[serde(rename = "re-N235")] #[opg(boolean, format = "tf")] f2: V<0>,
    #[opg(format = "tf", inline)] #[serde(rename = "re-N152")] f3: V<1>,
    #[opg(format = "tf", "td", integer)] f4: V<0>,
    #[opg("td", boolean)] f5: V<1>,
}
fn p64() {
    tag("P64");
    structure(ty::<P64>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), true), ("re-N235", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("re-N152", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P65 {
    #[serde(skip_serializing_if = "gone")] #[opg(optional, example = "te")] f0: V<0>,
    #[serde(rename = "re-N189")] #[opg(integer, format = "tf")] f1: V<1>,
    #[opg(format = "tf", inline, integer)] #[serde(rename = "re-N198")] f2: V<0>,
    #[opg(any, "td")] f3: V<1>,
    #[opg(string, "td", format = "tf")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, number)] f5: V<1>,
}
fn p65() {
    tag("P65");
    structure(ty::<P65>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N189", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("re-N198", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P66 {
    #[opg(nullable)] f0: V<0>,
    #[opg(nullable, number)] f1: V<1>,
    #[opg(example = "te")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] #[serde(rename = "re-N206")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, string)] f4: V<0>,
    #[serde(rename = "re-N266")] #[opg(format = "tf", optional, any)] f5: V<1>,
}
fn p66() {
    tag("P66");
    structure(ty::<P66>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N206", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("re-N266", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P67 {
    #[serde(rename = "re-N239")] #[opg(boolean, inline, nullable)] f0: V<0>,
    #[serde(rename = "re-N141")] #[opg(nullable)] f1: V<1>,
    #[serde(rename = "re-N264")] #[opg("td", inline, any)] f2: V<0>,
    #[opg(number, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(rename = "re-N226")] #[opg(example = "te", nullable, number)] f4: V<0>,
    #[opg("td", integer)] f5: V<1>,
}
fn p67() {
    tag("P67");
    structure(ty::<P67>(), obj(None, true, vec![("re-N239", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }), true), ("re-N141", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true), ("re-N264", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("re-N226", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P68 {
    #[serde(rename = "re-N143")] #[opg(format = "tf")] f0: V<0>,
    #[opg("td", nullable, boolean)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(rename = "re-N180")] #[opg(example = "te", nullable, string)] f2: V<0>,
    #[opg(boolean, optional, format = "tf")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, inline)] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", any)] f5: V<1>,
}
fn p68() {
    tag("P68");
    structure(ty::<P68>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N143", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("re-N180", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P69 {
    #[opg(boolean, nullable)] f0: V<0>,
    #[opg(format = "tf", number)] f1: V<1>,
    #[opg("td", nullable)] #[serde(rename = "re-N150")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, any)] f3: V<1>,
    #[serde(rename = "re-N243")] #[opg(boolean, optional, format = "tf")] f4: V<0>,
    #[opg(number, optional, "td")] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p69() {
    tag("P69");
    structure(ty::<P69>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("re-N150", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }), false), ("re-N243", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P70 {
    #[opg(number, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(inline, optional, any)] f1: V<1>,
    #[opg(number, optional, "td")] #[serde(rename = "re-N217")] f2: V<0>,
    #[serde(rename = "re-N178")] #[opg(example = "te", optional, string)] f3: V<1>,
    #[opg(format = "tf", "td", integer)] #[serde(rename = "re-N200")] f4: V<0>,
    #[serde(rename = "re-N193")] #[opg(integer, inline, nullable)] f5: V<1>,
}
fn p70() {
    tag("P70");
    structure(ty::<P70>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("re-N217", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false), ("re-N178", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("re-N200", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("re-N193", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P71 {
    #[opg(boolean)] #[serde(rename = "re-N230")] f0: V<0>,
    #[opg(optional, format = "tf")] f1: V<1>,
    #[serde(rename = "re-N203")] #[opg(integer, nullable, example = "te")] f2: V<0>,
    #[opg("td", optional)] #[serde(rename = "re-N148")] f3: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(number, example = "te")] #[serde(rename = "re-N213")] f5: V<1>,
}
fn p71() {
    tag("P71");
    structure(ty::<P71>(), obj(None, true, vec![("re-N230", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("re-N203", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }), true), ("re-N148", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }), false), ("re-N213", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P72 {
    #[serde(rename = "re-N195")] #[opg(integer, inline, "td")] f0: V<0>,
    #[opg(boolean, nullable, example = "te")] f1: V<1>,
    #[opg(integer, optional, inline)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, number)] f3: V<1>,
    #[opg(string, nullable, "td")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(rename = "re-N164")] #[opg(nullable, string)] f5: V<1>,
}
fn p72() {
    tag("P72");
    structure(ty::<P72>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N195", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }), false), ("re-N164", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P73 {
    #[opg(nullable, optional, integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, optional, "td")] f1: V<1>,
    #[opg(example = "te", "td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, inline)] f3: V<1>,
    #[serde(rename = "re-N224")] #[opg(example = "te", optional, number)] f4: V<0>,
    #[opg(any, inline, example = "te")] f5: V<1>,
}
fn p73() {
    tag("P73");
    structure(ty::<P73>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), false), ("re-N224", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P74 {
    #[opg(number, example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(integer, inline, nullable)] f1: V<1>,
    #[serde(rename = "re-N241")] #[opg(boolean, inline, "td")] f2: V<0>,
    #[opg(number, inline)] #[serde(rename = "re-N209")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", any)] f4: V<0>,
    #[opg(format = "tf")] f5: V<1>,
}
fn p74() {
    tag("P74");
    structure(ty::<P74>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), true), ("re-N241", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("re-N209", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), true), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }), false), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P75 {
    #[opg(string, optional, nullable)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(inline, integer)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(integer, nullable, format = "tf")] f2: V<0>,
    #[serde(rename = "re-N274")] #[opg(example = "te", format = "tf", any)] f3: V<1>,
    #[opg(format = "tf", "td", boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p75() {
    tag("P75");
    structure(ty::<P75>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }), true), ("re-N274", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f5", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P76 {
    #[opg(number, nullable, "td")] #[serde(rename = "re-N219")] f0: V<0>,
    #[opg("td", nullable, boolean)] f1: V<1>,
    #[opg(example = "te", boolean)] f2: V<0>,
    #[opg(inline, nullable)] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, string)] f4: V<0>,
    #[opg(optional)] f5: V<1>,
}
fn p76() {
    tag("P76");
    structure(ty::<P76>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N219", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "" }), true), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P77 {
    #[opg(nullable, optional, integer)] #[serde(rename = "re-N192")] f0: V<0>,
    #[opg(example = "te", nullable, any)] f1: V<1>,
    #[opg(number, inline)] f2: V<0>,
    #[opg(any, nullable, "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(any)] #[serde(rename = "re-N253")] f4: V<0>,
    #[opg("td")] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p77() {
    tag("P77");
    structure(ty::<P77>(), obj(None, false, vec![("re-N192", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), false), ("re-N253", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P78 {
    #[opg(boolean)] f0: V<0>,
    #[opg(number, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(rename = "re-N247")] #[opg(boolean, optional, example = "te")] f2: V<0>,
    #[opg(string, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable)] f4: V<0>,
    #[serde(rename = "re-N151")] #[opg(optional, format = "tf")] f5: V<1>,
}
fn p78() {
    tag("P78");
    structure(ty::<P78>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("re-N247", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("re-N151", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P79 {
    #[opg(nullable, optional)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N222")] #[opg(format = "tf", nullable, number)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", number)] f2: V<0>,
    #[opg("td", nullable, integer)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(rename = "re-N182")] #[opg(example = "te", format = "tf", string)] f4: V<0>,
    #[serde(rename = "re-N251")] #[opg(boolean, format = "tf", example = "te")] f5: V<1>,
}
fn p79() {
    tag("P79");
    structure(ty::<P79>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("re-N222", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }), false), ("re-N182", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }), true), ("re-N251", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P80 {
    #[opg(integer, optional, example = "te")] f0: V<0>,
    #[opg(number, inline, format = "tf")] #[serde(rename = "re-N221")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, format = "tf", example = "te")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf")] f3: V<1>,
    #[opg(integer, optional, format = "tf")] f4: V<0>,
    #[serde(rename = "re-N162")] #[opg(optional, string)] f5: V<1>,
}
fn p80() {
    tag("P80");
    structure(ty::<P80>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false), ("re-N221", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("re-N162", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P81 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", string)] f0: V<0>,
    #[opg(optional, string)] f1: V<1>,
    #[opg(any, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(string, inline, example = "te")] f3: V<1>,
    #[opg(string, optional, "td")] f4: V<0>,
    #[opg(nullable, optional)] f5: V<1>,
}
fn p81() {
    tag("P81");
    structure(ty::<P81>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P82 {
    #[opg(example = "te", inline, integer)] f0: V<0>,
    #[opg(example = "te", inline, boolean)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(string, optional, "td")] #[serde(rename = "re-N171")] f2: V<0>,
    #[opg(string, nullable, "td")] f3: V<1>,
    #[opg(number, inline)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, example = "te")] f5: V<1>,
}
fn p82() {
    tag("P82");
    structure(ty::<P82>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }), false), ("re-N171", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P83 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, string)] f0: V<0>,
    #[opg(string, example = "te")] #[serde(rename = "re-N167")] f1: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, format = "tf")] f3: V<1>,
    #[opg(integer, format = "tf", example = "te")] f4: V<0>,
    #[opg(example = "te", "td", integer)] f5: V<1>,
}
fn p83() {
    tag("P83");
    structure(ty::<P83>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("re-N167", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P84 {
    #[opg(number, inline, example = "te")] f0: V<0>,
    #[opg(format = "tf", "td", boolean)] #[serde(rename = "re-N246")] f1: V<1>,
    #[opg(format = "tf", optional, string)] f2: V<0>,
    #[opg(number, inline, format = "tf")] f3: V<1>,
    #[opg(any, "td", format = "tf")] f4: V<0>,
    #[opg(nullable, inline, any)] f5: V<1>,
}
fn p84() {
    tag("P84");
    structure(ty::<P84>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), true), ("re-N246", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P85 {
    #[opg(nullable, optional, boolean)] f0: V<0>,
    #[serde(rename = "re-N199")] #[opg(integer, nullable, format = "tf")] f1: V<1>,
    #[serde(rename = "re-N149")] #[opg(inline, "td")] f2: V<0>,
    #[opg(example = "te", optional, any)] f3: V<1>,
    #[opg(nullable, inline, string)] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, format = "tf", example = "te")] f5: V<1>,
}
fn p85() {
    tag("P85");
    structure(ty::<P85>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("re-N199", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }), true), ("re-N149", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }), true), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P86 {
    #[opg(number, "td", format = "tf")] #[serde(rename = "re-N223")] f0: V<0>,
    #[opg(any, "td")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] f2: V<0>,
    #[opg(example = "te")] f3: V<1>,
    #[opg(nullable, string)] f4: V<0>,
    #[serde(rename = "re-N214")] #[opg(inline, optional, number)] f5: V<1>,
}
fn p86() {
    tag("P86");
    structure(ty::<P86>(), obj(Some("cd"), false, vec![("re-N223", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), true), ("re-N214", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P87 {
    #[serde(skip_serializing_if = "gone")] #[opg(nullable)] f0: V<0>,
    #[opg(string, inline, format = "tf")] #[serde(rename = "re-N175")] f1: V<1>,
    #[opg(string, optional, nullable)] #[serde(rename = "re-N169")] f2: V<0>,
    #[opg(integer, optional)] f3: V<1>,
    #[opg(any)] f4: V<0>,
    #[opg("td", nullable, boolean)] #[serde(rename = "re-N242")] f5: V<1>,
}
fn p87() {
    tag("P87");
    structure(ty::<P87>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("re-N175", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }), true), ("re-N169", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true), ("re-N242", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P88 {
    #[opg(nullable, inline, number)] f0: V<0>,
    #[serde(rename = "re-N205")] #[opg(integer, format = "tf", example = "te")] f1: V<1>,
    #[opg(any, "td", example = "te")] f2: V<0>,
    #[opg(string)] f3: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N229")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, any)] f5: V<1>,
}
fn p88() {
    tag("P88");
    structure(ty::<P88>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), true), ("re-N205", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true), ("re-N229", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }), false), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P89 {
    #[opg(nullable, format = "tf")] f0: V<0>,
    #[opg(string, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(rename = "re-N172")] #[opg("td", inline, string)] f2: V<0>,
    #[opg(nullable, optional)] #[serde(rename = "re-N146")] f3: V<1>,
    #[opg(integer, inline, "td")] f4: V<0>,
    #[serde(rename = "re-N176")] #[opg(format = "tf", nullable, string)] f5: V<1>,
}
fn p89() {
    tag("P89");
    structure(ty::<P89>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }), false), ("re-N172", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), true), ("re-N146", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }), true), ("re-N176", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P90 {
    #[opg(inline)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable, example = "te")] f1: V<1>,
    #[opg(number, optional, nullable)] f2: V<0>,
    #[opg("td", inline, any)] f3: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] f4: V<0>,
    #[serde(rename = "re-N197")] #[opg(integer, optional, format = "tf")] f5: V<1>,
}
fn p90() {
    tag("P90");
    structure(ty::<P90>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }), false), ("re-N197", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P91 {
     f0: V<0>,
    #[opg(string, example = "te")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(inline, boolean)] f2: V<0>,
    #[opg("td", inline, number)] f3: V<1>,
    #[opg(integer, nullable, example = "te")] f4: V<0>,
    #[opg(format = "tf", nullable, any)] f5: V<1>,
}
fn p91() {
    tag("P91");
    structure(ty::<P91>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }), true), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P92 {
    #[serde(rename = "re-N191")] #[opg(integer, optional, inline)] f0: V<0>,
    #[opg("td", optional)] f1: V<1>,
    #[opg(example = "te", "td")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, format = "tf")] f3: V<1>,
    #[opg("td", inline, string)] f4: V<0>,
    #[opg("td", nullable, integer)] f5: V<1>,
}
fn p92() {
    tag("P92");
    structure(ty::<P92>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N191", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P93 {
    #[opg(example = "te", nullable, string)] f0: V<0>,
    #[opg(example = "te", boolean)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(number, "td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable)] f3: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, number)] f5: V<1>,
}
fn p93() {
    tag("P93");
    structure(ty::<P93>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }), false), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P94 {
    #[opg(string, example = "te")] f0: V<0>,
    #[opg(format = "tf", "td")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, format = "tf")] f2: V<0>,
    #[opg(string, optional, "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(boolean, nullable, format = "tf")] f4: V<0>,
    #[opg(any, optional, "td")] f5: V<1>,
}
fn p94() {
    tag("P94");
    structure(ty::<P94>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P95 {
    #[opg(example = "te", format = "tf", any)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, any)] f1: V<1>,
    #[opg(any, inline, format = "tf")] #[serde(rename = "re-N267")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, any)] f3: V<1>,
    #[opg(optional, any)] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, string)] f5: V<1>,
}
fn p95() {
    tag("P95");
    structure(ty::<P95>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false), ("re-N267", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P96 {
    #[serde(rename = "re-N139")] #[opg(optional)] f0: V<0>,
    #[opg(string, inline)] f1: V<1>,
    #[opg(example = "te", inline)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(inline, optional, string)] f3: V<1>,
    #[opg(nullable, optional, integer)] f4: V<0>,
    #[opg(boolean, format = "tf")] f5: V<1>,
}
fn p96() {
    tag("P96");
    structure(ty::<P96>(), obj(Some(" Ce: \"x\" "), true, vec![("re-N139", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P97 {
    #[opg("td")] f0: V<0>,
    #[serde(rename = "re-N174")] #[opg(format = "tf", optional, string)] f1: V<1>,
    #[opg(format = "tf", nullable, string)] f2: V<0>,
    #[serde(rename = "re-N187")] #[opg(integer, nullable)] f3: V<1>,
    #[serde(rename = "re-N262")] #[opg(nullable, inline, any)] f4: V<0>,
    #[opg(any, optional, nullable)] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p97() {
    tag("P97");
    structure(ty::<P97>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), true), ("re-N174", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), true), ("re-N187", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), true), ("re-N262", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P98 {
    #[opg(format = "tf", inline, boolean)] f0: V<0>,
    #[serde(rename = "re-N159")] #[opg(format = "tf", example = "te")] f1: V<1>,
    #[serde(rename = "re-N208")] #[opg(optional, number)] f2: V<0>,
    #[opg(string, inline)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, inline, nullable)] f4: V<0>,
    #[opg(any, example = "te")] #[serde(rename = "re-N259")] f5: V<1>,
}
fn p98() {
    tag("P98");
    structure(ty::<P98>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }), true), ("re-N159", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }), true), ("re-N208", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), false), ("re-N259", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P99 {
    #[opg(any, nullable, "td")] #[serde(rename = "re-N265")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, "td")] f1: V<1>,
    #[serde(rename = "re-N258")] #[opg(format = "tf", any)] f2: V<0>,
    #[serde(rename = "re-N155")] #[opg(optional, example = "te")] f3: V<1>,
    #[opg(example = "te", "td")] #[serde(rename = "re-N158")] f4: V<0>,
    #[serde(rename = "re-N245")] #[opg(boolean, nullable, format = "tf")] f5: V<1>,
}
fn p99() {
    tag("P99");
    structure(ty::<P99>(), obj(None, true, vec![("re-N265", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N258", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("re-N155", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N158", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }), true), ("re-N245", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P100 {
    #[opg(example = "te", "td", boolean)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(string, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(number, "td", format = "tf")] f2: V<0>,
    #[opg("td", boolean)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(boolean, format = "tf", example = "te")] f4: V<0>,
    #[serde(rename = "re-N249")] #[opg(boolean, nullable, example = "te")] f5: V<1>,
}
fn p100() {
    tag("P100");
    structure(ty::<P100>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("re-N249", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P101 {
    #[serde(rename = "re-N233")] #[opg(boolean, nullable)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, nullable)] f1: V<1>,
    #[opg(format = "tf", inline)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(string, inline, example = "te")] #[serde(rename = "re-N179")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, number)] f4: V<0>,
    #[opg(inline, boolean)] #[serde(rename = "re-N232")] f5: V<1>,
}
fn p101() {
    tag("P101");
    structure(ty::<P101>(), obj(None, false, vec![("re-N233", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }), false), ("re-N179", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), false), ("re-N232", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P102 {
    #[opg(format = "tf", "td", integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, nullable, "td")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", number)] f2: V<0>,
    #[serde(rename = "re-N256")] #[opg(nullable, any)] f3: V<1>,
    #[opg(any, inline)] #[serde(rename = "re-N255")] f4: V<0>,
    #[opg("td")] #[serde(rename = "re-N142")] f5: V<1>,
}
fn p102() {
    tag("P102");
    structure(ty::<P102>(), obj(Some("cd"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }), false), ("re-N256", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), true), ("re-N255", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), true), ("re-N142", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P103 {
    #[opg(example = "te", "td", boolean)] #[serde(rename = "re-N250")] f0: V<0>,
    #[opg(any, nullable, "td")] f1: V<1>,
    #[opg(any, inline, example = "te")] #[serde(rename = "re-N271")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, format = "tf")] f3: V<1>,
    #[opg(example = "te", boolean)] #[serde(rename = "re-N236")] f4: V<0>,
    #[opg(example = "te", "td", integer)] #[serde(rename = "re-N204")] f5: V<1>,
}
fn p103() {
    tag("P103");
    structure(ty::<P103>(), obj(None, true, vec![("re-N250", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), true), ("re-N271", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("re-N236", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("re-N204", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P104 {
    #[opg(format = "tf", optional, number)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, number)] f1: V<1>,
    #[serde(rename = "re-N185")] #[opg(integer, optional)] f2: V<0>,
    #[opg(string, "td", example = "te")] #[serde(rename = "re-N181")] f3: V<1>,
    #[opg(string, "td")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, example = "te")] f5: V<1>,
}
fn p104() {
    tag("P104");
    structure(ty::<P104>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("re-N185", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N181", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P105 {
    #[serde(rename = "re-N268")] #[opg(format = "tf", nullable, any)] f0: V<0>,
    #[serde(rename = "re-N212")] #[opg(format = "tf", number)] f1: V<1>,
    #[serde(rename = "re-N228")] #[opg(example = "te", format = "tf", number)] f2: V<0>,
    #[opg(boolean, optional)] f3: V<1>,
    #[opg("td", optional, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[opg(number)] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p105() {
    tag("P105");
    structure(ty::<P105>(), obj(None, false, vec![("re-N268", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }), true), ("re-N212", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("re-N228", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P106 {
    #[opg(any, optional, "td")] #[serde(rename = "re-N263")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, any)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional)] f2: V<0>,
    #[opg(any, optional, nullable)] #[serde(rename = "re-N261")] f3: V<1>,
    #[opg(number)] f4: V<0>,
    #[opg(example = "te", nullable, number)] f5: V<1>,
}
fn p106() {
    tag("P106");
    structure(ty::<P106>(), obj(Some("cd"), false, vec![("re-N263", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("re-N261", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), true), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P107 {
    #[serde(rename = "re-N166")] #[opg(format = "tf", string)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, inline, nullable)] f1: V<1>,
    #[opg("td", nullable)] f2: V<0>,
    #[opg(nullable, any)] f3: V<1>,
    #[opg(format = "tf", any)] f4: V<0>,
    #[opg(example = "te", format = "tf", number)] f5: V<1>,
}
fn p107() {
    tag("P107");
    structure(ty::<P107>(), obj(None, true, vec![("re-N166", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P108 {
    #[opg("td", optional)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(format = "tf", nullable, number)] f1: V<1>,
    #[opg(any, "td", format = "tf")] #[serde(rename = "re-N269")] f2: V<0>,
    #[serde(rename = "re-N216")] #[opg(nullable, inline, number)] f3: V<1>,
    #[opg("td", optional, integer)] #[serde(rename = "re-N194")] f4: V<0>,
    #[opg(string, inline)] #[serde(rename = "re-N163")] f5: V<1>,
}
fn p108() {
    tag("P108");
    structure(ty::<P108>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }), true), ("re-N269", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("re-N216", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), true), ("re-N194", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N163", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub struct P109 {
    #[opg(nullable, optional, boolean)] #[serde(rename = "re-N238")] f0: V<0>,
    #[opg(inline, integer)] #[serde(rename = "re-N186")] f1: V<1>,
    #[opg(format = "tf", inline)] f2: V<0>,
    #[opg(any, optional, "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] f4: V<0>,
    #[opg(any, "td")] #[serde(rename = "re-N257")] f5: V<1>,
}
fn p109() {
    tag("P109");
    structure(ty::<P109>(), obj(None, false, vec![("re-N238", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("re-N186", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }), false), ("re-N257", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub struct P110 {
    #[opg(number, "td", example = "te")] #[serde(rename = "re-N227")] f0: V<0>,
    #[opg(inline)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(example = "te", integer)] #[serde(rename = "re-N190")] f2: V<0>,
    #[serde(rename = "re-N260")] #[opg(inline, optional, any)] f3: V<1>,
    #[opg(inline, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
    #[serde(rename = "re-N201")] #[opg(integer, optional, example = "te")] f5: V<1>,
}
fn p110() {
    tag("P110");
    structure(ty::<P110>(), obj(Some("cd"), false, vec![("re-N227", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N190", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true), ("re-N260", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), false), ("re-N201", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P111 {
    #[opg("td", integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N220")] #[opg(format = "tf", optional, number)] f1: V<1>,
    #[opg(number, nullable, "td")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, number)] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", example = "te")] f4: V<0>,
    #[opg(example = "te", inline)] f5: V<1>,
}
fn p111() {
    tag("P111");
    structure(ty::<P111>(), obj(None, true, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N220", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }), false), ("f5", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }), true)]));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct P112 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, any)] f0: V<0>,
    #[opg(format = "tf", "td", boolean)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, string)] f2: V<0>,
    #[opg(format = "tf", optional, any)] f3: V<1>,
    #[serde(rename = "re-N157")] #[opg(nullable, example = "te")] f4: V<0>,
    #[opg(example = "te", "td", integer)] #[serde(skip_serializing_if = "gone")] f5: V<1>,
}
fn p112() {
    tag("P112");
    structure(ty::<P112>(), obj(Some(" Ce: \"x\" "), true, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("re-N157", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }), true), ("f5", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false)]));
}
#[derive(Serialize, OpgModel)]
pub struct P113 {
    #[opg(nullable, optional, boolean)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(example = "te", optional, number)] f1: V<1>,
    #[opg(integer)] #[serde(rename = "re-N184")] f2: V<0>,
    #[opg(string, "td", example = "te")] f3: V<1>,
    #[opg(integer)] f4: V<0>,
    #[opg(format = "tf", string)] f5: V<1>,
}
fn p113() {
    tag("P113");
    structure(ty::<P113>(), obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("re-N184", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f5", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true)]));
}
#[derive(Serialize, OpgModel)]
pub enum Y114 {
#[opg(inline)] V0 {
    #[opg(any, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(any)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(string, optional, nullable)] f2: V<0>,
    #[opg(example = "te")] #[serde(rename = "re-N144")] f3: V<1>,
    #[opg(nullable, example = "te")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(format = "tf", "td")] #[serde(rename = "re-N154")] f0: V<0>,
    #[opg(number, "td", example = "te")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, any)] f2: V<0>,
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(example = "te", inline, integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, inline, example = "te")] #[serde(rename = "re-N225")] f1: V<1>,
    #[opg(inline)] #[serde(rename = "re-N140")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, string)] f3: V<1>,
    #[opg(example = "te", integer)] f4: V<0>,
}}
fn y114() {
    tag("Y114");
    alternatives(ty::<Y114>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("re-N144", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N154", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), false), ("re-N225", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), true), ("re-N140", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y115 {
V0 {
    #[opg(example = "te", inline, boolean)] f0: V<0>,
    #[opg(number, example = "te")] f1: V<1>,
    #[opg(inline, optional, number)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(rename = "re-N145")] #[opg(optional, inline)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N272")] #[opg(example = "te", nullable, any)] f0: V<0>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] #[serde(rename = "re-N252")] f1: V<1>,
    #[opg(format = "tf", inline, boolean)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(rename = "re-N153")] #[opg(nullable, format = "tf")] f3: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(example = "te", optional, string)] f0: V<0>,
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N275")] f1: V<1>,
    #[opg(integer, nullable)] f2: V<0>,
    #[serde(rename = "re-N147")] #[opg(inline, nullable)] f3: V<1>,
    #[opg(number, optional, nullable)] #[serde(rename = "re-N215")] f4: V<0>,
}}
fn y115() {
    tag("Y115");
    alternatives(ty::<Y115>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("re-N145", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N272", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), true), ("re-N252", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }), false), ("re-N153", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("re-N275", want::<V<1>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("re-N147", want::<V<1>>(over(A { d: None, f: None, e: None, n: true, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("re-N215", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y116 {
V0 {
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable, format = "tf")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, example = "te")] f1: V<1>,
    #[opg(string, nullable, "td")] #[serde(rename = "re-N173")] f2: V<0>,
    #[opg(boolean, inline, "td")] f3: V<1>,
    #[opg(example = "te", integer)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[opg(inline, integer)] f0: V<0>,
    #[opg(string, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, inline, "td")] f2: V<0>,
    #[serde(rename = "re-N237")] #[opg(boolean, optional, inline)] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, any)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(optional, inline)] f0: V<0>,
    #[opg("td", nullable, integer)] #[serde(rename = "re-N196")] f1: V<1>,
    #[opg(any, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(inline, "td")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, any)] f4: V<0>,
}}
fn y116() {
    tag("Y116");
    alternatives(ty::<Y116>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }), false), ("re-N173", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N237", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N196", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y117 {
#[opg(inline)] V0 {
    #[opg(format = "tf", example = "te")] f0: V<0>,
    #[opg("td", optional, integer)] f1: V<1>,
    #[opg("td", optional, boolean)] #[serde(rename = "re-N240")] f2: V<0>,
    #[opg(format = "tf", inline, integer)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(rename = "re-N170")] #[opg(nullable, inline, string)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(any, inline)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional)] f1: V<1>,
    #[opg(number, "td")] #[serde(rename = "re-N211")] f2: V<0>,
    #[serde(rename = "re-N270")] #[opg(example = "te", optional, any)] f3: V<1>,
    #[opg(number, inline, format = "tf")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(example = "te", "td", boolean)] f0: V<0>,
    #[serde(rename = "re-N218")] #[opg("td", inline, number)] f1: V<1>,
    #[opg(any, inline)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(any, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, format = "tf")] f4: V<0>,
}}
fn y117() {
    tag("Y117");
    alternatives(ty::<Y117>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N240", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N170", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N211", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), true), ("re-N270", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("re-N218", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y118 {
V0 {
    #[opg(integer, format = "tf")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, string)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, number)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional)] f3: V<1>,
    #[opg("td", optional, integer)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N183")] f0: V<0>,
    #[opg("td", boolean)] #[serde(rename = "re-N234")] f1: V<1>,
    #[opg(any, example = "te")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable, format = "tf")] f3: V<1>,
    #[opg("td", optional, boolean)] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(string, "td")] #[serde(rename = "re-N165")] f0: V<0>,
    #[opg(optional, number)] f1: V<1>,
    #[opg(any, example = "te")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(boolean, inline, nullable)] f3: V<1>,
    #[opg(number, optional, nullable)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
}}
fn y118() {
    tag("Y118");
    alternatives(ty::<Y118>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N183", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false), ("re-N234", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("re-N165", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y119 {
V0 {
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, string)] f0: V<0>,
    #[opg("td", integer)] #[serde(rename = "re-N188")] f1: V<1>,
    #[opg(boolean, optional, example = "te")] f2: V<0>,
    #[opg(format = "tf", "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(string)] #[serde(rename = "re-N161")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[opg(boolean, optional, inline)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable, example = "te")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", string)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, number)] f3: V<1>,
    #[opg(example = "te", inline, boolean)] #[serde(rename = "re-N248")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(any, inline, format = "tf")] f0: V<0>,
    #[opg(example = "te", inline, integer)] #[serde(rename = "re-N202")] f1: V<1>,
    #[opg(string, example = "te", format = "tf", "td", nullable, inline, optional)] f2: V<0>,
    #[opg(string, inline, format = "tf")] f3: V<1>,
    #[serde(rename = "re-N210")] #[opg(nullable, number)] f4: V<0>,
}}
fn y119() {
    tag("Y119");
    alternatives(ty::<Y119>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }), false), ("re-N188", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("re-N161", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("re-N248", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }), true), ("re-N202", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }), true), ("re-N210", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y120 {
#[opg(inline)] V0 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] #[serde(rename = "re-N160")] f0: V<0>,
    #[opg(format = "tf", inline, integer)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, inline, "td")] f2: V<0>,
    #[serde(rename = "re-N254")] #[opg(optional, any)] f3: V<1>,
    #[opg(any, "td", example = "te")] #[serde(rename = "re-N273")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, format = "tf")] f1: V<1>,
    #[opg(string, "td")] f2: V<0>,
    #[opg(example = "te", inline)] #[serde(rename = "re-N156")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, number)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg("td", nullable)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N138")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(optional, inline)] f2: V<0>,
    #[opg(integer)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, string)] f4: V<0>,
}}
fn y120() {
    tag("Y120");
    alternatives(ty::<Y120>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("re-N160", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), false), ("re-N254", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("re-N273", want::<V<0>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), true), ("re-N156", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), false), ("re-N138", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y121 {
V0 {
    #[opg(format = "tf", inline, boolean)] #[serde(rename = "re-N244")] f0: V<0>,
    #[serde(rename = "re-N231")] #[opg(boolean, optional)] f1: V<1>,
    #[opg(number)] #[serde(rename = "re-N207")] f2: V<0>,
    #[opg(example = "te", format = "tf", string)] f3: V<1>,
    #[opg(any, optional, nullable)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(optional, example = "te")] f0: V<0>,
    #[opg(string, "td", format = "tf")] #[serde(rename = "re-N177")] f1: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] f2: V<0>,
    #[serde(rename = "re-N168")] #[opg(inline, optional, string)] f3: V<1>,
    #[opg(string)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(number, "td")] f0: V<0>,
    #[serde(rename = "re-N235")] #[opg(boolean, format = "tf")] f1: V<1>,
    #[opg(format = "tf", inline)] #[serde(rename = "re-N152")] f2: V<0>,
    #[opg(format = "tf", "td", integer)] f3: V<1>,
    #[opg("td", boolean)] f4: V<0>,
}}
fn y121() {
    tag("Y121");
    alternatives(ty::<Y121>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("re-N244", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }), true), ("re-N231", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("re-N207", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N177", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }), false), ("re-N168", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("re-N235", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("re-N152", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("f3", want::<V<1>>(over(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y122 {
V0 {
    #[serde(skip_serializing_if = "gone")] #[opg(optional, example = "te")] f0: V<0>,
    #[serde(rename = "re-N189")] #[opg(integer, format = "tf")] f1: V<1>,
    #[opg(format = "tf", inline, integer)] #[serde(rename = "re-N198")] f2: V<0>,
    #[opg(any, "td")] f3: V<1>,
    #[opg(string, "td", format = "tf")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[serde(skip_serializing_if = "gone")] #[opg(optional, number)] f0: V<0>,
    #[opg(nullable)] f1: V<1>,
    #[opg(nullable, number)] f2: V<0>,
    #[opg(example = "te")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", integer)] #[serde(rename = "re-N206")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, string)] f0: V<0>,
    #[serde(rename = "re-N266")] #[opg(format = "tf", optional, any)] f1: V<1>,
    #[serde(rename = "re-N239")] #[opg(boolean, inline, nullable)] f2: V<0>,
    #[serde(rename = "re-N141")] #[opg(nullable)] f3: V<1>,
    #[serde(rename = "re-N264")] #[opg("td", inline, any)] f4: V<0>,
}}
fn y122() {
    tag("Y122");
    alternatives(ty::<Y122>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N189", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true), ("re-N198", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "integer" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("f3", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("re-N206", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "integer" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("re-N266", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("re-N239", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }), true), ("re-N141", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), true), ("re-N264", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y123 {
#[opg(inline)] V0 {
    #[opg(number, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N226")] #[opg(example = "te", nullable, number)] f1: V<1>,
    #[opg("td", integer)] f2: V<0>,
    #[serde(rename = "re-N143")] #[opg(format = "tf")] f3: V<1>,
    #[opg("td", nullable, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N180")] #[opg(example = "te", nullable, string)] f0: V<0>,
    #[opg(boolean, optional, format = "tf")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, inline)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", any)] f3: V<1>,
    #[opg(boolean, nullable)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(format = "tf", number)] f0: V<0>,
    #[opg("td", nullable)] #[serde(rename = "re-N150")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, any)] f2: V<0>,
    #[serde(rename = "re-N243")] #[opg(boolean, optional, format = "tf")] f3: V<1>,
    #[opg(number, optional, "td")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
}}
fn y123() {
    tag("Y123");
    alternatives(ty::<Y123>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("re-N226", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("re-N143", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N180", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("re-N150", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }), false), ("re-N243", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y124 {
V0 {
    #[opg(number, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(inline, optional, any)] f1: V<1>,
    #[opg(number, optional, "td")] #[serde(rename = "re-N217")] f2: V<0>,
    #[serde(rename = "re-N178")] #[opg(example = "te", optional, string)] f3: V<1>,
    #[opg(format = "tf", "td", integer)] #[serde(rename = "re-N200")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N193")] #[opg(integer, inline, nullable)] f0: V<0>,
    #[opg(boolean)] #[serde(rename = "re-N230")] f1: V<1>,
    #[opg(optional, format = "tf")] f2: V<0>,
    #[serde(rename = "re-N203")] #[opg(integer, nullable, example = "te")] f3: V<1>,
    #[opg("td", optional)] #[serde(rename = "re-N148")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, example = "te")] #[serde(rename = "re-N213")] f1: V<1>,
    #[serde(rename = "re-N195")] #[opg(integer, inline, "td")] f2: V<0>,
    #[opg(boolean, nullable, example = "te")] f3: V<1>,
    #[opg(integer, optional, inline)] f4: V<0>,
}}
fn y124() {
    tag("Y124");
    alternatives(ty::<Y124>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("re-N217", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false), ("re-N178", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("re-N200", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N193", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), true), ("re-N230", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("re-N203", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }), true), ("re-N148", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }, A { inline: true, ..NONE })), false), ("re-N213", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("re-N195", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), true), ("f3", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y125 {
V0 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, number)] f0: V<0>,
    #[opg(string, nullable, "td")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(rename = "re-N164")] #[opg(nullable, string)] f2: V<0>,
    #[opg(nullable, optional, integer)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(number, optional, "td")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[opg(example = "te", "td")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, inline)] f1: V<1>,
    #[serde(rename = "re-N224")] #[opg(example = "te", optional, number)] f2: V<0>,
    #[opg(any, inline, example = "te")] f3: V<1>,
    #[opg(number, example = "te")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(integer, inline, nullable)] f0: V<0>,
    #[serde(rename = "re-N241")] #[opg(boolean, inline, "td")] f1: V<1>,
    #[opg(number, inline)] #[serde(rename = "re-N209")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", any)] f3: V<1>,
    #[opg(format = "tf")] f4: V<0>,
}}
fn y125() {
    tag("Y125");
    alternatives(ty::<Y125>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }), false), ("re-N164", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), false), ("re-N224", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), true), ("re-N241", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("re-N209", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y126 {
#[opg(inline)] V0 {
    #[opg(string, optional, nullable)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(inline, integer)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(integer, nullable, format = "tf")] f2: V<0>,
    #[serde(rename = "re-N274")] #[opg(example = "te", format = "tf", any)] f3: V<1>,
    #[opg(format = "tf", "td", boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(number, nullable, "td")] #[serde(rename = "re-N219")] f1: V<1>,
    #[opg("td", nullable, boolean)] f2: V<0>,
    #[opg(example = "te", boolean)] f3: V<1>,
    #[opg(inline, nullable)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, string)] f0: V<0>,
    #[opg(optional)] f1: V<1>,
    #[opg(nullable, optional, integer)] #[serde(rename = "re-N192")] f2: V<0>,
    #[opg(example = "te", nullable, any)] f3: V<1>,
    #[opg(number, inline)] f4: V<0>,
}}
fn y126() {
    tag("Y126");
    alternatives(ty::<Y126>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("re-N274", want::<V<1>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }), false), ("re-N219", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), false), ("re-N192", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y127 {
V0 {
    #[opg(any, nullable, "td")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(any)] #[serde(rename = "re-N253")] f1: V<1>,
    #[opg("td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(boolean)] f3: V<1>,
    #[opg(number, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N247")] #[opg(boolean, optional, example = "te")] f0: V<0>,
    #[opg(string, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, nullable)] f2: V<0>,
    #[serde(rename = "re-N151")] #[opg(optional, format = "tf")] f3: V<1>,
    #[opg(nullable, optional)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[serde(rename = "re-N222")] #[opg(format = "tf", nullable, number)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", number)] f1: V<1>,
    #[opg("td", nullable, integer)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(rename = "re-N182")] #[opg(example = "te", format = "tf", string)] f3: V<1>,
    #[serde(rename = "re-N251")] #[opg(boolean, format = "tf", example = "te")] f4: V<0>,
}}
fn y127() {
    tag("Y127");
    alternatives(ty::<Y127>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), false), ("re-N253", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N247", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("re-N151", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("re-N222", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N182", want::<V<1>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("re-N251", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y128 {
V0 {
    #[opg(integer, optional, example = "te")] f0: V<0>,
    #[opg(number, inline, format = "tf")] #[serde(rename = "re-N221")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, format = "tf", example = "te")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf")] f3: V<1>,
    #[opg(integer, optional, format = "tf")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[serde(rename = "re-N162")] #[opg(optional, string)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", string)] f1: V<1>,
    #[opg(optional, string)] f2: V<0>,
    #[opg(any, "td", example = "te")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(string, inline, example = "te")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(string, optional, "td")] f0: V<0>,
    #[opg(nullable, optional)] f1: V<1>,
    #[opg(example = "te", inline, integer)] f2: V<0>,
    #[opg(example = "te", inline, boolean)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(string, optional, "td")] #[serde(rename = "re-N171")] f4: V<0>,
}}
fn y128() {
    tag("Y128");
    alternatives(ty::<Y128>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), false), ("re-N221", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N162", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "integer" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "boolean" }), false), ("re-N171", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y129 {
#[opg(inline)] V0 {
    #[opg(string, nullable, "td")] f0: V<0>,
    #[opg(number, inline)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, example = "te")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, string)] f3: V<1>,
    #[opg(string, example = "te")] #[serde(rename = "re-N167")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, format = "tf")] f1: V<1>,
    #[opg(integer, format = "tf", example = "te")] f2: V<0>,
    #[opg(example = "te", "td", integer)] f3: V<1>,
    #[opg(number, inline, example = "te")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(format = "tf", "td", boolean)] #[serde(rename = "re-N246")] f0: V<0>,
    #[opg(format = "tf", optional, string)] f1: V<1>,
    #[opg(number, inline, format = "tf")] f2: V<0>,
    #[opg(any, "td", format = "tf")] f3: V<1>,
    #[opg(nullable, inline, any)] f4: V<0>,
}}
fn y129() {
    tag("Y129");
    alternatives(ty::<Y129>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("re-N167", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "number" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("re-N246", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "number" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y130 {
V0 {
    #[opg(nullable, optional, boolean)] f0: V<0>,
    #[serde(rename = "re-N199")] #[opg(integer, nullable, format = "tf")] f1: V<1>,
    #[serde(rename = "re-N149")] #[opg(inline, "td")] f2: V<0>,
    #[opg(example = "te", optional, any)] f3: V<1>,
    #[opg(nullable, inline, string)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, format = "tf", example = "te")] f0: V<0>,
    #[opg(number, "td", format = "tf")] #[serde(rename = "re-N223")] f1: V<1>,
    #[opg(any, "td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te", boolean)] f3: V<1>,
    #[opg(example = "te")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(nullable, string)] f0: V<0>,
    #[serde(rename = "re-N214")] #[opg(inline, optional, number)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable)] f2: V<0>,
    #[opg(string, inline, format = "tf")] #[serde(rename = "re-N175")] f3: V<1>,
    #[opg(string, optional, nullable)] #[serde(rename = "re-N169")] f4: V<0>,
}}
fn y130() {
    tag("Y130");
    alternatives(ty::<Y130>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("re-N199", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "integer" }), true), ("re-N149", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("re-N223", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("re-N214", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("re-N175", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), true), ("re-N169", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y131 {
V0 {
    #[opg(integer, optional)] f0: V<0>,
    #[opg(any)] f1: V<1>,
    #[opg("td", nullable, boolean)] #[serde(rename = "re-N242")] f2: V<0>,
    #[opg(nullable, inline, number)] f3: V<1>,
    #[serde(rename = "re-N205")] #[opg(integer, format = "tf", example = "te")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[opg(any, "td", example = "te")] f0: V<0>,
    #[opg(string)] f1: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(rename = "re-N229")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", nullable, any)] f3: V<1>,
    #[opg(nullable, format = "tf")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(string, inline, example = "te")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(rename = "re-N172")] #[opg("td", inline, string)] f1: V<1>,
    #[opg(nullable, optional)] #[serde(rename = "re-N146")] f2: V<0>,
    #[opg(integer, inline, "td")] f3: V<1>,
    #[serde(rename = "re-N176")] #[opg(format = "tf", nullable, string)] f4: V<0>,
}}
fn y131() {
    tag("Y131");
    alternatives(ty::<Y131>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), true), ("re-N242", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), true), ("re-N205", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "integer" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("re-N229", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }), false), ("re-N172", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), true), ("re-N146", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "integer" }), true), ("re-N176", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y132 {
#[opg(inline)] V0 {
    #[opg(inline)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable, example = "te")] f1: V<1>,
    #[opg(number, optional, nullable)] f2: V<0>,
    #[opg("td", inline, any)] f3: V<1>,
    #[opg(optional, inline, nullable, "td", format = "tf", example = "te")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N197")] #[opg(integer, optional, format = "tf")] f0: V<0>,
     f1: V<1>,
    #[opg(string, example = "te")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(inline, boolean)] f3: V<1>,
    #[opg("td", inline, number)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(integer, nullable, example = "te")] f0: V<0>,
    #[opg(format = "tf", nullable, any)] f1: V<1>,
    #[serde(rename = "re-N191")] #[opg(integer, optional, inline)] f2: V<0>,
    #[opg("td", optional)] f3: V<1>,
    #[opg(example = "te", "td")] f4: V<0>,
}}
fn y132() {
    tag("Y132");
    alternatives(ty::<Y132>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N197", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "integer" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }), true), ("re-N191", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y133 {
V0 {
    #[serde(skip_serializing_if = "gone")] #[opg(optional, format = "tf")] f0: V<0>,
    #[opg("td", inline, string)] f1: V<1>,
    #[opg("td", nullable, integer)] f2: V<0>,
    #[opg(example = "te", nullable, string)] f3: V<1>,
    #[opg(example = "te", boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(number, "td")] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, nullable)] f1: V<1>,
    #[opg(number, example = "te", format = "tf", "td", nullable, inline, optional)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, number)] f3: V<1>,
    #[opg(string, example = "te")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(format = "tf", "td")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, format = "tf")] f1: V<1>,
    #[opg(string, optional, "td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(boolean, nullable, format = "tf")] f3: V<1>,
    #[opg(any, optional, "td")] f4: V<0>,
}}
fn y133() {
    tag("Y133");
    alternatives(ty::<Y133>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "integer" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "string" }), true), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "number" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "number" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y134 {
V0 {
    #[opg(example = "te", format = "tf", any)] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, any)] f1: V<1>,
    #[opg(any, inline, format = "tf")] #[serde(rename = "re-N267")] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, any)] f3: V<1>,
    #[opg(optional, any)] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, string)] f0: V<0>,
    #[serde(rename = "re-N139")] #[opg(optional)] f1: V<1>,
    #[opg(string, inline)] f2: V<0>,
    #[opg(example = "te", inline)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(inline, optional, string)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(nullable, optional, integer)] f0: V<0>,
    #[opg(boolean, format = "tf")] f1: V<1>,
    #[opg("td")] f2: V<0>,
    #[serde(rename = "re-N174")] #[opg(format = "tf", optional, string)] f3: V<1>,
    #[opg(format = "tf", nullable, string)] f4: V<0>,
}}
fn y134() {
    tag("Y134");
    alternatives(ty::<Y134>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "any" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false), ("re-N267", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "any" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "string" }, A { inline: true, ..NONE })), false), ("re-N139", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), true), ("f3", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }), false), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), true), ("re-N174", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "string" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y135 {
#[opg(inline)] V0 {
    #[serde(rename = "re-N187")] #[opg(integer, nullable)] f0: V<0>,
    #[serde(rename = "re-N262")] #[opg(nullable, inline, any)] f1: V<1>,
    #[opg(any, optional, nullable)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(format = "tf", inline, boolean)] f3: V<1>,
    #[serde(rename = "re-N159")] #[opg(format = "tf", example = "te")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N208")] #[opg(optional, number)] f0: V<0>,
    #[opg(string, inline)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, inline, nullable)] f2: V<0>,
    #[opg(any, example = "te")] #[serde(rename = "re-N259")] f3: V<1>,
    #[opg(any, nullable, "td")] #[serde(rename = "re-N265")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(inline, "td")] f0: V<0>,
    #[serde(rename = "re-N258")] #[opg(format = "tf", any)] f1: V<1>,
    #[serde(rename = "re-N155")] #[opg(optional, example = "te")] f2: V<0>,
    #[opg(example = "te", "td")] #[serde(rename = "re-N158")] f3: V<1>,
    #[serde(rename = "re-N245")] #[opg(boolean, nullable, format = "tf")] f4: V<0>,
}}
fn y135() {
    tag("Y135");
    alternatives(ty::<Y135>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("re-N187", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("re-N262", want::<V<1>>(over(A { d: None, f: None, e: None, n: true, inline: true, t: "any" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), true), ("re-N159", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N208", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "integer" }), false), ("re-N259", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "any" }), true), ("re-N265", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N258", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("re-N155", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "" }), false), ("re-N158", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "" }), true), ("re-N245", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "boolean" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y136 {
V0 {
    #[opg(example = "te", "td", boolean)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(string, "td", format = "tf")] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(number, "td", format = "tf")] f2: V<0>,
    #[opg("td", boolean)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(boolean, format = "tf", example = "te")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[serde(rename = "re-N249")] #[opg(boolean, nullable, example = "te")] f0: V<0>,
    #[serde(rename = "re-N233")] #[opg(boolean, nullable)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(inline, nullable)] f2: V<0>,
    #[opg(format = "tf", inline)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(string, inline, example = "te")] #[serde(rename = "re-N179")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, number)] f0: V<0>,
    #[opg(inline, boolean)] #[serde(rename = "re-N232")] f1: V<1>,
    #[opg(format = "tf", "td", integer)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(number, nullable, "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", format = "tf", number)] f4: V<0>,
}}
fn y136() {
    tag("Y136");
    alternatives(ty::<Y136>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false), ("f1", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "string" }), false), ("f2", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "boolean" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N249", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "boolean" }), true), ("re-N233", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: true, t: "" }), false), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }), false), ("re-N179", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "number" }, A { inline: true, ..NONE })), false), ("re-N232", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y137 {
V0 {
    #[serde(rename = "re-N256")] #[opg(nullable, any)] f0: V<0>,
    #[opg(any, inline)] #[serde(rename = "re-N255")] f1: V<1>,
    #[opg("td")] #[serde(rename = "re-N142")] f2: V<0>,
    #[opg(example = "te", "td", boolean)] #[serde(rename = "re-N250")] f3: V<1>,
    #[opg(any, nullable, "td")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[opg(any, inline, example = "te")] #[serde(rename = "re-N271")] f0: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(integer, optional, format = "tf")] f1: V<1>,
    #[opg(example = "te", boolean)] #[serde(rename = "re-N236")] f2: V<0>,
    #[opg(example = "te", "td", integer)] #[serde(rename = "re-N204")] f3: V<1>,
    #[opg(format = "tf", optional, number)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", optional, number)] f0: V<0>,
    #[serde(rename = "re-N185")] #[opg(integer, optional)] f1: V<1>,
    #[opg(string, "td", example = "te")] #[serde(rename = "re-N181")] f2: V<0>,
    #[opg(string, "td")] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional, example = "te")] f4: V<0>,
}}
fn y137() {
    tag("Y137");
    alternatives(ty::<Y137>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("re-N256", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), true), ("re-N255", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), true), ("re-N142", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), true), ("re-N250", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "any" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N271", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "any" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N236", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("re-N204", want::<V<1>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }), false), ("re-N185", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N181", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "string" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "boolean" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
pub enum Y138 {
#[opg(inline)] V0 {
    #[serde(rename = "re-N268")] #[opg(format = "tf", nullable, any)] f0: V<0>,
    #[serde(rename = "re-N212")] #[opg(format = "tf", number)] f1: V<1>,
    #[serde(rename = "re-N228")] #[opg(example = "te", format = "tf", number)] f2: V<0>,
    #[opg(boolean, optional)] f3: V<1>,
    #[opg("td", optional, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(number)] #[serde(skip_serializing_if = "gone")] f0: V<0>,
    #[opg(any, optional, "td")] #[serde(rename = "re-N263")] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(example = "te", nullable, any)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, optional)] f3: V<1>,
    #[opg(any, optional, nullable)] #[serde(rename = "re-N261")] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[opg(number)] f0: V<0>,
    #[opg(example = "te", nullable, number)] f1: V<1>,
    #[serde(rename = "re-N166")] #[opg(format = "tf", string)] f2: V<0>,
    #[serde(skip_serializing_if = "gone")] #[opg(boolean, inline, nullable)] f3: V<1>,
    #[opg("td", nullable)] f4: V<0>,
}}
fn y138() {
    tag("Y138");
    alternatives(ty::<Y138>(), Repr::External, None, false, vec![ModelReference::Inline(obj(None, false, vec![("re-N268", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "any" }, A { inline: true, ..NONE })), true), ("re-N212", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("re-N228", want::<V<0>>(over(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("f3", want::<V<1>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), false), ("re-N263", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }), false), ("f2", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: false, t: "boolean" }), false), ("re-N261", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "number" }), true), ("re-N166", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true), ("f3", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "boolean" }), false), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "" }), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum Y139 {
V0 {
    #[opg(nullable, any)] f0: V<0>,
    #[opg(format = "tf", any)] f1: V<1>,
    #[opg(example = "te", format = "tf", number)] f2: V<0>,
    #[opg("td", optional)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(format = "tf", nullable, number)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(any, "td", format = "tf")] #[serde(rename = "re-N269")] f0: V<0>,
    #[serde(rename = "re-N216")] #[opg(nullable, inline, number)] f1: V<1>,
    #[opg("td", optional, integer)] #[serde(rename = "re-N194")] f2: V<0>,
    #[opg(string, inline)] #[serde(rename = "re-N163")] f3: V<1>,
    #[opg(nullable, optional, boolean)] #[serde(rename = "re-N238")] f4: V<0>,
},
#[opg("vd2", inline)] V2 {
    #[opg(inline, integer)] #[serde(rename = "re-N186")] f0: V<0>,
    #[opg(format = "tf", inline)] f1: V<1>,
    #[opg(any, optional, "td")] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(any, example = "te", format = "tf", "td", nullable, inline, optional)] f3: V<1>,
    #[opg(any, "td")] #[serde(rename = "re-N257")] f4: V<0>,
}}
fn y139() {
    tag("Y139");
    alternatives(ty::<Y139>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "any" }), true), ("f1", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "number" }), true), ("f3", want::<V<1>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "" }), false), ("f4", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: true, inline: false, t: "number" }), true)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N269", want::<V<0>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "any" }), true), ("re-N216", want::<V<1>>(A { d: None, f: None, e: None, n: true, inline: true, t: "number" }), true), ("re-N194", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }), false), ("re-N163", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "string" }), true), ("re-N238", want::<V<0>>(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("re-N186", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "integer" }, A { inline: true, ..NONE })), true), ("f1", want::<V<1>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: Some("td"), f: Some("tf"), e: Some("te"), n: true, inline: true, t: "any" }, A { inline: true, ..NONE })), false), ("re-N257", want::<V<0>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum Y140 {
V0 {
    #[opg(number, "td", example = "te")] #[serde(rename = "re-N227")] f0: V<0>,
    #[opg(inline)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[opg(example = "te", integer)] #[serde(rename = "re-N190")] f2: V<0>,
    #[serde(rename = "re-N260")] #[opg(inline, optional, any)] f3: V<1>,
    #[opg(inline, boolean)] #[serde(skip_serializing_if = "gone")] f4: V<0>,
},
#[opg("vd1", inline)] V1 {
    #[serde(rename = "re-N201")] #[opg(integer, optional, example = "te")] f0: V<0>,
    #[opg("td", integer)] #[serde(skip_serializing_if = "gone")] f1: V<1>,
    #[serde(rename = "re-N220")] #[opg(format = "tf", optional, number)] f2: V<0>,
    #[opg(number, nullable, "td")] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(nullable, number)] f4: V<0>,
},
#[opg("vd2")] V2 {
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", example = "te")] f0: V<0>,
    #[opg(example = "te", inline)] f1: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg(format = "tf", optional, any)] f2: V<0>,
    #[opg(format = "tf", "td", boolean)] f3: V<1>,
    #[serde(skip_serializing_if = "gone")] #[opg("td", inline, string)] f4: V<0>,
}}
fn y140() {
    tag("Y140");
    alternatives(ty::<Y140>(), Repr::Adjacent("t", "c"), None, false, vec![ModelReference::Inline(obj(None, false, vec![("re-N227", want::<V<0>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "number" }), true), ("f1", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "" }), false), ("re-N190", want::<V<0>>(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }), true), ("re-N260", want::<V<1>>(A { d: None, f: None, e: None, n: false, inline: true, t: "any" }), false), ("f4", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: true, t: "boolean" }), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N201", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("f1", want::<V<1>>(over(A { d: Some("td"), f: None, e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("re-N220", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: Some("td"), f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), true), ("f4", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "number" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd2"), false, vec![("f0", want::<V<0>>(A { d: None, f: Some("tf"), e: Some("te"), n: false, inline: false, t: "" }), false), ("f1", want::<V<1>>(A { d: None, f: None, e: Some("te"), n: false, inline: true, t: "" }), true), ("f2", want::<V<0>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }), false), ("f3", want::<V<1>>(A { d: Some("td"), f: Some("tf"), e: None, n: false, inline: false, t: "boolean" }), true), ("f4", want::<V<0>>(A { d: Some("td"), f: None, e: None, n: false, inline: true, t: "string" }), false)]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum Y141 {
#[opg(inline)] V0 {
    #[opg(format = "tf", optional, any)] f0: V<0>,
    #[serde(rename = "re-N157")] #[opg(nullable, example = "te")] f1: V<1>,
    #[opg(example = "te", "td", integer)] #[serde(skip_serializing_if = "gone")] f2: V<0>,
    #[opg(nullable, optional, boolean)] #[serde(skip_serializing_if = "gone")] f3: V<1>,
    #[opg(example = "te", optional, number)] f4: V<0>,
},
#[opg("vd1")] V1 {
    #[opg(integer)] #[serde(rename = "re-N184")] f0: V<0>,
    #[opg(string, "td", example = "te")] f1: V<1>,
    #[opg(integer)] f2: V<0>,
    #[opg(format = "tf", string)] f3: V<1>,
},
#[opg("vd2")] V2 {
}}
fn y141() {
    tag("Y141");
    alternatives(ty::<Y141>(), Repr::Untagged, Some("cd"), false, vec![ModelReference::Inline(obj(None, false, vec![("f0", want::<V<0>>(over(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("re-N157", want::<V<1>>(over(A { d: None, f: None, e: Some("te"), n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("f2", want::<V<0>>(over(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("f3", want::<V<1>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("f4", want::<V<0>>(over(A { d: None, f: None, e: Some("te"), n: false, inline: false, t: "number" }, A { inline: true, ..NONE })), false)])), ModelReference::Inline(obj(Some("vd1"), false, vec![("re-N184", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f1", want::<V<1>>(A { d: Some("td"), f: None, e: Some("te"), n: false, inline: false, t: "string" }), true), ("f2", want::<V<0>>(A { d: None, f: None, e: None, n: false, inline: false, t: "integer" }), true), ("f3", want::<V<1>>(A { d: None, f: Some("tf"), e: None, n: false, inline: false, t: "string" }), true)])), ModelReference::Inline(obj(Some("vd2"), false, vec![]))]);
}
#[derive(OpgModel)]
pub struct Z142();
fn z142() {
    tag("Z142");
    structure(ty::<Z142>(), arr(None, false, vec![]));
}
#[derive(OpgModel)]
#[opg("cd")]
pub struct Z143();
fn z143() {
    tag("Z143");
    structure(ty::<Z143>(), arr(Some("cd"), false, vec![]));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct Z144();
fn z144() {
    tag("Z144");
    structure(ty::<Z144>(), arr(None, true, vec![]));
}
#[derive(OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub struct Z145();
fn z145() {
    tag("Z145");
    structure(ty::<Z145>(), arr(Some(" Ce: \"x\" "), true, vec![]));
}
#[derive(OpgModel)]

pub struct W146(V<0>);
fn w146() {
    tag("W146");
    structure(ty::<W146>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W147(V<0>);
fn w147() {
    tag("W147");
    structure(ty::<W147>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W148(V<0>);
fn w148() {
    tag("W148");
    structure(ty::<W148>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W149(V<0>);
fn w149() {
    tag("W149");
    structure(ty::<W149>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W150(V<0>);
fn w150() {
    tag("W150");
    structure(ty::<W150>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W151(V<0>);
fn w151() {
    tag("W151");
    structure(ty::<W151>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W152(V<0>);
fn w152() {
    tag("W152");
    structure(ty::<W152>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W153(V<0>);
fn w153() {
    tag("W153");
    structure(ty::<W153>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W154(V<0>);
fn w154() {
    tag("W154");
    structure(ty::<W154>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W155(V<0>);
fn w155() {
    tag("W155");
    structure(ty::<W155>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W156(V<0>);
fn w156() {
    tag("W156");
    structure(ty::<W156>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W157(V<0>);
fn w157() {
    tag("W157");
    structure(ty::<W157>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W158(V<0>);
fn w158() {
    tag("W158");
    structure(ty::<W158>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W159(V<0>);
fn w159() {
    tag("W159");
    structure(ty::<W159>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W160(#[opg("d1")] V<0>);
fn w160() {
    tag("W160");
    structure(ty::<W160>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W161(#[opg("d1")] V<0>);
fn w161() {
    tag("W161");
    structure(ty::<W161>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W162(#[opg("d1")] V<0>);
fn w162() {
    tag("W162");
    structure(ty::<W162>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W163(#[opg("d1")] V<0>);
fn w163() {
    tag("W163");
    structure(ty::<W163>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W164(#[opg("d1")] V<0>);
fn w164() {
    tag("W164");
    structure(ty::<W164>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W165(#[opg("d1")] V<0>);
fn w165() {
    tag("W165");
    structure(ty::<W165>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W166(#[opg("d1")] V<0>);
fn w166() {
    tag("W166");
    structure(ty::<W166>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W167(#[opg("d1")] V<0>);
fn w167() {
    tag("W167");
    structure(ty::<W167>(), want_model::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W168(#[opg(format = "f1")] V<0>);
fn w168() {
    tag("W168");
    structure(ty::<W168>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W169(#[opg(format = "f1")] V<0>);
fn w169() {
    tag("W169");
    structure(ty::<W169>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W170(#[opg(format = "f1")] V<0>);
fn w170() {
    tag("W170");
    structure(ty::<W170>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W171(#[opg(format = "f1")] V<0>);
fn w171() {
    tag("W171");
    structure(ty::<W171>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W172(#[opg(format = "f1")] V<0>);
fn w172() {
    tag("W172");
    structure(ty::<W172>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W173(#[opg(format = "f1")] V<0>);
fn w173() {
    tag("W173");
    structure(ty::<W173>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W174(#[opg(format = "f1")] V<0>);
fn w174() {
    tag("W174");
    structure(ty::<W174>(), want_model::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W175(#[opg(example = "e1")] V<0>);
fn w175() {
    tag("W175");
    structure(ty::<W175>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W176(#[opg(example = "e1")] V<0>);
fn w176() {
    tag("W176");
    structure(ty::<W176>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W177(#[opg(example = "e1")] V<0>);
fn w177() {
    tag("W177");
    structure(ty::<W177>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W178(#[opg(example = "e1")] V<0>);
fn w178() {
    tag("W178");
    structure(ty::<W178>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W179(#[opg(example = "e1")] V<0>);
fn w179() {
    tag("W179");
    structure(ty::<W179>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W180(#[opg(example = "e1")] V<0>);
fn w180() {
    tag("W180");
    structure(ty::<W180>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W181(#[opg(example = "e1")] V<0>);
fn w181() {
    tag("W181");
    structure(ty::<W181>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W182(#[opg(example = "e1")] V<0>);
fn w182() {
    tag("W182");
    structure(ty::<W182>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W183(#[opg(example_with = "3 + 4")] V<0>);
fn w183() {
    tag("W183");
    structure(ty::<W183>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W184(#[opg(example_with = "3 + 4")] V<0>);
fn w184() {
    tag("W184");
    structure(ty::<W184>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W185(#[opg(example_with = "3 + 4")] V<0>);
fn w185() {
    tag("W185");
    structure(ty::<W185>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W186(#[opg(example_with = "3 + 4")] V<0>);
fn w186() {
    tag("W186");
    structure(ty::<W186>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W187(#[opg(example_with = "3 + 4")] V<0>);
fn w187() {
    tag("W187");
    structure(ty::<W187>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W188(#[opg(example_with = "3 + 4")] V<0>);
fn w188() {
    tag("W188");
    structure(ty::<W188>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W189(#[opg(example_with = "3 + 4")] V<0>);
fn w189() {
    tag("W189");
    structure(ty::<W189>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W190(#[opg(nullable)] V<0>);
fn w190() {
    tag("W190");
    structure(ty::<W190>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W191(#[opg(nullable)] V<0>);
fn w191() {
    tag("W191");
    structure(ty::<W191>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W192(#[opg(nullable)] V<0>);
fn w192() {
    tag("W192");
    structure(ty::<W192>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W193(#[opg(nullable)] V<0>);
fn w193() {
    tag("W193");
    structure(ty::<W193>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W194(#[opg(nullable)] V<0>);
fn w194() {
    tag("W194");
    structure(ty::<W194>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W195(#[opg(nullable)] V<0>);
fn w195() {
    tag("W195");
    structure(ty::<W195>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W196(#[opg(nullable)] V<0>);
fn w196() {
    tag("W196");
    structure(ty::<W196>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W197(#[opg(nullable)] V<0>);
fn w197() {
    tag("W197");
    structure(ty::<W197>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W198(#[opg(inline)] V<0>);
fn w198() {
    tag("W198");
    structure(ty::<W198>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W199(#[opg(inline)] V<0>);
fn w199() {
    tag("W199");
    structure(ty::<W199>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W200(#[opg(inline)] V<0>);
fn w200() {
    tag("W200");
    structure(ty::<W200>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W201(#[opg(inline)] V<0>);
fn w201() {
    tag("W201");
    structure(ty::<W201>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W202(#[opg(inline)] V<0>);
fn w202() {
    tag("W202");
    structure(ty::<W202>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W203(#[opg(inline)] V<0>);
fn w203() {
    tag("W203");
    structure(ty::<W203>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W204(#[opg(inline)] V<0>);
fn w204() {
    tag("W204");
    structure(ty::<W204>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W205(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w205() {
    tag("W205");
    structure(ty::<W205>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W206(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w206() {
    tag("W206");
    structure(ty::<W206>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W207(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w207() {
    tag("W207");
    structure(ty::<W207>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W208(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w208() {
    tag("W208");
    structure(ty::<W208>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W209(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w209() {
    tag("W209");
    structure(ty::<W209>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W210(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w210() {
    tag("W210");
    structure(ty::<W210>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W211(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w211() {
    tag("W211");
    structure(ty::<W211>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W212(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>);
fn w212() {
    tag("W212");
    structure(ty::<W212>(), want_model::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W213(#[opg(string)] V<0>);
fn w213() {
    tag("W213");
    structure(ty::<W213>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W214(#[opg(string)] V<0>);
fn w214() {
    tag("W214");
    structure(ty::<W214>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W215(#[opg(string)] V<0>);
fn w215() {
    tag("W215");
    structure(ty::<W215>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W216(#[opg(string)] V<0>);
fn w216() {
    tag("W216");
    structure(ty::<W216>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W217(#[opg(string)] V<0>);
fn w217() {
    tag("W217");
    structure(ty::<W217>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W218(#[opg(string)] V<0>);
fn w218() {
    tag("W218");
    structure(ty::<W218>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(any)]
pub struct W219(#[opg(string)] V<0>);
fn w219() {
    tag("W219");
    structure(ty::<W219>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W220(#[opg(string)] V<0>);
fn w220() {
    tag("W220");
    structure(ty::<W220>(), want_model::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W221(#[opg(integer, format = "f3", "d3")] V<0>);
fn w221() {
    tag("W221");
    structure(ty::<W221>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W222(#[opg(integer, format = "f3", "d3")] V<0>);
fn w222() {
    tag("W222");
    structure(ty::<W222>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W223(#[opg(integer, format = "f3", "d3")] V<0>);
fn w223() {
    tag("W223");
    structure(ty::<W223>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W224(#[opg(integer, format = "f3", "d3")] V<0>);
fn w224() {
    tag("W224");
    structure(ty::<W224>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W225(#[opg(integer, format = "f3", "d3")] V<0>);
fn w225() {
    tag("W225");
    structure(ty::<W225>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W226(#[opg(integer, format = "f3", "d3")] V<0>);
fn w226() {
    tag("W226");
    structure(ty::<W226>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W227(#[opg(integer, format = "f3", "d3")] V<0>);
fn w227() {
    tag("W227");
    structure(ty::<W227>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W228(#[opg(integer, format = "f3", "d3")] V<0>);
fn w228() {
    tag("W228");
    structure(ty::<W228>(), want_model::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W229(#[opg(number, example = "e3", nullable)] V<0>);
fn w229() {
    tag("W229");
    structure(ty::<W229>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W230(#[opg(number, example = "e3", nullable)] V<0>);
fn w230() {
    tag("W230");
    structure(ty::<W230>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W231(#[opg(number, example = "e3", nullable)] V<0>);
fn w231() {
    tag("W231");
    structure(ty::<W231>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W232(#[opg(number, example = "e3", nullable)] V<0>);
fn w232() {
    tag("W232");
    structure(ty::<W232>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W233(#[opg(number, example = "e3", nullable)] V<0>);
fn w233() {
    tag("W233");
    structure(ty::<W233>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W234(#[opg(number, example = "e3", nullable)] V<0>);
fn w234() {
    tag("W234");
    structure(ty::<W234>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(any)]
pub struct W235(#[opg(number, example = "e3", nullable)] V<0>);
fn w235() {
    tag("W235");
    structure(ty::<W235>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W236(#[opg(number, example = "e3", nullable)] V<0>);
fn w236() {
    tag("W236");
    structure(ty::<W236>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(OpgModel)]

pub struct W237(#[opg(boolean, "d4", nullable)] V<0>);
fn w237() {
    tag("W237");
    structure(ty::<W237>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W238(#[opg(boolean, "d4", nullable)] V<0>);
fn w238() {
    tag("W238");
    structure(ty::<W238>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W239(#[opg(boolean, "d4", nullable)] V<0>);
fn w239() {
    tag("W239");
    structure(ty::<W239>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W240(#[opg(boolean, "d4", nullable)] V<0>);
fn w240() {
    tag("W240");
    structure(ty::<W240>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W241(#[opg(boolean, "d4", nullable)] V<0>);
fn w241() {
    tag("W241");
    structure(ty::<W241>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W242(#[opg(boolean, "d4", nullable)] V<0>);
fn w242() {
    tag("W242");
    structure(ty::<W242>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W243(#[opg(boolean, "d4", nullable)] V<0>);
fn w243() {
    tag("W243");
    structure(ty::<W243>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W244(#[opg(boolean, "d4", nullable)] V<0>);
fn w244() {
    tag("W244");
    structure(ty::<W244>(), want_model::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W245(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w245() {
    tag("W245");
    structure(ty::<W245>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg("d1")]
pub struct W246(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w246() {
    tag("W246");
    structure(ty::<W246>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example = "e1")]
pub struct W247(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w247() {
    tag("W247");
    structure(ty::<W247>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(nullable)]
pub struct W248(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w248() {
    tag("W248");
    structure(ty::<W248>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: true, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)]
pub struct W249(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w249() {
    tag("W249");
    structure(ty::<W249>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(integer, format = "f3", "d3")]
pub struct W250(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w250() {
    tag("W250");
    structure(ty::<W250>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })));
}
#[derive(OpgModel)]
#[opg(boolean, "d4", nullable)]
pub struct W251(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w251() {
    tag("W251");
    structure(ty::<W251>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" })));
}
#[derive(OpgModel)]
#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)]
pub struct W252(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>);
fn w252() {
    tag("W252");
    structure(ty::<W252>(), want_model::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" })));
}
#[derive(OpgModel)]

pub struct W253(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w253() {
    tag("W253");
    structure(ty::<W253>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(format = "f1")]
pub struct W254(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w254() {
    tag("W254");
    structure(ty::<W254>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(example_with = "3 + 4")]
pub struct W255(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w255() {
    tag("W255");
    structure(ty::<W255>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })));
}
#[derive(OpgModel)]
#[opg(inline)]
pub struct W256(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w256() {
    tag("W256");
    structure(ty::<W256>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })));
}
#[derive(OpgModel)]
#[opg(string)]
pub struct W257(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w257() {
    tag("W257");
    structure(ty::<W257>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })));
}
#[derive(OpgModel)]
#[opg(number, example = "e3", nullable)]
pub struct W258(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w258() {
    tag("W258");
    structure(ty::<W258>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" })));
}
#[derive(OpgModel)]
#[opg(any)]
pub struct W259(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w259() {
    tag("W259");
    structure(ty::<W259>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })));
}
#[derive(OpgModel)]
#[opg(string, format = "f4", example_with = "1 == 1", inline)]
pub struct W260(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>);
fn w260() {
    tag("W260");
    structure(ty::<W260>(), want_model::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E261 {
    #[opg(any)] Alpha(V<0>),
    #[opg("vd")] Beta { #[opg(example_with = "3 + 4", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>),
}
fn e261() {
    tag("E261");
    alternatives(ty::<E261>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E262 {
    #[opg("d1")] Alpha(#[opg("d1")] V<0>),
    #[opg(inline)] Beta { #[opg(example_with = "3 + 4")] x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(any)] V<0>, V<1>, V<1>),
}
fn e262() {
    tag("E262");
    alternatives(ty::<E262>(), Repr::External, Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E263 {
    #[opg(string)] Alpha(#[opg(format = "f1")] V<0>),
    #[opg("vd")] Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>, V<1>),
}
fn e263() {
    tag("E263");
    alternatives(ty::<E263>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E264 {
    #[opg(format = "f1")] Alpha(#[opg(example = "e1")] V<0>),
    #[opg("vd", inline)] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg("d1")] V<0>, V<1>, V<1>),
}
fn e264() {
    tag("E264");
    alternatives(ty::<E264>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E265 {
    #[opg(string)] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    Beta { #[opg(number, example = "e3", nullable)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(format = "f1")] V<0>, V<1>, V<1>, V<1>),
}
fn e265() {
    tag("E265");
    alternatives(ty::<E265>(), Repr::External, Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E266 {
    #[opg(any)] Alpha(#[opg(nullable)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(any)] V<0>, V<1>, V<1>),
}
fn e266() {
    tag("E266");
    alternatives(ty::<E266>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E267 {
    Alpha(#[opg(inline)] V<0>),
    #[opg("vd")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg("d1")] V<0>, V<1>),
}
fn e267() {
    tag("E267");
    alternatives(ty::<E267>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E268 {
    #[opg(example = "e1")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(any, optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>),
}
fn e268() {
    tag("E268");
    alternatives(ty::<E268>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E269 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(string)] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>, V<1>, V<1>),
}
fn e269() {
    tag("E269");
    alternatives(ty::<E269>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E270 {
    #[opg(inline)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    #[opg(inline)] Beta { x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>, V<1>, V<1>),
}
fn e270() {
    tag("E270");
    alternatives(ty::<E270>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E271 {
    Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(boolean, "d4", nullable)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>, V<1>, V<1>, V<1>),
}
fn e271() {
    tag("E271");
    alternatives(ty::<E271>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E272 {
    Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(format = "f1", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>),
}
fn e272() {
    tag("E272");
    alternatives(ty::<E272>(), Repr::External, Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E273 {
    #[opg("d1")] Alpha(#[opg(any)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(nullable)] V<0>, V<1>, V<1>),
}
fn e273() {
    tag("E273");
    alternatives(ty::<E273>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E274 {
    Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(boolean, "d4", nullable)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>, V<1>),
}
fn e274() {
    tag("E274");
    alternatives(ty::<E274>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E275 {
    #[opg(string)] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>),
}
fn e275() {
    tag("E275");
    alternatives(ty::<E275>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E276 {
    #[opg(any)] Alpha(V<0>),
    #[opg(" Vd. ")] Beta { x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>, V<1>, V<1>, V<1>),
}
fn e276() {
    tag("E276");
    alternatives(ty::<E276>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E277 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg("d1")] V<0>),
    #[opg("vd")] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(any)] V<0>, V<1>),
}
fn e277() {
    tag("E277");
    alternatives(ty::<E277>(), Repr::External, Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E278 {
    #[opg(example = "e1")] Alpha(#[opg(format = "f1")] V<0>),
    #[opg("vd", inline)] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>, V<1>),
}
fn e278() {
    tag("E278");
    alternatives(ty::<E278>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E279 {
    Alpha(#[opg(example = "e1")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>, V<1>),
}
fn e279() {
    tag("E279");
    alternatives(ty::<E279>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E280 {
    #[opg(inline)] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    #[opg("vd")] Beta { #[opg(example_with = "3 + 4")] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
}
fn e280() {
    tag("E280");
    alternatives(ty::<E280>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E281 {
    #[opg(any)] Alpha(#[opg(nullable)] V<0>),
    Beta { #[opg(integer, format = "f3", "d3")] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(string)] V<0>, V<1>),
}
fn e281() {
    tag("E281");
    alternatives(ty::<E281>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E282 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg(inline)] V<0>),
    #[opg("vd")] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
}
fn e282() {
    tag("E282");
    alternatives(ty::<E282>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E283 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(nullable)] V<0>, V<1>, V<1>),
}
fn e283() {
    tag("E283");
    alternatives(ty::<E283>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E284 {
    #[opg(example = "e1")] Alpha(#[opg(string)] V<0>),
    #[opg(inline)] Beta { #[opg(optional)] x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>),
}
fn e284() {
    tag("E284");
    alternatives(ty::<E284>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E285 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    #[opg("vd")] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
}
fn e285() {
    tag("E285");
    alternatives(ty::<E285>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
pub enum E286 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg("d1")] V<0>, V<1>, V<1>, V<1>),
}
fn e286() {
    tag("E286");
    alternatives(ty::<E286>(), Repr::External, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E287 {
    Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg(inline)] Beta { #[opg(example_with = "3 + 4")] x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
}
fn e287() {
    tag("E287");
    alternatives(ty::<E287>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E288 {
    #[opg(string)] Alpha(#[opg(any)] V<0>),
    Beta { #[opg("d1")] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
}
fn e288() {
    tag("E288");
    alternatives(ty::<E288>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E289 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>, V<1>, V<1>),
}
fn e289() {
    tag("E289");
    alternatives(ty::<E289>(), Repr::External, None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[opg("cd")]
pub enum E290 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd", inline)] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>),
}
fn e290() {
    tag("E290");
    alternatives(ty::<E290>(), Repr::External, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E291 {
    #[opg(format = "f1")] Alpha(V<3>),
    #[opg(" Vd. ", inline)] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e291() {
    tag("E291");
    alternatives(ty::<E291>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E292 {
    #[opg(inline)] Alpha(#[opg("d1")] V<3>),
    #[opg("vd")] Beta { #[opg(string, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e292() {
    tag("E292");
    alternatives(ty::<E292>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E293 {
    #[opg(example = "e1")] Alpha(#[opg(format = "f1")] V<3>),
    #[opg(" Vd. ")] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e293() {
    tag("E293");
    alternatives(ty::<E293>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E294 {
    #[opg(format = "f1")] Alpha(#[opg(example = "e1")] V<3>),
    #[opg("vd")] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e294() {
    tag("E294");
    alternatives(ty::<E294>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E295 {
    #[opg(example = "e1")] Alpha(#[opg(example_with = "3 + 4")] V<3>),
    #[opg("vd", inline)] Beta { #[opg(example_with = "3 + 4")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e295() {
    tag("E295");
    alternatives(ty::<E295>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E296 {
    #[opg(inline)] Alpha(#[opg(nullable)] V<3>),
    Beta { #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e296() {
    tag("E296");
    alternatives(ty::<E296>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" }))), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E297 {
    #[opg("d1")] Alpha(#[opg(inline)] V<3>),
    #[opg("vd", inline)] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e297() {
    tag("E297");
    alternatives(ty::<E297>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E298 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg(nullable, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e298() {
    tag("E298");
    alternatives(ty::<E298>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E299 {
    #[opg(format = "f1")] Alpha(#[opg(format = "f1")] V<3>),
    #[opg(" Vd. ", inline)] Beta { #[opg(inline, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e299() {
    tag("E299");
    alternatives(ty::<E299>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E300 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(inline)] V<3>),
    #[opg("vd", inline)] Beta { #[opg(inline, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e300() {
    tag("E300");
    alternatives(ty::<E300>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E301 {
    #[opg("d1")] Alpha(#[opg(nullable)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg(optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e301() {
    tag("E301");
    alternatives(ty::<E301>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E302 {
    #[opg(example = "e1")] Alpha(#[opg(inline)] V<3>),
    Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e302() {
    tag("E302");
    alternatives(ty::<E302>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E303 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(inline)] V<3>),
    #[opg("vd")] Beta { #[opg(example = "e1", optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e303() {
    tag("E303");
    alternatives(ty::<E303>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E304 {
    #[opg(inline)] Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<3>),
    #[opg("vd", inline)] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e304() {
    tag("E304");
    alternatives(ty::<E304>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E305 {
    #[opg(example = "e1")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg(boolean, "d4", nullable)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e305() {
    tag("E305");
    alternatives(ty::<E305>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E306 {
    #[opg("d1")] Alpha(V<3>),
    #[opg("vd", inline)] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e306() {
    tag("E306");
    alternatives(ty::<E306>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E307 {
    #[opg(format = "f1")] Alpha(#[opg("d1")] V<3>),
    #[opg("vd")] Beta { #[opg(inline)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e307() {
    tag("E307");
    alternatives(ty::<E307>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E308 {
    #[opg(format = "f1")] Alpha(#[opg(format = "f1")] V<3>),
    #[opg("vd", inline)] Beta { #[opg(inline)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e308() {
    tag("E308");
    alternatives(ty::<E308>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E309 {
    #[opg(example = "e1")] Alpha(#[opg(example = "e1")] V<3>),
    Beta { #[opg(optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e309() {
    tag("E309");
    alternatives(ty::<E309>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E310 {
    #[opg(format = "f1")] Alpha(#[opg(example_with = "3 + 4")] V<3>),
    #[opg("vd", inline)] Beta { x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e310() {
    tag("E310");
    alternatives(ty::<E310>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E311 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(nullable)] V<3>),
    #[opg("vd", inline)] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e311() {
    tag("E311");
    alternatives(ty::<E311>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E312 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(inline)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e312() {
    tag("E312");
    alternatives(ty::<E312>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E313 {
    Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg(boolean, "d4", nullable, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e313() {
    tag("E313");
    alternatives(ty::<E313>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E314 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg("d1")] V<3>),
    #[opg(" Vd. ")] Beta { x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e314() {
    tag("E314");
    alternatives(ty::<E314>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E315 {
    #[opg(format = "f1")] Alpha(#[opg(example = "e1")] V<3>),
    #[opg("vd", inline)] Beta { x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e315() {
    tag("E315");
    alternatives(ty::<E315>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E316 {
    #[opg("d1")] Alpha(#[opg(inline)] V<3>),
    #[opg(" Vd. ")] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e316() {
    tag("E316");
    alternatives(ty::<E316>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E317 {
    #[opg("d1")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<3>),
    Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e317() {
    tag("E317");
    alternatives(ty::<E317>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E318 {
    Alpha(#[opg("d1")] V<3>),
    #[opg("vd", inline)] Beta { #[opg(any, optional)] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e318() {
    tag("E318");
    alternatives(ty::<E318>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("cd")]
pub enum E319 {
    #[opg(format = "f1")] Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<3>),
    #[opg("vd", inline)] Beta { #[opg(integer, format = "f3", "d3")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e319() {
    tag("E319");
    alternatives(ty::<E319>(), Repr::Internal("tag"), Some("cd"), false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
pub enum E320 {
    Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<3>),
    #[opg("vd", inline)] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg("unit")] Delta,
}
fn e320() {
    tag("E320");
    alternatives(ty::<E320>(), Repr::Internal("tag"), None, false, vec![ModelReference::Inline(want_model::<V<3>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" }))), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(obj(Some("unit"), false, vec![]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E321 {
    #[opg(any)] Alpha(V<0>),
    #[opg(" Vd. ")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
}
fn e321() {
    tag("E321");
    alternatives(ty::<E321>(), Repr::Adjacent("t", "c"), None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E322 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg("d1")] V<0>),
    Beta { #[opg(any)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(number, example = "e3", nullable)] V<0>, V<1>, V<1>),
}
fn e322() {
    tag("E322");
    alternatives(ty::<E322>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E323 {
    Alpha(#[opg(format = "f1")] V<0>),
    #[opg("vd")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable, optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(inline)] V<0>),
}
fn e323() {
    tag("E323");
    alternatives(ty::<E323>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E324 {
    #[opg("d1")] Alpha(#[opg(example = "e1")] V<0>),
    #[opg("vd")] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(any)] V<0>, V<1>, V<1>),
}
fn e324() {
    tag("E324");
    alternatives(ty::<E324>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E325 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    #[opg("vd")] Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>),
}
fn e325() {
    tag("E325");
    alternatives(ty::<E325>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E326 {
    #[opg(inline)] Alpha(#[opg(nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example = "e1")] V<0>),
}
fn e326() {
    tag("E326");
    alternatives(ty::<E326>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E327 {
    #[opg(example = "e1")] Alpha(#[opg(inline)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(integer, format = "f3", "d3")] V<0>),
}
fn e327() {
    tag("E327");
    alternatives(ty::<E327>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E328 {
    #[opg(example = "e1")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg(inline)] Beta { x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>, V<1>),
}
fn e328() {
    tag("E328");
    alternatives(ty::<E328>(), Repr::Adjacent("t", "c"), None, true, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E329 {
    #[opg(string)] Alpha(#[opg(string)] V<0>),
    #[opg("vd")] Beta { x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(any)] V<0>, V<1>, V<1>),
}
fn e329() {
    tag("E329");
    alternatives(ty::<E329>(), Repr::Adjacent("t", "c"), None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E330 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(integer, format = "f3", "d3")] V<0>, V<1>, V<1>),
}
fn e330() {
    tag("E330");
    alternatives(ty::<E330>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E331 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(format = "f1")] V<0>),
}
fn e331() {
    tag("E331");
    alternatives(ty::<E331>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E332 {
    #[opg(format = "f1")] Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
}
fn e332() {
    tag("E332");
    alternatives(ty::<E332>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E333 {
    #[opg(format = "f1")] Alpha(#[opg(any)] V<0>),
    #[opg("vd")] Beta { #[opg("d1", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>),
}
fn e333() {
    tag("E333");
    alternatives(ty::<E333>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E334 {
    Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(example = "e1")] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>),
}
fn e334() {
    tag("E334");
    alternatives(ty::<E334>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E335 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd")] Beta { #[opg("d1", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>, V<1>),
}
fn e335() {
    tag("E335");
    alternatives(ty::<E335>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E336 {
    #[opg("d1")] Alpha(V<0>),
    #[opg(" Vd. ")] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
}
fn e336() {
    tag("E336");
    alternatives(ty::<E336>(), Repr::Adjacent("t", "c"), None, true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E337 {
    Alpha(#[opg("d1")] V<0>),
    #[opg("vd")] Beta { #[opg(boolean, "d4", nullable, optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(string)] V<0>, V<1>),
}
fn e337() {
    tag("E337");
    alternatives(ty::<E337>(), Repr::Adjacent("t", "c"), None, true, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E338 {
    #[opg(example = "e1")] Alpha(#[opg(format = "f1")] V<0>),
    #[opg(inline)] Beta { #[opg(boolean, "d4", nullable, optional)] x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(nullable)] V<0>, V<1>, V<1>),
}
fn e338() {
    tag("E338");
    alternatives(ty::<E338>(), Repr::Adjacent("t", "c"), None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E339 {
    #[opg(example = "e1")] Alpha(#[opg(example = "e1")] V<0>),
    #[opg("vd")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(integer, format = "f3", "d3")] V<0>),
}
fn e339() {
    tag("E339");
    alternatives(ty::<E339>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E340 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    Beta { #[opg(inline)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
}
fn e340() {
    tag("E340");
    alternatives(ty::<E340>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E341 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(nullable)] V<0>),
    #[opg(inline)] Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg(inline)] Gamma(V<1>, #[opg(any)] V<0>, V<1>, V<1>, V<1>),
}
fn e341() {
    tag("E341");
    alternatives(ty::<E341>(), Repr::Adjacent("t", "c"), None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E342 {
    Alpha(#[opg(inline)] V<0>),
    #[opg("vd")] Beta { #[opg(any)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>),
}
fn e342() {
    tag("E342");
    alternatives(ty::<E342>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E343 {
    #[opg(inline)] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable, optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>, V<1>),
}
fn e343() {
    tag("E343");
    alternatives(ty::<E343>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E344 {
    #[opg(example = "e1")] Alpha(#[opg(string)] V<0>),
    #[opg("vd")] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>, V<1>, V<1>),
}
fn e344() {
    tag("E344");
    alternatives(ty::<E344>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E345 {
    #[opg(any)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(nullable)] V<0>),
}
fn e345() {
    tag("E345");
    alternatives(ty::<E345>(), Repr::Adjacent("t", "c"), None, true, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE }))]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E346 {
    Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>),
}
fn e346() {
    tag("E346");
    alternatives(ty::<E346>(), Repr::Adjacent("t", "c"), None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E347 {
    #[opg("d1")] Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>, V<1>, V<1>),
}
fn e347() {
    tag("E347");
    alternatives(ty::<E347>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, " Ce: \"x\" ")]
pub enum E348 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg(any)] V<0>),
    #[opg("vd")] Beta { x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(any)] V<0>, V<1>),
}
fn e348() {
    tag("E348");
    alternatives(ty::<E348>(), Repr::Adjacent("t", "c"), Some(" Ce: \"x\" "), true, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("cd")]
pub enum E349 {
    #[opg(any)] Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    Beta { #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline, optional)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>),
}
fn e349() {
    tag("E349");
    alternatives(ty::<E349>(), Repr::Adjacent("t", "c"), Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E350 {
    #[opg(inline)] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(any, optional)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg("d1")] V<0>, V<1>, V<1>, V<1>),
}
fn e350() {
    tag("E350");
    alternatives(ty::<E350>(), Repr::Adjacent("t", "c"), None, true, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE }), want::<V<1>>(A { inline: true, ..NONE })]))]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E351 {
    #[opg(example_with = "3 + 4")] Alpha(V<0>),
    #[opg("vd")] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(inline)] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e351() {
    tag("E351");
    alternatives(ty::<E351>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E352 {
    Alpha(#[opg("d1")] V<0>),
    #[opg("vd")] Beta { #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline, optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(integer, format = "f3", "d3")] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e352() {
    tag("E352");
    alternatives(ty::<E352>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E353 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(format = "f1")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg("unit")] Delta,
}
fn e353() {
    tag("E353");
    alternatives(ty::<E353>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E354 {
    #[opg(string)] Alpha(#[opg(example = "e1")] V<0>),
    Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e354() {
    tag("E354");
    alternatives(ty::<E354>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E355 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(integer, format = "f3", "d3")] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg("unit")] Delta,
}
fn e355() {
    tag("E355");
    alternatives(ty::<E355>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: true, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E356 {
    Alpha(#[opg(nullable)] V<0>),
    #[opg(" Vd. ")] Beta { x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e356() {
    tag("E356");
    alternatives(ty::<E356>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E357 {
    #[opg(any)] Alpha(#[opg(inline)] V<0>),
    #[opg("vd")] Beta { #[opg(string, format = "f4", example_with = "1 == 1", inline)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(any)] V<0>),
    #[opg("unit")] Delta,
}
fn e357() {
    tag("E357");
    alternatives(ty::<E357>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: false, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E358 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e358() {
    tag("E358");
    alternatives(ty::<E358>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E359 {
    #[opg(any)] Alpha(#[opg(string)] V<0>),
    Beta { #[opg(example_with = "3 + 4")] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(boolean, "d4", nullable)] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e359() {
    tag("E359");
    alternatives(ty::<E359>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E360 {
    #[opg(any)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    #[opg("vd")] Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e360() {
    tag("E360");
    alternatives(ty::<E360>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E361 {
    #[opg(integer, format = "f3", "d3")] Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg("d1", optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e361() {
    tag("E361");
    alternatives(ty::<E361>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), false), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E362 {
    #[opg(inline)] Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg(" Vd. ")] Beta { #[opg("d1")] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e362() {
    tag("E362");
    alternatives(ty::<E362>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E363 {
    #[opg(string, format = "f4", example_with = "1 == 1", inline)] Alpha(#[opg(any)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(string)] V<0>),
    #[opg("unit")] Delta,
}
fn e363() {
    tag("E363");
    alternatives(ty::<E363>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: true, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E364 {
    #[opg(any)] Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg("d1", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e364() {
    tag("E364");
    alternatives(ty::<E364>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E365 {
    #[opg(format = "f1")] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd")] Beta { #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable, optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e365() {
    tag("E365");
    alternatives(ty::<E365>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E366 {
    #[opg(example = "e1")] Alpha(V<0>),
    #[opg(" Vd. ")] Beta { #[opg(string)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(number, example = "e3", nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e366() {
    tag("E366");
    alternatives(ty::<E366>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E367 {
    #[opg(any)] Alpha(#[opg("d1")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(number, example = "e3", nullable)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(example_with = "3 + 4")] V<0>, V<1>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e367() {
    tag("E367");
    alternatives(ty::<E367>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "any" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E368 {
    #[opg(string)] Alpha(#[opg(format = "f1")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(example = "e1", optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(inline)] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e368() {
    tag("E368");
    alternatives(ty::<E368>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E369 {
    #[opg(format = "f1")] Alpha(#[opg(example = "e1")] V<0>),
    #[opg("vd")] Beta { #[opg(example = "e1", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e369() {
    tag("E369");
    alternatives(ty::<E369>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E370 {
    #[opg(inline)] Alpha(#[opg(example_with = "3 + 4")] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e370() {
    tag("E370");
    alternatives(ty::<E370>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E371 {
    #[opg(example_with = "3 + 4")] Alpha(#[opg(nullable)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(integer, format = "f3", "d3")] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, #[opg(nullable)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e371() {
    tag("E371");
    alternatives(ty::<E371>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { d: None, f: None, e: Some("7"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: true, ..NONE })), want::<V<1>>(A { inline: true, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E372 {
    #[opg(format = "f1")] Alpha(#[opg(inline)] V<0>),
    #[opg(" Vd. ")] Beta { #[opg(optional)] x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e372() {
    tag("E372");
    alternatives(ty::<E372>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: true, t: "" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E373 {
    #[opg("d1")] Alpha(#[opg(" d2\n", format = " F2 ", example = "e 2 ", nullable, inline)] V<0>),
    Beta { #[opg(nullable)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(number, example = "e3", nullable)] V<0>),
    #[opg("unit")] Delta,
}
fn e373() {
    tag("E373");
    alternatives(ty::<E373>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: Some(" d2\n"), f: Some(" F2 "), e: Some("e 2 "), n: true, inline: true, t: "" }, A { d: Some("d1"), f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { inline: false, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E374 {
    #[opg(example = "e1")] Alpha(#[opg(string)] V<0>),
    #[opg("vd")] Beta { #[opg(nullable, optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example = "e1")] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e374() {
    tag("E374");
    alternatives(ty::<E374>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("cd")]
pub enum E375 {
    #[opg(string)] Alpha(#[opg(integer, format = "f3", "d3")] V<0>),
    Beta { #[opg(nullable, optional)] x: V<0>, y: V<1> },
    Gamma(V<1>, #[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e375() {
    tag("E375");
    alternatives(ty::<E375>(), Repr::Untagged, Some("cd"), false, vec![want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(None, false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: true, inline: false, t: "" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(None, false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E376 {
    #[opg(inline)] Alpha(#[opg(number, example = "e3", nullable)] V<0>),
    #[opg("vd", inline)] Beta { #[opg(boolean, "d4", nullable)] x: V<0>, y: V<1> },
    #[opg("vd", inline)] Gamma(V<1>, V<0>),
    #[opg("unit")] Delta,
}
fn e376() {
    tag("E376");
    alternatives(ty::<E376>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("e3"), n: true, inline: false, t: "number" }, A { d: None, f: None, e: None, n: false, inline: true, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E377 {
    #[opg(format = "f1")] Alpha(#[opg(boolean, "d4", nullable)] V<0>),
    #[opg("vd")] Beta { #[opg(integer, format = "f3", "d3", optional)] x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(string)] V<0>, V<1>, V<1>, V<1>),
    #[opg("unit")] Delta,
}
fn e377() {
    tag("E377");
    alternatives(ty::<E377>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: Some("d4"), f: None, e: None, n: true, inline: false, t: "boolean" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: Some("d3"), f: Some("f3"), e: None, n: false, inline: false, t: "integer" }, A { inline: false, ..NONE })), false), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE }), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E378 {
    #[opg(format = "f1")] Alpha(#[opg(any)] V<0>),
    #[opg(" Vd. ")] Beta { x: V<0>, y: V<1> },
    #[opg(" Vd. ")] Gamma(V<1>, #[opg(string)] V<0>, V<1>),
    #[opg("unit")] Delta,
}
fn e378() {
    tag("E378");
    alternatives(ty::<E378>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "string" }, A { inline: false, ..NONE })), want::<V<1>>(A { inline: false, ..NONE })])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E379 {
    Alpha(#[opg(inline, example_with = "crate::c17::EXAMPLE", nullable)] V<0>),
    #[opg(" Vd. ", inline)] Beta { #[opg(format = "f1")] x: V<0>, y: V<1> },
    #[opg(" Vd. ", inline)] Gamma(V<1>, #[opg(any)] V<0>),
    #[opg("unit")] Delta,
}
fn e379() {
    tag("E379");
    alternatives(ty::<E379>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: None, e: Some("shown"), n: true, inline: true, t: "" }, A { d: None, f: None, e: None, n: false, inline: false, t: "" })), ModelReference::Inline(obj(Some(" Vd. "), false, vec![("x", want::<V<0>>(over(A { d: None, f: Some("f1"), e: None, n: false, inline: false, t: "" }, A { inline: true, ..NONE })), true), ("y", want::<V<1>>(A { inline: true, ..NONE }), true)])), ModelReference::Inline(arr(Some(" Vd. "), false, vec![want::<V<1>>(A { inline: true, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "any" }, A { inline: true, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E380 {
    #[opg(string)] Alpha(#[opg(string, format = "f4", example_with = "1 == 1", inline)] V<0>),
    #[opg("vd")] Beta { x: V<0>, y: V<1> },
    #[opg("vd")] Gamma(V<1>, #[opg(example = "e1")] V<0>),
    #[opg("unit")] Delta,
}
fn e380() {
    tag("E380");
    alternatives(ty::<E380>(), Repr::Untagged, None, false, vec![want::<V<0>>(over(A { d: None, f: Some("f4"), e: Some("true"), n: false, inline: true, t: "string" }, A { d: None, f: None, e: None, n: false, inline: false, t: "string" })), ModelReference::Inline(obj(Some("vd"), false, vec![("x", want::<V<0>>(over(A { d: None, f: None, e: None, n: false, inline: false, t: "" }, A { inline: false, ..NONE })), true), ("y", want::<V<1>>(A { inline: false, ..NONE }), true)])), ModelReference::Inline(arr(Some("vd"), false, vec![want::<V<1>>(A { inline: false, ..NONE }), want::<V<0>>(over(A { d: None, f: None, e: Some("e1"), n: false, inline: false, t: "" }, A { inline: false, ..NONE }))])), want::<()>(A { d: Some("unit"), ..NONE })]);
}
pub fn g0() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => n0(),
        1 => n1(),
        2 => t2(),
        3 => n3(),
        4 => n4(),
        5 => t5(),
        6 => n6(),
        7 => n7(),
        8 => t8(),
        9 => n9(),
        10 => n10(),
        11 => t11(),
        12 => n12(),
        13 => n13(),
        14 => t14(),
        15 => n15(),
        16 => n16(),
        17 => t17(),
        18 => n18(),
        19 => n19(),
        20 => t20(),
        21 => n21(),
        22 => n22(),
        _ => t23(),
    }
}
pub fn g1() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => n24(),
        1 => n25(),
        2 => t26(),
        3 => n27(),
        4 => n28(),
        5 => t29(),
        6 => n30(),
        7 => n31(),
        8 => t32(),
        9 => n33(),
        10 => n34(),
        11 => t35(),
        12 => n36(),
        13 => n37(),
        14 => t38(),
        15 => n39(),
        16 => n40(),
        17 => t41(),
        18 => n42(),
        19 => n43(),
        20 => t44(),
        21 => p45(),
        22 => p46(),
        _ => p47(),
    }
}
pub fn g2() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => p48(),
        1 => p49(),
        2 => p50(),
        3 => p51(),
        4 => p52(),
        5 => p53(),
        6 => p54(),
        7 => p55(),
        8 => p56(),
        9 => p57(),
        10 => p58(),
        11 => p59(),
        12 => p60(),
        13 => p61(),
        14 => p62(),
        15 => p63(),
        16 => p64(),
        17 => p65(),
        18 => p66(),
        19 => p67(),
        20 => p68(),
        21 => p69(),
        22 => p70(),
        _ => p71(),
    }
}
pub fn g3() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => p72(),
        1 => p73(),
        2 => p74(),
        3 => p75(),
        4 => p76(),
        5 => p77(),
        6 => p78(),
        7 => p79(),
        8 => p80(),
        9 => p81(),
        10 => p82(),
        11 => p83(),
        12 => p84(),
        13 => p85(),
        14 => p86(),
        15 => p87(),
        16 => p88(),
        17 => p89(),
        18 => p90(),
        19 => p91(),
        20 => p92(),
        21 => p93(),
        22 => p94(),
        _ => p95(),
    }
}
pub fn g4() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => p96(),
        1 => p97(),
        2 => p98(),
        3 => p99(),
        4 => p100(),
        5 => p101(),
        6 => p102(),
        7 => p103(),
        8 => p104(),
        9 => p105(),
        10 => p106(),
        11 => p107(),
        12 => p108(),
        13 => p109(),
        14 => p110(),
        15 => p111(),
        16 => p112(),
        17 => p113(),
        18 => y114(),
        19 => y115(),
        20 => y116(),
        21 => y117(),
        22 => y118(),
        _ => y119(),
    }
}
pub fn g5() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => y120(),
        1 => y121(),
        2 => y122(),
        3 => y123(),
        4 => y124(),
        5 => y125(),
        6 => y126(),
        7 => y127(),
        8 => y128(),
        9 => y129(),
        10 => y130(),
        11 => y131(),
        12 => y132(),
        13 => y133(),
        14 => y134(),
        15 => y135(),
        16 => y136(),
        17 => y137(),
        18 => y138(),
        19 => y139(),
        20 => y140(),
        21 => y141(),
        22 => z142(),
        _ => z143(),
    }
}
pub fn g6() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => z144(),
        1 => z145(),
        2 => w146(),
        3 => w147(),
        4 => w148(),
        5 => w149(),
        6 => w150(),
        7 => w151(),
        8 => w152(),
        9 => w153(),
        10 => w154(),
        11 => w155(),
        12 => w156(),
        13 => w157(),
        14 => w158(),
        15 => w159(),
        16 => w160(),
        17 => w161(),
        18 => w162(),
        19 => w163(),
        20 => w164(),
        21 => w165(),
        22 => w166(),
        _ => w167(),
    }
}
pub fn g7() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => w168(),
        1 => w169(),
        2 => w170(),
        3 => w171(),
        4 => w172(),
        5 => w173(),
        6 => w174(),
        7 => w175(),
        8 => w176(),
        9 => w177(),
        10 => w178(),
        11 => w179(),
        12 => w180(),
        13 => w181(),
        14 => w182(),
        15 => w183(),
        16 => w184(),
        17 => w185(),
        18 => w186(),
        19 => w187(),
        20 => w188(),
        21 => w189(),
        22 => w190(),
        _ => w191(),
    }
}
pub fn g8() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => w192(),
        1 => w193(),
        2 => w194(),
        3 => w195(),
        4 => w196(),
        5 => w197(),
        6 => w198(),
        7 => w199(),
        8 => w200(),
        9 => w201(),
        10 => w202(),
        11 => w203(),
        12 => w204(),
        13 => w205(),
        14 => w206(),
        15 => w207(),
        16 => w208(),
        17 => w209(),
        18 => w210(),
        19 => w211(),
        20 => w212(),
        21 => w213(),
        22 => w214(),
        _ => w215(),
    }
}
pub fn g9() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => w216(),
        1 => w217(),
        2 => w218(),
        3 => w219(),
        4 => w220(),
        5 => w221(),
        6 => w222(),
        7 => w223(),
        8 => w224(),
        9 => w225(),
        10 => w226(),
        11 => w227(),
        12 => w228(),
        13 => w229(),
        14 => w230(),
        15 => w231(),
        16 => w232(),
        17 => w233(),
        18 => w234(),
        19 => w235(),
        20 => w236(),
        21 => w237(),
        22 => w238(),
        _ => w239(),
    }
}
pub fn g10() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => w240(),
        1 => w241(),
        2 => w242(),
        3 => w243(),
        4 => w244(),
        5 => w245(),
        6 => w246(),
        7 => w247(),
        8 => w248(),
        9 => w249(),
        10 => w250(),
        11 => w251(),
        12 => w252(),
        13 => w253(),
        14 => w254(),
        15 => w255(),
        16 => w256(),
        17 => w257(),
        18 => w258(),
        19 => w259(),
        20 => w260(),
        21 => e261(),
        22 => e262(),
        _ => e263(),
    }
}
pub fn g11() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => e264(),
        1 => e265(),
        2 => e266(),
        3 => e267(),
        4 => e268(),
        5 => e269(),
        6 => e270(),
        7 => e271(),
        8 => e272(),
        9 => e273(),
        10 => e274(),
        11 => e275(),
        12 => e276(),
        13 => e277(),
        14 => e278(),
        15 => e279(),
        16 => e280(),
        17 => e281(),
        18 => e282(),
        19 => e283(),
        20 => e284(),
        21 => e285(),
        22 => e286(),
        _ => e287(),
    }
}
pub fn g12() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => e288(),
        1 => e289(),
        2 => e290(),
        3 => e291(),
        4 => e292(),
        5 => e293(),
        6 => e294(),
        7 => e295(),
        8 => e296(),
        9 => e297(),
        10 => e298(),
        11 => e299(),
        12 => e300(),
        13 => e301(),
        14 => e302(),
        15 => e303(),
        16 => e304(),
        17 => e305(),
        18 => e306(),
        19 => e307(),
        20 => e308(),
        21 => e309(),
        22 => e310(),
        _ => e311(),
    }
}
pub fn g13() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => e312(),
        1 => e313(),
        2 => e314(),
        3 => e315(),
        4 => e316(),
        5 => e317(),
        6 => e318(),
        7 => e319(),
        8 => e320(),
        9 => e321(),
        10 => e322(),
        11 => e323(),
        12 => e324(),
        13 => e325(),
        14 => e326(),
        15 => e327(),
        16 => e328(),
        17 => e329(),
        18 => e330(),
        19 => e331(),
        20 => e332(),
        21 => e333(),
        22 => e334(),
        _ => e335(),
    }
}
pub fn g14() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(24) {
        0 => e336(),
        1 => e337(),
        2 => e338(),
        3 => e339(),
        4 => e340(),
        5 => e341(),
        6 => e342(),
        7 => e343(),
        8 => e344(),
        9 => e345(),
        10 => e346(),
        11 => e347(),
        12 => e348(),
        13 => e349(),
        14 => e350(),
        15 => e351(),
        16 => e352(),
        17 => e353(),
        18 => e354(),
        19 => e355(),
        20 => e356(),
        21 => e357(),
        22 => e358(),
        _ => e359(),
    }
}
pub fn g15() {
    pick_kinds(2, KINDS);
    set_kind(3, if flip() { 1 } else { 5 });
    described_kinds();
    match choose(21) {
        0 => e360(),
        1 => e361(),
        2 => e362(),
        3 => e363(),
        4 => e364(),
        5 => e365(),
        6 => e366(),
        7 => e367(),
        8 => e368(),
        9 => e369(),
        10 => e370(),
        11 => e371(),
        12 => e372(),
        13 => e373(),
        14 => e374(),
        15 => e375(),
        16 => e376(),
        17 => e377(),
        18 => e378(),
        19 => e379(),
        _ => e380(),
    }
}
