// Generated by tools/gen_types.py.
#![allow(dead_code, non_snake_case, non_camel_case_types)]
use crate::kit::*;
use serde_repr::Serialize_repr;

#[derive(Serialize, OpgModel)]
pub enum E0 {
    First,
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
}
fn e0() {
    tag("E0");
    let all = [j(&E0::First), j(&E0::SecondOne), j(&E0::HTTPThird), j(&E0::X4th)];
    let v = match choose(4) {
        0 => E0::First,
        1 => E0::SecondOne,
        2 => E0::HTTPThird,
        _ => E0::X4th,
    };
    enumeration(ty::<E0>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E1 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
    SecondOne,
    #[serde(skip_serializing)]
    HTTPThird,
    #[serde(skip_deserializing)]
    X4th,
}
fn e1() {
    tag("E1");
    let all = [j(&E1::First), j(&E1::SecondOne), j(&E1::X4th)];
    let v = match choose(3) {
        0 => E1::First,
        1 => E1::SecondOne,
        _ => E1::X4th,
    };
    enumeration(ty::<E1>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E2 {
    #[serde(skip_deserializing)]
    First,
    SecondOne,
    #[opg(inline)]
    HTTPThird,
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th,
}
fn e2() {
    tag("E2");
    let all = [j(&E2::First), j(&E2::SecondOne), j(&E2::HTTPThird), j(&E2::X4th)];
    let v = match choose(4) {
        0 => E2::First,
        1 => E2::SecondOne,
        2 => E2::HTTPThird,
        _ => E2::X4th,
    };
    enumeration(ty::<E2>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E3 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
    SecondOne,
    HTTPThird,
    #[serde(rename = "re-Named")]
    X4th,
}
fn e3() {
    tag("E3");
    let all = [j(&E3::First), j(&E3::SecondOne), j(&E3::HTTPThird), j(&E3::X4th)];
    let v = match choose(4) {
        0 => E3::First,
        1 => E3::SecondOne,
        2 => E3::HTTPThird,
        _ => E3::X4th,
    };
    enumeration(ty::<E3>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E4 {
    SecondOne,
    HTTPThird,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
}
fn e4() {
    tag("E4");
    let all = [j(&E4::SecondOne), j(&E4::HTTPThird), j(&E4::X4th), j(&E4::r#Fifth)];
    let v = match choose(4) {
        0 => E4::SecondOne,
        1 => E4::HTTPThird,
        2 => E4::X4th,
        _ => E4::r#Fifth,
    };
    enumeration(ty::<E4>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E5 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
    HTTPThird,
    #[serde(skip_serializing)]
    X4th,
    #[serde(skip_deserializing)]
    r#Fifth,
}
fn e5() {
    tag("E5");
    let all = [j(&E5::SecondOne), j(&E5::HTTPThird), j(&E5::r#Fifth)];
    let v = match choose(3) {
        0 => E5::SecondOne,
        1 => E5::HTTPThird,
        _ => E5::r#Fifth,
    };
    enumeration(ty::<E5>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E6 {
    #[serde(skip_deserializing)]
    SecondOne,
    HTTPThird,
    #[opg(inline)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
}
fn e6() {
    tag("E6");
    let all = [j(&E6::SecondOne), j(&E6::HTTPThird), j(&E6::X4th), j(&E6::r#Fifth)];
    let v = match choose(4) {
        0 => E6::SecondOne,
        1 => E6::HTTPThird,
        2 => E6::X4th,
        _ => E6::r#Fifth,
    };
    enumeration(ty::<E6>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E7 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    HTTPThird,
    X4th,
    #[serde(rename = "re-Named")]
    r#Fifth,
}
fn e7() {
    tag("E7");
    let all = [j(&E7::SecondOne), j(&E7::HTTPThird), j(&E7::X4th), j(&E7::r#Fifth)];
    let v = match choose(4) {
        0 => E7::SecondOne,
        1 => E7::HTTPThird,
        2 => E7::X4th,
        _ => E7::r#Fifth,
    };
    enumeration(ty::<E7>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E8 {
    HTTPThird,
    X4th,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th,
}
fn e8() {
    tag("E8");
    let all = [j(&E8::HTTPThird), j(&E8::X4th), j(&E8::r#Fifth), j(&E8::Six_th)];
    let v = match choose(4) {
        0 => E8::HTTPThird,
        1 => E8::X4th,
        2 => E8::r#Fifth,
        _ => E8::Six_th,
    };
    enumeration(ty::<E8>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E9 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird,
    X4th,
    #[serde(skip_serializing)]
    r#Fifth,
    #[serde(skip_deserializing)]
    Six_th,
}
fn e9() {
    tag("E9");
    let all = [j(&E9::HTTPThird), j(&E9::X4th), j(&E9::Six_th)];
    let v = match choose(3) {
        0 => E9::HTTPThird,
        1 => E9::X4th,
        _ => E9::Six_th,
    };
    enumeration(ty::<E9>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E10 {
    #[serde(skip_deserializing)]
    HTTPThird,
    X4th,
    #[opg(inline)]
    r#Fifth,
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
}
fn e10() {
    tag("E10");
    let all = [j(&E10::HTTPThird), j(&E10::X4th), j(&E10::r#Fifth), j(&E10::Six_th)];
    let v = match choose(4) {
        0 => E10::HTTPThird,
        1 => E10::X4th,
        2 => E10::r#Fifth,
        _ => E10::Six_th,
    };
    enumeration(ty::<E10>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E11 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird,
    X4th,
    r#Fifth,
    #[serde(rename = "re-Named")]
    Six_th,
}
fn e11() {
    tag("E11");
    let all = [j(&E11::HTTPThird), j(&E11::X4th), j(&E11::r#Fifth), j(&E11::Six_th)];
    let v = match choose(4) {
        0 => E11::HTTPThird,
        1 => E11::X4th,
        2 => E11::r#Fifth,
        _ => E11::Six_th,
    };
    enumeration(ty::<E11>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E12 {
    X4th,
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
}
fn e12() {
    tag("E12");
    let all = [j(&E12::X4th), j(&E12::r#Fifth), j(&E12::Six_th), j(&E12::Z)];
    let v = match choose(4) {
        0 => E12::X4th,
        1 => E12::r#Fifth,
        2 => E12::Six_th,
        _ => E12::Z,
    };
    enumeration(ty::<E12>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E13 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th,
    #[serde(skip_deserializing)]
    Z,
}
fn e13() {
    tag("E13");
    let all = [j(&E13::X4th), j(&E13::r#Fifth), j(&E13::Z)];
    let v = match choose(3) {
        0 => E13::X4th,
        1 => E13::r#Fifth,
        _ => E13::Z,
    };
    enumeration(ty::<E13>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E14 {
    #[serde(skip_deserializing)]
    X4th,
    r#Fifth,
    #[opg(inline)]
    Six_th,
    #[serde(rename = "both", rename_all = "camelCase")]
    Z,
}
fn e14() {
    tag("E14");
    let all = [j(&E14::X4th), j(&E14::r#Fifth), j(&E14::Six_th), j(&E14::Z)];
    let v = match choose(4) {
        0 => E14::X4th,
        1 => E14::r#Fifth,
        2 => E14::Six_th,
        _ => E14::Z,
    };
    enumeration(ty::<E14>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E15 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th,
    r#Fifth,
    Six_th,
    #[serde(rename = "re-Named")]
    Z,
}
fn e15() {
    tag("E15");
    let all = [j(&E15::X4th), j(&E15::r#Fifth), j(&E15::Six_th), j(&E15::Z)];
    let v = match choose(4) {
        0 => E15::X4th,
        1 => E15::r#Fifth,
        2 => E15::Six_th,
        _ => E15::Z,
    };
    enumeration(ty::<E15>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E16 {
    r#Fifth,
    Six_th,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
}
fn e16() {
    tag("E16");
    let all = [j(&E16::r#Fifth), j(&E16::Six_th), j(&E16::Z), j(&E16::First)];
    let v = match choose(4) {
        0 => E16::r#Fifth,
        1 => E16::Six_th,
        2 => E16::Z,
        _ => E16::First,
    };
    enumeration(ty::<E16>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E17 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
    Six_th,
    #[serde(skip_serializing)]
    Z,
    #[serde(skip_deserializing)]
    First,
}
fn e17() {
    tag("E17");
    let all = [j(&E17::r#Fifth), j(&E17::Six_th), j(&E17::First)];
    let v = match choose(3) {
        0 => E17::r#Fifth,
        1 => E17::Six_th,
        _ => E17::First,
    };
    enumeration(ty::<E17>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E18 {
    #[serde(skip_deserializing)]
    r#Fifth,
    Six_th,
    #[opg(inline)]
    Z,
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
}
fn e18() {
    tag("E18");
    let all = [j(&E18::r#Fifth), j(&E18::Six_th), j(&E18::Z), j(&E18::First)];
    let v = match choose(4) {
        0 => E18::r#Fifth,
        1 => E18::Six_th,
        2 => E18::Z,
        _ => E18::First,
    };
    enumeration(ty::<E18>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E19 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    Six_th,
    Z,
    #[serde(rename = "re-Named")]
    First,
}
fn e19() {
    tag("E19");
    let all = [j(&E19::r#Fifth), j(&E19::Six_th), j(&E19::Z), j(&E19::First)];
    let v = match choose(4) {
        0 => E19::r#Fifth,
        1 => E19::Six_th,
        2 => E19::Z,
        _ => E19::First,
    };
    enumeration(ty::<E19>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E20 {
    Six_th,
    Z,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
}
fn e20() {
    tag("E20");
    let all = [j(&E20::Six_th), j(&E20::Z), j(&E20::First), j(&E20::SecondOne)];
    let v = match choose(4) {
        0 => E20::Six_th,
        1 => E20::Z,
        2 => E20::First,
        _ => E20::SecondOne,
    };
    enumeration(ty::<E20>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E21 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th,
    Z,
    #[serde(skip_serializing)]
    First,
    #[serde(skip_deserializing)]
    SecondOne,
}
fn e21() {
    tag("E21");
    let all = [j(&E21::Six_th), j(&E21::Z), j(&E21::SecondOne)];
    let v = match choose(3) {
        0 => E21::Six_th,
        1 => E21::Z,
        _ => E21::SecondOne,
    };
    enumeration(ty::<E21>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E22 {
    #[serde(skip_deserializing)]
    Six_th,
    Z,
    #[opg(inline)]
    First,
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
}
fn e22() {
    tag("E22");
    let all = [j(&E22::Six_th), j(&E22::Z), j(&E22::First), j(&E22::SecondOne)];
    let v = match choose(4) {
        0 => E22::Six_th,
        1 => E22::Z,
        2 => E22::First,
        _ => E22::SecondOne,
    };
    enumeration(ty::<E22>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E23 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
    Z,
    First,
    #[serde(rename = "re-Named")]
    SecondOne,
}
fn e23() {
    tag("E23");
    let all = [j(&E23::Six_th), j(&E23::Z), j(&E23::First), j(&E23::SecondOne)];
    let v = match choose(4) {
        0 => E23::Six_th,
        1 => E23::Z,
        2 => E23::First,
        _ => E23::SecondOne,
    };
    enumeration(ty::<E23>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E24 {
    Z,
    First,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird,
}
fn e24() {
    tag("E24");
    let all = [j(&E24::Z), j(&E24::First), j(&E24::SecondOne), j(&E24::HTTPThird)];
    let v = match choose(4) {
        0 => E24::Z,
        1 => E24::First,
        2 => E24::SecondOne,
        _ => E24::HTTPThird,
    };
    enumeration(ty::<E24>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E25 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
    First,
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird,
}
fn e25() {
    tag("E25");
    let all = [j(&E25::Z), j(&E25::First), j(&E25::HTTPThird)];
    let v = match choose(3) {
        0 => E25::Z,
        1 => E25::First,
        _ => E25::HTTPThird,
    };
    enumeration(ty::<E25>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E26 {
    #[serde(skip_deserializing)]
    Z,
    First,
    #[opg(inline)]
    SecondOne,
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird,
}
fn e26() {
    tag("E26");
    let all = [j(&E26::Z), j(&E26::First), j(&E26::SecondOne), j(&E26::HTTPThird)];
    let v = match choose(4) {
        0 => E26::Z,
        1 => E26::First,
        2 => E26::SecondOne,
        _ => E26::HTTPThird,
    };
    enumeration(ty::<E26>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E27 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Z,
    First,
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird,
}
fn e27() {
    tag("E27");
    let all = [j(&E27::Z), j(&E27::First), j(&E27::SecondOne), j(&E27::HTTPThird)];
    let v = match choose(4) {
        0 => E27::Z,
        1 => E27::First,
        2 => E27::SecondOne,
        _ => E27::HTTPThird,
    };
    enumeration(ty::<E27>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E28 {
    First,
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
}
fn e28() {
    tag("E28");
    let all = [j(&E28::First), j(&E28::SecondOne), j(&E28::HTTPThird), j(&E28::X4th)];
    let v = match choose(4) {
        0 => E28::First,
        1 => E28::SecondOne,
        2 => E28::HTTPThird,
        _ => E28::X4th,
    };
    enumeration(ty::<E28>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E29 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
    SecondOne,
    #[serde(skip_serializing)]
    HTTPThird,
    #[serde(skip_deserializing)]
    X4th,
}
fn e29() {
    tag("E29");
    let all = [j(&E29::First), j(&E29::SecondOne), j(&E29::X4th)];
    let v = match choose(3) {
        0 => E29::First,
        1 => E29::SecondOne,
        _ => E29::X4th,
    };
    enumeration(ty::<E29>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E30 {
    #[serde(skip_deserializing)]
    First,
    SecondOne,
    #[opg(inline)]
    HTTPThird,
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th,
}
fn e30() {
    tag("E30");
    let all = [j(&E30::First), j(&E30::SecondOne), j(&E30::HTTPThird), j(&E30::X4th)];
    let v = match choose(4) {
        0 => E30::First,
        1 => E30::SecondOne,
        2 => E30::HTTPThird,
        _ => E30::X4th,
    };
    enumeration(ty::<E30>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E31 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
    SecondOne,
    HTTPThird,
    #[serde(rename = "re-Named")]
    X4th,
}
fn e31() {
    tag("E31");
    let all = [j(&E31::First), j(&E31::SecondOne), j(&E31::HTTPThird), j(&E31::X4th)];
    let v = match choose(4) {
        0 => E31::First,
        1 => E31::SecondOne,
        2 => E31::HTTPThird,
        _ => E31::X4th,
    };
    enumeration(ty::<E31>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E32 {
    SecondOne,
    HTTPThird,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
}
fn e32() {
    tag("E32");
    let all = [j(&E32::SecondOne), j(&E32::HTTPThird), j(&E32::X4th), j(&E32::r#Fifth)];
    let v = match choose(4) {
        0 => E32::SecondOne,
        1 => E32::HTTPThird,
        2 => E32::X4th,
        _ => E32::r#Fifth,
    };
    enumeration(ty::<E32>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E33 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
    HTTPThird,
    #[serde(skip_serializing)]
    X4th,
    #[serde(skip_deserializing)]
    r#Fifth,
}
fn e33() {
    tag("E33");
    let all = [j(&E33::SecondOne), j(&E33::HTTPThird), j(&E33::r#Fifth)];
    let v = match choose(3) {
        0 => E33::SecondOne,
        1 => E33::HTTPThird,
        _ => E33::r#Fifth,
    };
    enumeration(ty::<E33>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E34 {
    #[serde(skip_deserializing)]
    SecondOne,
    HTTPThird,
    #[opg(inline)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
}
fn e34() {
    tag("E34");
    let all = [j(&E34::SecondOne), j(&E34::HTTPThird), j(&E34::X4th), j(&E34::r#Fifth)];
    let v = match choose(4) {
        0 => E34::SecondOne,
        1 => E34::HTTPThird,
        2 => E34::X4th,
        _ => E34::r#Fifth,
    };
    enumeration(ty::<E34>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E35 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    HTTPThird,
    X4th,
    #[serde(rename = "re-Named")]
    r#Fifth,
}
fn e35() {
    tag("E35");
    let all = [j(&E35::SecondOne), j(&E35::HTTPThird), j(&E35::X4th), j(&E35::r#Fifth)];
    let v = match choose(4) {
        0 => E35::SecondOne,
        1 => E35::HTTPThird,
        2 => E35::X4th,
        _ => E35::r#Fifth,
    };
    enumeration(ty::<E35>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E36 {
    HTTPThird,
    X4th,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th,
}
fn e36() {
    tag("E36");
    let all = [j(&E36::HTTPThird), j(&E36::X4th), j(&E36::r#Fifth), j(&E36::Six_th)];
    let v = match choose(4) {
        0 => E36::HTTPThird,
        1 => E36::X4th,
        2 => E36::r#Fifth,
        _ => E36::Six_th,
    };
    enumeration(ty::<E36>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E37 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird,
    X4th,
    #[serde(skip_serializing)]
    r#Fifth,
    #[serde(skip_deserializing)]
    Six_th,
}
fn e37() {
    tag("E37");
    let all = [j(&E37::HTTPThird), j(&E37::X4th), j(&E37::Six_th)];
    let v = match choose(3) {
        0 => E37::HTTPThird,
        1 => E37::X4th,
        _ => E37::Six_th,
    };
    enumeration(ty::<E37>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E38 {
    #[serde(skip_deserializing)]
    HTTPThird,
    X4th,
    #[opg(inline)]
    r#Fifth,
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
}
fn e38() {
    tag("E38");
    let all = [j(&E38::HTTPThird), j(&E38::X4th), j(&E38::r#Fifth), j(&E38::Six_th)];
    let v = match choose(4) {
        0 => E38::HTTPThird,
        1 => E38::X4th,
        2 => E38::r#Fifth,
        _ => E38::Six_th,
    };
    enumeration(ty::<E38>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E39 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird,
    X4th,
    r#Fifth,
    #[serde(rename = "re-Named")]
    Six_th,
}
fn e39() {
    tag("E39");
    let all = [j(&E39::HTTPThird), j(&E39::X4th), j(&E39::r#Fifth), j(&E39::Six_th)];
    let v = match choose(4) {
        0 => E39::HTTPThird,
        1 => E39::X4th,
        2 => E39::r#Fifth,
        _ => E39::Six_th,
    };
    enumeration(ty::<E39>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E40 {
    X4th,
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
}
fn e40() {
    tag("E40");
    let all = [j(&E40::X4th), j(&E40::r#Fifth), j(&E40::Six_th), j(&E40::Z)];
    let v = match choose(4) {
        0 => E40::X4th,
        1 => E40::r#Fifth,
        2 => E40::Six_th,
        _ => E40::Z,
    };
    enumeration(ty::<E40>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E41 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th,
    #[serde(skip_deserializing)]
    Z,
}
fn e41() {
    tag("E41");
    let all = [j(&E41::X4th), j(&E41::r#Fifth), j(&E41::Z)];
    let v = match choose(3) {
        0 => E41::X4th,
        1 => E41::r#Fifth,
        _ => E41::Z,
    };
    enumeration(ty::<E41>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E42 {
    #[serde(skip_deserializing)]
    X4th,
    r#Fifth,
    #[opg(inline)]
    Six_th,
    #[serde(rename = "both", rename_all = "camelCase")]
    Z,
}
fn e42() {
    tag("E42");
    let all = [j(&E42::X4th), j(&E42::r#Fifth), j(&E42::Six_th), j(&E42::Z)];
    let v = match choose(4) {
        0 => E42::X4th,
        1 => E42::r#Fifth,
        2 => E42::Six_th,
        _ => E42::Z,
    };
    enumeration(ty::<E42>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E43 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th,
    r#Fifth,
    Six_th,
    #[serde(rename = "re-Named")]
    Z,
}
fn e43() {
    tag("E43");
    let all = [j(&E43::X4th), j(&E43::r#Fifth), j(&E43::Six_th), j(&E43::Z)];
    let v = match choose(4) {
        0 => E43::X4th,
        1 => E43::r#Fifth,
        2 => E43::Six_th,
        _ => E43::Z,
    };
    enumeration(ty::<E43>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E44 {
    r#Fifth,
    Six_th,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
}
fn e44() {
    tag("E44");
    let all = [j(&E44::r#Fifth), j(&E44::Six_th), j(&E44::Z), j(&E44::First)];
    let v = match choose(4) {
        0 => E44::r#Fifth,
        1 => E44::Six_th,
        2 => E44::Z,
        _ => E44::First,
    };
    enumeration(ty::<E44>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E45 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
    Six_th,
    #[serde(skip_serializing)]
    Z,
    #[serde(skip_deserializing)]
    First,
}
fn e45() {
    tag("E45");
    let all = [j(&E45::r#Fifth), j(&E45::Six_th), j(&E45::First)];
    let v = match choose(3) {
        0 => E45::r#Fifth,
        1 => E45::Six_th,
        _ => E45::First,
    };
    enumeration(ty::<E45>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E46 {
    #[serde(skip_deserializing)]
    r#Fifth,
    Six_th,
    #[opg(inline)]
    Z,
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
}
fn e46() {
    tag("E46");
    let all = [j(&E46::r#Fifth), j(&E46::Six_th), j(&E46::Z), j(&E46::First)];
    let v = match choose(4) {
        0 => E46::r#Fifth,
        1 => E46::Six_th,
        2 => E46::Z,
        _ => E46::First,
    };
    enumeration(ty::<E46>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E47 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    Six_th,
    Z,
    #[serde(rename = "re-Named")]
    First,
}
fn e47() {
    tag("E47");
    let all = [j(&E47::r#Fifth), j(&E47::Six_th), j(&E47::Z), j(&E47::First)];
    let v = match choose(4) {
        0 => E47::r#Fifth,
        1 => E47::Six_th,
        2 => E47::Z,
        _ => E47::First,
    };
    enumeration(ty::<E47>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E48 {
    Six_th,
    Z,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
}
fn e48() {
    tag("E48");
    let all = [j(&E48::Six_th), j(&E48::Z), j(&E48::First), j(&E48::SecondOne)];
    let v = match choose(4) {
        0 => E48::Six_th,
        1 => E48::Z,
        2 => E48::First,
        _ => E48::SecondOne,
    };
    enumeration(ty::<E48>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E49 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th,
    Z,
    #[serde(skip_serializing)]
    First,
    #[serde(skip_deserializing)]
    SecondOne,
}
fn e49() {
    tag("E49");
    let all = [j(&E49::Six_th), j(&E49::Z), j(&E49::SecondOne)];
    let v = match choose(3) {
        0 => E49::Six_th,
        1 => E49::Z,
        _ => E49::SecondOne,
    };
    enumeration(ty::<E49>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E50 {
    #[serde(skip_deserializing)]
    Six_th,
    Z,
    #[opg(inline)]
    First,
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
}
fn e50() {
    tag("E50");
    let all = [j(&E50::Six_th), j(&E50::Z), j(&E50::First), j(&E50::SecondOne)];
    let v = match choose(4) {
        0 => E50::Six_th,
        1 => E50::Z,
        2 => E50::First,
        _ => E50::SecondOne,
    };
    enumeration(ty::<E50>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E51 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
    Z,
    First,
    #[serde(rename = "re-Named")]
    SecondOne,
}
fn e51() {
    tag("E51");
    let all = [j(&E51::Six_th), j(&E51::Z), j(&E51::First), j(&E51::SecondOne)];
    let v = match choose(4) {
        0 => E51::Six_th,
        1 => E51::Z,
        2 => E51::First,
        _ => E51::SecondOne,
    };
    enumeration(ty::<E51>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u8)]
pub enum E52 {
    First = 0,
    SecondOne = 7,
    HTTPThird = 255,
}
fn e52() {
    tag("E52");
    let all = [j(&E52::First), j(&E52::SecondOne), j(&E52::HTTPThird)];
    let v = match choose(3) {
        0 => E52::First,
        1 => E52::SecondOne,
        _ => E52::HTTPThird,
    };
    enumeration(ty::<E52>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u8)]
pub enum E53 {
    First = 0,
    SecondOne = 7,
    HTTPThird = 255,
}
fn e53() {
    tag("E53");
    let all = [j(&E53::First), j(&E53::SecondOne), j(&E53::HTTPThird)];
    let v = match choose(3) {
        0 => E53::First,
        1 => E53::SecondOne,
        _ => E53::HTTPThird,
    };
    enumeration(ty::<E53>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u8)]
pub enum E54 {
    First,
    SecondOne,
    HTTPThird,
    X4th,
}
fn e54() {
    tag("E54");
    let all = [j(&E54::First), j(&E54::SecondOne), j(&E54::HTTPThird), j(&E54::X4th)];
    let v = match choose(4) {
        0 => E54::First,
        1 => E54::SecondOne,
        2 => E54::HTTPThird,
        _ => E54::X4th,
    };
    enumeration(ty::<E54>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i8)]
pub enum E55 {
    First = -128,
    SecondOne = 0,
    HTTPThird = 5,
}
fn e55() {
    tag("E55");
    let all = [j(&E55::First), j(&E55::SecondOne), j(&E55::HTTPThird)];
    let v = match choose(3) {
        0 => E55::First,
        1 => E55::SecondOne,
        _ => E55::HTTPThird,
    };
    enumeration(ty::<E55>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i8)]
pub enum E56 {
    First = -128,
    SecondOne = 0,
    HTTPThird = 5,
}
fn e56() {
    tag("E56");
    let all = [j(&E56::First), j(&E56::SecondOne), j(&E56::HTTPThird)];
    let v = match choose(3) {
        0 => E56::First,
        1 => E56::SecondOne,
        _ => E56::HTTPThird,
    };
    enumeration(ty::<E56>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i8)]
pub enum E57 {
    First,
    SecondOne,
    HTTPThird,
    X4th,
}
fn e57() {
    tag("E57");
    let all = [j(&E57::First), j(&E57::SecondOne), j(&E57::HTTPThird), j(&E57::X4th)];
    let v = match choose(4) {
        0 => E57::First,
        1 => E57::SecondOne,
        2 => E57::HTTPThird,
        _ => E57::X4th,
    };
    enumeration(ty::<E57>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u16)]
pub enum E58 {
    First = 1,
    SecondOne = 2,
    HTTPThird = 65535,
}
fn e58() {
    tag("E58");
    let all = [j(&E58::First), j(&E58::SecondOne), j(&E58::HTTPThird)];
    let v = match choose(3) {
        0 => E58::First,
        1 => E58::SecondOne,
        _ => E58::HTTPThird,
    };
    enumeration(ty::<E58>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u16)]
pub enum E59 {
    First = 1,
    SecondOne = 2,
    HTTPThird = 65535,
}
fn e59() {
    tag("E59");
    let all = [j(&E59::First), j(&E59::SecondOne), j(&E59::HTTPThird)];
    let v = match choose(3) {
        0 => E59::First,
        1 => E59::SecondOne,
        _ => E59::HTTPThird,
    };
    enumeration(ty::<E59>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u16)]
pub enum E60 {
    First,
    SecondOne,
    HTTPThird,
    X4th,
}
fn e60() {
    tag("E60");
    let all = [j(&E60::First), j(&E60::SecondOne), j(&E60::HTTPThird), j(&E60::X4th)];
    let v = match choose(4) {
        0 => E60::First,
        1 => E60::SecondOne,
        2 => E60::HTTPThird,
        _ => E60::X4th,
    };
    enumeration(ty::<E60>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i32)]
pub enum E61 {
    First = -5,
    SecondOne = 10,
    HTTPThird = 2147483647,
}
fn e61() {
    tag("E61");
    let all = [j(&E61::First), j(&E61::SecondOne), j(&E61::HTTPThird)];
    let v = match choose(3) {
        0 => E61::First,
        1 => E61::SecondOne,
        _ => E61::HTTPThird,
    };
    enumeration(ty::<E61>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i32)]
pub enum E62 {
    First = -5,
    SecondOne = 10,
    HTTPThird = 2147483647,
}
fn e62() {
    tag("E62");
    let all = [j(&E62::First), j(&E62::SecondOne), j(&E62::HTTPThird)];
    let v = match choose(3) {
        0 => E62::First,
        1 => E62::SecondOne,
        _ => E62::HTTPThird,
    };
    enumeration(ty::<E62>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i32)]
pub enum E63 {
    First,
    SecondOne,
    HTTPThird,
    X4th,
}
fn e63() {
    tag("E63");
    let all = [j(&E63::First), j(&E63::SecondOne), j(&E63::HTTPThird), j(&E63::X4th)];
    let v = match choose(4) {
        0 => E63::First,
        1 => E63::SecondOne,
        2 => E63::HTTPThird,
        _ => E63::X4th,
    };
    enumeration(ty::<E63>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u32)]
pub enum E64 {
    First = 3,
    SecondOne = 2,
    HTTPThird = 1,
}
fn e64() {
    tag("E64");
    let all = [j(&E64::First), j(&E64::SecondOne), j(&E64::HTTPThird)];
    let v = match choose(3) {
        0 => E64::First,
        1 => E64::SecondOne,
        _ => E64::HTTPThird,
    };
    enumeration(ty::<E64>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u32)]
pub enum E65 {
    First = 3,
    SecondOne = 2,
    HTTPThird = 1,
}
fn e65() {
    tag("E65");
    let all = [j(&E65::First), j(&E65::SecondOne), j(&E65::HTTPThird)];
    let v = match choose(3) {
        0 => E65::First,
        1 => E65::SecondOne,
        _ => E65::HTTPThird,
    };
    enumeration(ty::<E65>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u32)]
pub enum E66 {
    First,
    SecondOne,
    HTTPThird,
    X4th,
}
fn e66() {
    tag("E66");
    let all = [j(&E66::First), j(&E66::SecondOne), j(&E66::HTTPThird), j(&E66::X4th)];
    let v = match choose(4) {
        0 => E66::First,
        1 => E66::SecondOne,
        2 => E66::HTTPThird,
        _ => E66::X4th,
    };
    enumeration(ty::<E66>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E67 {
    First {
        #[serde(alias = "other")] #[opg(inline, optional)] r#fn: V<0>,
        first_one: V<1>,
        #[serde(rename = "x-Y")] _lead: V<2>,
    },
    SecondOne {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] is_ok: V<0>,
        second: V<1>,
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] a1_b2: V<2>,
    },
    #[serde(skip)]
    HTTPThird {
        #[serde(rename = "x-Y")] deep_er_name: V<0>,
        r#type: V<1>,
    },
    #[serde(skip_deserializing)]
    X4th {
        #[serde(skip_serializing_if = "gone")] first_one: V<0>,
        _lead: V<1>,
    },
}
fn e67() {
    tag("E67");
    let all = [j(&E67::First { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() }), j(&E67::SecondOne { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E67::X4th { first_one: V::<0>::default(), _lead: V::<1>::default() })];
    let v = match choose(3) {
        0 => E67::First { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() },
        1 => E67::SecondOne { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::maybe() },
        _ => E67::X4th { first_one: V::<0>::maybe(), _lead: V::<1>::any() },
    };
    enumeration(ty::<E67>(), Repr::External, &all, &[Mask::Fields(&[false, true, true]), Mask::Fields(&[false, true, false]), Mask::Fields(&[false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E68 {
    #[serde(rename = "re-Named")]
    SecondOne(V<0>, #[serde(skip)] V<1>),
    HTTPThird {
    },
}
fn e68() {
    tag("E68");
    let all = [j(&E68::SecondOne(V::<0>::default(), V::<1>::default())), j(&E68::HTTPThird {  })];
    let v = match choose(2) {
        0 => E68::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E68::HTTPThird {  },
    };
    enumeration(ty::<E68>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E69 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        #[opg("text", format = "f", example = "e", nullable, inline)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    X4th {
        #[opg("text", format = "f", example = "e", nullable, inline)] first_one: V<0>,
        _lead: V<1>,
    },
    #[serde(skip_deserializing)]
    r#Fifth(#[opg(nullable)] V<0>, #[opg("text")] V<1>, #[serde(skip_deserializing)] V<2>),
}
fn e69() {
    tag("E69");
    let all = [j(&E69::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E69::X4th { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E69::r#Fifth(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E69::HTTPThird { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        1 => E69::X4th { first_one: V::<0>::any(), _lead: V::<1>::any() },
        _ => E69::r#Fifth(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E69>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E70 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<0>),
    r#Fifth(#[opg("text")] V<0>, V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[serde(default)] V<0>),
}
fn e70() {
    tag("E70");
    let all = [j(&E70::X4th(V::<0>::default())), j(&E70::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E70::Six_th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E70::X4th(V::<0>::any()),
        1 => E70::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E70::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E70>(), Repr::External, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E71 {
    #[serde(skip)]
    r#Fifth(#[opg(inline)] V<0>),
    Six_th(#[serde(default)] V<1>),
    #[opg(inline)]
    Z(#[opg(inline)] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(V<1>),
    #[serde(rename = "re-Named")]
    SecondOne {
        #[serde(skip_serializing_if = "gone")] x__y: V<0>,
        is_ok: V<1>,
    },
}
fn e71() {
    tag("E71");
    let all = [j(&E71::Six_th(V::<1>::default())), j(&E71::Z(V::<0>::default())), j(&E71::First(V::<1>::default())), j(&E71::SecondOne { x__y: V::<0>::default(), is_ok: V::<1>::default() })];
    let v = match choose(4) {
        0 => E71::Six_th(V::<1>::any()),
        1 => E71::Z(V::<0>::any()),
        2 => E71::First(V::<1>::any()),
        _ => E71::SecondOne { x__y: V::<0>::maybe(), is_ok: V::<1>::any() },
    };
    enumeration(ty::<E71>(), Repr::External, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E72 {
    #[serde(skip_serializing)]
    Six_th(#[opg(inline)] V<0>),
    Z(V<0>, #[serde(skip_serializing)] V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First(V<0>, #[serde(skip)] V<1>),
    SecondOne(#[opg(inline)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] tail_: V<0>,
        deep_er_name: V<1>,
    },
}
fn e72() {
    tag("E72");
    let all = [j(&E72::Z(V::<0>::default(), V::<1>::default())), j(&E72::First(V::<0>::default(), V::<1>::default())), j(&E72::SecondOne(V::<1>::default())), j(&E72::HTTPThird { tail_: V::<0>::default(), deep_er_name: V::<1>::default() })];
    let v = match choose(4) {
        0 => E72::Z(V::<0>::any(), V::<1>::any()),
        1 => E72::First(V::<0>::any(), V::<1>::any()),
        2 => E72::SecondOne(V::<1>::any()),
        _ => E72::HTTPThird { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
    };
    enumeration(ty::<E72>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E73 {
    #[serde(skip_deserializing)]
    Z(V<0>, #[serde(skip_deserializing)] V<1>, #[opg(nullable)] V<2>),
    First {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[opg("text")] V<0>, #[serde(skip_serializing)] V<1>),
    #[serde(rename = "re-Named")]
    HTTPThird(#[opg(inline)] V<1>),
}
fn e73() {
    tag("E73");
    let all = [j(&E73::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E73::First {  }), j(&E73::SecondOne(V::<0>::default(), V::<1>::default())), j(&E73::HTTPThird(V::<1>::default()))];
    let v = match choose(4) {
        0 => E73::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E73::First {  },
        2 => E73::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E73::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E73>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E74 {
    #[serde(alias = "ali")]
    #[opg("text")]
    First(V<0>, V<1>),
    SecondOne(V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
    HTTPThird(V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] r#fn: V<0>,
        first_one: V<1>,
    },
}
fn e74() {
    tag("E74");
    let all = [j(&E74::First(V::<0>::default(), V::<1>::default())), j(&E74::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E74::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E74::X4th { r#fn: V::<0>::default(), first_one: V::<1>::default() })];
    let v = match choose(4) {
        0 => E74::First(V::<0>::any(), V::<1>::any()),
        1 => E74::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E74::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E74::X4th { r#fn: V::<0>::any(), first_one: V::<1>::any() },
    };
    enumeration(ty::<E74>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Tuple, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E75 {
    #[opg(inline)]
    SecondOne(#[serde(default)] V<0>),
    HTTPThird(#[serde(default)] V<1>),
    #[serde(rename = "re-Named")]
    X4th(#[opg(inline)] V<0>),
}
fn e75() {
    tag("E75");
    let all = [j(&E75::SecondOne(V::<0>::default())), j(&E75::HTTPThird(V::<1>::default())), j(&E75::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E75::SecondOne(V::<0>::any()),
        1 => E75::HTTPThird(V::<1>::any()),
        _ => E75::X4th(V::<0>::any()),
    };
    enumeration(ty::<E75>(), Repr::External, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E76 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[serde(skip)] tail_: V<0>,
    },
    X4th {
        #[serde(skip_serializing_if = "gone")] r#fn: V<0>,
        first_one: V<1>,
        _lead: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth {
        #[serde(default)] is_ok: V<0>,
    },
    #[serde(skip)]
    Six_th(#[serde(default)] V<1>),
}
fn e76() {
    tag("E76");
    let all = [j(&E76::HTTPThird { tail_: V::<0>::default() }), j(&E76::X4th { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() }), j(&E76::r#Fifth { is_ok: V::<0>::default() })];
    let v = match choose(3) {
        0 => E76::HTTPThird { tail_: V::<0>::any() },
        1 => E76::X4th { r#fn: V::<0>::maybe(), first_one: V::<1>::any(), _lead: V::<2>::any() },
        _ => E76::r#Fifth { is_ok: V::<0>::any() },
    };
    enumeration(ty::<E76>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Fields(&[false, true, true]), Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E77 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>),
    r#Fifth(V<0>, #[opg("text")] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(V<0>, #[serde(skip_deserializing)] V<1>, #[opg(inline)] V<2>),
    #[serde(skip_serializing)]
    Z(#[serde(default)] V<1>),
}
fn e77() {
    tag("E77");
    let all = [j(&E77::X4th(V::<0>::default(), V::<1>::default())), j(&E77::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E77::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E77::X4th(V::<0>::any(), V::<1>::any()),
        1 => E77::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E77::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E77>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E78 {
    r#Fifth {
        #[serde(skip_deserializing)] is_ok: V<0>,
        second: V<1>,
    },
    Six_th {
    },
    #[serde(skip)]
    Z {
    },
    #[serde(skip_deserializing)]
    First(#[serde(default)] V<1>),
}
fn e78() {
    tag("E78");
    let all = [j(&E78::r#Fifth { is_ok: V::<0>::default(), second: V::<1>::default() }), j(&E78::Six_th {  }), j(&E78::First(V::<1>::default()))];
    let v = match choose(3) {
        0 => E78::r#Fifth { is_ok: V::<0>::any(), second: V::<1>::any() },
        1 => E78::Six_th {  },
        _ => E78::First(V::<1>::any()),
    };
    enumeration(ty::<E78>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E79 {
    #[serde(rename = "re-Named")]
    Six_th {
        #[serde(skip_deserializing)] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(alias = "other")] #[opg(inline, optional)] x__y: V<2>,
    },
    Z(#[opg(inline)] V<1>),
}
fn e79() {
    tag("E79");
    let all = [j(&E79::Six_th { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E79::Z(V::<1>::default()))];
    let v = match choose(2) {
        0 => E79::Six_th { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        _ => E79::Z(V::<1>::any()),
    };
    enumeration(ty::<E79>(), Repr::External, &all, &[Mask::Fields(&[true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E80 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[opg(inline)] V<0>),
    First {
        #[serde(rename(deserialize = "dE"))] second: V<0>,
        a1_b2: V<1>,
    },
    #[serde(skip_deserializing)]
    SecondOne(#[opg(inline)] V<0>),
    #[opg(inline)]
    HTTPThird {
        #[serde(skip)] _lead: V<0>,
        tail_: V<1>,
        #[serde(rename(deserialize = "dE"))] deep_er_name: V<2>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[opg(inline)] V<0>),
}
fn e80() {
    tag("E80");
    let all = [j(&E80::Z(V::<0>::default())), j(&E80::First { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E80::SecondOne(V::<0>::default())), j(&E80::HTTPThird { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E80::X4th(V::<0>::default()))];
    let v = match choose(5) {
        0 => E80::Z(V::<0>::any()),
        1 => E80::First { second: V::<0>::any(), a1_b2: V::<1>::any() },
        2 => E80::SecondOne(V::<0>::any()),
        3 => E80::HTTPThird { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E80::X4th(V::<0>::any()),
    };
    enumeration(ty::<E80>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E81 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(V<0>, #[serde(skip)] V<1>),
    SecondOne {
        #[opg("text", format = "f", example = "e", nullable, inline)] r#type: V<0>,
        x__y: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(V<0>, V<1>),
}
fn e81() {
    tag("E81");
    let all = [j(&E81::First(V::<0>::default(), V::<1>::default())), j(&E81::SecondOne { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E81::HTTPThird(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E81::First(V::<0>::any(), V::<1>::any()),
        1 => E81::SecondOne { r#type: V::<0>::any(), x__y: V::<1>::any() },
        _ => E81::HTTPThird(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E81>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[true, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E82 {
    #[serde(skip)]
    SecondOne {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<0>,
        x__y: V<1>,
        #[serde(skip_serializing_if = "gone")] is_ok: V<2>,
    },
    HTTPThird(#[serde(skip_serializing)] V<0>, #[opg("text")] V<1>, #[opg(nullable)] V<2>),
    #[opg(inline)]
    X4th {
        #[serde(skip_serializing_if = "gone")] a1_b2: V<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>),
}
fn e82() {
    tag("E82");
    let all = [j(&E82::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E82::X4th { a1_b2: V::<0>::default() }), j(&E82::r#Fifth(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E82::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E82::X4th { a1_b2: V::<0>::maybe() },
        _ => E82::r#Fifth(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E82>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[false]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E83 {
    #[serde(skip_serializing)]
    HTTPThird(#[opg(inline)] V<0>),
    X4th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] a1_b2: V<0>,
        r#fn: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
        #[serde(skip_serializing_if = "gone")] x__y: V<0>,
        is_ok: V<1>,
    },
    Six_th {
        #[opg(inline)] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(skip_deserializing)] r#type: V<2>,
    },
}
fn e83() {
    tag("E83");
    let all = [j(&E83::X4th { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E83::r#Fifth { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E83::Six_th { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() })];
    let v = match choose(3) {
        0 => E83::X4th { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any() },
        1 => E83::r#Fifth { x__y: V::<0>::maybe(), is_ok: V::<1>::any() },
        _ => E83::Six_th { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
    };
    enumeration(ty::<E83>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Fields(&[false, true]), Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E84 {
    #[serde(skip_deserializing)]
    X4th {
        #[serde(skip_serializing)] #[opg(optional)] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] first_one: V<2>,
    },
    r#Fifth {
        #[serde(alias = "other")] #[opg(inline, optional)] x__y: V<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[serde(default)] V<0>),
    #[serde(rename = "re-Named")]
    Z(V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(#[opg(inline)] V<0>, #[opg(inline)] V<1>, V<2>),
}
fn e84() {
    tag("E84");
    let all = [j(&E84::X4th { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E84::r#Fifth { x__y: V::<0>::default() }), j(&E84::Six_th(V::<0>::default())), j(&E84::Z(V::<1>::default())), j(&E84::First(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(5) {
        0 => E84::X4th { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() },
        1 => E84::r#Fifth { x__y: V::<0>::any() },
        2 => E84::Six_th(V::<0>::any()),
        3 => E84::Z(V::<1>::any()),
        _ => E84::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E84>(), Repr::External, &all, &[Mask::Fields(&[true, false]), Mask::Fields(&[false]), Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E85 {
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth {
        x__y: V<0>,
        is_ok: V<1>,
    },
    Six_th(#[serde(skip)] V<0>, #[serde(skip_deserializing)] V<1>),
    Z(V<0>, #[serde(skip)] V<1>),
}
fn e85() {
    tag("E85");
    let all = [j(&E85::r#Fifth { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E85::Six_th(V::<0>::default(), V::<1>::default())), j(&E85::Z(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E85::r#Fifth { x__y: V::<0>::any(), is_ok: V::<1>::any() },
        1 => E85::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E85::Z(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E85>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E86 {
    #[opg(inline)]
    Six_th(#[opg("text")] V<0>, V<1>),
    Z(V<1>),
}
fn e86() {
    tag("E86");
    let all = [j(&E86::Six_th(V::<0>::default(), V::<1>::default())), j(&E86::Z(V::<1>::default()))];
    let v = match choose(2) {
        0 => E86::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E86::Z(V::<1>::any()),
    };
    enumeration(ty::<E86>(), Repr::External, &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E87 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[serde(default)] r#fn: V<0>,
        first_one: V<1>,
        #[serde(skip_deserializing)] _lead: V<2>,
    },
    First {
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] is_ok: V<0>,
        second: V<1>,
        #[opg(inline)] a1_b2: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(V<0>),
}
fn e87() {
    tag("E87");
    let all = [j(&E87::Z { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() }), j(&E87::First { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E87::SecondOne(V::<0>::default()))];
    let v = match choose(3) {
        0 => E87::Z { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() },
        1 => E87::First { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        _ => E87::SecondOne(V::<0>::any()),
    };
    enumeration(ty::<E87>(), Repr::External, &all, &[Mask::Fields(&[true, true, true]), Mask::Fields(&[false, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E88 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>),
    SecondOne(#[opg(inline)] V<0>, #[opg(nullable)] V<1>),
}
fn e88() {
    tag("E88");
    let all = [j(&E88::First(V::<0>::default(), V::<1>::default())), j(&E88::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E88::First(V::<0>::any(), V::<1>::any()),
        _ => E88::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E88>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E89 {
    SecondOne {
        #[opg(nullable)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    HTTPThird {
        first_one: V<0>,
    },
    #[serde(skip)]
    X4th(#[serde(default)] V<0>),
    #[serde(skip_deserializing)]
    r#Fifth(V<0>, #[serde(skip_deserializing)] V<1>, #[opg("text")] V<2>),
    #[opg(inline)]
    Six_th(#[opg(inline)] V<0>, #[opg(nullable)] V<1>),
}
fn e89() {
    tag("E89");
    let all = [j(&E89::SecondOne { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E89::HTTPThird { first_one: V::<0>::default() }), j(&E89::r#Fifth(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E89::Six_th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E89::SecondOne { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        1 => E89::HTTPThird { first_one: V::<0>::any() },
        2 => E89::r#Fifth(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E89::Six_th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E89>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E90 {
    #[serde(rename = "re-Named")]
    HTTPThird {
    },
    X4th(V<0>, #[serde(skip_deserializing)] V<1>, V<2>),
}
fn e90() {
    tag("E90");
    let all = [j(&E90::HTTPThird {  }), j(&E90::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(2) {
        0 => E90::HTTPThird {  },
        _ => E90::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E90>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E91 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip_serializing)] V<2>),
    r#Fifth(V<0>, #[opg(inline)] V<1>),
    #[serde(skip_deserializing)]
    Six_th(V<0>, #[serde(skip_deserializing)] V<1>),
    #[opg(inline)]
    Z(V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(V<0>),
}
fn e91() {
    tag("E91");
    let all = [j(&E91::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E91::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E91::Six_th(V::<0>::default(), V::<1>::default())), j(&E91::Z(V::<1>::default())), j(&E91::First(V::<0>::default()))];
    let v = match choose(5) {
        0 => E91::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E91::r#Fifth(V::<0>::any(), V::<1>::any()),
        2 => E91::Six_th(V::<0>::any(), V::<1>::any()),
        3 => E91::Z(V::<1>::any()),
        _ => E91::First(V::<0>::any()),
    };
    enumeration(ty::<E91>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E92 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(inline)] V<0>),
    Six_th {
        #[serde(skip_serializing_if = "gone")] _lead: V<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<0>, #[opg(nullable)] V<1>, #[opg(nullable)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[opg("text")] V<0>, #[opg("text")] V<1>, #[serde(skip_serializing)] V<2>),
}
fn e92() {
    tag("E92");
    let all = [j(&E92::r#Fifth(V::<0>::default())), j(&E92::Six_th { _lead: V::<0>::default() }), j(&E92::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E92::First(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E92::r#Fifth(V::<0>::any()),
        1 => E92::Six_th { _lead: V::<0>::maybe() },
        2 => E92::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E92::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E92>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[false]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E93 {
    #[serde(skip)]
    Six_th {
        #[serde(rename(deserialize = "dE"))] _lead: V<0>,
    },
    Z(#[opg(nullable)] V<0>, #[serde(skip)] V<1>, #[opg(inline)] V<2>),
    #[opg(inline)]
    First(#[opg(inline)] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(V<1>),
}
fn e93() {
    tag("E93");
    let all = [j(&E93::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E93::First(V::<0>::default())), j(&E93::SecondOne(V::<1>::default()))];
    let v = match choose(3) {
        0 => E93::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E93::First(V::<0>::any()),
        _ => E93::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E93>(), Repr::External, &all, &[Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E94 {
    #[serde(skip_serializing)]
    Z(V<0>),
    First(V<0>, V<1>, #[opg(inline)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne {
        #[serde(alias = "other")] #[opg(inline, optional)] tail_: V<0>,
        deep_er_name: V<1>,
        #[opg(inline)] r#type: V<2>,
    },
    HTTPThird(#[serde(default)] V<1>),
}
fn e94() {
    tag("E94");
    let all = [j(&E94::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E94::SecondOne { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E94::HTTPThird(V::<1>::default()))];
    let v = match choose(3) {
        0 => E94::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E94::SecondOne { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
        _ => E94::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E94>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[false, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E95 {
    #[serde(skip_deserializing)]
    First {
        #[serde(skip_serializing_if = "gone")] x__y: V<0>,
        is_ok: V<1>,
    },
    SecondOne(V<1>),
}
fn e95() {
    tag("E95");
    let all = [j(&E95::First { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E95::SecondOne(V::<1>::default()))];
    let v = match choose(2) {
        0 => E95::First { x__y: V::<0>::maybe(), is_ok: V::<1>::any() },
        _ => E95::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E95>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E96 {
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne(V<0>),
    HTTPThird(#[serde(default)] V<1>),
    X4th(#[opg(inline)] V<0>),
}
fn e96() {
    tag("E96");
    let all = [j(&E96::SecondOne(V::<0>::default())), j(&E96::HTTPThird(V::<1>::default())), j(&E96::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E96::SecondOne(V::<0>::any()),
        1 => E96::HTTPThird(V::<1>::any()),
        _ => E96::X4th(V::<0>::any()),
    };
    enumeration(ty::<E96>(), Repr::External, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E97 {
    #[opg(inline)]
    HTTPThird(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip_serializing)] V<2>),
    X4th {
        #[serde(skip_serializing)] is_ok: V<0>,
        second: V<1>,
    },
    #[serde(rename = "re-Named")]
    r#Fifth {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(default)] x__y: V<2>,
    },
}
fn e97() {
    tag("E97");
    let all = [j(&E97::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E97::X4th { is_ok: V::<0>::default(), second: V::<1>::default() }), j(&E97::r#Fifth { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() })];
    let v = match choose(3) {
        0 => E97::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E97::X4th { is_ok: V::<0>::any(), second: V::<1>::any() },
        _ => E97::r#Fifth { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
    };
    enumeration(ty::<E97>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[true]), Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E98 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th {
    },
    r#Fifth(#[serde(default)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[opg(inline)] V<0>),
}
fn e98() {
    tag("E98");
    let all = [j(&E98::X4th {  }), j(&E98::r#Fifth(V::<1>::default())), j(&E98::Six_th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E98::X4th {  },
        1 => E98::r#Fifth(V::<1>::any()),
        _ => E98::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E98>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E99 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
    },
    Six_th {
        #[serde(default)] first_one: V<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(#[serde(default)] V<0>),
    #[serde(skip_serializing)]
    First(#[serde(default)] V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne {
        #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] deep_er_name: V<2>,
    },
}
fn e99() {
    tag("E99");
    let all = [j(&E99::r#Fifth {  }), j(&E99::Six_th { first_one: V::<0>::default() }), j(&E99::Z(V::<0>::default())), j(&E99::SecondOne { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() })];
    let v = match choose(4) {
        0 => E99::r#Fifth {  },
        1 => E99::Six_th { first_one: V::<0>::any() },
        2 => E99::Z(V::<0>::any()),
        _ => E99::SecondOne { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
    };
    enumeration(ty::<E99>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Fields(&[true]), Mask::Other, Mask::Fields(&[false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E100 {
    Six_th(#[opg(inline)] V<0>),
    Z {
    },
    #[serde(skip)]
    First(#[serde(skip_deserializing)] V<0>, #[serde(skip_deserializing)] V<1>),
}
fn e100() {
    tag("E100");
    let all = [j(&E100::Six_th(V::<0>::default())), j(&E100::Z {  })];
    let v = match choose(2) {
        0 => E100::Six_th(V::<0>::any()),
        _ => E100::Z {  },
    };
    enumeration(ty::<E100>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E101 {
    #[serde(rename = "re-Named")]
    Z(V<0>),
    First(#[opg(nullable)] V<0>, #[opg("text")] V<1>, #[opg(inline)] V<2>),
    #[serde(skip_serializing)]
    SecondOne(#[serde(default)] V<0>),
}
fn e101() {
    tag("E101");
    let all = [j(&E101::Z(V::<0>::default())), j(&E101::First(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(2) {
        0 => E101::Z(V::<0>::any()),
        _ => E101::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E101>(), Repr::External, &all, &[Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E102 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First(#[serde(skip)] V<0>, #[serde(skip)] V<1>, #[opg(nullable)] V<2>),
    SecondOne(#[opg("text")] V<0>, #[serde(skip)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(skip_deserializing)]
    HTTPThird {
        a1_b2: V<0>,
        r#fn: V<1>,
    },
    #[opg(inline)]
    X4th {
        #[serde(rename = "x-Y")] x__y: V<0>,
        is_ok: V<1>,
        #[serde(rename(serialize = "sE", deserialize = "dE"))] second: V<2>,
    },
}
fn e102() {
    tag("E102");
    let all = [j(&E102::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E102::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E102::HTTPThird { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E102::X4th { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() })];
    let v = match choose(4) {
        0 => E102::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E102::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E102::HTTPThird { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
        _ => E102::X4th { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
    };
    enumeration(ty::<E102>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Fields(&[true, true]), Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E103 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(V<0>, #[opg("text")] V<1>, #[opg(inline)] V<2>),
    HTTPThird(#[opg(inline)] V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th {
        #[serde(default)] x__y: V<0>,
        is_ok: V<1>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] second: V<2>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<1>),
}
fn e103() {
    tag("E103");
    let all = [j(&E103::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E103::HTTPThird(V::<1>::default())), j(&E103::X4th { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() }), j(&E103::r#Fifth(V::<1>::default()))];
    let v = match choose(4) {
        0 => E103::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E103::HTTPThird(V::<1>::any()),
        2 => E103::X4th { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe() },
        _ => E103::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E103>(), Repr::External, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E104 {
    #[serde(skip)]
    HTTPThird(V<0>),
    X4th(V<1>),
}
fn e104() {
    tag("E104");
    let all = [j(&E104::X4th(V::<1>::default()))];
    let v = match choose(1) {
        _ => E104::X4th(V::<1>::any()),
    };
    enumeration(ty::<E104>(), Repr::External, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E105 {
    #[serde(skip_serializing)]
    X4th(#[opg(inline)] V<0>),
    r#Fifth {
        #[serde(skip_serializing)] #[opg(optional)] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(default)] r#type: V<2>,
    },
}
fn e105() {
    tag("E105");
    let all = [j(&E105::r#Fifth { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() })];
    let v = match choose(1) {
        _ => E105::r#Fifth { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
    };
    enumeration(ty::<E105>(), Repr::External, &all, &[Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E106 {
    #[serde(skip_deserializing)]
    r#Fifth {
        #[opg(nullable)] tail_: V<0>,
        deep_er_name: V<1>,
    },
    Six_th {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(V<0>),
}
fn e106() {
    tag("E106");
    let all = [j(&E106::r#Fifth { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E106::Six_th {  }), j(&E106::Z(V::<0>::default()))];
    let v = match choose(3) {
        0 => E106::r#Fifth { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        1 => E106::Six_th {  },
        _ => E106::Z(V::<0>::any()),
    };
    enumeration(ty::<E106>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E107 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[serde(default)] V<0>),
    Z {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] is_ok: V<0>,
    },
    First(V<0>, #[opg(nullable)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[serde(default)] V<1>),
}
fn e107() {
    tag("E107");
    let all = [j(&E107::Six_th(V::<0>::default())), j(&E107::Z { is_ok: V::<0>::default() }), j(&E107::First(V::<0>::default(), V::<1>::default())), j(&E107::SecondOne(V::<1>::default()))];
    let v = match choose(4) {
        0 => E107::Six_th(V::<0>::any()),
        1 => E107::Z { is_ok: V::<0>::any() },
        2 => E107::First(V::<0>::any(), V::<1>::any()),
        _ => E107::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E107>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E108 {
    #[opg(inline)]
    Z {
        #[opg(optional)] is_ok: V<0>,
        second: V<1>,
        #[serde(skip)] a1_b2: V<2>,
    },
    First(#[opg("text")] V<0>, #[opg(inline)] V<1>),
    #[serde(rename = "re-Named")]
    SecondOne {
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[serde(skip_deserializing)] V<0>, #[opg(nullable)] V<1>),
}
fn e108() {
    tag("E108");
    let all = [j(&E108::Z { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E108::First(V::<0>::default(), V::<1>::default())), j(&E108::SecondOne {  }), j(&E108::HTTPThird(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E108::Z { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        1 => E108::First(V::<0>::any(), V::<1>::any()),
        2 => E108::SecondOne {  },
        _ => E108::HTTPThird(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E108>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Tuple, Mask::Fields(&[]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E109 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
        deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(rename = "x-Y")] x__y: V<2>,
    },
    SecondOne(V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(#[opg(inline)] V<0>),
}
fn e109() {
    tag("E109");
    let all = [j(&E109::First { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E109::SecondOne(V::<1>::default())), j(&E109::HTTPThird(V::<0>::default()))];
    let v = match choose(3) {
        0 => E109::First { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        1 => E109::SecondOne(V::<1>::any()),
        _ => E109::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E109>(), Repr::External, &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E110 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne {
        first_one: V<0>,
        _lead: V<1>,
    },
    HTTPThird(V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<0>),
    #[serde(skip_serializing)]
    r#Fifth(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip_deserializing)] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>),
}
fn e110() {
    tag("E110");
    let all = [j(&E110::SecondOne { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E110::HTTPThird(V::<1>::default())), j(&E110::X4th(V::<0>::default())), j(&E110::Six_th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E110::SecondOne { first_one: V::<0>::any(), _lead: V::<1>::any() },
        1 => E110::HTTPThird(V::<1>::any()),
        2 => E110::X4th(V::<0>::any()),
        _ => E110::Six_th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E110>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E111 {
    HTTPThird(#[opg(nullable)] V<0>, #[serde(skip)] V<1>, #[opg("text")] V<2>),
    X4th(#[opg(inline)] V<1>),
    #[serde(skip)]
    r#Fifth {
        #[serde(skip_serializing)] #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[opg(optional)] deep_er_name: V<2>,
    },
}
fn e111() {
    tag("E111");
    let all = [j(&E111::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E111::X4th(V::<1>::default()))];
    let v = match choose(2) {
        0 => E111::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E111::X4th(V::<1>::any()),
    };
    enumeration(ty::<E111>(), Repr::External, &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E112 {
    #[serde(rename = "re-Named")]
    X4th {
        #[serde(skip)] r#type: V<0>,
        x__y: V<1>,
        #[opg(inline)] is_ok: V<2>,
    },
    r#Fifth(V<0>, #[serde(skip_serializing)] V<1>),
    #[serde(skip_serializing)]
    Six_th(V<0>),
}
fn e112() {
    tag("E112");
    let all = [j(&E112::X4th { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E112::r#Fifth(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E112::X4th { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
        _ => E112::r#Fifth(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E112>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E113 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[serde(default)] V<0>),
    Six_th {
        #[serde(skip_deserializing)] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(skip_serializing)] #[opg(optional)] first_one: V<2>,
    },
    #[serde(skip_deserializing)]
    Z(V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
    #[opg(inline)]
    First(#[serde(skip)] V<0>, #[serde(skip_serializing)] V<1>),
}
fn e113() {
    tag("E113");
    let all = [j(&E113::r#Fifth(V::<0>::default())), j(&E113::Six_th { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E113::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E113::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E113::r#Fifth(V::<0>::any()),
        1 => E113::Six_th { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        2 => E113::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E113::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E113>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E114 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[opg(inline)] V<0>),
    Z {
        #[opg(nullable)] x__y: V<0>,
        is_ok: V<1>,
    },
}
fn e114() {
    tag("E114");
    let all = [j(&E114::Six_th(V::<0>::default())), j(&E114::Z { x__y: V::<0>::default(), is_ok: V::<1>::default() })];
    let v = match choose(2) {
        0 => E114::Six_th(V::<0>::any()),
        _ => E114::Z { x__y: V::<0>::any(), is_ok: V::<1>::any() },
    };
    enumeration(ty::<E114>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E115 {
    #[serde(skip)]
    Z {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] x__y: V<0>,
    },
    First(V<0>, #[serde(skip_serializing)] V<1>),
    #[opg(inline)]
    SecondOne(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>),
}
fn e115() {
    tag("E115");
    let all = [j(&E115::First(V::<0>::default(), V::<1>::default())), j(&E115::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E115::First(V::<0>::any(), V::<1>::any()),
        _ => E115::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E115>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E116 {
    #[serde(skip_serializing)]
    First(#[opg(inline)] V<0>),
    SecondOne(V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        is_ok: V<0>,
        second: V<1>,
    },
}
fn e116() {
    tag("E116");
    let all = [j(&E116::SecondOne(V::<1>::default())), j(&E116::HTTPThird { is_ok: V::<0>::default(), second: V::<1>::default() })];
    let v = match choose(2) {
        0 => E116::SecondOne(V::<1>::any()),
        _ => E116::HTTPThird { is_ok: V::<0>::any(), second: V::<1>::any() },
    };
    enumeration(ty::<E116>(), Repr::External, &all, &[Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E117 {
    #[serde(skip_deserializing)]
    SecondOne(V<0>, #[opg(inline)] V<1>, #[serde(skip_serializing)] V<2>),
    HTTPThird(V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[opg(inline)] V<0>),
    #[serde(rename = "re-Named")]
    r#Fifth(V<1>),
}
fn e117() {
    tag("E117");
    let all = [j(&E117::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E117::HTTPThird(V::<1>::default())), j(&E117::X4th(V::<0>::default())), j(&E117::r#Fifth(V::<1>::default()))];
    let v = match choose(4) {
        0 => E117::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E117::HTTPThird(V::<1>::any()),
        2 => E117::X4th(V::<0>::any()),
        _ => E117::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E117>(), Repr::External, &all, &[Mask::Tuple, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E118 {
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(V<0>, #[opg("text")] V<1>, #[serde(skip_serializing)] V<2>),
    X4th(#[serde(default)] V<1>),
    r#Fifth {
    },
}
fn e118() {
    tag("E118");
    let all = [j(&E118::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E118::X4th(V::<1>::default())), j(&E118::r#Fifth {  })];
    let v = match choose(3) {
        0 => E118::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E118::X4th(V::<1>::any()),
        _ => E118::r#Fifth {  },
    };
    enumeration(ty::<E118>(), Repr::External, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E119 {
    #[opg(inline)]
    X4th {
        #[serde(rename = "x-Y")] deep_er_name: V<0>,
    },
    r#Fifth(#[opg(inline)] V<1>),
    #[serde(rename = "re-Named")]
    Six_th(#[serde(skip_serializing)] V<0>, #[serde(skip)] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(V<1>),
}
fn e119() {
    tag("E119");
    let all = [j(&E119::X4th { deep_er_name: V::<0>::default() }), j(&E119::r#Fifth(V::<1>::default())), j(&E119::Six_th(V::<0>::default(), V::<1>::default())), j(&E119::Z(V::<1>::default()))];
    let v = match choose(4) {
        0 => E119::X4th { deep_er_name: V::<0>::any() },
        1 => E119::r#Fifth(V::<1>::any()),
        2 => E119::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E119::Z(V::<1>::any()),
    };
    enumeration(ty::<E119>(), Repr::External, &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E120 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<0>, #[serde(skip)] V<1>),
    Six_th(V<0>, #[opg(inline)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[opg(inline)] V<0>),
    #[serde(skip)]
    First {
        #[opg("text", format = "f", example = "e", nullable, inline)] _lead: V<0>,
        tail_: V<1>,
    },
}
fn e120() {
    tag("E120");
    let all = [j(&E120::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E120::Six_th(V::<0>::default(), V::<1>::default())), j(&E120::Z(V::<0>::default()))];
    let v = match choose(3) {
        0 => E120::r#Fifth(V::<0>::any(), V::<1>::any()),
        1 => E120::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E120::Z(V::<0>::any()),
    };
    enumeration(ty::<E120>(), Repr::External, &all, &[Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E121 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[opg(inline)] V<0>),
    Z(#[opg(inline)] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(V<0>, #[opg("text")] V<1>, #[opg("text")] V<2>),
    #[serde(skip_serializing)]
    SecondOne(#[serde(default)] V<1>),
}
fn e121() {
    tag("E121");
    let all = [j(&E121::Six_th(V::<0>::default())), j(&E121::Z(V::<1>::default())), j(&E121::First(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E121::Six_th(V::<0>::any()),
        1 => E121::Z(V::<1>::any()),
        _ => E121::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E121>(), Repr::External, &all, &[Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E122 {
    Z {
        #[serde(skip_serializing)] r#type: V<0>,
    },
    First(V<0>, #[opg(inline)] V<1>),
    #[serde(skip)]
    SecondOne(#[opg(inline)] V<0>),
    #[serde(skip_deserializing)]
    HTTPThird(V<1>),
}
fn e122() {
    tag("E122");
    let all = [j(&E122::Z { r#type: V::<0>::default() }), j(&E122::First(V::<0>::default(), V::<1>::default())), j(&E122::HTTPThird(V::<1>::default()))];
    let v = match choose(3) {
        0 => E122::Z { r#type: V::<0>::any() },
        1 => E122::First(V::<0>::any(), V::<1>::any()),
        _ => E122::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E122>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E123 {
    #[serde(rename = "re-Named")]
    First {
        #[serde(skip_serializing_if = "gone")] _lead: V<0>,
        tail_: V<1>,
    },
    SecondOne(V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(skip_serializing)]
    HTTPThird {
        x__y: V<0>,
        is_ok: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[serde(skip_deserializing)] V<0>, #[serde(skip)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[opg(inline)] V<0>),
}
fn e123() {
    tag("E123");
    let all = [j(&E123::First { _lead: V::<0>::default(), tail_: V::<1>::default() }), j(&E123::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E123::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E123::r#Fifth(V::<0>::default()))];
    let v = match choose(4) {
        0 => E123::First { _lead: V::<0>::maybe(), tail_: V::<1>::any() },
        1 => E123::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E123::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E123::r#Fifth(V::<0>::any()),
    };
    enumeration(ty::<E123>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E124 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(V<0>),
    HTTPThird(#[serde(skip_deserializing)] V<0>, #[serde(skip_deserializing)] V<1>),
    #[serde(skip_deserializing)]
    X4th {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] tail_: V<0>,
        deep_er_name: V<1>,
    },
    #[opg(inline)]
    r#Fifth(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[opg(inline)] V<0>),
}
fn e124() {
    tag("E124");
    let all = [j(&E124::SecondOne(V::<0>::default())), j(&E124::HTTPThird(V::<0>::default(), V::<1>::default())), j(&E124::X4th { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E124::r#Fifth(V::<1>::default())), j(&E124::Six_th(V::<0>::default()))];
    let v = match choose(5) {
        0 => E124::SecondOne(V::<0>::any()),
        1 => E124::HTTPThird(V::<0>::any(), V::<1>::any()),
        2 => E124::X4th { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        3 => E124::r#Fifth(V::<1>::any()),
        _ => E124::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E124>(), Repr::External, &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E125 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird {
        #[serde(skip)] x__y: V<0>,
        is_ok: V<1>,
        #[serde(rename = "x-Y")] second: V<2>,
    },
    X4th(#[serde(default)] V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th {
        #[serde(alias = "other")] #[opg(inline, optional)] is_ok: V<0>,
        second: V<1>,
    },
}
fn e125() {
    tag("E125");
    let all = [j(&E125::HTTPThird { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() }), j(&E125::X4th(V::<1>::default())), j(&E125::r#Fifth(V::<0>::default())), j(&E125::Six_th { is_ok: V::<0>::default(), second: V::<1>::default() })];
    let v = match choose(4) {
        0 => E125::HTTPThird { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
        1 => E125::X4th(V::<1>::any()),
        2 => E125::r#Fifth(V::<0>::any()),
        _ => E125::Six_th { is_ok: V::<0>::any(), second: V::<1>::any() },
    };
    enumeration(ty::<E125>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Other, Mask::Fields(&[false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E126 {
    #[serde(skip)]
    X4th {
        #[serde(skip_serializing_if = "gone")] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(skip)] r#type: V<2>,
    },
    r#Fifth(V<0>, #[opg(nullable)] V<1>),
    #[opg(inline)]
    Six_th(V<0>),
}
fn e126() {
    tag("E126");
    let all = [j(&E126::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E126::Six_th(V::<0>::default()))];
    let v = match choose(2) {
        0 => E126::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E126::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E126>(), Repr::External, &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E127 {
    #[serde(skip_serializing)]
    r#Fifth {
        r#fn: V<0>,
        first_one: V<1>,
        #[serde(skip)] _lead: V<2>,
    },
    Six_th {
        #[opg(optional)] is_ok: V<0>,
        second: V<1>,
        #[serde(skip)] a1_b2: V<2>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(V<0>, #[opg("text")] V<1>),
    First(#[serde(default)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[serde(skip)] V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
}
fn e127() {
    tag("E127");
    let all = [j(&E127::Six_th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E127::Z(V::<0>::default(), V::<1>::default())), j(&E127::First(V::<1>::default())), j(&E127::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E127::Six_th { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        1 => E127::Z(V::<0>::any(), V::<1>::any()),
        2 => E127::First(V::<1>::any()),
        _ => E127::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E127>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Tuple, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E128 {
    #[serde(skip_deserializing)]
    Six_th(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>, #[serde(skip_serializing)] V<2>),
    Z {
        #[serde(skip_serializing)] #[opg(optional)] deep_er_name: V<0>,
        r#type: V<1>,
        #[opg(nullable)] x__y: V<2>,
    },
}
fn e128() {
    tag("E128");
    let all = [j(&E128::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E128::Z { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() })];
    let v = match choose(2) {
        0 => E128::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E128::Z { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
    };
    enumeration(ty::<E128>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E129 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
    },
    First {
        #[serde(skip_serializing)] #[opg(optional)] first_one: V<0>,
        _lead: V<1>,
    },
    SecondOne {
        #[opg("text")] #[serde(default, skip_deserializing)] second: V<0>,
        a1_b2: V<1>,
    },
}
fn e129() {
    tag("E129");
    let all = [j(&E129::Z {  }), j(&E129::First { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E129::SecondOne { second: V::<0>::default(), a1_b2: V::<1>::default() })];
    let v = match choose(3) {
        0 => E129::Z {  },
        1 => E129::First { first_one: V::<0>::any(), _lead: V::<1>::any() },
        _ => E129::SecondOne { second: V::<0>::any(), a1_b2: V::<1>::any() },
    };
    enumeration(ty::<E129>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Fields(&[true]), Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E130 {
    #[opg(inline)]
    First(V<0>, #[opg("text")] V<1>, #[opg("text")] V<2>),
    SecondOne {
        #[opg(optional)] second: V<0>,
    },
}
fn e130() {
    tag("E130");
    let all = [j(&E130::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E130::SecondOne { second: V::<0>::default() })];
    let v = match choose(2) {
        0 => E130::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E130::SecondOne { second: V::<0>::any() },
    };
    enumeration(ty::<E130>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E131 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne {
        #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
    },
    HTTPThird {
        #[serde(default)] r#type: V<0>,
        x__y: V<1>,
        #[opg(optional)] is_ok: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[serde(default)] V<0>),
    #[serde(skip)]
    r#Fifth {
        #[serde(skip_serializing_if = "gone")] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(skip_serializing)] #[opg(optional)] first_one: V<2>,
    },
}
fn e131() {
    tag("E131");
    let all = [j(&E131::SecondOne { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E131::HTTPThird { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E131::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E131::SecondOne { second: V::<0>::any(), a1_b2: V::<1>::any() },
        1 => E131::HTTPThird { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
        _ => E131::X4th(V::<0>::any()),
    };
    enumeration(ty::<E131>(), Repr::External, &all, &[Mask::Fields(&[false, true]), Mask::Fields(&[true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E132 {
    First,
    SecondOne {
    },
}
fn e132() {
    tag("E132");
    let all = [j(&E132::First), j(&E132::SecondOne {  })];
    let v = match choose(2) {
        0 => E132::First,
        _ => E132::SecondOne {  },
    };
    enumeration(ty::<E132>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E133 {
    #[serde(rename = "re-Named")]
    SecondOne(#[serde(skip_serializing)] V<3>),
    HTTPThird(#[opg(inline)] V<3>),
    #[serde(skip_serializing)]
    X4th,
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[serde(default)] V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] r#fn: V<0>,
    },
}
fn e133() {
    tag("E133");
    let all = [j(&E133::SecondOne(V::<3>::default())), j(&E133::HTTPThird(V::<3>::default())), j(&E133::r#Fifth(V::<3>::default())), j(&E133::Six_th { r#fn: V::<0>::default() })];
    let v = match choose(4) {
        0 => E133::SecondOne(V::<3>::any()),
        1 => E133::HTTPThird(V::<3>::any()),
        2 => E133::r#Fifth(V::<3>::any()),
        _ => E133::Six_th { r#fn: V::<0>::any() },
    };
    enumeration(ty::<E133>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E134 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
    X4th,
    #[serde(skip_deserializing)]
    r#Fifth,
}
fn e134() {
    tag("E134");
    let all = [j(&E134::HTTPThird), j(&E134::X4th), j(&E134::r#Fifth)];
    let v = match choose(3) {
        0 => E134::HTTPThird,
        1 => E134::X4th,
        _ => E134::r#Fifth,
    };
    enumeration(ty::<E134>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E135 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[serde(skip_serializing)] V<3>),
    r#Fifth(V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th {
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[opg(inline)] V<3>),
}
fn e135() {
    tag("E135");
    let all = [j(&E135::X4th(V::<3>::default())), j(&E135::r#Fifth(V::<3>::default())), j(&E135::Six_th {  }), j(&E135::Z(V::<3>::default()))];
    let v = match choose(4) {
        0 => E135::X4th(V::<3>::any()),
        1 => E135::r#Fifth(V::<3>::any()),
        2 => E135::Six_th {  },
        _ => E135::Z(V::<3>::any()),
    };
    enumeration(ty::<E135>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E136 {
    #[serde(skip)]
    r#Fifth,
    Six_th {
        #[serde(alias = "other")] #[opg(inline, optional)] r#fn: V<0>,
        first_one: V<1>,
    },
}
fn e136() {
    tag("E136");
    let all = [j(&E136::Six_th { r#fn: V::<0>::default(), first_one: V::<1>::default() })];
    let v = match choose(1) {
        _ => E136::Six_th { r#fn: V::<0>::any(), first_one: V::<1>::any() },
    };
    enumeration(ty::<E136>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E137 {
    #[serde(skip_serializing)]
    Six_th {
        #[serde(skip_serializing)] #[opg(optional)] r#fn: V<0>,
        first_one: V<1>,
        #[serde(skip_deserializing)] _lead: V<2>,
    },
    Z(V<3>),
}
fn e137() {
    tag("E137");
    let all = [j(&E137::Z(V::<3>::default()))];
    let v = match choose(1) {
        _ => E137::Z(V::<3>::any()),
    };
    enumeration(ty::<E137>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E138 {
    #[serde(skip_deserializing)]
    Z(#[serde(skip)] V<3>),
    First(V<3>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird(V<3>),
}
fn e138() {
    tag("E138");
    let all = [j(&E138::Z(V::<3>::default())), j(&E138::First(V::<3>::default())), j(&E138::SecondOne), j(&E138::HTTPThird(V::<3>::default()))];
    let v = match choose(4) {
        0 => E138::Z(V::<3>::any()),
        1 => E138::First(V::<3>::any()),
        2 => E138::SecondOne,
        _ => E138::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E138>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E139 {
    #[serde(alias = "ali")]
    #[opg("text")]
    First {
    },
    SecondOne {
        #[serde(default)] first_one: V<0>,
        _lead: V<1>,
        #[serde(skip_deserializing)] tail_: V<2>,
    },
    HTTPThird(#[opg(inline)] V<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[opg(inline)] V<3>),
}
fn e139() {
    tag("E139");
    let all = [j(&E139::First {  }), j(&E139::SecondOne { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() }), j(&E139::HTTPThird(V::<3>::default())), j(&E139::X4th(V::<3>::default()))];
    let v = match choose(4) {
        0 => E139::First {  },
        1 => E139::SecondOne { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() },
        2 => E139::HTTPThird(V::<3>::any()),
        _ => E139::X4th(V::<3>::any()),
    };
    enumeration(ty::<E139>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Fields(&[true, true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E140 {
    #[opg(inline)]
    SecondOne(#[serde(skip)] V<3>),
    HTTPThird {
    },
    #[serde(rename = "re-Named")]
    X4th(#[serde(default)] V<3>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(inline)] V<3>),
    #[serde(skip_serializing)]
    Six_th(#[opg(inline)] V<3>),
}
fn e140() {
    tag("E140");
    let all = [j(&E140::SecondOne(V::<3>::default())), j(&E140::HTTPThird {  }), j(&E140::X4th(V::<3>::default())), j(&E140::r#Fifth(V::<3>::default()))];
    let v = match choose(4) {
        0 => E140::SecondOne(V::<3>::any()),
        1 => E140::HTTPThird {  },
        2 => E140::X4th(V::<3>::any()),
        _ => E140::r#Fifth(V::<3>::any()),
    };
    enumeration(ty::<E140>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E141 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[serde(skip_serializing)] #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
        #[serde(skip_serializing)] r#fn: V<2>,
    },
    X4th(#[serde(default)] V<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth {
        #[serde(skip_serializing_if = "gone")] _lead: V<0>,
        tail_: V<1>,
    },
    #[serde(skip)]
    Six_th(#[serde(default)] V<3>),
}
fn e141() {
    tag("E141");
    let all = [j(&E141::HTTPThird { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() }), j(&E141::X4th(V::<3>::default())), j(&E141::r#Fifth { _lead: V::<0>::default(), tail_: V::<1>::default() })];
    let v = match choose(3) {
        0 => E141::HTTPThird { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() },
        1 => E141::X4th(V::<3>::any()),
        _ => E141::r#Fifth { _lead: V::<0>::maybe(), tail_: V::<1>::any() },
    };
    enumeration(ty::<E141>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true, false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E142 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th,
    r#Fifth {
        #[serde(alias = "other")] #[opg(inline, optional)] _lead: V<0>,
        tail_: V<1>,
    },
}
fn e142() {
    tag("E142");
    let all = [j(&E142::X4th), j(&E142::r#Fifth { _lead: V::<0>::default(), tail_: V::<1>::default() })];
    let v = match choose(2) {
        0 => E142::X4th,
        _ => E142::r#Fifth { _lead: V::<0>::any(), tail_: V::<1>::any() },
    };
    enumeration(ty::<E142>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E143 {
    r#Fifth(#[serde(skip_serializing)] V<3>),
    Six_th {
        #[serde(skip_serializing)] #[opg(optional)] a1_b2: V<0>,
        r#fn: V<1>,
    },
}
fn e143() {
    tag("E143");
    let all = [j(&E143::r#Fifth(V::<3>::default())), j(&E143::Six_th { a1_b2: V::<0>::default(), r#fn: V::<1>::default() })];
    let v = match choose(2) {
        0 => E143::r#Fifth(V::<3>::any()),
        _ => E143::Six_th { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
    };
    enumeration(ty::<E143>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E144 {
    #[serde(rename = "re-Named")]
    Six_th(V<3>),
    Z {
    },
    #[serde(skip_serializing)]
    First(#[opg(inline)] V<3>),
}
fn e144() {
    tag("E144");
    let all = [j(&E144::Six_th(V::<3>::default())), j(&E144::Z {  })];
    let v = match choose(2) {
        0 => E144::Six_th(V::<3>::any()),
        _ => E144::Z {  },
    };
    enumeration(ty::<E144>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E145 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[serde(skip_serializing)] V<3>),
    First,
    #[serde(skip_deserializing)]
    SecondOne,
    #[opg(inline)]
    HTTPThird {
        #[opg("text", format = "f", example = "e", nullable, inline)] is_ok: V<0>,
        second: V<1>,
    },
}
fn e145() {
    tag("E145");
    let all = [j(&E145::Z(V::<3>::default())), j(&E145::First), j(&E145::SecondOne), j(&E145::HTTPThird { is_ok: V::<0>::default(), second: V::<1>::default() })];
    let v = match choose(4) {
        0 => E145::Z(V::<3>::any()),
        1 => E145::First,
        2 => E145::SecondOne,
        _ => E145::HTTPThird { is_ok: V::<0>::any(), second: V::<1>::any() },
    };
    enumeration(ty::<E145>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E146 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
    SecondOne(#[opg(inline)] V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(default)] V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(V<3>),
}
fn e146() {
    tag("E146");
    let all = [j(&E146::First), j(&E146::SecondOne(V::<3>::default())), j(&E146::HTTPThird(V::<3>::default())), j(&E146::X4th(V::<3>::default()))];
    let v = match choose(4) {
        0 => E146::First,
        1 => E146::SecondOne(V::<3>::any()),
        2 => E146::HTTPThird(V::<3>::any()),
        _ => E146::X4th(V::<3>::any()),
    };
    enumeration(ty::<E146>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E147 {
    #[serde(skip)]
    SecondOne {
        #[serde(skip_serializing)] r#fn: V<0>,
    },
    HTTPThird(#[serde(default)] V<3>),
    #[opg(inline)]
    X4th {
        #[opg(inline)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
        #[opg(nullable)] first_one: V<0>,
        _lead: V<1>,
        #[opg(nullable)] tail_: V<2>,
    },
}
fn e147() {
    tag("E147");
    let all = [j(&E147::HTTPThird(V::<3>::default())), j(&E147::X4th { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E147::r#Fifth { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() })];
    let v = match choose(3) {
        0 => E147::HTTPThird(V::<3>::any()),
        1 => E147::X4th { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        _ => E147::r#Fifth { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() },
    };
    enumeration(ty::<E147>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Fields(&[true, true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E148 {
    #[serde(skip_serializing)]
    HTTPThird(#[serde(skip)] V<3>),
    X4th(V<3>),
}
fn e148() {
    tag("E148");
    let all = [j(&E148::X4th(V::<3>::default()))];
    let v = match choose(1) {
        _ => E148::X4th(V::<3>::any()),
    };
    enumeration(ty::<E148>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E149 {
    #[serde(skip_deserializing)]
    X4th {
        #[serde(skip_serializing)] #[opg(optional)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    r#Fifth {
    },
}
fn e149() {
    tag("E149");
    let all = [j(&E149::X4th { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E149::r#Fifth {  })];
    let v = match choose(2) {
        0 => E149::X4th { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        _ => E149::r#Fifth {  },
    };
    enumeration(ty::<E149>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E150 {
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[serde(skip)] V<3>),
    Six_th,
    Z {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] r#type: V<0>,
    },
}
fn e150() {
    tag("E150");
    let all = [j(&E150::r#Fifth(V::<3>::default())), j(&E150::Six_th), j(&E150::Z { r#type: V::<0>::default() })];
    let v = match choose(3) {
        0 => E150::r#Fifth(V::<3>::any()),
        1 => E150::Six_th,
        _ => E150::Z { r#type: V::<0>::any() },
    };
    enumeration(ty::<E150>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E151 {
    #[opg(inline)]
    Six_th,
    Z(#[serde(default)] V<3>),
    #[serde(rename = "re-Named")]
    First {
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[opg(inline)] V<3>),
}
fn e151() {
    tag("E151");
    let all = [j(&E151::Six_th), j(&E151::Z(V::<3>::default())), j(&E151::First {  }), j(&E151::SecondOne(V::<3>::default()))];
    let v = match choose(4) {
        0 => E151::Six_th,
        1 => E151::Z(V::<3>::any()),
        2 => E151::First {  },
        _ => E151::SecondOne(V::<3>::any()),
    };
    enumeration(ty::<E151>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E152 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[serde(skip_deserializing)] r#type: V<0>,
        x__y: V<1>,
        #[serde(default)] is_ok: V<2>,
    },
    First,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne,
}
fn e152() {
    tag("E152");
    let all = [j(&E152::Z { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E152::First), j(&E152::SecondOne)];
    let v = match choose(3) {
        0 => E152::Z { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
        1 => E152::First,
        _ => E152::SecondOne,
    };
    enumeration(ty::<E152>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E153 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[serde(skip_serializing)] V<3>),
    SecondOne,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(V<3>),
}
fn e153() {
    tag("E153");
    let all = [j(&E153::First(V::<3>::default())), j(&E153::SecondOne), j(&E153::HTTPThird(V::<3>::default()))];
    let v = match choose(3) {
        0 => E153::First(V::<3>::any()),
        1 => E153::SecondOne,
        _ => E153::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E153>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E154 {
    SecondOne {
    },
    HTTPThird(V<3>),
    #[serde(skip)]
    X4th(#[serde(default)] V<3>),
}
fn e154() {
    tag("E154");
    let all = [j(&E154::SecondOne {  }), j(&E154::HTTPThird(V::<3>::default()))];
    let v = match choose(2) {
        0 => E154::SecondOne {  },
        _ => E154::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E154>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E155 {
    #[serde(rename = "re-Named")]
    HTTPThird(#[serde(skip_serializing)] V<3>),
    X4th,
    #[serde(skip_serializing)]
    r#Fifth(#[opg(inline)] V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[serde(default)] V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[opg(inline)] V<3>),
}
fn e155() {
    tag("E155");
    let all = [j(&E155::HTTPThird(V::<3>::default())), j(&E155::X4th), j(&E155::Six_th(V::<3>::default())), j(&E155::Z(V::<3>::default()))];
    let v = match choose(4) {
        0 => E155::HTTPThird(V::<3>::any()),
        1 => E155::X4th,
        2 => E155::Six_th(V::<3>::any()),
        _ => E155::Z(V::<3>::any()),
    };
    enumeration(ty::<E155>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E156 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[serde(default)] V<3>),
    r#Fifth,
}
fn e156() {
    tag("E156");
    let all = [j(&E156::X4th(V::<3>::default())), j(&E156::r#Fifth)];
    let v = match choose(2) {
        0 => E156::X4th(V::<3>::any()),
        _ => E156::r#Fifth,
    };
    enumeration(ty::<E156>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E157 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(inline)] V<3>),
    Six_th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] is_ok: V<0>,
        second: V<1>,
        #[serde(skip_deserializing)] a1_b2: V<2>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
    },
}
fn e157() {
    tag("E157");
    let all = [j(&E157::r#Fifth(V::<3>::default())), j(&E157::Six_th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E157::Z(V::<3>::default())), j(&E157::First {  })];
    let v = match choose(4) {
        0 => E157::r#Fifth(V::<3>::any()),
        1 => E157::Six_th { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        2 => E157::Z(V::<3>::any()),
        _ => E157::First {  },
    };
    enumeration(ty::<E157>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, false, true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E158 {
    #[serde(skip)]
    Six_th(#[serde(skip)] V<3>),
    Z(#[opg(inline)] V<3>),
}
fn e158() {
    tag("E158");
    let all = [j(&E158::Z(V::<3>::default()))];
    let v = match choose(1) {
        _ => E158::Z(V::<3>::any()),
    };
    enumeration(ty::<E158>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E159 {
    #[serde(skip_serializing)]
    Z {
        deep_er_name: V<0>,
    },
    First,
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(V<3>),
}
fn e159() {
    tag("E159");
    let all = [j(&E159::First), j(&E159::SecondOne(V::<3>::default()))];
    let v = match choose(2) {
        0 => E159::First,
        _ => E159::SecondOne(V::<3>::any()),
    };
    enumeration(ty::<E159>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E160 {
    #[serde(skip_deserializing)]
    First(#[serde(skip)] V<3>),
    SecondOne(#[serde(default)] V<3>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
    #[serde(rename = "re-Named")]
    X4th {
        #[serde(skip)] _lead: V<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
}
fn e160() {
    tag("E160");
    let all = [j(&E160::First(V::<3>::default())), j(&E160::SecondOne(V::<3>::default())), j(&E160::HTTPThird), j(&E160::X4th { _lead: V::<0>::default() }), j(&E160::r#Fifth)];
    let v = match choose(5) {
        0 => E160::First(V::<3>::any()),
        1 => E160::SecondOne(V::<3>::any()),
        2 => E160::HTTPThird,
        3 => E160::X4th { _lead: V::<0>::any() },
        _ => E160::r#Fifth,
    };
    enumeration(ty::<E160>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E161 {
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne {
        #[serde(rename(deserialize = "dE"))] second: V<0>,
    },
    HTTPThird(V<3>),
    X4th {
        #[serde(skip_serializing)] #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[opg(inline)] deep_er_name: V<2>,
    },
}
fn e161() {
    tag("E161");
    let all = [j(&E161::SecondOne { second: V::<0>::default() }), j(&E161::HTTPThird(V::<3>::default())), j(&E161::X4th { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() })];
    let v = match choose(3) {
        0 => E161::SecondOne { second: V::<0>::any() },
        1 => E161::HTTPThird(V::<3>::any()),
        _ => E161::X4th { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
    };
    enumeration(ty::<E161>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E162 {
    #[opg(inline)]
    HTTPThird {
        #[serde(skip_serializing)] r#type: V<0>,
        x__y: V<1>,
        #[serde(skip_serializing_if = "gone")] is_ok: V<2>,
    },
    X4th {
        #[serde(skip_serializing)] #[opg(optional)] _lead: V<0>,
    },
    #[serde(rename = "re-Named")]
    r#Fifth {
        #[serde(alias = "other")] #[opg(inline, optional)] a1_b2: V<0>,
        r#fn: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(V<3>),
}
fn e162() {
    tag("E162");
    let all = [j(&E162::HTTPThird { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E162::X4th { _lead: V::<0>::default() }), j(&E162::r#Fifth { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E162::Six_th(V::<3>::default()))];
    let v = match choose(4) {
        0 => E162::HTTPThird { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::maybe() },
        1 => E162::X4th { _lead: V::<0>::any() },
        2 => E162::r#Fifth { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
        _ => E162::Six_th(V::<3>::any()),
    };
    enumeration(ty::<E162>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, false]), Mask::Fields(&[true]), Mask::Fields(&[true, false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E163 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[serde(skip_serializing)] V<3>),
    r#Fifth {
        #[opg(inline)] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(rename(deserialize = "dE"))] first_one: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[serde(default)] V<3>),
}
fn e163() {
    tag("E163");
    let all = [j(&E163::X4th(V::<3>::default())), j(&E163::r#Fifth { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E163::Six_th(V::<3>::default()))];
    let v = match choose(3) {
        0 => E163::X4th(V::<3>::any()),
        1 => E163::r#Fifth { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        _ => E163::Six_th(V::<3>::any()),
    };
    enumeration(ty::<E163>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E164 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth,
    Six_th(#[opg(inline)] V<3>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
    #[serde(skip_serializing)]
    First {
        #[opg("text")] #[serde(default, skip_deserializing)] r#fn: V<0>,
        first_one: V<1>,
    },
}
fn e164() {
    tag("E164");
    let all = [j(&E164::r#Fifth), j(&E164::Six_th(V::<3>::default())), j(&E164::Z)];
    let v = match choose(3) {
        0 => E164::r#Fifth,
        1 => E164::Six_th(V::<3>::any()),
        _ => E164::Z,
    };
    enumeration(ty::<E164>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E165 {
    Six_th(#[serde(skip_serializing)] V<3>),
    Z {
        tail_: V<0>,
    },
    #[serde(skip)]
    First(#[serde(default)] V<3>),
    #[serde(skip_deserializing)]
    SecondOne(V<3>),
    #[opg(inline)]
    HTTPThird(#[opg(inline)] V<3>),
}
fn e165() {
    tag("E165");
    let all = [j(&E165::Six_th(V::<3>::default())), j(&E165::Z { tail_: V::<0>::default() }), j(&E165::SecondOne(V::<3>::default())), j(&E165::HTTPThird(V::<3>::default()))];
    let v = match choose(4) {
        0 => E165::Six_th(V::<3>::any()),
        1 => E165::Z { tail_: V::<0>::any() },
        2 => E165::SecondOne(V::<3>::any()),
        _ => E165::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E165>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E166 {
    #[serde(rename = "re-Named")]
    Z {
        #[serde(skip)] tail_: V<0>,
        deep_er_name: V<1>,
    },
    First {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] r#fn: V<0>,
        first_one: V<1>,
        #[opg(nullable)] _lead: V<2>,
    },
}
fn e166() {
    tag("E166");
    let all = [j(&E166::Z { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E166::First { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() })];
    let v = match choose(2) {
        0 => E166::Z { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        _ => E166::First { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() },
    };
    enumeration(ty::<E166>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true, true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E167 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First {
        #[serde(skip)] r#fn: V<0>,
        first_one: V<1>,
        #[serde(rename(serialize = "sE", deserialize = "dE"))] _lead: V<2>,
    },
    SecondOne,
}
fn e167() {
    tag("E167");
    let all = [j(&E167::First { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() }), j(&E167::SecondOne)];
    let v = match choose(2) {
        0 => E167::First { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() },
        _ => E167::SecondOne,
    };
    enumeration(ty::<E167>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E168 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[serde(skip)] V<3>),
    HTTPThird {
        #[serde(rename(deserialize = "dE"))] deep_er_name: V<0>,
        r#type: V<1>,
    },
}
fn e168() {
    tag("E168");
    let all = [j(&E168::SecondOne(V::<3>::default())), j(&E168::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default() })];
    let v = match choose(2) {
        0 => E168::SecondOne(V::<3>::any()),
        _ => E168::HTTPThird { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
    };
    enumeration(ty::<E168>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E169 {
    #[serde(skip)]
    HTTPThird {
        #[serde(skip_serializing_if = "gone")] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(rename(serialize = "sE", deserialize = "dE"))] x__y: V<2>,
    },
    X4th(V<3>),
    #[opg(inline)]
    r#Fifth(#[serde(default)] V<3>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[opg(inline)] V<3>),
}
fn e169() {
    tag("E169");
    let all = [j(&E169::X4th(V::<3>::default())), j(&E169::r#Fifth(V::<3>::default())), j(&E169::Six_th(V::<3>::default()))];
    let v = match choose(3) {
        0 => E169::X4th(V::<3>::any()),
        1 => E169::r#Fifth(V::<3>::any()),
        _ => E169::Six_th(V::<3>::any()),
    };
    enumeration(ty::<E169>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E170 {
    #[serde(skip_serializing)]
    X4th(#[serde(skip)] V<3>),
    r#Fifth(V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
}
fn e170() {
    tag("E170");
    let all = [j(&E170::r#Fifth(V::<3>::default())), j(&E170::Six_th)];
    let v = match choose(2) {
        0 => E170::r#Fifth(V::<3>::any()),
        _ => E170::Six_th,
    };
    enumeration(ty::<E170>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E171 {
    #[serde(skip_deserializing)]
    r#Fifth,
    Six_th,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z {
        #[opg(inline)] _lead: V<0>,
    },
    #[serde(rename = "re-Named")]
    First {
        #[serde(alias = "other")] #[opg(inline, optional)] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(skip_serializing)] first_one: V<2>,
    },
}
fn e171() {
    tag("E171");
    let all = [j(&E171::r#Fifth), j(&E171::Six_th), j(&E171::Z { _lead: V::<0>::default() }), j(&E171::First { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() })];
    let v = match choose(4) {
        0 => E171::r#Fifth,
        1 => E171::Six_th,
        2 => E171::Z { _lead: V::<0>::any() },
        _ => E171::First { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
    };
    enumeration(ty::<E171>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true]), Mask::Fields(&[true, false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E172 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(V<3>),
    Z(V<3>),
    First,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] x__y: V<0>,
        is_ok: V<1>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] second: V<2>,
    },
}
fn e172() {
    tag("E172");
    let all = [j(&E172::Six_th(V::<3>::default())), j(&E172::Z(V::<3>::default())), j(&E172::First), j(&E172::SecondOne { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() })];
    let v = match choose(4) {
        0 => E172::Six_th(V::<3>::any()),
        1 => E172::Z(V::<3>::any()),
        2 => E172::First,
        _ => E172::SecondOne { x__y: V::<0>::maybe(), is_ok: V::<1>::any(), second: V::<2>::any() },
    };
    enumeration(ty::<E172>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E173 {
    #[opg(inline)]
    Z(#[serde(skip_serializing)] V<3>),
    First {
        #[serde(default)] a1_b2: V<0>,
        r#fn: V<1>,
        #[opg("text", format = "f", example = "e", nullable, inline)] first_one: V<2>,
    },
    #[serde(rename = "re-Named")]
    SecondOne(#[opg(inline)] V<3>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[opg(inline)] V<3>),
    #[serde(skip_serializing)]
    X4th,
}
fn e173() {
    tag("E173");
    let all = [j(&E173::Z(V::<3>::default())), j(&E173::First { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E173::SecondOne(V::<3>::default())), j(&E173::HTTPThird(V::<3>::default()))];
    let v = match choose(4) {
        0 => E173::Z(V::<3>::any()),
        1 => E173::First { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        2 => E173::SecondOne(V::<3>::any()),
        _ => E173::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E173>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E174 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[opg(inline)] V<3>),
    SecondOne {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] x__y: V<0>,
        is_ok: V<1>,
        #[serde(skip_serializing_if = "gone")] second: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
}
fn e174() {
    tag("E174");
    let all = [j(&E174::First(V::<3>::default())), j(&E174::SecondOne { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() }), j(&E174::HTTPThird)];
    let v = match choose(3) {
        0 => E174::First(V::<3>::any()),
        1 => E174::SecondOne { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe() },
        _ => E174::HTTPThird,
    };
    enumeration(ty::<E174>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E175 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[serde(skip_serializing)] V<3>),
    HTTPThird(#[opg(inline)] V<3>),
}
fn e175() {
    tag("E175");
    let all = [j(&E175::SecondOne(V::<3>::default())), j(&E175::HTTPThird(V::<3>::default()))];
    let v = match choose(2) {
        0 => E175::SecondOne(V::<3>::any()),
        _ => E175::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E175>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E176 {
    HTTPThird,
    X4th(#[serde(default)] V<3>),
    #[serde(skip)]
    r#Fifth {
        #[serde(rename = "x-Y")] is_ok: V<0>,
        second: V<1>,
    },
    #[serde(skip_deserializing)]
    Six_th,
    #[opg(inline)]
    Z,
}
fn e176() {
    tag("E176");
    let all = [j(&E176::HTTPThird), j(&E176::X4th(V::<3>::default())), j(&E176::Six_th), j(&E176::Z)];
    let v = match choose(4) {
        0 => E176::HTTPThird,
        1 => E176::X4th(V::<3>::any()),
        2 => E176::Six_th,
        _ => E176::Z,
    };
    enumeration(ty::<E176>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E177 {
    #[serde(rename = "re-Named")]
    X4th(#[serde(default)] V<3>),
    r#Fifth(V<3>),
    #[serde(skip_serializing)]
    Six_th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
        first_one: V<0>,
        _lead: V<1>,
    },
}
fn e177() {
    tag("E177");
    let all = [j(&E177::X4th(V::<3>::default())), j(&E177::r#Fifth(V::<3>::default())), j(&E177::Z { first_one: V::<0>::default(), _lead: V::<1>::default() })];
    let v = match choose(3) {
        0 => E177::X4th(V::<3>::any()),
        1 => E177::r#Fifth(V::<3>::any()),
        _ => E177::Z { first_one: V::<0>::any(), _lead: V::<1>::any() },
    };
    enumeration(ty::<E177>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E178 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[serde(skip)] V<3>),
    Six_th(#[serde(default)] V<3>),
}
fn e178() {
    tag("E178");
    let all = [j(&E178::r#Fifth(V::<3>::default())), j(&E178::Six_th(V::<3>::default()))];
    let v = match choose(2) {
        0 => E178::r#Fifth(V::<3>::any()),
        _ => E178::Six_th(V::<3>::any()),
    };
    enumeration(ty::<E178>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E179 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[serde(default)] V<3>),
    Z(#[serde(default)] V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    First {
        #[serde(skip_deserializing)] second: V<0>,
    },
}
fn e179() {
    tag("E179");
    let all = [j(&E179::Six_th(V::<3>::default())), j(&E179::Z(V::<3>::default())), j(&E179::First { second: V::<0>::default() })];
    let v = match choose(3) {
        0 => E179::Six_th(V::<3>::any()),
        1 => E179::Z(V::<3>::any()),
        _ => E179::First { second: V::<0>::any() },
    };
    enumeration(ty::<E179>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E180 {
    #[serde(skip)]
    Z(#[serde(skip)] V<3>),
    First {
        #[serde(skip)] second: V<0>,
        a1_b2: V<1>,
    },
    #[opg(inline)]
    SecondOne {
        #[serde(rename = "x-Y")] r#type: V<0>,
        x__y: V<1>,
        #[opg("text", format = "f", example = "e", nullable, inline)] is_ok: V<2>,
    },
}
fn e180() {
    tag("E180");
    let all = [j(&E180::First { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E180::SecondOne { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() })];
    let v = match choose(2) {
        0 => E180::First { second: V::<0>::any(), a1_b2: V::<1>::any() },
        _ => E180::SecondOne { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
    };
    enumeration(ty::<E180>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true, true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E181 {
    #[serde(skip_serializing)]
    First(#[serde(default)] V<3>),
    SecondOne,
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird,
    X4th(V<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth {
        x__y: V<0>,
        is_ok: V<1>,
        #[serde(rename = "x-Y")] second: V<2>,
    },
}
fn e181() {
    tag("E181");
    let all = [j(&E181::SecondOne), j(&E181::HTTPThird), j(&E181::X4th(V::<3>::default())), j(&E181::r#Fifth { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() })];
    let v = match choose(4) {
        0 => E181::SecondOne,
        1 => E181::HTTPThird,
        2 => E181::X4th(V::<3>::any()),
        _ => E181::r#Fifth { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
    };
    enumeration(ty::<E181>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E182 {
    #[serde(skip_deserializing)]
    SecondOne(V<3>),
    HTTPThird {
    },
}
fn e182() {
    tag("E182");
    let all = [j(&E182::SecondOne(V::<3>::default())), j(&E182::HTTPThird {  })];
    let v = match choose(2) {
        0 => E182::SecondOne(V::<3>::any()),
        _ => E182::HTTPThird {  },
    };
    enumeration(ty::<E182>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E183 {
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(skip_serializing)] V<3>),
    X4th,
    r#Fifth {
        #[serde(skip)] x__y: V<0>,
        is_ok: V<1>,
        #[opg("text")] #[serde(default, skip_deserializing)] second: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(skip)]
    Z,
}
fn e183() {
    tag("E183");
    let all = [j(&E183::HTTPThird(V::<3>::default())), j(&E183::X4th), j(&E183::r#Fifth { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() }), j(&E183::Six_th)];
    let v = match choose(4) {
        0 => E183::HTTPThird(V::<3>::any()),
        1 => E183::X4th,
        2 => E183::r#Fifth { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
        _ => E183::Six_th,
    };
    enumeration(ty::<E183>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E184 {
    #[opg(inline)]
    X4th,
    r#Fifth,
    #[serde(rename = "re-Named")]
    Six_th(#[serde(default)] V<3>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        #[opg(nullable)] r#fn: V<0>,
        first_one: V<1>,
    },
    #[serde(skip_serializing)]
    First,
}
fn e184() {
    tag("E184");
    let all = [j(&E184::X4th), j(&E184::r#Fifth), j(&E184::Six_th(V::<3>::default())), j(&E184::Z { r#fn: V::<0>::default(), first_one: V::<1>::default() })];
    let v = match choose(4) {
        0 => E184::X4th,
        1 => E184::r#Fifth,
        2 => E184::Six_th(V::<3>::any()),
        _ => E184::Z { r#fn: V::<0>::any(), first_one: V::<1>::any() },
    };
    enumeration(ty::<E184>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E185 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[serde(skip_serializing)] V<3>),
    Six_th(#[serde(default)] V<3>),
}
fn e185() {
    tag("E185");
    let all = [j(&E185::r#Fifth(V::<3>::default())), j(&E185::Six_th(V::<3>::default()))];
    let v = match choose(2) {
        0 => E185::r#Fifth(V::<3>::any()),
        _ => E185::Six_th(V::<3>::any()),
    };
    enumeration(ty::<E185>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E186 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th {
    },
    Z,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
    #[serde(skip_serializing)]
    SecondOne(V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird {
        #[serde(rename(deserialize = "dE"))] first_one: V<0>,
        _lead: V<1>,
        #[serde(default)] tail_: V<2>,
    },
}
fn e186() {
    tag("E186");
    let all = [j(&E186::Six_th {  }), j(&E186::Z), j(&E186::First), j(&E186::HTTPThird { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() })];
    let v = match choose(4) {
        0 => E186::Six_th {  },
        1 => E186::Z,
        2 => E186::First,
        _ => E186::HTTPThird { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() },
    };
    enumeration(ty::<E186>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Fields(&[true, true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E187 {
    Z {
        #[opg(inline)] r#fn: V<0>,
        first_one: V<1>,
    },
    First,
}
fn e187() {
    tag("E187");
    let all = [j(&E187::Z { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E187::First)];
    let v = match choose(2) {
        0 => E187::Z { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        _ => E187::First,
    };
    enumeration(ty::<E187>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E188 {
    #[serde(rename = "re-Named")]
    First(#[serde(skip)] V<3>),
    SecondOne(#[serde(default)] V<3>),
    #[serde(skip_serializing)]
    HTTPThird,
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[opg(inline)] V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
}
fn e188() {
    tag("E188");
    let all = [j(&E188::First(V::<3>::default())), j(&E188::SecondOne(V::<3>::default())), j(&E188::X4th(V::<3>::default())), j(&E188::r#Fifth)];
    let v = match choose(4) {
        0 => E188::First(V::<3>::any()),
        1 => E188::SecondOne(V::<3>::any()),
        2 => E188::X4th(V::<3>::any()),
        _ => E188::r#Fifth,
    };
    enumeration(ty::<E188>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E189 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
        #[opg(nullable)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    HTTPThird {
        #[serde(skip_deserializing)] first_one: V<0>,
    },
    #[serde(skip_deserializing)]
    X4th(#[opg(inline)] V<3>),
}
fn e189() {
    tag("E189");
    let all = [j(&E189::SecondOne { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E189::HTTPThird { first_one: V::<0>::default() }), j(&E189::X4th(V::<3>::default()))];
    let v = match choose(3) {
        0 => E189::SecondOne { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        1 => E189::HTTPThird { first_one: V::<0>::any() },
        _ => E189::X4th(V::<3>::any()),
    };
    enumeration(ty::<E189>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E190 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[serde(skip)] V<3>),
    X4th,
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth,
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th {
        _lead: V<0>,
        tail_: V<1>,
        #[opg("text")] #[serde(default, skip_deserializing)] deep_er_name: V<2>,
    },
    Z(V<3>),
}
fn e190() {
    tag("E190");
    let all = [j(&E190::HTTPThird(V::<3>::default())), j(&E190::X4th), j(&E190::r#Fifth), j(&E190::Six_th { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E190::Z(V::<3>::default()))];
    let v = match choose(5) {
        0 => E190::HTTPThird(V::<3>::any()),
        1 => E190::X4th,
        2 => E190::r#Fifth,
        3 => E190::Six_th { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E190::Z(V::<3>::any()),
    };
    enumeration(ty::<E190>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E191 {
    #[serde(skip)]
    X4th,
    r#Fifth,
    #[opg(inline)]
    Six_th {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z {
        #[serde(rename(deserialize = "dE"))] a1_b2: V<0>,
        r#fn: V<1>,
    },
}
fn e191() {
    tag("E191");
    let all = [j(&E191::r#Fifth), j(&E191::Six_th {  }), j(&E191::Z { a1_b2: V::<0>::default(), r#fn: V::<1>::default() })];
    let v = match choose(3) {
        0 => E191::r#Fifth,
        1 => E191::Six_th {  },
        _ => E191::Z { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
    };
    enumeration(ty::<E191>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E192 {
    #[serde(skip_serializing)]
    r#Fifth,
    Six_th {
        _lead: V<0>,
        tail_: V<1>,
        #[serde(rename = "x-Y")] deep_er_name: V<2>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z,
}
fn e192() {
    tag("E192");
    let all = [j(&E192::Six_th { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E192::Z)];
    let v = match choose(2) {
        0 => E192::Six_th { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E192::Z,
    };
    enumeration(ty::<E192>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E193 {
    #[serde(skip_deserializing)]
    Six_th(#[serde(skip_serializing)] V<3>),
    Z {
        #[serde(rename = "x-Y")] a1_b2: V<0>,
        r#fn: V<1>,
    },
}
fn e193() {
    tag("E193");
    let all = [j(&E193::Six_th(V::<3>::default())), j(&E193::Z { a1_b2: V::<0>::default(), r#fn: V::<1>::default() })];
    let v = match choose(2) {
        0 => E193::Six_th(V::<3>::any()),
        _ => E193::Z { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
    };
    enumeration(ty::<E193>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E194 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Z,
    First,
    SecondOne {
        #[serde(alias = "other")] #[opg(inline, optional)] tail_: V<0>,
    },
}
fn e194() {
    tag("E194");
    let all = [j(&E194::Z), j(&E194::First), j(&E194::SecondOne { tail_: V::<0>::default() })];
    let v = match choose(3) {
        0 => E194::Z,
        1 => E194::First,
        _ => E194::SecondOne { tail_: V::<0>::any() },
    };
    enumeration(ty::<E194>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E195 {
    #[opg(inline)]
    First(#[serde(skip_serializing)] V<3>),
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird(#[opg(inline)] V<3>),
}
fn e195() {
    tag("E195");
    let all = [j(&E195::First(V::<3>::default())), j(&E195::SecondOne), j(&E195::HTTPThird(V::<3>::default()))];
    let v = match choose(3) {
        0 => E195::First(V::<3>::any()),
        1 => E195::SecondOne,
        _ => E195::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E195>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E196 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne {
        #[serde(rename(deserialize = "dE"))] tail_: V<0>,
        deep_er_name: V<1>,
    },
    HTTPThird(#[opg(inline)] V<3>),
}
fn e196() {
    tag("E196");
    let all = [j(&E196::SecondOne { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E196::HTTPThird(V::<3>::default()))];
    let v = match choose(2) {
        0 => E196::SecondOne { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        _ => E196::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E196>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E197 {
    First {
    },
    SecondOne(#[serde(skip_serializing)] V<0>, #[opg(nullable)] V<1>),
    #[serde(skip)]
    HTTPThird(V<0>, #[opg("text")] V<1>, #[opg(inline)] V<2>),
    #[serde(skip_deserializing)]
    X4th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] first_one: V<0>,
        _lead: V<1>,
        #[serde(skip_serializing)] #[opg(optional)] tail_: V<2>,
    },
}
fn e197() {
    tag("E197");
    let all = [j(&E197::First {  }), j(&E197::SecondOne(V::<0>::default(), V::<1>::default())), j(&E197::X4th { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() })];
    let v = match choose(3) {
        0 => E197::First {  },
        1 => E197::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E197::X4th { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::any() },
    };
    enumeration(ty::<E197>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[]), Mask::Tuple, Mask::Fields(&[false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E198 {
    #[serde(rename = "re-Named")]
    SecondOne(#[serde(skip_serializing)] V<0>),
    HTTPThird {
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] deep_er_name: V<0>,
        r#type: V<1>,
    },
    #[serde(skip_serializing)]
    X4th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(#[opg(inline)] V<0>),
}
fn e198() {
    tag("E198");
    let all = [j(&E198::SecondOne(V::<0>::default())), j(&E198::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E198::r#Fifth { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E198::Six_th(V::<0>::default()))];
    let v = match choose(4) {
        0 => E198::SecondOne(V::<0>::any()),
        1 => E198::HTTPThird { deep_er_name: V::<0>::maybe(), r#type: V::<1>::any() },
        2 => E198::r#Fifth { second: V::<0>::maybe(), a1_b2: V::<1>::any() },
        _ => E198::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E198>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Fields(&[false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E199 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
    X4th(#[serde(default)] V<1>),
    #[serde(skip_deserializing)]
    r#Fifth(#[opg(inline)] V<0>),
    #[opg(inline)]
    Six_th(V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z {
        #[serde(skip_serializing)] #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[opg("text", format = "f", example = "e", nullable, inline)] deep_er_name: V<2>,
    },
}
fn e199() {
    tag("E199");
    let all = [j(&E199::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E199::X4th(V::<1>::default())), j(&E199::r#Fifth(V::<0>::default())), j(&E199::Six_th(V::<1>::default())), j(&E199::Z { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() })];
    let v = match choose(5) {
        0 => E199::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E199::X4th(V::<1>::any()),
        2 => E199::r#Fifth(V::<0>::any()),
        3 => E199::Six_th(V::<1>::any()),
        _ => E199::Z { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
    };
    enumeration(ty::<E199>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E200 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[serde(skip_serializing)] V<0>),
    r#Fifth {
        #[opg("text")] #[serde(default, skip_deserializing)] second: V<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z,
}
fn e200() {
    tag("E200");
    let all = [j(&E200::X4th(V::<0>::default())), j(&E200::r#Fifth { second: V::<0>::default() }), j(&E200::Six_th(V::<0>::default(), V::<1>::default())), j(&E200::Z)];
    let v = match choose(4) {
        0 => E200::X4th(V::<0>::any()),
        1 => E200::r#Fifth { second: V::<0>::any() },
        2 => E200::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E200::Z,
    };
    enumeration(ty::<E200>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E201 {
    #[serde(skip)]
    r#Fifth,
    Six_th(#[serde(default)] V<1>),
    #[opg(inline)]
    Z {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] deep_er_name: V<2>,
    },
}
fn e201() {
    tag("E201");
    let all = [j(&E201::Six_th(V::<1>::default())), j(&E201::Z { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() })];
    let v = match choose(2) {
        0 => E201::Six_th(V::<1>::any()),
        _ => E201::Z { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::maybe() },
    };
    enumeration(ty::<E201>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[false, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E202 {
    #[serde(skip_serializing)]
    Six_th,
    Z(V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First(V<0>),
}
fn e202() {
    tag("E202");
    let all = [j(&E202::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E202::First(V::<0>::default()))];
    let v = match choose(2) {
        0 => E202::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E202::First(V::<0>::any()),
    };
    enumeration(ty::<E202>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E203 {
    #[serde(skip_deserializing)]
    Z(#[serde(skip)] V<0>),
    First(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[opg(inline)] V<0>),
    #[serde(rename = "re-Named")]
    HTTPThird(#[opg(nullable)] V<0>, #[opg("text")] V<1>),
}
fn e203() {
    tag("E203");
    let all = [j(&E203::Z(V::<0>::default())), j(&E203::First(V::<1>::default())), j(&E203::SecondOne(V::<0>::default())), j(&E203::HTTPThird(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E203::Z(V::<0>::any()),
        1 => E203::First(V::<1>::any()),
        2 => E203::SecondOne(V::<0>::any()),
        _ => E203::HTTPThird(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E203>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E204 {
    #[serde(alias = "ali")]
    #[opg("text")]
    First(#[serde(default)] V<0>),
    SecondOne(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
    HTTPThird(#[opg(inline)] V<0>),
}
fn e204() {
    tag("E204");
    let all = [j(&E204::First(V::<0>::default())), j(&E204::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E204::HTTPThird(V::<0>::default()))];
    let v = match choose(3) {
        0 => E204::First(V::<0>::any()),
        1 => E204::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E204::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E204>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E205 {
    #[opg(inline)]
    SecondOne(#[serde(skip)] V<0>),
    HTTPThird {
        #[serde(skip_deserializing)] tail_: V<0>,
    },
}
fn e205() {
    tag("E205");
    let all = [j(&E205::SecondOne(V::<0>::default())), j(&E205::HTTPThird { tail_: V::<0>::default() })];
    let v = match choose(2) {
        0 => E205::SecondOne(V::<0>::any()),
        _ => E205::HTTPThird { tail_: V::<0>::any() },
    };
    enumeration(ty::<E205>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E206 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>, #[opg("text")] V<2>),
    X4th(V<0>, #[opg(inline)] V<1>, V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth,
    #[serde(skip)]
    Six_th(#[serde(default)] V<1>),
}
fn e206() {
    tag("E206");
    let all = [j(&E206::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E206::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E206::r#Fifth)];
    let v = match choose(3) {
        0 => E206::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E206::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E206::r#Fifth,
    };
    enumeration(ty::<E206>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E207 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th,
    r#Fifth {
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[opg(inline)] V<0>),
    #[serde(skip_serializing)]
    Z,
}
fn e207() {
    tag("E207");
    let all = [j(&E207::X4th), j(&E207::r#Fifth {  }), j(&E207::Six_th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E207::X4th,
        1 => E207::r#Fifth {  },
        _ => E207::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E207>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E208 {
    r#Fifth(#[serde(skip_serializing)] V<0>),
    Six_th(#[serde(default)] V<1>),
    #[serde(skip)]
    Z {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] first_one: V<0>,
        _lead: V<1>,
    },
}
fn e208() {
    tag("E208");
    let all = [j(&E208::r#Fifth(V::<0>::default())), j(&E208::Six_th(V::<1>::default()))];
    let v = match choose(2) {
        0 => E208::r#Fifth(V::<0>::any()),
        _ => E208::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E208>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E209 {
    #[serde(rename = "re-Named")]
    Six_th,
    Z(#[opg(inline)] V<1>),
}
fn e209() {
    tag("E209");
    let all = [j(&E209::Six_th), j(&E209::Z(V::<1>::default()))];
    let v = match choose(2) {
        0 => E209::Six_th,
        _ => E209::Z(V::<1>::any()),
    };
    enumeration(ty::<E209>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E210 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[serde(skip_serializing)] V<0>),
    First,
    #[serde(skip_deserializing)]
    SecondOne(#[serde(default)] V<0>),
}
fn e210() {
    tag("E210");
    let all = [j(&E210::Z(V::<0>::default())), j(&E210::First), j(&E210::SecondOne(V::<0>::default()))];
    let v = match choose(3) {
        0 => E210::Z(V::<0>::any()),
        1 => E210::First,
        _ => E210::SecondOne(V::<0>::any()),
    };
    enumeration(ty::<E210>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E211 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First {
    },
    SecondOne(#[serde(skip_deserializing)] V<0>, #[serde(skip)] V<1>, #[opg(nullable)] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(default)] V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(V<0>, #[opg(nullable)] V<1>),
}
fn e211() {
    tag("E211");
    let all = [j(&E211::First {  }), j(&E211::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E211::HTTPThird(V::<0>::default())), j(&E211::X4th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E211::First {  },
        1 => E211::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E211::HTTPThird(V::<0>::any()),
        _ => E211::X4th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E211>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[]), Mask::Tuple, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E212 {
    #[serde(skip)]
    SecondOne {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<0>,
        x__y: V<1>,
    },
    HTTPThird,
    #[opg(inline)]
    X4th(#[serde(default)] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth(#[opg(inline)] V<1>),
}
fn e212() {
    tag("E212");
    let all = [j(&E212::HTTPThird), j(&E212::X4th(V::<0>::default())), j(&E212::r#Fifth(V::<1>::default()))];
    let v = match choose(3) {
        0 => E212::HTTPThird,
        1 => E212::X4th(V::<0>::any()),
        _ => E212::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E212>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E213 {
    #[serde(skip_serializing)]
    HTTPThird(#[serde(skip)] V<0>),
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    Six_th {
        tail_: V<0>,
        deep_er_name: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip_serializing)] V<2>),
}
fn e213() {
    tag("E213");
    let all = [j(&E213::X4th), j(&E213::r#Fifth), j(&E213::Six_th { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E213::Z(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E213::X4th,
        1 => E213::r#Fifth,
        2 => E213::Six_th { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        _ => E213::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E213>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E214 {
    #[serde(skip_deserializing)]
    X4th(#[opg(inline)] V<0>),
    r#Fifth,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(V<0>),
    #[serde(rename = "re-Named")]
    Z(V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(#[opg(inline)] V<0>),
}
fn e214() {
    tag("E214");
    let all = [j(&E214::X4th(V::<0>::default())), j(&E214::r#Fifth), j(&E214::Six_th(V::<0>::default())), j(&E214::Z(V::<1>::default())), j(&E214::First(V::<0>::default()))];
    let v = match choose(5) {
        0 => E214::X4th(V::<0>::any()),
        1 => E214::r#Fifth,
        2 => E214::Six_th(V::<0>::any()),
        3 => E214::Z(V::<1>::any()),
        _ => E214::First(V::<0>::any()),
    };
    enumeration(ty::<E214>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E215 {
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[serde(skip)] V<0>),
    Six_th(#[opg("text")] V<0>, #[opg("text")] V<1>),
    Z,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First,
    #[serde(skip)]
    SecondOne(#[opg(nullable)] V<0>, #[serde(skip_deserializing)] V<1>),
}
fn e215() {
    tag("E215");
    let all = [j(&E215::r#Fifth(V::<0>::default())), j(&E215::Six_th(V::<0>::default(), V::<1>::default())), j(&E215::Z), j(&E215::First)];
    let v = match choose(4) {
        0 => E215::r#Fifth(V::<0>::any()),
        1 => E215::Six_th(V::<0>::any(), V::<1>::any()),
        2 => E215::Z,
        _ => E215::First,
    };
    enumeration(ty::<E215>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E216 {
    #[opg(inline)]
    Six_th(V<0>, #[opg(nullable)] V<1>, #[opg("text")] V<2>),
    Z(#[opg(inline)] V<0>, #[opg("text")] V<1>, V<2>),
    #[serde(rename = "re-Named")]
    First(V<0>, #[serde(skip)] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
}
fn e216() {
    tag("E216");
    let all = [j(&E216::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E216::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E216::First(V::<0>::default(), V::<1>::default())), j(&E216::SecondOne)];
    let v = match choose(4) {
        0 => E216::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E216::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E216::First(V::<0>::any(), V::<1>::any()),
        _ => E216::SecondOne,
    };
    enumeration(ty::<E216>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E217 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#fn: V<0>,
        first_one: V<1>,
    },
    First {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] is_ok: V<0>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(V<0>, #[serde(skip_deserializing)] V<1>, V<2>),
    #[serde(skip)]
    HTTPThird {
        #[opg(optional)] first_one: V<0>,
        _lead: V<1>,
        #[serde(default)] tail_: V<2>,
    },
}
fn e217() {
    tag("E217");
    let all = [j(&E217::Z { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E217::First { is_ok: V::<0>::default() }), j(&E217::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E217::Z { r#fn: V::<0>::maybe(), first_one: V::<1>::any() },
        1 => E217::First { is_ok: V::<0>::any() },
        _ => E217::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E217>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true]), Mask::Fields(&[true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E218 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[serde(skip_serializing)] V<0>),
    SecondOne,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[opg(nullable)] V<0>, #[serde(skip)] V<1>, #[opg(inline)] V<2>),
}
fn e218() {
    tag("E218");
    let all = [j(&E218::First(V::<0>::default())), j(&E218::SecondOne), j(&E218::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E218::First(V::<0>::any()),
        1 => E218::SecondOne,
        _ => E218::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E218>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E219 {
    SecondOne {
        #[opg("text", format = "f", example = "e", nullable, inline)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    HTTPThird(#[serde(default)] V<1>),
    #[serde(skip)]
    X4th {
    },
}
fn e219() {
    tag("E219");
    let all = [j(&E219::SecondOne { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E219::HTTPThird(V::<1>::default()))];
    let v = match choose(2) {
        0 => E219::SecondOne { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        _ => E219::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E219>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E220 {
    #[serde(rename = "re-Named")]
    HTTPThird(#[serde(skip_serializing)] V<0>),
    X4th(V<1>),
    #[serde(skip_serializing)]
    r#Fifth,
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th,
}
fn e220() {
    tag("E220");
    let all = [j(&E220::HTTPThird(V::<0>::default())), j(&E220::X4th(V::<1>::default())), j(&E220::Six_th)];
    let v = match choose(3) {
        0 => E220::HTTPThird(V::<0>::any()),
        1 => E220::X4th(V::<1>::any()),
        _ => E220::Six_th,
    };
    enumeration(ty::<E220>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E221 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th {
        #[serde(skip_serializing)] #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] r#fn: V<2>,
    },
    r#Fifth,
    #[serde(skip_deserializing)]
    Six_th(#[opg(inline)] V<0>),
    #[opg(inline)]
    Z(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
        #[serde(skip_serializing)] x__y: V<0>,
        is_ok: V<1>,
        #[opg(inline)] second: V<2>,
    },
}
fn e221() {
    tag("E221");
    let all = [j(&E221::X4th { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() }), j(&E221::r#Fifth), j(&E221::Six_th(V::<0>::default())), j(&E221::Z(V::<1>::default())), j(&E221::First { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() })];
    let v = match choose(5) {
        0 => E221::X4th { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() },
        1 => E221::r#Fifth,
        2 => E221::Six_th(V::<0>::any()),
        3 => E221::Z(V::<1>::any()),
        _ => E221::First { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
    };
    enumeration(ty::<E221>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E222 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth,
    Six_th(#[opg(nullable)] V<0>, #[opg(inline)] V<1>, #[opg(inline)] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
        #[opg(inline)] x__y: V<0>,
        is_ok: V<1>,
    },
    SecondOne,
}
fn e222() {
    tag("E222");
    let all = [j(&E222::r#Fifth), j(&E222::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E222::Z {  }), j(&E222::First { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E222::SecondOne)];
    let v = match choose(5) {
        0 => E222::r#Fifth,
        1 => E222::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E222::Z {  },
        3 => E222::First { x__y: V::<0>::any(), is_ok: V::<1>::any() },
        _ => E222::SecondOne,
    };
    enumeration(ty::<E222>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E223 {
    #[serde(skip)]
    Six_th(#[serde(skip)] V<0>),
    Z {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] a1_b2: V<0>,
        r#fn: V<1>,
        #[opg(inline)] first_one: V<2>,
    },
    #[opg(inline)]
    First(#[opg(inline)] V<0>),
}
fn e223() {
    tag("E223");
    let all = [j(&E223::Z { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E223::First(V::<0>::default()))];
    let v = match choose(2) {
        0 => E223::Z { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        _ => E223::First(V::<0>::any()),
    };
    enumeration(ty::<E223>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E224 {
    #[serde(skip_serializing)]
    Z(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>),
    First(#[serde(skip_serializing)] V<0>, #[opg(nullable)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(#[opg(nullable)] V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
    HTTPThird {
        #[opg(inline)] r#fn: V<0>,
        first_one: V<1>,
        #[serde(skip_deserializing)] _lead: V<2>,
    },
}
fn e224() {
    tag("E224");
    let all = [j(&E224::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E224::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E224::HTTPThird { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() })];
    let v = match choose(3) {
        0 => E224::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E224::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E224::HTTPThird { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() },
    };
    enumeration(ty::<E224>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Tuple, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E225 {
    #[serde(skip_deserializing)]
    First(#[serde(skip)] V<0>),
    SecondOne {
        #[serde(rename = "x-Y")] tail_: V<0>,
        deep_er_name: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
    },
    #[serde(rename = "re-Named")]
    X4th {
        #[serde(skip_deserializing)] is_ok: V<0>,
        second: V<1>,
        #[serde(skip_serializing)] #[opg(optional)] a1_b2: V<2>,
    },
}
fn e225() {
    tag("E225");
    let all = [j(&E225::First(V::<0>::default())), j(&E225::SecondOne { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E225::HTTPThird {  }), j(&E225::X4th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() })];
    let v = match choose(4) {
        0 => E225::First(V::<0>::any()),
        1 => E225::SecondOne { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        2 => E225::HTTPThird {  },
        _ => E225::X4th { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
    };
    enumeration(ty::<E225>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Fields(&[]), Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E226 {
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne,
    HTTPThird(#[serde(default)] V<1>),
    X4th {
        #[serde(skip_deserializing)] is_ok: V<0>,
        second: V<1>,
        #[serde(rename = "x-Y")] a1_b2: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(V<1>),
    #[serde(skip)]
    Six_th(V<0>),
}
fn e226() {
    tag("E226");
    let all = [j(&E226::SecondOne), j(&E226::HTTPThird(V::<1>::default())), j(&E226::X4th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E226::r#Fifth(V::<1>::default()))];
    let v = match choose(4) {
        0 => E226::SecondOne,
        1 => E226::HTTPThird(V::<1>::any()),
        2 => E226::X4th { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        _ => E226::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E226>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E227 {
    #[opg(inline)]
    HTTPThird {
        r#fn: V<0>,
        first_one: V<1>,
    },
    X4th(V<0>, #[serde(skip_serializing)] V<1>, V<2>),
    #[serde(rename = "re-Named")]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
    },
}
fn e227() {
    tag("E227");
    let all = [j(&E227::HTTPThird { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E227::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E227::r#Fifth), j(&E227::Six_th {  })];
    let v = match choose(4) {
        0 => E227::HTTPThird { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        1 => E227::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E227::r#Fifth,
        _ => E227::Six_th {  },
    };
    enumeration(ty::<E227>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Tuple, Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E228 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[serde(skip_serializing)] V<0>),
    r#Fifth,
}
fn e228() {
    tag("E228");
    let all = [j(&E228::X4th(V::<0>::default())), j(&E228::r#Fifth)];
    let v = match choose(2) {
        0 => E228::X4th(V::<0>::any()),
        _ => E228::r#Fifth,
    };
    enumeration(ty::<E228>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E229 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
        deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(alias = "other")] #[opg(inline, optional)] x__y: V<2>,
    },
    Six_th(#[opg(inline)] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
    #[serde(skip_serializing)]
    First {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] r#type: V<0>,
    },
}
fn e229() {
    tag("E229");
    let all = [j(&E229::r#Fifth { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E229::Six_th(V::<1>::default())), j(&E229::Z)];
    let v = match choose(3) {
        0 => E229::r#Fifth { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        1 => E229::Six_th(V::<1>::any()),
        _ => E229::Z,
    };
    enumeration(ty::<E229>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, false]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E230 {
    Six_th(#[serde(skip_serializing)] V<0>),
    Z {
        second: V<0>,
    },
}
fn e230() {
    tag("E230");
    let all = [j(&E230::Six_th(V::<0>::default())), j(&E230::Z { second: V::<0>::default() })];
    let v = match choose(2) {
        0 => E230::Six_th(V::<0>::any()),
        _ => E230::Z { second: V::<0>::any() },
    };
    enumeration(ty::<E230>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E231 {
    #[serde(rename = "re-Named")]
    Z(#[opg(inline)] V<0>),
    First {
        #[serde(default)] r#type: V<0>,
        x__y: V<1>,
    },
}
fn e231() {
    tag("E231");
    let all = [j(&E231::Z(V::<0>::default())), j(&E231::First { r#type: V::<0>::default(), x__y: V::<1>::default() })];
    let v = match choose(2) {
        0 => E231::Z(V::<0>::any()),
        _ => E231::First { r#type: V::<0>::any(), x__y: V::<1>::any() },
    };
    enumeration(ty::<E231>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E232 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<0>,
        x__y: V<1>,
    },
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird,
}
fn e232() {
    tag("E232");
    let all = [j(&E232::First { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E232::SecondOne), j(&E232::HTTPThird)];
    let v = match choose(3) {
        0 => E232::First { r#type: V::<0>::maybe(), x__y: V::<1>::any() },
        1 => E232::SecondOne,
        _ => E232::HTTPThird,
    };
    enumeration(ty::<E232>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E233 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[serde(skip)] V<0>),
    HTTPThird {
        #[serde(alias = "other")] #[opg(inline, optional)] a1_b2: V<0>,
        r#fn: V<1>,
        #[opg(optional)] first_one: V<2>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[opg(inline)] V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
        #[opg(inline)] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<2>,
    },
}
fn e233() {
    tag("E233");
    let all = [j(&E233::SecondOne(V::<0>::default())), j(&E233::HTTPThird { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E233::X4th(V::<0>::default())), j(&E233::r#Fifth { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() })];
    let v = match choose(4) {
        0 => E233::SecondOne(V::<0>::any()),
        1 => E233::HTTPThird { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        2 => E233::X4th(V::<0>::any()),
        _ => E233::r#Fifth { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::maybe() },
    };
    enumeration(ty::<E233>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[false, true, false]), Mask::Other, Mask::Fields(&[true, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E234 {
    #[serde(skip)]
    HTTPThird,
    X4th(V<1>),
    #[opg(inline)]
    r#Fifth {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] tail_: V<0>,
        deep_er_name: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th,
}
fn e234() {
    tag("E234");
    let all = [j(&E234::X4th(V::<1>::default())), j(&E234::r#Fifth { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E234::Six_th)];
    let v = match choose(3) {
        0 => E234::X4th(V::<1>::any()),
        1 => E234::r#Fifth { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any() },
        _ => E234::Six_th,
    };
    enumeration(ty::<E234>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E235 {
    #[serde(skip_serializing)]
    X4th(#[serde(skip)] V<0>),
    r#Fifth {
        #[opg(inline)] tail_: V<0>,
        deep_er_name: V<1>,
        r#type: V<2>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(V<0>, #[opg(inline)] V<1>),
    Z,
}
fn e235() {
    tag("E235");
    let all = [j(&E235::r#Fifth { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E235::Six_th(V::<0>::default(), V::<1>::default())), j(&E235::Z)];
    let v = match choose(3) {
        0 => E235::r#Fifth { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
        1 => E235::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E235::Z,
    };
    enumeration(ty::<E235>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E236 {
    #[serde(skip_deserializing)]
    r#Fifth(#[opg(inline)] V<0>),
    Six_th(V<0>, V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z {
        #[opg(optional)] is_ok: V<0>,
    },
    #[serde(rename = "re-Named")]
    First(#[opg(nullable)] V<0>, #[opg(nullable)] V<1>),
}
fn e236() {
    tag("E236");
    let all = [j(&E236::r#Fifth(V::<0>::default())), j(&E236::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E236::Z { is_ok: V::<0>::default() }), j(&E236::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E236::r#Fifth(V::<0>::any()),
        1 => E236::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E236::Z { is_ok: V::<0>::any() },
        _ => E236::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E236>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[false]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E237 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(V<0>, V<1>),
    Z,
    First(#[serde(default)] V<0>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[opg(inline)] V<1>),
}
fn e237() {
    tag("E237");
    let all = [j(&E237::Six_th(V::<0>::default(), V::<1>::default())), j(&E237::Z), j(&E237::First(V::<0>::default())), j(&E237::SecondOne(V::<1>::default()))];
    let v = match choose(4) {
        0 => E237::Six_th(V::<0>::any(), V::<1>::any()),
        1 => E237::Z,
        2 => E237::First(V::<0>::any()),
        _ => E237::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E237>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E238 {
    #[opg(inline)]
    Z(#[serde(skip_serializing)] V<0>),
    First {
    },
    #[serde(rename = "re-Named")]
    SecondOne(#[opg(nullable)] V<0>, V<1>, #[serde(skip_deserializing)] V<2>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[opg(nullable)] V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip_deserializing)] V<2>),
    #[serde(skip_serializing)]
    X4th(V<0>),
}
fn e238() {
    tag("E238");
    let all = [j(&E238::Z(V::<0>::default())), j(&E238::First {  }), j(&E238::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E238::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E238::Z(V::<0>::any()),
        1 => E238::First {  },
        2 => E238::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E238::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E238>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E239 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
        #[serde(skip_serializing)] deep_er_name: V<0>,
        r#type: V<1>,
        #[opg(optional)] x__y: V<2>,
    },
    SecondOne(V<0>, #[opg(nullable)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        #[serde(skip_serializing)] #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
    },
}
fn e239() {
    tag("E239");
    let all = [j(&E239::First { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E239::SecondOne(V::<0>::default(), V::<1>::default())), j(&E239::HTTPThird { second: V::<0>::default(), a1_b2: V::<1>::default() })];
    let v = match choose(3) {
        0 => E239::First { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        1 => E239::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E239::HTTPThird { second: V::<0>::any(), a1_b2: V::<1>::any() },
    };
    enumeration(ty::<E239>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, false]), Mask::Tuple, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E240 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[serde(skip_serializing)] V<0>),
    HTTPThird(V<0>, #[serde(skip_deserializing)] V<1>, V<2>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
    #[serde(skip_serializing)]
    r#Fifth(#[opg(inline)] V<1>),
}
fn e240() {
    tag("E240");
    let all = [j(&E240::SecondOne(V::<0>::default())), j(&E240::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E240::X4th)];
    let v = match choose(3) {
        0 => E240::SecondOne(V::<0>::any()),
        1 => E240::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E240::X4th,
    };
    enumeration(ty::<E240>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E241 {
    HTTPThird,
    X4th {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] r#type: V<0>,
        x__y: V<1>,
    },
    #[serde(skip)]
    r#Fifth {
        #[opg(inline)] _lead: V<0>,
        tail_: V<1>,
    },
    #[serde(skip_deserializing)]
    Six_th {
        a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(rename = "x-Y")] first_one: V<2>,
    },
}
fn e241() {
    tag("E241");
    let all = [j(&E241::HTTPThird), j(&E241::X4th { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E241::Six_th { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() })];
    let v = match choose(3) {
        0 => E241::HTTPThird,
        1 => E241::X4th { r#type: V::<0>::any(), x__y: V::<1>::any() },
        _ => E241::Six_th { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
    };
    enumeration(ty::<E241>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true, true]), Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E242 {
    #[serde(rename = "re-Named")]
    X4th,
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th {
        #[serde(alias = "other")] #[opg(inline, optional)] a1_b2: V<0>,
        r#fn: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(#[serde(skip_deserializing)] V<0>, #[serde(skip)] V<1>),
}
fn e242() {
    tag("E242");
    let all = [j(&E242::X4th), j(&E242::r#Fifth), j(&E242::Z(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E242::X4th,
        1 => E242::r#Fifth,
        _ => E242::Z(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E242>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E243 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[serde(skip)] V<0>),
    Six_th(#[opg(inline)] V<1>),
    #[serde(skip_deserializing)]
    Z(#[opg(inline)] V<0>),
    #[opg(inline)]
    First(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(V<0>),
}
fn e243() {
    tag("E243");
    let all = [j(&E243::r#Fifth(V::<0>::default())), j(&E243::Six_th(V::<1>::default())), j(&E243::Z(V::<0>::default())), j(&E243::First(V::<1>::default())), j(&E243::SecondOne(V::<0>::default()))];
    let v = match choose(5) {
        0 => E243::r#Fifth(V::<0>::any()),
        1 => E243::Six_th(V::<1>::any()),
        2 => E243::Z(V::<0>::any()),
        3 => E243::First(V::<1>::any()),
        _ => E243::SecondOne(V::<0>::any()),
    };
    enumeration(ty::<E243>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E244 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[serde(skip_serializing)] V<0>, V<1>),
    Z {
    },
}
fn e244() {
    tag("E244");
    let all = [j(&E244::Six_th(V::<0>::default(), V::<1>::default())), j(&E244::Z {  })];
    let v = match choose(2) {
        0 => E244::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E244::Z {  },
    };
    enumeration(ty::<E244>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E245 {
    #[serde(skip)]
    Z(#[serde(skip)] V<0>),
    First {
        #[serde(skip_deserializing)] tail_: V<0>,
        deep_er_name: V<1>,
        #[opg(optional)] r#type: V<2>,
    },
}
fn e245() {
    tag("E245");
    let all = [j(&E245::First { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() })];
    let v = match choose(1) {
        _ => E245::First { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
    };
    enumeration(ty::<E245>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E246 {
    #[serde(skip_serializing)]
    First {
        #[serde(skip_serializing)] #[opg(optional)] tail_: V<0>,
        deep_er_name: V<1>,
    },
    SecondOne,
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] is_ok: V<0>,
    },
    X4th,
}
fn e246() {
    tag("E246");
    let all = [j(&E246::SecondOne), j(&E246::HTTPThird { is_ok: V::<0>::default() }), j(&E246::X4th)];
    let v = match choose(3) {
        0 => E246::SecondOne,
        1 => E246::HTTPThird { is_ok: V::<0>::maybe() },
        _ => E246::X4th,
    };
    enumeration(ty::<E246>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E247 {
    #[serde(skip_deserializing)]
    SecondOne(#[serde(default)] V<0>),
    HTTPThird {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] is_ok: V<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(V<0>),
}
fn e247() {
    tag("E247");
    let all = [j(&E247::SecondOne(V::<0>::default())), j(&E247::HTTPThird { is_ok: V::<0>::default() }), j(&E247::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E247::SecondOne(V::<0>::any()),
        1 => E247::HTTPThird { is_ok: V::<0>::any() },
        _ => E247::X4th(V::<0>::any()),
    };
    enumeration(ty::<E247>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E248 {
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(skip_serializing)] V<0>),
    X4th,
    r#Fifth {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] first_one: V<0>,
        _lead: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[opg(inline)] V<1>),
    #[serde(skip)]
    Z {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<0>,
    },
}
fn e248() {
    tag("E248");
    let all = [j(&E248::HTTPThird(V::<0>::default())), j(&E248::X4th), j(&E248::r#Fifth { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E248::Six_th(V::<1>::default()))];
    let v = match choose(4) {
        0 => E248::HTTPThird(V::<0>::any()),
        1 => E248::X4th,
        2 => E248::r#Fifth { first_one: V::<0>::any(), _lead: V::<1>::any() },
        _ => E248::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E248>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E249 {
    #[opg(inline)]
    X4th(#[serde(default)] V<0>),
    r#Fifth,
}
fn e249() {
    tag("E249");
    let all = [j(&E249::X4th(V::<0>::default())), j(&E249::r#Fifth)];
    let v = match choose(2) {
        0 => E249::X4th(V::<0>::any()),
        _ => E249::r#Fifth,
    };
    enumeration(ty::<E249>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E250 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[serde(skip_serializing)] V<0>),
    Six_th(#[opg(inline)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z,
    #[serde(skip)]
    First,
    #[serde(skip_deserializing)]
    SecondOne(V<0>),
}
fn e250() {
    tag("E250");
    let all = [j(&E250::r#Fifth(V::<0>::default())), j(&E250::Six_th(V::<1>::default())), j(&E250::Z), j(&E250::SecondOne(V::<0>::default()))];
    let v = match choose(4) {
        0 => E250::r#Fifth(V::<0>::any()),
        1 => E250::Six_th(V::<1>::any()),
        2 => E250::Z,
        _ => E250::SecondOne(V::<0>::any()),
    };
    enumeration(ty::<E250>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E251 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(V<0>, #[opg(nullable)] V<1>, #[opg(nullable)] V<2>),
    Z,
}
fn e251() {
    tag("E251");
    let all = [j(&E251::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E251::Z)];
    let v = match choose(2) {
        0 => E251::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E251::Z,
    };
    enumeration(ty::<E251>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E252 {
    Z(V<0>, #[opg(inline)] V<1>, #[serde(skip_deserializing)] V<2>),
    First(#[serde(default)] V<1>),
}
fn e252() {
    tag("E252");
    let all = [j(&E252::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E252::First(V::<1>::default()))];
    let v = match choose(2) {
        0 => E252::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E252::First(V::<1>::any()),
    };
    enumeration(ty::<E252>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E253 {
    #[serde(rename = "re-Named")]
    First(#[serde(skip)] V<0>),
    SecondOne,
    #[serde(skip_serializing)]
    HTTPThird(V<0>, #[serde(skip)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(V<1>),
}
fn e253() {
    tag("E253");
    let all = [j(&E253::First(V::<0>::default())), j(&E253::SecondOne), j(&E253::X4th(V::<1>::default()))];
    let v = match choose(3) {
        0 => E253::First(V::<0>::any()),
        1 => E253::SecondOne,
        _ => E253::X4th(V::<1>::any()),
    };
    enumeration(ty::<E253>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E254 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[serde(default)] V<0>),
    HTTPThird {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] x__y: V<0>,
        is_ok: V<1>,
        #[opg(nullable)] second: V<2>,
    },
    #[serde(skip_deserializing)]
    X4th(#[opg(inline)] V<0>),
    #[opg(inline)]
    r#Fifth {
        #[opg(nullable)] r#fn: V<0>,
        first_one: V<1>,
    },
}
fn e254() {
    tag("E254");
    let all = [j(&E254::SecondOne(V::<0>::default())), j(&E254::HTTPThird { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() }), j(&E254::X4th(V::<0>::default())), j(&E254::r#Fifth { r#fn: V::<0>::default(), first_one: V::<1>::default() })];
    let v = match choose(4) {
        0 => E254::SecondOne(V::<0>::any()),
        1 => E254::HTTPThird { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() },
        2 => E254::X4th(V::<0>::any()),
        _ => E254::r#Fifth { r#fn: V::<0>::any(), first_one: V::<1>::any() },
    };
    enumeration(ty::<E254>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E255 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[serde(skip)] V<0>),
    X4th(V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[serde(default)] V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(#[serde(default)] V<1>),
}
fn e255() {
    tag("E255");
    let all = [j(&E255::HTTPThird(V::<0>::default())), j(&E255::X4th(V::<1>::default())), j(&E255::r#Fifth(V::<0>::default())), j(&E255::Six_th(V::<1>::default()))];
    let v = match choose(4) {
        0 => E255::HTTPThird(V::<0>::any()),
        1 => E255::X4th(V::<1>::any()),
        2 => E255::r#Fifth(V::<0>::any()),
        _ => E255::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E255>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E256 {
    #[serde(skip)]
    X4th(#[serde(default)] V<0>),
    r#Fifth {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] r#fn: V<0>,
    },
    #[opg(inline)]
    Six_th(V<0>),
}
fn e256() {
    tag("E256");
    let all = [j(&E256::r#Fifth { r#fn: V::<0>::default() }), j(&E256::Six_th(V::<0>::default()))];
    let v = match choose(2) {
        0 => E256::r#Fifth { r#fn: V::<0>::any() },
        _ => E256::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E256>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E257 {
    #[serde(skip_serializing)]
    r#Fifth(#[serde(default)] V<0>),
    Six_th(#[serde(skip)] V<0>, V<1>, #[opg("text")] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[opg(nullable)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    First,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
        second: V<0>,
    },
}
fn e257() {
    tag("E257");
    let all = [j(&E257::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E257::Z { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E257::First), j(&E257::SecondOne { second: V::<0>::default() })];
    let v = match choose(4) {
        0 => E257::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E257::Z { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        2 => E257::First,
        _ => E257::SecondOne { second: V::<0>::any() },
    };
    enumeration(ty::<E257>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E258 {
    #[serde(skip_deserializing)]
    Six_th(#[serde(skip_serializing)] V<0>),
    Z(V<0>, #[serde(skip)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] first_one: V<0>,
        _lead: V<1>,
        #[opg(nullable)] tail_: V<2>,
    },
    #[serde(rename = "re-Named")]
    SecondOne {
        #[serde(rename(deserialize = "dE"))] second: V<0>,
        a1_b2: V<1>,
    },
}
fn e258() {
    tag("E258");
    let all = [j(&E258::Six_th(V::<0>::default())), j(&E258::Z(V::<0>::default(), V::<1>::default())), j(&E258::First { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() }), j(&E258::SecondOne { second: V::<0>::default(), a1_b2: V::<1>::default() })];
    let v = match choose(4) {
        0 => E258::Six_th(V::<0>::any()),
        1 => E258::Z(V::<0>::any(), V::<1>::any()),
        2 => E258::First { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::any() },
        _ => E258::SecondOne { second: V::<0>::any(), a1_b2: V::<1>::any() },
    };
    enumeration(ty::<E258>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[false, true, true]), Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E259 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
        #[opg(optional)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    First {
    },
    SecondOne(V<0>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(#[serde(default)] V<1>),
}
fn e259() {
    tag("E259");
    let all = [j(&E259::Z { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E259::First {  }), j(&E259::SecondOne(V::<0>::default())), j(&E259::HTTPThird(V::<1>::default()))];
    let v = match choose(4) {
        0 => E259::Z { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        1 => E259::First {  },
        2 => E259::SecondOne(V::<0>::any()),
        _ => E259::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E259>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true]), Mask::Fields(&[]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E260 {
    #[opg(inline)]
    First(#[serde(skip_serializing)] V<0>),
    SecondOne(V<0>, #[serde(skip_deserializing)] V<1>),
    #[serde(rename = "re-Named")]
    HTTPThird {
        #[serde(skip_deserializing)] r#type: V<0>,
        x__y: V<1>,
        #[serde(default)] is_ok: V<2>,
    },
}
fn e260() {
    tag("E260");
    let all = [j(&E260::First(V::<0>::default())), j(&E260::SecondOne(V::<0>::default(), V::<1>::default())), j(&E260::HTTPThird { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() })];
    let v = match choose(3) {
        0 => E260::First(V::<0>::any()),
        1 => E260::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E260::HTTPThird { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
    };
    enumeration(ty::<E260>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E261 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    HTTPThird(#[serde(default)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th,
    #[serde(skip)]
    r#Fifth {
    },
    #[serde(skip_deserializing)]
    Six_th(V<0>, #[opg(inline)] V<1>, #[serde(skip_deserializing)] V<2>),
}
fn e261() {
    tag("E261");
    let all = [j(&E261::SecondOne), j(&E261::HTTPThird(V::<1>::default())), j(&E261::X4th), j(&E261::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E261::SecondOne,
        1 => E261::HTTPThird(V::<1>::any()),
        2 => E261::X4th,
        _ => E261::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E261>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E262 {
    First {
        #[serde(rename(deserialize = "dE"))] r#type: V<0>,
        x__y: V<1>,
        #[serde(alias = "other")] #[opg(inline, optional)] is_ok: V<2>,
    },
    SecondOne(V<1>),
}
fn e262() {
    tag("E262");
    let all = [j(&E262::First { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E262::SecondOne(V::<1>::default()))];
    let v = match choose(2) {
        0 => E262::First { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
        _ => E262::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E262>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E263 {
    #[serde(rename = "re-Named")]
    SecondOne(#[serde(skip_serializing)] V<0>),
    HTTPThird,
    #[serde(skip_serializing)]
    X4th(V<0>),
}
fn e263() {
    tag("E263");
    let all = [j(&E263::SecondOne(V::<0>::default())), j(&E263::HTTPThird)];
    let v = match choose(2) {
        0 => E263::SecondOne(V::<0>::any()),
        _ => E263::HTTPThird,
    };
    enumeration(ty::<E263>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E264 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
    X4th {
        #[serde(alias = "other")] #[opg(inline, optional)] x__y: V<0>,
        is_ok: V<1>,
    },
    #[serde(skip_deserializing)]
    r#Fifth,
    #[opg(inline)]
    Six_th(#[opg(inline)] V<1>),
}
fn e264() {
    tag("E264");
    let all = [j(&E264::HTTPThird), j(&E264::X4th { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E264::r#Fifth), j(&E264::Six_th(V::<1>::default()))];
    let v = match choose(4) {
        0 => E264::HTTPThird,
        1 => E264::X4th { x__y: V::<0>::any(), is_ok: V::<1>::any() },
        2 => E264::r#Fifth,
        _ => E264::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E264>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E265 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[serde(skip_serializing)] V<0>),
    r#Fifth(#[serde(default)] V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(V<0>, #[opg(nullable)] V<1>, #[opg("text")] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[opg(nullable)] is_ok: V<0>,
        second: V<1>,
    },
}
fn e265() {
    tag("E265");
    let all = [j(&E265::X4th(V::<0>::default())), j(&E265::r#Fifth(V::<1>::default())), j(&E265::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E265::Z { is_ok: V::<0>::default(), second: V::<1>::default() })];
    let v = match choose(4) {
        0 => E265::X4th(V::<0>::any()),
        1 => E265::r#Fifth(V::<1>::any()),
        2 => E265::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E265::Z { is_ok: V::<0>::any(), second: V::<1>::any() },
    };
    enumeration(ty::<E265>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Tuple, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E266 {
    #[serde(skip)]
    r#Fifth(#[serde(default)] V<0>),
    Six_th {
        #[serde(skip_serializing_if = "gone")] r#fn: V<0>,
        first_one: V<1>,
    },
    #[opg(inline)]
    Z,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
        #[serde(rename = "x-Y")] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(default)] x__y: V<2>,
    },
}
fn e266() {
    tag("E266");
    let all = [j(&E266::Six_th { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E266::Z), j(&E266::First { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() })];
    let v = match choose(3) {
        0 => E266::Six_th { r#fn: V::<0>::maybe(), first_one: V::<1>::any() },
        1 => E266::Z,
        _ => E266::First { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
    };
    enumeration(ty::<E266>(), Repr::Untagged, &all, &[Mask::Fields(&[false, true]), Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E267 {
    #[serde(skip_serializing)]
    Six_th(V<0>, #[serde(skip_deserializing)] V<1>),
    Z {
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
    SecondOne(V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip)] V<2>),
}
fn e267() {
    tag("E267");
    let all = [j(&E267::Z {  }), j(&E267::First), j(&E267::SecondOne(V::<1>::default())), j(&E267::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E267::Z {  },
        1 => E267::First,
        2 => E267::SecondOne(V::<1>::any()),
        _ => E267::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E267>(), Repr::Untagged, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E268 {
    #[serde(skip_deserializing)]
    Z(#[serde(skip)] V<0>),
    First,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne {
        #[opg(nullable)] first_one: V<0>,
        _lead: V<1>,
    },
    #[serde(rename = "re-Named")]
    HTTPThird(#[serde(skip_serializing)] V<0>, #[serde(skip)] V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[opg(nullable)] V<0>, #[opg(inline)] V<1>),
}
fn e268() {
    tag("E268");
    let all = [j(&E268::Z(V::<0>::default())), j(&E268::First), j(&E268::SecondOne { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E268::HTTPThird(V::<0>::default(), V::<1>::default())), j(&E268::X4th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(5) {
        0 => E268::Z(V::<0>::any()),
        1 => E268::First,
        2 => E268::SecondOne { first_one: V::<0>::any(), _lead: V::<1>::any() },
        3 => E268::HTTPThird(V::<0>::any(), V::<1>::any()),
        _ => E268::X4th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E268>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E269 {
    #[serde(alias = "ali")]
    #[opg("text")]
    First(#[serde(default)] V<0>),
    SecondOne(V<0>, #[serde(skip_deserializing)] V<1>, #[opg(inline)] V<2>),
    HTTPThird(V<0>, #[serde(skip)] V<1>, #[serde(skip)] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th,
}
fn e269() {
    tag("E269");
    let all = [j(&E269::First(V::<0>::default())), j(&E269::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E269::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E269::X4th)];
    let v = match choose(4) {
        0 => E269::First(V::<0>::any()),
        1 => E269::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        2 => E269::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E269::X4th,
    };
    enumeration(ty::<E269>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E270 {
    #[opg(inline)]
    SecondOne(#[serde(skip)] V<0>),
    HTTPThird {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] second: V<0>,
        a1_b2: V<1>,
    },
    #[serde(rename = "re-Named")]
    X4th(V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip)] V<2>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth {
        #[serde(skip_serializing)] _lead: V<0>,
        tail_: V<1>,
        #[opg("text", format = "f", example = "e", nullable, inline)] deep_er_name: V<2>,
    },
    #[serde(skip_serializing)]
    Six_th(#[opg(inline)] V<0>, #[opg("text")] V<1>, #[opg(inline)] V<2>),
}
fn e270() {
    tag("E270");
    let all = [j(&E270::SecondOne(V::<0>::default())), j(&E270::HTTPThird { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E270::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E270::r#Fifth { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() })];
    let v = match choose(4) {
        0 => E270::SecondOne(V::<0>::any()),
        1 => E270::HTTPThird { second: V::<0>::maybe(), a1_b2: V::<1>::any() },
        2 => E270::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E270::r#Fifth { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
    };
    enumeration(ty::<E270>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Tuple, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E271 {
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[opg(nullable)] second: V<0>,
        a1_b2: V<1>,
    },
    X4th(#[opg("text")] V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip)] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[opg(nullable)] V<0>, #[opg(nullable)] V<1>),
    #[serde(skip)]
    Six_th,
}
fn e271() {
    tag("E271");
    let all = [j(&E271::HTTPThird { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E271::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E271::r#Fifth(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E271::HTTPThird { second: V::<0>::any(), a1_b2: V::<1>::any() },
        1 => E271::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E271::r#Fifth(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E271>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E272 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[opg(inline)] V<0>),
    r#Fifth {
        _lead: V<0>,
        tail_: V<1>,
        #[opg("text")] #[serde(default, skip_deserializing)] deep_er_name: V<2>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
        #[serde(skip_serializing)] #[opg(optional)] a1_b2: V<0>,
    },
    #[serde(skip_serializing)]
    Z,
}
fn e272() {
    tag("E272");
    let all = [j(&E272::X4th(V::<0>::default())), j(&E272::r#Fifth { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E272::Six_th { a1_b2: V::<0>::default() })];
    let v = match choose(3) {
        0 => E272::X4th(V::<0>::any()),
        1 => E272::r#Fifth { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E272::Six_th { a1_b2: V::<0>::any() },
    };
    enumeration(ty::<E272>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E273 {
    r#Fifth(#[serde(skip_serializing)] V<0>),
    Six_th(#[serde(skip_serializing)] V<0>, #[serde(skip_serializing)] V<1>, #[serde(skip_deserializing)] V<2>),
    #[serde(skip)]
    Z(V<0>, #[opg(nullable)] V<1>),
    #[serde(skip_deserializing)]
    First,
}
fn e273() {
    tag("E273");
    let all = [j(&E273::r#Fifth(V::<0>::default())), j(&E273::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E273::First)];
    let v = match choose(3) {
        0 => E273::r#Fifth(V::<0>::any()),
        1 => E273::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E273::First,
    };
    enumeration(ty::<E273>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E274 {
    #[serde(rename = "re-Named")]
    Six_th(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
    Z,
    #[serde(skip_serializing)]
    First(V<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne(V<0>, #[opg(nullable)] V<1>),
}
fn e274() {
    tag("E274");
    let all = [j(&E274::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E274::Z), j(&E274::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E274::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E274::Z,
        _ => E274::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E274>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E275 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[serde(skip_serializing)] V<0>),
    First {
        tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(rename = "x-Y")] r#type: V<2>,
    },
    #[serde(skip_deserializing)]
    SecondOne,
    #[opg(inline)]
    HTTPThird(#[serde(skip_deserializing)] V<0>, #[opg(nullable)] V<1>, #[serde(skip_deserializing)] V<2>),
}
fn e275() {
    tag("E275");
    let all = [j(&E275::Z(V::<0>::default())), j(&E275::First { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E275::SecondOne), j(&E275::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E275::Z(V::<0>::any()),
        1 => E275::First { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
        2 => E275::SecondOne,
        _ => E275::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E275>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E276 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First,
    SecondOne,
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird,
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(V<0>, #[serde(skip_deserializing)] V<1>),
    r#Fifth {
    },
}
fn e276() {
    tag("E276");
    let all = [j(&E276::First), j(&E276::SecondOne), j(&E276::HTTPThird), j(&E276::X4th(V::<0>::default(), V::<1>::default())), j(&E276::r#Fifth {  })];
    let v = match choose(5) {
        0 => E276::First,
        1 => E276::SecondOne,
        2 => E276::HTTPThird,
        3 => E276::X4th(V::<0>::any(), V::<1>::any()),
        _ => E276::r#Fifth {  },
    };
    enumeration(ty::<E276>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E277 {
    #[serde(skip)]
    SecondOne(#[serde(skip_deserializing)] V<0>, #[opg(inline)] V<1>),
    HTTPThird(V<1>),
    #[opg(inline)]
    X4th,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth,
}
fn e277() {
    tag("E277");
    let all = [j(&E277::HTTPThird(V::<1>::default())), j(&E277::X4th), j(&E277::r#Fifth)];
    let v = match choose(3) {
        0 => E277::HTTPThird(V::<1>::any()),
        1 => E277::X4th,
        _ => E277::r#Fifth,
    };
    enumeration(ty::<E277>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E278 {
    #[serde(skip_serializing)]
    HTTPThird(#[serde(skip)] V<0>),
    X4th(V<0>, #[serde(skip_deserializing)] V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[serde(skip_serializing)] V<0>, #[serde(skip_serializing)] V<1>),
    Six_th(V<1>),
}
fn e278() {
    tag("E278");
    let all = [j(&E278::X4th(V::<0>::default(), V::<1>::default())), j(&E278::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E278::Six_th(V::<1>::default()))];
    let v = match choose(3) {
        0 => E278::X4th(V::<0>::any(), V::<1>::any()),
        1 => E278::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E278::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E278>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E279 {
    #[serde(skip_deserializing)]
    X4th(V<0>, #[serde(skip_deserializing)] V<1>),
    r#Fifth(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
    #[serde(rename = "re-Named")]
    Z {
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] r#type: V<0>,
        x__y: V<1>,
        #[serde(rename(deserialize = "dE"))] is_ok: V<2>,
    },
}
fn e279() {
    tag("E279");
    let all = [j(&E279::X4th(V::<0>::default(), V::<1>::default())), j(&E279::r#Fifth(V::<1>::default())), j(&E279::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E279::Z { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() })];
    let v = match choose(4) {
        0 => E279::X4th(V::<0>::any(), V::<1>::any()),
        1 => E279::r#Fifth(V::<1>::any()),
        2 => E279::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E279::Z { r#type: V::<0>::maybe(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
    };
    enumeration(ty::<E279>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Tuple, Mask::Fields(&[false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E280 {
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[serde(skip)] V<0>),
    Six_th {
    },
}
fn e280() {
    tag("E280");
    let all = [j(&E280::r#Fifth(V::<0>::default())), j(&E280::Six_th {  })];
    let v = match choose(2) {
        0 => E280::r#Fifth(V::<0>::any()),
        _ => E280::Six_th {  },
    };
    enumeration(ty::<E280>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E281 {
    #[opg(inline)]
    Six_th,
    Z {
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] r#type: V<0>,
    },
    #[serde(rename = "re-Named")]
    First(#[opg(inline)] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[opg(nullable)] V<0>, #[opg("text")] V<1>),
}
fn e281() {
    tag("E281");
    let all = [j(&E281::Six_th), j(&E281::Z { r#type: V::<0>::default() }), j(&E281::First(V::<0>::default())), j(&E281::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E281::Six_th,
        1 => E281::Z { r#type: V::<0>::maybe() },
        2 => E281::First(V::<0>::any()),
        _ => E281::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E281>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[false]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E282 {
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[opg(inline)] V<0>),
    First {
        #[serde(skip)] _lead: V<0>,
        tail_: V<1>,
        #[serde(skip_serializing)] deep_er_name: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
        a1_b2: V<0>,
    },
}
fn e282() {
    tag("E282");
    let all = [j(&E282::Z(V::<0>::default())), j(&E282::First { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E282::SecondOne { a1_b2: V::<0>::default() })];
    let v = match choose(3) {
        0 => E282::Z(V::<0>::any()),
        1 => E282::First { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E282::SecondOne { a1_b2: V::<0>::any() },
    };
    enumeration(ty::<E282>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E283 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[serde(skip_serializing)] V<0>),
    SecondOne,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird,
    #[serde(skip_serializing)]
    X4th {
        tail_: V<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[opg(inline)] V<0>),
}
fn e283() {
    tag("E283");
    let all = [j(&E283::First(V::<0>::default())), j(&E283::SecondOne), j(&E283::HTTPThird), j(&E283::r#Fifth(V::<0>::default()))];
    let v = match choose(4) {
        0 => E283::First(V::<0>::any()),
        1 => E283::SecondOne,
        2 => E283::HTTPThird,
        _ => E283::r#Fifth(V::<0>::any()),
    };
    enumeration(ty::<E283>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E284 {
    SecondOne(V<0>),
    HTTPThird(#[opg("text")] V<0>, V<1>),
    #[serde(skip)]
    X4th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(skip_deserializing)] r#type: V<2>,
    },
    #[serde(skip_deserializing)]
    r#Fifth,
}
fn e284() {
    tag("E284");
    let all = [j(&E284::SecondOne(V::<0>::default())), j(&E284::HTTPThird(V::<0>::default(), V::<1>::default())), j(&E284::r#Fifth)];
    let v = match choose(3) {
        0 => E284::SecondOne(V::<0>::any()),
        1 => E284::HTTPThird(V::<0>::any(), V::<1>::any()),
        _ => E284::r#Fifth,
    };
    enumeration(ty::<E284>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E285 {
    #[serde(rename = "re-Named")]
    HTTPThird(#[serde(skip_serializing)] V<0>),
    X4th,
}
fn e285() {
    tag("E285");
    let all = [j(&E285::HTTPThird(V::<0>::default())), j(&E285::X4th)];
    let v = match choose(2) {
        0 => E285::HTTPThird(V::<0>::any()),
        _ => E285::X4th,
    };
    enumeration(ty::<E285>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E286 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(V<0>),
    r#Fifth(V<1>),
}
fn e286() {
    tag("E286");
    let all = [j(&E286::X4th(V::<0>::default())), j(&E286::r#Fifth(V::<1>::default()))];
    let v = match choose(2) {
        0 => E286::X4th(V::<0>::any()),
        _ => E286::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E286>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E287 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(inline)] V<0>),
    Six_th {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] is_ok: V<0>,
        second: V<1>,
        #[opg(optional)] a1_b2: V<2>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(#[opg(inline)] V<0>, V<1>, #[opg(inline)] V<2>),
}
fn e287() {
    tag("E287");
    let all = [j(&E287::r#Fifth(V::<0>::default())), j(&E287::Six_th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() }), j(&E287::Z(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(3) {
        0 => E287::r#Fifth(V::<0>::any()),
        1 => E287::Six_th { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
        _ => E287::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E287>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, false]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E288 {
    #[serde(skip)]
    Six_th(#[serde(skip)] V<0>),
    Z(#[opg(inline)] V<0>, #[opg("text")] V<1>, #[opg(nullable)] V<2>),
    #[opg(inline)]
    First {
        #[serde(skip_serializing)] first_one: V<0>,
        _lead: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(V<1>),
    #[serde(rename = "re-Named")]
    HTTPThird(#[opg(inline)] V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip_serializing)] V<2>),
}
fn e288() {
    tag("E288");
    let all = [j(&E288::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E288::First { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E288::SecondOne(V::<1>::default())), j(&E288::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E288::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E288::First { first_one: V::<0>::any(), _lead: V::<1>::any() },
        2 => E288::SecondOne(V::<1>::any()),
        _ => E288::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E288>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Fields(&[true]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E289 {
    #[serde(skip_serializing)]
    Z(V<0>, #[opg("text")] V<1>, V<2>),
    First(V<0>, #[serde(skip)] V<1>, #[opg(inline)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(#[opg(inline)] V<0>),
    HTTPThird {
        #[serde(default)] r#type: V<0>,
    },
}
fn e289() {
    tag("E289");
    let all = [j(&E289::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E289::SecondOne(V::<0>::default())), j(&E289::HTTPThird { r#type: V::<0>::default() })];
    let v = match choose(3) {
        0 => E289::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E289::SecondOne(V::<0>::any()),
        _ => E289::HTTPThird { r#type: V::<0>::any() },
    };
    enumeration(ty::<E289>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E290 {
    #[serde(skip_deserializing)]
    First(#[serde(skip)] V<0>),
    SecondOne(#[opg(inline)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(#[serde(default)] V<0>),
}
fn e290() {
    tag("E290");
    let all = [j(&E290::First(V::<0>::default())), j(&E290::SecondOne(V::<1>::default())), j(&E290::HTTPThird(V::<0>::default()))];
    let v = match choose(3) {
        0 => E290::First(V::<0>::any()),
        1 => E290::SecondOne(V::<1>::any()),
        _ => E290::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E290>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E291 {
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne,
    HTTPThird(V<1>),
    X4th(V<0>, #[serde(skip)] V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[opg(inline)] V<1>),
}
fn e291() {
    tag("E291");
    let all = [j(&E291::SecondOne), j(&E291::HTTPThird(V::<1>::default())), j(&E291::X4th(V::<0>::default(), V::<1>::default())), j(&E291::r#Fifth(V::<1>::default()))];
    let v = match choose(4) {
        0 => E291::SecondOne,
        1 => E291::HTTPThird(V::<1>::any()),
        2 => E291::X4th(V::<0>::any(), V::<1>::any()),
        _ => E291::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E291>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E292 {
    #[opg(inline)]
    HTTPThird(V<0>),
    X4th,
    #[serde(rename = "re-Named")]
    r#Fifth(#[serde(default)] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(V<0>, #[opg(inline)] V<1>),
}
fn e292() {
    tag("E292");
    let all = [j(&E292::HTTPThird(V::<0>::default())), j(&E292::X4th), j(&E292::r#Fifth(V::<0>::default())), j(&E292::Six_th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(4) {
        0 => E292::HTTPThird(V::<0>::any()),
        1 => E292::X4th,
        2 => E292::r#Fifth(V::<0>::any()),
        _ => E292::Six_th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E292>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E293 {
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[serde(skip_serializing)] V<0>),
    r#Fifth(V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
        #[opg(nullable)] x__y: V<0>,
        is_ok: V<1>,
    },
}
fn e293() {
    tag("E293");
    let all = [j(&E293::X4th(V::<0>::default())), j(&E293::r#Fifth(V::<1>::default())), j(&E293::Six_th { x__y: V::<0>::default(), is_ok: V::<1>::default() })];
    let v = match choose(3) {
        0 => E293::X4th(V::<0>::any()),
        1 => E293::r#Fifth(V::<1>::any()),
        _ => E293::Six_th { x__y: V::<0>::any(), is_ok: V::<1>::any() },
    };
    enumeration(ty::<E293>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E294 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
    },
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        #[serde(skip_serializing)] tail_: V<0>,
    },
    #[serde(skip_serializing)]
    First {
        #[serde(rename(serialize = "sE", deserialize = "dE"))] r#fn: V<0>,
        first_one: V<1>,
        #[opg("text", format = "f", example = "e", nullable, inline)] _lead: V<2>,
    },
}
fn e294() {
    tag("E294");
    let all = [j(&E294::r#Fifth {  }), j(&E294::Six_th), j(&E294::Z { tail_: V::<0>::default() })];
    let v = match choose(3) {
        0 => E294::r#Fifth {  },
        1 => E294::Six_th,
        _ => E294::Z { tail_: V::<0>::any() },
    };
    enumeration(ty::<E294>(), Repr::Untagged, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E295 {
    Six_th(#[serde(skip_serializing)] V<0>),
    Z(V<0>, #[serde(skip)] V<1>, #[opg(nullable)] V<2>),
    #[serde(skip)]
    First(V<0>, #[opg(inline)] V<1>),
    #[serde(skip_deserializing)]
    SecondOne(#[opg(inline)] V<1>),
}
fn e295() {
    tag("E295");
    let all = [j(&E295::Six_th(V::<0>::default())), j(&E295::Z(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E295::SecondOne(V::<1>::default()))];
    let v = match choose(3) {
        0 => E295::Six_th(V::<0>::any()),
        1 => E295::Z(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E295::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E295>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E296 {
    #[serde(rename = "re-Named")]
    Z {
    },
    First,
    #[serde(skip_serializing)]
    SecondOne(#[opg(inline)] V<0>),
}
fn e296() {
    tag("E296");
    let all = [j(&E296::Z {  }), j(&E296::First)];
    let v = match choose(2) {
        0 => E296::Z {  },
        _ => E296::First,
    };
    enumeration(ty::<E296>(), Repr::Untagged, &all, &[Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E297 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First {
        #[serde(skip_serializing)] r#fn: V<0>,
        first_one: V<1>,
    },
    SecondOne(#[serde(default)] V<1>),
    #[serde(skip_deserializing)]
    HTTPThird {
        #[serde(alias = "other")] #[opg(inline, optional)] deep_er_name: V<0>,
        r#type: V<1>,
    },
    #[opg(inline)]
    X4th(#[opg(inline)] V<1>),
}
fn e297() {
    tag("E297");
    let all = [j(&E297::First { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E297::SecondOne(V::<1>::default())), j(&E297::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E297::X4th(V::<1>::default()))];
    let v = match choose(4) {
        0 => E297::First { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        1 => E297::SecondOne(V::<1>::any()),
        2 => E297::HTTPThird { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        _ => E297::X4th(V::<1>::any()),
    };
    enumeration(ty::<E297>(), Repr::Untagged, &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Fields(&[false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E298 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[serde(skip)] V<0>),
    HTTPThird {
        #[opg("text", format = "f", example = "e", nullable, inline)] deep_er_name: V<0>,
        r#type: V<1>,
        #[opg(optional)] x__y: V<2>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[serde(default)] V<0>),
}
fn e298() {
    tag("E298");
    let all = [j(&E298::SecondOne(V::<0>::default())), j(&E298::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E298::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E298::SecondOne(V::<0>::any()),
        1 => E298::HTTPThird { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        _ => E298::X4th(V::<0>::any()),
    };
    enumeration(ty::<E298>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, false]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E299 {
    #[serde(skip)]
    HTTPThird(V<0>, #[opg("text")] V<1>),
    X4th {
        #[serde(rename(deserialize = "dE"))] first_one: V<0>,
        _lead: V<1>,
        #[opg(optional)] tail_: V<2>,
    },
    #[opg(inline)]
    r#Fifth {
        #[serde(skip_serializing_if = "gone")] second: V<0>,
        a1_b2: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[opg(inline)] V<1>),
}
fn e299() {
    tag("E299");
    let all = [j(&E299::X4th { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() }), j(&E299::r#Fifth { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E299::Six_th(V::<1>::default()))];
    let v = match choose(3) {
        0 => E299::X4th { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() },
        1 => E299::r#Fifth { second: V::<0>::maybe(), a1_b2: V::<1>::any() },
        _ => E299::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E299>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false]), Mask::Fields(&[false, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E300 {
    X4th {
        first_one: V<0>,
    },
    r#Fifth,
}
fn e300() {
    tag("E300");
    let all = [j(&E300::X4th { first_one: V::<0>::default() }), j(&E300::r#Fifth)];
    let v = match choose(2) {
        0 => E300::X4th { first_one: V::<0>::any() },
        _ => E300::r#Fifth,
    };
    enumeration(ty::<E300>(), Repr::Untagged, &all, &[Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E301 {
    #[serde(skip_deserializing)]
    r#Fifth(#[opg(inline)] V<0>),
    Six_th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<0>,
        x__y: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z,
    #[serde(rename = "re-Named")]
    First {
        #[serde(skip_deserializing)] a1_b2: V<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
}
fn e301() {
    tag("E301");
    let all = [j(&E301::r#Fifth(V::<0>::default())), j(&E301::Six_th { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E301::Z), j(&E301::First { a1_b2: V::<0>::default() }), j(&E301::SecondOne)];
    let v = match choose(5) {
        0 => E301::r#Fifth(V::<0>::any()),
        1 => E301::Six_th { r#type: V::<0>::maybe(), x__y: V::<1>::any() },
        2 => E301::Z,
        3 => E301::First { a1_b2: V::<0>::any() },
        _ => E301::SecondOne,
    };
    enumeration(ty::<E301>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Other, Mask::Fields(&[true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E302 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th {
        #[opg("text", format = "f", example = "e", nullable, inline)] r#type: V<0>,
        x__y: V<1>,
        #[serde(default)] is_ok: V<2>,
    },
    Z(#[serde(default)] V<1>),
    First(#[serde(default)] V<0>),
}
fn e302() {
    tag("E302");
    let all = [j(&E302::Six_th { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() }), j(&E302::Z(V::<1>::default())), j(&E302::First(V::<0>::default()))];
    let v = match choose(3) {
        0 => E302::Six_th { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() },
        1 => E302::Z(V::<1>::any()),
        _ => E302::First(V::<0>::any()),
    };
    enumeration(ty::<E302>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E303 {
    #[opg(inline)]
    Z(#[serde(skip_serializing)] V<0>),
    First(#[opg(inline)] V<1>),
    #[serde(rename = "re-Named")]
    SecondOne(V<0>, V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird,
}
fn e303() {
    tag("E303");
    let all = [j(&E303::Z(V::<0>::default())), j(&E303::First(V::<1>::default())), j(&E303::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E303::HTTPThird)];
    let v = match choose(4) {
        0 => E303::Z(V::<0>::any()),
        1 => E303::First(V::<1>::any()),
        2 => E303::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E303::HTTPThird,
    };
    enumeration(ty::<E303>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E304 {
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[serde(default)] V<0>),
    SecondOne(V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
    #[serde(skip)]
    X4th(#[serde(default)] V<1>),
}
fn e304() {
    tag("E304");
    let all = [j(&E304::First(V::<0>::default())), j(&E304::SecondOne(V::<1>::default())), j(&E304::HTTPThird)];
    let v = match choose(3) {
        0 => E304::First(V::<0>::any()),
        1 => E304::SecondOne(V::<1>::any()),
        _ => E304::HTTPThird,
    };
    enumeration(ty::<E304>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E305 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[serde(skip_serializing)] V<0>),
    HTTPThird {
        #[opg("text", format = "f", example = "e", nullable, inline)] tail_: V<0>,
        deep_er_name: V<1>,
        #[opg("text")] #[serde(default, skip_deserializing)] r#type: V<2>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[serde(default)] V<0>),
    #[serde(skip_serializing)]
    r#Fifth,
}
fn e305() {
    tag("E305");
    let all = [j(&E305::SecondOne(V::<0>::default())), j(&E305::HTTPThird { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E305::X4th(V::<0>::default()))];
    let v = match choose(3) {
        0 => E305::SecondOne(V::<0>::any()),
        1 => E305::HTTPThird { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
        _ => E305::X4th(V::<0>::any()),
    };
    enumeration(ty::<E305>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E306 {
    HTTPThird(V<0>),
    X4th(V<0>, #[serde(skip_serializing)] V<1>, V<2>),
    #[serde(skip)]
    r#Fifth(V<0>, #[serde(skip)] V<1>, #[serde(skip_serializing)] V<2>),
    #[serde(skip_deserializing)]
    Six_th {
        #[serde(skip_serializing)] deep_er_name: V<0>,
        r#type: V<1>,
    },
}
fn e306() {
    tag("E306");
    let all = [j(&E306::HTTPThird(V::<0>::default())), j(&E306::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E306::Six_th { deep_er_name: V::<0>::default(), r#type: V::<1>::default() })];
    let v = match choose(3) {
        0 => E306::HTTPThird(V::<0>::any()),
        1 => E306::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E306::Six_th { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
    };
    enumeration(ty::<E306>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E307 {
    #[serde(rename = "re-Named")]
    X4th(V<0>, #[serde(skip)] V<1>),
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th,
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First,
}
fn e307() {
    tag("E307");
    let all = [j(&E307::X4th(V::<0>::default(), V::<1>::default())), j(&E307::r#Fifth), j(&E307::Z {  }), j(&E307::First)];
    let v = match choose(4) {
        0 => E307::X4th(V::<0>::any(), V::<1>::any()),
        1 => E307::r#Fifth,
        2 => E307::Z {  },
        _ => E307::First,
    };
    enumeration(ty::<E307>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E308 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[serde(skip)] V<0>),
    Six_th(#[serde(default)] V<1>),
    #[serde(skip_deserializing)]
    Z(V<0>, #[serde(skip_serializing)] V<1>),
    #[opg(inline)]
    First(V<0>, #[serde(skip)] V<1>, #[opg("text")] V<2>),
}
fn e308() {
    tag("E308");
    let all = [j(&E308::r#Fifth(V::<0>::default())), j(&E308::Six_th(V::<1>::default())), j(&E308::Z(V::<0>::default(), V::<1>::default())), j(&E308::First(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E308::r#Fifth(V::<0>::any()),
        1 => E308::Six_th(V::<1>::any()),
        2 => E308::Z(V::<0>::any(), V::<1>::any()),
        _ => E308::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E308>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Tuple, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E309 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[opg(inline)] V<0>),
    Z(#[serde(skip)] V<0>, #[opg("text")] V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    First(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(#[opg("text")] V<0>, #[serde(skip_deserializing)] V<1>, #[serde(skip)] V<2>),
}
fn e309() {
    tag("E309");
    let all = [j(&E309::Six_th(V::<0>::default())), j(&E309::Z(V::<0>::default(), V::<1>::default())), j(&E309::First(V::<0>::default())), j(&E309::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E309::Six_th(V::<0>::any()),
        1 => E309::Z(V::<0>::any(), V::<1>::any()),
        2 => E309::First(V::<0>::any()),
        _ => E309::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E309>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E310 {
    #[serde(skip)]
    Z(#[serde(skip)] V<0>),
    First(#[serde(skip)] V<0>, V<1>, #[serde(skip_deserializing)] V<2>),
    #[opg(inline)]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
        #[serde(skip_deserializing)] _lead: V<0>,
        tail_: V<1>,
    },
}
fn e310() {
    tag("E310");
    let all = [j(&E310::First(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E310::SecondOne), j(&E310::HTTPThird { _lead: V::<0>::default(), tail_: V::<1>::default() })];
    let v = match choose(3) {
        0 => E310::First(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E310::SecondOne,
        _ => E310::HTTPThird { _lead: V::<0>::any(), tail_: V::<1>::any() },
    };
    enumeration(ty::<E310>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E311 {
    #[serde(skip_serializing)]
    First(V<0>, #[serde(skip_deserializing)] V<1>),
    SecondOne(V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird(#[opg(inline)] V<0>),
}
fn e311() {
    tag("E311");
    let all = [j(&E311::SecondOne(V::<1>::default())), j(&E311::HTTPThird(V::<0>::default()))];
    let v = match choose(2) {
        0 => E311::SecondOne(V::<1>::any()),
        _ => E311::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E311>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E312 {
    #[serde(skip_deserializing)]
    SecondOne {
        #[serde(rename = "x-Y")] r#type: V<0>,
    },
    HTTPThird(#[serde(default)] V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(V<0>, V<1>),
    #[serde(rename = "re-Named")]
    r#Fifth,
}
fn e312() {
    tag("E312");
    let all = [j(&E312::SecondOne { r#type: V::<0>::default() }), j(&E312::HTTPThird(V::<1>::default())), j(&E312::X4th(V::<0>::default(), V::<1>::default())), j(&E312::r#Fifth)];
    let v = match choose(4) {
        0 => E312::SecondOne { r#type: V::<0>::any() },
        1 => E312::HTTPThird(V::<1>::any()),
        2 => E312::X4th(V::<0>::any(), V::<1>::any()),
        _ => E312::r#Fifth,
    };
    enumeration(ty::<E312>(), Repr::Untagged, &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E313 {
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(skip_serializing)] V<0>),
    X4th(V<0>, #[opg(inline)] V<1>, #[opg(nullable)] V<2>),
    r#Fifth(#[opg(inline)] V<0>),
}
fn e313() {
    tag("E313");
    let all = [j(&E313::HTTPThird(V::<0>::default())), j(&E313::X4th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E313::r#Fifth(V::<0>::default()))];
    let v = match choose(3) {
        0 => E313::HTTPThird(V::<0>::any()),
        1 => E313::X4th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E313::r#Fifth(V::<0>::any()),
    };
    enumeration(ty::<E313>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E314 {
    #[opg(inline)]
    X4th {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] first_one: V<2>,
    },
    r#Fifth(#[opg(inline)] V<1>),
    #[serde(rename = "re-Named")]
    Six_th {
        #[opg("text", format = "f", example = "e", nullable, inline)] tail_: V<0>,
        deep_er_name: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
}
fn e314() {
    tag("E314");
    let all = [j(&E314::X4th { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E314::r#Fifth(V::<1>::default())), j(&E314::Six_th { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E314::Z)];
    let v = match choose(4) {
        0 => E314::X4th { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() },
        1 => E314::r#Fifth(V::<1>::any()),
        2 => E314::Six_th { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        _ => E314::Z,
    };
    enumeration(ty::<E314>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false]), Mask::Other, Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E315 {
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[serde(skip_serializing)] V<0>),
    Six_th {
        #[serde(rename = "x-Y")] tail_: V<0>,
        deep_er_name: V<1>,
        #[opg(inline)] r#type: V<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z,
    #[serde(skip)]
    First(V<0>, #[opg("text")] V<1>),
    #[serde(skip_deserializing)]
    SecondOne(V<0>, #[opg("text")] V<1>, #[serde(skip)] V<2>),
}
fn e315() {
    tag("E315");
    let all = [j(&E315::r#Fifth(V::<0>::default())), j(&E315::Six_th { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E315::Z), j(&E315::SecondOne(V::<0>::default(), V::<1>::default(), V::<2>::default()))];
    let v = match choose(4) {
        0 => E315::r#Fifth(V::<0>::any()),
        1 => E315::Six_th { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() },
        2 => E315::Z,
        _ => E315::SecondOne(V::<0>::any(), V::<1>::any(), V::<2>::any()),
    };
    enumeration(ty::<E315>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E316 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th {
        #[serde(skip)] tail_: V<0>,
        deep_er_name: V<1>,
        #[serde(default, skip_serializing_if = "gone")] #[opg(nullable, "text")] r#type: V<2>,
    },
    Z,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(V<0>, #[serde(skip)] V<1>),
    #[serde(skip_serializing)]
    SecondOne {
        #[serde(skip_serializing_if = "gone")] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(skip_serializing)] x__y: V<2>,
    },
}
fn e316() {
    tag("E316");
    let all = [j(&E316::Six_th { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() }), j(&E316::Z), j(&E316::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E316::Six_th { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::maybe() },
        1 => E316::Z,
        _ => E316::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E316>(), Repr::Untagged, &all, &[Mask::Fields(&[true, false]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E317 {
    Z(#[opg(inline)] V<0>),
    First {
        #[serde(skip_deserializing)] is_ok: V<0>,
        second: V<1>,
        #[opg(nullable)] a1_b2: V<2>,
    },
}
fn e317() {
    tag("E317");
    let all = [j(&E317::Z(V::<0>::default())), j(&E317::First { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() })];
    let v = match choose(2) {
        0 => E317::Z(V::<0>::any()),
        _ => E317::First { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() },
    };
    enumeration(ty::<E317>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E318 {
    #[serde(rename = "re-Named")]
    First(#[serde(skip)] V<0>),
    SecondOne,
    #[serde(skip_serializing)]
    HTTPThird(#[serde(default)] V<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th {
    },
}
fn e318() {
    tag("E318");
    let all = [j(&E318::First(V::<0>::default())), j(&E318::SecondOne), j(&E318::X4th {  })];
    let v = match choose(3) {
        0 => E318::First(V::<0>::any()),
        1 => E318::SecondOne,
        _ => E318::X4th {  },
    };
    enumeration(ty::<E318>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E319 {
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(skip)] x__y: V<2>,
    },
    HTTPThird {
        #[opg(nullable)] first_one: V<0>,
        _lead: V<1>,
        #[serde(rename(deserialize = "dE"))] tail_: V<2>,
    },
    #[serde(skip_deserializing)]
    X4th,
    #[opg(inline)]
    r#Fifth(V<1>),
}
fn e319() {
    tag("E319");
    let all = [j(&E319::SecondOne { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() }), j(&E319::HTTPThird { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() }), j(&E319::X4th), j(&E319::r#Fifth(V::<1>::default()))];
    let v = match choose(4) {
        0 => E319::SecondOne { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() },
        1 => E319::HTTPThird { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() },
        2 => E319::X4th,
        _ => E319::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E319>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Fields(&[true, true, true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E320 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[serde(skip)] V<0>),
    X4th {
        #[serde(skip)] second: V<0>,
        a1_b2: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(V<0>, V<1>),
    Z,
}
fn e320() {
    tag("E320");
    let all = [j(&E320::HTTPThird(V::<0>::default())), j(&E320::X4th { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E320::r#Fifth(V::<0>::default())), j(&E320::Six_th(V::<0>::default(), V::<1>::default())), j(&E320::Z)];
    let v = match choose(5) {
        0 => E320::HTTPThird(V::<0>::any()),
        1 => E320::X4th { second: V::<0>::any(), a1_b2: V::<1>::any() },
        2 => E320::r#Fifth(V::<0>::any()),
        3 => E320::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E320::Z,
    };
    enumeration(ty::<E320>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true]), Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E321 {
    #[serde(skip)]
    X4th {
        #[serde(skip)] second: V<0>,
        a1_b2: V<1>,
        #[opg("text")] #[serde(default, skip_deserializing)] r#fn: V<2>,
    },
    r#Fifth(#[serde(default)] V<1>),
    #[opg(inline)]
    Six_th {
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] _lead: V<0>,
        tail_: V<1>,
        #[serde(skip_serializing)] deep_er_name: V<2>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(V<0>, #[opg(nullable)] V<1>),
}
fn e321() {
    tag("E321");
    let all = [j(&E321::r#Fifth(V::<1>::default())), j(&E321::Six_th { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() }), j(&E321::Z(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E321::r#Fifth(V::<1>::any()),
        1 => E321::Six_th { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() },
        _ => E321::Z(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E321>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[false, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E322 {
    #[serde(skip_serializing)]
    r#Fifth {
        #[serde(skip_serializing_if = "gone")] r#type: V<0>,
        x__y: V<1>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] is_ok: V<2>,
    },
    Six_th(V<0>, #[opg(inline)] V<1>, #[serde(skip_deserializing)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(V<0>, #[serde(skip_serializing)] V<1>),
    First(#[opg(inline)] V<1>),
}
fn e322() {
    tag("E322");
    let all = [j(&E322::Six_th(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E322::Z(V::<0>::default(), V::<1>::default())), j(&E322::First(V::<1>::default()))];
    let v = match choose(3) {
        0 => E322::Six_th(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        1 => E322::Z(V::<0>::any(), V::<1>::any()),
        _ => E322::First(V::<1>::any()),
    };
    enumeration(ty::<E322>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E323 {
    #[serde(skip_deserializing)]
    Six_th(#[serde(skip_serializing)] V<0>),
    Z,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
    },
    #[serde(rename = "re-Named")]
    SecondOne,
}
fn e323() {
    tag("E323");
    let all = [j(&E323::Six_th(V::<0>::default())), j(&E323::Z), j(&E323::First {  }), j(&E323::SecondOne)];
    let v = match choose(4) {
        0 => E323::Six_th(V::<0>::any()),
        1 => E323::Z,
        2 => E323::First {  },
        _ => E323::SecondOne,
    };
    enumeration(ty::<E323>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E324 {
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
        #[serde(default)] a1_b2: V<0>,
        r#fn: V<1>,
        #[serde(skip_serializing)] first_one: V<2>,
    },
    First(#[opg(nullable)] V<0>, #[opg("text")] V<1>),
}
fn e324() {
    tag("E324");
    let all = [j(&E324::Z { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() }), j(&E324::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E324::Z { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() },
        _ => E324::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E324>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E325 {
    #[opg(inline)]
    First(#[serde(skip_serializing)] V<0>),
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird {
        r#fn: V<0>,
        first_one: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
    #[serde(skip_serializing)]
    r#Fifth {
        #[serde(rename = "x-Y")] deep_er_name: V<0>,
        r#type: V<1>,
        #[serde(rename(serialize = "sE", deserialize = "dE"))] x__y: V<2>,
    },
}
fn e325() {
    tag("E325");
    let all = [j(&E325::First(V::<0>::default())), j(&E325::SecondOne), j(&E325::HTTPThird { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E325::X4th)];
    let v = match choose(4) {
        0 => E325::First(V::<0>::any()),
        1 => E325::SecondOne,
        2 => E325::HTTPThird { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        _ => E325::X4th,
    };
    enumeration(ty::<E325>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E326 {
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    HTTPThird,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[serde(default)] V<0>),
    #[serde(skip)]
    r#Fifth,
    #[serde(skip_deserializing)]
    Six_th,
}
fn e326() {
    tag("E326");
    let all = [j(&E326::SecondOne), j(&E326::HTTPThird), j(&E326::X4th(V::<0>::default())), j(&E326::Six_th)];
    let v = match choose(4) {
        0 => E326::SecondOne,
        1 => E326::HTTPThird,
        2 => E326::X4th(V::<0>::any()),
        _ => E326::Six_th,
    };
    enumeration(ty::<E326>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E327 {
    First,
    #[serde(rename = "re-Named")]
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
}
fn e327() {
    tag("E327");
    let all = [j(&E327::First), j(&E327::SecondOne), j(&E327::HTTPThird)];
    let v = match choose(3) {
        0 => E327::First,
        1 => E327::SecondOne,
        _ => E327::HTTPThird,
    };
    enumeration(ty::<E327>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E328 {
    First,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
    #[serde(skip)]
    HTTPThird,
}
fn e328() {
    tag("E328");
    let all = [j(&E328::First), j(&E328::SecondOne)];
    let v = match choose(2) {
        0 => E328::First,
        _ => E328::SecondOne,
    };
    enumeration(ty::<E328>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E329 {
    First,
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird,
}
fn e329() {
    tag("E329");
    let all = [j(&E329::First), j(&E329::HTTPThird)];
    let v = match choose(2) {
        0 => E329::First,
        _ => E329::HTTPThird,
    };
    enumeration(ty::<E329>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E330 {
    First,
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne,
    #[opg(inline)]
    HTTPThird,
}
fn e330() {
    tag("E330");
    let all = [j(&E330::First), j(&E330::SecondOne), j(&E330::HTTPThird)];
    let v = match choose(3) {
        0 => E330::First,
        1 => E330::SecondOne,
        _ => E330::HTTPThird,
    };
    enumeration(ty::<E330>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E331 {
    First,
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
}
fn e331() {
    tag("E331");
    let all = [j(&E331::First), j(&E331::SecondOne), j(&E331::HTTPThird)];
    let v = match choose(3) {
        0 => E331::First,
        1 => E331::SecondOne,
        _ => E331::HTTPThird,
    };
    enumeration(ty::<E331>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E332 {
    First,
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird,
}
fn e332() {
    tag("E332");
    let all = [j(&E332::First), j(&E332::SecondOne), j(&E332::HTTPThird)];
    let v = match choose(3) {
        0 => E332::First,
        1 => E332::SecondOne,
        _ => E332::HTTPThird,
    };
    enumeration(ty::<E332>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E333 {
    First,
    #[serde(rename = "re-Named")]
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
}
fn e333() {
    tag("E333");
    let all = [j(&E333::First), j(&E333::SecondOne), j(&E333::HTTPThird)];
    let v = match choose(3) {
        0 => E333::First,
        1 => E333::SecondOne,
        _ => E333::HTTPThird,
    };
    enumeration(ty::<E333>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E334 {
    First,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne,
    #[serde(skip)]
    HTTPThird,
}
fn e334() {
    tag("E334");
    let all = [j(&E334::First), j(&E334::SecondOne)];
    let v = match choose(2) {
        0 => E334::First,
        _ => E334::SecondOne,
    };
    enumeration(ty::<E334>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E335 {
    First,
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird,
}
fn e335() {
    tag("E335");
    let all = [j(&E335::First), j(&E335::HTTPThird)];
    let v = match choose(2) {
        0 => E335::First,
        _ => E335::HTTPThird,
    };
    enumeration(ty::<E335>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E336 {
    First,
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne,
    #[opg(inline)]
    HTTPThird,
}
fn e336() {
    tag("E336");
    let all = [j(&E336::First), j(&E336::SecondOne), j(&E336::HTTPThird)];
    let v = match choose(3) {
        0 => E336::First,
        1 => E336::SecondOne,
        _ => E336::HTTPThird,
    };
    enumeration(ty::<E336>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E337 {
    First,
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
}
fn e337() {
    tag("E337");
    let all = [j(&E337::First), j(&E337::SecondOne), j(&E337::HTTPThird)];
    let v = match choose(3) {
        0 => E337::First,
        1 => E337::SecondOne,
        _ => E337::HTTPThird,
    };
    enumeration(ty::<E337>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E338 {
    First,
    SecondOne,
    #[serde(rename = "re-Named")]
    HTTPThird,
}
fn e338() {
    tag("E338");
    let all = [j(&E338::First), j(&E338::SecondOne), j(&E338::HTTPThird)];
    let v = match choose(3) {
        0 => E338::First,
        1 => E338::SecondOne,
        _ => E338::HTTPThird,
    };
    enumeration(ty::<E338>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
pub enum E339 {
    First {
        #[opg(number, inline, nullable)] #[serde(rename = "Gone 467", skip_serializing_if = "gone")] deep_er_name: X<2>,
        #[opg(string, inline, "text")] #[serde(skip_deserializing)] r#type: X<0>,
        #[opg(integer, nullable, "text")] #[serde(rename = "re-N147")] x__y: X<1>,
        #[opg("text", nullable, any)] #[serde(rename = "re-N198")] f3_x: V<0>,
        #[serde(rename = "Gone 472", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", inline, number)] f4_x: X<2>,
    },
    #[serde(rename = "re-Named")]
    SecondOne {
        #[opg(inline, example = "e", format = "f")] #[serde(rename = "re-N115")] first_one: V<0>,
        #[serde(rename = "re-N180")] #[opg("text", inline, boolean)] _lead: X<3>,
        #[opg(string, inline)] #[serde(rename(serialize = "Ser223", deserialize = "De223"))] tail_: X<0>,
        #[opg(string, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] f3_x: X<0>,
        #[serde(rename = "re-N127")] #[opg(string, inline, nullable)] f4_x: X<0>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        #[serde(skip_serializing_if = "gone")] #[opg(number, inline, "text")] second: X<2>,
        #[serde(rename = "Gone 474", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", "text", number)] a1_b2: X<2>,
        #[opg(number, inline, "text")] #[serde(rename(serialize = "Ser265", deserialize = "De265"))] r#fn: X<2>,
        #[serde(skip_deserializing)] #[opg(boolean, optional, nullable)] f3_x: X<3>,
        #[serde(rename(serialize = "Ser209", deserialize = "De209"))] #[opg(example = "e", format = "f")] f4_x: V<1>,
    },
    X4th(#[opg(string, inline, "text")] #[serde(skip_deserializing)] X<0>, #[opg(string, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] X<0>, #[serde(skip_deserializing)] #[opg(example = "e", format = "f")] V<2>),
    r#Fifth(#[opg(string, inline, "text")] #[serde(skip_deserializing)] X<0>),
}
fn e339() {
    tag("E339");
    let all = [j(&E339::First { deep_er_name: X::<2>::default(), r#type: X::<0>::default(), x__y: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E339::SecondOne { first_one: V::<0>::default(), _lead: X::<3>::default(), tail_: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E339::HTTPThird { second: X::<2>::default(), a1_b2: X::<2>::default(), r#fn: X::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E339::X4th(X::<0>::default(), X::<0>::default(), V::<2>::default())), j(&E339::r#Fifth(X::<0>::default()))];
    let v = match choose(5) {
        0 => E339::First { deep_er_name: X::<2>::maybe(), r#type: X::<0>::any(), x__y: X::<1>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        1 => E339::SecondOne { first_one: V::<0>::any(), _lead: X::<3>::any(), tail_: X::<0>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        2 => E339::HTTPThird { second: X::<2>::maybe(), a1_b2: X::<2>::maybe(), r#fn: X::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        3 => E339::X4th(X::<0>::any(), X::<0>::any(), V::<2>::any()),
        _ => E339::r#Fifth(X::<0>::any()),
    };
    enumeration(ty::<E339>(), Repr::External, &all, &[Mask::Fields(&[false, true, true, true, false]), Mask::Fields(&[true, true, true, true, true]), Mask::Fields(&[false, false, true, false, true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E340 {
    SecondOne {
        #[opg(format = "f", example = "e", nullable, boolean)] #[serde(rename(serialize = "Ser286", deserialize = "De286"))] first_one: X<3>,
        #[serde(rename = "re-N197")] #[opg(any, inline, "text")] _lead: V<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] tail_: V<2>,
        #[serde(rename(serialize = "Ser245", deserialize = "De245"))] #[opg(integer, optional, nullable)] f3_x: X<1>,
        #[serde(rename(serialize = "Ser285", deserialize = "De285"))] #[opg(boolean, inline, example = "e", format = "f")] f4_x: X<3>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        #[opg(nullable, string)] #[serde(default)] second: X<0>,
        #[opg(format = "f", example = "e", number)] #[serde(skip_serializing_if = "gone")] a1_b2: X<2>,
        #[serde(skip_deserializing)] #[opg(example = "e", format = "f")] r#fn: V<2>,
        #[opg(format = "f", example = "e", string)] #[serde(default)] f3_x: X<0>,
        #[opg(format = "f", example = "e", "text", number)] #[serde(default)] f4_x: X<2>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th {
        #[opg(format = "f", example = "e", optional, boolean)] #[serde(rename(serialize = "Ser284", deserialize = "De284"))] r#type: X<3>,
        #[serde(rename(serialize = "Ser298", deserialize = "De298"))] #[opg("text", optional, any)] x__y: V<1>,
        #[opg(integer, optional, "text")] #[serde(skip_serializing_if = "gone")] is_ok: X<1>,
        #[serde(rename = "Gone 487", skip_serializing_if = "gone")] #[opg(boolean, nullable, "text")] f3_x: X<3>,
        #[serde(rename = "re-N142")] #[opg(inline, optional, integer)] f4_x: X<1>,
    },
}
fn e340() {
    tag("E340");
    let all = [j(&E340::SecondOne { first_one: X::<3>::default(), _lead: V::<1>::default(), tail_: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default() }), j(&E340::HTTPThird { second: X::<0>::default(), a1_b2: X::<2>::default(), r#fn: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default() }), j(&E340::X4th { r#type: X::<3>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default() })];
    let v = match choose(3) {
        0 => E340::SecondOne { first_one: X::<3>::any(), _lead: V::<1>::any(), tail_: V::<2>::maybe(), f3_x: X::<1>::any(), f4_x: X::<3>::any() },
        1 => E340::HTTPThird { second: X::<0>::any(), a1_b2: X::<2>::maybe(), r#fn: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<2>::any() },
        _ => E340::X4th { r#type: X::<3>::any(), x__y: V::<1>::any(), is_ok: X::<1>::maybe(), f3_x: X::<3>::any(), f4_x: X::<1>::any() },
    };
    enumeration(ty::<E340>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, false, false, true]), Mask::Fields(&[true, true, false, true, true, true]), Mask::Fields(&[true, false, false, false, false, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t", content = "c")]
pub enum E341 {
    HTTPThird {
        #[opg("text", optional, any)] #[serde(default)] second: V<0>,
        #[opg(any)] #[serde(rename = "Gone 493", skip_serializing_if = "gone")] a1_b2: V<1>,
        #[opg("text", inline, boolean)] #[serde(skip_deserializing)] r#fn: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(string)] f3_x: X<0>,
        #[opg(format = "f", example = "e", inline, any)] #[serde(default)] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th {
        #[opg(optional)] #[serde(rename = "re-N103")] r#type: V<0>,
        #[opg("text", example = "e", format = "f")] #[serde(rename = "re-N117")] x__y: V<1>,
        #[serde(default)] #[opg(any)] is_ok: V<2>,
        #[serde(rename(serialize = "Ser262", deserialize = "De262"))] #[opg(nullable, optional, number)] f3_x: X<2>,
        #[serde(default)] #[opg(nullable, inline, boolean)] f4_x: X<3>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth {
        #[opg(any, "text")] #[serde(skip_deserializing)] _lead: V<0>,
        #[opg(any, optional, inline)] #[serde(rename(serialize = "Ser295", deserialize = "De295"))] tail_: V<1>,
        #[opg(number, optional, example = "e", format = "f")] #[serde(rename(serialize = "Ser267", deserialize = "De267"))] deep_er_name: X<2>,
        #[opg(boolean, "text", example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f3_x: X<3>,
        #[serde(rename = "re-N121")] #[opg(string, inline)] f4_x: X<0>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[opg("text", inline, boolean)] #[serde(skip_deserializing)] X<3>, #[opg(any, "text")] #[serde(skip_deserializing)] V<1>, #[opg(boolean, "text", example = "e", format = "f")] X<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[serde(skip_deserializing)] #[opg(example = "e", format = "f")] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[opg("text", inline, boolean)] #[serde(skip_deserializing)] X<3>),
}
fn e341() {
    tag("E341");
    let all = [j(&E341::HTTPThird { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: X::<3>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E341::X4th { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E341::r#Fifth { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default() }), j(&E341::Six_th(X::<3>::default(), V::<1>::default(), X::<3>::default())), j(&E341::Z(V::<0>::default())), j(&E341::First(X::<3>::default()))];
    let v = match choose(6) {
        0 => E341::HTTPThird { second: V::<0>::any(), a1_b2: V::<1>::maybe(), r#fn: X::<3>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        1 => E341::X4th { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        2 => E341::r#Fifth { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: X::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<0>::any() },
        3 => E341::Six_th(X::<3>::any(), V::<1>::any(), X::<3>::any()),
        4 => E341::Z(V::<0>::any()),
        _ => E341::First(X::<3>::any()),
    };
    enumeration(ty::<E341>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, false, true, false, true]), Mask::Fields(&[false, true, true, false, true]), Mask::Fields(&[true, false, false, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum E342 {
    X4th {
        #[opg("text", example = "e", format = "f")] #[serde(default)] r#type: V<0>,
        #[opg(boolean, "text", example = "e", format = "f")] x__y: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline)] is_ok: V<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", optional, boolean)] f3_x: X<3>,
        #[opg("text", inline, integer)] #[serde(skip_deserializing)] f4_x: X<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth {
        #[serde(skip_deserializing)] #[opg("text", nullable, string)] _lead: X<0>,
        #[opg(optional, any)] #[serde(default)] tail_: V<1>,
        #[serde(rename = "Gone 477", skip_serializing_if = "gone")] #[opg(boolean, optional)] deep_er_name: X<3>,
        #[opg(boolean, nullable, "text")] #[serde(default)] f3_x: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline, boolean)] f4_x: X<3>,
    },
    #[opg(inline)]
    Six_th {
        #[opg(boolean, optional, nullable)] #[serde(default)] a1_b2: X<3>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", number)] r#fn: X<2>,
        #[opg(example = "e", format = "f")] #[serde(rename = "re-N107")] first_one: V<2>,
        #[serde(rename = "re-N108")] #[opg(inline, optional)] f3_x: V<0>,
        #[opg(optional, string)] #[serde(skip_serializing_if = "gone")] f4_x: X<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(#[opg("text", inline, integer)] #[serde(skip_deserializing)] X<1>, #[serde(skip_deserializing)] #[opg("text", nullable, string)] X<0>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", number)] X<2>),
    #[serde(rename = "re-Named")]
    First(#[opg(any, "text")] #[serde(skip_deserializing)] V<0>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[opg(boolean, "text", example = "e", format = "f")] X<3>),
}
fn e342() {
    tag("E342");
    let all = [j(&E342::X4th { r#type: V::<0>::default(), x__y: X::<3>::default(), is_ok: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default() }), j(&E342::r#Fifth { _lead: X::<0>::default(), tail_: V::<1>::default(), deep_er_name: X::<3>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default() }), j(&E342::Six_th { a1_b2: X::<3>::default(), r#fn: X::<2>::default(), first_one: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E342::Z(X::<1>::default(), X::<0>::default(), X::<2>::default())), j(&E342::First(V::<0>::default())), j(&E342::SecondOne(X::<3>::default()))];
    let v = match choose(6) {
        0 => E342::X4th { r#type: V::<0>::any(), x__y: X::<3>::any(), is_ok: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: X::<1>::any() },
        1 => E342::r#Fifth { _lead: X::<0>::any(), tail_: V::<1>::any(), deep_er_name: X::<3>::maybe(), f3_x: X::<3>::any(), f4_x: X::<3>::any() },
        2 => E342::Six_th { a1_b2: X::<3>::any(), r#fn: X::<2>::any(), first_one: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        3 => E342::Z(X::<1>::any(), X::<0>::any(), X::<2>::any()),
        4 => E342::First(V::<0>::any()),
        _ => E342::SecondOne(X::<3>::any()),
    };
    enumeration(ty::<E342>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false, false, true]), Mask::Fields(&[true, false, false, true, false]), Mask::Fields(&[false, true, true, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub enum E343 {
    r#Fifth {
        #[opg(string, inline, "text")] #[serde(rename(serialize = "Ser231", deserialize = "De231"))] _lead: X<0>,
        #[opg(nullable, optional, number)] #[serde(skip_serializing_if = "gone")] tail_: X<2>,
        #[serde(rename = "re-N119")] #[opg(string)] deep_er_name: X<0>,
        #[opg(any, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] f3_x: V<0>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, number)] f4_x: X<2>,
    },
    #[opg(inline)]
    Six_th {
        #[opg(number, inline)] #[serde(rename(serialize = "Ser257", deserialize = "De257"))] a1_b2: X<2>,
        #[serde(default)] #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] r#fn: X<1>,
        #[serde(default)] #[opg(boolean)] first_one: X<3>,
        #[serde(rename = "Gone 504", skip_serializing_if = "gone")] #[opg("text", nullable, any)] f3_x: V<0>,
        #[opg(nullable, inline, boolean)] #[serde(skip_deserializing)] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[opg(optional, number)] #[serde(default)] x__y: X<2>,
        #[serde(skip_deserializing)] #[opg("text", optional, string)] is_ok: X<0>,
        #[opg(format = "f", example = "e", optional)] #[serde(rename = "Gone 420", skip_serializing_if = "gone")] second: V<2>,
        #[opg(nullable, optional, any)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, optional, example = "e", format = "f")] f4_x: X<2>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    First(#[opg(any, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] V<0>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, number)] X<2>, #[opg(nullable, inline, boolean)] #[serde(skip_deserializing)] X<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne(#[opg("text", inline, integer)] #[serde(skip_deserializing)] X<1>),
    #[opg(inline)]
    HTTPThird(#[serde(skip_deserializing)] #[opg("text", nullable, string)] X<0>),
}
fn e343() {
    tag("E343");
    let all = [j(&E343::r#Fifth { _lead: X::<0>::default(), tail_: X::<2>::default(), deep_er_name: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E343::Six_th { a1_b2: X::<2>::default(), r#fn: X::<1>::default(), first_one: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E343::Z { x__y: X::<2>::default(), is_ok: X::<0>::default(), second: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E343::First(V::<0>::default(), X::<2>::default(), X::<3>::default())), j(&E343::SecondOne(X::<1>::default())), j(&E343::HTTPThird(X::<0>::default()))];
    let v = match choose(6) {
        0 => E343::r#Fifth { _lead: X::<0>::any(), tail_: X::<2>::maybe(), deep_er_name: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        1 => E343::Six_th { a1_b2: X::<2>::any(), r#fn: X::<1>::any(), first_one: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        2 => E343::Z { x__y: X::<2>::any(), is_ok: X::<0>::any(), second: V::<2>::maybe(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        3 => E343::First(V::<0>::any(), X::<2>::any(), X::<3>::any()),
        4 => E343::SecondOne(X::<1>::any()),
        _ => E343::HTTPThird(X::<0>::any()),
    };
    enumeration(ty::<E343>(), Repr::External, &all, &[Mask::Fields(&[true, false, true, true, true]), Mask::Fields(&[true, false, true, false, true]), Mask::Fields(&[false, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t-Ag")]
pub enum E344 {
    Six_th {
        #[serde(rename = "Gone 451", skip_serializing_if = "gone")] #[opg(integer, optional, "text")] a1_b2: X<1>,
        #[opg(boolean, example = "e", format = "f")] r#fn: X<3>,
        #[opg(example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] first_one: V<2>,
        #[serde(skip_deserializing)] #[opg(nullable, any)] f3_x: V<0>,
        #[opg(inline)] #[serde(rename = "Gone 410", skip_serializing_if = "gone")] f4_x: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z {
        #[opg(any, optional, example = "e", format = "f")] #[serde(rename = "Gone 505", skip_serializing_if = "gone")] x__y: V<0>,
        #[serde(rename = "re-N159")] #[opg(number, optional, inline)] is_ok: X<2>,
        #[opg(integer, "text", example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] second: X<1>,
        #[serde(rename = "re-N201")] #[opg(any, nullable, example = "e", format = "f")] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, nullable, example = "e", format = "f")] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
        #[opg(format = "f", example = "e", optional)] #[serde(rename(serialize = "Ser216", deserialize = "De216"))] tail_: V<0>,
        #[serde(skip_deserializing)] #[opg("text", nullable, any)] deep_er_name: V<1>,
        #[opg(optional, number)] #[serde(rename = "re-N154")] r#type: X<2>,
        #[opg(integer)] f3_x: X<1>,
        #[serde(skip_deserializing)] #[opg(nullable, "text")] f4_x: V<1>,
    },
}
fn e344() {
    tag("E344");
    let all = [j(&E344::Six_th { a1_b2: X::<1>::default(), r#fn: X::<3>::default(), first_one: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E344::Z { x__y: V::<0>::default(), is_ok: X::<2>::default(), second: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E344::First { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() })];
    let v = match choose(3) {
        0 => E344::Six_th { a1_b2: X::<1>::maybe(), r#fn: X::<3>::any(), first_one: V::<2>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E344::Z { x__y: V::<0>::maybe(), is_ok: X::<2>::any(), second: X::<1>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        _ => E344::First { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: X::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
    };
    enumeration(ty::<E344>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, true, false, true, false]), Mask::Fields(&[true, false, false, false, true, false]), Mask::Fields(&[true, false, true, false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t", content = "c")]
pub enum E345 {
    Z {
        #[opg(any, inline, "text")] #[serde(skip_deserializing)] x__y: V<0>,
        #[serde(rename = "Gone 447", skip_serializing_if = "gone")] #[opg(integer, example = "e", format = "f")] is_ok: X<1>,
        #[serde(default)] second: V<2>,
        #[serde(skip_deserializing)] #[opg(boolean, nullable)] f3_x: X<3>,
        #[opg(any)] #[serde(skip_deserializing)] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First {
        #[serde(rename = "Gone 462", skip_serializing_if = "gone")] #[opg(nullable, number)] tail_: X<2>,
        #[serde(rename(serialize = "Ser304", deserialize = "De304"))] #[opg(format = "f", example = "e", "text", any)] deep_er_name: V<1>,
        #[opg(boolean, optional, "text")] r#type: X<3>,
        #[serde(rename = "re-N191")] #[opg(any, "text")] f3_x: V<0>,
        #[opg(nullable)] f4_x: V<1>,
    },
    SecondOne {
        #[serde(rename = "Gone 500", skip_serializing_if = "gone")] #[opg(nullable, optional, any)] r#fn: V<0>,
        #[opg(inline, optional, boolean)] first_one: X<3>,
        #[opg(format = "f", example = "e", "text", string)] #[serde(skip_serializing_if = "gone")] _lead: X<0>,
        #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] f3_x: X<2>,
        #[opg(integer, nullable, "text")] #[serde(default)] f4_x: X<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird(#[opg(boolean, example = "e", format = "f")] X<3>, #[serde(skip_deserializing)] #[opg(nullable, any)] V<1>, #[serde(skip_deserializing)] #[opg("text", nullable, any)] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", number)] X<2>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(any, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] V<1>),
}
fn e345() {
    tag("E345");
    let all = [j(&E345::Z { x__y: V::<0>::default(), is_ok: X::<1>::default(), second: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E345::First { tail_: X::<2>::default(), deep_er_name: V::<1>::default(), r#type: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E345::SecondOne { r#fn: V::<0>::default(), first_one: X::<3>::default(), _lead: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() }), j(&E345::HTTPThird(X::<3>::default(), V::<1>::default(), V::<2>::default())), j(&E345::X4th(X::<2>::default())), j(&E345::r#Fifth(V::<1>::default()))];
    let v = match choose(6) {
        0 => E345::Z { x__y: V::<0>::any(), is_ok: X::<1>::maybe(), second: V::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        1 => E345::First { tail_: X::<2>::maybe(), deep_er_name: V::<1>::any(), r#type: X::<3>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        2 => E345::SecondOne { r#fn: V::<0>::maybe(), first_one: X::<3>::any(), _lead: X::<0>::maybe(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
        3 => E345::HTTPThird(X::<3>::any(), V::<1>::any(), V::<2>::any()),
        4 => E345::X4th(X::<2>::any()),
        _ => E345::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E345>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, false, true, true, true]), Mask::Fields(&[false, true, false, true, true]), Mask::Fields(&[false, false, false, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum E346 {
    First {
        tail_: V<0>,
        #[opg(nullable, optional, number)] #[serde(default)] deep_er_name: X<2>,
        #[opg(nullable, inline, integer)] #[serde(rename(serialize = "Ser246", deserialize = "De246"))] r#type: X<1>,
        #[opg(nullable, "text")] #[serde(default)] f3_x: V<0>,
        #[serde(skip_deserializing)] #[opg(optional, nullable)] f4_x: V<1>,
    },
    SecondOne {
        #[opg("text", integer)] #[serde(rename(serialize = "Ser242", deserialize = "De242"))] r#fn: X<1>,
        #[opg(number)] #[serde(skip_deserializing)] first_one: X<2>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] _lead: X<3>,
        #[serde(rename = "re-N195")] #[opg(any, inline, nullable)] f3_x: V<0>,
        #[serde(rename(serialize = "Ser251", deserialize = "De251"))] #[opg(integer, inline, example = "e", format = "f")] f4_x: X<1>,
    },
    #[serde(rename = "re-Named")]
    HTTPThird {
        #[serde(skip_deserializing)] #[opg(boolean, inline, example = "e", format = "f")] is_ok: X<3>,
        #[opg(boolean, optional, "text")] #[serde(default)] second: X<3>,
        #[opg("text", boolean)] #[serde(skip_deserializing)] a1_b2: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, inline)] f3_x: X<2>,
        #[opg(string, inline, "text")] f4_x: X<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(#[opg(integer)] X<1>, #[serde(skip_deserializing)] #[opg(nullable, "text")] V<1>, #[opg(any, inline, "text")] #[serde(skip_deserializing)] V<2>),
    #[opg(inline)]
    r#Fifth(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, number)] X<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(#[opg(nullable, inline, boolean)] #[serde(skip_deserializing)] X<3>),
}
fn e346() {
    tag("E346");
    let all = [j(&E346::First { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E346::SecondOne { r#fn: X::<1>::default(), first_one: X::<2>::default(), _lead: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E346::HTTPThird { is_ok: X::<3>::default(), second: X::<3>::default(), a1_b2: X::<3>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default() }), j(&E346::X4th(X::<1>::default(), V::<1>::default(), V::<2>::default())), j(&E346::r#Fifth(X::<2>::default())), j(&E346::Six_th(X::<3>::default()))];
    let v = match choose(6) {
        0 => E346::First { tail_: V::<0>::any(), deep_er_name: X::<2>::any(), r#type: X::<1>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E346::SecondOne { r#fn: X::<1>::any(), first_one: X::<2>::any(), _lead: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        2 => E346::HTTPThird { is_ok: X::<3>::any(), second: X::<3>::any(), a1_b2: X::<3>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any() },
        3 => E346::X4th(X::<1>::any(), V::<1>::any(), V::<2>::any()),
        4 => E346::r#Fifth(X::<2>::any()),
        _ => E346::Six_th(X::<3>::any()),
    };
    enumeration(ty::<E346>(), Repr::Untagged, &all, &[Mask::Fields(&[true, false, true, true, false]), Mask::Fields(&[true, true, false, true, true]), Mask::Fields(&[true, false, true, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E347 {
    SecondOne {
        #[opg("text", nullable, number)] r#fn: X<2>,
        #[serde(rename = "Gone 455", skip_serializing_if = "gone")] #[opg(integer, inline, example = "e", format = "f")] first_one: X<1>,
        #[serde(rename = "re-N169")] #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] _lead: X<2>,
        #[serde(rename(serialize = "Ser247", deserialize = "De247"))] #[opg(integer, optional, "text")] f3_x: X<1>,
        #[serde(rename = "re-N178")] #[opg(nullable, inline, boolean)] f4_x: X<3>,
    },
    #[serde(rename = "re-Named")]
    HTTPThird {
        #[opg(format = "f", example = "e", nullable, integer)] #[serde(skip_deserializing)] is_ok: X<1>,
        #[opg(inline, boolean)] #[serde(skip_deserializing)] second: X<3>,
        #[opg(boolean, inline, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] a1_b2: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(boolean)] f3_x: X<3>,
        #[serde(rename(serialize = "Ser243", deserialize = "De243"))] #[opg(integer, example = "e", format = "f")] f4_x: X<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th {
        #[opg(any, optional, example = "e", format = "f")] deep_er_name: V<0>,
        #[serde(default)] #[opg(inline, optional, integer)] r#type: X<1>,
        #[opg(nullable, "text")] #[serde(rename = "re-N113")] x__y: V<2>,
        #[opg(integer, optional, nullable)] #[serde(skip_serializing_if = "gone")] f3_x: X<1>,
        #[opg("text", nullable, number)] #[serde(skip_serializing_if = "gone")] f4_x: X<2>,
    },
    r#Fifth(#[serde(skip_deserializing)] #[opg(boolean, nullable)] X<3>, #[opg(any)] #[serde(skip_deserializing)] V<1>, #[opg(nullable)] V<2>),
    Six_th(#[opg(boolean, example = "e", format = "f")] X<3>),
}
fn e347() {
    tag("E347");
    let all = [j(&E347::SecondOne { r#fn: X::<2>::default(), first_one: X::<1>::default(), _lead: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default() }), j(&E347::HTTPThird { is_ok: X::<1>::default(), second: X::<3>::default(), a1_b2: X::<3>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default() }), j(&E347::X4th { deep_er_name: V::<0>::default(), r#type: X::<1>::default(), x__y: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default() }), j(&E347::r#Fifth(X::<3>::default(), V::<1>::default(), V::<2>::default())), j(&E347::Six_th(X::<3>::default()))];
    let v = match choose(5) {
        0 => E347::SecondOne { r#fn: X::<2>::any(), first_one: X::<1>::maybe(), _lead: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<3>::any() },
        1 => E347::HTTPThird { is_ok: X::<1>::any(), second: X::<3>::any(), a1_b2: X::<3>::maybe(), f3_x: X::<3>::any(), f4_x: X::<1>::any() },
        2 => E347::X4th { deep_er_name: V::<0>::any(), r#type: X::<1>::any(), x__y: V::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<2>::any() },
        3 => E347::r#Fifth(X::<3>::any(), V::<1>::any(), V::<2>::any()),
        _ => E347::Six_th(X::<3>::any()),
    };
    enumeration(ty::<E347>(), Repr::External, &all, &[Mask::Fields(&[true, false, false, false, true]), Mask::Fields(&[true, true, false, false, true]), Mask::Fields(&[false, false, true, false, false]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t-Ag")]
pub enum E348 {
    HTTPThird {
        #[opg(inline, boolean)] #[serde(rename(serialize = "Ser274", deserialize = "De274"))] is_ok: X<3>,
        #[serde(default)] #[opg(format = "f", example = "e", nullable, integer)] second: X<1>,
        #[opg(string, inline, nullable)] a1_b2: X<0>,
        #[opg(number, nullable, example = "e", format = "f")] f3_x: X<2>,
        #[opg(boolean, optional, nullable)] #[serde(skip_serializing_if = "gone")] f4_x: X<3>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th {
        #[opg(format = "f", example = "e", "text", string)] #[serde(rename = "re-N134")] deep_er_name: X<0>,
        #[opg(integer, inline, example = "e", format = "f")] #[serde(default)] r#type: X<1>,
        #[opg(integer, nullable)] #[serde(rename = "re-N139")] x__y: X<1>,
        #[serde(rename = "Gone 409", skip_serializing_if = "gone")] #[opg(optional)] f3_x: V<0>,
        #[opg(format = "f", example = "e", number)] #[serde(rename = "re-N158")] f4_x: X<2>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth {
        #[opg(format = "f", example = "e", inline, any)] first_one: V<0>,
        #[opg(any, "text")] _lead: V<1>,
        #[opg(format = "f", example = "e", "text", any)] tail_: V<2>,
        #[opg(number, inline, "text")] #[serde(skip_deserializing)] f3_x: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, integer)] f4_x: X<1>,
    },
}
fn e348() {
    tag("E348");
    let all = [j(&E348::HTTPThird { is_ok: X::<3>::default(), second: X::<1>::default(), a1_b2: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E348::X4th { deep_er_name: X::<0>::default(), r#type: X::<1>::default(), x__y: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E348::r#Fifth { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() })];
    let v = match choose(3) {
        0 => E348::HTTPThird { is_ok: X::<3>::any(), second: X::<1>::any(), a1_b2: X::<0>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        1 => E348::X4th { deep_er_name: X::<0>::any(), r#type: X::<1>::any(), x__y: X::<1>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        _ => E348::r#Fifth { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
    };
    enumeration(ty::<E348>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, true, true, false]), Mask::Fields(&[true, true, true, true, false, true]), Mask::Fields(&[true, true, true, true, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E349 {
    X4th {
        #[opg(integer, optional, "text")] #[serde(rename = "re-N145")] deep_er_name: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, boolean)] r#type: X<3>,
        #[opg(boolean, "text", example = "e", format = "f")] #[serde(default)] x__y: X<3>,
        #[serde(rename(serialize = "Ser241", deserialize = "De241"))] #[opg(integer, nullable)] f3_x: X<1>,
        #[serde(skip)] #[opg(inline)] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth {
        #[opg(format = "f", example = "e", "text", any)] #[serde(rename = "re-N202")] first_one: V<0>,
        #[serde(rename = "Gone 438", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", inline, string)] _lead: X<0>,
        #[serde(skip_deserializing)] #[opg(boolean, optional)] tail_: X<3>,
        #[serde(rename = "re-N131")] #[opg(string, optional, example = "e", format = "f")] f3_x: X<0>,
        #[serde(rename = "Gone 481", skip_serializing_if = "gone")] #[opg(boolean, example = "e", format = "f")] f4_x: X<3>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th {
        #[serde(default)] #[opg(string, inline)] second: X<0>,
        #[opg("text", nullable, string)] #[serde(skip_serializing_if = "gone")] a1_b2: X<0>,
        #[serde(rename = "re-N152")] #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] r#fn: X<1>,
        #[serde(rename = "re-N118")] #[opg(optional, inline, nullable, "text", format = "f", example = "e")] f3_x: V<0>,
        #[opg(nullable, inline, integer)] f4_x: X<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(V<0>, #[opg(number)] #[serde(skip_deserializing)] X<2>, #[serde(skip_deserializing)] #[opg(boolean, inline, example = "e", format = "f")] X<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[serde(skip_deserializing)] #[opg("text", nullable, any)] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[opg(integer)] X<1>),
}
fn e349() {
    tag("E349");
    let all = [j(&E349::X4th { deep_er_name: X::<1>::default(), r#type: X::<3>::default(), x__y: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E349::r#Fifth { first_one: V::<0>::default(), _lead: X::<0>::default(), tail_: X::<3>::default(), f3_x: X::<0>::default(), f4_x: X::<3>::default() }), j(&E349::Six_th { second: X::<0>::default(), a1_b2: X::<0>::default(), r#fn: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E349::Z(V::<0>::default(), X::<2>::default(), X::<3>::default())), j(&E349::First(V::<0>::default())), j(&E349::SecondOne(X::<1>::default()))];
    let v = match choose(6) {
        0 => E349::X4th { deep_er_name: X::<1>::any(), r#type: X::<3>::maybe(), x__y: X::<3>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        1 => E349::r#Fifth { first_one: V::<0>::any(), _lead: X::<0>::maybe(), tail_: X::<3>::any(), f3_x: X::<0>::any(), f4_x: X::<3>::any() },
        2 => E349::Six_th { second: X::<0>::any(), a1_b2: X::<0>::maybe(), r#fn: X::<1>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        3 => E349::Z(V::<0>::any(), X::<2>::any(), X::<3>::any()),
        4 => E349::First(V::<0>::any()),
        _ => E349::SecondOne(X::<1>::any()),
    };
    enumeration(ty::<E349>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, false, true, true]), Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[true, false, false, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E350 {
    r#Fifth {
        #[opg(boolean, nullable)] #[serde(skip_serializing_if = "gone")] first_one: X<3>,
        #[serde(skip_deserializing)] #[opg(integer, nullable)] _lead: X<1>,
        #[opg(format = "f", example = "e", "text", number)] #[serde(rename = "re-N168")] tail_: X<2>,
        #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename(serialize = "Ser271", deserialize = "De271"))] f3_x: X<2>,
        #[opg(boolean, nullable, "text")] f4_x: X<3>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th {
        #[serde(rename = "Gone 494", skip_serializing_if = "gone")] #[opg(optional, any)] second: V<0>,
        #[serde(default)] #[opg(number, inline, "text")] a1_b2: X<2>,
        #[opg(inline, optional, integer)] r#fn: X<1>,
        #[opg("text", optional, any)] f3_x: V<0>,
        #[opg(boolean, optional, "text")] #[serde(rename = "re-N179")] f4_x: X<3>,
    },
    #[opg(inline)]
    Z {
        #[opg(string)] #[serde(rename = "Gone 425", skip_serializing_if = "gone")] r#type: X<0>,
        #[serde(default)] #[opg(string, nullable, example = "e", format = "f")] x__y: X<0>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] #[serde(rename(serialize = "Ser254", deserialize = "De254"))] is_ok: X<1>,
        #[opg(format = "f", example = "e", number)] f3_x: X<2>,
        #[serde(rename(serialize = "Ser226", deserialize = "De226"))] #[opg(format = "f", example = "e", string)] f4_x: X<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    First(#[opg("text", boolean)] #[serde(skip_deserializing)] X<3>, #[opg(string, inline, "text")] X<0>, #[opg("text", nullable, number)] X<2>),
    #[serde(rename = "re-Named")]
    SecondOne(#[serde(skip_deserializing)] #[opg(nullable, "text")] V<0>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(#[opg(any, inline, "text")] #[serde(skip_deserializing)] V<1>),
}
fn e350() {
    tag("E350");
    let all = [j(&E350::r#Fifth { first_one: X::<3>::default(), _lead: X::<1>::default(), tail_: X::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E350::Six_th { second: V::<0>::default(), a1_b2: X::<2>::default(), r#fn: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E350::Z { r#type: X::<0>::default(), x__y: X::<0>::default(), is_ok: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default() }), j(&E350::First(X::<3>::default(), X::<0>::default(), X::<2>::default())), j(&E350::SecondOne(V::<0>::default())), j(&E350::HTTPThird(V::<1>::default()))];
    let v = match choose(6) {
        0 => E350::r#Fifth { first_one: X::<3>::maybe(), _lead: X::<1>::any(), tail_: X::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        1 => E350::Six_th { second: V::<0>::maybe(), a1_b2: X::<2>::any(), r#fn: X::<1>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        2 => E350::Z { r#type: X::<0>::maybe(), x__y: X::<0>::any(), is_ok: X::<1>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any() },
        3 => E350::First(X::<3>::any(), X::<0>::any(), X::<2>::any()),
        4 => E350::SecondOne(V::<0>::any()),
        _ => E350::HTTPThird(V::<1>::any()),
    };
    enumeration(ty::<E350>(), Repr::Untagged, &all, &[Mask::Fields(&[false, true, true, false, true]), Mask::Fields(&[false, true, false, false, false]), Mask::Fields(&[false, true, false, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E351 {
    Six_th {
        #[serde(rename(serialize = "Ser213", deserialize = "De213"))] #[opg(optional, "text")] second: V<0>,
        #[opg("text", boolean)] #[serde(rename(serialize = "Ser276", deserialize = "De276"))] a1_b2: X<3>,
        #[serde(rename(serialize = "Ser207", deserialize = "De207"))] #[opg(nullable)] r#fn: V<2>,
        #[opg(integer, "text", example = "e", format = "f")] #[serde(default)] f3_x: X<1>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e")] #[serde(skip_deserializing)] f4_x: V<1>,
    },
    #[opg(inline)]
    Z {
        #[opg(string, optional, inline)] #[serde(skip_deserializing)] r#type: X<0>,
        #[serde(rename(serialize = "Ser253", deserialize = "De253"))] #[opg(integer, "text", example = "e", format = "f")] x__y: X<1>,
        #[opg(optional, number)] #[serde(skip_serializing_if = "gone")] is_ok: X<2>,
        #[opg(format = "f", example = "e", inline, number)] #[serde(skip_serializing_if = "gone")] f3_x: X<2>,
        #[opg("text", optional, any)] #[serde(rename = "re-N196")] f4_x: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
        #[serde(skip_deserializing)] #[opg(boolean, "text", example = "e", format = "f")] _lead: X<3>,
        #[opg(number, nullable, example = "e", format = "f")] #[serde(rename = "Gone 473", skip_serializing_if = "gone")] tail_: X<2>,
        #[opg(number, inline, "text")] deep_er_name: X<2>,
        #[opg("text", optional, string)] #[serde(skip_serializing_if = "gone")] f3_x: X<0>,
        #[serde(rename = "re-N187")] #[opg(any)] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne(#[opg(format = "f", example = "e", nullable, integer)] #[serde(skip_deserializing)] X<1>, #[opg(inline, boolean)] #[serde(skip_deserializing)] X<3>, #[opg(string, inline, nullable)] X<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[serde(skip_deserializing)] #[opg(boolean, nullable)] X<3>),
    #[opg(inline)]
    X4th(#[opg(any)] #[serde(skip_deserializing)] V<1>),
}
fn e351() {
    tag("E351");
    let all = [j(&E351::Six_th { second: V::<0>::default(), a1_b2: X::<3>::default(), r#fn: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E351::Z { r#type: X::<0>::default(), x__y: X::<1>::default(), is_ok: X::<2>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default() }), j(&E351::First { _lead: X::<3>::default(), tail_: X::<2>::default(), deep_er_name: X::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E351::SecondOne(X::<1>::default(), X::<3>::default(), X::<0>::default())), j(&E351::HTTPThird(X::<3>::default())), j(&E351::X4th(V::<1>::default()))];
    let v = match choose(6) {
        0 => E351::Six_th { second: V::<0>::any(), a1_b2: X::<3>::any(), r#fn: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        1 => E351::Z { r#type: X::<0>::any(), x__y: X::<1>::any(), is_ok: X::<2>::maybe(), f3_x: X::<2>::any(), f4_x: V::<1>::any() },
        2 => E351::First { _lead: X::<3>::any(), tail_: X::<2>::maybe(), deep_er_name: X::<2>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        3 => E351::SecondOne(X::<1>::any(), X::<3>::any(), X::<0>::any()),
        4 => E351::HTTPThird(X::<3>::any()),
        _ => E351::X4th(V::<1>::any()),
    };
    enumeration(ty::<E351>(), Repr::External, &all, &[Mask::Fields(&[false, true, true, true, false]), Mask::Fields(&[false, true, false, false, false]), Mask::Fields(&[true, false, true, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub enum E352 {
    Z {
        #[opg(number, nullable, example = "e", format = "f")] #[serde(rename(serialize = "Ser269", deserialize = "De269"))] r#type: X<2>,
        #[opg(boolean, example = "e", format = "f")] #[serde(rename = "re-N175")] x__y: X<3>,
        #[serde(rename(serialize = "Ser239", deserialize = "De239"))] #[opg(integer, optional)] is_ok: X<1>,
        #[opg(number, optional, example = "e", format = "f")] #[serde(rename = "Gone 471", skip_serializing_if = "gone")] f3_x: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, inline, nullable)] f4_x: X<0>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First {
        #[opg(inline, optional)] #[serde(skip_deserializing)] _lead: V<0>,
        #[serde(rename = "re-N135")] #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] tail_: X<0>,
        #[serde(skip_deserializing)] #[opg(nullable, optional, string)] deep_er_name: X<0>,
        #[serde(default)] #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] f3_x: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg("text", boolean)] f4_x: X<3>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne {
        #[opg(nullable, inline)] #[serde(rename = "Gone 416", skip_serializing_if = "gone")] a1_b2: V<0>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", number)] r#fn: X<2>,
        #[serde(rename(serialize = "Ser268", deserialize = "De268"))] #[opg(format = "f", example = "e", inline, number)] first_one: X<2>,
        #[opg(string, inline, nullable)] #[serde(skip_deserializing)] f3_x: X<0>,
        #[serde(default)] #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] f4_x: X<2>,
    },
}
fn e352() {
    tag("E352");
    let all = [j(&E352::Z { r#type: X::<2>::default(), x__y: X::<3>::default(), is_ok: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default() }), j(&E352::First { _lead: V::<0>::default(), tail_: X::<0>::default(), deep_er_name: X::<0>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default() }), j(&E352::SecondOne { a1_b2: V::<0>::default(), r#fn: X::<2>::default(), first_one: X::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default() })];
    let v = match choose(3) {
        0 => E352::Z { r#type: X::<2>::any(), x__y: X::<3>::any(), is_ok: X::<1>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any() },
        1 => E352::First { _lead: V::<0>::any(), tail_: X::<0>::any(), deep_er_name: X::<0>::any(), f3_x: X::<3>::any(), f4_x: X::<3>::any() },
        _ => E352::SecondOne { a1_b2: V::<0>::maybe(), r#fn: X::<2>::any(), first_one: X::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<2>::any() },
    };
    enumeration(ty::<E352>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, false, false, false]), Mask::Fields(&[true, false, false, false, false, false]), Mask::Fields(&[true, false, true, true, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E353 {
    First {
        #[serde(rename = "Gone 466", skip_serializing_if = "gone")] #[opg(nullable, optional, number)] _lead: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg("text", inline, boolean)] tail_: X<3>,
        #[opg(inline, boolean)] deep_er_name: X<3>,
        #[opg(nullable, inline)] #[serde(rename(serialize = "Ser212", deserialize = "De212"))] f3_x: V<0>,
        #[opg(integer, optional)] #[serde(skip_serializing_if = "gone")] f4_x: X<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne {
        #[opg(format = "f", example = "e", nullable)] #[serde(rename(serialize = "Ser218", deserialize = "De218"))] a1_b2: V<0>,
        #[opg(format = "f", example = "e", inline, string)] #[serde(skip_serializing_if = "gone")] r#fn: X<0>,
        #[serde(skip_serializing_if = "gone")] #[opg("text", integer)] first_one: X<1>,
        #[opg(number, optional, example = "e", format = "f")] #[serde(skip_deserializing)] f3_x: X<2>,
        #[serde(rename(serialize = "Ser283", deserialize = "De283"))] #[opg(boolean, nullable, "text")] f4_x: X<3>,
    },
    HTTPThird {
        #[opg(format = "f", example = "e", any)] x__y: V<0>,
        #[opg(format = "f", example = "e", optional, boolean)] #[serde(rename = "Gone 488", skip_serializing_if = "gone")] is_ok: X<3>,
        #[opg("text", example = "e", format = "f")] second: V<2>,
        #[opg("text")] f3_x: V<0>,
        #[serde(rename = "re-N146")] #[opg("text", inline, integer)] f4_x: X<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[opg(number, nullable, example = "e", format = "f")] X<2>, #[opg(format = "f", example = "e", inline, any)] V<1>, #[opg(any, "text")] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[opg(nullable)] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(V<1>),
}
fn e353() {
    tag("E353");
    let all = [j(&E353::First { _lead: X::<2>::default(), tail_: X::<3>::default(), deep_er_name: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E353::SecondOne { a1_b2: V::<0>::default(), r#fn: X::<0>::default(), first_one: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E353::HTTPThird { x__y: V::<0>::default(), is_ok: X::<3>::default(), second: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E353::X4th(X::<2>::default(), V::<1>::default(), V::<2>::default())), j(&E353::r#Fifth(V::<0>::default())), j(&E353::Six_th(V::<1>::default()))];
    let v = match choose(6) {
        0 => E353::First { _lead: X::<2>::maybe(), tail_: X::<3>::maybe(), deep_er_name: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        1 => E353::SecondOne { a1_b2: V::<0>::any(), r#fn: X::<0>::maybe(), first_one: X::<1>::maybe(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        2 => E353::HTTPThird { x__y: V::<0>::any(), is_ok: X::<3>::maybe(), second: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        3 => E353::X4th(X::<2>::any(), V::<1>::any(), V::<2>::any()),
        4 => E353::r#Fifth(V::<0>::any()),
        _ => E353::Six_th(V::<1>::any()),
    };
    enumeration(ty::<E353>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, false, true, true, false]), Mask::Fields(&[true, false, false, false, true]), Mask::Fields(&[true, false, true, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum E354 {
    SecondOne {
        #[serde(skip_serializing_if = "gone")] #[opg(optional, inline, nullable, "text", format = "f", example = "e")] a1_b2: V<0>,
        #[serde(rename = "re-N165")] #[opg(number, optional, example = "e", format = "f")] r#fn: X<2>,
        #[serde(rename = "re-N203")] #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] first_one: V<2>,
        #[opg(string, optional, example = "e", format = "f")] #[serde(skip_deserializing)] f3_x: X<0>,
        #[opg(string, "text")] #[serde(skip_deserializing)] f4_x: X<0>,
    },
    HTTPThird {
        #[opg(format = "f", example = "e", "text", number)] x__y: X<2>,
        #[serde(skip_deserializing)] #[opg(optional, "text")] is_ok: V<1>,
        #[serde(rename = "Gone 434", skip_serializing_if = "gone")] #[opg("text", optional, string)] second: X<0>,
        #[opg(integer, optional)] #[serde(default)] f3_x: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", nullable)] f4_x: V<1>,
    },
    #[serde(rename = "re-Named")]
    X4th {
        #[serde(skip_deserializing)] #[opg("text", optional, any)] tail_: V<0>,
        #[serde(skip_deserializing)] #[opg(optional, number)] deep_er_name: X<2>,
        #[serde(skip_deserializing)] #[opg(optional)] r#type: V<2>,
        #[serde(default)] #[opg(inline, integer)] f3_x: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline, optional)] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    r#Fifth(#[opg(format = "f", example = "e", "text", any)] V<0>, #[opg(number, inline, "text")] #[serde(skip_deserializing)] X<2>, #[serde(skip)] #[opg(inline)] V<2>),
    #[opg(inline)]
    Six_th(#[opg(number)] #[serde(skip_deserializing)] X<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[serde(skip_deserializing)] #[opg(boolean, inline, example = "e", format = "f")] X<3>),
}
fn e354() {
    tag("E354");
    let all = [j(&E354::SecondOne { a1_b2: V::<0>::default(), r#fn: X::<2>::default(), first_one: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E354::HTTPThird { x__y: X::<2>::default(), is_ok: V::<1>::default(), second: X::<0>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E354::X4th { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E354::r#Fifth(V::<0>::default(), X::<2>::default(), V::<2>::default())), j(&E354::Six_th(X::<2>::default())), j(&E354::Z(X::<3>::default()))];
    let v = match choose(6) {
        0 => E354::SecondOne { a1_b2: V::<0>::maybe(), r#fn: X::<2>::any(), first_one: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        1 => E354::HTTPThird { x__y: X::<2>::any(), is_ok: V::<1>::any(), second: X::<0>::maybe(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        2 => E354::X4th { tail_: V::<0>::any(), deep_er_name: X::<2>::any(), r#type: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        3 => E354::r#Fifth(V::<0>::any(), X::<2>::any(), V::<2>::any()),
        4 => E354::Six_th(X::<2>::any()),
        _ => E354::Z(X::<3>::any()),
    };
    enumeration(ty::<E354>(), Repr::Untagged, &all, &[Mask::Fields(&[false, false, false, false, true]), Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[false, false, false, true, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub enum E355 {
    HTTPThird {
        #[serde(rename = "re-N138")] #[opg(inline, integer)] x__y: X<1>,
        #[serde(rename(serialize = "Ser249", deserialize = "De249"))] #[opg(integer, nullable, "text")] is_ok: X<1>,
        #[serde(rename = "re-N140")] #[opg("text", integer)] second: X<1>,
        #[opg(nullable, optional, string)] #[serde(skip_serializing_if = "gone")] f3_x: X<0>,
        #[opg(inline)] #[serde(rename(serialize = "Ser206", deserialize = "De206"))] f4_x: V<1>,
    },
    #[serde(rename = "re-Named")]
    X4th {
        #[serde(default)] #[opg(integer)] tail_: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, inline, "text")] deep_er_name: V<1>,
        #[serde(default)] #[opg(number, "text")] r#type: X<2>,
        #[opg("text", inline)] #[serde(rename = "Gone 418", skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(integer, example = "e", format = "f")] #[serde(default)] f4_x: X<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth {
        #[opg(number, optional, example = "e", format = "f")] r#fn: X<2>,
        #[serde(default)] #[opg(format = "f", example = "e", optional, boolean)] first_one: X<3>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e")] #[serde(rename(serialize = "Ser220", deserialize = "De220"))] _lead: V<2>,
        #[opg(nullable, string)] #[serde(skip_serializing_if = "gone")] f3_x: X<0>,
        #[serde(skip_deserializing)] #[opg("text", example = "e", format = "f")] f4_x: V<1>,
    },
    Six_th(#[opg(nullable, inline, integer)] X<1>, #[serde(skip_deserializing)] #[opg(integer, nullable)] X<1>, #[opg(boolean, nullable, "text")] X<3>),
    Z(#[opg("text", boolean)] #[serde(skip_deserializing)] X<3>),
}
fn e355() {
    tag("E355");
    let all = [j(&E355::HTTPThird { x__y: X::<1>::default(), is_ok: X::<1>::default(), second: X::<1>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E355::X4th { tail_: X::<1>::default(), deep_er_name: V::<1>::default(), r#type: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E355::r#Fifth { r#fn: X::<2>::default(), first_one: X::<3>::default(), _lead: V::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E355::Six_th(X::<1>::default(), X::<1>::default(), X::<3>::default())), j(&E355::Z(X::<3>::default()))];
    let v = match choose(5) {
        0 => E355::HTTPThird { x__y: X::<1>::any(), is_ok: X::<1>::any(), second: X::<1>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        1 => E355::X4th { tail_: X::<1>::any(), deep_er_name: V::<1>::maybe(), r#type: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        2 => E355::r#Fifth { r#fn: X::<2>::any(), first_one: X::<3>::any(), _lead: V::<2>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        3 => E355::Six_th(X::<1>::any(), X::<1>::any(), X::<3>::any()),
        _ => E355::Z(X::<3>::any()),
    };
    enumeration(ty::<E355>(), Repr::External, &all, &[Mask::Fields(&[true, true, true, false, true]), Mask::Fields(&[true, false, true, false, true]), Mask::Fields(&[false, false, false, false, true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t-Ag")]
pub enum E356 {
    X4th {
        #[serde(rename = "Gone 464", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", number)] tail_: X<2>,
        #[opg(inline, optional, boolean)] #[serde(rename = "Gone 482", skip_serializing_if = "gone")] deep_er_name: X<3>,
        #[serde(rename = "re-N153")] #[opg(number)] r#type: X<2>,
        #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename = "Gone 441", skip_serializing_if = "gone")] f3_x: X<0>,
        #[serde(rename(serialize = "Ser266", deserialize = "De266"))] #[opg("text", nullable, number)] f4_x: X<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth {
        #[opg("text", optional, number)] #[serde(default)] r#fn: X<2>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e")] first_one: V<1>,
        #[serde(rename(serialize = "Ser270", deserialize = "De270"))] #[opg(format = "f", example = "e", "text", number)] _lead: X<2>,
        #[opg("text", inline, boolean)] #[serde(rename = "Gone 486", skip_serializing_if = "gone")] f3_x: X<3>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, string)] f4_x: X<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
        #[serde(skip_serializing_if = "gone")] #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] is_ok: X<1>,
        #[opg(number, inline, nullable)] #[serde(rename(serialize = "Ser263", deserialize = "De263"))] second: X<2>,
        #[opg(nullable, number)] a1_b2: X<2>,
        #[opg(nullable, number)] #[serde(rename = "re-N156")] f3_x: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline, integer)] f4_x: X<1>,
    },
}
fn e356() {
    tag("E356");
    let all = [j(&E356::X4th { tail_: X::<2>::default(), deep_er_name: X::<3>::default(), r#type: X::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default() }), j(&E356::r#Fifth { r#fn: X::<2>::default(), first_one: V::<1>::default(), _lead: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default() }), j(&E356::Six_th { is_ok: X::<1>::default(), second: X::<2>::default(), a1_b2: X::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() })];
    let v = match choose(3) {
        0 => E356::X4th { tail_: X::<2>::maybe(), deep_er_name: X::<3>::maybe(), r#type: X::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<2>::any() },
        1 => E356::r#Fifth { r#fn: X::<2>::any(), first_one: V::<1>::any(), _lead: X::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<0>::any() },
        _ => E356::Six_th { is_ok: X::<1>::maybe(), second: X::<2>::any(), a1_b2: X::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
    };
    enumeration(ty::<E356>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, false, true, false, true]), Mask::Fields(&[true, false, false, true, false, true]), Mask::Fields(&[true, false, true, true, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "t", content = "c")]
pub enum E357 {
    r#Fifth {
        #[serde(skip_deserializing)] #[opg(nullable, number)] r#fn: X<2>,
        #[opg(nullable, inline, boolean)] first_one: X<3>,
        #[opg(any, optional, inline)] _lead: V<2>,
        #[opg(inline, integer)] #[serde(skip_deserializing)] f3_x: X<1>,
        #[opg(any, inline, "text")] #[serde(rename = "Gone 503", skip_serializing_if = "gone")] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
        #[opg(format = "f", example = "e", any)] #[serde(skip_serializing_if = "gone")] is_ok: V<0>,
        #[serde(skip_serializing_if = "gone")] second: V<1>,
        #[serde(rename(serialize = "Ser256", deserialize = "De256"))] #[opg(optional, number)] a1_b2: X<2>,
        #[opg(any, inline, "text")] #[serde(rename(serialize = "Ser299", deserialize = "De299"))] f3_x: V<0>,
        #[serde(default)] #[opg(string, inline, nullable)] f4_x: X<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
        #[serde(skip_serializing_if = "gone")] #[opg(string, "text")] deep_er_name: X<0>,
        #[serde(rename = "Gone 479", skip_serializing_if = "gone")] #[opg(boolean, nullable)] r#type: X<3>,
        #[opg(boolean, inline, example = "e", format = "f")] #[serde(rename = "re-N183")] x__y: X<3>,
        #[serde(rename = "re-N148")] #[opg(format = "f", example = "e", optional, integer)] f3_x: X<1>,
        #[opg("text", inline, integer)] #[serde(rename = "Gone 452", skip_serializing_if = "gone")] f4_x: X<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First(#[opg(format = "f", example = "e", number)] X<2>, #[serde(skip_deserializing)] #[opg(boolean, "text", example = "e", format = "f")] X<3>, #[opg(number, inline, "text")] X<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(#[opg("text", nullable, number)] X<2>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(#[opg(format = "f", example = "e", nullable, integer)] #[serde(skip_deserializing)] X<1>),
}
fn e357() {
    tag("E357");
    let all = [j(&E357::r#Fifth { r#fn: X::<2>::default(), first_one: X::<3>::default(), _lead: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E357::Six_th { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E357::Z { deep_er_name: X::<0>::default(), r#type: X::<3>::default(), x__y: X::<3>::default(), f3_x: X::<1>::default(), f4_x: X::<1>::default() }), j(&E357::First(X::<2>::default(), X::<3>::default(), X::<2>::default())), j(&E357::SecondOne(X::<2>::default())), j(&E357::HTTPThird(X::<1>::default()))];
    let v = match choose(6) {
        0 => E357::r#Fifth { r#fn: X::<2>::any(), first_one: X::<3>::any(), _lead: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        1 => E357::Six_th { is_ok: V::<0>::maybe(), second: V::<1>::maybe(), a1_b2: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        2 => E357::Z { deep_er_name: X::<0>::maybe(), r#type: X::<3>::maybe(), x__y: X::<3>::any(), f3_x: X::<1>::any(), f4_x: X::<1>::any() },
        3 => E357::First(X::<2>::any(), X::<3>::any(), X::<2>::any()),
        4 => E357::SecondOne(X::<2>::any()),
        _ => E357::HTTPThird(X::<1>::any()),
    };
    enumeration(ty::<E357>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, false, true, false]), Mask::Fields(&[false, false, false, true, true]), Mask::Fields(&[false, false, true, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum E358 {
    Six_th {
        #[opg(nullable, "text")] is_ok: V<0>,
        #[opg("text", integer)] second: X<1>,
        #[opg("text", nullable, string)] #[serde(default)] a1_b2: X<0>,
        #[opg("text")] #[serde(rename = "Gone 412", skip_serializing_if = "gone")] f3_x: V<0>,
        #[serde(rename = "Gone 430", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", string)] f4_x: X<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
        #[opg(format = "f", example = "e", optional, integer)] #[serde(skip_deserializing)] deep_er_name: X<1>,
        #[serde(rename = "Gone 468", skip_serializing_if = "gone")] #[opg("text", optional, number)] r#type: X<2>,
        #[opg(format = "f", example = "e", string)] #[serde(rename = "re-N124")] x__y: X<0>,
        #[opg("text", inline)] f3_x: V<0>,
        #[opg("text", nullable, number)] #[serde(default)] f4_x: X<2>,
    },
    #[opg(inline)]
    First {
        #[serde(skip_deserializing)] #[opg(nullable)] first_one: V<0>,
        #[opg(integer, inline, example = "e", format = "f")] _lead: X<1>,
        #[opg(number, inline, nullable)] #[serde(skip_deserializing)] tail_: X<2>,
        #[opg(inline, optional, boolean)] #[serde(rename(serialize = "Ser278", deserialize = "De278"))] f3_x: X<3>,
        #[opg(nullable, any)] #[serde(default)] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    SecondOne(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", number)] X<2>, #[opg(string, inline, nullable)] #[serde(skip_deserializing)] X<0>, #[opg(inline, boolean)] X<3>),
    #[serde(rename = "re-Named")]
    HTTPThird(#[opg(inline, boolean)] #[serde(skip_deserializing)] X<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[opg(string, inline, nullable)] X<0>),
}
fn e358() {
    tag("E358");
    let all = [j(&E358::Six_th { is_ok: V::<0>::default(), second: X::<1>::default(), a1_b2: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E358::Z { deep_er_name: X::<1>::default(), r#type: X::<2>::default(), x__y: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E358::First { first_one: V::<0>::default(), _lead: X::<1>::default(), tail_: X::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E358::SecondOne(X::<2>::default(), X::<0>::default(), X::<3>::default())), j(&E358::HTTPThird(X::<3>::default())), j(&E358::X4th(X::<0>::default()))];
    let v = match choose(6) {
        0 => E358::Six_th { is_ok: V::<0>::any(), second: X::<1>::any(), a1_b2: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        1 => E358::Z { deep_er_name: X::<1>::any(), r#type: X::<2>::maybe(), x__y: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        2 => E358::First { first_one: V::<0>::any(), _lead: X::<1>::any(), tail_: X::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        3 => E358::SecondOne(X::<2>::any(), X::<0>::any(), X::<3>::any()),
        4 => E358::HTTPThird(X::<3>::any()),
        _ => E358::X4th(X::<0>::any()),
    };
    enumeration(ty::<E358>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, true, false, false]), Mask::Fields(&[false, false, true, true, true]), Mask::Fields(&[true, true, true, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub enum E359 {
    Z {
        #[opg(nullable, optional, any)] #[serde(default)] deep_er_name: V<0>,
        #[serde(rename = "re-N125")] #[opg(string, optional, inline)] r#type: X<0>,
        #[serde(rename = "re-N155")] #[opg(number, inline)] x__y: X<2>,
        #[opg(nullable, inline, integer)] #[serde(skip_deserializing)] f3_x: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, optional, example = "e", format = "f")] f4_x: X<0>,
    },
    #[opg(inline)]
    First {
        #[opg(any, inline, "text")] first_one: V<0>,
        #[serde(rename = "Gone 502", skip_serializing_if = "gone")] #[opg("text", optional, any)] _lead: V<1>,
        #[serde(default)] #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] tail_: X<0>,
        #[opg("text", example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(boolean)] #[serde(rename = "Gone 476", skip_serializing_if = "gone")] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne {
        #[serde(default)] #[opg(format = "f", example = "e", optional, integer)] second: X<1>,
        #[serde(rename = "Gone 498", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", any)] a1_b2: V<1>,
        #[serde(rename(serialize = "Ser294", deserialize = "De294"))] #[opg(format = "f", example = "e", any)] r#fn: V<2>,
        #[serde(skip_deserializing)] #[opg(integer, example = "e", format = "f")] f3_x: X<1>,
        #[opg(string, inline, nullable)] #[serde(rename(serialize = "Ser229", deserialize = "De229"))] f4_x: X<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird(#[opg(format = "f", example = "e", any)] V<0>, #[opg("text", example = "e", format = "f")] V<1>, #[opg("text")] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[opg(number, nullable, example = "e", format = "f")] X<2>),
    #[opg(inline)]
    r#Fifth(#[opg(format = "f", example = "e", inline, any)] V<1>),
}
fn e359() {
    tag("E359");
    let all = [j(&E359::Z { deep_er_name: V::<0>::default(), r#type: X::<0>::default(), x__y: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default() }), j(&E359::First { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E359::SecondOne { second: X::<1>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default() }), j(&E359::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E359::X4th(X::<2>::default())), j(&E359::r#Fifth(V::<1>::default()))];
    let v = match choose(6) {
        0 => E359::Z { deep_er_name: V::<0>::any(), r#type: X::<0>::any(), x__y: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<0>::any() },
        1 => E359::First { first_one: V::<0>::any(), _lead: V::<1>::maybe(), tail_: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        2 => E359::SecondOne { second: X::<1>::any(), a1_b2: V::<1>::maybe(), r#fn: V::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<0>::any() },
        3 => E359::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        4 => E359::X4th(X::<2>::any()),
        _ => E359::r#Fifth(V::<1>::any()),
    };
    enumeration(ty::<E359>(), Repr::External, &all, &[Mask::Fields(&[false, false, true, true, false]), Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[false, false, true, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t-Ag")]
pub enum E360 {
    First {
        #[opg(integer, nullable, "text")] first_one: X<1>,
        #[opg(integer, optional, nullable)] #[serde(rename = "re-N143")] _lead: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any)] tail_: V<2>,
        #[serde(rename = "re-N184")] #[opg(format = "f", example = "e", nullable, boolean)] f3_x: X<3>,
        #[opg(nullable, optional, string)] #[serde(rename = "re-N126")] f4_x: X<0>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne {
        #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] second: V<0>,
        #[serde(rename = "re-N157")] #[opg(number, "text")] a1_b2: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg("text", inline, integer)] r#fn: X<1>,
        #[serde(default)] #[opg(string)] f3_x: X<0>,
        #[serde(default)] #[opg(inline, optional, boolean)] f4_x: X<3>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
        #[serde(default)] #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] r#type: V<0>,
        #[serde(rename = "re-N182")] #[opg(format = "f", example = "e", optional, boolean)] x__y: X<3>,
        #[opg(inline, integer)] #[serde(rename(serialize = "Ser240", deserialize = "De240"))] is_ok: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(number)] f3_x: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg("text", inline)] f4_x: V<1>,
    },
}
fn e360() {
    tag("E360");
    let all = [j(&E360::First { first_one: X::<1>::default(), _lead: X::<1>::default(), tail_: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default() }), j(&E360::SecondOne { second: V::<0>::default(), a1_b2: X::<2>::default(), r#fn: X::<1>::default(), f3_x: X::<0>::default(), f4_x: X::<3>::default() }), j(&E360::HTTPThird { r#type: V::<0>::default(), x__y: X::<3>::default(), is_ok: X::<1>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default() })];
    let v = match choose(3) {
        0 => E360::First { first_one: X::<1>::any(), _lead: X::<1>::any(), tail_: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: X::<0>::any() },
        1 => E360::SecondOne { second: V::<0>::any(), a1_b2: X::<2>::any(), r#fn: X::<1>::maybe(), f3_x: X::<0>::any(), f4_x: X::<3>::any() },
        _ => E360::HTTPThird { r#type: V::<0>::any(), x__y: X::<3>::any(), is_ok: X::<1>::any(), f3_x: X::<2>::any(), f4_x: V::<1>::any() },
    };
    enumeration(ty::<E360>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, false, false, true, false]), Mask::Fields(&[true, false, true, false, true, false]), Mask::Fields(&[true, false, false, true, false, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(tag = "t", content = "c")]
pub enum E361 {
    SecondOne {
        #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(skip_deserializing)] second: X<0>,
        #[opg(inline, example = "e", format = "f")] #[serde(default)] a1_b2: V<1>,
        #[opg("text", nullable, any)] #[serde(default)] r#fn: V<2>,
        #[opg(string, optional, example = "e", format = "f")] #[serde(rename(serialize = "Ser233", deserialize = "De233"))] f3_x: X<0>,
        #[opg(string, inline)] #[serde(rename = "Gone 427", skip_serializing_if = "gone")] f4_x: X<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
        #[serde(skip_serializing_if = "gone")] #[opg(number, optional, inline)] r#type: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, nullable, example = "e", format = "f")] x__y: X<0>,
        #[opg(format = "f", example = "e", "text", string)] is_ok: X<0>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] #[serde(skip_deserializing)] f3_x: X<1>,
        #[opg(nullable, optional, number)] #[serde(rename = "re-N160")] f4_x: X<2>,
    },
    X4th {
        #[opg(format = "f", example = "e", inline, any)] #[serde(rename = "re-N200")] _lead: V<0>,
        #[serde(default)] #[opg(any, inline)] tail_: V<1>,
        #[serde(skip_deserializing)] #[opg(boolean, example = "e", format = "f")] deep_er_name: X<3>,
        #[opg(format = "f", example = "e", any)] #[serde(default)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(inline, optional, boolean)] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[opg(string, "text")] #[serde(skip_deserializing)] X<0>, #[opg(format = "f", example = "e", "text", number)] X<2>, #[serde(skip_deserializing)] #[opg("text", example = "e", format = "f")] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[opg(any, "text")] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(#[opg(format = "f", example = "e", "text", any)] V<1>),
}
fn e361() {
    tag("E361");
    let all = [j(&E361::SecondOne { second: X::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E361::HTTPThird { r#type: X::<2>::default(), x__y: X::<0>::default(), is_ok: X::<0>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default() }), j(&E361::X4th { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E361::r#Fifth(X::<0>::default(), X::<2>::default(), V::<2>::default())), j(&E361::Six_th(V::<0>::default())), j(&E361::Z(V::<1>::default()))];
    let v = match choose(6) {
        0 => E361::SecondOne { second: X::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        1 => E361::HTTPThird { r#type: X::<2>::maybe(), x__y: X::<0>::maybe(), is_ok: X::<0>::any(), f3_x: X::<1>::any(), f4_x: X::<2>::any() },
        2 => E361::X4th { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        3 => E361::r#Fifth(X::<0>::any(), X::<2>::any(), V::<2>::any()),
        4 => E361::Six_th(V::<0>::any()),
        _ => E361::Z(V::<1>::any()),
    };
    enumeration(ty::<E361>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true, true, false, false]), Mask::Fields(&[false, false, true, false, false]), Mask::Fields(&[true, true, true, true, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E362 {
    HTTPThird {
        #[opg(inline)] #[serde(skip_deserializing)] r#type: V<0>,
        #[opg(inline, example = "e", format = "f")] x__y: V<1>,
        #[opg(format = "f", example = "e", "text", number)] #[serde(skip_serializing_if = "gone")] is_ok: X<2>,
        #[opg(example = "e", format = "f")] #[serde(default)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, inline, "text")] f4_x: X<0>,
    },
    X4th {
        #[serde(rename = "re-N106")] #[opg("text")] _lead: V<0>,
        #[opg(number)] tail_: X<2>,
        #[serde(rename = "re-N161")] #[opg(number, inline, nullable)] deep_er_name: X<2>,
        #[opg(inline, optional, integer)] #[serde(rename(serialize = "Ser244", deserialize = "De244"))] f3_x: X<1>,
        #[serde(rename = "re-N129")] #[opg(string, inline, "text")] f4_x: X<0>,
    },
    #[serde(rename = "re-Named")]
    r#Fifth {
        #[serde(rename = "Gone 411", skip_serializing_if = "gone")] #[opg(nullable)] a1_b2: V<0>,
        #[serde(rename = "re-N150")] #[opg(format = "f", example = "e", nullable, integer)] r#fn: X<1>,
        #[serde(rename(serialize = "Ser277", deserialize = "De277"))] #[opg(boolean, example = "e", format = "f")] first_one: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, optional, inline)] f3_x: V<0>,
        #[serde(rename(serialize = "Ser222", deserialize = "De222"))] #[opg(optional, string)] f4_x: X<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, string)] X<0>, #[opg(nullable, number)] X<2>, #[serde(skip_deserializing)] #[opg(nullable, number)] X<2>),
    #[opg(inline)]
    Z(#[opg(number, inline, "text")] #[serde(skip_deserializing)] X<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[opg(nullable, inline, integer)] X<1>),
}
fn e362() {
    tag("E362");
    let all = [j(&E362::HTTPThird { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E362::X4th { _lead: V::<0>::default(), tail_: X::<2>::default(), deep_er_name: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default() }), j(&E362::r#Fifth { a1_b2: V::<0>::default(), r#fn: X::<1>::default(), first_one: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E362::Six_th(X::<0>::default(), X::<2>::default(), X::<2>::default())), j(&E362::Z(X::<2>::default())), j(&E362::First(X::<1>::default()))];
    let v = match choose(6) {
        0 => E362::HTTPThird { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: X::<2>::maybe(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        1 => E362::X4th { _lead: V::<0>::any(), tail_: X::<2>::any(), deep_er_name: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<0>::any() },
        2 => E362::r#Fifth { a1_b2: V::<0>::maybe(), r#fn: X::<1>::any(), first_one: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        3 => E362::Six_th(X::<0>::any(), X::<2>::any(), X::<2>::any()),
        4 => E362::Z(X::<2>::any()),
        _ => E362::First(X::<1>::any()),
    };
    enumeration(ty::<E362>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false, true, false]), Mask::Fields(&[true, true, true, false, true]), Mask::Fields(&[false, true, true, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E363 {
    X4th {
        #[opg(optional, number)] _lead: X<2>,
        #[opg(boolean, inline, example = "e", format = "f")] tail_: X<3>,
        #[serde(skip_deserializing)] #[opg(nullable, optional, number)] deep_er_name: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline, integer)] f3_x: X<1>,
        #[opg(string, inline, nullable)] #[serde(rename = "Gone 433", skip_serializing_if = "gone")] f4_x: X<0>,
    },
    #[serde(rename = "re-Named")]
    r#Fifth {
        #[opg(format = "f", example = "e", "text", string)] #[serde(default)] a1_b2: X<0>,
        #[opg(number, inline, nullable)] r#fn: X<2>,
        #[opg(format = "f", example = "e", nullable, boolean)] first_one: X<3>,
        #[serde(rename(serialize = "Ser215", deserialize = "De215"))] #[opg(nullable, "text")] f3_x: V<0>,
        #[opg(nullable, optional, any)] #[serde(skip_serializing_if = "gone")] f4_x: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
        #[opg(nullable, string)] #[serde(rename = "re-N122")] x__y: X<0>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", any)] is_ok: V<1>,
        #[serde(rename = "Gone 408", skip_serializing_if = "gone")] second: V<2>,
        #[opg(boolean, nullable, "text")] #[serde(skip_serializing_if = "gone")] f3_x: X<3>,
        #[serde(rename(serialize = "Ser211", deserialize = "De211"))] #[opg(optional, nullable)] f4_x: V<1>,
    },
    Z(#[opg(nullable, inline, boolean)] X<3>, #[opg(inline, integer)] #[serde(skip_deserializing)] X<1>, #[opg(nullable, "text")] V<2>),
    First(#[serde(skip_deserializing)] #[opg(integer, nullable)] X<1>),
}
fn e363() {
    tag("E363");
    let all = [j(&E363::X4th { _lead: X::<2>::default(), tail_: X::<3>::default(), deep_er_name: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default() }), j(&E363::r#Fifth { a1_b2: X::<0>::default(), r#fn: X::<2>::default(), first_one: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E363::Six_th { x__y: X::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E363::Z(X::<3>::default(), X::<1>::default(), V::<2>::default())), j(&E363::First(X::<1>::default()))];
    let v = match choose(5) {
        0 => E363::X4th { _lead: X::<2>::any(), tail_: X::<3>::any(), deep_er_name: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<0>::any() },
        1 => E363::r#Fifth { a1_b2: X::<0>::any(), r#fn: X::<2>::any(), first_one: X::<3>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        2 => E363::Six_th { x__y: X::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        3 => E363::Z(X::<3>::any(), X::<1>::any(), V::<2>::any()),
        _ => E363::First(X::<1>::any()),
    };
    enumeration(ty::<E363>(), Repr::External, &all, &[Mask::Fields(&[false, true, false, false, false]), Mask::Fields(&[true, true, true, true, false]), Mask::Fields(&[true, true, false, false, false]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E364 {
    r#Fifth {
        #[opg(format = "f", example = "e", optional, integer)] a1_b2: X<1>,
        #[opg(optional, nullable)] r#fn: V<1>,
        #[opg(integer, nullable)] #[serde(skip_serializing_if = "gone")] first_one: X<1>,
        #[serde(rename = "Gone 417", skip_serializing_if = "gone")] #[opg(optional, "text")] f3_x: V<0>,
        #[opg(inline, optional)] f4_x: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
        #[opg(string, "text")] #[serde(rename = "Gone 429", skip_serializing_if = "gone")] x__y: X<0>,
        #[opg(string, optional, inline)] is_ok: X<0>,
        #[opg(number, "text")] second: X<2>,
        #[opg(integer, example = "e", format = "f")] #[serde(rename = "re-N141")] f3_x: X<1>,
        #[opg(any, optional, inline)] #[serde(skip_deserializing)] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] #[serde(rename = "Gone 458", skip_serializing_if = "gone")] tail_: X<1>,
        #[opg(any, "text")] #[serde(rename = "Gone 497", skip_serializing_if = "gone")] deep_er_name: V<1>,
        #[serde(skip)] #[opg("text", nullable)] r#type: V<2>,
        #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename = "Gone 475", skip_serializing_if = "gone")] f3_x: X<2>,
        #[serde(rename = "re-N186")] #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] f4_x: X<3>,
    },
}
fn e364() {
    tag("E364");
    let all = [j(&E364::r#Fifth { a1_b2: X::<1>::default(), r#fn: V::<1>::default(), first_one: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E364::Six_th { x__y: X::<0>::default(), is_ok: X::<0>::default(), second: X::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E364::Z { tail_: X::<1>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() })];
    let v = match choose(3) {
        0 => E364::r#Fifth { a1_b2: X::<1>::any(), r#fn: V::<1>::any(), first_one: X::<1>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E364::Six_th { x__y: X::<0>::maybe(), is_ok: X::<0>::any(), second: X::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        _ => E364::Z { tail_: X::<1>::maybe(), deep_er_name: V::<1>::maybe(), r#type: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
    };
    enumeration(ty::<E364>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, false, false, false, false]), Mask::Fields(&[true, false, false, true, true, false]), Mask::Fields(&[true, false, false, false, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum E365 {
    Six_th {
        #[serde(rename = "Gone 453", skip_serializing_if = "gone")] #[opg(integer, nullable, "text")] x__y: X<1>,
        #[opg(integer, optional, nullable)] is_ok: X<1>,
        #[opg(any)] #[serde(rename(serialize = "Ser289", deserialize = "De289"))] second: V<2>,
        #[serde(rename = "re-N114")] #[opg(format = "f", example = "e", optional)] f3_x: V<0>,
        #[serde(rename(serialize = "Ser281", deserialize = "De281"))] #[opg(boolean, optional, "text")] f4_x: X<3>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        #[serde(rename(serialize = "Ser292", deserialize = "De292"))] #[opg(nullable, any)] tail_: V<0>,
        #[opg(integer, example = "e", format = "f")] deep_er_name: X<1>,
        #[opg(format = "f", example = "e", nullable, boolean)] #[serde(rename = "Gone 490", skip_serializing_if = "gone")] r#type: X<3>,
        #[serde(rename(serialize = "Ser300", deserialize = "De300"))] #[opg("text", nullable, any)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(nullable, inline)] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    First {
        #[serde(rename = "Gone 421", skip_serializing_if = "gone")] #[opg(inline, example = "e", format = "f")] r#fn: V<0>,
        #[opg(format = "f", example = "e", nullable)] #[serde(rename = "Gone 422", skip_serializing_if = "gone")] first_one: V<1>,
        #[serde(skip_serializing)] #[opg("text", nullable)] _lead: V<2>,
        #[opg(boolean, optional, nullable)] f3_x: X<3>,
        #[serde(skip_deserializing)] #[opg(nullable, string)] f4_x: X<0>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[opg("text", integer)] X<1>, #[opg("text", inline)] V<1>, #[serde(skip_deserializing)] #[opg(nullable)] V<2>),
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird(#[opg(format = "f", example = "e", number)] X<2>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[serde(skip_deserializing)] #[opg(boolean, "text", example = "e", format = "f")] X<3>),
}
fn e365() {
    tag("E365");
    let all = [j(&E365::Six_th { x__y: X::<1>::default(), is_ok: X::<1>::default(), second: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E365::Z { tail_: V::<0>::default(), deep_er_name: X::<1>::default(), r#type: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E365::First { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default() }), j(&E365::SecondOne(X::<1>::default(), V::<1>::default(), V::<2>::default())), j(&E365::HTTPThird(X::<2>::default())), j(&E365::X4th(X::<3>::default()))];
    let v = match choose(6) {
        0 => E365::Six_th { x__y: X::<1>::maybe(), is_ok: X::<1>::any(), second: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        1 => E365::Z { tail_: V::<0>::any(), deep_er_name: X::<1>::any(), r#type: X::<3>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        2 => E365::First { r#fn: V::<0>::maybe(), first_one: V::<1>::maybe(), _lead: V::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<0>::any() },
        3 => E365::SecondOne(X::<1>::any(), V::<1>::any(), V::<2>::any()),
        4 => E365::HTTPThird(X::<2>::any()),
        _ => E365::X4th(X::<3>::any()),
    };
    enumeration(ty::<E365>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, false, true, false, false]), Mask::Fields(&[true, true, false, true, false]), Mask::Fields(&[false, false, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E366 {
    Z {
        #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename = "Gone 509", skip_serializing_if = "gone")] tail_: V<0>,
        #[opg(integer, nullable)] deep_er_name: X<1>,
        #[opg("text")] #[serde(rename(serialize = "Ser208", deserialize = "De208"))] r#type: V<2>,
        #[opg(string, optional, example = "e", format = "f")] #[serde(rename = "Gone 437", skip_serializing_if = "gone")] f3_x: X<0>,
        #[serde(default)] #[opg(string, inline, "text")] f4_x: X<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    First {
        #[opg(inline, boolean)] #[serde(rename = "Gone 478", skip_serializing_if = "gone")] r#fn: X<3>,
        #[opg(nullable, any)] #[serde(skip_serializing_if = "gone")] first_one: V<1>,
        #[opg("text", inline, boolean)] #[serde(rename(serialize = "Ser282", deserialize = "De282"))] _lead: X<3>,
        #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(skip_deserializing)] f3_x: X<2>,
        #[serde(rename = "Gone 457", skip_serializing_if = "gone")] #[opg(integer, "text", example = "e", format = "f")] f4_x: X<1>,
    },
    #[opg(inline)]
    SecondOne {
        #[opg(format = "f", example = "e", optional, integer)] #[serde(rename(serialize = "Ser250", deserialize = "De250"))] is_ok: X<1>,
        #[opg("text", optional, number)] #[serde(skip_serializing_if = "gone")] second: X<2>,
        #[opg(any, inline)] #[serde(rename = "Gone 495", skip_serializing_if = "gone")] a1_b2: V<2>,
        #[opg(nullable)] #[serde(skip_serializing_if = "gone")] f3_x: V<0>,
        #[serde(rename = "Gone 440", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", "text", string)] f4_x: X<0>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(#[opg(integer, inline, example = "e", format = "f")] X<1>, #[opg(number, inline, nullable)] #[serde(skip_deserializing)] X<2>, #[opg(nullable, inline, integer)] #[serde(skip_deserializing)] X<1>),
    #[serde(rename = "re-Named")]
    X4th(#[opg(number, inline, "text")] X<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    r#Fifth(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", number)] X<2>),
}
fn e366() {
    tag("E366");
    let all = [j(&E366::Z { tail_: V::<0>::default(), deep_er_name: X::<1>::default(), r#type: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E366::First { r#fn: X::<3>::default(), first_one: V::<1>::default(), _lead: X::<3>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() }), j(&E366::SecondOne { is_ok: X::<1>::default(), second: X::<2>::default(), a1_b2: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E366::HTTPThird(X::<1>::default(), X::<2>::default(), X::<1>::default())), j(&E366::X4th(X::<2>::default())), j(&E366::r#Fifth(X::<2>::default()))];
    let v = match choose(6) {
        0 => E366::Z { tail_: V::<0>::maybe(), deep_er_name: X::<1>::any(), r#type: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        1 => E366::First { r#fn: X::<3>::maybe(), first_one: V::<1>::maybe(), _lead: X::<3>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
        2 => E366::SecondOne { is_ok: X::<1>::any(), second: X::<2>::maybe(), a1_b2: V::<2>::maybe(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        3 => E366::HTTPThird(X::<1>::any(), X::<2>::any(), X::<1>::any()),
        4 => E366::X4th(X::<2>::any()),
        _ => E366::r#Fifth(X::<2>::any()),
    };
    enumeration(ty::<E366>(), Repr::Untagged, &all, &[Mask::Fields(&[false, true, true, false, true]), Mask::Fields(&[false, false, true, false, false]), Mask::Fields(&[false, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub enum E367 {
    First {
        #[serde(default)] #[opg(string, optional, example = "e", format = "f")] r#fn: X<0>,
        #[opg(nullable, optional, number)] first_one: X<2>,
        #[opg(string, inline)] #[serde(skip_deserializing)] _lead: X<0>,
        #[opg("text", optional, string)] #[serde(default)] f3_x: X<0>,
        #[opg(optional, any)] #[serde(rename = "re-N188")] f4_x: V<1>,
    },
    #[opg(inline)]
    SecondOne {
        #[opg("text", nullable, string)] #[serde(rename = "re-N130")] is_ok: X<0>,
        #[opg(integer, nullable)] #[serde(default)] second: X<1>,
        #[opg(optional)] #[serde(skip_serializing_if = "gone")] a1_b2: V<2>,
        #[serde(rename = "re-N170")] #[opg(boolean)] f3_x: X<3>,
        #[serde(skip)] #[opg(optional)] f4_x: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[serde(skip_serializing)] #[opg(any, optional)] deep_er_name: V<0>,
        #[opg(format = "f", example = "e", optional, integer)] #[serde(rename = "Gone 454", skip_serializing_if = "gone")] r#type: X<1>,
        #[serde(default)] #[opg(number, optional, example = "e", format = "f")] x__y: X<2>,
        #[opg(boolean, optional)] #[serde(default)] f3_x: X<3>,
        #[opg(optional, any)] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    X4th(#[opg(any, inline, "text")] V<0>, #[serde(skip_deserializing)] #[opg(integer, example = "e", format = "f")] X<1>, #[opg(integer, nullable, "text")] X<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[opg(string, inline, nullable)] #[serde(skip_deserializing)] X<0>),
    #[opg(inline)]
    Six_th(#[opg(inline, boolean)] X<3>),
}
fn e367() {
    tag("E367");
    let all = [j(&E367::First { r#fn: X::<0>::default(), first_one: X::<2>::default(), _lead: X::<0>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E367::SecondOne { is_ok: X::<0>::default(), second: X::<1>::default(), a1_b2: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E367::HTTPThird { deep_er_name: V::<0>::default(), r#type: X::<1>::default(), x__y: X::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E367::X4th(V::<0>::default(), X::<1>::default(), X::<1>::default())), j(&E367::r#Fifth(X::<0>::default())), j(&E367::Six_th(X::<3>::default()))];
    let v = match choose(6) {
        0 => E367::First { r#fn: X::<0>::any(), first_one: X::<2>::any(), _lead: X::<0>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        1 => E367::SecondOne { is_ok: X::<0>::any(), second: X::<1>::any(), a1_b2: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        2 => E367::HTTPThird { deep_er_name: V::<0>::any(), r#type: X::<1>::maybe(), x__y: X::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        3 => E367::X4th(V::<0>::any(), X::<1>::any(), X::<1>::any()),
        4 => E367::r#Fifth(X::<0>::any()),
        _ => E367::Six_th(X::<3>::any()),
    };
    enumeration(ty::<E367>(), Repr::External, &all, &[Mask::Fields(&[false, false, true, false, false]), Mask::Fields(&[true, true, false, true]), Mask::Fields(&[false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t-Ag")]
pub enum E368 {
    SecondOne {
        #[opg(boolean)] is_ok: X<3>,
        #[opg(integer, optional, "text")] second: X<1>,
        #[opg(nullable, string)] a1_b2: X<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, nullable, example = "e", format = "f")] f3_x: X<2>,
        #[opg(boolean, nullable)] #[serde(default)] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird {
        #[serde(skip_serializing)] #[opg(optional)] deep_er_name: V<0>,
        #[serde(skip_deserializing)] #[opg(nullable, optional, any)] r#type: V<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, inline)] x__y: V<2>,
        #[serde(skip_deserializing)] #[opg(integer, optional, "text")] f3_x: X<1>,
        #[serde(rename(serialize = "Ser273", deserialize = "De273"))] #[opg(boolean, optional)] f4_x: X<3>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th {
        #[serde(skip_deserializing)] #[opg(inline, example = "e", format = "f")] first_one: V<0>,
        #[opg(nullable, inline, integer)] #[serde(rename = "Gone 450", skip_serializing_if = "gone")] _lead: X<1>,
        #[serde(rename = "re-N176")] #[opg(inline, optional, boolean)] tail_: X<3>,
        #[opg(nullable, inline, boolean)] #[serde(rename(serialize = "Ser280", deserialize = "De280"))] f3_x: X<3>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] #[serde(skip_deserializing)] f4_x: X<3>,
    },
}
fn e368() {
    tag("E368");
    let all = [j(&E368::SecondOne { is_ok: X::<3>::default(), second: X::<1>::default(), a1_b2: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E368::HTTPThird { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default() }), j(&E368::X4th { first_one: V::<0>::default(), _lead: X::<1>::default(), tail_: X::<3>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default() })];
    let v = match choose(3) {
        0 => E368::SecondOne { is_ok: X::<3>::any(), second: X::<1>::any(), a1_b2: X::<0>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        1 => E368::HTTPThird { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::maybe(), f3_x: X::<1>::any(), f4_x: X::<3>::any() },
        _ => E368::X4th { first_one: V::<0>::any(), _lead: X::<1>::maybe(), tail_: X::<3>::any(), f3_x: X::<3>::any(), f4_x: X::<3>::any() },
    };
    enumeration(ty::<E368>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, false, true, false, true]), Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[true, true, false, false, true, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "t", content = "c")]
pub enum E369 {
    HTTPThird {
        #[serde(rename = "Gone 428", skip_serializing_if = "gone")] #[opg(nullable, string)] deep_er_name: X<0>,
        #[opg(integer, "text", example = "e", format = "f")] r#type: X<1>,
        #[opg(nullable, inline, boolean)] #[serde(rename = "Gone 484", skip_serializing_if = "gone")] x__y: X<3>,
        #[serde(rename = "re-N136")] #[opg(integer)] f3_x: X<1>,
        #[opg(optional, nullable)] #[serde(rename = "re-N109")] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th {
        #[serde(rename(serialize = "Ser219", deserialize = "De219"))] #[opg("text", example = "e", format = "f")] first_one: V<0>,
        #[opg(boolean, nullable)] #[serde(rename = "re-N173")] _lead: X<3>,
        #[opg(boolean, optional)] tail_: X<3>,
        #[opg("text", optional, any)] #[serde(skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] #[serde(rename(serialize = "Ser288", deserialize = "De288"))] f4_x: X<3>,
    },
    r#Fifth {
        #[serde(rename = "Gone 415", skip_serializing_if = "gone")] #[opg(optional, nullable)] second: V<0>,
        #[serde(skip_deserializing)] #[opg("text", optional, number)] a1_b2: X<2>,
        #[opg(string, nullable, example = "e", format = "f")] #[serde(rename = "Gone 439", skip_serializing_if = "gone")] r#fn: X<0>,
        #[serde(rename = "Gone 489", skip_serializing_if = "gone")] #[opg(boolean, inline, example = "e", format = "f")] f3_x: X<3>,
        #[opg(format = "f", example = "e", optional, boolean)] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(#[opg(format = "f", example = "e", "text", string)] X<0>, #[serde(skip_deserializing)] #[opg(boolean, example = "e", format = "f")] X<3>, #[opg(inline)] #[serde(skip_deserializing)] V<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[opg(format = "f", example = "e", any)] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(#[opg("text", example = "e", format = "f")] V<1>),
}
fn e369() {
    tag("E369");
    let all = [j(&E369::HTTPThird { deep_er_name: X::<0>::default(), r#type: X::<1>::default(), x__y: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E369::X4th { first_one: V::<0>::default(), _lead: X::<3>::default(), tail_: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E369::r#Fifth { second: V::<0>::default(), a1_b2: X::<2>::default(), r#fn: X::<0>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default() }), j(&E369::Six_th(X::<0>::default(), X::<3>::default(), V::<2>::default())), j(&E369::Z(V::<0>::default())), j(&E369::First(V::<1>::default()))];
    let v = match choose(6) {
        0 => E369::HTTPThird { deep_er_name: X::<0>::maybe(), r#type: X::<1>::any(), x__y: X::<3>::maybe(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        1 => E369::X4th { first_one: V::<0>::any(), _lead: X::<3>::any(), tail_: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        2 => E369::r#Fifth { second: V::<0>::maybe(), a1_b2: X::<2>::any(), r#fn: X::<0>::maybe(), f3_x: X::<3>::any(), f4_x: X::<3>::any() },
        3 => E369::Six_th(X::<0>::any(), X::<3>::any(), V::<2>::any()),
        4 => E369::Z(V::<0>::any()),
        _ => E369::First(V::<1>::any()),
    };
    enumeration(ty::<E369>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[false, true, false, true, false]), Mask::Fields(&[true, true, false, false, false]), Mask::Fields(&[false, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum E370 {
    X4th {
        #[opg(format = "f", example = "e", nullable, boolean)] #[serde(skip_deserializing)] first_one: X<3>,
        #[serde(rename = "re-N144")] #[opg(nullable, inline, integer)] _lead: X<1>,
        #[serde(skip)] #[opg(string)] tail_: V<2>,
        #[serde(rename(serialize = "Ser205", deserialize = "De205"))] #[opg(optional)] f3_x: V<0>,
        #[opg("text", integer)] #[serde(rename = "Gone 446", skip_serializing_if = "gone")] f4_x: X<1>,
    },
    r#Fifth {
        #[opg(integer)] #[serde(skip_deserializing)] second: X<1>,
        #[opg(format = "f", example = "e", inline, number)] #[serde(rename = "re-N166")] a1_b2: X<2>,
        #[serde(skip_deserializing)] #[opg(integer, "text", example = "e", format = "f")] r#fn: X<1>,
        #[serde(default)] #[opg(any, nullable, example = "e", format = "f")] f3_x: V<0>,
        #[opg(nullable)] #[serde(default)] f4_x: V<1>,
    },
    #[serde(rename = "re-Named")]
    Six_th {
        #[opg(integer, "text", example = "e", format = "f")] #[serde(rename = "re-N151")] r#type: X<1>,
        #[serde(rename = "re-N199")] #[opg(any, optional, example = "e", format = "f")] x__y: V<1>,
        #[opg(number, optional, inline)] #[serde(skip_deserializing)] is_ok: X<2>,
        #[opg(number, inline)] f3_x: X<2>,
        #[opg(format = "f", example = "e", nullable, integer)] #[serde(rename(serialize = "Ser252", deserialize = "De252"))] f4_x: X<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(#[opg(inline, example = "e", format = "f")] V<0>, #[opg(number)] X<2>, #[opg(boolean, inline, example = "e", format = "f")] X<3>),
    #[opg(inline)]
    First(#[opg("text")] V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    SecondOne(#[opg(string, "text")] #[serde(skip_deserializing)] X<0>),
}
fn e370() {
    tag("E370");
    let all = [j(&E370::X4th { first_one: X::<3>::default(), _lead: X::<1>::default(), tail_: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E370::r#Fifth { second: X::<1>::default(), a1_b2: X::<2>::default(), r#fn: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E370::Six_th { r#type: X::<1>::default(), x__y: V::<1>::default(), is_ok: X::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() }), j(&E370::Z(V::<0>::default(), X::<2>::default(), X::<3>::default())), j(&E370::First(V::<0>::default())), j(&E370::SecondOne(X::<0>::default()))];
    let v = match choose(6) {
        0 => E370::X4th { first_one: X::<3>::any(), _lead: X::<1>::any(), tail_: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        1 => E370::r#Fifth { second: X::<1>::any(), a1_b2: X::<2>::any(), r#fn: X::<1>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        2 => E370::Six_th { r#type: X::<1>::any(), x__y: V::<1>::any(), is_ok: X::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
        3 => E370::Z(V::<0>::any(), X::<2>::any(), X::<3>::any()),
        4 => E370::First(V::<0>::any()),
        _ => E370::SecondOne(X::<0>::any()),
    };
    enumeration(ty::<E370>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false, false]), Mask::Fields(&[true, true, true, true, true]), Mask::Fields(&[true, false, false, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E371 {
    r#Fifth {
        #[opg(any, nullable, example = "e", format = "f")] second: V<0>,
        #[serde(rename = "Gone 506", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", inline, any)] a1_b2: V<1>,
        #[opg(format = "f", example = "e", optional, boolean)] #[serde(skip_deserializing)] r#fn: X<3>,
        #[opg(number)] #[serde(rename = "Gone 459", skip_serializing_if = "gone")] f3_x: X<2>,
        #[opg(integer, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f4_x: X<1>,
    },
    #[serde(rename = "re-Named")]
    Six_th {
        #[opg(any, "text")] #[serde(rename(serialize = "Ser293", deserialize = "De293"))] r#type: V<0>,
        #[opg(nullable)] #[serde(rename = "re-N105")] x__y: V<1>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] is_ok: X<1>,
        #[opg(inline, optional, integer)] #[serde(skip_deserializing)] f3_x: X<1>,
        #[serde(skip_deserializing)] #[opg("text", nullable, number)] f4_x: X<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z {
        #[serde(rename = "re-N193")] #[opg(any, optional, inline)] _lead: V<0>,
        #[opg(inline, optional, boolean)] #[serde(skip_deserializing)] tail_: X<3>,
        #[serde(rename(serialize = "Ser260", deserialize = "De260"))] #[opg(format = "f", example = "e", number)] deep_er_name: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", optional)] f3_x: V<0>,
        #[opg(nullable, number)] #[serde(skip_serializing_if = "gone")] f4_x: X<2>,
    },
    First(#[opg(number, inline, nullable)] X<2>, #[opg(format = "f", example = "e", nullable, boolean)] X<3>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", any)] V<2>),
    SecondOne(#[opg(format = "f", example = "e", "text", number)] X<2>),
}
fn e371() {
    tag("E371");
    let all = [j(&E371::r#Fifth { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: X::<3>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default() }), j(&E371::Six_th { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default() }), j(&E371::Z { _lead: V::<0>::default(), tail_: X::<3>::default(), deep_er_name: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E371::First(X::<2>::default(), X::<3>::default(), V::<2>::default())), j(&E371::SecondOne(X::<2>::default()))];
    let v = match choose(5) {
        0 => E371::r#Fifth { second: V::<0>::any(), a1_b2: V::<1>::maybe(), r#fn: X::<3>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any() },
        1 => E371::Six_th { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: X::<1>::any(), f3_x: X::<1>::any(), f4_x: X::<2>::any() },
        2 => E371::Z { _lead: V::<0>::any(), tail_: X::<3>::any(), deep_er_name: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        3 => E371::First(X::<2>::any(), X::<3>::any(), V::<2>::any()),
        _ => E371::SecondOne(X::<2>::any()),
    };
    enumeration(ty::<E371>(), Repr::External, &all, &[Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[true, true, false, false, true]), Mask::Fields(&[false, false, true, false, false]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t-Ag")]
pub enum E372 {
    Six_th {
        #[opg(any, optional, example = "e", format = "f")] #[serde(skip_deserializing)] r#type: V<0>,
        #[serde(rename = "Gone 445", skip_serializing_if = "gone")] #[opg(integer, nullable)] x__y: X<1>,
        #[opg(inline, integer)] #[serde(rename = "Gone 444", skip_serializing_if = "gone")] is_ok: X<1>,
        #[serde(default)] #[opg(any, "text")] f3_x: V<0>,
        #[opg(any, inline)] f4_x: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z {
        #[serde(default)] #[opg("text", inline, boolean)] _lead: X<3>,
        #[opg(any, inline)] #[serde(rename(serialize = "Ser291", deserialize = "De291"))] tail_: V<1>,
        #[opg(format = "f", example = "e", "text", any)] #[serde(default)] deep_er_name: V<2>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", any)] f3_x: V<0>,
        #[serde(default)] #[opg("text", integer)] f4_x: X<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First {
        #[serde(rename = "Gone 419", skip_serializing_if = "gone")] #[opg(nullable, "text")] a1_b2: V<0>,
        #[serde(rename(serialize = "Ser302", deserialize = "De302"))] #[opg(format = "f", example = "e", inline, any)] r#fn: V<1>,
        #[opg(string, inline)] first_one: X<0>,
        #[opg(string, inline, "text")] #[serde(rename = "Gone 435", skip_serializing_if = "gone")] f3_x: X<0>,
        #[serde(skip_deserializing)] #[opg(integer, optional)] f4_x: X<1>,
    },
}
fn e372() {
    tag("E372");
    let all = [j(&E372::Six_th { r#type: V::<0>::default(), x__y: X::<1>::default(), is_ok: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E372::Z { _lead: X::<3>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E372::First { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<1>::default() })];
    let v = match choose(3) {
        0 => E372::Six_th { r#type: V::<0>::any(), x__y: X::<1>::maybe(), is_ok: X::<1>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E372::Z { _lead: X::<3>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        _ => E372::First { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any(), first_one: X::<0>::any(), f3_x: X::<0>::any(), f4_x: X::<1>::any() },
    };
    enumeration(ty::<E372>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, false, false, true, true]), Mask::Fields(&[true, true, true, true, true, true]), Mask::Fields(&[true, false, true, true, false, false])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "t", content = "c")]
pub enum E373 {
    Z {
        #[serde(default)] #[opg(number, nullable, example = "e", format = "f")] _lead: X<2>,
        #[opg(nullable, inline)] tail_: V<1>,
        #[serde(rename = "re-N133")] #[opg(string, nullable, example = "e", format = "f")] deep_er_name: X<0>,
        #[serde(rename(serialize = "Ser258", deserialize = "De258"))] #[opg(nullable, number)] f3_x: X<2>,
        #[opg(number, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] f4_x: X<2>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First {
        #[opg("text", optional, number)] #[serde(rename = "re-N162")] a1_b2: X<2>,
        #[serde(skip_deserializing)] r#fn: V<1>,
        #[opg(nullable, "text")] #[serde(skip_serializing_if = "gone")] first_one: V<2>,
        #[opg("text", inline, boolean)] f3_x: X<3>,
        #[serde(default)] #[opg(inline, boolean)] f4_x: X<3>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne {
        #[opg(optional, nullable)] #[serde(skip_serializing_if = "gone")] x__y: V<0>,
        #[opg(format = "f", example = "e", nullable, integer)] is_ok: X<1>,
        #[serde(rename(serialize = "Ser217", deserialize = "De217"))] #[opg(inline, example = "e", format = "f")] second: V<2>,
        #[opg("text", optional, string)] #[serde(rename = "re-N128")] f3_x: X<0>,
        #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename(serialize = "Ser305", deserialize = "De305"))] f4_x: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(#[opg(number, "text")] X<2>, #[serde(skip)] #[opg("text", nullable)] V<1>, #[opg(integer, example = "e", format = "f")] X<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, string)] X<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth(#[opg(nullable, number)] X<2>),
}
fn e373() {
    tag("E373");
    let all = [j(&E373::Z { _lead: X::<2>::default(), tail_: V::<1>::default(), deep_er_name: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<2>::default() }), j(&E373::First { a1_b2: X::<2>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default() }), j(&E373::SecondOne { x__y: V::<0>::default(), is_ok: X::<1>::default(), second: V::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E373::HTTPThird(X::<2>::default(), V::<1>::default(), X::<1>::default())), j(&E373::X4th(X::<0>::default())), j(&E373::r#Fifth(X::<2>::default()))];
    let v = match choose(6) {
        0 => E373::Z { _lead: X::<2>::any(), tail_: V::<1>::any(), deep_er_name: X::<0>::any(), f3_x: X::<2>::any(), f4_x: X::<2>::any() },
        1 => E373::First { a1_b2: X::<2>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: X::<3>::any() },
        2 => E373::SecondOne { x__y: V::<0>::maybe(), is_ok: X::<1>::any(), second: V::<2>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        3 => E373::HTTPThird(X::<2>::any(), V::<1>::any(), X::<1>::any()),
        4 => E373::X4th(X::<0>::any()),
        _ => E373::r#Fifth(X::<2>::any()),
    };
    enumeration(ty::<E373>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, true, true, true]), Mask::Fields(&[false, true, false, true, true]), Mask::Fields(&[false, true, true, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
#[serde(untagged)]
pub enum E374 {
    First {
        #[opg("text", optional, number)] a1_b2: X<2>,
        #[opg(nullable, optional, string)] #[serde(default)] r#fn: X<0>,
        #[opg(format = "f", example = "e", string)] #[serde(skip_serializing_if = "gone")] first_one: X<0>,
        #[opg(format = "f", example = "e", inline, any)] #[serde(skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(any, inline)] #[serde(skip_deserializing)] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    SecondOne {
        #[serde(rename(serialize = "Ser228", deserialize = "De228"))] #[opg(nullable, optional, string)] x__y: X<0>,
        #[opg(number, inline)] #[serde(rename = "Gone 461", skip_serializing_if = "gone")] is_ok: X<2>,
        #[opg(optional, string)] #[serde(default)] second: X<0>,
        #[opg(string, "text")] #[serde(rename(serialize = "Ser225", deserialize = "De225"))] f3_x: X<0>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", string)] f4_x: X<0>,
    },
    #[opg(inline)]
    HTTPThird {
        #[serde(default)] #[opg(nullable, inline)] tail_: V<0>,
        #[opg(any, inline, nullable)] #[serde(skip_deserializing)] deep_er_name: V<1>,
        #[opg("text", nullable, number)] #[serde(rename = "re-N164")] r#type: X<2>,
        #[opg(inline, integer)] f3_x: X<1>,
        #[opg(integer, inline, example = "e", format = "f")] #[serde(rename = "re-N149")] f4_x: X<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    X4th(#[serde(skip_serializing)] #[opg("text", nullable)] V<0>, #[serde(skip_deserializing)] #[opg(nullable, string)] X<0>, #[opg(integer, nullable)] X<1>),
    #[serde(rename = "re-Named")]
    r#Fifth(#[serde(skip_deserializing)] #[opg(nullable, number)] X<2>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(#[opg(nullable, inline, boolean)] X<3>),
}
fn e374() {
    tag("E374");
    let all = [j(&E374::First { a1_b2: X::<2>::default(), r#fn: X::<0>::default(), first_one: X::<0>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E374::SecondOne { x__y: X::<0>::default(), is_ok: X::<2>::default(), second: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E374::HTTPThird { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<1>::default() }), j(&E374::X4th(V::<0>::default(), X::<0>::default(), X::<1>::default())), j(&E374::r#Fifth(X::<2>::default())), j(&E374::Six_th(X::<3>::default()))];
    let v = match choose(6) {
        0 => E374::First { a1_b2: X::<2>::any(), r#fn: X::<0>::any(), first_one: X::<0>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E374::SecondOne { x__y: X::<0>::any(), is_ok: X::<2>::maybe(), second: X::<0>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        2 => E374::HTTPThird { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<1>::any() },
        3 => E374::X4th(V::<0>::any(), X::<0>::any(), X::<1>::any()),
        4 => E374::r#Fifth(X::<2>::any()),
        _ => E374::Six_th(X::<3>::any()),
    };
    enumeration(ty::<E374>(), Repr::Untagged, &all, &[Mask::Fields(&[false, false, false, false, true]), Mask::Fields(&[false, false, false, true, true]), Mask::Fields(&[true, true, true, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E375 {
    SecondOne {
        #[opg(format = "f", example = "e", "text", any)] #[serde(skip_serializing_if = "gone")] x__y: V<0>,
        #[opg(optional, string)] is_ok: X<0>,
        #[serde(rename(serialize = "Ser230", deserialize = "De230"))] #[opg("text", optional, string)] second: X<0>,
        #[opg(string, "text")] f3_x: X<0>,
        #[opg(integer)] #[serde(rename = "Gone 442", skip_serializing_if = "gone")] f4_x: X<1>,
    },
    #[opg(inline)]
    HTTPThird {
        #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(skip_deserializing)] tail_: V<0>,
        #[serde(default)] #[opg(format = "f", example = "e", optional)] deep_er_name: V<1>,
        #[opg(number, "text")] #[serde(rename(serialize = "Ser259", deserialize = "De259"))] r#type: X<2>,
        #[opg(optional, "text")] #[serde(rename = "re-N111")] f3_x: V<0>,
        #[serde(rename(serialize = "Ser264", deserialize = "De264"))] #[opg("text", optional, number)] f4_x: X<2>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th {
        #[opg(format = "f", example = "e", any)] #[serde(rename = "re-N192")] r#fn: V<0>,
        #[opg(string, optional, inline)] #[serde(rename = "Gone 431", skip_serializing_if = "gone")] first_one: X<0>,
        #[opg(integer, nullable, "text")] #[serde(skip_serializing_if = "gone")] _lead: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, "text")] f3_x: V<0>,
        #[opg(inline, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    r#Fifth(#[opg(string, inline)] #[serde(skip_deserializing)] X<0>, #[opg(boolean)] X<3>, #[opg(nullable, string)] X<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[opg(inline, integer)] #[serde(skip_deserializing)] X<1>),
    #[opg(inline)]
    Z(#[opg(nullable, "text")] V<1>),
}
fn e375() {
    tag("E375");
    let all = [j(&E375::SecondOne { x__y: V::<0>::default(), is_ok: X::<0>::default(), second: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<1>::default() }), j(&E375::HTTPThird { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E375::X4th { r#fn: V::<0>::default(), first_one: X::<0>::default(), _lead: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E375::r#Fifth(X::<0>::default(), X::<3>::default(), X::<0>::default())), j(&E375::Six_th(X::<1>::default())), j(&E375::Z(V::<1>::default()))];
    let v = match choose(6) {
        0 => E375::SecondOne { x__y: V::<0>::maybe(), is_ok: X::<0>::any(), second: X::<0>::any(), f3_x: X::<0>::any(), f4_x: X::<1>::any() },
        1 => E375::HTTPThird { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        2 => E375::X4th { r#fn: V::<0>::any(), first_one: X::<0>::maybe(), _lead: X::<1>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        3 => E375::r#Fifth(X::<0>::any(), X::<3>::any(), X::<0>::any()),
        4 => E375::Six_th(X::<1>::any()),
        _ => E375::Z(V::<1>::any()),
    };
    enumeration(ty::<E375>(), Repr::External, &all, &[Mask::Fields(&[false, false, false, true, false]), Mask::Fields(&[false, false, true, false, false]), Mask::Fields(&[true, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E376 {
    HTTPThird {
        #[opg(nullable, optional, string)] tail_: X<0>,
        #[serde(rename = "re-N116")] #[opg(format = "f", example = "e", nullable)] deep_er_name: V<1>,
        #[serde(rename = "Gone 485", skip_serializing_if = "gone")] #[opg(boolean, optional, "text")] r#type: X<3>,
        #[serde(rename = "Gone 508", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", "text", any)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, optional, inline)] f4_x: X<0>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th {
        #[opg(number, optional, inline)] #[serde(rename = "Gone 465", skip_serializing_if = "gone")] r#fn: X<2>,
        #[opg(any, optional, example = "e", format = "f")] #[serde(rename(serialize = "Ser301", deserialize = "De301"))] first_one: V<1>,
        #[serde(rename(serialize = "Ser279", deserialize = "De279"))] #[opg(boolean, optional, nullable)] _lead: X<3>,
        #[serde(skip_deserializing)] #[opg(optional, string)] f3_x: X<0>,
        #[serde(skip_deserializing)] #[opg(boolean, optional, "text")] f4_x: X<3>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
        #[serde(skip_serializing)] #[opg(string)] is_ok: V<0>,
        #[serde(rename = "re-N163")] #[opg(number, inline, "text")] second: X<2>,
        #[opg(boolean, optional)] #[serde(rename = "re-N171")] a1_b2: X<3>,
        #[opg(boolean, nullable)] f3_x: X<3>,
        #[opg(any, inline, nullable)] #[serde(rename(serialize = "Ser297", deserialize = "De297"))] f4_x: V<1>,
    },
}
fn e376() {
    tag("E376");
    let all = [j(&E376::HTTPThird { tail_: X::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E376::X4th { r#fn: X::<2>::default(), first_one: V::<1>::default(), _lead: X::<3>::default(), f3_x: X::<0>::default(), f4_x: X::<3>::default() }), j(&E376::r#Fifth { is_ok: V::<0>::default(), second: X::<2>::default(), a1_b2: X::<3>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() })];
    let v = match choose(3) {
        0 => E376::HTTPThird { tail_: X::<0>::any(), deep_er_name: V::<1>::any(), r#type: X::<3>::maybe(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        1 => E376::X4th { r#fn: X::<2>::maybe(), first_one: V::<1>::any(), _lead: X::<3>::any(), f3_x: X::<0>::any(), f4_x: X::<3>::any() },
        _ => E376::r#Fifth { is_ok: V::<0>::any(), second: X::<2>::any(), a1_b2: X::<3>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
    };
    enumeration(ty::<E376>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, true, false, false, false]), Mask::Fields(&[true, false, false, false, false, false]), Mask::Fields(&[true, true, false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E377 {
    X4th {
        #[opg(nullable, inline)] #[serde(skip_deserializing)] r#fn: V<0>,
        #[serde(rename = "re-N189")] #[opg(any, inline)] first_one: V<1>,
        #[serde(rename = "re-N112")] #[opg("text", inline)] _lead: V<2>,
        #[opg("text")] #[serde(skip_deserializing)] f3_x: V<0>,
        #[opg(number)] #[serde(rename(serialize = "Ser255", deserialize = "De255"))] f4_x: X<2>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth {
        #[serde(rename(serialize = "Ser287", deserialize = "De287"))] #[opg(boolean, "text", example = "e", format = "f")] is_ok: X<3>,
        #[opg(format = "f", example = "e", nullable)] second: V<1>,
        #[opg(number, "text")] #[serde(rename = "Gone 463", skip_serializing_if = "gone")] a1_b2: X<2>,
        #[opg(string)] f3_x: X<0>,
        #[opg(any)] f4_x: V<1>,
    },
    Six_th {
        #[opg("text", boolean)] deep_er_name: X<3>,
        #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] r#type: X<0>,
        #[serde(skip_serializing)] #[opg(inline)] x__y: V<2>,
        #[opg(nullable, number)] #[serde(default)] f3_x: X<2>,
        #[opg(any, inline, nullable)] f4_x: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Z(#[serde(skip_deserializing)] #[opg(inline, example = "e", format = "f")] V<0>, #[opg(integer, "text", example = "e", format = "f")] X<1>, #[opg(format = "f", example = "e", nullable, boolean)] #[serde(skip_deserializing)] X<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First(#[opg("text", integer)] X<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[opg("text", inline)] V<1>),
}
fn e377() {
    tag("E377");
    let all = [j(&E377::X4th { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E377::r#Fifth { is_ok: X::<3>::default(), second: V::<1>::default(), a1_b2: X::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() }), j(&E377::Six_th { deep_er_name: X::<3>::default(), r#type: X::<0>::default(), x__y: V::<2>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default() }), j(&E377::Z(V::<0>::default(), X::<1>::default(), X::<3>::default())), j(&E377::First(X::<1>::default())), j(&E377::SecondOne(V::<1>::default()))];
    let v = match choose(6) {
        0 => E377::X4th { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        1 => E377::r#Fifth { is_ok: X::<3>::any(), second: V::<1>::any(), a1_b2: X::<2>::maybe(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
        2 => E377::Six_th { deep_er_name: X::<3>::any(), r#type: X::<0>::any(), x__y: V::<2>::any(), f3_x: X::<2>::any(), f4_x: V::<1>::any() },
        3 => E377::Z(V::<0>::any(), X::<1>::any(), X::<3>::any()),
        4 => E377::First(X::<1>::any()),
        _ => E377::SecondOne(V::<1>::any()),
    };
    enumeration(ty::<E377>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, true, true, true]), Mask::Fields(&[true, true, false, true, true]), Mask::Fields(&[true, false, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum E378 {
    r#Fifth {
        #[opg(boolean, "text", example = "e", format = "f")] #[serde(rename = "re-N185")] is_ok: X<3>,
        #[serde(default)] #[opg(number, inline)] second: X<2>,
        #[opg(boolean, nullable, "text")] #[serde(rename = "re-N181")] a1_b2: X<3>,
        #[opg(string, nullable, example = "e", format = "f")] #[serde(rename(serialize = "Ser235", deserialize = "De235"))] f3_x: X<0>,
        #[opg("text", nullable, string)] f4_x: X<0>,
    },
    Six_th {
        #[opg(number, inline, "text")] #[serde(rename = "Gone 469", skip_serializing_if = "gone")] deep_er_name: X<2>,
        #[serde(skip_serializing_if = "gone")] #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] r#type: X<0>,
        #[opg(integer, optional, "text")] #[serde(default)] x__y: X<1>,
        #[opg(integer, optional, nullable)] #[serde(default)] f3_x: X<1>,
        #[opg(optional)] f4_x: V<1>,
    },
    #[serde(rename = "re-Named")]
    Z {
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", nullable, integer)] first_one: X<1>,
        #[serde(skip_deserializing)] #[opg(integer, optional, nullable)] _lead: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, inline, nullable)] tail_: X<2>,
        #[serde(rename = "Gone 496", skip_serializing_if = "gone")] #[opg(nullable, any)] f3_x: V<0>,
        #[serde(rename = "Gone 423", skip_serializing_if = "gone")] #[opg("text", example = "e", format = "f")] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    First(#[serde(skip)] #[opg(string)] V<0>, #[opg(integer)] #[serde(skip_deserializing)] X<1>, #[serde(skip_deserializing)] #[opg(integer, "text", example = "e", format = "f")] X<1>),
    #[opg(inline)]
    SecondOne(#[serde(skip_deserializing)] #[opg(nullable)] V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    HTTPThird(#[opg(integer, inline, example = "e", format = "f")] X<1>),
}
fn e378() {
    tag("E378");
    let all = [j(&E378::r#Fifth { is_ok: X::<3>::default(), second: X::<2>::default(), a1_b2: X::<3>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E378::Six_th { deep_er_name: X::<2>::default(), r#type: X::<0>::default(), x__y: X::<1>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E378::Z { first_one: X::<1>::default(), _lead: X::<1>::default(), tail_: X::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E378::First(V::<0>::default(), X::<1>::default(), X::<1>::default())), j(&E378::SecondOne(V::<0>::default())), j(&E378::HTTPThird(X::<1>::default()))];
    let v = match choose(6) {
        0 => E378::r#Fifth { is_ok: X::<3>::any(), second: X::<2>::any(), a1_b2: X::<3>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        1 => E378::Six_th { deep_er_name: X::<2>::maybe(), r#type: X::<0>::maybe(), x__y: X::<1>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        2 => E378::Z { first_one: X::<1>::maybe(), _lead: X::<1>::any(), tail_: X::<2>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        3 => E378::First(V::<0>::any(), X::<1>::any(), X::<1>::any()),
        4 => E378::SecondOne(V::<0>::any()),
        _ => E378::HTTPThird(X::<1>::any()),
    };
    enumeration(ty::<E378>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, true, true, true]), Mask::Fields(&[false, false, false, false, false]), Mask::Fields(&[false, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E379 {
    Six_th {
        #[serde(default)] #[opg(inline, optional)] deep_er_name: V<0>,
        #[opg(format = "f", example = "e", nullable)] #[serde(skip_deserializing)] r#type: V<1>,
        #[serde(default)] #[opg(number, optional, inline)] x__y: X<2>,
        #[opg(boolean, example = "e", format = "f")] #[serde(default)] f3_x: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] f4_x: X<2>,
    },
    #[serde(rename = "re-Named")]
    Z {
        #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] #[serde(rename = "Gone 492", skip_serializing_if = "gone")] first_one: X<3>,
        #[opg(number, optional, inline)] _lead: X<2>,
        #[serde(rename = "Gone 436", skip_serializing_if = "gone")] #[opg("text", nullable, string)] tail_: X<0>,
        #[opg(inline, optional)] #[serde(rename(serialize = "Ser210", deserialize = "De210"))] f3_x: V<0>,
        #[opg(format = "f", example = "e", inline, number)] #[serde(default)] f4_x: X<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First {
        #[serde(default)] #[opg(string, "text")] second: X<0>,
        #[opg(format = "f", example = "e", inline, string)] #[serde(rename = "re-N132")] a1_b2: X<0>,
        #[serde(default)] #[opg(format = "f", example = "e", nullable)] r#fn: V<2>,
        #[opg(optional, any)] #[serde(skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(example = "e", format = "f")] f4_x: V<1>,
    },
    SecondOne(#[opg(number, inline)] X<2>, #[opg(any, nullable, example = "e", format = "f")] V<1>, #[serde(skip_deserializing)] #[opg("text", nullable, number)] X<2>),
    HTTPThird(#[opg(number, inline, nullable)] #[serde(skip_deserializing)] X<2>),
}
fn e379() {
    tag("E379");
    let all = [j(&E379::Six_th { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<2>::default() }), j(&E379::Z { first_one: X::<3>::default(), _lead: X::<2>::default(), tail_: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default() }), j(&E379::First { second: X::<0>::default(), a1_b2: X::<0>::default(), r#fn: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E379::SecondOne(X::<2>::default(), V::<1>::default(), X::<2>::default())), j(&E379::HTTPThird(X::<2>::default()))];
    let v = match choose(5) {
        0 => E379::Six_th { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: X::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<2>::any() },
        1 => E379::Z { first_one: X::<3>::maybe(), _lead: X::<2>::any(), tail_: X::<0>::maybe(), f3_x: V::<0>::any(), f4_x: X::<2>::any() },
        2 => E379::First { second: X::<0>::any(), a1_b2: X::<0>::any(), r#fn: V::<2>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        3 => E379::SecondOne(X::<2>::any(), V::<1>::any(), X::<2>::any()),
        _ => E379::HTTPThird(X::<2>::any()),
    };
    enumeration(ty::<E379>(), Repr::External, &all, &[Mask::Fields(&[false, true, false, true, false]), Mask::Fields(&[false, false, false, false, true]), Mask::Fields(&[true, true, true, false, true]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "t-Ag")]
pub enum E380 {
    Z {
        #[opg(format = "f", example = "e", optional)] #[serde(skip_deserializing)] first_one: V<0>,
        #[serde(rename(serialize = "Ser275", deserialize = "De275"))] #[opg(boolean, nullable)] _lead: X<3>,
        #[opg(boolean)] #[serde(skip_deserializing)] tail_: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(number, "text")] f3_x: X<2>,
        #[opg(boolean, inline, example = "e", format = "f")] #[serde(default)] f4_x: X<3>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    First {
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", optional, integer)] second: X<1>,
        #[serde(default)] #[opg(optional, inline, nullable, "text", format = "f", example = "e")] a1_b2: V<1>,
        #[opg(inline, optional)] #[serde(rename = "Gone 414", skip_serializing_if = "gone")] r#fn: V<2>,
        #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)] #[serde(rename(serialize = "Ser237", deserialize = "De237"))] f3_x: X<0>,
        #[opg("text", integer)] #[serde(skip_deserializing)] f4_x: X<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne {
        #[serde(default)] #[opg(nullable, inline, integer)] r#type: X<1>,
        #[serde(rename(serialize = "Ser204", deserialize = "De204"))] x__y: V<1>,
        #[opg(format = "f", example = "e", optional)] is_ok: V<2>,
        #[serde(rename(serialize = "Ser232", deserialize = "De232"))] #[opg("text", nullable, string)] f3_x: X<0>,
        #[serde(default)] #[opg("text")] f4_x: V<1>,
    },
}
fn e380() {
    tag("E380");
    let all = [j(&E380::Z { first_one: V::<0>::default(), _lead: X::<3>::default(), tail_: X::<3>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default() }), j(&E380::First { second: X::<1>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<1>::default() }), j(&E380::SecondOne { r#type: X::<1>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default() })];
    let v = match choose(3) {
        0 => E380::Z { first_one: V::<0>::any(), _lead: X::<3>::any(), tail_: X::<3>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any() },
        1 => E380::First { second: X::<1>::maybe(), a1_b2: V::<1>::any(), r#fn: V::<2>::maybe(), f3_x: X::<0>::any(), f4_x: X::<1>::any() },
        _ => E380::SecondOne { r#type: X::<1>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any() },
    };
    enumeration(ty::<E380>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, false, true, true, false, true]), Mask::Fields(&[true, false, false, false, false, true]), Mask::Fields(&[true, true, true, false, true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "t", content = "c")]
pub enum E381 {
    First {
        #[serde(rename = "re-N172")] #[opg(inline, boolean)] second: X<3>,
        #[serde(rename = "re-N174")] #[opg("text", boolean)] a1_b2: X<3>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, optional, example = "e", format = "f")] r#fn: V<2>,
        #[serde(default)] #[opg(format = "f", example = "e", nullable, boolean)] f3_x: X<3>,
        #[serde(default)] #[opg(any, optional, example = "e", format = "f")] f4_x: V<1>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne {
        #[opg(string)] #[serde(skip_deserializing)] r#type: X<0>,
        #[opg(optional, "text")] #[serde(skip_serializing_if = "gone")] x__y: V<1>,
        #[opg("text", inline, integer)] is_ok: X<1>,
        #[opg("text", boolean)] #[serde(rename = "Gone 480", skip_serializing_if = "gone")] f3_x: X<3>,
        #[opg(format = "f", example = "e", inline, string)] f4_x: X<0>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird {
        #[opg(any, inline, nullable)] #[serde(rename = "Gone 501", skip_serializing_if = "gone")] _lead: V<0>,
        #[opg(boolean, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] tail_: X<3>,
        #[serde(skip_deserializing)] #[opg(integer, inline, example = "e", format = "f")] deep_er_name: X<1>,
        #[serde(default)] #[opg(string, optional, inline)] f3_x: X<0>,
        #[serde(rename = "re-N167")] #[opg(number, nullable, example = "e", format = "f")] f4_x: X<2>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    X4th(#[opg(any, inline)] V<0>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", any)] V<1>, #[opg(string, inline)] X<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(#[opg(any, inline, "text")] V<0>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th(#[serde(skip_deserializing)] #[opg(integer, example = "e", format = "f")] X<1>),
}
fn e381() {
    tag("E381");
    let all = [j(&E381::First { second: X::<3>::default(), a1_b2: X::<3>::default(), r#fn: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E381::SecondOne { r#type: X::<0>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default() }), j(&E381::HTTPThird { _lead: V::<0>::default(), tail_: X::<3>::default(), deep_er_name: X::<1>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default() }), j(&E381::X4th(V::<0>::default(), V::<1>::default(), X::<0>::default())), j(&E381::r#Fifth(V::<0>::default())), j(&E381::Six_th(X::<1>::default()))];
    let v = match choose(6) {
        0 => E381::First { second: X::<3>::any(), a1_b2: X::<3>::any(), r#fn: V::<2>::maybe(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        1 => E381::SecondOne { r#type: X::<0>::any(), x__y: V::<1>::maybe(), is_ok: X::<1>::any(), f3_x: X::<3>::any(), f4_x: X::<0>::any() },
        2 => E381::HTTPThird { _lead: V::<0>::maybe(), tail_: X::<3>::maybe(), deep_er_name: X::<1>::any(), f3_x: X::<0>::any(), f4_x: X::<2>::any() },
        3 => E381::X4th(V::<0>::any(), V::<1>::any(), X::<0>::any()),
        4 => E381::r#Fifth(V::<0>::any()),
        _ => E381::Six_th(X::<1>::any()),
    };
    enumeration(ty::<E381>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true, false, true, false]), Mask::Fields(&[true, false, true, false, true]), Mask::Fields(&[false, false, true, false, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum E382 {
    SecondOne {
        #[serde(rename = "re-N110")] #[opg(nullable, inline)] r#type: V<0>,
        #[serde(default)] #[opg("text", inline)] x__y: V<1>,
        #[serde(rename = "Gone 449", skip_serializing_if = "gone")] #[opg(integer, optional, nullable)] is_ok: X<1>,
        #[opg(nullable, any)] f3_x: V<0>,
        #[opg(boolean, optional, "text")] #[serde(skip_serializing_if = "gone")] f4_x: X<3>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    HTTPThird {
        #[serde(default)] #[opg(number)] _lead: X<2>,
        #[opg(boolean, optional)] #[serde(skip_serializing_if = "gone")] tail_: X<3>,
        #[opg(boolean, optional, nullable)] #[serde(rename = "re-N177")] deep_er_name: X<3>,
        #[opg(optional, inline, nullable, "text", format = "f", example = "e")] #[serde(rename = "Gone 424", skip_serializing_if = "gone")] f3_x: V<0>,
        #[serde(rename = "Gone 413", skip_serializing_if = "gone")] #[opg(example = "e", format = "f")] f4_x: V<1>,
    },
    #[opg(inline)]
    X4th {
        #[opg("text", inline, integer)] #[serde(rename(serialize = "Ser248", deserialize = "De248"))] a1_b2: X<1>,
        #[serde(rename = "Gone 491", skip_serializing_if = "gone")] #[opg(boolean, "text", example = "e", format = "f")] r#fn: X<3>,
        #[opg(integer, optional)] first_one: X<1>,
        #[serde(default)] #[opg(any, inline, nullable)] f3_x: V<0>,
        #[opg("text", nullable, any)] #[serde(skip_serializing_if = "gone")] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    r#Fifth(#[opg(nullable, inline)] V<0>, #[opg(number, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] X<2>, #[serde(skip_deserializing)] V<2>),
    #[serde(rename = "re-Named")]
    Six_th(#[opg(integer, nullable, "text")] X<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Z(#[opg(format = "f", example = "e", "text", string)] X<0>),
}
fn e382() {
    tag("E382");
    let all = [j(&E382::SecondOne { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E382::HTTPThird { _lead: X::<2>::default(), tail_: X::<3>::default(), deep_er_name: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E382::X4th { a1_b2: X::<1>::default(), r#fn: X::<3>::default(), first_one: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E382::r#Fifth(V::<0>::default(), X::<2>::default(), V::<2>::default())), j(&E382::Six_th(X::<1>::default())), j(&E382::Z(X::<0>::default()))];
    let v = match choose(6) {
        0 => E382::SecondOne { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: X::<1>::maybe(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        1 => E382::HTTPThird { _lead: X::<2>::any(), tail_: X::<3>::maybe(), deep_er_name: X::<3>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        2 => E382::X4th { a1_b2: X::<1>::any(), r#fn: X::<3>::maybe(), first_one: X::<1>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        3 => E382::r#Fifth(V::<0>::any(), X::<2>::any(), V::<2>::any()),
        4 => E382::Six_th(X::<1>::any()),
        _ => E382::Z(X::<0>::any()),
    };
    enumeration(ty::<E382>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true, false, true, false]), Mask::Fields(&[true, false, false, false, false]), Mask::Fields(&[true, false, false, true, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum E383 {
    HTTPThird {
        #[opg(optional, nullable)] #[serde(default)] _lead: V<0>,
        #[opg(optional)] #[serde(default)] tail_: V<1>,
        #[serde(default)] #[opg(any, optional, inline)] deep_er_name: V<2>,
        #[serde(rename(serialize = "Ser290", deserialize = "De290"))] #[opg(optional, any)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg("text")] f4_x: V<1>,
    },
    #[opg(inline)]
    X4th {
        #[opg(nullable, optional, any)] #[serde(rename = "re-N194")] a1_b2: V<0>,
        #[opg(optional, "text")] #[serde(default)] r#fn: V<1>,
        #[serde(skip_deserializing)] #[opg(boolean, nullable, "text")] first_one: X<3>,
        #[serde(default)] #[opg(inline)] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(integer)] f4_x: X<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
        #[serde(rename = "re-N123")] #[opg(string, "text")] x__y: X<0>,
        #[opg(any, nullable, example = "e", format = "f")] #[serde(rename(serialize = "Ser303", deserialize = "De303"))] is_ok: V<1>,
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", string)] second: X<0>,
        #[opg(nullable, any)] #[serde(rename = "re-N190")] f3_x: V<0>,
        #[serde(rename = "re-N102")] f4_x: V<1>,
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Six_th(#[opg("text", inline, boolean)] X<3>, #[opg(format = "f", example = "e", nullable, integer)] X<1>, #[opg(any, inline)] #[serde(skip_deserializing)] V<2>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(#[serde(skip_deserializing)] #[opg(boolean, example = "e", format = "f")] X<3>),
    #[opg(inline)]
    First(#[opg(inline)] #[serde(skip_deserializing)] V<1>),
}
fn e383() {
    tag("E383");
    let all = [j(&E383::HTTPThird { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E383::X4th { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default() }), j(&E383::r#Fifth { x__y: X::<0>::default(), is_ok: V::<1>::default(), second: X::<0>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E383::Six_th(X::<3>::default(), X::<1>::default(), V::<2>::default())), j(&E383::Z(X::<3>::default())), j(&E383::First(V::<1>::default()))];
    let v = match choose(6) {
        0 => E383::HTTPThird { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E383::X4th { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: X::<3>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any() },
        2 => E383::r#Fifth { x__y: X::<0>::any(), is_ok: V::<1>::any(), second: X::<0>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        3 => E383::Six_th(X::<3>::any(), X::<1>::any(), V::<2>::any()),
        4 => E383::Z(X::<3>::any()),
        _ => E383::First(V::<1>::any()),
    };
    enumeration(ty::<E383>(), Repr::External, &all, &[Mask::Fields(&[false, false, false, false, false]), Mask::Fields(&[false, false, true, true, false]), Mask::Fields(&[true, true, true, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "t-Ag")]
pub enum E384 {
    X4th {
        #[serde(skip_deserializing)] #[opg(integer, nullable, "text")] a1_b2: X<1>,
        #[serde(default)] #[opg(number, inline, nullable)] r#fn: X<2>,
        #[serde(rename = "Gone 426", skip_serializing_if = "gone")] #[opg(optional, string)] first_one: X<0>,
        #[serde(skip_deserializing)] #[opg(optional, any)] f3_x: V<0>,
        #[serde(rename(serialize = "Ser296", deserialize = "De296"))] #[opg(nullable, optional, any)] f4_x: V<1>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
        #[serde(rename = "Gone 470", skip_serializing_if = "gone")] #[opg("text", nullable, number)] x__y: X<2>,
        #[serde(rename(serialize = "Ser224", deserialize = "De224"))] #[opg(nullable, string)] is_ok: X<0>,
        #[serde(rename(serialize = "Ser236", deserialize = "De236"))] #[opg(format = "f", example = "e", "text", string)] second: X<0>,
        #[opg(integer, inline, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f3_x: X<1>,
        #[opg(integer)] #[serde(rename(serialize = "Ser238", deserialize = "De238"))] f4_x: X<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th {
        #[opg(format = "f", example = "e", number)] #[serde(default)] tail_: X<2>,
        #[serde(skip)] #[opg(any, optional)] deep_er_name: V<1>,
        #[opg(inline, optional, integer)] #[serde(rename = "Gone 448", skip_serializing_if = "gone")] r#type: X<1>,
        #[opg(string, optional, inline)] #[serde(rename(serialize = "Ser227", deserialize = "De227"))] f3_x: X<0>,
        #[opg(format = "f", example = "e", inline, string)] #[serde(default)] f4_x: X<0>,
    },
}
fn e384() {
    tag("E384");
    let all = [j(&E384::X4th { a1_b2: X::<1>::default(), r#fn: X::<2>::default(), first_one: X::<0>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default() }), j(&E384::r#Fifth { x__y: X::<2>::default(), is_ok: X::<0>::default(), second: X::<0>::default(), f3_x: X::<1>::default(), f4_x: X::<1>::default() }), j(&E384::Six_th { tail_: X::<2>::default(), deep_er_name: V::<1>::default(), r#type: X::<1>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() })];
    let v = match choose(3) {
        0 => E384::X4th { a1_b2: X::<1>::any(), r#fn: X::<2>::any(), first_one: X::<0>::maybe(), f3_x: V::<0>::any(), f4_x: V::<1>::any() },
        1 => E384::r#Fifth { x__y: X::<2>::maybe(), is_ok: X::<0>::any(), second: X::<0>::any(), f3_x: X::<1>::any(), f4_x: X::<1>::any() },
        _ => E384::Six_th { tail_: X::<2>::any(), deep_er_name: V::<1>::any(), r#type: X::<1>::maybe(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
    };
    enumeration(ty::<E384>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true, false, false, false]), Mask::Fields(&[true, false, true, true, false, true]), Mask::Fields(&[true, true, false, false, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "t", content = "c")]
pub enum E385 {
    r#Fifth {
        #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, any)] x__y: V<0>,
        #[serde(rename = "Gone 432", skip_serializing_if = "gone")] #[opg(nullable, optional, string)] is_ok: X<0>,
        #[opg(string)] #[serde(rename(serialize = "Ser221", deserialize = "De221"))] second: X<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] f3_x: X<3>,
        #[opg(optional, "text")] f4_x: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Six_th {
        #[serde(default)] #[opg("text", inline, integer)] tail_: X<1>,
        #[opg(number, inline)] #[serde(skip_deserializing)] deep_er_name: X<2>,
        #[opg("text", optional, string)] r#type: X<0>,
        #[opg(format = "f", example = "e", string)] f3_x: X<0>,
        #[opg(string, nullable, example = "e", format = "f")] f4_x: X<0>,
    },
    Z {
        #[serde(skip_serializing_if = "gone")] #[opg(string, inline)] r#fn: X<0>,
        #[serde(rename = "re-N104")] #[opg(inline)] first_one: V<1>,
        #[serde(default)] #[opg(any, inline, "text")] _lead: V<2>,
        #[serde(rename(serialize = "Ser234", deserialize = "De234"))] #[opg(format = "f", example = "e", inline, string)] f3_x: X<0>,
        #[opg(boolean)] #[serde(rename(serialize = "Ser272", deserialize = "De272"))] f4_x: X<3>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    First(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", string)] X<0>, #[opg(any, inline, nullable)] #[serde(skip_deserializing)] V<1>, #[opg(inline, integer)] X<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne(#[opg(inline, example = "e", format = "f")] V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    HTTPThird(#[opg(number)] X<2>),
}
fn e385() {
    tag("E385");
    let all = [j(&E385::r#Fifth { x__y: V::<0>::default(), is_ok: X::<0>::default(), second: X::<0>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default() }), j(&E385::Six_th { tail_: X::<1>::default(), deep_er_name: X::<2>::default(), r#type: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default() }), j(&E385::Z { r#fn: X::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<3>::default() }), j(&E385::First(X::<0>::default(), V::<1>::default(), X::<1>::default())), j(&E385::SecondOne(V::<0>::default())), j(&E385::HTTPThird(X::<2>::default()))];
    let v = match choose(6) {
        0 => E385::r#Fifth { x__y: V::<0>::any(), is_ok: X::<0>::maybe(), second: X::<0>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any() },
        1 => E385::Six_th { tail_: X::<1>::any(), deep_er_name: X::<2>::any(), r#type: X::<0>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any() },
        2 => E385::Z { r#fn: X::<0>::maybe(), first_one: V::<1>::any(), _lead: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<3>::any() },
        3 => E385::First(X::<0>::any(), V::<1>::any(), X::<1>::any()),
        4 => E385::SecondOne(V::<0>::any()),
        _ => E385::HTTPThird(X::<2>::any()),
    };
    enumeration(ty::<E385>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, false, true, false, false]), Mask::Fields(&[true, true, false, true, true]), Mask::Fields(&[false, true, true, true, true]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum E386 {
    Six_th {
        #[opg(format = "f", example = "e", nullable, integer)] #[serde(rename = "Gone 456", skip_serializing_if = "gone")] tail_: X<1>,
        #[opg(inline)] deep_er_name: V<1>,
        #[opg("text", inline)] #[serde(skip_deserializing)] r#type: V<2>,
        #[serde(rename = "Gone 443", skip_serializing_if = "gone")] #[opg(integer, optional)] f3_x: X<1>,
        #[serde(skip_serializing_if = "gone")] #[opg(any, inline, nullable)] f4_x: V<1>,
    },
    Z {
        #[opg(string, optional, example = "e", format = "f")] r#fn: X<0>,
        #[opg(any, optional, inline)] #[serde(rename = "Gone 499", skip_serializing_if = "gone")] first_one: V<1>,
        #[opg("text", nullable, any)] _lead: V<2>,
        #[opg("text", inline)] #[serde(rename(serialize = "Ser214", deserialize = "De214"))] f3_x: V<0>,
        #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", nullable, boolean)] f4_x: X<3>,
    },
    #[serde(rename = "re-Named")]
    First {
        #[opg(number, "text")] #[serde(skip_deserializing)] is_ok: X<2>,
        #[serde(rename = "Gone 483", skip_serializing_if = "gone")] #[opg(boolean, optional, nullable)] second: X<3>,
        #[serde(rename = "Gone 460", skip_serializing_if = "gone")] #[opg(optional, number)] a1_b2: X<2>,
        #[opg(any, nullable, example = "e", format = "f")] #[serde(rename = "Gone 507", skip_serializing_if = "gone")] f3_x: V<0>,
        #[opg(optional, string)] #[serde(rename = "re-N120")] f4_x: X<0>,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    SecondOne(#[opg(string, "text")] X<0>, #[serde(skip_serializing)] #[opg(string)] V<1>, #[opg(boolean, nullable)] X<3>),
    #[opg(inline)]
    HTTPThird(#[opg(boolean, inline, example = "e", format = "f")] X<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    X4th(#[opg(number, inline, nullable)] X<2>),
}
fn e386() {
    tag("E386");
    let all = [j(&E386::Six_th { tail_: X::<1>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default() }), j(&E386::Z { r#fn: X::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default() }), j(&E386::First { is_ok: X::<2>::default(), second: X::<3>::default(), a1_b2: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default() }), j(&E386::SecondOne(X::<0>::default(), V::<1>::default(), X::<3>::default())), j(&E386::HTTPThird(X::<3>::default())), j(&E386::X4th(X::<2>::default()))];
    let v = match choose(6) {
        0 => E386::Six_th { tail_: X::<1>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any() },
        1 => E386::Z { r#fn: X::<0>::any(), first_one: V::<1>::maybe(), _lead: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any() },
        2 => E386::First { is_ok: X::<2>::any(), second: X::<3>::maybe(), a1_b2: X::<2>::maybe(), f3_x: V::<0>::any(), f4_x: X::<0>::any() },
        3 => E386::SecondOne(X::<0>::any(), V::<1>::any(), X::<3>::any()),
        4 => E386::HTTPThird(X::<3>::any()),
        _ => E386::X4th(X::<2>::any()),
    };
    enumeration(ty::<E386>(), Repr::Untagged, &all, &[Mask::Fields(&[false, true, true, false, false]), Mask::Fields(&[false, false, true, true, false]), Mask::Fields(&[true, false, false, false, false]), Mask::Tuple, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum E387 {
    Z {
        #[opg(number, optional, inline)] #[serde(rename(serialize = "Ser261", deserialize = "De261"))] r#fn: X<2>,
        #[opg(format = "f", example = "e", inline, number)] first_one: X<2>,
        #[serde(default)] #[opg("text", boolean)] _lead: X<3>,
        #[opg(integer, optional)] #[serde(rename = "re-N137")] f3_x: X<1>,
    },
    #[serde(rename = "re-Named")]
    First {
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    SecondOne {
    },
    HTTPThird(#[opg(nullable, inline)] #[serde(skip_deserializing)] V<0>, #[opg("text")] #[serde(skip_deserializing)] V<1>, #[opg(format = "f", example = "e", nullable)] V<2>),
    X4th(#[opg(format = "f", example = "e", nullable, boolean)] X<3>),
}
fn e387() {
    tag("E387");
    let all = [j(&E387::Z { r#fn: X::<2>::default(), first_one: X::<2>::default(), _lead: X::<3>::default(), f3_x: X::<1>::default() }), j(&E387::First {  }), j(&E387::SecondOne {  }), j(&E387::HTTPThird(V::<0>::default(), V::<1>::default(), V::<2>::default())), j(&E387::X4th(X::<3>::default()))];
    let v = match choose(5) {
        0 => E387::Z { r#fn: X::<2>::any(), first_one: X::<2>::any(), _lead: X::<3>::any(), f3_x: X::<1>::any() },
        1 => E387::First {  },
        2 => E387::SecondOne {  },
        3 => E387::HTTPThird(V::<0>::any(), V::<1>::any(), V::<2>::any()),
        _ => E387::X4th(X::<3>::any()),
    };
    enumeration(ty::<E387>(), Repr::External, &all, &[Mask::Fields(&[false, true, true, false]), Mask::Fields(&[]), Mask::Fields(&[]), Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
pub enum E388 {
    First,
    SecondOne,
    HTTPThird,
}
fn e388() {
    tag("E388");
    let all = [j(&E388::First), j(&E388::SecondOne), j(&E388::HTTPThird)];
    let v = match choose(3) {
        0 => E388::First,
        1 => E388::SecondOne,
        _ => E388::HTTPThird,
    };
    enumeration(ty::<E388>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(align(8))]
pub enum E389 {
    First = 4,
    SecondOne = 1,
    HTTPThird = 9,
}
fn e389() {
    tag("E389");
    let all = [j(&E389::First), j(&E389::SecondOne), j(&E389::HTTPThird)];
    let v = match choose(3) {
        0 => E389::First,
        1 => E389::SecondOne,
        _ => E389::HTTPThird,
    };
    enumeration(ty::<E389>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C, align(4))]
pub enum E390 {
    First,
    SecondOne,
    HTTPThird,
}
fn e390() {
    tag("E390");
    let all = [j(&E390::First), j(&E390::SecondOne), j(&E390::HTTPThird)];
    let v = match choose(3) {
        0 => E390::First,
        1 => E390::SecondOne,
        _ => E390::HTTPThird,
    };
    enumeration(ty::<E390>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
#[serde(rename_all = "snake_case")]
pub enum E391 {
    First = 4,
    SecondOne = 1,
    HTTPThird = 9,
}
fn e391() {
    tag("E391");
    let all = [j(&E391::First), j(&E391::SecondOne), j(&E391::HTTPThird)];
    let v = match choose(3) {
        0 => E391::First,
        1 => E391::SecondOne,
        _ => E391::HTTPThird,
    };
    enumeration(ty::<E391>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C, u8)]
pub enum E392 {
    First {
        r#type: V<0>,
        #[serde(rename(deserialize = "dE"))] x__y: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        a1_b2: V<0>,
    },
}
fn e392() {
    tag("E392");
    let all = [j(&E392::First { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E392::SecondOne(V::<1>::default())), j(&E392::HTTPThird { a1_b2: V::<0>::default() })];
    let v = match choose(3) {
        0 => E392::First { r#type: V::<0>::any(), x__y: V::<1>::any() },
        1 => E392::SecondOne(V::<1>::any()),
        _ => E392::HTTPThird { a1_b2: V::<0>::any() },
    };
    enumeration(ty::<E392>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u16)]
pub enum E393 {
    First {
        _lead: V<0>,
        #[serde(rename(deserialize = "dE"))] tail_: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        x__y: V<0>,
    },
}
fn e393() {
    tag("E393");
    let all = [j(&E393::First { _lead: V::<0>::default(), tail_: V::<1>::default() }), j(&E393::SecondOne(V::<1>::default())), j(&E393::HTTPThird { x__y: V::<0>::default() })];
    let v = match choose(3) {
        0 => E393::First { _lead: V::<0>::any(), tail_: V::<1>::any() },
        1 => E393::SecondOne(V::<1>::any()),
        _ => E393::HTTPThird { x__y: V::<0>::any() },
    };
    enumeration(ty::<E393>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
pub enum E394 {
    First {
        a1_b2: V<0>,
        #[serde(rename(deserialize = "dE"))] r#fn: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        tail_: V<0>,
    },
}
fn e394() {
    tag("E394");
    let all = [j(&E394::First { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E394::SecondOne(V::<1>::default())), j(&E394::HTTPThird { tail_: V::<0>::default() })];
    let v = match choose(3) {
        0 => E394::First { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
        1 => E394::SecondOne(V::<1>::any()),
        _ => E394::HTTPThird { tail_: V::<0>::any() },
    };
    enumeration(ty::<E394>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u8, align(4))]
pub enum E395 {
    First {
        x__y: V<0>,
        #[serde(rename(deserialize = "dE"))] is_ok: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        r#fn: V<0>,
    },
}
fn e395() {
    tag("E395");
    let all = [j(&E395::First { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E395::SecondOne(V::<1>::default())), j(&E395::HTTPThird { r#fn: V::<0>::default() })];
    let v = match choose(3) {
        0 => E395::First { x__y: V::<0>::any(), is_ok: V::<1>::any() },
        1 => E395::SecondOne(V::<1>::any()),
        _ => E395::HTTPThird { r#fn: V::<0>::any() },
    };
    enumeration(ty::<E395>(), Repr::External, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C, u8)]
#[serde(tag = "t-Ag")]
pub enum E396 {
    First {
        tail_: V<0>,
        #[serde(rename(deserialize = "dE"))] deep_er_name: V<1>,
    },
    SecondOne(V<3>),
    HTTPThird {
        is_ok: V<0>,
    },
}
fn e396() {
    tag("E396");
    let all = [j(&E396::First { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E396::SecondOne(V::<3>::default())), j(&E396::HTTPThird { is_ok: V::<0>::default() })];
    let v = match choose(3) {
        0 => E396::First { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        1 => E396::SecondOne(V::<3>::any()),
        _ => E396::HTTPThird { is_ok: V::<0>::any() },
    };
    enumeration(ty::<E396>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u16)]
#[serde(tag = "t-Ag")]
pub enum E397 {
    First {
        r#fn: V<0>,
        #[serde(rename(deserialize = "dE"))] first_one: V<1>,
    },
    SecondOne(V<3>),
    HTTPThird {
        deep_er_name: V<0>,
    },
}
fn e397() {
    tag("E397");
    let all = [j(&E397::First { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E397::SecondOne(V::<3>::default())), j(&E397::HTTPThird { deep_er_name: V::<0>::default() })];
    let v = match choose(3) {
        0 => E397::First { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        1 => E397::SecondOne(V::<3>::any()),
        _ => E397::HTTPThird { deep_er_name: V::<0>::any() },
    };
    enumeration(ty::<E397>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
#[serde(tag = "t-Ag")]
pub enum E398 {
    First {
        is_ok: V<0>,
        #[serde(rename(deserialize = "dE"))] second: V<1>,
    },
    SecondOne(V<3>),
    HTTPThird {
        first_one: V<0>,
    },
}
fn e398() {
    tag("E398");
    let all = [j(&E398::First { is_ok: V::<0>::default(), second: V::<1>::default() }), j(&E398::SecondOne(V::<3>::default())), j(&E398::HTTPThird { first_one: V::<0>::default() })];
    let v = match choose(3) {
        0 => E398::First { is_ok: V::<0>::any(), second: V::<1>::any() },
        1 => E398::SecondOne(V::<3>::any()),
        _ => E398::HTTPThird { first_one: V::<0>::any() },
    };
    enumeration(ty::<E398>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u8, align(4))]
#[serde(tag = "t-Ag")]
pub enum E399 {
    First {
        deep_er_name: V<0>,
        #[serde(rename(deserialize = "dE"))] r#type: V<1>,
    },
    SecondOne(V<3>),
    HTTPThird {
        second: V<0>,
    },
}
fn e399() {
    tag("E399");
    let all = [j(&E399::First { deep_er_name: V::<0>::default(), r#type: V::<1>::default() }), j(&E399::SecondOne(V::<3>::default())), j(&E399::HTTPThird { second: V::<0>::default() })];
    let v = match choose(3) {
        0 => E399::First { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
        1 => E399::SecondOne(V::<3>::any()),
        _ => E399::HTTPThird { second: V::<0>::any() },
    };
    enumeration(ty::<E399>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true, true, true]), Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C, u8)]
#[serde(tag = "t", content = "c")]
pub enum E400 {
    First {
        first_one: V<0>,
        #[serde(rename(deserialize = "dE"))] _lead: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        r#type: V<0>,
    },
}
fn e400() {
    tag("E400");
    let all = [j(&E400::First { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E400::SecondOne(V::<1>::default())), j(&E400::HTTPThird { r#type: V::<0>::default() })];
    let v = match choose(3) {
        0 => E400::First { first_one: V::<0>::any(), _lead: V::<1>::any() },
        1 => E400::SecondOne(V::<1>::any()),
        _ => E400::HTTPThird { r#type: V::<0>::any() },
    };
    enumeration(ty::<E400>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u16)]
#[serde(tag = "t", content = "c")]
pub enum E401 {
    First {
        second: V<0>,
        #[serde(rename(deserialize = "dE"))] a1_b2: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        _lead: V<0>,
    },
}
fn e401() {
    tag("E401");
    let all = [j(&E401::First { second: V::<0>::default(), a1_b2: V::<1>::default() }), j(&E401::SecondOne(V::<1>::default())), j(&E401::HTTPThird { _lead: V::<0>::default() })];
    let v = match choose(3) {
        0 => E401::First { second: V::<0>::any(), a1_b2: V::<1>::any() },
        1 => E401::SecondOne(V::<1>::any()),
        _ => E401::HTTPThird { _lead: V::<0>::any() },
    };
    enumeration(ty::<E401>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
#[serde(tag = "t", content = "c")]
pub enum E402 {
    First {
        r#type: V<0>,
        #[serde(rename(deserialize = "dE"))] x__y: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        a1_b2: V<0>,
    },
}
fn e402() {
    tag("E402");
    let all = [j(&E402::First { r#type: V::<0>::default(), x__y: V::<1>::default() }), j(&E402::SecondOne(V::<1>::default())), j(&E402::HTTPThird { a1_b2: V::<0>::default() })];
    let v = match choose(3) {
        0 => E402::First { r#type: V::<0>::any(), x__y: V::<1>::any() },
        1 => E402::SecondOne(V::<1>::any()),
        _ => E402::HTTPThird { a1_b2: V::<0>::any() },
    };
    enumeration(ty::<E402>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u8, align(4))]
#[serde(tag = "t", content = "c")]
pub enum E403 {
    First {
        _lead: V<0>,
        #[serde(rename(deserialize = "dE"))] tail_: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        x__y: V<0>,
    },
}
fn e403() {
    tag("E403");
    let all = [j(&E403::First { _lead: V::<0>::default(), tail_: V::<1>::default() }), j(&E403::SecondOne(V::<1>::default())), j(&E403::HTTPThird { x__y: V::<0>::default() })];
    let v = match choose(3) {
        0 => E403::First { _lead: V::<0>::any(), tail_: V::<1>::any() },
        1 => E403::SecondOne(V::<1>::any()),
        _ => E403::HTTPThird { x__y: V::<0>::any() },
    };
    enumeration(ty::<E403>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C, u8)]
#[serde(untagged)]
pub enum E404 {
    First {
        a1_b2: V<0>,
        #[serde(rename(deserialize = "dE"))] r#fn: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        tail_: V<0>,
    },
}
fn e404() {
    tag("E404");
    let all = [j(&E404::First { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E404::SecondOne(V::<1>::default())), j(&E404::HTTPThird { tail_: V::<0>::default() })];
    let v = match choose(3) {
        0 => E404::First { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
        1 => E404::SecondOne(V::<1>::any()),
        _ => E404::HTTPThird { tail_: V::<0>::any() },
    };
    enumeration(ty::<E404>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u16)]
#[serde(untagged)]
pub enum E405 {
    First {
        x__y: V<0>,
        #[serde(rename(deserialize = "dE"))] is_ok: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        r#fn: V<0>,
    },
}
fn e405() {
    tag("E405");
    let all = [j(&E405::First { x__y: V::<0>::default(), is_ok: V::<1>::default() }), j(&E405::SecondOne(V::<1>::default())), j(&E405::HTTPThird { r#fn: V::<0>::default() })];
    let v = match choose(3) {
        0 => E405::First { x__y: V::<0>::any(), is_ok: V::<1>::any() },
        1 => E405::SecondOne(V::<1>::any()),
        _ => E405::HTTPThird { r#fn: V::<0>::any() },
    };
    enumeration(ty::<E405>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(C)]
#[serde(untagged)]
pub enum E406 {
    First {
        tail_: V<0>,
        #[serde(rename(deserialize = "dE"))] deep_er_name: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        is_ok: V<0>,
    },
}
fn e406() {
    tag("E406");
    let all = [j(&E406::First { tail_: V::<0>::default(), deep_er_name: V::<1>::default() }), j(&E406::SecondOne(V::<1>::default())), j(&E406::HTTPThird { is_ok: V::<0>::default() })];
    let v = match choose(3) {
        0 => E406::First { tail_: V::<0>::any(), deep_er_name: V::<1>::any() },
        1 => E406::SecondOne(V::<1>::any()),
        _ => E406::HTTPThird { is_ok: V::<0>::any() },
    };
    enumeration(ty::<E406>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[repr(u8, align(4))]
#[serde(untagged)]
pub enum E407 {
    First {
        r#fn: V<0>,
        #[serde(rename(deserialize = "dE"))] first_one: V<1>,
    },
    SecondOne(V<1>),
    HTTPThird {
        deep_er_name: V<0>,
    },
}
fn e407() {
    tag("E407");
    let all = [j(&E407::First { r#fn: V::<0>::default(), first_one: V::<1>::default() }), j(&E407::SecondOne(V::<1>::default())), j(&E407::HTTPThird { deep_er_name: V::<0>::default() })];
    let v = match choose(3) {
        0 => E407::First { r#fn: V::<0>::any(), first_one: V::<1>::any() },
        1 => E407::SecondOne(V::<1>::any()),
        _ => E407::HTTPThird { deep_er_name: V::<0>::any() },
    };
    enumeration(ty::<E407>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(u64)]
pub enum E408 {
    First = 1,
    SecondOne = 2,
    HTTPThird = 3,
}
fn e408() {
    tag("E408");
    let all = [j(&E408::First), j(&E408::SecondOne), j(&E408::HTTPThird)];
    let v = match choose(3) {
        0 => E408::First,
        1 => E408::SecondOne,
        _ => E408::HTTPThird,
    };
    enumeration(ty::<E408>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i16)]
pub enum E409 {
    First = -7,
    SecondOne = 7,
    HTTPThird = 0,
}
fn e409() {
    tag("E409");
    let all = [j(&E409::First), j(&E409::SecondOne), j(&E409::HTTPThird)];
    let v = match choose(3) {
        0 => E409::First,
        1 => E409::SecondOne,
        _ => E409::HTTPThird,
    };
    enumeration(ty::<E409>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(i64)]
pub enum E410 {
    First = -9,
    SecondOne = 0,
    HTTPThird = 9,
}
fn e410() {
    tag("E410");
    let all = [j(&E410::First), j(&E410::SecondOne), j(&E410::HTTPThird)];
    let v = match choose(3) {
        0 => E410::First,
        1 => E410::SecondOne,
        _ => E410::HTTPThird,
    };
    enumeration(ty::<E410>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(usize)]
pub enum E411 {
    First = 0,
    SecondOne = 1,
    HTTPThird = 2,
}
fn e411() {
    tag("E411");
    let all = [j(&E411::First), j(&E411::SecondOne), j(&E411::HTTPThird)];
    let v = match choose(3) {
        0 => E411::First,
        1 => E411::SecondOne,
        _ => E411::HTTPThird,
    };
    enumeration(ty::<E411>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Clone, Copy, Serialize_repr, OpgModel)]
#[repr(isize)]
pub enum E412 {
    First = -1,
    SecondOne = 0,
    HTTPThird = 1,
}
fn e412() {
    tag("E412");
    let all = [j(&E412::First), j(&E412::SecondOne), j(&E412::HTTPThird)];
    let v = match choose(3) {
        0 => E412::First,
        1 => E412::SecondOne,
        _ => E412::HTTPThird,
    };
    enumeration(ty::<E412>(), Repr::Numeric, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E413 {
    First,
    #[serde(skip_serializing)]
    SecondOne,
}
fn e413() {
    tag("E413");
    let all = [j(&E413::First)];
    let v = match choose(1) {
        _ => E413::First,
    };
    enumeration(ty::<E413>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E414 {
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird,
    X4th,
}
fn e414() {
    tag("E414");
    let all = [j(&E414::SecondOne), j(&E414::HTTPThird), j(&E414::X4th)];
    let v = match choose(3) {
        0 => E414::SecondOne,
        1 => E414::HTTPThird,
        _ => E414::X4th,
    };
    enumeration(ty::<E414>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E415 {
    HTTPThird,
}
fn e415() {
    tag("E415");
    let all = [j(&E415::HTTPThird)];
    let v = match choose(1) {
        _ => E415::HTTPThird,
    };
    enumeration(ty::<E415>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable, inline)]
pub enum E416 {
    X4th,
    #[opg(inline)]
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(alias = "ali")]
    #[opg("text")]
    Z,
    #[serde(rename = "re-Named")]
    First,
    #[serde(skip_deserializing)]
    SecondOne,
    HTTPThird,
}
fn e416() {
    tag("E416");
    let all = [j(&E416::X4th), j(&E416::r#Fifth), j(&E416::Six_th), j(&E416::Z), j(&E416::First), j(&E416::SecondOne), j(&E416::HTTPThird)];
    let v = match choose(7) {
        0 => E416::X4th,
        1 => E416::r#Fifth,
        2 => E416::Six_th,
        3 => E416::Z,
        4 => E416::First,
        5 => E416::SecondOne,
        _ => E416::HTTPThird,
    };
    enumeration(ty::<E416>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E417 {
    r#Fifth,
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z,
}
fn e417() {
    tag("E417");
    let all = [j(&E417::r#Fifth), j(&E417::Six_th), j(&E417::Z)];
    let v = match choose(3) {
        0 => E417::r#Fifth,
        1 => E417::Six_th,
        _ => E417::Z,
    };
    enumeration(ty::<E417>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
pub enum E418 {
    Six_th,
}
fn e418() {
    tag("E418");
    let all = [j(&E418::Six_th)];
    let v = match choose(1) {
        _ => E418::Six_th,
    };
    enumeration(ty::<E418>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other")]
pub enum E419 {
    Z,
    First,
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
    #[serde(skip)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th,
}
fn e419() {
    tag("E419");
    let all = [j(&E419::Z), j(&E419::First), j(&E419::HTTPThird), j(&E419::r#Fifth), j(&E419::Six_th)];
    let v = match choose(5) {
        0 => E419::Z,
        1 => E419::First,
        2 => E419::HTTPThird,
        3 => E419::r#Fifth,
        _ => E419::Six_th,
    };
    enumeration(ty::<E419>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
pub enum E420 {
    First,
    #[serde(rename = "re-Named")]
    SecondOne,
}
fn e420() {
    tag("E420");
    let all = [j(&E420::First), j(&E420::SecondOne)];
    let v = match choose(2) {
        0 => E420::First,
        _ => E420::SecondOne,
    };
    enumeration(ty::<E420>(), Repr::Plain, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E421 {
    SecondOne,
}
fn e421() {
    tag("E421");
    let all = [j(&E421::SecondOne)];
    let v = match choose(1) {
        _ => E421::SecondOne,
    };
    enumeration(ty::<E421>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable)]
#[serde(rename_all = "UPPERCASE")]
pub enum E422 {
    HTTPThird,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th,
    #[opg(inline)]
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(alias = "ali")]
    #[opg("text")]
    Z,
    #[serde(rename = "re-Named")]
    First,
    #[serde(skip_deserializing)]
    SecondOne,
}
fn e422() {
    tag("E422");
    let all = [j(&E422::HTTPThird), j(&E422::X4th), j(&E422::r#Fifth), j(&E422::Six_th), j(&E422::Z), j(&E422::First), j(&E422::SecondOne)];
    let v = match choose(7) {
        0 => E422::HTTPThird,
        1 => E422::X4th,
        2 => E422::r#Fifth,
        3 => E422::Six_th,
        4 => E422::Z,
        5 => E422::First,
        _ => E422::SecondOne,
    };
    enumeration(ty::<E422>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[opg(inline)]
pub enum E423 {
    X4th,
    #[serde(skip)]
    r#Fifth,
}
fn e423() {
    tag("E423");
    let all = [j(&E423::X4th)];
    let v = match choose(1) {
        _ => E423::X4th,
    };
    enumeration(ty::<E423>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(rename_all = "camelCase")]
pub enum E424 {
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z,
}
fn e424() {
    tag("E424");
    let all = [j(&E424::r#Fifth), j(&E424::Z)];
    let v = match choose(2) {
        0 => E424::r#Fifth,
        _ => E424::Z,
    };
    enumeration(ty::<E424>(), Repr::Plain, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
#[serde(rename = "Other")]
pub enum E425 {
    Six_th,
    #[serde(skip_deserializing)]
    Z,
    First,
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
    #[serde(skip)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
}
fn e425() {
    tag("E425");
    let all = [j(&E425::Six_th), j(&E425::Z), j(&E425::First), j(&E425::HTTPThird), j(&E425::r#Fifth)];
    let v = match choose(5) {
        0 => E425::Six_th,
        1 => E425::Z,
        2 => E425::First,
        3 => E425::HTTPThird,
        _ => E425::r#Fifth,
    };
    enumeration(ty::<E425>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E426 {
    Z,
    #[serde(alias = "ali")]
    #[opg("text")]
    First,
}
fn e426() {
    tag("E426");
    let all = [j(&E426::Z), j(&E426::First)];
    let v = match choose(2) {
        0 => E426::Z,
        _ => E426::First,
    };
    enumeration(ty::<E426>(), Repr::Plain, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg(inline, "about")]
pub enum E427 {
    First,
    #[opg(inline)]
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird,
}
fn e427() {
    tag("E427");
    let all = [j(&E427::First), j(&E427::SecondOne), j(&E427::HTTPThird)];
    let v = match choose(3) {
        0 => E427::First,
        1 => E427::SecondOne,
        _ => E427::HTTPThird,
    };
    enumeration(ty::<E427>(), Repr::Plain, &all, &[Mask::Other, Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E428 {
    SecondOne,
}
fn e428() {
    tag("E428");
    let all = [j(&E428::SecondOne)];
    let v = match choose(1) {
        _ => E428::SecondOne,
    };
    enumeration(ty::<E428>(), Repr::Plain, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub enum E429 {
    First {
    },
    #[serde(skip_serializing)]
    SecondOne(V<1>),
}
fn e429() {
    tag("E429");
    let all = [j(&E429::First {  })];
    let v = match choose(1) {
        _ => E429::First {  },
    };
    enumeration(ty::<E429>(), Repr::External, &all, &[Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub enum E430 {
    SecondOne(V<0>),
    #[serde(skip_deserializing)]
    HTTPThird(V<0>, V<1>),
    X4th {
        r#type: V<0>,
    },
}
fn e430() {
    tag("E430");
    let all = [j(&E430::SecondOne(V::<0>::default())), j(&E430::HTTPThird(V::<0>::default(), V::<1>::default())), j(&E430::X4th { r#type: V::<0>::default() })];
    let v = match choose(3) {
        0 => E430::SecondOne(V::<0>::any()),
        1 => E430::HTTPThird(V::<0>::any(), V::<1>::any()),
        _ => E430::X4th { r#type: V::<0>::any() },
    };
    enumeration(ty::<E430>(), Repr::External, &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum E431 {
    HTTPThird(V<0>, V<1>),
}
fn e431() {
    tag("E431");
    let all = [j(&E431::HTTPThird(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E431::HTTPThird(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E431>(), Repr::External, &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable, inline)]
pub enum E432 {
    X4th {
    },
    #[opg(inline)]
    r#Fifth(V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(V<0>, V<1>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
    },
    #[serde(rename = "re-Named")]
    First(V<0>),
    #[serde(skip_deserializing)]
    SecondOne(V<0>, V<1>),
    HTTPThird {
    },
}
fn e432() {
    tag("E432");
    let all = [j(&E432::X4th {  }), j(&E432::r#Fifth(V::<1>::default())), j(&E432::Six_th(V::<0>::default(), V::<1>::default())), j(&E432::Z {  }), j(&E432::First(V::<0>::default())), j(&E432::SecondOne(V::<0>::default(), V::<1>::default())), j(&E432::HTTPThird {  })];
    let v = match choose(7) {
        0 => E432::X4th {  },
        1 => E432::r#Fifth(V::<1>::any()),
        2 => E432::Six_th(V::<0>::any(), V::<1>::any()),
        3 => E432::Z {  },
        4 => E432::First(V::<0>::any()),
        5 => E432::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E432::HTTPThird {  },
    };
    enumeration(ty::<E432>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub enum E433 {
    r#Fifth(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(V<0>, V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        x__y: V<0>,
    },
}
fn e433() {
    tag("E433");
    let all = [j(&E433::r#Fifth(V::<0>::default())), j(&E433::Six_th(V::<0>::default(), V::<1>::default())), j(&E433::Z { x__y: V::<0>::default() })];
    let v = match choose(3) {
        0 => E433::r#Fifth(V::<0>::any()),
        1 => E433::Six_th(V::<0>::any(), V::<1>::any()),
        _ => E433::Z { x__y: V::<0>::any() },
    };
    enumeration(ty::<E433>(), Repr::External, &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
pub enum E434 {
    Six_th(V<0>, V<1>),
}
fn e434() {
    tag("E434");
    let all = [j(&E434::Six_th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E434::Six_th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E434>(), Repr::External, &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other")]
pub enum E435 {
    Z {
    },
    First(V<1>),
    #[serde(skip_serializing)]
    SecondOne(V<0>, V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
    },
    #[serde(skip)]
    X4th(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<0>, V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
    },
}
fn e435() {
    tag("E435");
    let all = [j(&E435::Z {  }), j(&E435::First(V::<1>::default())), j(&E435::HTTPThird {  }), j(&E435::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E435::Six_th {  })];
    let v = match choose(5) {
        0 => E435::Z {  },
        1 => E435::First(V::<1>::any()),
        2 => E435::HTTPThird {  },
        3 => E435::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E435::Six_th {  },
    };
    enumeration(ty::<E435>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Fields(&[]), Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
pub enum E436 {
    First(V<0>),
    #[serde(rename = "re-Named")]
    SecondOne(V<0>, V<1>),
}
fn e436() {
    tag("E436");
    let all = [j(&E436::First(V::<0>::default())), j(&E436::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E436::First(V::<0>::any()),
        _ => E436::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E436>(), Repr::External, &all, &[Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub enum E437 {
    SecondOne(V<0>, V<1>),
}
fn e437() {
    tag("E437");
    let all = [j(&E437::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E437::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E437>(), Repr::External, &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable)]
#[serde(rename_all = "UPPERCASE")]
pub enum E438 {
    HTTPThird {
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<1>),
    #[opg(inline)]
    r#Fifth(V<0>, V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<0>),
    #[serde(rename = "re-Named")]
    First(V<0>, V<1>),
    #[serde(skip_deserializing)]
    SecondOne {
    },
}
fn e438() {
    tag("E438");
    let all = [j(&E438::HTTPThird {  }), j(&E438::X4th(V::<1>::default())), j(&E438::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E438::Six_th {  }), j(&E438::Z(V::<0>::default())), j(&E438::First(V::<0>::default(), V::<1>::default())), j(&E438::SecondOne {  })];
    let v = match choose(7) {
        0 => E438::HTTPThird {  },
        1 => E438::X4th(V::<1>::any()),
        2 => E438::r#Fifth(V::<0>::any(), V::<1>::any()),
        3 => E438::Six_th {  },
        4 => E438::Z(V::<0>::any()),
        5 => E438::First(V::<0>::any(), V::<1>::any()),
        _ => E438::SecondOne {  },
    };
    enumeration(ty::<E438>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[opg(inline)]
pub enum E439 {
    X4th(V<0>),
    #[serde(skip)]
    r#Fifth(V<0>, V<1>),
}
fn e439() {
    tag("E439");
    let all = [j(&E439::X4th(V::<0>::default()))];
    let v = match choose(1) {
        _ => E439::X4th(V::<0>::any()),
    };
    enumeration(ty::<E439>(), Repr::External, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(rename_all = "camelCase")]
pub enum E440 {
    r#Fifth(V<0>, V<1>),
    #[serde(skip_serializing)]
    Six_th {
        second: V<0>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] a1_b2: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(V<0>),
}
fn e440() {
    tag("E440");
    let all = [j(&E440::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E440::Z(V::<0>::default()))];
    let v = match choose(2) {
        0 => E440::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E440::Z(V::<0>::any()),
    };
    enumeration(ty::<E440>(), Repr::External, &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
#[serde(rename = "Other")]
pub enum E441 {
    Six_th {
    },
    #[serde(skip_deserializing)]
    Z(V<1>),
    First(V<0>, V<1>),
    #[serde(skip_serializing)]
    SecondOne {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(V<0>),
    #[serde(skip)]
    X4th(V<0>, V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
    },
}
fn e441() {
    tag("E441");
    let all = [j(&E441::Six_th {  }), j(&E441::Z(V::<1>::default())), j(&E441::First(V::<0>::default(), V::<1>::default())), j(&E441::HTTPThird(V::<0>::default())), j(&E441::r#Fifth {  })];
    let v = match choose(5) {
        0 => E441::Six_th {  },
        1 => E441::Z(V::<1>::any()),
        2 => E441::First(V::<0>::any(), V::<1>::any()),
        3 => E441::HTTPThird(V::<0>::any()),
        _ => E441::r#Fifth {  },
    };
    enumeration(ty::<E441>(), Repr::External, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E442 {
    Z(V<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    First(V<0>, V<1>),
}
fn e442() {
    tag("E442");
    let all = [j(&E442::Z(V::<0>::default())), j(&E442::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E442::Z(V::<0>::any()),
        _ => E442::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E442>(), Repr::External, &all, &[Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg(inline, "about")]
pub enum E443 {
    First(V<0>, V<1>),
    #[opg(inline)]
    SecondOne {
        a1_b2: V<0>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] r#fn: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(V<0>),
}
fn e443() {
    tag("E443");
    let all = [j(&E443::First(V::<0>::default(), V::<1>::default())), j(&E443::SecondOne { a1_b2: V::<0>::default(), r#fn: V::<1>::default() }), j(&E443::HTTPThird(V::<0>::default()))];
    let v = match choose(3) {
        0 => E443::First(V::<0>::any(), V::<1>::any()),
        1 => E443::SecondOne { a1_b2: V::<0>::any(), r#fn: V::<1>::any() },
        _ => E443::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E443>(), Repr::External, &all, &[Mask::Tuple, Mask::Fields(&[true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E444 {
    SecondOne {
    },
}
fn e444() {
    tag("E444");
    let all = [j(&E444::SecondOne {  })];
    let v = match choose(1) {
        _ => E444::SecondOne {  },
    };
    enumeration(ty::<E444>(), Repr::External, &all, &[Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E445 {
    First {
    },
    #[serde(skip_serializing)]
    SecondOne(V<3>),
}
fn e445() {
    tag("E445");
    let all = [j(&E445::First {  })];
    let v = match choose(1) {
        _ => E445::First {  },
    };
    enumeration(ty::<E445>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable)]
pub enum E446 {
    SecondOne(V<3>),
    #[serde(skip_deserializing)]
    HTTPThird,
    X4th {
        is_ok: V<0>,
    },
}
fn e446() {
    tag("E446");
    let all = [j(&E446::SecondOne(V::<3>::default())), j(&E446::HTTPThird), j(&E446::X4th { is_ok: V::<0>::default() })];
    let v = match choose(3) {
        0 => E446::SecondOne(V::<3>::any()),
        1 => E446::HTTPThird,
        _ => E446::X4th { is_ok: V::<0>::any() },
    };
    enumeration(ty::<E446>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E447 {
    HTTPThird,
}
fn e447() {
    tag("E447");
    let all = [j(&E447::HTTPThird)];
    let v = match choose(1) {
        _ => E447::HTTPThird,
    };
    enumeration(ty::<E447>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[serde(rename = "Other")]
#[opg(nullable, inline)]
pub enum E448 {
    X4th {
    },
    #[opg(inline)]
    r#Fifth(V<3>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(alias = "ali")]
    #[opg("text")]
    Z {
    },
    #[serde(rename = "re-Named")]
    First(V<3>),
    #[serde(skip_deserializing)]
    SecondOne,
    HTTPThird {
    },
}
fn e448() {
    tag("E448");
    let all = [j(&E448::X4th {  }), j(&E448::r#Fifth(V::<3>::default())), j(&E448::Six_th), j(&E448::Z {  }), j(&E448::First(V::<3>::default())), j(&E448::SecondOne), j(&E448::HTTPThird {  })];
    let v = match choose(7) {
        0 => E448::X4th {  },
        1 => E448::r#Fifth(V::<3>::any()),
        2 => E448::Six_th,
        3 => E448::Z {  },
        4 => E448::First(V::<3>::any()),
        5 => E448::SecondOne,
        _ => E448::HTTPThird {  },
    };
    enumeration(ty::<E448>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag")]
pub enum E449 {
    r#Fifth(V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z {
        second: V<0>,
    },
}
fn e449() {
    tag("E449");
    let all = [j(&E449::r#Fifth(V::<3>::default())), j(&E449::Six_th), j(&E449::Z { second: V::<0>::default() })];
    let v = match choose(3) {
        0 => E449::r#Fifth(V::<3>::any()),
        1 => E449::Six_th,
        _ => E449::Z { second: V::<0>::any() },
    };
    enumeration(ty::<E449>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable, "about")]
pub enum E450 {
    Six_th,
}
fn e450() {
    tag("E450");
    let all = [j(&E450::Six_th)];
    let v = match choose(1) {
        _ => E450::Six_th,
    };
    enumeration(ty::<E450>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E451 {
    Z {
    },
    First(V<3>),
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
    },
    #[serde(skip)]
    X4th(V<3>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
    },
}
fn e451() {
    tag("E451");
    let all = [j(&E451::Z {  }), j(&E451::First(V::<3>::default())), j(&E451::HTTPThird {  }), j(&E451::r#Fifth), j(&E451::Six_th {  })];
    let v = match choose(5) {
        0 => E451::Z {  },
        1 => E451::First(V::<3>::any()),
        2 => E451::HTTPThird {  },
        3 => E451::r#Fifth,
        _ => E451::Six_th {  },
    };
    enumeration(ty::<E451>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Fields(&[true]), Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable, inline, "about")]
pub enum E452 {
    First(V<3>),
    #[serde(rename = "re-Named")]
    SecondOne,
}
fn e452() {
    tag("E452");
    let all = [j(&E452::First(V::<3>::default())), j(&E452::SecondOne)];
    let v = match choose(2) {
        0 => E452::First(V::<3>::any()),
        _ => E452::SecondOne,
    };
    enumeration(ty::<E452>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t-Ag")]
pub enum E453 {
    SecondOne,
}
fn e453() {
    tag("E453");
    let all = [j(&E453::SecondOne)];
    let v = match choose(1) {
        _ => E453::SecondOne,
    };
    enumeration(ty::<E453>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[serde(rename = "Other")]
#[opg(nullable)]
#[serde(rename_all = "UPPERCASE")]
pub enum E454 {
    HTTPThird {
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<3>),
    #[opg(inline)]
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<3>),
    #[serde(rename = "re-Named")]
    First,
    #[serde(skip_deserializing)]
    SecondOne {
    },
}
fn e454() {
    tag("E454");
    let all = [j(&E454::HTTPThird {  }), j(&E454::X4th(V::<3>::default())), j(&E454::r#Fifth), j(&E454::Six_th {  }), j(&E454::Z(V::<3>::default())), j(&E454::First), j(&E454::SecondOne {  })];
    let v = match choose(7) {
        0 => E454::HTTPThird {  },
        1 => E454::X4th(V::<3>::any()),
        2 => E454::r#Fifth,
        3 => E454::Six_th {  },
        4 => E454::Z(V::<3>::any()),
        5 => E454::First,
        _ => E454::SecondOne {  },
    };
    enumeration(ty::<E454>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[opg(inline)]
#[serde(tag = "t-Ag")]
pub enum E455 {
    X4th(V<3>),
    #[serde(skip)]
    r#Fifth,
}
fn e455() {
    tag("E455");
    let all = [j(&E455::X4th(V::<3>::default()))];
    let v = match choose(1) {
        _ => E455::X4th(V::<3>::any()),
    };
    enumeration(ty::<E455>(), Repr::Internal("t-Ag"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable, inline)]
#[serde(rename_all = "camelCase")]
pub enum E456 {
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th {
        r#fn: V<0>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] first_one: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(V<3>),
}
fn e456() {
    tag("E456");
    let all = [j(&E456::r#Fifth), j(&E456::Z(V::<3>::default()))];
    let v = match choose(2) {
        0 => E456::r#Fifth,
        _ => E456::Z(V::<3>::any()),
    };
    enumeration(ty::<E456>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
#[serde(rename = "Other")]
#[serde(tag = "t-Ag")]
pub enum E457 {
    Six_th {
    },
    #[serde(skip_deserializing)]
    Z(V<3>),
    First,
    #[serde(skip_serializing)]
    SecondOne {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(V<3>),
    #[serde(skip)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth {
    },
}
fn e457() {
    tag("E457");
    let all = [j(&E457::Six_th {  }), j(&E457::Z(V::<3>::default())), j(&E457::First), j(&E457::HTTPThird(V::<3>::default())), j(&E457::r#Fifth {  })];
    let v = match choose(5) {
        0 => E457::Six_th {  },
        1 => E457::Z(V::<3>::any()),
        2 => E457::First,
        3 => E457::HTTPThird(V::<3>::any()),
        _ => E457::r#Fifth {  },
    };
    enumeration(ty::<E457>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable, "about")]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E458 {
    Z(V<3>),
    #[serde(alias = "ali")]
    #[opg("text")]
    First,
}
fn e458() {
    tag("E458");
    let all = [j(&E458::Z(V::<3>::default())), j(&E458::First)];
    let v = match choose(2) {
        0 => E458::Z(V::<3>::any()),
        _ => E458::First,
    };
    enumeration(ty::<E458>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg(inline, "about")]
#[serde(tag = "t-Ag")]
pub enum E459 {
    First,
    #[opg(inline)]
    SecondOne {
        first_one: V<0>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] _lead: V<1>,
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird(V<3>),
}
fn e459() {
    tag("E459");
    let all = [j(&E459::First), j(&E459::SecondOne { first_one: V::<0>::default(), _lead: V::<1>::default() }), j(&E459::HTTPThird(V::<3>::default()))];
    let v = match choose(3) {
        0 => E459::First,
        1 => E459::SecondOne { first_one: V::<0>::any(), _lead: V::<1>::any() },
        _ => E459::HTTPThird(V::<3>::any()),
    };
    enumeration(ty::<E459>(), Repr::Internal("t-Ag"), &all, &[Mask::Other, Mask::Fields(&[true, true, true]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[serde(rename = "Other")]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E460 {
    SecondOne {
    },
}
fn e460() {
    tag("E460");
    let all = [j(&E460::SecondOne {  })];
    let v = match choose(1) {
        _ => E460::SecondOne {  },
    };
    enumeration(ty::<E460>(), Repr::Internal("t-Ag"), &all, &[Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E461 {
    First {
    },
    #[serde(skip_serializing)]
    SecondOne,
}
fn e461() {
    tag("E461");
    let all = [j(&E461::First {  })];
    let v = match choose(1) {
        _ => E461::First {  },
    };
    enumeration(ty::<E461>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable)]
pub enum E462 {
    SecondOne,
    #[serde(skip_deserializing)]
    HTTPThird(V<1>),
    X4th(V<0>, V<1>),
}
fn e462() {
    tag("E462");
    let all = [j(&E462::SecondOne), j(&E462::HTTPThird(V::<1>::default())), j(&E462::X4th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E462::SecondOne,
        1 => E462::HTTPThird(V::<1>::any()),
        _ => E462::X4th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E462>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E463 {
    HTTPThird(V<0>),
}
fn e463() {
    tag("E463");
    let all = [j(&E463::HTTPThird(V::<0>::default()))];
    let v = match choose(1) {
        _ => E463::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E463>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[serde(rename = "Other")]
#[opg(nullable, inline)]
pub enum E464 {
    X4th(V<0>, V<1>),
    #[opg(inline)]
    r#Fifth {
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th,
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<1>),
    #[serde(rename = "re-Named")]
    First(V<0>, V<1>),
    #[serde(skip_deserializing)]
    SecondOne {
    },
    HTTPThird,
}
fn e464() {
    tag("E464");
    let all = [j(&E464::X4th(V::<0>::default(), V::<1>::default())), j(&E464::r#Fifth {  }), j(&E464::Six_th), j(&E464::Z(V::<1>::default())), j(&E464::First(V::<0>::default(), V::<1>::default())), j(&E464::SecondOne {  }), j(&E464::HTTPThird)];
    let v = match choose(7) {
        0 => E464::X4th(V::<0>::any(), V::<1>::any()),
        1 => E464::r#Fifth {  },
        2 => E464::Six_th,
        3 => E464::Z(V::<1>::any()),
        4 => E464::First(V::<0>::any(), V::<1>::any()),
        5 => E464::SecondOne {  },
        _ => E464::HTTPThird,
    };
    enumeration(ty::<E464>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Fields(&[]), Mask::Other, Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t", content = "c")]
pub enum E465 {
    r#Fifth {
        x__y: V<0>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(V<0>),
}
fn e465() {
    tag("E465");
    let all = [j(&E465::r#Fifth { x__y: V::<0>::default() }), j(&E465::Six_th), j(&E465::Z(V::<0>::default()))];
    let v = match choose(3) {
        0 => E465::r#Fifth { x__y: V::<0>::any() },
        1 => E465::Six_th,
        _ => E465::Z(V::<0>::any()),
    };
    enumeration(ty::<E465>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, "about")]
pub enum E466 {
    Six_th,
}
fn e466() {
    tag("E466");
    let all = [j(&E466::Six_th)];
    let v = match choose(1) {
        _ => E466::Six_th,
    };
    enumeration(ty::<E466>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E467 {
    Z(V<0>),
    First(V<0>, V<1>),
    #[serde(skip_serializing)]
    SecondOne {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird,
    #[serde(skip)]
    X4th(V<0>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<0>, V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
    },
}
fn e467() {
    tag("E467");
    let all = [j(&E467::Z(V::<0>::default())), j(&E467::First(V::<0>::default(), V::<1>::default())), j(&E467::HTTPThird), j(&E467::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E467::Six_th {  })];
    let v = match choose(5) {
        0 => E467::Z(V::<0>::any()),
        1 => E467::First(V::<0>::any(), V::<1>::any()),
        2 => E467::HTTPThird,
        3 => E467::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E467::Six_th {  },
    };
    enumeration(ty::<E467>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Other, Mask::Tuple, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, inline, "about")]
pub enum E468 {
    First(V<0>, V<1>),
    #[serde(rename = "re-Named")]
    SecondOne {
        deep_er_name: V<0>,
    },
}
fn e468() {
    tag("E468");
    let all = [j(&E468::First(V::<0>::default(), V::<1>::default())), j(&E468::SecondOne { deep_er_name: V::<0>::default() })];
    let v = match choose(2) {
        0 => E468::First(V::<0>::any(), V::<1>::any()),
        _ => E468::SecondOne { deep_er_name: V::<0>::any() },
    };
    enumeration(ty::<E468>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "t", content = "c")]
pub enum E469 {
    SecondOne {
        deep_er_name: V<0>,
        #[serde(default)] r#type: V<1>,
    },
}
fn e469() {
    tag("E469");
    let all = [j(&E469::SecondOne { deep_er_name: V::<0>::default(), r#type: V::<1>::default() })];
    let v = match choose(1) {
        _ => E469::SecondOne { deep_er_name: V::<0>::any(), r#type: V::<1>::any() },
    };
    enumeration(ty::<E469>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[serde(rename = "Other")]
#[opg(nullable)]
#[serde(rename_all = "UPPERCASE")]
pub enum E470 {
    HTTPThird,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<1>),
    #[opg(inline)]
    r#Fifth(V<0>, V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z,
    #[serde(rename = "re-Named")]
    First(V<1>),
    #[serde(skip_deserializing)]
    SecondOne(V<0>, V<1>),
}
fn e470() {
    tag("E470");
    let all = [j(&E470::HTTPThird), j(&E470::X4th(V::<1>::default())), j(&E470::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E470::Six_th {  }), j(&E470::Z), j(&E470::First(V::<1>::default())), j(&E470::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(7) {
        0 => E470::HTTPThird,
        1 => E470::X4th(V::<1>::any()),
        2 => E470::r#Fifth(V::<0>::any(), V::<1>::any()),
        3 => E470::Six_th {  },
        4 => E470::Z,
        5 => E470::First(V::<1>::any()),
        _ => E470::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E470>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Other, Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[opg(inline)]
#[serde(tag = "t", content = "c")]
pub enum E471 {
    X4th(V<0>),
    #[serde(skip)]
    r#Fifth(V<0>, V<1>),
}
fn e471() {
    tag("E471");
    let all = [j(&E471::X4th(V::<0>::default()))];
    let v = match choose(1) {
        _ => E471::X4th(V::<0>::any()),
    };
    enumeration(ty::<E471>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, inline)]
#[serde(rename_all = "camelCase")]
pub enum E472 {
    r#Fifth(V<0>, V<1>),
    #[serde(skip_serializing)]
    Six_th {
        _lead: V<0>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] tail_: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z,
}
fn e472() {
    tag("E472");
    let all = [j(&E472::r#Fifth(V::<0>::default(), V::<1>::default())), j(&E472::Z)];
    let v = match choose(2) {
        0 => E472::r#Fifth(V::<0>::any(), V::<1>::any()),
        _ => E472::Z,
    };
    enumeration(ty::<E472>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
#[serde(rename = "Other")]
#[serde(tag = "t", content = "c")]
pub enum E473 {
    Six_th {
    },
    #[serde(skip_deserializing)]
    Z,
    First(V<0>),
    #[serde(skip_serializing)]
    SecondOne(V<0>, V<1>),
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
    },
    #[serde(skip)]
    X4th,
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<0>),
}
fn e473() {
    tag("E473");
    let all = [j(&E473::Six_th {  }), j(&E473::Z), j(&E473::First(V::<0>::default())), j(&E473::HTTPThird {  }), j(&E473::r#Fifth(V::<0>::default()))];
    let v = match choose(5) {
        0 => E473::Six_th {  },
        1 => E473::Z,
        2 => E473::First(V::<0>::any()),
        3 => E473::HTTPThird {  },
        _ => E473::r#Fifth(V::<0>::any()),
    };
    enumeration(ty::<E473>(), Repr::Adjacent("t", "c"), &all, &[Mask::Fields(&[]), Mask::Other, Mask::Other, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(nullable, "about")]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E474 {
    Z,
    #[serde(alias = "ali")]
    #[opg("text")]
    First(V<1>),
}
fn e474() {
    tag("E474");
    let all = [j(&E474::Z), j(&E474::First(V::<1>::default()))];
    let v = match choose(2) {
        0 => E474::Z,
        _ => E474::First(V::<1>::any()),
    };
    enumeration(ty::<E474>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg(inline, "about")]
#[serde(tag = "t", content = "c")]
pub enum E475 {
    First(V<0>),
    #[opg(inline)]
    SecondOne(V<0>, V<1>),
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        r#fn: V<0>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] first_one: V<1>,
    },
}
fn e475() {
    tag("E475");
    let all = [j(&E475::First(V::<0>::default())), j(&E475::SecondOne(V::<0>::default(), V::<1>::default())), j(&E475::HTTPThird { r#fn: V::<0>::default(), first_one: V::<1>::default() })];
    let v = match choose(3) {
        0 => E475::First(V::<0>::any()),
        1 => E475::SecondOne(V::<0>::any(), V::<1>::any()),
        _ => E475::HTTPThird { r#fn: V::<0>::any(), first_one: V::<1>::any() },
    };
    enumeration(ty::<E475>(), Repr::Adjacent("t", "c"), &all, &[Mask::Other, Mask::Tuple, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[serde(rename = "Other")]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E476 {
    SecondOne(V<0>, V<1>),
}
fn e476() {
    tag("E476");
    let all = [j(&E476::SecondOne(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E476::SecondOne(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E476>(), Repr::Adjacent("t", "c"), &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E477 {
    First {
    },
    #[serde(skip_serializing)]
    SecondOne(V<1>),
}
fn e477() {
    tag("E477");
    let all = [j(&E477::First {  })];
    let v = match choose(1) {
        _ => E477::First {  },
    };
    enumeration(ty::<E477>(), Repr::Untagged, &all, &[Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(nullable)]
pub enum E478 {
    SecondOne(V<0>),
    #[serde(skip_deserializing)]
    HTTPThird(V<0>, V<1>),
    X4th,
}
fn e478() {
    tag("E478");
    let all = [j(&E478::SecondOne(V::<0>::default())), j(&E478::HTTPThird(V::<0>::default(), V::<1>::default())), j(&E478::X4th)];
    let v = match choose(3) {
        0 => E478::SecondOne(V::<0>::any()),
        1 => E478::HTTPThird(V::<0>::any(), V::<1>::any()),
        _ => E478::X4th,
    };
    enumeration(ty::<E478>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(untagged)]
pub enum E479 {
    HTTPThird(V<0>, V<1>),
}
fn e479() {
    tag("E479");
    let all = [j(&E479::HTTPThird(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E479::HTTPThird(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E479>(), Repr::Untagged, &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[serde(rename = "Other")]
#[opg(nullable, inline)]
pub enum E480 {
    X4th,
    #[opg(inline)]
    r#Fifth {
    },
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th(V<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<0>, V<1>),
    #[serde(rename = "re-Named")]
    First,
    #[serde(skip_deserializing)]
    SecondOne {
    },
    HTTPThird(V<0>),
}
fn e480() {
    tag("E480");
    let all = [j(&E480::X4th), j(&E480::r#Fifth {  }), j(&E480::Six_th(V::<0>::default())), j(&E480::Z(V::<0>::default(), V::<1>::default())), j(&E480::First), j(&E480::SecondOne {  }), j(&E480::HTTPThird(V::<0>::default()))];
    let v = match choose(7) {
        0 => E480::X4th,
        1 => E480::r#Fifth {  },
        2 => E480::Six_th(V::<0>::any()),
        3 => E480::Z(V::<0>::any(), V::<1>::any()),
        4 => E480::First,
        5 => E480::SecondOne {  },
        _ => E480::HTTPThird(V::<0>::any()),
    };
    enumeration(ty::<E480>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Other, Mask::Fields(&[]), Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(untagged)]
pub enum E481 {
    r#Fifth {
        second: V<0>,
    },
    #[serde(rename = "both", rename_all = "camelCase")]
    Six_th(V<1>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Z(V<0>, V<1>),
}
fn e481() {
    tag("E481");
    let all = [j(&E481::r#Fifth { second: V::<0>::default() }), j(&E481::Six_th(V::<1>::default())), j(&E481::Z(V::<0>::default(), V::<1>::default()))];
    let v = match choose(3) {
        0 => E481::r#Fifth { second: V::<0>::any() },
        1 => E481::Six_th(V::<1>::any()),
        _ => E481::Z(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E481>(), Repr::Untagged, &all, &[Mask::Fields(&[true]), Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(nullable, "about")]
pub enum E482 {
    Six_th(V<0>),
}
fn e482() {
    tag("E482");
    let all = [j(&E482::Six_th(V::<0>::default()))];
    let v = match choose(1) {
        _ => E482::Six_th(V::<0>::any()),
    };
    enumeration(ty::<E482>(), Repr::Untagged, &all, &[Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E483 {
    Z(V<0>, V<1>),
    First,
    #[serde(skip_serializing)]
    SecondOne {
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird(V<1>),
    #[serde(skip)]
    X4th(V<0>, V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth,
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Six_th {
    },
}
fn e483() {
    tag("E483");
    let all = [j(&E483::Z(V::<0>::default(), V::<1>::default())), j(&E483::First), j(&E483::HTTPThird(V::<1>::default())), j(&E483::r#Fifth), j(&E483::Six_th {  })];
    let v = match choose(5) {
        0 => E483::Z(V::<0>::any(), V::<1>::any()),
        1 => E483::First,
        2 => E483::HTTPThird(V::<1>::any()),
        3 => E483::r#Fifth,
        _ => E483::Six_th {  },
    };
    enumeration(ty::<E483>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Other, Mask::Other, Mask::Fields(&[])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(nullable, inline, "about")]
pub enum E484 {
    First,
    #[serde(rename = "re-Named")]
    SecondOne {
        x__y: V<0>,
    },
}
fn e484() {
    tag("E484");
    let all = [j(&E484::First), j(&E484::SecondOne { x__y: V::<0>::default() })];
    let v = match choose(2) {
        0 => E484::First,
        _ => E484::SecondOne { x__y: V::<0>::any() },
    };
    enumeration(ty::<E484>(), Repr::Untagged, &all, &[Mask::Other, Mask::Fields(&[true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum E485 {
    SecondOne {
        x__y: V<0>,
        #[serde(default)] is_ok: V<1>,
    },
}
fn e485() {
    tag("E485");
    let all = [j(&E485::SecondOne { x__y: V::<0>::default(), is_ok: V::<1>::default() })];
    let v = match choose(1) {
        _ => E485::SecondOne { x__y: V::<0>::any(), is_ok: V::<1>::any() },
    };
    enumeration(ty::<E485>(), Repr::Untagged, &all, &[Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[serde(rename = "Other")]
#[opg(nullable)]
#[serde(rename_all = "UPPERCASE")]
pub enum E486 {
    HTTPThird(V<0>),
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    X4th(V<0>, V<1>),
    #[opg(inline)]
    r#Fifth,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    Six_th {
    },
    #[serde(alias = "ali")]
    #[opg("text")]
    Z(V<0>),
    #[serde(rename = "re-Named")]
    First(V<0>, V<1>),
    #[serde(skip_deserializing)]
    SecondOne,
}
fn e486() {
    tag("E486");
    let all = [j(&E486::HTTPThird(V::<0>::default())), j(&E486::X4th(V::<0>::default(), V::<1>::default())), j(&E486::r#Fifth), j(&E486::Six_th {  }), j(&E486::Z(V::<0>::default())), j(&E486::First(V::<0>::default(), V::<1>::default())), j(&E486::SecondOne)];
    let v = match choose(7) {
        0 => E486::HTTPThird(V::<0>::any()),
        1 => E486::X4th(V::<0>::any(), V::<1>::any()),
        2 => E486::r#Fifth,
        3 => E486::Six_th {  },
        4 => E486::Z(V::<0>::any()),
        5 => E486::First(V::<0>::any(), V::<1>::any()),
        _ => E486::SecondOne,
    };
    enumeration(ty::<E486>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple, Mask::Other, Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
#[opg(inline)]
#[serde(untagged)]
pub enum E487 {
    X4th(V<0>, V<1>),
    #[serde(skip)]
    r#Fifth,
}
fn e487() {
    tag("E487");
    let all = [j(&E487::X4th(V::<0>::default(), V::<1>::default()))];
    let v = match choose(1) {
        _ => E487::X4th(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E487>(), Repr::Untagged, &all, &[Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(nullable, inline)]
#[serde(rename_all = "camelCase")]
pub enum E488 {
    r#Fifth,
    #[serde(skip_serializing)]
    Six_th {
        deep_er_name: V<0>,
        #[serde(rename = "r", skip_serializing_if = "gone")] #[opg(optional)] r#type: V<1>,
    },
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    Z(V<0>),
}
fn e488() {
    tag("E488");
    let all = [j(&E488::r#Fifth), j(&E488::Z(V::<0>::default()))];
    let v = match choose(2) {
        0 => E488::r#Fifth,
        _ => E488::Z(V::<0>::any()),
    };
    enumeration(ty::<E488>(), Repr::Untagged, &all, &[Mask::Other, Mask::Other], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
#[serde(rename = "Other")]
#[serde(untagged)]
pub enum E489 {
    Six_th {
    },
    #[serde(skip_deserializing)]
    Z(V<1>),
    First(V<0>, V<1>),
    #[serde(skip_serializing)]
    SecondOne,
    #[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    HTTPThird {
    },
    #[serde(skip)]
    X4th(V<1>),
    #[serde(rename = "both", rename_all = "camelCase")]
    r#Fifth(V<0>, V<1>),
}
fn e489() {
    tag("E489");
    let all = [j(&E489::Six_th {  }), j(&E489::Z(V::<1>::default())), j(&E489::First(V::<0>::default(), V::<1>::default())), j(&E489::HTTPThird {  }), j(&E489::r#Fifth(V::<0>::default(), V::<1>::default()))];
    let v = match choose(5) {
        0 => E489::Six_th {  },
        1 => E489::Z(V::<1>::any()),
        2 => E489::First(V::<0>::any(), V::<1>::any()),
        3 => E489::HTTPThird {  },
        _ => E489::r#Fifth(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E489>(), Repr::Untagged, &all, &[Mask::Fields(&[]), Mask::Other, Mask::Tuple, Mask::Fields(&[]), Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(nullable, "about")]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum E490 {
    Z(V<0>),
    #[serde(alias = "ali")]
    #[opg("text")]
    First(V<0>, V<1>),
}
fn e490() {
    tag("E490");
    let all = [j(&E490::Z(V::<0>::default())), j(&E490::First(V::<0>::default(), V::<1>::default()))];
    let v = match choose(2) {
        0 => E490::Z(V::<0>::any()),
        _ => E490::First(V::<0>::any(), V::<1>::any()),
    };
    enumeration(ty::<E490>(), Repr::Untagged, &all, &[Mask::Other, Mask::Tuple], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg(inline, "about")]
#[serde(untagged)]
pub enum E491 {
    First(V<0>, V<1>),
    #[opg(inline)]
    SecondOne,
    #[serde(rename(serialize = "sV", deserialize = "dV"))]
    HTTPThird {
        _lead: V<0>,
        #[serde(default)] #[serde(rename = "two")] #[serde(alias = "a1", alias = "a2")] tail_: V<1>,
    },
}
fn e491() {
    tag("E491");
    let all = [j(&E491::First(V::<0>::default(), V::<1>::default())), j(&E491::SecondOne), j(&E491::HTTPThird { _lead: V::<0>::default(), tail_: V::<1>::default() })];
    let v = match choose(3) {
        0 => E491::First(V::<0>::any(), V::<1>::any()),
        1 => E491::SecondOne,
        _ => E491::HTTPThird { _lead: V::<0>::any(), tail_: V::<1>::any() },
    };
    enumeration(ty::<E491>(), Repr::Untagged, &all, &[Mask::Tuple, Mask::Other, Mask::Fields(&[true, true])], &j(&v));
}
#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[serde(rename = "Other")]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E492 {
    SecondOne {
        r#type: V<0>,
    },
}
fn e492() {
    tag("E492");
    let all = [j(&E492::SecondOne { r#type: V::<0>::default() })];
    let v = match choose(1) {
        _ => E492::SecondOne { r#type: V::<0>::any() },
    };
    enumeration(ty::<E492>(), Repr::Untagged, &all, &[Mask::Fields(&[true])], &j(&v));
}
pub fn g0() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e0(),
        1 => e1(),
        2 => e2(),
        3 => e3(),
        4 => e4(),
        5 => e5(),
        6 => e6(),
        7 => e7(),
        8 => e8(),
        9 => e9(),
        10 => e10(),
        11 => e11(),
        12 => e12(),
        13 => e13(),
        14 => e14(),
        15 => e15(),
        16 => e16(),
        17 => e17(),
        18 => e18(),
        19 => e19(),
        20 => e20(),
        21 => e21(),
        22 => e22(),
        _ => e23(),
    }
}
pub fn g1() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e24(),
        1 => e25(),
        2 => e26(),
        3 => e27(),
        4 => e28(),
        5 => e29(),
        6 => e30(),
        7 => e31(),
        8 => e32(),
        9 => e33(),
        10 => e34(),
        11 => e35(),
        12 => e36(),
        13 => e37(),
        14 => e38(),
        15 => e39(),
        16 => e40(),
        17 => e41(),
        18 => e42(),
        19 => e43(),
        20 => e44(),
        21 => e45(),
        22 => e46(),
        _ => e47(),
    }
}
pub fn g2() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e48(),
        1 => e49(),
        2 => e50(),
        3 => e51(),
        4 => e52(),
        5 => e53(),
        6 => e54(),
        7 => e55(),
        8 => e56(),
        9 => e57(),
        10 => e58(),
        11 => e59(),
        12 => e60(),
        13 => e61(),
        14 => e62(),
        15 => e63(),
        16 => e64(),
        17 => e65(),
        18 => e66(),
        19 => e67(),
        20 => e68(),
        21 => e69(),
        22 => e70(),
        _ => e71(),
    }
}
pub fn g3() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e72(),
        1 => e73(),
        2 => e74(),
        3 => e75(),
        4 => e76(),
        5 => e77(),
        6 => e78(),
        7 => e79(),
        8 => e80(),
        9 => e81(),
        10 => e82(),
        11 => e83(),
        12 => e84(),
        13 => e85(),
        14 => e86(),
        15 => e87(),
        16 => e88(),
        17 => e89(),
        18 => e90(),
        19 => e91(),
        20 => e92(),
        21 => e93(),
        22 => e94(),
        _ => e95(),
    }
}
pub fn g4() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e96(),
        1 => e97(),
        2 => e98(),
        3 => e99(),
        4 => e100(),
        5 => e101(),
        6 => e102(),
        7 => e103(),
        8 => e104(),
        9 => e105(),
        10 => e106(),
        11 => e107(),
        12 => e108(),
        13 => e109(),
        14 => e110(),
        15 => e111(),
        16 => e112(),
        17 => e113(),
        18 => e114(),
        19 => e115(),
        20 => e116(),
        21 => e117(),
        22 => e118(),
        _ => e119(),
    }
}
pub fn g5() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e120(),
        1 => e121(),
        2 => e122(),
        3 => e123(),
        4 => e124(),
        5 => e125(),
        6 => e126(),
        7 => e127(),
        8 => e128(),
        9 => e129(),
        10 => e130(),
        11 => e131(),
        12 => e132(),
        13 => e133(),
        14 => e134(),
        15 => e135(),
        16 => e136(),
        17 => e137(),
        18 => e138(),
        19 => e139(),
        20 => e140(),
        21 => e141(),
        22 => e142(),
        _ => e143(),
    }
}
pub fn g6() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e144(),
        1 => e145(),
        2 => e146(),
        3 => e147(),
        4 => e148(),
        5 => e149(),
        6 => e150(),
        7 => e151(),
        8 => e152(),
        9 => e153(),
        10 => e154(),
        11 => e155(),
        12 => e156(),
        13 => e157(),
        14 => e158(),
        15 => e159(),
        16 => e160(),
        17 => e161(),
        18 => e162(),
        19 => e163(),
        20 => e164(),
        21 => e165(),
        22 => e166(),
        _ => e167(),
    }
}
pub fn g7() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e168(),
        1 => e169(),
        2 => e170(),
        3 => e171(),
        4 => e172(),
        5 => e173(),
        6 => e174(),
        7 => e175(),
        8 => e176(),
        9 => e177(),
        10 => e178(),
        11 => e179(),
        12 => e180(),
        13 => e181(),
        14 => e182(),
        15 => e183(),
        16 => e184(),
        17 => e185(),
        18 => e186(),
        19 => e187(),
        20 => e188(),
        21 => e189(),
        22 => e190(),
        _ => e191(),
    }
}
pub fn g8() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e192(),
        1 => e193(),
        2 => e194(),
        3 => e195(),
        4 => e196(),
        5 => e197(),
        6 => e198(),
        7 => e199(),
        8 => e200(),
        9 => e201(),
        10 => e202(),
        11 => e203(),
        12 => e204(),
        13 => e205(),
        14 => e206(),
        15 => e207(),
        16 => e208(),
        17 => e209(),
        18 => e210(),
        19 => e211(),
        20 => e212(),
        21 => e213(),
        22 => e214(),
        _ => e215(),
    }
}
pub fn g9() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e216(),
        1 => e217(),
        2 => e218(),
        3 => e219(),
        4 => e220(),
        5 => e221(),
        6 => e222(),
        7 => e223(),
        8 => e224(),
        9 => e225(),
        10 => e226(),
        11 => e227(),
        12 => e228(),
        13 => e229(),
        14 => e230(),
        15 => e231(),
        16 => e232(),
        17 => e233(),
        18 => e234(),
        19 => e235(),
        20 => e236(),
        21 => e237(),
        22 => e238(),
        _ => e239(),
    }
}
pub fn g10() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e240(),
        1 => e241(),
        2 => e242(),
        3 => e243(),
        4 => e244(),
        5 => e245(),
        6 => e246(),
        7 => e247(),
        8 => e248(),
        9 => e249(),
        10 => e250(),
        11 => e251(),
        12 => e252(),
        13 => e253(),
        14 => e254(),
        15 => e255(),
        16 => e256(),
        17 => e257(),
        18 => e258(),
        19 => e259(),
        20 => e260(),
        21 => e261(),
        22 => e262(),
        _ => e263(),
    }
}
pub fn g11() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e264(),
        1 => e265(),
        2 => e266(),
        3 => e267(),
        4 => e268(),
        5 => e269(),
        6 => e270(),
        7 => e271(),
        8 => e272(),
        9 => e273(),
        10 => e274(),
        11 => e275(),
        12 => e276(),
        13 => e277(),
        14 => e278(),
        15 => e279(),
        16 => e280(),
        17 => e281(),
        18 => e282(),
        19 => e283(),
        20 => e284(),
        21 => e285(),
        22 => e286(),
        _ => e287(),
    }
}
pub fn g12() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e288(),
        1 => e289(),
        2 => e290(),
        3 => e291(),
        4 => e292(),
        5 => e293(),
        6 => e294(),
        7 => e295(),
        8 => e296(),
        9 => e297(),
        10 => e298(),
        11 => e299(),
        12 => e300(),
        13 => e301(),
        14 => e302(),
        15 => e303(),
        16 => e304(),
        17 => e305(),
        18 => e306(),
        19 => e307(),
        20 => e308(),
        21 => e309(),
        22 => e310(),
        _ => e311(),
    }
}
pub fn g13() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e312(),
        1 => e313(),
        2 => e314(),
        3 => e315(),
        4 => e316(),
        5 => e317(),
        6 => e318(),
        7 => e319(),
        8 => e320(),
        9 => e321(),
        10 => e322(),
        11 => e323(),
        12 => e324(),
        13 => e325(),
        14 => e326(),
        15 => e327(),
        16 => e328(),
        17 => e329(),
        18 => e330(),
        19 => e331(),
        20 => e332(),
        21 => e333(),
        22 => e334(),
        _ => e335(),
    }
}
pub fn g14() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e336(),
        1 => e337(),
        2 => e338(),
        3 => e339(),
        4 => e340(),
        5 => e341(),
        6 => e342(),
        7 => e343(),
        8 => e344(),
        9 => e345(),
        10 => e346(),
        11 => e347(),
        12 => e348(),
        13 => e349(),
        14 => e350(),
        15 => e351(),
        16 => e352(),
        17 => e353(),
        18 => e354(),
        19 => e355(),
        20 => e356(),
        21 => e357(),
        22 => e358(),
        _ => e359(),
    }
}
pub fn g15() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e360(),
        1 => e361(),
        2 => e362(),
        3 => e363(),
        4 => e364(),
        5 => e365(),
        6 => e366(),
        7 => e367(),
        8 => e368(),
        9 => e369(),
        10 => e370(),
        11 => e371(),
        12 => e372(),
        13 => e373(),
        14 => e374(),
        15 => e375(),
        16 => e376(),
        17 => e377(),
        18 => e378(),
        19 => e379(),
        20 => e380(),
        21 => e381(),
        22 => e382(),
        _ => e383(),
    }
}
pub fn g16() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e384(),
        1 => e385(),
        2 => e386(),
        3 => e387(),
        4 => e388(),
        5 => e389(),
        6 => e390(),
        7 => e391(),
        8 => e392(),
        9 => e393(),
        10 => e394(),
        11 => e395(),
        12 => e396(),
        13 => e397(),
        14 => e398(),
        15 => e399(),
        16 => e400(),
        17 => e401(),
        18 => e402(),
        19 => e403(),
        20 => e404(),
        21 => e405(),
        22 => e406(),
        _ => e407(),
    }
}
pub fn g17() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e408(),
        1 => e409(),
        2 => e410(),
        3 => e411(),
        4 => e412(),
        5 => e413(),
        6 => e414(),
        7 => e415(),
        8 => e416(),
        9 => e417(),
        10 => e418(),
        11 => e419(),
        12 => e420(),
        13 => e421(),
        14 => e422(),
        15 => e423(),
        16 => e424(),
        17 => e425(),
        18 => e426(),
        19 => e427(),
        20 => e428(),
        21 => e429(),
        22 => e430(),
        _ => e431(),
    }
}
pub fn g18() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e432(),
        1 => e433(),
        2 => e434(),
        3 => e435(),
        4 => e436(),
        5 => e437(),
        6 => e438(),
        7 => e439(),
        8 => e440(),
        9 => e441(),
        10 => e442(),
        11 => e443(),
        12 => e444(),
        13 => e445(),
        14 => e446(),
        15 => e447(),
        16 => e448(),
        17 => e449(),
        18 => e450(),
        19 => e451(),
        20 => e452(),
        21 => e453(),
        22 => e454(),
        _ => e455(),
    }
}
pub fn g19() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(24) {
        0 => e456(),
        1 => e457(),
        2 => e458(),
        3 => e459(),
        4 => e460(),
        5 => e461(),
        6 => e462(),
        7 => e463(),
        8 => e464(),
        9 => e465(),
        10 => e466(),
        11 => e467(),
        12 => e468(),
        13 => e469(),
        14 => e470(),
        15 => e471(),
        16 => e472(),
        17 => e473(),
        18 => e474(),
        19 => e475(),
        20 => e476(),
        21 => e477(),
        22 => e478(),
        _ => e479(),
    }
}
pub fn g20() {
    pick_kinds(2, tiered(3, KINDS));
    set_kind(2, 2);
    set_kind(3, if flip() { 1 } else { 5 });
    match choose(13) {
        0 => e480(),
        1 => e481(),
        2 => e482(),
        3 => e483(),
        4 => e484(),
        5 => e485(),
        6 => e486(),
        7 => e487(),
        8 => e488(),
        9 => e489(),
        10 => e490(),
        11 => e491(),
        _ => e492(),
    }
}
