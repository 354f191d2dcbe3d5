// Generated by tools/gen_types.py.
#![allow(dead_code, non_snake_case, non_camel_case_types)]
use crate::kit::*;

#[derive(Serialize, OpgModel)]
pub struct S0 {
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename = "x-Y")]
    pub tail_: V<2>,
}
fn s0() {
    tag("S0");
    let full = j(&S0 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S0 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S0>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S1 {
    pub a1_b2: V<1>,
    #[serde(skip_deserializing)]
    pub r#fn: V<2>,
    #[serde(rename = "x-Y")]
    pub second: V<0>,
}
fn s1() {
    tag("S1");
    let full = j(&S1 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S1 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S1>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S2 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub is_ok: V<2>,
}
fn s2() {
    tag("S2");
    let full = j(&S2 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S2 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::maybe() });
    named_struct(ty::<S2>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct S3 {
    #[serde(rename(deserialize = "dE"))]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg(nullable)]
    pub deep_er_name: V<2>,
}
fn s3() {
    tag("S3");
    let full = j(&S3 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S3 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S3>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S4 {
    pub r#fn: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub first_one: V<2>,
    #[serde(skip)]
    pub a1_b2: V<0>,
}
fn s4() {
    tag("S4");
    let full = j(&S4 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S4 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S4>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S5 {
    #[serde(skip_serializing)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub second: V<2>,
}
fn s5() {
    tag("S5");
    let full = j(&S5 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S5 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe() });
    named_struct(ty::<S5>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct S6 {
    #[serde(skip_deserializing)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#type: V<2>,
}
fn s6() {
    tag("S6");
    let full = j(&S6 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S6 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S6>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct S7 {
    pub first_one: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub _lead: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub r#fn: V<0>,
}
fn s7() {
    tag("S7");
    let full = j(&S7 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S7 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::maybe() });
    named_struct(ty::<S7>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct S8 {
    #[serde(default)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub a1_b2: V<2>,
}
fn s8() {
    tag("S8");
    let full = j(&S8 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S8 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S8>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S9 {
    #[opg(optional)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(default)]
    pub x__y: V<2>,
}
fn s9() {
    tag("S9");
    let full = j(&S9 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S9 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S9>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S10 {
    pub _lead: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub tail_: V<2>,
    #[opg(inline)]
    pub first_one: V<0>,
}
fn s10() {
    tag("S10");
    let full = j(&S10 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S10 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S10>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S11 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#fn: V<2>,
}
fn s11() {
    tag("S11");
    let full = j(&S11 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S11 { second: V::<0>::maybe(), a1_b2: V::<1>::any(), r#fn: V::<2>::maybe() });
    named_struct(ty::<S11>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct S12 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(skip)]
    pub is_ok: V<2>,
}
fn s12() {
    tag("S12");
    let full = j(&S12 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S12 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S12>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S13 {
    pub tail_: V<1>,
    #[opg(optional)]
    pub deep_er_name: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub _lead: V<0>,
}
fn s13() {
    tag("S13");
    let full = j(&S13 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S13 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S13>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S14 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
}
fn s14() {
    tag("S14");
    let full = j(&S14 { a1_b2: V::<0>::default(), r#fn: V::<1>::default() });
    let v = j(&S14 { a1_b2: V::<0>::any(), r#fn: V::<1>::any() });
    named_struct(ty::<S14>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S15 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    pub second: V<2>,
}
fn s15() {
    tag("S15");
    let full = j(&S15 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S15 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S15>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S16 {
    pub deep_er_name: V<1>,
    #[serde(skip_serializing)]
    pub r#type: V<2>,
    #[opg(nullable)]
    pub tail_: V<0>,
}
fn s16() {
    tag("S16");
    let full = j(&S16 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S16 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S16>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S17 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(inline)]
    pub _lead: V<2>,
}
fn s17() {
    tag("S17");
    let full = j(&S17 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S17 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S17>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct S18 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<2>,
}
fn s18() {
    tag("S18");
    let full = j(&S18 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S18 { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S18>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S19 {
    pub r#type: V<1>,
    #[serde(skip)]
    pub x__y: V<2>,
    pub deep_er_name: V<0>,
}
fn s19() {
    tag("S19");
    let full = j(&S19 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S19 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S19>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S20 {
    #[serde(rename = "x-Y")]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s20() {
    tag("S20");
    let full = j(&S20 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S20 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S20>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S21 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#fn: V<2>,
}
fn s21() {
    tag("S21");
    let full = j(&S21 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S21 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S21>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S22 {
    pub x__y: V<1>,
    pub is_ok: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub r#type: V<0>,
}
fn s22() {
    tag("S22");
    let full = j(&S22 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S22 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S22>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S23 {
    #[serde(skip)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_serializing)]
    pub deep_er_name: V<2>,
}
fn s23() {
    tag("S23");
    let full = j(&S23 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S23 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S23>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S24 {
    #[serde(skip_serializing)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[opg(inline)]
    pub first_one: V<2>,
}
fn s24() {
    tag("S24");
    let full = j(&S24 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S24 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S24>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S25 {
    pub is_ok: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub second: V<2>,
    #[serde(skip_deserializing)]
    pub x__y: V<0>,
}
fn s25() {
    tag("S25");
    let full = j(&S25 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S25 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S25>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S26 {
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename = "x-Y")]
    pub r#type: V<2>,
}
fn s26() {
    tag("S26");
    let full = j(&S26 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S26 { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S26>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S27 {
    #[serde(default)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip_deserializing)]
    pub _lead: V<2>,
}
fn s27() {
    tag("S27");
    let full = j(&S27 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S27 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S27>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S28 {
    pub second: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub a1_b2: V<2>,
    #[opg(optional)]
    pub is_ok: V<0>,
}
fn s28() {
    tag("S28");
    let full = j(&S28 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S28 { second: V::<1>::any(), a1_b2: V::<2>::maybe(), is_ok: V::<0>::any() });
    named_struct(ty::<S28>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S29 {
    #[opg(inline)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg(nullable)]
    pub x__y: V<2>,
}
fn s29() {
    tag("S29");
    let full = j(&S29 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S29 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S29>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S30 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub tail_: V<2>,
}
fn s30() {
    tag("S30");
    let full = j(&S30 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S30 { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S30>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S31 {
    pub a1_b2: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub r#fn: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub second: V<0>,
}
fn s31() {
    tag("S31");
    let full = j(&S31 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S31 { a1_b2: V::<1>::any(), r#fn: V::<2>::maybe(), second: V::<0>::any() });
    named_struct(ty::<S31>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S32 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub is_ok: V<2>,
}
fn s32() {
    tag("S32");
    let full = j(&S32 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S32 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S32>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S33 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub deep_er_name: V<2>,
}
fn s33() {
    tag("S33");
    let full = j(&S33 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S33 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S33>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S34 {
    pub r#fn: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub first_one: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<0>,
}
fn s34() {
    tag("S34");
    let full = j(&S34 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S34 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S34>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S35 {
    #[opg(nullable)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(default)]
    pub second: V<2>,
}
fn s35() {
    tag("S35");
    let full = j(&S35 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S35 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S35>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S36 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<2>,
}
fn s36() {
    tag("S36");
    let full = j(&S36 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S36 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S36>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct S37 {
    pub first_one: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub _lead: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#fn: V<0>,
}
fn s37() {
    tag("S37");
    let full = j(&S37 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S37 { first_one: V::<1>::any(), _lead: V::<2>::maybe(), r#fn: V::<0>::maybe() });
    named_struct(ty::<S37>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S38 {
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub a1_b2: V<2>,
}
fn s38() {
    tag("S38");
    let full = j(&S38 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S38 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::maybe() });
    named_struct(ty::<S38>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S39 {
    #[serde(rename = "x-Y")]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub x__y: V<2>,
}
fn s39() {
    tag("S39");
    let full = j(&S39 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S39 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S39>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S40 {
    pub _lead: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub tail_: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub first_one: V<0>,
}
fn s40() {
    tag("S40");
    let full = j(&S40 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S40 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S40>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S41 {
    #[serde(rename(deserialize = "dE"))]
    pub second: V<0>,
    pub a1_b2: V<1>,
}
fn s41() {
    tag("S41");
    let full = j(&S41 { second: V::<0>::default(), a1_b2: V::<1>::default() });
    let v = j(&S41 { second: V::<0>::any(), a1_b2: V::<1>::any() });
    named_struct(ty::<S41>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S42 {
    #[serde(skip)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(default)]
    pub is_ok: V<2>,
}
fn s42() {
    tag("S42");
    let full = j(&S42 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S42 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S42>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S43 {
    pub tail_: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub deep_er_name: V<2>,
    #[serde(skip_serializing)]
    pub _lead: V<0>,
}
fn s43() {
    tag("S43");
    let full = j(&S43 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S43 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S43>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S44 {
    #[serde(skip_deserializing)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub first_one: V<2>,
}
fn s44() {
    tag("S44");
    let full = j(&S44 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S44 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() });
    named_struct(ty::<S44>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S45 {
    #[serde(skip_serializing_if = "gone")]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(skip)]
    pub second: V<2>,
}
fn s45() {
    tag("S45");
    let full = j(&S45 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S45 { x__y: V::<0>::maybe(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S45>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S46 {
    pub deep_er_name: V<1>,
    #[opg(optional)]
    pub r#type: V<2>,
    #[serde(default)]
    pub tail_: V<0>,
}
fn s46() {
    tag("S46");
    let full = j(&S46 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S46 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S46>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S47 {
    #[opg(optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub _lead: V<2>,
}
fn s47() {
    tag("S47");
    let full = j(&S47 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S47 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S47>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S48 {
    #[opg(inline)]
    pub is_ok: V<0>,
    pub second: V<1>,
    pub a1_b2: V<2>,
}
fn s48() {
    tag("S48");
    let full = j(&S48 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S48 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S48>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S49 {
    pub r#type: V<1>,
    #[serde(skip_serializing)]
    pub x__y: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub deep_er_name: V<0>,
}
fn s49() {
    tag("S49");
    let full = j(&S49 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S49 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::maybe() });
    named_struct(ty::<S49>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S50 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[opg(inline)]
    pub tail_: V<2>,
}
fn s50() {
    tag("S50");
    let full = j(&S50 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S50 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S50>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S51 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#fn: V<2>,
}
fn s51() {
    tag("S51");
    let full = j(&S51 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S51 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S51>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S52 {
    pub x__y: V<1>,
    #[serde(rename = "x-Y")]
    pub is_ok: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#type: V<0>,
}
fn s52() {
    tag("S52");
    let full = j(&S52 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S52 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S52>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S53 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_deserializing)]
    pub deep_er_name: V<2>,
}
fn s53() {
    tag("S53");
    let full = j(&S53 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S53 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S53>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S54 {
    #[opg(nullable)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub first_one: V<2>,
}
fn s54() {
    tag("S54");
    let full = j(&S54 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S54 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() });
    named_struct(ty::<S54>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S55 {
    pub is_ok: V<1>,
    #[opg(nullable)]
    pub second: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub x__y: V<0>,
}
fn s55() {
    tag("S55");
    let full = j(&S55 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S55 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S55>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct S56 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#type: V<2>,
}
fn s56() {
    tag("S56");
    let full = j(&S56 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S56 { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S56>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S57 {
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(inline)]
    pub _lead: V<2>,
}
fn s57() {
    tag("S57");
    let full = j(&S57 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S57 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S57>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S58 {
    pub second: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<2>,
    #[serde(rename = "x-Y")]
    pub is_ok: V<0>,
}
fn s58() {
    tag("S58");
    let full = j(&S58 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S58 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S58>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S59 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename = "x-Y")]
    pub x__y: V<2>,
}
fn s59() {
    tag("S59");
    let full = j(&S59 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S59 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S59>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S60 {
    #[serde(rename(deserialize = "dE"))]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_deserializing)]
    pub tail_: V<2>,
}
fn s60() {
    tag("S60");
    let full = j(&S60 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S60 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S60>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S61 {
    pub a1_b2: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#fn: V<2>,
    #[serde(skip)]
    pub second: V<0>,
}
fn s61() {
    tag("S61");
    let full = j(&S61 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S61 { a1_b2: V::<1>::any(), r#fn: V::<2>::maybe(), second: V::<0>::any() });
    named_struct(ty::<S61>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S62 {
    #[serde(skip_serializing)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg(nullable)]
    pub is_ok: V<2>,
}
fn s62() {
    tag("S62");
    let full = j(&S62 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S62 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S62>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S63 {
    #[serde(skip_deserializing)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub deep_er_name: V<2>,
}
fn s63() {
    tag("S63");
    let full = j(&S63 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S63 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S63>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S64 {
    pub r#fn: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub first_one: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub a1_b2: V<0>,
}
fn s64() {
    tag("S64");
    let full = j(&S64 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S64 { r#fn: V::<1>::any(), first_one: V::<2>::maybe(), a1_b2: V::<0>::maybe() });
    named_struct(ty::<S64>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S65 {
    #[serde(default)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub second: V<2>,
}
fn s65() {
    tag("S65");
    let full = j(&S65 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S65 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S65>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S66 {
    #[opg(optional)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#type: V<2>,
}
fn s66() {
    tag("S66");
    let full = j(&S66 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S66 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S66>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S67 {
    pub first_one: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub _lead: V<2>,
    #[opg(inline)]
    pub r#fn: V<0>,
}
fn s67() {
    tag("S67");
    let full = j(&S67 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S67 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S67>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S68 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(default)]
    pub a1_b2: V<2>,
}
fn s68() {
    tag("S68");
    let full = j(&S68 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S68 { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S68>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S69 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub x__y: V<2>,
}
fn s69() {
    tag("S69");
    let full = j(&S69 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S69 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S69>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S70 {
    pub _lead: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub tail_: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub first_one: V<0>,
}
fn s70() {
    tag("S70");
    let full = j(&S70 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S70 { _lead: V::<1>::any(), tail_: V::<2>::maybe(), first_one: V::<0>::any() });
    named_struct(ty::<S70>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S71 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(skip)]
    pub r#fn: V<2>,
}
fn s71() {
    tag("S71");
    let full = j(&S71 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S71 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S71>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S72 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg(optional)]
    pub is_ok: V<2>,
}
fn s72() {
    tag("S72");
    let full = j(&S72 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S72 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S72>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S73 {
    pub tail_: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub deep_er_name: V<2>,
    #[opg(nullable)]
    pub _lead: V<0>,
}
fn s73() {
    tag("S73");
    let full = j(&S73 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S73 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S73>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S74 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    pub first_one: V<2>,
}
fn s74() {
    tag("S74");
    let full = j(&S74 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S74 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S74>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct S75 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(skip_serializing)]
    pub second: V<2>,
}
fn s75() {
    tag("S75");
    let full = j(&S75 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S75 { x__y: V::<0>::maybe(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S75>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S76 {
    pub deep_er_name: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<2>,
    pub tail_: V<0>,
}
fn s76() {
    tag("S76");
    let full = j(&S76 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S76 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S76>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S77 {
    #[serde(rename = "x-Y")]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub _lead: V<2>,
}
fn s77() {
    tag("S77");
    let full = j(&S77 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S77 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::maybe() });
    named_struct(ty::<S77>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S78 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip)]
    pub a1_b2: V<2>,
}
fn s78() {
    tag("S78");
    let full = j(&S78 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S78 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S78>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S79 {
    pub r#type: V<1>,
    #[opg(optional)]
    pub x__y: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub deep_er_name: V<0>,
}
fn s79() {
    tag("S79");
    let full = j(&S79 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S79 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S79>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S80 {
    #[serde(skip)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub tail_: V<2>,
}
fn s80() {
    tag("S80");
    let full = j(&S80 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S80 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S80>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S81 {
    #[serde(skip_serializing)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    pub r#fn: V<2>,
}
fn s81() {
    tag("S81");
    let full = j(&S81 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S81 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S81>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S82 {
    pub x__y: V<1>,
    #[serde(skip_serializing)]
    pub is_ok: V<2>,
    #[serde(skip_deserializing)]
    pub r#type: V<0>,
}
fn s82() {
    tag("S82");
    let full = j(&S82 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S82 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S82>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S83 {
    #[serde(skip_serializing_if = "gone")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg(inline)]
    pub deep_er_name: V<2>,
}
fn s83() {
    tag("S83");
    let full = j(&S83 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S83 { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S83>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S84 {
    #[serde(default)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub first_one: V<2>,
}
fn s84() {
    tag("S84");
    let full = j(&S84 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S84 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S84>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S85 {
    pub is_ok: V<1>,
    #[serde(rename = "x-Y")]
    pub second: V<2>,
    #[opg(optional)]
    pub x__y: V<0>,
}
fn s85() {
    tag("S85");
    let full = j(&S85 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S85 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S85>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S86 {
    #[opg(inline)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(skip_deserializing)]
    pub r#type: V<2>,
}
fn s86() {
    tag("S86");
    let full = j(&S86 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S86 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S86>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S87 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
}
fn s87() {
    tag("S87");
    let full = j(&S87 { r#fn: V::<0>::default(), first_one: V::<1>::default() });
    let v = j(&S87 { r#fn: V::<0>::maybe(), first_one: V::<1>::any() });
    named_struct(ty::<S87>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S88 {
    pub second: V<1>,
    #[opg(nullable)]
    pub a1_b2: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub is_ok: V<0>,
}
fn s88() {
    tag("S88");
    let full = j(&S88 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S88 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S88>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S89 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub x__y: V<2>,
}
fn s89() {
    tag("S89");
    let full = j(&S89 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S89 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S89>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S90 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<2>,
}
fn s90() {
    tag("S90");
    let full = j(&S90 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S90 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::maybe() });
    named_struct(ty::<S90>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S91 {
    pub a1_b2: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#fn: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub second: V<0>,
}
fn s91() {
    tag("S91");
    let full = j(&S91 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S91 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S91>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S92 {
    #[opg(nullable)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub is_ok: V<2>,
}
fn s92() {
    tag("S92");
    let full = j(&S92 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S92 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S92>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S93 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub deep_er_name: V<2>,
}
fn s93() {
    tag("S93");
    let full = j(&S93 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S93 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S93>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct S94 {
    pub r#fn: V<1>,
    #[serde(default)]
    pub first_one: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub a1_b2: V<0>,
}
fn s94() {
    tag("S94");
    let full = j(&S94 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S94 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::maybe() });
    named_struct(ty::<S94>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S95 {
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg(nullable)]
    pub second: V<2>,
}
fn s95() {
    tag("S95");
    let full = j(&S95 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S95 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S95>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S96 {
    #[serde(rename = "x-Y")]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#type: V<2>,
}
fn s96() {
    tag("S96");
    let full = j(&S96 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S96 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S96>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S97 {
    pub first_one: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub _lead: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#fn: V<0>,
}
fn s97() {
    tag("S97");
    let full = j(&S97 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S97 { first_one: V::<1>::any(), _lead: V::<2>::maybe(), r#fn: V::<0>::any() });
    named_struct(ty::<S97>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S98 {
    #[serde(rename(deserialize = "dE"))]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub a1_b2: V<2>,
}
fn s98() {
    tag("S98");
    let full = j(&S98 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S98 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S98>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S99 {
    #[serde(skip)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub x__y: V<2>,
}
fn s99() {
    tag("S99");
    let full = j(&S99 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S99 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S99>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S100 {
    pub _lead: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub tail_: V<2>,
    #[serde(skip_serializing)]
    pub first_one: V<0>,
}
fn s100() {
    tag("S100");
    let full = j(&S100 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S100 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S100>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S101 {
    #[serde(skip_deserializing)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default)]
    pub r#fn: V<2>,
}
fn s101() {
    tag("S101");
    let full = j(&S101 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S101 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S101>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S102 {
    #[serde(skip_serializing_if = "gone")]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub is_ok: V<2>,
}
fn s102() {
    tag("S102");
    let full = j(&S102 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S102 { r#type: V::<0>::maybe(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S102>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S103 {
    pub tail_: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub deep_er_name: V<2>,
    #[serde(default)]
    pub _lead: V<0>,
}
fn s103() {
    tag("S103");
    let full = j(&S103 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S103 { tail_: V::<1>::any(), deep_er_name: V::<2>::maybe(), _lead: V::<0>::any() });
    named_struct(ty::<S103>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S104 {
    #[opg(optional)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip)]
    pub first_one: V<2>,
}
fn s104() {
    tag("S104");
    let full = j(&S104 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S104 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S104>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S105 {
    #[opg(inline)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg(optional)]
    pub second: V<2>,
}
fn s105() {
    tag("S105");
    let full = j(&S105 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S105 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S105>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S106 {
    pub deep_er_name: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#type: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub tail_: V<0>,
}
fn s106() {
    tag("S106");
    let full = j(&S106 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S106 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::maybe() });
    named_struct(ty::<S106>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S107 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    pub _lead: V<2>,
}
fn s107() {
    tag("S107");
    let full = j(&S107 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S107 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S107>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S108 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip_serializing)]
    pub a1_b2: V<2>,
}
fn s108() {
    tag("S108");
    let full = j(&S108 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S108 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S108>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S109 {
    pub r#type: V<1>,
    #[opg(inline)]
    pub x__y: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub deep_er_name: V<0>,
}
fn s109() {
    tag("S109");
    let full = j(&S109 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S109 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S109>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S110 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s110() {
    tag("S110");
    let full = j(&S110 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S110 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S110>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S111 {
    #[opg(nullable)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(rename = "x-Y")]
    pub r#fn: V<2>,
}
fn s111() {
    tag("S111");
    let full = j(&S111 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S111 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S111>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S112 {
    pub x__y: V<1>,
    #[serde(skip_deserializing)]
    pub is_ok: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#type: V<0>,
}
fn s112() {
    tag("S112");
    let full = j(&S112 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S112 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S112>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct S113 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub deep_er_name: V<2>,
}
fn s113() {
    tag("S113");
    let full = j(&S113 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S113 { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::maybe() });
    named_struct(ty::<S113>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S114 {
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    pub first_one: V<2>,
}
fn s114() {
    tag("S114");
    let full = j(&S114 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S114 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S114>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S115 {
    pub is_ok: V<1>,
    #[serde(skip_serializing)]
    pub second: V<2>,
    #[serde(rename = "x-Y")]
    pub x__y: V<0>,
}
fn s115() {
    tag("S115");
    let full = j(&S115 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S115 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S115>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S116 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg(inline)]
    pub r#type: V<2>,
}
fn s116() {
    tag("S116");
    let full = j(&S116 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S116 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S116>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S117 {
    #[serde(rename(deserialize = "dE"))]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub _lead: V<2>,
}
fn s117() {
    tag("S117");
    let full = j(&S117 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S117 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S117>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S118 {
    pub second: V<1>,
    #[serde(rename = "x-Y")]
    pub a1_b2: V<2>,
    #[serde(skip)]
    pub is_ok: V<0>,
}
fn s118() {
    tag("S118");
    let full = j(&S118 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S118 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S118>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S119 {
    #[serde(skip_serializing)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(skip_deserializing)]
    pub x__y: V<2>,
}
fn s119() {
    tag("S119");
    let full = j(&S119 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S119 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S119>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S120 {
    #[serde(skip_deserializing)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s120() {
    tag("S120");
    let full = j(&S120 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S120 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::maybe() });
    named_struct(ty::<S120>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S121 {
    pub a1_b2: V<1>,
    #[opg(nullable)]
    pub r#fn: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub second: V<0>,
}
fn s121() {
    tag("S121");
    let full = j(&S121 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S121 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::maybe() });
    named_struct(ty::<S121>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S122 {
    #[serde(default)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub is_ok: V<2>,
}
fn s122() {
    tag("S122");
    let full = j(&S122 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S122 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S122>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S123 {
    #[opg(optional)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: V<2>,
}
fn s123() {
    tag("S123");
    let full = j(&S123 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S123 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::maybe() });
    named_struct(ty::<S123>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S124 {
    pub r#fn: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub first_one: V<2>,
    #[opg(inline)]
    pub a1_b2: V<0>,
}
fn s124() {
    tag("S124");
    let full = j(&S124 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S124 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S124>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S125 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub second: V<2>,
}
fn s125() {
    tag("S125");
    let full = j(&S125 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S125 { x__y: V::<0>::maybe(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S125>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S126 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub r#type: V<2>,
}
fn s126() {
    tag("S126");
    let full = j(&S126 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S126 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S126>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S127 {
    pub first_one: V<1>,
    #[serde(default)]
    pub _lead: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#fn: V<0>,
}
fn s127() {
    tag("S127");
    let full = j(&S127 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S127 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S127>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S128 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub a1_b2: V<2>,
}
fn s128() {
    tag("S128");
    let full = j(&S128 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S128 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S128>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S129 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub x__y: V<2>,
}
fn s129() {
    tag("S129");
    let full = j(&S129 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S129 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::maybe() });
    named_struct(ty::<S129>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S130 {
    pub _lead: V<1>,
    #[serde(skip)]
    pub tail_: V<2>,
    #[opg(nullable)]
    pub first_one: V<0>,
}
fn s130() {
    tag("S130");
    let full = j(&S130 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S130 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S130>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S131 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg(optional)]
    pub r#fn: V<2>,
}
fn s131() {
    tag("S131");
    let full = j(&S131 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S131 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S131>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S132 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub is_ok: V<2>,
}
fn s132() {
    tag("S132");
    let full = j(&S132 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S132 { r#type: V::<0>::maybe(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S132>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S133 {
    pub tail_: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub deep_er_name: V<2>,
    pub _lead: V<0>,
}
fn s133() {
    tag("S133");
    let full = j(&S133 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S133 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S133>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S134 {
    #[serde(rename = "x-Y")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(default)]
    pub first_one: V<2>,
}
fn s134() {
    tag("S134");
    let full = j(&S134 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S134 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S134>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S135 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub second: V<2>,
}
fn s135() {
    tag("S135");
    let full = j(&S135 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S135 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S135>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S136 {
    pub deep_er_name: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#type: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub tail_: V<0>,
}
fn s136() {
    tag("S136");
    let full = j(&S136 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S136 { deep_er_name: V::<1>::any(), r#type: V::<2>::maybe(), tail_: V::<0>::any() });
    named_struct(ty::<S136>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S137 {
    #[serde(skip)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip)]
    pub _lead: V<2>,
}
fn s137() {
    tag("S137");
    let full = j(&S137 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S137 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S137>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S138 {
    #[serde(skip_serializing)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[opg(optional)]
    pub a1_b2: V<2>,
}
fn s138() {
    tag("S138");
    let full = j(&S138 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S138 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S138>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S139 {
    pub r#type: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub x__y: V<2>,
    #[serde(skip_deserializing)]
    pub deep_er_name: V<0>,
}
fn s139() {
    tag("S139");
    let full = j(&S139 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S139 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S139>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S140 {
    #[serde(skip_serializing_if = "gone")]
    pub first_one: V<0>,
    pub _lead: V<1>,
    pub tail_: V<2>,
}
fn s140() {
    tag("S140");
    let full = j(&S140 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S140 { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S140>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S141 {
    #[serde(default)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(skip_serializing)]
    pub r#fn: V<2>,
}
fn s141() {
    tag("S141");
    let full = j(&S141 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S141 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S141>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S142 {
    pub x__y: V<1>,
    #[opg(inline)]
    pub is_ok: V<2>,
    #[opg(optional)]
    pub r#type: V<0>,
}
fn s142() {
    tag("S142");
    let full = j(&S142 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S142 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S142>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S143 {
    #[opg(inline)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub deep_er_name: V<2>,
}
fn s143() {
    tag("S143");
    let full = j(&S143 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S143 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S143>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S144 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(rename = "x-Y")]
    pub first_one: V<2>,
}
fn s144() {
    tag("S144");
    let full = j(&S144 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S144 { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S144>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S145 {
    pub is_ok: V<1>,
    #[serde(skip_deserializing)]
    pub second: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub x__y: V<0>,
}
fn s145() {
    tag("S145");
    let full = j(&S145 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S145 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S145>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S146 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#type: V<2>,
}
fn s146() {
    tag("S146");
    let full = j(&S146 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S146 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::maybe() });
    named_struct(ty::<S146>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S147 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(nullable)]
    pub _lead: V<2>,
}
fn s147() {
    tag("S147");
    let full = j(&S147 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S147 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S147>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S148 {
    pub second: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub a1_b2: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub is_ok: V<0>,
}
fn s148() {
    tag("S148");
    let full = j(&S148 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S148 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S148>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S149 {
    #[opg(nullable)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub x__y: V<2>,
}
fn s149() {
    tag("S149");
    let full = j(&S149 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S149 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::maybe() });
    named_struct(ty::<S149>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S150 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub tail_: V<2>,
}
fn s150() {
    tag("S150");
    let full = j(&S150 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S150 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S150>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct S151 {
    pub a1_b2: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#fn: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub second: V<0>,
}
fn s151() {
    tag("S151");
    let full = j(&S151 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S151 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::maybe() });
    named_struct(ty::<S151>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S152 {
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(skip_deserializing)]
    pub is_ok: V<2>,
}
fn s152() {
    tag("S152");
    let full = j(&S152 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S152 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S152>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S153 {
    #[serde(rename = "x-Y")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub deep_er_name: V<2>,
}
fn s153() {
    tag("S153");
    let full = j(&S153 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S153 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::maybe() });
    named_struct(ty::<S153>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S154 {
    pub r#fn: V<1>,
    #[opg(nullable)]
    pub first_one: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub a1_b2: V<0>,
}
fn s154() {
    tag("S154");
    let full = j(&S154 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S154 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S154>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S155 {
    #[serde(rename(deserialize = "dE"))]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub second: V<2>,
}
fn s155() {
    tag("S155");
    let full = j(&S155 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S155 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S155>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S156 {
    #[serde(skip)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub r#type: V<2>,
}
fn s156() {
    tag("S156");
    let full = j(&S156 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S156 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::maybe() });
    named_struct(ty::<S156>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S157 {
    pub first_one: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub _lead: V<2>,
    #[serde(skip_serializing)]
    pub r#fn: V<0>,
}
fn s157() {
    tag("S157");
    let full = j(&S157 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S157 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S157>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S158 {
    #[serde(skip_deserializing)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub a1_b2: V<2>,
}
fn s158() {
    tag("S158");
    let full = j(&S158 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S158 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S158>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S159 {
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub x__y: V<2>,
}
fn s159() {
    tag("S159");
    let full = j(&S159 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S159 { deep_er_name: V::<0>::maybe(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S159>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S160 {
    pub _lead: V<1>,
    #[serde(default)]
    pub tail_: V<2>,
    #[serde(default)]
    pub first_one: V<0>,
}
fn s160() {
    tag("S160");
    let full = j(&S160 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S160 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S160>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S161 {
    #[opg(optional)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#fn: V<2>,
}
fn s161() {
    tag("S161");
    let full = j(&S161 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S161 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S161>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S162 {
    #[opg(inline)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub is_ok: V<2>,
}
fn s162() {
    tag("S162");
    let full = j(&S162 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S162 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::maybe() });
    named_struct(ty::<S162>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S163 {
    pub tail_: V<1>,
    #[serde(skip)]
    pub deep_er_name: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub _lead: V<0>,
}
fn s163() {
    tag("S163");
    let full = j(&S163 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S163 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::maybe() });
    named_struct(ty::<S163>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S164 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[opg(optional)]
    pub first_one: V<2>,
}
fn s164() {
    tag("S164");
    let full = j(&S164 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S164 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S164>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S165 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub second: V<2>,
}
fn s165() {
    tag("S165");
    let full = j(&S165 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S165 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S165>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S166 {
    pub deep_er_name: V<1>,
    pub r#type: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub tail_: V<0>,
}
fn s166() {
    tag("S166");
    let full = j(&S166 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S166 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S166>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S167 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip_serializing)]
    pub _lead: V<2>,
}
fn s167() {
    tag("S167");
    let full = j(&S167 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S167 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S167>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S168 {
    #[opg(nullable)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[opg(inline)]
    pub a1_b2: V<2>,
}
fn s168() {
    tag("S168");
    let full = j(&S168 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S168 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S168>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S169 {
    pub r#type: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub x__y: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub deep_er_name: V<0>,
}
fn s169() {
    tag("S169");
    let full = j(&S169 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S169 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S169>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S170 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename = "x-Y")]
    pub tail_: V<2>,
}
fn s170() {
    tag("S170");
    let full = j(&S170 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S170 { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S170>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S171 {
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg(optional)]
    pub r#fn: V<2>,
}
fn s171() {
    tag("S171");
    let full = j(&S171 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S171 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S171>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S172 {
    pub x__y: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub is_ok: V<2>,
    #[serde(rename = "x-Y")]
    pub r#type: V<0>,
}
fn s172() {
    tag("S172");
    let full = j(&S172 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S172 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S172>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S173 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub _lead: V<0>,
    pub tail_: V<1>,
    pub deep_er_name: V<2>,
}
fn s173() {
    tag("S173");
    let full = j(&S173 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S173 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S173>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S174 {
    #[serde(rename(deserialize = "dE"))]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip_serializing)]
    pub first_one: V<2>,
}
fn s174() {
    tag("S174");
    let full = j(&S174 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S174 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S174>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S175 {
    pub is_ok: V<1>,
    #[opg(inline)]
    pub second: V<2>,
    #[serde(skip)]
    pub x__y: V<0>,
}
fn s175() {
    tag("S175");
    let full = j(&S175 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S175 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S175>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S176 {
    #[serde(skip_serializing)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#type: V<2>,
}
fn s176() {
    tag("S176");
    let full = j(&S176 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S176 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S176>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S177 {
    #[serde(skip_deserializing)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(rename = "x-Y")]
    pub _lead: V<2>,
}
fn s177() {
    tag("S177");
    let full = j(&S177 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S177 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S177>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S178 {
    pub second: V<1>,
    #[serde(skip_deserializing)]
    pub a1_b2: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: V<0>,
}
fn s178() {
    tag("S178");
    let full = j(&S178 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S178 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::maybe() });
    named_struct(ty::<S178>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S179 {
    #[serde(default)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub x__y: V<2>,
}
fn s179() {
    tag("S179");
    let full = j(&S179 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S179 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::maybe() });
    named_struct(ty::<S179>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S180 {
    #[opg(optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[opg(nullable)]
    pub tail_: V<2>,
}
fn s180() {
    tag("S180");
    let full = j(&S180 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S180 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S180>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S181 {
    pub a1_b2: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#fn: V<2>,
    #[opg(inline)]
    pub second: V<0>,
}
fn s181() {
    tag("S181");
    let full = j(&S181 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S181 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S181>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S182 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: V<2>,
}
fn s182() {
    tag("S182");
    let full = j(&S182 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S182 { r#type: V::<0>::maybe(), x__y: V::<1>::any(), is_ok: V::<2>::maybe() });
    named_struct(ty::<S182>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S183 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub deep_er_name: V<2>,
}
fn s183() {
    tag("S183");
    let full = j(&S183 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S183 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S183>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S184 {
    pub r#fn: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub first_one: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub a1_b2: V<0>,
}
fn s184() {
    tag("S184");
    let full = j(&S184 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S184 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S184>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S185 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub second: V<2>,
}
fn s185() {
    tag("S185");
    let full = j(&S185 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S185 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S185>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S186 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(default)]
    pub r#type: V<2>,
}
fn s186() {
    tag("S186");
    let full = j(&S186 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S186 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S186>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S187 {
    pub first_one: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub _lead: V<2>,
    #[opg(nullable)]
    pub r#fn: V<0>,
}
fn s187() {
    tag("S187");
    let full = j(&S187 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S187 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S187>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S188 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub a1_b2: V<2>,
}
fn s188() {
    tag("S188");
    let full = j(&S188 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S188 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::maybe() });
    named_struct(ty::<S188>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct S189 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(skip)]
    pub x__y: V<2>,
}
fn s189() {
    tag("S189");
    let full = j(&S189 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S189 { deep_er_name: V::<0>::maybe(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S189>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S190 {
    pub _lead: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub tail_: V<2>,
    pub first_one: V<0>,
}
fn s190() {
    tag("S190");
    let full = j(&S190 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S190 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S190>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S191 {
    #[serde(rename = "x-Y")]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#fn: V<2>,
}
fn s191() {
    tag("S191");
    let full = j(&S191 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S191 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S191>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S192 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub is_ok: V<2>,
}
fn s192() {
    tag("S192");
    let full = j(&S192 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S192 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S192>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S193 {
    pub tail_: V<1>,
    #[serde(default)]
    pub deep_er_name: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub _lead: V<0>,
}
fn s193() {
    tag("S193");
    let full = j(&S193 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S193 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S193>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S194 {
    #[serde(skip)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub first_one: V<2>,
}
fn s194() {
    tag("S194");
    let full = j(&S194 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S194 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S194>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S195 {
    #[serde(skip_serializing)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub second: V<2>,
}
fn s195() {
    tag("S195");
    let full = j(&S195 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S195 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe() });
    named_struct(ty::<S195>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S196 {
    pub deep_er_name: V<1>,
    #[serde(skip)]
    pub r#type: V<2>,
    #[serde(skip_deserializing)]
    pub tail_: V<0>,
}
fn s196() {
    tag("S196");
    let full = j(&S196 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S196 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S196>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S197 {
    #[serde(skip_serializing_if = "gone")]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(optional)]
    pub _lead: V<2>,
}
fn s197() {
    tag("S197");
    let full = j(&S197 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S197 { r#fn: V::<0>::maybe(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S197>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S198 {
    #[serde(default)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub a1_b2: V<2>,
}
fn s198() {
    tag("S198");
    let full = j(&S198 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S198 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S198>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S199 {
    pub r#type: V<1>,
    pub x__y: V<2>,
    #[opg(optional)]
    pub deep_er_name: V<0>,
}
fn s199() {
    tag("S199");
    let full = j(&S199 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S199 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S199>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S200 {
    #[opg(inline)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_serializing)]
    pub tail_: V<2>,
}
fn s200() {
    tag("S200");
    let full = j(&S200 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S200 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S200>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S201 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg(inline)]
    pub r#fn: V<2>,
}
fn s201() {
    tag("S201");
    let full = j(&S201 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S201 { second: V::<0>::maybe(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S201>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S202 {
    pub x__y: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub is_ok: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#type: V<0>,
}
fn s202() {
    tag("S202");
    let full = j(&S202 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S202 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S202>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S203 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename = "x-Y")]
    pub deep_er_name: V<2>,
}
fn s203() {
    tag("S203");
    let full = j(&S203 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S203 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S203>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S204 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip_deserializing)]
    pub first_one: V<2>,
}
fn s204() {
    tag("S204");
    let full = j(&S204 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S204 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S204>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S205 {
    pub is_ok: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub second: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub x__y: V<0>,
}
fn s205() {
    tag("S205");
    let full = j(&S205 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S205 { is_ok: V::<1>::any(), second: V::<2>::maybe(), x__y: V::<0>::any() });
    named_struct(ty::<S205>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S206 {
    #[opg(nullable)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg(nullable)]
    pub r#type: V<2>,
}
fn s206() {
    tag("S206");
    let full = j(&S206 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S206 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S206>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S207 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub _lead: V<2>,
}
fn s207() {
    tag("S207");
    let full = j(&S207 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S207 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S207>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct S208 {
    pub second: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub a1_b2: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub is_ok: V<0>,
}
fn s208() {
    tag("S208");
    let full = j(&S208 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S208 { second: V::<1>::any(), a1_b2: V::<2>::maybe(), is_ok: V::<0>::maybe() });
    named_struct(ty::<S208>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S209 {
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub x__y: V<2>,
}
fn s209() {
    tag("S209");
    let full = j(&S209 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S209 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S209>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S210 {
    #[serde(rename = "x-Y")]
    pub first_one: V<0>,
    pub _lead: V<1>,
}
fn s210() {
    tag("S210");
    let full = j(&S210 { first_one: V::<0>::default(), _lead: V::<1>::default() });
    let v = j(&S210 { first_one: V::<0>::any(), _lead: V::<1>::any() });
    named_struct(ty::<S210>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S211 {
    pub a1_b2: V<1>,
    #[serde(skip_deserializing)]
    pub r#fn: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub second: V<0>,
}
fn s211() {
    tag("S211");
    let full = j(&S211 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S211 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S211>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S212 {
    #[serde(rename(deserialize = "dE"))]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub is_ok: V<2>,
}
fn s212() {
    tag("S212");
    let full = j(&S212 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S212 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::maybe() });
    named_struct(ty::<S212>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S213 {
    #[serde(skip)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg(nullable)]
    pub deep_er_name: V<2>,
}
fn s213() {
    tag("S213");
    let full = j(&S213 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S213 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S213>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S214 {
    pub r#fn: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub first_one: V<2>,
    #[serde(skip_serializing)]
    pub a1_b2: V<0>,
}
fn s214() {
    tag("S214");
    let full = j(&S214 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S214 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S214>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S215 {
    #[serde(skip_deserializing)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub second: V<2>,
}
fn s215() {
    tag("S215");
    let full = j(&S215 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S215 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::maybe() });
    named_struct(ty::<S215>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S216 {
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#type: V<2>,
}
fn s216() {
    tag("S216");
    let full = j(&S216 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S216 { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S216>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S217 {
    pub first_one: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub _lead: V<2>,
    #[serde(default)]
    pub r#fn: V<0>,
}
fn s217() {
    tag("S217");
    let full = j(&S217 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S217 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S217>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S218 {
    #[opg(optional)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub a1_b2: V<2>,
}
fn s218() {
    tag("S218");
    let full = j(&S218 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S218 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S218>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S219 {
    #[opg(inline)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(default)]
    pub x__y: V<2>,
}
fn s219() {
    tag("S219");
    let full = j(&S219 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S219 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S219>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S220 {
    pub _lead: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub tail_: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub first_one: V<0>,
}
fn s220() {
    tag("S220");
    let full = j(&S220 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S220 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::maybe() });
    named_struct(ty::<S220>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S221 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#fn: V<2>,
}
fn s221() {
    tag("S221");
    let full = j(&S221 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S221 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::maybe() });
    named_struct(ty::<S221>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S222 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(skip)]
    pub is_ok: V<2>,
}
fn s222() {
    tag("S222");
    let full = j(&S222 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S222 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S222>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S223 {
    pub tail_: V<1>,
    #[opg(optional)]
    pub deep_er_name: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub _lead: V<0>,
}
fn s223() {
    tag("S223");
    let full = j(&S223 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S223 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S223>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S224 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub first_one: V<2>,
}
fn s224() {
    tag("S224");
    let full = j(&S224 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S224 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S224>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S225 {
    #[opg(nullable)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    pub second: V<2>,
}
fn s225() {
    tag("S225");
    let full = j(&S225 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S225 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S225>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S226 {
    pub deep_er_name: V<1>,
    #[serde(skip_serializing)]
    pub r#type: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub tail_: V<0>,
}
fn s226() {
    tag("S226");
    let full = j(&S226 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S226 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S226>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct S227 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(inline)]
    pub _lead: V<2>,
}
fn s227() {
    tag("S227");
    let full = j(&S227 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S227 { r#fn: V::<0>::maybe(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S227>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S228 {
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub a1_b2: V<2>,
}
fn s228() {
    tag("S228");
    let full = j(&S228 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S228 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::maybe() });
    named_struct(ty::<S228>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S229 {
    pub r#type: V<1>,
    #[serde(skip)]
    pub x__y: V<2>,
    #[serde(rename = "x-Y")]
    pub deep_er_name: V<0>,
}
fn s229() {
    tag("S229");
    let full = j(&S229 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S229 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S229>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S230 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s230() {
    tag("S230");
    let full = j(&S230 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S230 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S230>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S231 {
    #[serde(rename(deserialize = "dE"))]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#fn: V<2>,
}
fn s231() {
    tag("S231");
    let full = j(&S231 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S231 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S231>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S232 {
    pub x__y: V<1>,
    pub is_ok: V<2>,
    #[serde(skip)]
    pub r#type: V<0>,
}
fn s232() {
    tag("S232");
    let full = j(&S232 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S232 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S232>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S233 {
    #[serde(skip_serializing)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_serializing)]
    pub deep_er_name: V<2>,
}
fn s233() {
    tag("S233");
    let full = j(&S233 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S233 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S233>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S234 {
    #[serde(skip_deserializing)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[opg(inline)]
    pub first_one: V<2>,
}
fn s234() {
    tag("S234");
    let full = j(&S234 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S234 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S234>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S235 {
    pub is_ok: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub second: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub x__y: V<0>,
}
fn s235() {
    tag("S235");
    let full = j(&S235 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S235 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::maybe() });
    named_struct(ty::<S235>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S236 {
    #[serde(default)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename = "x-Y")]
    pub r#type: V<2>,
}
fn s236() {
    tag("S236");
    let full = j(&S236 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S236 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S236>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S237 {
    #[opg(optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip_deserializing)]
    pub _lead: V<2>,
}
fn s237() {
    tag("S237");
    let full = j(&S237 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S237 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S237>(), &full, &v, &[true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S238 {
    pub second: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub a1_b2: V<2>,
    #[opg(inline)]
    pub is_ok: V<0>,
}
fn s238() {
    tag("S238");
    let full = j(&S238 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S238 { second: V::<1>::any(), a1_b2: V::<2>::maybe(), is_ok: V::<0>::any() });
    named_struct(ty::<S238>(), &full, &v, &[true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S239 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg(nullable)]
    pub x__y: V<2>,
}
fn s239() {
    tag("S239");
    let full = j(&S239 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S239 { deep_er_name: V::<0>::maybe(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S239>(), &full, &v, &[true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S240 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub tail_: V<2>,
}
fn s240() {
    tag("S240");
    let full = j(&S240 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S240 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S240>(), &full, &v, &[true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S241 {
    pub a1_b2: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub r#fn: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub second: V<0>,
}
fn s241() {
    tag("S241");
    let full = j(&S241 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S241 { a1_b2: V::<1>::any(), r#fn: V::<2>::maybe(), second: V::<0>::any() });
    named_struct(ty::<S241>(), &full, &v, &[true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S242 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub is_ok: V<2>,
}
fn s242() {
    tag("S242");
    let full = j(&S242 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S242 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S242>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S243 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub deep_er_name: V<2>,
}
fn s243() {
    tag("S243");
    let full = j(&S243 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S243 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S243>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S244 {
    pub r#fn: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub first_one: V<2>,
    #[opg(nullable)]
    pub a1_b2: V<0>,
}
fn s244() {
    tag("S244");
    let full = j(&S244 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S244 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::any() });
    named_struct(ty::<S244>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S245 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(default)]
    pub second: V<2>,
}
fn s245() {
    tag("S245");
    let full = j(&S245 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S245 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S245>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct S246 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<2>,
}
fn s246() {
    tag("S246");
    let full = j(&S246 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S246 { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S246>(), &full, &v, &[true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S247 {
    pub first_one: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub _lead: V<2>,
    pub r#fn: V<0>,
}
fn s247() {
    tag("S247");
    let full = j(&S247 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S247 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S247>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S248 {
    #[serde(rename = "x-Y")]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub a1_b2: V<2>,
}
fn s248() {
    tag("S248");
    let full = j(&S248 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S248 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::maybe() });
    named_struct(ty::<S248>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S249 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub x__y: V<2>,
}
fn s249() {
    tag("S249");
    let full = j(&S249 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S249 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S249>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S250 {
    pub _lead: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub tail_: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub first_one: V<0>,
}
fn s250() {
    tag("S250");
    let full = j(&S250 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S250 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S250>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S251 {
    #[serde(skip)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub r#fn: V<2>,
}
fn s251() {
    tag("S251");
    let full = j(&S251 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S251 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S251>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S252 {
    #[serde(skip_serializing)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(default)]
    pub is_ok: V<2>,
}
fn s252() {
    tag("S252");
    let full = j(&S252 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S252 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S252>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S253 {
    pub tail_: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub deep_er_name: V<2>,
    #[serde(skip_deserializing)]
    pub _lead: V<0>,
}
fn s253() {
    tag("S253");
    let full = j(&S253 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S253 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S253>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S254 {
    #[serde(skip_serializing_if = "gone")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub first_one: V<2>,
}
fn s254() {
    tag("S254");
    let full = j(&S254 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S254 { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() });
    named_struct(ty::<S254>(), &full, &v, &[true, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S255 {
    #[serde(default)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(skip)]
    pub second: V<2>,
}
fn s255() {
    tag("S255");
    let full = j(&S255 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S255 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S255>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S256 {
    pub deep_er_name: V<1>,
    #[opg(optional)]
    pub r#type: V<2>,
    #[opg(optional)]
    pub tail_: V<0>,
}
fn s256() {
    tag("S256");
    let full = j(&S256 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S256 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S256>(), &full, &v, &[true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S257 {
    #[opg(inline)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub _lead: V<2>,
}
fn s257() {
    tag("S257");
    let full = j(&S257 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S257 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S257>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S258 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub is_ok: V<0>,
    pub second: V<1>,
    pub a1_b2: V<2>,
}
fn s258() {
    tag("S258");
    let full = j(&S258 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S258 { is_ok: V::<0>::maybe(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S258>(), &full, &v, &[true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S259 {
    pub r#type: V<1>,
    #[serde(skip_serializing)]
    pub x__y: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub deep_er_name: V<0>,
}
fn s259() {
    tag("S259");
    let full = j(&S259 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S259 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S259>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S260 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[opg(inline)]
    pub tail_: V<2>,
}
fn s260() {
    tag("S260");
    let full = j(&S260 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S260 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S260>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S261 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#fn: V<2>,
}
fn s261() {
    tag("S261");
    let full = j(&S261 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S261 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S261>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S262 {
    pub x__y: V<1>,
    #[serde(rename = "x-Y")]
    pub is_ok: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub r#type: V<0>,
}
fn s262() {
    tag("S262");
    let full = j(&S262 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S262 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::any() });
    named_struct(ty::<S262>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S263 {
    #[opg(nullable)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_deserializing)]
    pub deep_er_name: V<2>,
}
fn s263() {
    tag("S263");
    let full = j(&S263 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S263 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S263>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S264 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub first_one: V<2>,
}
fn s264() {
    tag("S264");
    let full = j(&S264 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S264 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::maybe() });
    named_struct(ty::<S264>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S265 {
    pub is_ok: V<1>,
    #[opg(nullable)]
    pub second: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub x__y: V<0>,
}
fn s265() {
    tag("S265");
    let full = j(&S265 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S265 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::maybe() });
    named_struct(ty::<S265>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S266 {
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(skip_serializing)]
    pub r#type: V<2>,
}
fn s266() {
    tag("S266");
    let full = j(&S266 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S266 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S266>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S267 {
    #[serde(rename = "x-Y")]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[opg(inline)]
    pub _lead: V<2>,
}
fn s267() {
    tag("S267");
    let full = j(&S267 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S267 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S267>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S268 {
    pub second: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub is_ok: V<0>,
}
fn s268() {
    tag("S268");
    let full = j(&S268 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S268 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S268>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S269 {
    #[serde(rename(deserialize = "dE"))]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename = "x-Y")]
    pub x__y: V<2>,
}
fn s269() {
    tag("S269");
    let full = j(&S269 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S269 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S269>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S270 {
    #[serde(skip)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_deserializing)]
    pub tail_: V<2>,
}
fn s270() {
    tag("S270");
    let full = j(&S270 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S270 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S270>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S271 {
    pub a1_b2: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#fn: V<2>,
    #[serde(skip_serializing)]
    pub second: V<0>,
}
fn s271() {
    tag("S271");
    let full = j(&S271 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S271 { a1_b2: V::<1>::any(), r#fn: V::<2>::maybe(), second: V::<0>::any() });
    named_struct(ty::<S271>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S272 {
    #[serde(skip_deserializing)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg(nullable)]
    pub is_ok: V<2>,
}
fn s272() {
    tag("S272");
    let full = j(&S272 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S272 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S272>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S273 {
    #[serde(skip_serializing_if = "gone")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub deep_er_name: V<2>,
}
fn s273() {
    tag("S273");
    let full = j(&S273 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S273 { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S273>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S274 {
    pub r#fn: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub first_one: V<2>,
    #[serde(default)]
    pub a1_b2: V<0>,
}
fn s274() {
    tag("S274");
    let full = j(&S274 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S274 { r#fn: V::<1>::any(), first_one: V::<2>::maybe(), a1_b2: V::<0>::any() });
    named_struct(ty::<S274>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S275 {
    #[opg(optional)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub second: V<2>,
}
fn s275() {
    tag("S275");
    let full = j(&S275 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S275 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S275>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S276 {
    #[opg(inline)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#type: V<2>,
}
fn s276() {
    tag("S276");
    let full = j(&S276 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S276 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S276>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S277 {
    pub first_one: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub _lead: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub r#fn: V<0>,
}
fn s277() {
    tag("S277");
    let full = j(&S277 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S277 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::maybe() });
    named_struct(ty::<S277>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S278 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(default)]
    pub a1_b2: V<2>,
}
fn s278() {
    tag("S278");
    let full = j(&S278 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S278 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S278>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S279 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub x__y: V<2>,
}
fn s279() {
    tag("S279");
    let full = j(&S279 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S279 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S279>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S280 {
    pub _lead: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub tail_: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub first_one: V<0>,
}
fn s280() {
    tag("S280");
    let full = j(&S280 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S280 { _lead: V::<1>::any(), tail_: V::<2>::maybe(), first_one: V::<0>::any() });
    named_struct(ty::<S280>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S281 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(skip)]
    pub r#fn: V<2>,
}
fn s281() {
    tag("S281");
    let full = j(&S281 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S281 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S281>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S282 {
    #[opg(nullable)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg(optional)]
    pub is_ok: V<2>,
}
fn s282() {
    tag("S282");
    let full = j(&S282 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S282 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S282>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S283 {
    pub tail_: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub deep_er_name: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub _lead: V<0>,
}
fn s283() {
    tag("S283");
    let full = j(&S283 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S283 { tail_: V::<1>::any(), deep_er_name: V::<2>::any(), _lead: V::<0>::any() });
    named_struct(ty::<S283>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct S284 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    pub first_one: V<2>,
}
fn s284() {
    tag("S284");
    let full = j(&S284 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S284 { a1_b2: V::<0>::maybe(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S284>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S285 {
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[serde(default)]
    pub second: V<2>,
}
fn s285() {
    tag("S285");
    let full = j(&S285 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S285 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S285>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S286 {
    pub deep_er_name: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#type: V<2>,
    #[serde(rename = "x-Y")]
    pub tail_: V<0>,
}
fn s286() {
    tag("S286");
    let full = j(&S286 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S286 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S286>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S287 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub _lead: V<2>,
}
fn s287() {
    tag("S287");
    let full = j(&S287 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S287 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::maybe() });
    named_struct(ty::<S287>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S288 {
    #[serde(rename(deserialize = "dE"))]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip)]
    pub a1_b2: V<2>,
}
fn s288() {
    tag("S288");
    let full = j(&S288 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S288 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S288>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S289 {
    pub r#type: V<1>,
    #[opg(optional)]
    pub x__y: V<2>,
    #[serde(skip)]
    pub deep_er_name: V<0>,
}
fn s289() {
    tag("S289");
    let full = j(&S289 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S289 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S289>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S290 {
    #[serde(skip_serializing)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub tail_: V<2>,
}
fn s290() {
    tag("S290");
    let full = j(&S290 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S290 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S290>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S291 {
    #[serde(skip_deserializing)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    pub r#fn: V<2>,
}
fn s291() {
    tag("S291");
    let full = j(&S291 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S291 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S291>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S292 {
    pub x__y: V<1>,
    #[serde(skip_serializing)]
    pub is_ok: V<2>,
    #[serde(skip_serializing_if = "gone")]
    pub r#type: V<0>,
}
fn s292() {
    tag("S292");
    let full = j(&S292 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S292 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::maybe() });
    named_struct(ty::<S292>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S293 {
    #[serde(default)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[opg(inline)]
    pub deep_er_name: V<2>,
}
fn s293() {
    tag("S293");
    let full = j(&S293 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S293 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S293>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S294 {
    #[opg(optional)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub first_one: V<2>,
}
fn s294() {
    tag("S294");
    let full = j(&S294 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S294 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S294>(), &full, &v, &[false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S295 {
    pub is_ok: V<1>,
    #[serde(rename = "x-Y")]
    pub second: V<2>,
    #[opg(inline)]
    pub x__y: V<0>,
}
fn s295() {
    tag("S295");
    let full = j(&S295 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S295 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S295>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S296 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(skip_deserializing)]
    pub r#type: V<2>,
}
fn s296() {
    tag("S296");
    let full = j(&S296 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S296 { tail_: V::<0>::maybe(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S296>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S297 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub _lead: V<2>,
}
fn s297() {
    tag("S297");
    let full = j(&S297 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S297 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::maybe() });
    named_struct(ty::<S297>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S298 {
    pub second: V<1>,
    #[opg(nullable)]
    pub a1_b2: V<2>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub is_ok: V<0>,
}
fn s298() {
    tag("S298");
    let full = j(&S298 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S298 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S298>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S299 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub x__y: V<2>,
}
fn s299() {
    tag("S299");
    let full = j(&S299 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S299 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S299>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S300 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<2>,
}
fn s300() {
    tag("S300");
    let full = j(&S300 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S300 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::maybe() });
    named_struct(ty::<S300>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S301 {
    pub a1_b2: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub r#fn: V<2>,
    #[opg(nullable)]
    pub second: V<0>,
}
fn s301() {
    tag("S301");
    let full = j(&S301 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S301 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S301>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S302 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub is_ok: V<2>,
}
fn s302() {
    tag("S302");
    let full = j(&S302 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S302 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S302>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct S303 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub deep_er_name: V<2>,
}
fn s303() {
    tag("S303");
    let full = j(&S303 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S303 { _lead: V::<0>::maybe(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S303>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S304 {
    pub r#fn: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub first_one: V<2>,
    pub a1_b2: V<0>,
}
fn s304() {
    tag("S304");
    let full = j(&S304 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S304 { r#fn: V::<1>::any(), first_one: V::<2>::maybe(), a1_b2: V::<0>::any() });
    named_struct(ty::<S304>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S305 {
    #[serde(rename = "x-Y")]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg(nullable)]
    pub second: V<2>,
}
fn s305() {
    tag("S305");
    let full = j(&S305 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S305 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S305>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S306 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
}
fn s306() {
    tag("S306");
    let full = j(&S306 { tail_: V::<0>::default(), deep_er_name: V::<1>::default() });
    let v = j(&S306 { tail_: V::<0>::any(), deep_er_name: V::<1>::any() });
    named_struct(ty::<S306>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S307 {
    pub first_one: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub _lead: V<2>,
    #[serde(rename(deserialize = "dE"))]
    pub r#fn: V<0>,
}
fn s307() {
    tag("S307");
    let full = j(&S307 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S307 { first_one: V::<1>::any(), _lead: V::<2>::maybe(), r#fn: V::<0>::any() });
    named_struct(ty::<S307>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S308 {
    #[serde(skip)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub a1_b2: V<2>,
}
fn s308() {
    tag("S308");
    let full = j(&S308 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S308 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S308>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S309 {
    #[serde(skip_serializing)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub x__y: V<2>,
}
fn s309() {
    tag("S309");
    let full = j(&S309 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S309 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S309>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S310 {
    pub _lead: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub tail_: V<2>,
    #[serde(skip_deserializing)]
    pub first_one: V<0>,
}
fn s310() {
    tag("S310");
    let full = j(&S310 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S310 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S310>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S311 {
    #[serde(skip_serializing_if = "gone")]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(default)]
    pub r#fn: V<2>,
}
fn s311() {
    tag("S311");
    let full = j(&S311 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S311 { second: V::<0>::maybe(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S311>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S312 {
    #[serde(default)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub is_ok: V<2>,
}
fn s312() {
    tag("S312");
    let full = j(&S312 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S312 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S312>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S313 {
    pub tail_: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub deep_er_name: V<2>,
    #[opg(optional)]
    pub _lead: V<0>,
}
fn s313() {
    tag("S313");
    let full = j(&S313 { tail_: V::<1>::default(), deep_er_name: V::<2>::default(), _lead: V::<0>::default() });
    let v = j(&S313 { tail_: V::<1>::any(), deep_er_name: V::<2>::maybe(), _lead: V::<0>::any() });
    named_struct(ty::<S313>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S314 {
    #[opg(inline)]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    #[serde(skip)]
    pub first_one: V<2>,
}
fn s314() {
    tag("S314");
    let full = j(&S314 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S314 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S314>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S315 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg(optional)]
    pub second: V<2>,
}
fn s315() {
    tag("S315");
    let full = j(&S315 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S315 { x__y: V::<0>::maybe(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S315>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S316 {
    pub deep_er_name: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#type: V<2>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub tail_: V<0>,
}
fn s316() {
    tag("S316");
    let full = j(&S316 { deep_er_name: V::<1>::default(), r#type: V::<2>::default(), tail_: V::<0>::default() });
    let v = j(&S316 { deep_er_name: V::<1>::any(), r#type: V::<2>::any(), tail_: V::<0>::any() });
    named_struct(ty::<S316>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S317 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    pub _lead: V<2>,
}
fn s317() {
    tag("S317");
    let full = j(&S317 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S317 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S317>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S318 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[serde(skip_serializing)]
    pub a1_b2: V<2>,
}
fn s318() {
    tag("S318");
    let full = j(&S318 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S318 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S318>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S319 {
    pub r#type: V<1>,
    #[opg(inline)]
    pub x__y: V<2>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub deep_er_name: V<0>,
}
fn s319() {
    tag("S319");
    let full = j(&S319 { r#type: V::<1>::default(), x__y: V::<2>::default(), deep_er_name: V::<0>::default() });
    let v = j(&S319 { r#type: V::<1>::any(), x__y: V::<2>::any(), deep_er_name: V::<0>::any() });
    named_struct(ty::<S319>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S320 {
    #[opg(nullable)]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s320() {
    tag("S320");
    let full = j(&S320 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S320 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any() });
    named_struct(ty::<S320>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S321 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[serde(rename = "x-Y")]
    pub r#fn: V<2>,
}
fn s321() {
    tag("S321");
    let full = j(&S321 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S321 { second: V::<0>::any(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S321>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct S322 {
    pub x__y: V<1>,
    #[serde(skip_deserializing)]
    pub is_ok: V<2>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#type: V<0>,
}
fn s322() {
    tag("S322");
    let full = j(&S322 { x__y: V::<1>::default(), is_ok: V::<2>::default(), r#type: V::<0>::default() });
    let v = j(&S322 { x__y: V::<1>::any(), is_ok: V::<2>::any(), r#type: V::<0>::maybe() });
    named_struct(ty::<S322>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S323 {
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub deep_er_name: V<2>,
}
fn s323() {
    tag("S323");
    let full = j(&S323 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S323 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::any() });
    named_struct(ty::<S323>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S324 {
    #[serde(rename = "x-Y")]
    pub a1_b2: V<0>,
    pub r#fn: V<1>,
    pub first_one: V<2>,
}
fn s324() {
    tag("S324");
    let full = j(&S324 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default() });
    let v = j(&S324 { a1_b2: V::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any() });
    named_struct(ty::<S324>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S325 {
    pub is_ok: V<1>,
    #[serde(skip_serializing)]
    pub second: V<2>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub x__y: V<0>,
}
fn s325() {
    tag("S325");
    let full = j(&S325 { is_ok: V::<1>::default(), second: V::<2>::default(), x__y: V::<0>::default() });
    let v = j(&S325 { is_ok: V::<1>::any(), second: V::<2>::any(), x__y: V::<0>::any() });
    named_struct(ty::<S325>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S326 {
    #[serde(rename(deserialize = "dE"))]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[opg(inline)]
    pub r#type: V<2>,
}
fn s326() {
    tag("S326");
    let full = j(&S326 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S326 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S326>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S327 {
    #[serde(skip)]
    pub r#fn: V<0>,
    pub first_one: V<1>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub _lead: V<2>,
}
fn s327() {
    tag("S327");
    let full = j(&S327 { r#fn: V::<0>::default(), first_one: V::<1>::default(), _lead: V::<2>::default() });
    let v = j(&S327 { r#fn: V::<0>::any(), first_one: V::<1>::any(), _lead: V::<2>::any() });
    named_struct(ty::<S327>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S328 {
    pub second: V<1>,
    #[serde(rename = "x-Y")]
    pub a1_b2: V<2>,
    #[serde(skip_serializing)]
    pub is_ok: V<0>,
}
fn s328() {
    tag("S328");
    let full = j(&S328 { second: V::<1>::default(), a1_b2: V::<2>::default(), is_ok: V::<0>::default() });
    let v = j(&S328 { second: V::<1>::any(), a1_b2: V::<2>::any(), is_ok: V::<0>::any() });
    named_struct(ty::<S328>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S329 {
    #[serde(skip_deserializing)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(skip_deserializing)]
    pub x__y: V<2>,
}
fn s329() {
    tag("S329");
    let full = j(&S329 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S329 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::any() });
    named_struct(ty::<S329>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S330 {
    #[serde(skip_serializing_if = "gone")]
    pub first_one: V<0>,
    pub _lead: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub tail_: V<2>,
}
fn s330() {
    tag("S330");
    let full = j(&S330 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default() });
    let v = j(&S330 { first_one: V::<0>::maybe(), _lead: V::<1>::any(), tail_: V::<2>::maybe() });
    named_struct(ty::<S330>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S331 {
    pub a1_b2: V<1>,
    #[opg(nullable)]
    pub r#fn: V<2>,
    #[serde(default)]
    pub second: V<0>,
}
fn s331() {
    tag("S331");
    let full = j(&S331 { a1_b2: V::<1>::default(), r#fn: V::<2>::default(), second: V::<0>::default() });
    let v = j(&S331 { a1_b2: V::<1>::any(), r#fn: V::<2>::any(), second: V::<0>::any() });
    named_struct(ty::<S331>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S332 {
    #[opg(optional)]
    pub r#type: V<0>,
    pub x__y: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub is_ok: V<2>,
}
fn s332() {
    tag("S332");
    let full = j(&S332 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default() });
    let v = j(&S332 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any() });
    named_struct(ty::<S332>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S333 {
    #[opg(inline)]
    pub _lead: V<0>,
    pub tail_: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: V<2>,
}
fn s333() {
    tag("S333");
    let full = j(&S333 { _lead: V::<0>::default(), tail_: V::<1>::default(), deep_er_name: V::<2>::default() });
    let v = j(&S333 { _lead: V::<0>::any(), tail_: V::<1>::any(), deep_er_name: V::<2>::maybe() });
    named_struct(ty::<S333>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S334 {
    pub r#fn: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub first_one: V<2>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub a1_b2: V<0>,
}
fn s334() {
    tag("S334");
    let full = j(&S334 { r#fn: V::<1>::default(), first_one: V::<2>::default(), a1_b2: V::<0>::default() });
    let v = j(&S334 { r#fn: V::<1>::any(), first_one: V::<2>::any(), a1_b2: V::<0>::maybe() });
    named_struct(ty::<S334>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S335 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub x__y: V<0>,
    pub is_ok: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub second: V<2>,
}
fn s335() {
    tag("S335");
    let full = j(&S335 { x__y: V::<0>::default(), is_ok: V::<1>::default(), second: V::<2>::default() });
    let v = j(&S335 { x__y: V::<0>::any(), is_ok: V::<1>::any(), second: V::<2>::any() });
    named_struct(ty::<S335>(), &full, &v, &[false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S336 {
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub tail_: V<0>,
    pub deep_er_name: V<1>,
    #[serde(rename(deserialize = "dE"))]
    pub r#type: V<2>,
}
fn s336() {
    tag("S336");
    let full = j(&S336 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: V::<2>::default() });
    let v = j(&S336 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: V::<2>::any() });
    named_struct(ty::<S336>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S337 {
    pub first_one: V<1>,
    #[serde(default)]
    pub _lead: V<2>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub r#fn: V<0>,
}
fn s337() {
    tag("S337");
    let full = j(&S337 { first_one: V::<1>::default(), _lead: V::<2>::default(), r#fn: V::<0>::default() });
    let v = j(&S337 { first_one: V::<1>::any(), _lead: V::<2>::any(), r#fn: V::<0>::any() });
    named_struct(ty::<S337>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S338 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub is_ok: V<0>,
    pub second: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub a1_b2: V<2>,
}
fn s338() {
    tag("S338");
    let full = j(&S338 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default() });
    let v = j(&S338 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: V::<2>::any() });
    named_struct(ty::<S338>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S339 {
    #[opg(nullable)]
    pub deep_er_name: V<0>,
    pub r#type: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub x__y: V<2>,
}
fn s339() {
    tag("S339");
    let full = j(&S339 { deep_er_name: V::<0>::default(), r#type: V::<1>::default(), x__y: V::<2>::default() });
    let v = j(&S339 { deep_er_name: V::<0>::any(), r#type: V::<1>::any(), x__y: V::<2>::maybe() });
    named_struct(ty::<S339>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S340 {
    pub _lead: V<1>,
    #[serde(skip)]
    pub tail_: V<2>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub first_one: V<0>,
}
fn s340() {
    tag("S340");
    let full = j(&S340 { _lead: V::<1>::default(), tail_: V::<2>::default(), first_one: V::<0>::default() });
    let v = j(&S340 { _lead: V::<1>::any(), tail_: V::<2>::any(), first_one: V::<0>::any() });
    named_struct(ty::<S340>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct S341 {
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub second: V<0>,
    pub a1_b2: V<1>,
    #[opg(optional)]
    pub r#fn: V<2>,
}
fn s341() {
    tag("S341");
    let full = j(&S341 { second: V::<0>::default(), a1_b2: V::<1>::default(), r#fn: V::<2>::default() });
    let v = j(&S341 { second: V::<0>::maybe(), a1_b2: V::<1>::any(), r#fn: V::<2>::any() });
    named_struct(ty::<S341>(), &full, &v, &[false, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct P342 {
    #[opg(number, inline, nullable)]
    #[serde(rename = "Gone 467", skip_serializing_if = "gone")]
    pub first_one: X<2>,
    #[opg(string, inline, "text")]
    #[serde(skip_deserializing)]
    pub _lead: X<0>,
    #[opg(integer, nullable, "text")]
    #[serde(rename = "re-N147")]
    pub tail_: X<1>,
    #[opg("text", nullable, any)]
    #[serde(rename = "re-N198")]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 472", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", inline, number)]
    pub f4_x: X<2>,
    #[opg(inline, example = "e", format = "f")]
    #[serde(rename = "re-N115")]
    pub f5_x: V<2>,
}
fn p342() {
    tag("P342");
    let full = j(&P342 { first_one: X::<2>::default(), _lead: X::<0>::default(), tail_: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P342 { first_one: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, _lead: X::<0>::any(), tail_: X::<1>::any(), f3_x: V::<0>::any(), f4_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P342>(), &full, &v, &[false, true, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P343 {
    #[serde(rename = "re-N180")]
    #[opg("text", inline, boolean)]
    pub tail_: X<3>,
    #[opg(string, inline)]
    #[serde(rename(serialize = "Ser223", deserialize = "De223"))]
    pub deep_er_name: X<0>,
    #[opg(string, nullable, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub r#type: X<0>,
    #[serde(rename = "re-N127")]
    #[opg(string, inline, nullable)]
    pub f3_x: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, inline, "text")]
    pub f4_x: X<2>,
    #[serde(rename = "Gone 474", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", "text", number)]
    pub f5_x: X<2>,
}
fn p343() {
    tag("P343");
    let full = j(&P343 { tail_: X::<3>::default(), deep_er_name: X::<0>::default(), r#type: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P343 { tail_: X::<3>::any(), deep_er_name: X::<0>::any(), r#type: X::<0>::any(), f3_x: X::<0>::any(), f4_x: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() } });
    named_struct(ty::<P343>(), &full, &v, &[true, true, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P344 {
    #[opg(number, inline, "text")]
    #[serde(rename(serialize = "Ser265", deserialize = "De265"))]
    pub r#type: X<2>,
    #[serde(skip_deserializing)]
    #[opg(boolean, optional, nullable)]
    pub x__y: X<3>,
    #[serde(rename(serialize = "Ser209", deserialize = "De209"))]
    #[opg(example = "e", format = "f")]
    pub is_ok: V<2>,
    #[opg(format = "f", example = "e", nullable, boolean)]
    #[serde(rename(serialize = "Ser286", deserialize = "De286"))]
    pub f3_x: X<3>,
    #[serde(rename = "re-N197")]
    #[opg(any, inline, "text")]
    pub f4_x: V<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f5_x: V<2>,
}
fn p344() {
    tag("P344");
    let full = j(&P344 { r#type: X::<2>::default(), x__y: X::<3>::default(), is_ok: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P344 { r#type: X::<2>::any(), x__y: X::<3>::any(), is_ok: V::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any(), f5_x: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P344>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P345 {
    #[serde(rename(serialize = "Ser245", deserialize = "De245"))]
    #[opg(integer, optional, nullable)]
    pub is_ok: X<1>,
    #[serde(rename(serialize = "Ser285", deserialize = "De285"))]
    #[opg(boolean, inline, example = "e", format = "f")]
    pub second: X<3>,
    #[opg(nullable, string)]
    #[serde(default)]
    pub a1_b2: X<0>,
    #[opg(format = "f", example = "e", number)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: X<2>,
    #[serde(skip_deserializing)]
    #[opg(example = "e", format = "f")]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", string)]
    #[serde(default)]
    pub f5_x: X<0>,
}
fn p345() {
    tag("P345");
    let full = j(&P345 { is_ok: X::<1>::default(), second: X::<3>::default(), a1_b2: X::<0>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P345 { is_ok: X::<1>::any(), second: X::<3>::any(), a1_b2: X::<0>::any(), f3_x: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: V::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P345>(), &full, &v, &[false, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P346 {
    #[opg(format = "f", example = "e", "text", number)]
    #[serde(default)]
    pub a1_b2: X<2>,
    #[opg(format = "f", example = "e", optional, boolean)]
    #[serde(rename(serialize = "Ser284", deserialize = "De284"))]
    pub r#fn: X<3>,
    #[serde(rename(serialize = "Ser298", deserialize = "De298"))]
    #[opg("text", optional, any)]
    pub first_one: V<2>,
    #[opg(integer, optional, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: X<1>,
    #[serde(rename = "Gone 487", skip_serializing_if = "gone")]
    #[opg(boolean, nullable, "text")]
    pub f4_x: X<3>,
    #[serde(rename = "re-N142")]
    #[opg(inline, optional, integer)]
    pub f5_x: X<1>,
}
fn p346() {
    tag("P346");
    let full = j(&P346 { a1_b2: X::<2>::default(), r#fn: X::<3>::default(), first_one: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P346 { a1_b2: X::<2>::any(), r#fn: X::<3>::any(), first_one: V::<2>::any(), f3_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f5_x: X::<1>::any() });
    named_struct(ty::<P346>(), &full, &v, &[true, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P347 {
    #[opg("text", optional, any)]
    #[serde(default)]
    pub first_one: V<0>,
    #[opg(any)]
    #[serde(rename = "Gone 493", skip_serializing_if = "gone")]
    pub _lead: V<1>,
    #[opg("text", inline, boolean)]
    #[serde(skip_deserializing)]
    pub tail_: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string)]
    pub f3_x: X<0>,
    #[opg(format = "f", example = "e", inline, any)]
    #[serde(default)]
    pub f4_x: V<1>,
    #[opg(optional)]
    #[serde(rename = "re-N103")]
    pub f5_x: V<2>,
}
fn p347() {
    tag("P347");
    let full = j(&P347 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: X::<3>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P347 { first_one: V::<0>::any(), _lead: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, tail_: X::<3>::any(), f3_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P347>(), &full, &v, &[false, false, true, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P348 {
    #[opg("text", example = "e", format = "f")]
    #[serde(rename = "re-N117")]
    pub tail_: V<0>,
    #[serde(default)]
    #[opg(any)]
    pub deep_er_name: V<1>,
    #[serde(rename(serialize = "Ser262", deserialize = "De262"))]
    #[opg(nullable, optional, number)]
    pub r#type: X<2>,
    #[serde(default)]
    #[opg(nullable, inline, boolean)]
    pub f3_x: X<3>,
    #[opg(any, "text")]
    #[serde(skip_deserializing)]
    pub f4_x: V<1>,
    #[opg(any, optional, inline)]
    #[serde(rename(serialize = "Ser295", deserialize = "De295"))]
    pub f5_x: V<2>,
}
fn p348() {
    tag("P348");
    let full = j(&P348 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let v = j(&P348 { tail_: V::<0>::any(), deep_er_name: V::<1>::any(), r#type: X::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P348>(), &full, &v, &[true, true, false, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P349 {
    #[opg(number, optional, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser267", deserialize = "De267"))]
    pub r#type: X<2>,
    #[opg(boolean, "text", example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: X<3>,
    #[serde(rename = "re-N121")]
    #[opg(string, inline)]
    pub is_ok: X<0>,
    #[opg("text", example = "e", format = "f")]
    #[serde(default)]
    pub f3_x: V<0>,
    #[opg(boolean, "text", example = "e", format = "f")]
    pub f4_x: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline)]
    pub f5_x: V<2>,
}
fn p349() {
    tag("P349");
    let full = j(&P349 { r#type: X::<2>::default(), x__y: X::<3>::default(), is_ok: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P349 { r#type: X::<2>::any(), x__y: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, is_ok: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P349>(), &full, &v, &[false, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P350 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", optional, boolean)]
    pub is_ok: X<3>,
    #[opg("text", inline, integer)]
    #[serde(skip_deserializing)]
    pub second: X<1>,
    #[serde(skip_deserializing)]
    #[opg("text", nullable, string)]
    pub a1_b2: X<0>,
    #[opg(optional, any)]
    #[serde(default)]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 477", skip_serializing_if = "gone")]
    #[opg(boolean, optional)]
    pub f4_x: X<3>,
    #[opg(boolean, nullable, "text")]
    #[serde(default)]
    pub f5_x: X<3>,
}
fn p350() {
    tag("P350");
    let full = j(&P350 { is_ok: X::<3>::default(), second: X::<1>::default(), a1_b2: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<3>::default() });
    let gone = choose(2);
    let v = j(&P350 { is_ok: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, second: X::<1>::any(), a1_b2: X::<0>::any(), f3_x: V::<0>::any(), f4_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f5_x: X::<3>::any() });
    named_struct(ty::<P350>(), &full, &v, &[false, true, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P351 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline, boolean)]
    pub a1_b2: X<3>,
    #[opg(boolean, optional, nullable)]
    #[serde(default)]
    pub r#fn: X<3>,
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", number)]
    pub first_one: X<2>,
    #[opg(example = "e", format = "f")]
    #[serde(rename = "re-N107")]
    pub f3_x: V<0>,
    #[serde(rename = "re-N108")]
    #[opg(inline, optional)]
    pub f4_x: V<1>,
    #[opg(optional, string)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<0>,
}
fn p351() {
    tag("P351");
    let full = j(&P351 { a1_b2: X::<3>::default(), r#fn: X::<3>::default(), first_one: X::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(2);
    let v = j(&P351 { a1_b2: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, r#fn: X::<3>::any(), first_one: X::<2>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any(), f5_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P351>(), &full, &v, &[false, false, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P352 {
    #[opg(string, inline, "text")]
    #[serde(rename(serialize = "Ser231", deserialize = "De231"))]
    pub first_one: X<0>,
    #[opg(nullable, optional, number)]
    #[serde(skip_serializing_if = "gone")]
    pub _lead: X<2>,
    #[serde(rename = "re-N119")]
    #[opg(string)]
    pub tail_: X<0>,
    #[opg(any, nullable, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub f3_x: V<0>,
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", inline, number)]
    pub f4_x: X<2>,
    #[opg(number, inline)]
    #[serde(rename(serialize = "Ser257", deserialize = "De257"))]
    pub f5_x: X<2>,
}
fn p352() {
    tag("P352");
    let full = j(&P352 { first_one: X::<0>::default(), _lead: X::<2>::default(), tail_: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<2>::default() });
    let gone = choose(1);
    let v = j(&P352 { first_one: X::<0>::any(), _lead: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, tail_: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any(), f5_x: X::<2>::any() });
    named_struct(ty::<P352>(), &full, &v, &[true, false, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P353 {
    #[serde(default)]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    pub tail_: X<1>,
    #[serde(default)]
    #[opg(boolean)]
    pub deep_er_name: X<3>,
    #[serde(rename = "Gone 504", skip_serializing_if = "gone")]
    #[opg("text", nullable, any)]
    pub r#type: V<2>,
    #[opg(nullable, inline, boolean)]
    #[serde(skip_deserializing)]
    pub f3_x: X<3>,
    #[opg(optional, number)]
    #[serde(default)]
    pub f4_x: X<2>,
    #[serde(skip_deserializing)]
    #[opg("text", optional, string)]
    pub f5_x: X<0>,
}
fn p353() {
    tag("P353");
    let full = j(&P353 { tail_: X::<1>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<2>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P353 { tail_: X::<1>::any(), deep_er_name: X::<3>::any(), r#type: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<3>::any(), f4_x: X::<2>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P353>(), &full, &v, &[false, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P354 {
    #[opg(format = "f", example = "e", optional)]
    #[serde(rename = "Gone 420", skip_serializing_if = "gone")]
    pub r#type: V<0>,
    #[opg(nullable, optional, any)]
    pub x__y: V<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, optional, example = "e", format = "f")]
    pub is_ok: X<2>,
    #[serde(rename = "Gone 451", skip_serializing_if = "gone")]
    #[opg(integer, optional, "text")]
    pub f3_x: X<1>,
    #[opg(boolean, example = "e", format = "f")]
    pub f4_x: X<3>,
    #[opg(example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: V<2>,
}
fn p354() {
    tag("P354");
    let full = j(&P354 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let gone = choose(4);
    let v = j(&P354 { r#type: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, x__y: V::<1>::any(), is_ok: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: X::<3>::any(), f5_x: if gone == 3 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P354>(), &full, &v, &[true, false, false, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P355 {
    #[serde(skip_deserializing)]
    #[opg(nullable, any)]
    pub is_ok: V<0>,
    #[opg(inline)]
    #[serde(rename = "Gone 410", skip_serializing_if = "gone")]
    pub second: V<1>,
    #[opg(any, optional, example = "e", format = "f")]
    #[serde(rename = "Gone 505", skip_serializing_if = "gone")]
    pub a1_b2: V<2>,
    #[serde(rename = "re-N159")]
    #[opg(number, optional, inline)]
    pub f3_x: X<2>,
    #[opg(integer, "text", example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub f4_x: X<1>,
    #[serde(rename = "re-N201")]
    #[opg(any, nullable, example = "e", format = "f")]
    pub f5_x: V<2>,
}
fn p355() {
    tag("P355");
    let full = j(&P355 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P355 { is_ok: V::<0>::any(), second: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, a1_b2: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<2>::any(), f4_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P355>(), &full, &v, &[true, true, false, false, false, false, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P356 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, nullable, example = "e", format = "f")]
    pub a1_b2: V<0>,
    #[opg(format = "f", example = "e", optional)]
    #[serde(rename(serialize = "Ser216", deserialize = "De216"))]
    pub r#fn: V<1>,
    #[serde(skip_deserializing)]
    #[opg("text", nullable, any)]
    pub first_one: V<2>,
    #[opg(optional, number)]
    #[serde(rename = "re-N154")]
    pub f3_x: X<2>,
    #[opg(integer)]
    pub f4_x: X<1>,
    #[serde(skip_deserializing)]
    #[opg(nullable, "text")]
    pub f5_x: V<2>,
}
fn p356() {
    tag("P356");
    let full = j(&P356 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P356 { a1_b2: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, r#fn: V::<1>::any(), first_one: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P356>(), &full, &v, &[false, false, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P357 {
    #[opg(any, inline, "text")]
    #[serde(skip_deserializing)]
    pub first_one: V<0>,
    #[serde(rename = "Gone 447", skip_serializing_if = "gone")]
    #[opg(integer, example = "e", format = "f")]
    pub _lead: X<1>,
    #[serde(default)]
    pub tail_: V<2>,
    #[serde(skip_deserializing)]
    #[opg(boolean, nullable)]
    pub f3_x: X<3>,
    #[opg(any)]
    #[serde(skip_deserializing)]
    pub f4_x: V<1>,
    #[serde(rename = "Gone 462", skip_serializing_if = "gone")]
    #[opg(nullable, number)]
    pub f5_x: X<2>,
}
fn p357() {
    tag("P357");
    let full = j(&P357 { first_one: V::<0>::default(), _lead: X::<1>::default(), tail_: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P357 { first_one: V::<0>::any(), _lead: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, tail_: V::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any(), f5_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() } });
    named_struct(ty::<P357>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P358 {
    #[serde(rename(serialize = "Ser304", deserialize = "De304"))]
    #[opg(format = "f", example = "e", "text", any)]
    pub tail_: V<0>,
    #[opg(boolean, optional, "text")]
    pub deep_er_name: X<3>,
    #[serde(rename = "re-N191")]
    #[opg(any, "text")]
    pub r#type: V<2>,
    #[opg(nullable)]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 500", skip_serializing_if = "gone")]
    #[opg(nullable, optional, any)]
    pub f4_x: V<1>,
    #[opg(inline, optional, boolean)]
    pub f5_x: X<3>,
}
fn p358() {
    tag("P358");
    let full = j(&P358 { tail_: V::<0>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<3>::default() });
    let gone = choose(1);
    let v = j(&P358 { tail_: V::<0>::any(), deep_er_name: X::<3>::any(), r#type: V::<2>::any(), f3_x: V::<0>::any(), f4_x: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<3>::any() });
    named_struct(ty::<P358>(), &full, &v, &[true, false, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P359 {
    #[opg(format = "f", example = "e", "text", string)]
    #[serde(skip_serializing_if = "gone")]
    pub r#type: X<0>,
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    pub x__y: X<2>,
    #[opg(integer, nullable, "text")]
    #[serde(default)]
    pub is_ok: X<1>,
    pub f3_x: V<0>,
    #[opg(nullable, optional, number)]
    #[serde(default)]
    pub f4_x: X<2>,
    #[opg(nullable, inline, integer)]
    #[serde(rename(serialize = "Ser246", deserialize = "De246"))]
    pub f5_x: X<1>,
}
fn p359() {
    tag("P359");
    let full = j(&P359 { r#type: X::<0>::default(), x__y: X::<2>::default(), is_ok: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P359 { r#type: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, x__y: X::<2>::any(), is_ok: X::<1>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P359>(), &full, &v, &[false, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
pub struct P360 {
    #[opg(nullable, "text")]
    #[serde(default)]
    pub is_ok: V<0>,
    #[serde(skip_deserializing)]
    #[opg(optional, nullable)]
    pub second: V<1>,
    #[opg("text", integer)]
    #[serde(rename(serialize = "Ser242", deserialize = "De242"))]
    pub a1_b2: X<1>,
    #[opg(number)]
    #[serde(skip_deserializing)]
    pub f3_x: X<2>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    pub f4_x: X<3>,
    #[serde(rename = "re-N195")]
    #[opg(any, inline, nullable)]
    pub f5_x: V<2>,
}
fn p360() {
    tag("P360");
    let full = j(&P360 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let v = j(&P360 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: X::<1>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P360>(), &full, &v, &[true, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P361 {
    #[serde(rename(serialize = "Ser251", deserialize = "De251"))]
    #[opg(integer, inline, example = "e", format = "f")]
    pub a1_b2: X<1>,
    #[serde(skip_deserializing)]
    #[opg(boolean, inline, example = "e", format = "f")]
    pub r#fn: X<3>,
    #[opg(boolean, optional, "text")]
    #[serde(default)]
    pub first_one: X<3>,
    #[opg("text", boolean)]
    #[serde(skip_deserializing)]
    pub f3_x: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, inline)]
    pub f4_x: X<2>,
    #[opg(string, inline, "text")]
    pub f5_x: X<0>,
}
fn p361() {
    tag("P361");
    let full = j(&P361 { a1_b2: X::<1>::default(), r#fn: X::<3>::default(), first_one: X::<3>::default(), f3_x: X::<3>::default(), f4_x: X::<2>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P361 { a1_b2: X::<1>::any(), r#fn: X::<3>::any(), first_one: X::<3>::any(), f3_x: X::<3>::any(), f4_x: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P361>(), &full, &v, &[true, true, false, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P362 {
    #[opg("text", nullable, number)]
    pub first_one: X<2>,
    #[serde(rename = "Gone 455", skip_serializing_if = "gone")]
    #[opg(integer, inline, example = "e", format = "f")]
    pub _lead: X<1>,
    #[serde(rename = "re-N169")]
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    pub tail_: X<2>,
    #[serde(rename(serialize = "Ser247", deserialize = "De247"))]
    #[opg(integer, optional, "text")]
    pub f3_x: X<1>,
    #[serde(rename = "re-N178")]
    #[opg(nullable, inline, boolean)]
    pub f4_x: X<3>,
    #[opg(format = "f", example = "e", nullable, integer)]
    #[serde(skip_deserializing)]
    pub f5_x: X<1>,
}
fn p362() {
    tag("P362");
    let full = j(&P362 { first_one: X::<2>::default(), _lead: X::<1>::default(), tail_: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<3>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P362 { first_one: X::<2>::any(), _lead: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, tail_: X::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<3>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P362>(), &full, &v, &[true, false, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P363 {
    #[opg(inline, boolean)]
    #[serde(skip_deserializing)]
    pub tail_: X<3>,
    #[opg(boolean, inline, example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(boolean)]
    pub r#type: X<3>,
    #[serde(rename(serialize = "Ser243", deserialize = "De243"))]
    #[opg(integer, example = "e", format = "f")]
    pub f3_x: X<1>,
    #[opg(any, optional, example = "e", format = "f")]
    pub f4_x: V<1>,
    #[serde(default)]
    #[opg(inline, optional, integer)]
    pub f5_x: X<1>,
}
fn p363() {
    tag("P363");
    let full = j(&P363 { tail_: X::<3>::default(), deep_er_name: X::<3>::default(), r#type: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P363 { tail_: X::<3>::any(), deep_er_name: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, r#type: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P363>(), &full, &v, &[true, false, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P364 {
    #[opg(nullable, "text")]
    #[serde(rename = "re-N113")]
    pub r#type: V<0>,
    #[opg(integer, optional, nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: X<1>,
    #[opg("text", nullable, number)]
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: X<2>,
    #[opg(inline, boolean)]
    #[serde(rename(serialize = "Ser274", deserialize = "De274"))]
    pub f3_x: X<3>,
    #[serde(default)]
    #[opg(format = "f", example = "e", nullable, integer)]
    pub f4_x: X<1>,
    #[opg(string, inline, nullable)]
    pub f5_x: X<0>,
}
fn p364() {
    tag("P364");
    let full = j(&P364 { r#type: V::<0>::default(), x__y: X::<1>::default(), is_ok: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(2);
    let v = j(&P364 { r#type: V::<0>::any(), x__y: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, is_ok: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: X::<3>::any(), f4_x: X::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P364>(), &full, &v, &[true, false, false, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P365 {
    #[opg(number, nullable, example = "e", format = "f")]
    pub is_ok: X<2>,
    #[opg(boolean, optional, nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub second: X<3>,
    #[opg(format = "f", example = "e", "text", string)]
    #[serde(rename = "re-N134")]
    pub a1_b2: X<0>,
    #[opg(integer, inline, example = "e", format = "f")]
    #[serde(default)]
    pub f3_x: X<1>,
    #[opg(integer, nullable)]
    #[serde(rename = "re-N139")]
    pub f4_x: X<1>,
    #[serde(rename = "Gone 409", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub f5_x: V<2>,
}
fn p365() {
    tag("P365");
    let full = j(&P365 { is_ok: X::<2>::default(), second: X::<3>::default(), a1_b2: X::<0>::default(), f3_x: X::<1>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P365 { is_ok: X::<2>::any(), second: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, a1_b2: X::<0>::any(), f3_x: X::<1>::any(), f4_x: X::<1>::any(), f5_x: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P365>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P366 {
    #[opg(format = "f", example = "e", number)]
    #[serde(rename = "re-N158")]
    pub a1_b2: X<2>,
    #[opg(format = "f", example = "e", inline, any)]
    pub r#fn: V<1>,
    #[opg(any, "text")]
    pub first_one: V<2>,
    #[opg(format = "f", example = "e", "text", any)]
    pub f3_x: V<0>,
    #[opg(number, inline, "text")]
    #[serde(skip_deserializing)]
    pub f4_x: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline, optional, integer)]
    pub f5_x: X<1>,
}
fn p366() {
    tag("P366");
    let full = j(&P366 { a1_b2: X::<2>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P366 { a1_b2: X::<2>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any(), f5_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P366>(), &full, &v, &[true, true, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P367 {
    #[opg(integer, optional, "text")]
    #[serde(rename = "re-N145")]
    pub first_one: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(nullable, inline, boolean)]
    pub _lead: X<3>,
    #[opg(boolean, "text", example = "e", format = "f")]
    #[serde(default)]
    pub tail_: X<3>,
    #[serde(rename(serialize = "Ser241", deserialize = "De241"))]
    #[opg(integer, nullable)]
    pub f3_x: X<1>,
    #[serde(skip)]
    #[opg(inline)]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", "text", any)]
    #[serde(rename = "re-N202")]
    pub f5_x: V<2>,
}
fn p367() {
    tag("P367");
    let full = j(&P367 { first_one: X::<1>::default(), _lead: X::<3>::default(), tail_: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P367 { first_one: X::<1>::any(), _lead: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, tail_: X::<3>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P367>(), &full, &v, &[false, false, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P368 {
    #[serde(rename = "Gone 438", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", inline, string)]
    pub tail_: X<0>,
    #[serde(skip_deserializing)]
    #[opg(boolean, optional)]
    pub deep_er_name: X<3>,
    #[serde(rename = "re-N131")]
    #[opg(string, optional, example = "e", format = "f")]
    pub r#type: X<0>,
    #[serde(rename = "Gone 481", skip_serializing_if = "gone")]
    #[opg(boolean, example = "e", format = "f")]
    pub f3_x: X<3>,
    #[serde(default)]
    #[opg(string, inline)]
    pub f4_x: X<0>,
    #[opg("text", nullable, string)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<0>,
}
fn p368() {
    tag("P368");
    let full = j(&P368 { tail_: X::<0>::default(), deep_er_name: X::<3>::default(), r#type: X::<0>::default(), f3_x: X::<3>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(3);
    let v = j(&P368 { tail_: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, deep_er_name: X::<3>::any(), r#type: X::<0>::any(), f3_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f4_x: X::<0>::any(), f5_x: if gone == 2 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P368>(), &full, &v, &[false, false, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P369 {
    #[serde(rename = "re-N152")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    pub r#type: X<1>,
    #[serde(rename = "re-N118")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    pub x__y: V<1>,
    #[opg(nullable, inline, integer)]
    pub is_ok: X<1>,
    #[opg(boolean, nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: X<3>,
    #[serde(skip_deserializing)]
    #[opg(integer, nullable)]
    pub f4_x: X<1>,
    #[opg(format = "f", example = "e", "text", number)]
    #[serde(rename = "re-N168")]
    pub f5_x: X<2>,
}
fn p369() {
    tag("P369");
    let full = j(&P369 { r#type: X::<1>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default(), f5_x: X::<2>::default() });
    let gone = choose(1);
    let v = j(&P369 { r#type: X::<1>::any(), x__y: V::<1>::any(), is_ok: X::<1>::any(), f3_x: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, f4_x: X::<1>::any(), f5_x: X::<2>::any() });
    named_struct(ty::<P369>(), &full, &v, &[false, false, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P370 {
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename(serialize = "Ser271", deserialize = "De271"))]
    pub is_ok: X<2>,
    #[opg(boolean, nullable, "text")]
    pub second: X<3>,
    #[serde(rename = "Gone 494", skip_serializing_if = "gone")]
    #[opg(optional, any)]
    pub a1_b2: V<2>,
    #[serde(default)]
    #[opg(number, inline, "text")]
    pub f3_x: X<2>,
    #[opg(inline, optional, integer)]
    pub f4_x: X<1>,
    #[opg("text", optional, any)]
    pub f5_x: V<2>,
}
fn p370() {
    tag("P370");
    let full = j(&P370 { is_ok: X::<2>::default(), second: X::<3>::default(), a1_b2: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P370 { is_ok: X::<2>::any(), second: X::<3>::any(), a1_b2: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<2>::any(), f4_x: X::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P370>(), &full, &v, &[false, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P371 {
    #[opg(boolean, optional, "text")]
    #[serde(rename = "re-N179")]
    pub a1_b2: X<3>,
    #[opg(string)]
    #[serde(rename = "Gone 425", skip_serializing_if = "gone")]
    pub r#fn: X<0>,
    #[serde(default)]
    #[opg(string, nullable, example = "e", format = "f")]
    pub first_one: X<0>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    #[serde(rename(serialize = "Ser254", deserialize = "De254"))]
    pub f3_x: X<1>,
    #[opg(format = "f", example = "e", number)]
    pub f4_x: X<2>,
    #[serde(rename(serialize = "Ser226", deserialize = "De226"))]
    #[opg(format = "f", example = "e", string)]
    pub f5_x: X<0>,
}
fn p371() {
    tag("P371");
    let full = j(&P371 { a1_b2: X::<3>::default(), r#fn: X::<0>::default(), first_one: X::<0>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P371 { a1_b2: X::<3>::any(), r#fn: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, first_one: X::<0>::any(), f3_x: X::<1>::any(), f4_x: X::<2>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P371>(), &full, &v, &[false, false, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P372 {
    #[serde(rename(serialize = "Ser213", deserialize = "De213"))]
    #[opg(optional, "text")]
    pub first_one: V<0>,
    #[opg("text", boolean)]
    #[serde(rename(serialize = "Ser276", deserialize = "De276"))]
    pub _lead: X<3>,
    #[serde(rename(serialize = "Ser207", deserialize = "De207"))]
    #[opg(nullable)]
    pub tail_: V<2>,
    #[opg(integer, "text", example = "e", format = "f")]
    #[serde(default)]
    pub f3_x: X<1>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    #[serde(skip_deserializing)]
    pub f4_x: V<1>,
    #[opg(string, optional, inline)]
    #[serde(skip_deserializing)]
    pub f5_x: X<0>,
}
fn p372() {
    tag("P372");
    let full = j(&P372 { first_one: V::<0>::default(), _lead: X::<3>::default(), tail_: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let v = j(&P372 { first_one: V::<0>::any(), _lead: X::<3>::any(), tail_: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P372>(), &full, &v, &[true, false, true, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P373 {
    #[serde(rename(serialize = "Ser253", deserialize = "De253"))]
    #[opg(integer, "text", example = "e", format = "f")]
    pub tail_: X<1>,
    #[opg(optional, number)]
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: X<2>,
    #[opg(format = "f", example = "e", inline, number)]
    #[serde(skip_serializing_if = "gone")]
    pub r#type: X<2>,
    #[opg("text", optional, any)]
    #[serde(rename = "re-N196")]
    pub f3_x: V<0>,
    #[serde(skip_deserializing)]
    #[opg(boolean, "text", example = "e", format = "f")]
    pub f4_x: X<3>,
    #[opg(number, nullable, example = "e", format = "f")]
    #[serde(rename = "Gone 473", skip_serializing_if = "gone")]
    pub f5_x: X<2>,
}
fn p373() {
    tag("P373");
    let full = j(&P373 { tail_: X::<1>::default(), deep_er_name: X::<2>::default(), r#type: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<2>::default() });
    let gone = choose(3);
    let v = j(&P373 { tail_: X::<1>::any(), deep_er_name: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, r#type: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: if gone == 2 { X::<2>::maybe() } else { X::<2>::any() } });
    named_struct(ty::<P373>(), &full, &v, &[true, true, false, false, false, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P374 {
    #[opg(number, inline, "text")]
    pub r#type: X<2>,
    #[opg("text", optional, string)]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: X<0>,
    #[serde(rename = "re-N187")]
    #[opg(any)]
    pub is_ok: V<2>,
    #[opg(number, nullable, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser269", deserialize = "De269"))]
    pub f3_x: X<2>,
    #[opg(boolean, example = "e", format = "f")]
    #[serde(rename = "re-N175")]
    pub f4_x: X<3>,
    #[serde(rename(serialize = "Ser239", deserialize = "De239"))]
    #[opg(integer, optional)]
    pub f5_x: X<1>,
}
fn p374() {
    tag("P374");
    let full = j(&P374 { r#type: X::<2>::default(), x__y: X::<0>::default(), is_ok: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P374 { r#type: X::<2>::any(), x__y: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, is_ok: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P374>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P375 {
    #[opg(number, optional, example = "e", format = "f")]
    #[serde(rename = "Gone 471", skip_serializing_if = "gone")]
    pub is_ok: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, inline, nullable)]
    pub second: X<0>,
    #[opg(inline, optional)]
    #[serde(skip_deserializing)]
    pub a1_b2: V<2>,
    #[serde(rename = "re-N135")]
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f3_x: X<0>,
    #[serde(skip_deserializing)]
    #[opg(nullable, optional, string)]
    pub f4_x: X<0>,
    #[serde(default)]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    pub f5_x: X<3>,
}
fn p375() {
    tag("P375");
    let full = j(&P375 { is_ok: X::<2>::default(), second: X::<0>::default(), a1_b2: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<3>::default() });
    let gone = choose(2);
    let v = j(&P375 { is_ok: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, second: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, a1_b2: V::<2>::any(), f3_x: X::<0>::any(), f4_x: X::<0>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P375>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P376 {
    #[serde(skip_serializing_if = "gone")]
    #[opg("text", boolean)]
    pub a1_b2: X<3>,
    #[opg(nullable, inline)]
    #[serde(rename = "Gone 416", skip_serializing_if = "gone")]
    pub r#fn: V<1>,
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", "text", number)]
    pub first_one: X<2>,
    #[serde(rename(serialize = "Ser268", deserialize = "De268"))]
    #[opg(format = "f", example = "e", inline, number)]
    pub f3_x: X<2>,
    #[opg(string, inline, nullable)]
    #[serde(skip_deserializing)]
    pub f4_x: X<0>,
    #[serde(default)]
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f5_x: X<2>,
}
fn p376() {
    tag("P376");
    let full = j(&P376 { a1_b2: X::<3>::default(), r#fn: V::<1>::default(), first_one: X::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P376 { a1_b2: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, r#fn: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, first_one: X::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any(), f5_x: X::<2>::any() });
    named_struct(ty::<P376>(), &full, &v, &[false, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P377 {
    #[serde(rename = "Gone 466", skip_serializing_if = "gone")]
    #[opg(nullable, optional, number)]
    pub first_one: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg("text", inline, boolean)]
    pub _lead: X<3>,
    #[opg(inline, boolean)]
    pub tail_: X<3>,
    #[opg(nullable, inline)]
    #[serde(rename(serialize = "Ser212", deserialize = "De212"))]
    pub f3_x: V<0>,
    #[opg(integer, optional)]
    #[serde(skip_serializing_if = "gone")]
    pub f4_x: X<1>,
    #[opg(format = "f", example = "e", nullable)]
    #[serde(rename(serialize = "Ser218", deserialize = "De218"))]
    pub f5_x: V<2>,
}
fn p377() {
    tag("P377");
    let full = j(&P377 { first_one: X::<2>::default(), _lead: X::<3>::default(), tail_: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P377 { first_one: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, _lead: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, tail_: X::<3>::any(), f3_x: V::<0>::any(), f4_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P377>(), &full, &v, &[false, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
pub struct P378 {
    #[opg(format = "f", example = "e", inline, string)]
    #[serde(skip_serializing_if = "gone")]
    pub tail_: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg("text", integer)]
    pub deep_er_name: X<1>,
    #[opg(number, optional, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub r#type: X<2>,
    #[serde(rename(serialize = "Ser283", deserialize = "De283"))]
    #[opg(boolean, nullable, "text")]
    pub f3_x: X<3>,
    #[opg(format = "f", example = "e", any)]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", optional, boolean)]
    #[serde(rename = "Gone 488", skip_serializing_if = "gone")]
    pub f5_x: X<3>,
}
fn p378() {
    tag("P378");
    let full = j(&P378 { tail_: X::<0>::default(), deep_er_name: X::<1>::default(), r#type: X::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<3>::default() });
    let gone = choose(3);
    let v = j(&P378 { tail_: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, deep_er_name: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() }, r#type: X::<2>::any(), f3_x: X::<3>::any(), f4_x: V::<1>::any(), f5_x: if gone == 2 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P378>(), &full, &v, &[false, false, false, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P379 {
    #[opg("text", example = "e", format = "f")]
    pub r#type: V<0>,
    #[opg("text")]
    pub x__y: V<1>,
    #[serde(rename = "re-N146")]
    #[opg("text", inline, integer)]
    pub is_ok: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    pub f3_x: V<0>,
    #[serde(rename = "re-N165")]
    #[opg(number, optional, example = "e", format = "f")]
    pub f4_x: X<2>,
    #[serde(rename = "re-N203")]
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f5_x: V<2>,
}
fn p379() {
    tag("P379");
    let full = j(&P379 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P379 { r#type: V::<0>::any(), x__y: V::<1>::any(), is_ok: X::<1>::any(), f3_x: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: X::<2>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P379>(), &full, &v, &[true, true, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P380 {
    #[opg(string, optional, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub is_ok: X<0>,
    #[opg(string, "text")]
    #[serde(skip_deserializing)]
    pub second: X<0>,
    #[opg(format = "f", example = "e", "text", number)]
    pub a1_b2: X<2>,
    #[serde(skip_deserializing)]
    #[opg(optional, "text")]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 434", skip_serializing_if = "gone")]
    #[opg("text", optional, string)]
    pub f4_x: X<0>,
    #[opg(integer, optional)]
    #[serde(default)]
    pub f5_x: X<1>,
}
fn p380() {
    tag("P380");
    let full = j(&P380 { is_ok: X::<0>::default(), second: X::<0>::default(), a1_b2: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P380 { is_ok: X::<0>::any(), second: X::<0>::any(), a1_b2: X::<2>::any(), f3_x: V::<0>::any(), f4_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: X::<1>::any() });
    named_struct(ty::<P380>(), &full, &v, &[false, true, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P381 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", nullable)]
    pub a1_b2: V<0>,
    #[serde(skip_deserializing)]
    #[opg("text", optional, any)]
    pub r#fn: V<1>,
    #[serde(skip_deserializing)]
    #[opg(optional, number)]
    pub first_one: X<2>,
    #[serde(skip_deserializing)]
    #[opg(optional)]
    pub f3_x: V<0>,
    #[serde(default)]
    #[opg(inline, integer)]
    pub f4_x: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline, optional)]
    pub f5_x: V<2>,
}
fn p381() {
    tag("P381");
    let full = j(&P381 { a1_b2: V::<0>::default(), r#fn: V::<1>::default(), first_one: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P381 { a1_b2: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, r#fn: V::<1>::any(), first_one: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<1>::any(), f5_x: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P381>(), &full, &v, &[false, false, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P382 {
    #[serde(rename = "re-N138")]
    #[opg(inline, integer)]
    pub first_one: X<1>,
    #[serde(rename(serialize = "Ser249", deserialize = "De249"))]
    #[opg(integer, nullable, "text")]
    pub _lead: X<1>,
    #[serde(rename = "re-N140")]
    #[opg("text", integer)]
    pub tail_: X<1>,
    #[opg(nullable, optional, string)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: X<0>,
    #[opg(inline)]
    #[serde(rename(serialize = "Ser206", deserialize = "De206"))]
    pub f4_x: V<1>,
    #[serde(default)]
    #[opg(integer)]
    pub f5_x: X<1>,
}
fn p382() {
    tag("P382");
    let full = j(&P382 { first_one: X::<1>::default(), _lead: X::<1>::default(), tail_: X::<1>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P382 { first_one: X::<1>::any(), _lead: X::<1>::any(), tail_: X::<1>::any(), f3_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, f4_x: V::<1>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P382>(), &full, &v, &[true, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P383 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, inline, "text")]
    pub tail_: V<0>,
    #[serde(default)]
    #[opg(number, "text")]
    pub deep_er_name: X<2>,
    #[opg("text", inline)]
    #[serde(rename = "Gone 418", skip_serializing_if = "gone")]
    pub r#type: V<2>,
    #[opg(integer, example = "e", format = "f")]
    #[serde(default)]
    pub f3_x: X<1>,
    #[opg(number, optional, example = "e", format = "f")]
    pub f4_x: X<2>,
    #[serde(default)]
    #[opg(format = "f", example = "e", optional, boolean)]
    pub f5_x: X<3>,
}
fn p383() {
    tag("P383");
    let full = j(&P383 { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let gone = choose(2);
    let v = j(&P383 { tail_: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, deep_er_name: X::<2>::any(), r#type: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<1>::any(), f4_x: X::<2>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P383>(), &full, &v, &[false, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P384 {
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    #[serde(rename(serialize = "Ser220", deserialize = "De220"))]
    pub r#type: V<0>,
    #[opg(nullable, string)]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: X<0>,
    #[serde(skip_deserializing)]
    #[opg("text", example = "e", format = "f")]
    pub is_ok: V<2>,
    #[serde(rename = "Gone 464", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", number)]
    pub f3_x: X<2>,
    #[opg(inline, optional, boolean)]
    #[serde(rename = "Gone 482", skip_serializing_if = "gone")]
    pub f4_x: X<3>,
    #[serde(rename = "re-N153")]
    #[opg(number)]
    pub f5_x: X<2>,
}
fn p384() {
    tag("P384");
    let full = j(&P384 { r#type: V::<0>::default(), x__y: X::<0>::default(), is_ok: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default(), f5_x: X::<2>::default() });
    let gone = choose(3);
    let v = j(&P384 { r#type: V::<0>::any(), x__y: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, is_ok: V::<2>::any(), f3_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: if gone == 2 { X::<3>::maybe() } else { X::<3>::any() }, f5_x: X::<2>::any() });
    named_struct(ty::<P384>(), &full, &v, &[false, false, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P385 {
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename = "Gone 441", skip_serializing_if = "gone")]
    pub is_ok: X<0>,
    #[serde(rename(serialize = "Ser266", deserialize = "De266"))]
    #[opg("text", nullable, number)]
    pub second: X<2>,
    #[opg("text", optional, number)]
    #[serde(default)]
    pub a1_b2: X<2>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    pub f3_x: V<0>,
    #[serde(rename(serialize = "Ser270", deserialize = "De270"))]
    #[opg(format = "f", example = "e", "text", number)]
    pub f4_x: X<2>,
    #[opg("text", inline, boolean)]
    #[serde(rename = "Gone 486", skip_serializing_if = "gone")]
    pub f5_x: X<3>,
}
fn p385() {
    tag("P385");
    let full = j(&P385 { is_ok: X::<0>::default(), second: X::<2>::default(), a1_b2: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let gone = choose(2);
    let v = j(&P385 { is_ok: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, second: X::<2>::any(), a1_b2: X::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any(), f5_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P385>(), &full, &v, &[false, true, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P386 {
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", inline, string)]
    pub a1_b2: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    pub r#fn: X<1>,
    #[opg(number, inline, nullable)]
    #[serde(rename(serialize = "Ser263", deserialize = "De263"))]
    pub first_one: X<2>,
    #[opg(nullable, number)]
    pub f3_x: X<2>,
    #[opg(nullable, number)]
    #[serde(rename = "re-N156")]
    pub f4_x: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline, integer)]
    pub f5_x: X<1>,
}
fn p386() {
    tag("P386");
    let full = j(&P386 { a1_b2: X::<0>::default(), r#fn: X::<1>::default(), first_one: X::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P386 { a1_b2: X::<0>::any(), r#fn: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, first_one: X::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<2>::any(), f5_x: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P386>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P387 {
    #[serde(skip_deserializing)]
    #[opg(nullable, number)]
    pub first_one: X<2>,
    #[opg(nullable, inline, boolean)]
    pub _lead: X<3>,
    #[opg(any, optional, inline)]
    pub tail_: V<2>,
    #[opg(inline, integer)]
    #[serde(skip_deserializing)]
    pub f3_x: X<1>,
    #[opg(any, inline, "text")]
    #[serde(rename = "Gone 503", skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", any)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: V<2>,
}
fn p387() {
    tag("P387");
    let full = j(&P387 { first_one: X::<2>::default(), _lead: X::<3>::default(), tail_: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P387 { first_one: X::<2>::any(), _lead: X::<3>::any(), tail_: V::<2>::any(), f3_x: X::<1>::any(), f4_x: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P387>(), &full, &v, &[true, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P388 {
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<0>,
    #[serde(rename(serialize = "Ser256", deserialize = "De256"))]
    #[opg(optional, number)]
    pub deep_er_name: X<2>,
    #[opg(any, inline, "text")]
    #[serde(rename(serialize = "Ser299", deserialize = "De299"))]
    pub r#type: V<2>,
    #[serde(default)]
    #[opg(string, inline, nullable)]
    pub f3_x: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, "text")]
    pub f4_x: X<0>,
    #[serde(rename = "Gone 479", skip_serializing_if = "gone")]
    #[opg(boolean, nullable)]
    pub f5_x: X<3>,
}
fn p388() {
    tag("P388");
    let full = j(&P388 { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<3>::default() });
    let gone = choose(3);
    let v = j(&P388 { tail_: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, deep_er_name: X::<2>::any(), r#type: V::<2>::any(), f3_x: X::<0>::any(), f4_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: if gone == 2 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P388>(), &full, &v, &[false, false, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P389 {
    #[opg(boolean, inline, example = "e", format = "f")]
    #[serde(rename = "re-N183")]
    pub r#type: X<3>,
    #[serde(rename = "re-N148")]
    #[opg(format = "f", example = "e", optional, integer)]
    pub x__y: X<1>,
    #[opg("text", inline, integer)]
    #[serde(rename = "Gone 452", skip_serializing_if = "gone")]
    pub is_ok: X<1>,
    #[opg(nullable, "text")]
    pub f3_x: V<0>,
    #[opg("text", integer)]
    pub f4_x: X<1>,
    #[opg("text", nullable, string)]
    #[serde(default)]
    pub f5_x: X<0>,
}
fn p389() {
    tag("P389");
    let full = j(&P389 { r#type: X::<3>::default(), x__y: X::<1>::default(), is_ok: X::<1>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P389 { r#type: X::<3>::any(), x__y: X::<1>::any(), is_ok: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f3_x: V::<0>::any(), f4_x: X::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P389>(), &full, &v, &[true, false, false, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P390 {
    #[opg("text")]
    #[serde(rename = "Gone 412", skip_serializing_if = "gone")]
    pub is_ok: V<0>,
    #[serde(rename = "Gone 430", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", string)]
    pub second: X<0>,
    #[opg(format = "f", example = "e", optional, integer)]
    #[serde(skip_deserializing)]
    pub a1_b2: X<1>,
    #[serde(rename = "Gone 468", skip_serializing_if = "gone")]
    #[opg("text", optional, number)]
    pub f3_x: X<2>,
    #[opg(format = "f", example = "e", string)]
    #[serde(rename = "re-N124")]
    pub f4_x: X<0>,
    #[opg("text", inline)]
    pub f5_x: V<2>,
}
fn p390() {
    tag("P390");
    let full = j(&P390 { is_ok: V::<0>::default(), second: X::<0>::default(), a1_b2: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P390 { is_ok: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, second: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, a1_b2: X::<1>::any(), f3_x: if gone == 2 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: X::<0>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P390>(), &full, &v, &[true, false, false, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P391 {
    #[opg("text", nullable, number)]
    #[serde(default)]
    pub a1_b2: X<2>,
    #[serde(skip_deserializing)]
    #[opg(nullable)]
    pub r#fn: V<1>,
    #[opg(integer, inline, example = "e", format = "f")]
    pub first_one: X<1>,
    #[opg(number, inline, nullable)]
    #[serde(skip_deserializing)]
    pub f3_x: X<2>,
    #[opg(inline, optional, boolean)]
    #[serde(rename(serialize = "Ser278", deserialize = "De278"))]
    pub f4_x: X<3>,
    #[opg(nullable, any)]
    #[serde(default)]
    pub f5_x: V<2>,
}
fn p391() {
    tag("P391");
    let full = j(&P391 { a1_b2: X::<2>::default(), r#fn: V::<1>::default(), first_one: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let v = j(&P391 { a1_b2: X::<2>::any(), r#fn: V::<1>::any(), first_one: X::<1>::any(), f3_x: X::<2>::any(), f4_x: X::<3>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P391>(), &full, &v, &[true, true, true, true, true, false, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P392 {
    #[opg(nullable, optional, any)]
    #[serde(default)]
    pub first_one: V<0>,
    #[serde(rename = "re-N125")]
    #[opg(string, optional, inline)]
    pub _lead: X<0>,
    #[serde(rename = "re-N155")]
    #[opg(number, inline)]
    pub tail_: X<2>,
    #[opg(nullable, inline, integer)]
    #[serde(skip_deserializing)]
    pub f3_x: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, optional, example = "e", format = "f")]
    pub f4_x: X<0>,
    #[opg(any, inline, "text")]
    pub f5_x: V<2>,
}
fn p392() {
    tag("P392");
    let full = j(&P392 { first_one: V::<0>::default(), _lead: X::<0>::default(), tail_: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P392 { first_one: V::<0>::any(), _lead: X::<0>::any(), tail_: X::<2>::any(), f3_x: X::<1>::any(), f4_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P392>(), &full, &v, &[false, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P393 {
    #[serde(rename = "Gone 502", skip_serializing_if = "gone")]
    #[opg("text", optional, any)]
    pub tail_: V<0>,
    #[serde(default)]
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    pub deep_er_name: X<0>,
    #[opg("text", example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub r#type: V<2>,
    #[opg(boolean)]
    #[serde(rename = "Gone 476", skip_serializing_if = "gone")]
    pub f3_x: X<3>,
    #[serde(default)]
    #[opg(format = "f", example = "e", optional, integer)]
    pub f4_x: X<1>,
    #[serde(rename = "Gone 498", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", any)]
    pub f5_x: V<2>,
}
fn p393() {
    tag("P393");
    let full = j(&P393 { tail_: V::<0>::default(), deep_er_name: X::<0>::default(), r#type: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(4);
    let v = j(&P393 { tail_: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, deep_er_name: X::<0>::any(), r#type: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: if gone == 2 { X::<3>::maybe() } else { X::<3>::any() }, f4_x: X::<1>::any(), f5_x: if gone == 3 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P393>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P394 {
    #[serde(rename(serialize = "Ser294", deserialize = "De294"))]
    #[opg(format = "f", example = "e", any)]
    pub r#type: V<0>,
    #[serde(skip_deserializing)]
    #[opg(integer, example = "e", format = "f")]
    pub x__y: X<1>,
    #[opg(string, inline, nullable)]
    #[serde(rename(serialize = "Ser229", deserialize = "De229"))]
    pub is_ok: X<0>,
    #[opg(integer, nullable, "text")]
    pub f3_x: X<1>,
    #[opg(integer, optional, nullable)]
    #[serde(rename = "re-N143")]
    pub f4_x: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any)]
    pub f5_x: V<2>,
}
fn p394() {
    tag("P394");
    let full = j(&P394 { r#type: V::<0>::default(), x__y: X::<1>::default(), is_ok: X::<0>::default(), f3_x: X::<1>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P394 { r#type: V::<0>::any(), x__y: X::<1>::any(), is_ok: X::<0>::any(), f3_x: X::<1>::any(), f4_x: X::<1>::any(), f5_x: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P394>(), &full, &v, &[true, true, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P395 {
    #[serde(rename = "re-N184")]
    #[opg(format = "f", example = "e", nullable, boolean)]
    pub is_ok: X<3>,
    #[opg(nullable, optional, string)]
    #[serde(rename = "re-N126")]
    pub second: X<0>,
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    pub a1_b2: V<2>,
    #[serde(rename = "re-N157")]
    #[opg(number, "text")]
    pub f3_x: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg("text", inline, integer)]
    pub f4_x: X<1>,
    #[serde(default)]
    #[opg(string)]
    pub f5_x: X<0>,
}
fn p395() {
    tag("P395");
    let full = j(&P395 { is_ok: X::<3>::default(), second: X::<0>::default(), a1_b2: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P395 { is_ok: X::<3>::any(), second: X::<0>::any(), a1_b2: V::<2>::any(), f3_x: X::<2>::any(), f4_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P395>(), &full, &v, &[true, false, false, true, false, true]);
}
#[derive(Serialize, OpgModel)]
pub struct P396 {
    #[serde(default)]
    #[opg(inline, optional, boolean)]
    pub a1_b2: X<3>,
    #[serde(default)]
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    pub r#fn: V<1>,
    #[serde(rename = "re-N182")]
    #[opg(format = "f", example = "e", optional, boolean)]
    pub first_one: X<3>,
    #[opg(inline, integer)]
    #[serde(rename(serialize = "Ser240", deserialize = "De240"))]
    pub f3_x: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number)]
    pub f4_x: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg("text", inline)]
    pub f5_x: V<2>,
}
fn p396() {
    tag("P396");
    let full = j(&P396 { a1_b2: X::<3>::default(), r#fn: V::<1>::default(), first_one: X::<3>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P396 { a1_b2: X::<3>::any(), r#fn: V::<1>::any(), first_one: X::<3>::any(), f3_x: X::<1>::any(), f4_x: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P396>(), &full, &v, &[false, false, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P397 {
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(skip_deserializing)]
    pub first_one: X<0>,
    #[opg(inline, example = "e", format = "f")]
    #[serde(default)]
    pub _lead: V<1>,
    #[opg("text", nullable, any)]
    #[serde(default)]
    pub tail_: V<2>,
    #[opg(string, optional, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser233", deserialize = "De233"))]
    pub f3_x: X<0>,
    #[opg(string, inline)]
    #[serde(rename = "Gone 427", skip_serializing_if = "gone")]
    pub f4_x: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, optional, inline)]
    pub f5_x: X<2>,
}
fn p397() {
    tag("P397");
    let full = j(&P397 { first_one: X::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P397 { first_one: X::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any(), f3_x: X::<0>::any(), f4_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() } });
    named_struct(ty::<P397>(), &full, &v, &[false, true, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P398 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, nullable, example = "e", format = "f")]
    pub tail_: X<0>,
    #[opg(format = "f", example = "e", "text", string)]
    pub deep_er_name: X<0>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    #[serde(skip_deserializing)]
    pub r#type: X<1>,
    #[opg(nullable, optional, number)]
    #[serde(rename = "re-N160")]
    pub f3_x: X<2>,
    #[opg(format = "f", example = "e", inline, any)]
    #[serde(rename = "re-N200")]
    pub f4_x: V<1>,
    #[serde(default)]
    #[opg(any, inline)]
    pub f5_x: V<2>,
}
fn p398() {
    tag("P398");
    let full = j(&P398 { tail_: X::<0>::default(), deep_er_name: X::<0>::default(), r#type: X::<1>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P398 { tail_: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, deep_er_name: X::<0>::any(), r#type: X::<1>::any(), f3_x: X::<2>::any(), f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P398>(), &full, &v, &[false, true, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P399 {
    #[serde(skip_deserializing)]
    #[opg(boolean, example = "e", format = "f")]
    pub r#type: X<3>,
    #[opg(format = "f", example = "e", any)]
    #[serde(default)]
    pub x__y: V<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(inline, optional, boolean)]
    pub is_ok: X<3>,
    #[opg(inline)]
    #[serde(skip_deserializing)]
    pub f3_x: V<0>,
    #[opg(inline, example = "e", format = "f")]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", "text", number)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<2>,
}
fn p399() {
    tag("P399");
    let full = j(&P399 { r#type: X::<3>::default(), x__y: V::<1>::default(), is_ok: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P399 { r#type: X::<3>::any(), x__y: V::<1>::any(), is_ok: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: V::<0>::any(), f4_x: V::<1>::any(), f5_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() } });
    named_struct(ty::<P399>(), &full, &v, &[true, true, false, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P400 {
    #[opg(example = "e", format = "f")]
    #[serde(default)]
    pub is_ok: V<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, inline, "text")]
    pub second: X<0>,
    #[serde(rename = "re-N106")]
    #[opg("text")]
    pub a1_b2: V<2>,
    #[opg(number)]
    pub f3_x: X<2>,
    #[serde(rename = "re-N161")]
    #[opg(number, inline, nullable)]
    pub f4_x: X<2>,
    #[opg(inline, optional, integer)]
    #[serde(rename(serialize = "Ser244", deserialize = "De244"))]
    pub f5_x: X<1>,
}
fn p400() {
    tag("P400");
    let full = j(&P400 { is_ok: V::<0>::default(), second: X::<0>::default(), a1_b2: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P400 { is_ok: V::<0>::any(), second: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, a1_b2: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<2>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P400>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P401 {
    #[serde(rename = "re-N129")]
    #[opg(string, inline, "text")]
    pub a1_b2: X<0>,
    #[serde(rename = "Gone 411", skip_serializing_if = "gone")]
    #[opg(nullable)]
    pub r#fn: V<1>,
    #[serde(rename = "re-N150")]
    #[opg(format = "f", example = "e", nullable, integer)]
    pub first_one: X<1>,
    #[serde(rename(serialize = "Ser277", deserialize = "De277"))]
    #[opg(boolean, example = "e", format = "f")]
    pub f3_x: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, optional, inline)]
    pub f4_x: V<1>,
    #[serde(rename(serialize = "Ser222", deserialize = "De222"))]
    #[opg(optional, string)]
    pub f5_x: X<0>,
}
fn p401() {
    tag("P401");
    let full = j(&P401 { a1_b2: X::<0>::default(), r#fn: V::<1>::default(), first_one: X::<1>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(2);
    let v = j(&P401 { a1_b2: X::<0>::any(), r#fn: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, first_one: X::<1>::any(), f3_x: X::<3>::any(), f4_x: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P401>(), &full, &v, &[true, false, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P402 {
    #[opg(optional, number)]
    pub first_one: X<2>,
    #[opg(boolean, inline, example = "e", format = "f")]
    pub _lead: X<3>,
    #[serde(skip_deserializing)]
    #[opg(nullable, optional, number)]
    pub tail_: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(nullable, inline, integer)]
    pub f3_x: X<1>,
    #[opg(string, inline, nullable)]
    #[serde(rename = "Gone 433", skip_serializing_if = "gone")]
    pub f4_x: X<0>,
    #[opg(format = "f", example = "e", "text", string)]
    #[serde(default)]
    pub f5_x: X<0>,
}
fn p402() {
    tag("P402");
    let full = j(&P402 { first_one: X::<2>::default(), _lead: X::<3>::default(), tail_: X::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(2);
    let v = j(&P402 { first_one: X::<2>::any(), _lead: X::<3>::any(), tail_: X::<2>::any(), f3_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P402>(), &full, &v, &[false, true, false, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P403 {
    #[opg(number, inline, nullable)]
    pub tail_: X<2>,
    #[opg(format = "f", example = "e", nullable, boolean)]
    pub deep_er_name: X<3>,
    #[serde(rename(serialize = "Ser215", deserialize = "De215"))]
    #[opg(nullable, "text")]
    pub r#type: V<2>,
    #[opg(nullable, optional, any)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: V<0>,
    #[opg(nullable, string)]
    #[serde(rename = "re-N122")]
    pub f4_x: X<0>,
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", "text", any)]
    pub f5_x: V<2>,
}
fn p403() {
    tag("P403");
    let full = j(&P403 { tail_: X::<2>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P403 { tail_: X::<2>::any(), deep_er_name: X::<3>::any(), r#type: V::<2>::any(), f3_x: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: X::<0>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P403>(), &full, &v, &[true, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P404 {
    #[serde(rename = "Gone 408", skip_serializing_if = "gone")]
    pub r#type: V<0>,
    #[opg(boolean, nullable, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: X<3>,
    #[serde(rename(serialize = "Ser211", deserialize = "De211"))]
    #[opg(optional, nullable)]
    pub is_ok: V<2>,
    #[opg(format = "f", example = "e", optional, integer)]
    pub f3_x: X<1>,
    #[opg(optional, nullable)]
    pub f4_x: V<1>,
    #[opg(integer, nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<1>,
}
fn p404() {
    tag("P404");
    let full = j(&P404 { r#type: V::<0>::default(), x__y: X::<3>::default(), is_ok: V::<2>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(3);
    let v = j(&P404 { r#type: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, x__y: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, is_ok: V::<2>::any(), f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P404>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P405 {
    #[serde(rename = "Gone 417", skip_serializing_if = "gone")]
    #[opg(optional, "text")]
    pub is_ok: V<0>,
    #[opg(inline, optional)]
    pub second: V<1>,
    #[opg(string, "text")]
    #[serde(rename = "Gone 429", skip_serializing_if = "gone")]
    pub a1_b2: X<0>,
    #[opg(string, optional, inline)]
    pub f3_x: X<0>,
    #[opg(number, "text")]
    pub f4_x: X<2>,
    #[opg(integer, example = "e", format = "f")]
    #[serde(rename = "re-N141")]
    pub f5_x: X<1>,
}
fn p405() {
    tag("P405");
    let full = j(&P405 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P405 { is_ok: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, second: V::<1>::any(), a1_b2: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f3_x: X::<0>::any(), f4_x: X::<2>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P405>(), &full, &v, &[false, false, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P406 {
    #[opg(any, optional, inline)]
    #[serde(skip_deserializing)]
    pub a1_b2: V<0>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    #[serde(rename = "Gone 458", skip_serializing_if = "gone")]
    pub r#fn: X<1>,
    #[opg(any, "text")]
    #[serde(rename = "Gone 497", skip_serializing_if = "gone")]
    pub first_one: V<2>,
    #[serde(skip)]
    #[opg("text", nullable)]
    pub f3_x: V<0>,
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename = "Gone 475", skip_serializing_if = "gone")]
    pub f4_x: X<2>,
    #[serde(rename = "re-N186")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    pub f5_x: X<3>,
}
fn p406() {
    tag("P406");
    let full = j(&P406 { a1_b2: V::<0>::default(), r#fn: X::<1>::default(), first_one: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let gone = choose(3);
    let v = j(&P406 { a1_b2: V::<0>::any(), r#fn: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, first_one: if gone == 1 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: V::<0>::any(), f4_x: if gone == 2 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: X::<3>::any() });
    named_struct(ty::<P406>(), &full, &v, &[false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P407 {
    #[serde(rename = "Gone 453", skip_serializing_if = "gone")]
    #[opg(integer, nullable, "text")]
    pub first_one: X<1>,
    #[opg(integer, optional, nullable)]
    pub _lead: X<1>,
    #[opg(any)]
    #[serde(rename(serialize = "Ser289", deserialize = "De289"))]
    pub tail_: V<2>,
    #[serde(rename = "re-N114")]
    #[opg(format = "f", example = "e", optional)]
    pub f3_x: V<0>,
    #[serde(rename(serialize = "Ser281", deserialize = "De281"))]
    #[opg(boolean, optional, "text")]
    pub f4_x: X<3>,
    #[serde(rename(serialize = "Ser292", deserialize = "De292"))]
    #[opg(nullable, any)]
    pub f5_x: V<2>,
}
fn p407() {
    tag("P407");
    let full = j(&P407 { first_one: X::<1>::default(), _lead: X::<1>::default(), tail_: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P407 { first_one: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, _lead: X::<1>::any(), tail_: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P407>(), &full, &v, &[false, false, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P408 {
    #[opg(integer, example = "e", format = "f")]
    pub tail_: X<1>,
    #[opg(format = "f", example = "e", nullable, boolean)]
    #[serde(rename = "Gone 490", skip_serializing_if = "gone")]
    pub deep_er_name: X<3>,
    #[serde(rename(serialize = "Ser300", deserialize = "De300"))]
    #[opg("text", nullable, any)]
    pub r#type: V<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(nullable, inline)]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 421", skip_serializing_if = "gone")]
    #[opg(inline, example = "e", format = "f")]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", nullable)]
    #[serde(rename = "Gone 422", skip_serializing_if = "gone")]
    pub f5_x: V<2>,
}
fn p408() {
    tag("P408");
    let full = j(&P408 { tail_: X::<1>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(4);
    let v = j(&P408 { tail_: X::<1>::any(), deep_er_name: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, r#type: V::<2>::any(), f3_x: if gone == 1 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: if gone == 2 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: if gone == 3 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P408>(), &full, &v, &[true, true, false, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P409 {
    #[serde(skip_serializing)]
    #[opg("text", nullable)]
    pub r#type: V<0>,
    #[opg(boolean, optional, nullable)]
    pub x__y: X<3>,
    #[serde(skip_deserializing)]
    #[opg(nullable, string)]
    pub is_ok: X<0>,
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename = "Gone 509", skip_serializing_if = "gone")]
    pub f3_x: V<0>,
    #[opg(integer, nullable)]
    pub f4_x: X<1>,
    #[opg("text")]
    #[serde(rename(serialize = "Ser208", deserialize = "De208"))]
    pub f5_x: V<2>,
}
fn p409() {
    tag("P409");
    let full = j(&P409 { r#type: V::<0>::default(), x__y: X::<3>::default(), is_ok: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P409 { r#type: V::<0>::any(), x__y: X::<3>::any(), is_ok: X::<0>::any(), f3_x: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: X::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P409>(), &full, &v, &[true, false, true, false, true, true]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P410 {
    #[opg(string, optional, example = "e", format = "f")]
    #[serde(rename = "Gone 437", skip_serializing_if = "gone")]
    pub is_ok: X<0>,
    #[serde(default)]
    #[opg(string, inline, "text")]
    pub second: X<0>,
    #[opg(inline, boolean)]
    #[serde(rename = "Gone 478", skip_serializing_if = "gone")]
    pub a1_b2: X<3>,
    #[opg(nullable, any)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: V<0>,
    #[opg("text", inline, boolean)]
    #[serde(rename(serialize = "Ser282", deserialize = "De282"))]
    pub f4_x: X<3>,
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(skip_deserializing)]
    pub f5_x: X<2>,
}
fn p410() {
    tag("P410");
    let full = j(&P410 { is_ok: X::<0>::default(), second: X::<0>::default(), a1_b2: X::<3>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<2>::default() });
    let gone = choose(3);
    let v = j(&P410 { is_ok: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, second: X::<0>::any(), a1_b2: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: if gone == 2 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: X::<3>::any(), f5_x: X::<2>::any() });
    named_struct(ty::<P410>(), &full, &v, &[false, true, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P411 {
    #[serde(rename = "Gone 457", skip_serializing_if = "gone")]
    #[opg(integer, "text", example = "e", format = "f")]
    pub a1_b2: X<1>,
    #[opg(format = "f", example = "e", optional, integer)]
    #[serde(rename(serialize = "Ser250", deserialize = "De250"))]
    pub r#fn: X<1>,
    #[opg("text", optional, number)]
    #[serde(skip_serializing_if = "gone")]
    pub first_one: X<2>,
    #[opg(any, inline)]
    #[serde(rename = "Gone 495", skip_serializing_if = "gone")]
    pub f3_x: V<0>,
    #[opg(nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[serde(rename = "Gone 440", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", "text", string)]
    pub f5_x: X<0>,
}
fn p411() {
    tag("P411");
    let full = j(&P411 { a1_b2: X::<1>::default(), r#fn: X::<1>::default(), first_one: X::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(5);
    let v = j(&P411 { a1_b2: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, r#fn: X::<1>::any(), first_one: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: if gone == 2 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: if gone == 3 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: if gone == 4 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P411>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P412 {
    #[serde(default)]
    #[opg(string, optional, example = "e", format = "f")]
    pub first_one: X<0>,
    #[opg(nullable, optional, number)]
    pub _lead: X<2>,
    #[opg(string, inline)]
    #[serde(skip_deserializing)]
    pub tail_: X<0>,
    #[opg("text", optional, string)]
    #[serde(default)]
    pub f3_x: X<0>,
    #[opg(optional, any)]
    #[serde(rename = "re-N188")]
    pub f4_x: V<1>,
    #[opg("text", nullable, string)]
    #[serde(rename = "re-N130")]
    pub f5_x: X<0>,
}
fn p412() {
    tag("P412");
    let full = j(&P412 { first_one: X::<0>::default(), _lead: X::<2>::default(), tail_: X::<0>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let v = j(&P412 { first_one: X::<0>::any(), _lead: X::<2>::any(), tail_: X::<0>::any(), f3_x: X::<0>::any(), f4_x: V::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P412>(), &full, &v, &[false, false, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P413 {
    #[opg(integer, nullable)]
    #[serde(default)]
    pub tail_: X<1>,
    #[opg(optional)]
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: V<1>,
    #[serde(rename = "re-N170")]
    #[opg(boolean)]
    pub r#type: X<3>,
    #[serde(skip)]
    #[opg(optional)]
    pub f3_x: V<0>,
    #[serde(skip_serializing)]
    #[opg(any, optional)]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", optional, integer)]
    #[serde(rename = "Gone 454", skip_serializing_if = "gone")]
    pub f5_x: X<1>,
}
fn p413() {
    tag("P413");
    let full = j(&P413 { tail_: X::<1>::default(), deep_er_name: V::<1>::default(), r#type: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P413 { tail_: X::<1>::any(), deep_er_name: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, r#type: X::<3>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any(), f5_x: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P413>(), &full, &v, &[true, false, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct P414 {
    #[serde(default)]
    #[opg(number, optional, example = "e", format = "f")]
    pub r#type: X<2>,
    #[opg(boolean, optional)]
    #[serde(default)]
    pub x__y: X<3>,
    #[opg(optional, any)]
    pub is_ok: V<2>,
    #[opg(boolean)]
    pub f3_x: X<3>,
    #[opg(integer, optional, "text")]
    pub f4_x: X<1>,
    #[opg(nullable, string)]
    pub f5_x: X<0>,
}
fn p414() {
    tag("P414");
    let full = j(&P414 { r#type: X::<2>::default(), x__y: X::<3>::default(), is_ok: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default(), f5_x: X::<0>::default() });
    let v = j(&P414 { r#type: X::<2>::any(), x__y: X::<3>::any(), is_ok: V::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P414>(), &full, &v, &[false, false, false, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P415 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, nullable, example = "e", format = "f")]
    pub is_ok: X<2>,
    #[opg(boolean, nullable)]
    #[serde(default)]
    pub second: X<3>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub a1_b2: V<2>,
    #[serde(skip_deserializing)]
    #[opg(nullable, optional, any)]
    pub f3_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, inline)]
    pub f4_x: V<1>,
    #[serde(skip_deserializing)]
    #[opg(integer, optional, "text")]
    pub f5_x: X<1>,
}
fn p415() {
    tag("P415");
    let full = j(&P415 { is_ok: X::<2>::default(), second: X::<3>::default(), a1_b2: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P415 { is_ok: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, second: X::<3>::any(), a1_b2: V::<2>::any(), f3_x: V::<0>::any(), f4_x: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<1>::any() });
    named_struct(ty::<P415>(), &full, &v, &[false, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P416 {
    #[serde(rename(serialize = "Ser273", deserialize = "De273"))]
    #[opg(boolean, optional)]
    pub a1_b2: X<3>,
    #[serde(skip_deserializing)]
    #[opg(inline, example = "e", format = "f")]
    pub r#fn: V<1>,
    #[opg(nullable, inline, integer)]
    #[serde(rename = "Gone 450", skip_serializing_if = "gone")]
    pub first_one: X<1>,
    #[serde(rename = "re-N176")]
    #[opg(inline, optional, boolean)]
    pub f3_x: X<3>,
    #[opg(nullable, inline, boolean)]
    #[serde(rename(serialize = "Ser280", deserialize = "De280"))]
    pub f4_x: X<3>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    #[serde(skip_deserializing)]
    pub f5_x: X<3>,
}
fn p416() {
    tag("P416");
    let full = j(&P416 { a1_b2: X::<3>::default(), r#fn: V::<1>::default(), first_one: X::<1>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default(), f5_x: X::<3>::default() });
    let gone = choose(1);
    let v = j(&P416 { a1_b2: X::<3>::any(), r#fn: V::<1>::any(), first_one: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f3_x: X::<3>::any(), f4_x: X::<3>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P416>(), &full, &v, &[false, true, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P417 {
    #[serde(rename = "Gone 428", skip_serializing_if = "gone")]
    #[opg(nullable, string)]
    pub first_one: X<0>,
    #[opg(integer, "text", example = "e", format = "f")]
    pub _lead: X<1>,
    #[opg(nullable, inline, boolean)]
    #[serde(rename = "Gone 484", skip_serializing_if = "gone")]
    pub tail_: X<3>,
    #[serde(rename = "re-N136")]
    #[opg(integer)]
    pub f3_x: X<1>,
    #[opg(optional, nullable)]
    #[serde(rename = "re-N109")]
    pub f4_x: V<1>,
    #[serde(rename(serialize = "Ser219", deserialize = "De219"))]
    #[opg("text", example = "e", format = "f")]
    pub f5_x: V<2>,
}
fn p417() {
    tag("P417");
    let full = j(&P417 { first_one: X::<0>::default(), _lead: X::<1>::default(), tail_: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P417 { first_one: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, _lead: X::<1>::any(), tail_: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P417>(), &full, &v, &[false, true, false, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P418 {
    #[opg(boolean, nullable)]
    #[serde(rename = "re-N173")]
    pub tail_: X<3>,
    #[opg(boolean, optional)]
    pub deep_er_name: X<3>,
    #[opg("text", optional, any)]
    #[serde(skip_serializing_if = "gone")]
    pub r#type: V<2>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    #[serde(rename(serialize = "Ser288", deserialize = "De288"))]
    pub f3_x: X<3>,
    #[serde(rename = "Gone 415", skip_serializing_if = "gone")]
    #[opg(optional, nullable)]
    pub f4_x: V<1>,
    #[serde(skip_deserializing)]
    #[opg("text", optional, number)]
    pub f5_x: X<2>,
}
fn p418() {
    tag("P418");
    let full = j(&P418 { tail_: X::<3>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<2>::default() });
    let gone = choose(2);
    let v = j(&P418 { tail_: X::<3>::any(), deep_er_name: X::<3>::any(), r#type: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<3>::any(), f4_x: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<2>::any() });
    named_struct(ty::<P418>(), &full, &v, &[true, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P419 {
    #[opg(string, nullable, example = "e", format = "f")]
    #[serde(rename = "Gone 439", skip_serializing_if = "gone")]
    pub r#type: X<0>,
    #[serde(rename = "Gone 489", skip_serializing_if = "gone")]
    #[opg(boolean, inline, example = "e", format = "f")]
    pub x__y: X<3>,
    #[opg(format = "f", example = "e", optional, boolean)]
    pub is_ok: X<3>,
    #[opg(format = "f", example = "e", nullable, boolean)]
    #[serde(skip_deserializing)]
    pub f3_x: X<3>,
    #[serde(rename = "re-N144")]
    #[opg(nullable, inline, integer)]
    pub f4_x: X<1>,
    #[serde(skip)]
    #[opg(string)]
    pub f5_x: V<2>,
}
fn p419() {
    tag("P419");
    let full = j(&P419 { r#type: X::<0>::default(), x__y: X::<3>::default(), is_ok: X::<3>::default(), f3_x: X::<3>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P419 { r#type: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, x__y: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, is_ok: X::<3>::any(), f3_x: X::<3>::any(), f4_x: X::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P419>(), &full, &v, &[false, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P420 {
    #[serde(rename(serialize = "Ser205", deserialize = "De205"))]
    #[opg(optional)]
    pub is_ok: V<0>,
    #[opg("text", integer)]
    #[serde(rename = "Gone 446", skip_serializing_if = "gone")]
    pub second: X<1>,
    #[opg(integer)]
    #[serde(skip_deserializing)]
    pub a1_b2: X<1>,
    #[opg(format = "f", example = "e", inline, number)]
    #[serde(rename = "re-N166")]
    pub f3_x: X<2>,
    #[serde(skip_deserializing)]
    #[opg(integer, "text", example = "e", format = "f")]
    pub f4_x: X<1>,
    #[serde(default)]
    #[opg(any, nullable, example = "e", format = "f")]
    pub f5_x: V<2>,
}
fn p420() {
    tag("P420");
    let full = j(&P420 { is_ok: V::<0>::default(), second: X::<1>::default(), a1_b2: X::<1>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P420 { is_ok: V::<0>::any(), second: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, a1_b2: X::<1>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P420>(), &full, &v, &[false, false, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P421 {
    #[opg(nullable)]
    #[serde(default)]
    pub a1_b2: V<0>,
    #[opg(integer, "text", example = "e", format = "f")]
    #[serde(rename = "re-N151")]
    pub r#fn: X<1>,
    #[serde(rename = "re-N199")]
    #[opg(any, optional, example = "e", format = "f")]
    pub first_one: V<2>,
    #[opg(number, optional, inline)]
    #[serde(skip_deserializing)]
    pub f3_x: X<2>,
    #[opg(number, inline)]
    pub f4_x: X<2>,
    #[opg(format = "f", example = "e", nullable, integer)]
    #[serde(rename(serialize = "Ser252", deserialize = "De252"))]
    pub f5_x: X<1>,
}
fn p421() {
    tag("P421");
    let full = j(&P421 { a1_b2: V::<0>::default(), r#fn: X::<1>::default(), first_one: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<2>::default(), f5_x: X::<1>::default() });
    let v = j(&P421 { a1_b2: V::<0>::any(), r#fn: X::<1>::any(), first_one: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<2>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P421>(), &full, &v, &[true, true, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P422 {
    #[opg(any, nullable, example = "e", format = "f")]
    pub first_one: V<0>,
    #[serde(rename = "Gone 506", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", inline, any)]
    pub _lead: V<1>,
    #[opg(format = "f", example = "e", optional, boolean)]
    #[serde(skip_deserializing)]
    pub tail_: X<3>,
    #[opg(number)]
    #[serde(rename = "Gone 459", skip_serializing_if = "gone")]
    pub f3_x: X<2>,
    #[opg(integer, example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub f4_x: X<1>,
    #[opg(any, "text")]
    #[serde(rename(serialize = "Ser293", deserialize = "De293"))]
    pub f5_x: V<2>,
}
fn p422() {
    tag("P422");
    let full = j(&P422 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: X::<3>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P422 { first_one: V::<0>::any(), _lead: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, tail_: X::<3>::any(), f3_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P422>(), &full, &v, &[true, false, false, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P423 {
    #[opg(nullable)]
    #[serde(rename = "re-N105")]
    pub tail_: V<0>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)]
    pub deep_er_name: X<1>,
    #[opg(inline, optional, integer)]
    #[serde(skip_deserializing)]
    pub r#type: X<1>,
    #[serde(skip_deserializing)]
    #[opg("text", nullable, number)]
    pub f3_x: X<2>,
    #[serde(rename = "re-N193")]
    #[opg(any, optional, inline)]
    pub f4_x: V<1>,
    #[opg(inline, optional, boolean)]
    #[serde(skip_deserializing)]
    pub f5_x: X<3>,
}
fn p423() {
    tag("P423");
    let full = j(&P423 { tail_: V::<0>::default(), deep_er_name: X::<1>::default(), r#type: X::<1>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: X::<3>::default() });
    let v = j(&P423 { tail_: V::<0>::any(), deep_er_name: X::<1>::any(), r#type: X::<1>::any(), f3_x: X::<2>::any(), f4_x: V::<1>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P423>(), &full, &v, &[true, false, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P424 {
    #[serde(rename(serialize = "Ser260", deserialize = "De260"))]
    #[opg(format = "f", example = "e", number)]
    pub r#type: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", optional)]
    pub x__y: V<1>,
    #[opg(nullable, number)]
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: X<2>,
    #[opg(any, optional, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub f3_x: V<0>,
    #[serde(rename = "Gone 445", skip_serializing_if = "gone")]
    #[opg(integer, nullable)]
    pub f4_x: X<1>,
    #[opg(inline, integer)]
    #[serde(rename = "Gone 444", skip_serializing_if = "gone")]
    pub f5_x: X<1>,
}
fn p424() {
    tag("P424");
    let full = j(&P424 { r#type: X::<2>::default(), x__y: V::<1>::default(), is_ok: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(4);
    let v = j(&P424 { r#type: X::<2>::any(), x__y: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, is_ok: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: V::<0>::any(), f4_x: if gone == 2 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: if gone == 3 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P424>(), &full, &v, &[true, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P425 {
    #[serde(default)]
    #[opg(any, "text")]
    pub is_ok: V<0>,
    #[opg(any, inline)]
    pub second: V<1>,
    #[serde(default)]
    #[opg("text", inline, boolean)]
    pub a1_b2: X<3>,
    #[opg(any, inline)]
    #[serde(rename(serialize = "Ser291", deserialize = "De291"))]
    pub f3_x: V<0>,
    #[opg(format = "f", example = "e", "text", any)]
    #[serde(default)]
    pub f4_x: V<1>,
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", any)]
    pub f5_x: V<2>,
}
fn p425() {
    tag("P425");
    let full = j(&P425 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<3>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let v = j(&P425 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: X::<3>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P425>(), &full, &v, &[true, true, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P426 {
    #[serde(default)]
    #[opg("text", integer)]
    pub a1_b2: X<1>,
    #[serde(rename = "Gone 419", skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub r#fn: V<1>,
    #[serde(rename(serialize = "Ser302", deserialize = "De302"))]
    #[opg(format = "f", example = "e", inline, any)]
    pub first_one: V<2>,
    #[opg(string, inline)]
    pub f3_x: X<0>,
    #[opg(string, inline, "text")]
    #[serde(rename = "Gone 435", skip_serializing_if = "gone")]
    pub f4_x: X<0>,
    #[serde(skip_deserializing)]
    #[opg(integer, optional)]
    pub f5_x: X<1>,
}
fn p426() {
    tag("P426");
    let full = j(&P426 { a1_b2: X::<1>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P426 { a1_b2: X::<1>::any(), r#fn: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, first_one: V::<2>::any(), f3_x: X::<0>::any(), f4_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: X::<1>::any() });
    named_struct(ty::<P426>(), &full, &v, &[true, true, false, true, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P427 {
    #[serde(default)]
    #[opg(number, nullable, example = "e", format = "f")]
    pub first_one: X<2>,
    #[opg(nullable, inline)]
    pub _lead: V<1>,
    #[serde(rename = "re-N133")]
    #[opg(string, nullable, example = "e", format = "f")]
    pub tail_: X<0>,
    #[serde(rename(serialize = "Ser258", deserialize = "De258"))]
    #[opg(nullable, number)]
    pub f3_x: X<2>,
    #[opg(number, nullable, example = "e", format = "f")]
    #[serde(skip_deserializing)]
    pub f4_x: X<2>,
    #[opg("text", optional, number)]
    #[serde(rename = "re-N162")]
    pub f5_x: X<2>,
}
fn p427() {
    tag("P427");
    let full = j(&P427 { first_one: X::<2>::default(), _lead: V::<1>::default(), tail_: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<2>::default(), f5_x: X::<2>::default() });
    let v = j(&P427 { first_one: X::<2>::any(), _lead: V::<1>::any(), tail_: X::<0>::any(), f3_x: X::<2>::any(), f4_x: X::<2>::any(), f5_x: X::<2>::any() });
    named_struct(ty::<P427>(), &full, &v, &[true, true, true, true, true, true, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P428 {
    #[serde(skip_deserializing)]
    pub tail_: V<0>,
    #[opg(nullable, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub deep_er_name: V<1>,
    #[opg("text", inline, boolean)]
    pub r#type: X<3>,
    #[serde(default)]
    #[opg(inline, boolean)]
    pub f3_x: X<3>,
    #[opg(optional, nullable)]
    #[serde(skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[opg(format = "f", example = "e", nullable, integer)]
    pub f5_x: X<1>,
}
fn p428() {
    tag("P428");
    let full = j(&P428 { tail_: V::<0>::default(), deep_er_name: V::<1>::default(), r#type: X::<3>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P428 { tail_: V::<0>::any(), deep_er_name: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, r#type: X::<3>::any(), f3_x: X::<3>::any(), f4_x: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<1>::any() });
    named_struct(ty::<P428>(), &full, &v, &[true, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P429 {
    #[serde(rename(serialize = "Ser217", deserialize = "De217"))]
    #[opg(inline, example = "e", format = "f")]
    pub r#type: V<0>,
    #[opg("text", optional, string)]
    #[serde(rename = "re-N128")]
    pub x__y: X<0>,
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename(serialize = "Ser305", deserialize = "De305"))]
    pub is_ok: V<2>,
    #[opg("text", optional, number)]
    pub f3_x: X<2>,
    #[opg(nullable, optional, string)]
    #[serde(default)]
    pub f4_x: X<0>,
    #[opg(format = "f", example = "e", string)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<0>,
}
fn p429() {
    tag("P429");
    let full = j(&P429 { r#type: V::<0>::default(), x__y: X::<0>::default(), is_ok: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P429 { r#type: V::<0>::any(), x__y: X::<0>::any(), is_ok: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any(), f5_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P429>(), &full, &v, &[true, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P430 {
    #[opg(format = "f", example = "e", inline, any)]
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: V<0>,
    #[opg(any, inline)]
    #[serde(skip_deserializing)]
    pub second: V<1>,
    #[serde(rename(serialize = "Ser228", deserialize = "De228"))]
    #[opg(nullable, optional, string)]
    pub a1_b2: X<0>,
    #[opg(number, inline)]
    #[serde(rename = "Gone 461", skip_serializing_if = "gone")]
    pub f3_x: X<2>,
    #[opg(optional, string)]
    #[serde(default)]
    pub f4_x: X<0>,
    #[opg(string, "text")]
    #[serde(rename(serialize = "Ser225", deserialize = "De225"))]
    pub f5_x: X<0>,
}
fn p430() {
    tag("P430");
    let full = j(&P430 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<0>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(2);
    let v = j(&P430 { is_ok: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, second: V::<1>::any(), a1_b2: X::<0>::any(), f3_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: X::<0>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P430>(), &full, &v, &[false, true, false, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P431 {
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", string)]
    pub a1_b2: X<0>,
    #[serde(default)]
    #[opg(nullable, inline)]
    pub r#fn: V<1>,
    #[opg(any, inline, nullable)]
    #[serde(skip_deserializing)]
    pub first_one: V<2>,
    #[opg("text", nullable, number)]
    #[serde(rename = "re-N164")]
    pub f3_x: X<2>,
    #[opg(inline, integer)]
    pub f4_x: X<1>,
    #[opg(integer, inline, example = "e", format = "f")]
    #[serde(rename = "re-N149")]
    pub f5_x: X<1>,
}
fn p431() {
    tag("P431");
    let full = j(&P431 { a1_b2: X::<0>::default(), r#fn: V::<1>::default(), first_one: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<1>::default(), f5_x: X::<1>::default() });
    let v = j(&P431 { a1_b2: X::<0>::any(), r#fn: V::<1>::any(), first_one: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<1>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P431>(), &full, &v, &[true, true, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct P432 {
    #[opg(format = "f", example = "e", "text", any)]
    #[serde(skip_serializing_if = "gone")]
    pub first_one: V<0>,
    #[opg(optional, string)]
    pub _lead: X<0>,
    #[serde(rename(serialize = "Ser230", deserialize = "De230"))]
    #[opg("text", optional, string)]
    pub tail_: X<0>,
    #[opg(string, "text")]
    pub f3_x: X<0>,
    #[opg(integer)]
    #[serde(rename = "Gone 442", skip_serializing_if = "gone")]
    pub f4_x: X<1>,
    #[opg(any, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(skip_deserializing)]
    pub f5_x: V<2>,
}
fn p432() {
    tag("P432");
    let full = j(&P432 { first_one: V::<0>::default(), _lead: X::<0>::default(), tail_: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(2);
    let v = j(&P432 { first_one: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, _lead: X::<0>::any(), tail_: X::<0>::any(), f3_x: X::<0>::any(), f4_x: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P432>(), &full, &v, &[false, false, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P433 {
    #[serde(default)]
    #[opg(format = "f", example = "e", optional)]
    pub tail_: V<0>,
    #[opg(number, "text")]
    #[serde(rename(serialize = "Ser259", deserialize = "De259"))]
    pub deep_er_name: X<2>,
    #[opg(optional, "text")]
    #[serde(rename = "re-N111")]
    pub r#type: V<2>,
    #[serde(rename(serialize = "Ser264", deserialize = "De264"))]
    #[opg("text", optional, number)]
    pub f3_x: X<2>,
    #[opg(format = "f", example = "e", any)]
    #[serde(rename = "re-N192")]
    pub f4_x: V<1>,
    #[opg(string, optional, inline)]
    #[serde(rename = "Gone 431", skip_serializing_if = "gone")]
    pub f5_x: X<0>,
}
fn p433() {
    tag("P433");
    let full = j(&P433 { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: V::<2>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P433 { tail_: V::<0>::any(), deep_er_name: X::<2>::any(), r#type: V::<2>::any(), f3_x: X::<2>::any(), f4_x: V::<1>::any(), f5_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P433>(), &full, &v, &[false, true, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P434 {
    #[opg(integer, nullable, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub r#type: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, "text")]
    pub x__y: V<1>,
    #[opg(inline, example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub is_ok: V<2>,
    #[opg(nullable, optional, string)]
    pub f3_x: X<0>,
    #[serde(rename = "re-N116")]
    #[opg(format = "f", example = "e", nullable)]
    pub f4_x: V<1>,
    #[serde(rename = "Gone 485", skip_serializing_if = "gone")]
    #[opg(boolean, optional, "text")]
    pub f5_x: X<3>,
}
fn p434() {
    tag("P434");
    let full = j(&P434 { r#type: X::<1>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<3>::default() });
    let gone = choose(4);
    let v = j(&P434 { r#type: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, x__y: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, is_ok: if gone == 2 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<0>::any(), f4_x: V::<1>::any(), f5_x: if gone == 3 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P434>(), &full, &v, &[false, false, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P435 {
    #[serde(rename = "Gone 508", skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", "text", any)]
    pub is_ok: V<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, optional, inline)]
    pub second: X<0>,
    #[opg(number, optional, inline)]
    #[serde(rename = "Gone 465", skip_serializing_if = "gone")]
    pub a1_b2: X<2>,
    #[opg(any, optional, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser301", deserialize = "De301"))]
    pub f3_x: V<0>,
    #[serde(rename(serialize = "Ser279", deserialize = "De279"))]
    #[opg(boolean, optional, nullable)]
    pub f4_x: X<3>,
    #[serde(skip_deserializing)]
    #[opg(optional, string)]
    pub f5_x: X<0>,
}
fn p435() {
    tag("P435");
    let full = j(&P435 { is_ok: V::<0>::default(), second: X::<0>::default(), a1_b2: X::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<0>::default() });
    let gone = choose(3);
    let v = j(&P435 { is_ok: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, second: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, a1_b2: if gone == 2 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P435>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P436 {
    #[serde(skip_deserializing)]
    #[opg(boolean, optional, "text")]
    pub a1_b2: X<3>,
    #[serde(skip_serializing)]
    #[opg(string)]
    pub r#fn: V<1>,
    #[serde(rename = "re-N163")]
    #[opg(number, inline, "text")]
    pub first_one: X<2>,
    #[opg(boolean, optional)]
    #[serde(rename = "re-N171")]
    pub f3_x: X<3>,
    #[opg(boolean, nullable)]
    pub f4_x: X<3>,
    #[opg(any, inline, nullable)]
    #[serde(rename(serialize = "Ser297", deserialize = "De297"))]
    pub f5_x: V<2>,
}
fn p436() {
    tag("P436");
    let full = j(&P436 { a1_b2: X::<3>::default(), r#fn: V::<1>::default(), first_one: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let v = j(&P436 { a1_b2: X::<3>::any(), r#fn: V::<1>::any(), first_one: X::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<3>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P436>(), &full, &v, &[false, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P437 {
    #[opg(nullable, inline)]
    #[serde(skip_deserializing)]
    pub first_one: V<0>,
    #[serde(rename = "re-N189")]
    #[opg(any, inline)]
    pub _lead: V<1>,
    #[serde(rename = "re-N112")]
    #[opg("text", inline)]
    pub tail_: V<2>,
    #[opg("text")]
    #[serde(skip_deserializing)]
    pub f3_x: V<0>,
    #[opg(number)]
    #[serde(rename(serialize = "Ser255", deserialize = "De255"))]
    pub f4_x: X<2>,
    #[serde(rename(serialize = "Ser287", deserialize = "De287"))]
    #[opg(boolean, "text", example = "e", format = "f")]
    pub f5_x: X<3>,
}
fn p437() {
    tag("P437");
    let full = j(&P437 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let v = j(&P437 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<2>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P437>(), &full, &v, &[true, true, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P438 {
    #[opg(format = "f", example = "e", nullable)]
    pub tail_: V<0>,
    #[opg(number, "text")]
    #[serde(rename = "Gone 463", skip_serializing_if = "gone")]
    pub deep_er_name: X<2>,
    #[opg(string)]
    pub r#type: X<0>,
    #[opg(any)]
    pub f3_x: V<0>,
    #[opg("text", boolean)]
    pub f4_x: X<3>,
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f5_x: X<0>,
}
fn p438() {
    tag("P438");
    let full = j(&P438 { tail_: V::<0>::default(), deep_er_name: X::<2>::default(), r#type: X::<0>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P438 { tail_: V::<0>::any(), deep_er_name: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, r#type: X::<0>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P438>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P439 {
    #[serde(skip_serializing)]
    #[opg(inline)]
    pub r#type: V<0>,
    #[opg(nullable, number)]
    #[serde(default)]
    pub x__y: X<2>,
    #[opg(any, inline, nullable)]
    pub is_ok: V<2>,
    #[opg(boolean, "text", example = "e", format = "f")]
    #[serde(rename = "re-N185")]
    pub f3_x: X<3>,
    #[serde(default)]
    #[opg(number, inline)]
    pub f4_x: X<2>,
    #[opg(boolean, nullable, "text")]
    #[serde(rename = "re-N181")]
    pub f5_x: X<3>,
}
fn p439() {
    tag("P439");
    let full = j(&P439 { r#type: V::<0>::default(), x__y: X::<2>::default(), is_ok: V::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let v = j(&P439 { r#type: V::<0>::any(), x__y: X::<2>::any(), is_ok: V::<2>::any(), f3_x: X::<3>::any(), f4_x: X::<2>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P439>(), &full, &v, &[true, true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P440 {
    #[opg(string, nullable, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser235", deserialize = "De235"))]
    pub is_ok: X<0>,
    #[opg("text", nullable, string)]
    pub second: X<0>,
    #[opg(number, inline, "text")]
    #[serde(rename = "Gone 469", skip_serializing_if = "gone")]
    pub a1_b2: X<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f3_x: X<0>,
    #[opg(integer, optional, "text")]
    #[serde(default)]
    pub f4_x: X<1>,
    #[opg(integer, optional, nullable)]
    #[serde(default)]
    pub f5_x: X<1>,
}
fn p440() {
    tag("P440");
    let full = j(&P440 { is_ok: X::<0>::default(), second: X::<0>::default(), a1_b2: X::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P440 { is_ok: X::<0>::any(), second: X::<0>::any(), a1_b2: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: if gone == 1 { X::<0>::maybe() } else { X::<0>::any() }, f4_x: X::<1>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P440>(), &full, &v, &[true, true, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P441 {
    #[opg(optional)]
    pub a1_b2: V<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", nullable, integer)]
    pub r#fn: X<1>,
    #[serde(skip_deserializing)]
    #[opg(integer, optional, nullable)]
    pub first_one: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, inline, nullable)]
    pub f3_x: X<2>,
    #[serde(rename = "Gone 496", skip_serializing_if = "gone")]
    #[opg(nullable, any)]
    pub f4_x: V<1>,
    #[serde(rename = "Gone 423", skip_serializing_if = "gone")]
    #[opg("text", example = "e", format = "f")]
    pub f5_x: V<2>,
}
fn p441() {
    tag("P441");
    let full = j(&P441 { a1_b2: V::<0>::default(), r#fn: X::<1>::default(), first_one: X::<1>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(4);
    let v = j(&P441 { a1_b2: V::<0>::any(), r#fn: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, first_one: X::<1>::any(), f3_x: if gone == 1 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: if gone == 2 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: if gone == 3 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P441>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P442 {
    #[serde(default)]
    #[opg(inline, optional)]
    pub first_one: V<0>,
    #[opg(format = "f", example = "e", nullable)]
    #[serde(skip_deserializing)]
    pub _lead: V<1>,
    #[serde(default)]
    #[opg(number, optional, inline)]
    pub tail_: X<2>,
    #[opg(boolean, example = "e", format = "f")]
    #[serde(default)]
    pub f3_x: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)]
    pub f4_x: X<2>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    #[serde(rename = "Gone 492", skip_serializing_if = "gone")]
    pub f5_x: X<3>,
}
fn p442() {
    tag("P442");
    let full = j(&P442 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<2>::default(), f5_x: X::<3>::default() });
    let gone = choose(2);
    let v = j(&P442 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: X::<2>::any(), f3_x: X::<3>::any(), f4_x: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f5_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P442>(), &full, &v, &[false, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P443 {
    #[opg(number, optional, inline)]
    pub tail_: X<2>,
    #[serde(rename = "Gone 436", skip_serializing_if = "gone")]
    #[opg("text", nullable, string)]
    pub deep_er_name: X<0>,
    #[opg(inline, optional)]
    #[serde(rename(serialize = "Ser210", deserialize = "De210"))]
    pub r#type: V<2>,
    #[opg(format = "f", example = "e", inline, number)]
    #[serde(default)]
    pub f3_x: X<2>,
    #[serde(default)]
    #[opg(string, "text")]
    pub f4_x: X<0>,
    #[opg(format = "f", example = "e", inline, string)]
    #[serde(rename = "re-N132")]
    pub f5_x: X<0>,
}
fn p443() {
    tag("P443");
    let full = j(&P443 { tail_: X::<2>::default(), deep_er_name: X::<0>::default(), r#type: V::<2>::default(), f3_x: X::<2>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P443 { tail_: X::<2>::any(), deep_er_name: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, r#type: V::<2>::any(), f3_x: X::<2>::any(), f4_x: X::<0>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P443>(), &full, &v, &[false, false, false, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P444 {
    #[serde(default)]
    #[opg(format = "f", example = "e", nullable)]
    pub r#type: V<0>,
    #[opg(optional, any)]
    #[serde(skip_serializing_if = "gone")]
    pub x__y: V<1>,
    #[opg(example = "e", format = "f")]
    pub is_ok: V<2>,
    #[opg(format = "f", example = "e", optional)]
    #[serde(skip_deserializing)]
    pub f3_x: V<0>,
    #[serde(rename(serialize = "Ser275", deserialize = "De275"))]
    #[opg(boolean, nullable)]
    pub f4_x: X<3>,
    #[opg(boolean)]
    #[serde(skip_deserializing)]
    pub f5_x: X<3>,
}
fn p444() {
    tag("P444");
    let full = j(&P444 { r#type: V::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<3>::default(), f5_x: X::<3>::default() });
    let gone = choose(1);
    let v = j(&P444 { r#type: V::<0>::any(), x__y: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, is_ok: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<3>::any(), f5_x: X::<3>::any() });
    named_struct(ty::<P444>(), &full, &v, &[true, true, false, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P445 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(number, "text")]
    pub is_ok: X<2>,
    #[opg(boolean, inline, example = "e", format = "f")]
    #[serde(default)]
    pub second: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", optional, integer)]
    pub a1_b2: X<1>,
    #[serde(default)]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    pub f3_x: V<0>,
    #[opg(inline, optional)]
    #[serde(rename = "Gone 414", skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[opg(string, example = "e", format = "f", "text", nullable, inline, optional)]
    #[serde(rename(serialize = "Ser237", deserialize = "De237"))]
    pub f5_x: X<0>,
}
fn p445() {
    tag("P445");
    let full = j(&P445 { is_ok: X::<2>::default(), second: X::<3>::default(), a1_b2: X::<1>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(3);
    let v = j(&P445 { is_ok: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, second: X::<3>::any(), a1_b2: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() }, f3_x: V::<0>::any(), f4_x: if gone == 2 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P445>(), &full, &v, &[true, false, true, false, false, false, false]);
}
#[derive(Serialize, OpgModel, Default)]
#[serde(default, deny_unknown_fields)]
pub struct P446 {
    #[opg("text", integer)]
    #[serde(skip_deserializing)]
    pub a1_b2: X<1>,
    #[serde(default)]
    #[opg(nullable, inline, integer)]
    pub r#fn: X<1>,
    #[serde(rename(serialize = "Ser204", deserialize = "De204"))]
    pub first_one: V<2>,
    #[opg(format = "f", example = "e", optional)]
    pub f3_x: V<0>,
    #[serde(rename(serialize = "Ser232", deserialize = "De232"))]
    #[opg("text", nullable, string)]
    pub f4_x: X<0>,
    #[serde(default)]
    #[opg("text")]
    pub f5_x: V<2>,
}
fn p446() {
    tag("P446");
    let full = j(&P446 { a1_b2: X::<1>::default(), r#fn: X::<1>::default(), first_one: V::<2>::default(), f3_x: V::<0>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let v = j(&P446 { a1_b2: X::<1>::any(), r#fn: X::<1>::any(), first_one: V::<2>::any(), f3_x: V::<0>::any(), f4_x: X::<0>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P446>(), &full, &v, &[true, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct P447 {
    #[serde(rename = "re-N172")]
    #[opg(inline, boolean)]
    pub first_one: X<3>,
    #[serde(rename = "re-N174")]
    #[opg("text", boolean)]
    pub _lead: X<3>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, optional, example = "e", format = "f")]
    pub tail_: V<2>,
    #[serde(default)]
    #[opg(format = "f", example = "e", nullable, boolean)]
    pub f3_x: X<3>,
    #[serde(default)]
    #[opg(any, optional, example = "e", format = "f")]
    pub f4_x: V<1>,
    #[opg(string)]
    #[serde(skip_deserializing)]
    pub f5_x: X<0>,
}
fn p447() {
    tag("P447");
    let full = j(&P447 { first_one: X::<3>::default(), _lead: X::<3>::default(), tail_: V::<2>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P447 { first_one: X::<3>::any(), _lead: X::<3>::any(), tail_: if gone == 0 { V::<2>::maybe() } else { V::<2>::any() }, f3_x: X::<3>::any(), f4_x: V::<1>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P447>(), &full, &v, &[true, true, false, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "camelCase")]
pub struct P448 {
    #[opg(optional, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub tail_: V<0>,
    #[opg("text", inline, integer)]
    pub deep_er_name: X<1>,
    #[opg("text", boolean)]
    #[serde(rename = "Gone 480", skip_serializing_if = "gone")]
    pub r#type: X<3>,
    #[opg(format = "f", example = "e", inline, string)]
    pub f3_x: X<0>,
    #[opg(any, inline, nullable)]
    #[serde(rename = "Gone 501", skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[opg(boolean, example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<3>,
}
fn p448() {
    tag("P448");
    let full = j(&P448 { tail_: V::<0>::default(), deep_er_name: X::<1>::default(), r#type: X::<3>::default(), f3_x: X::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<3>::default() });
    let gone = choose(4);
    let v = j(&P448 { tail_: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, deep_er_name: X::<1>::any(), r#type: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: X::<0>::any(), f4_x: if gone == 2 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: if gone == 3 { X::<3>::maybe() } else { X::<3>::any() } });
    named_struct(ty::<P448>(), &full, &v, &[false, true, false, true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct P449 {
    #[serde(skip_deserializing)]
    #[opg(integer, inline, example = "e", format = "f")]
    pub r#type: X<1>,
    #[serde(default)]
    #[opg(string, optional, inline)]
    pub x__y: X<0>,
    #[serde(rename = "re-N167")]
    #[opg(number, nullable, example = "e", format = "f")]
    pub is_ok: X<2>,
    #[serde(rename = "re-N110")]
    #[opg(nullable, inline)]
    pub f3_x: V<0>,
    #[serde(default)]
    #[opg("text", inline)]
    pub f4_x: V<1>,
    #[serde(rename = "Gone 449", skip_serializing_if = "gone")]
    #[opg(integer, optional, nullable)]
    pub f5_x: X<1>,
}
fn p449() {
    tag("P449");
    let full = j(&P449 { r#type: X::<1>::default(), x__y: X::<0>::default(), is_ok: X::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(1);
    let v = j(&P449 { r#type: X::<1>::any(), x__y: X::<0>::any(), is_ok: X::<2>::any(), f3_x: V::<0>::any(), f4_x: V::<1>::any(), f5_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P449>(), &full, &v, &[true, false, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct P450 {
    #[opg(nullable, any)]
    pub is_ok: V<0>,
    #[opg(boolean, optional, "text")]
    #[serde(skip_serializing_if = "gone")]
    pub second: X<3>,
    #[serde(default)]
    #[opg(number)]
    pub a1_b2: X<2>,
    #[opg(boolean, optional)]
    #[serde(skip_serializing_if = "gone")]
    pub f3_x: X<3>,
    #[opg(boolean, optional, nullable)]
    #[serde(rename = "re-N177")]
    pub f4_x: X<3>,
    #[opg(optional, inline, nullable, "text", format = "f", example = "e")]
    #[serde(rename = "Gone 424", skip_serializing_if = "gone")]
    pub f5_x: V<2>,
}
fn p450() {
    tag("P450");
    let full = j(&P450 { is_ok: V::<0>::default(), second: X::<3>::default(), a1_b2: X::<2>::default(), f3_x: X::<3>::default(), f4_x: X::<3>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P450 { is_ok: V::<0>::any(), second: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, a1_b2: X::<2>::any(), f3_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f4_x: X::<3>::any(), f5_x: if gone == 2 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P450>(), &full, &v, &[true, false, true, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "lowercase")]
pub struct P451 {
    #[serde(rename = "Gone 413", skip_serializing_if = "gone")]
    #[opg(example = "e", format = "f")]
    pub a1_b2: V<0>,
    #[opg("text", inline, integer)]
    #[serde(rename(serialize = "Ser248", deserialize = "De248"))]
    pub r#fn: X<1>,
    #[serde(rename = "Gone 491", skip_serializing_if = "gone")]
    #[opg(boolean, "text", example = "e", format = "f")]
    pub first_one: X<3>,
    #[opg(integer, optional)]
    pub f3_x: X<1>,
    #[serde(default)]
    #[opg(any, inline, nullable)]
    pub f4_x: V<1>,
    #[opg("text", nullable, any)]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: V<2>,
}
fn p451() {
    tag("P451");
    let full = j(&P451 { a1_b2: V::<0>::default(), r#fn: X::<1>::default(), first_one: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P451 { a1_b2: if gone == 0 { V::<0>::maybe() } else { V::<0>::any() }, r#fn: X::<1>::any(), first_one: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: X::<1>::any(), f4_x: V::<1>::any(), f5_x: if gone == 2 { V::<2>::maybe() } else { V::<2>::any() } });
    named_struct(ty::<P451>(), &full, &v, &[false, true, false, false, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "UPPERCASE")]
pub struct P452 {
    #[opg(optional, nullable)]
    #[serde(default)]
    pub first_one: V<0>,
    #[opg(optional)]
    #[serde(default)]
    pub _lead: V<1>,
    #[serde(default)]
    #[opg(any, optional, inline)]
    pub tail_: V<2>,
    #[serde(rename(serialize = "Ser290", deserialize = "De290"))]
    #[opg(optional, any)]
    pub f3_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg("text")]
    pub f4_x: V<1>,
    #[opg(nullable, optional, any)]
    #[serde(rename = "re-N194")]
    pub f5_x: V<2>,
}
fn p452() {
    tag("P452");
    let full = j(&P452 { first_one: V::<0>::default(), _lead: V::<1>::default(), tail_: V::<2>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P452 { first_one: V::<0>::any(), _lead: V::<1>::any(), tail_: V::<2>::any(), f3_x: V::<0>::any(), f4_x: if gone == 0 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P452>(), &full, &v, &[false, false, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct P453 {
    #[opg(optional, "text")]
    #[serde(default)]
    pub tail_: V<0>,
    #[serde(skip_deserializing)]
    #[opg(boolean, nullable, "text")]
    pub deep_er_name: X<3>,
    #[serde(default)]
    #[opg(inline)]
    pub r#type: V<2>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(integer)]
    pub f3_x: X<1>,
    #[serde(rename = "re-N123")]
    #[opg(string, "text")]
    pub f4_x: X<0>,
    #[opg(any, nullable, example = "e", format = "f")]
    #[serde(rename(serialize = "Ser303", deserialize = "De303"))]
    pub f5_x: V<2>,
}
fn p453() {
    tag("P453");
    let full = j(&P453 { tail_: V::<0>::default(), deep_er_name: X::<3>::default(), r#type: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P453 { tail_: V::<0>::any(), deep_er_name: X::<3>::any(), r#type: V::<2>::any(), f3_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: X::<0>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P453>(), &full, &v, &[false, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
pub struct P454 {
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", "text", string)]
    pub r#type: X<0>,
    #[opg(nullable, any)]
    #[serde(rename = "re-N190")]
    pub x__y: V<1>,
    #[serde(rename = "re-N102")]
    pub is_ok: V<2>,
    #[serde(skip_deserializing)]
    #[opg(integer, nullable, "text")]
    pub f3_x: X<1>,
    #[serde(default)]
    #[opg(number, inline, nullable)]
    pub f4_x: X<2>,
    #[serde(rename = "Gone 426", skip_serializing_if = "gone")]
    #[opg(optional, string)]
    pub f5_x: X<0>,
}
fn p454() {
    tag("P454");
    let full = j(&P454 { r#type: X::<0>::default(), x__y: V::<1>::default(), is_ok: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<2>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P454 { r#type: X::<0>::any(), x__y: V::<1>::any(), is_ok: V::<2>::any(), f3_x: X::<1>::any(), f4_x: X::<2>::any(), f5_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() } });
    named_struct(ty::<P454>(), &full, &v, &[true, true, true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct P455 {
    #[serde(skip_deserializing)]
    #[opg(optional, any)]
    pub is_ok: V<0>,
    #[serde(rename(serialize = "Ser296", deserialize = "De296"))]
    #[opg(nullable, optional, any)]
    pub second: V<1>,
    #[serde(rename = "Gone 470", skip_serializing_if = "gone")]
    #[opg("text", nullable, number)]
    pub a1_b2: X<2>,
    #[serde(rename(serialize = "Ser224", deserialize = "De224"))]
    #[opg(nullable, string)]
    pub f3_x: X<0>,
    #[serde(rename(serialize = "Ser236", deserialize = "De236"))]
    #[opg(format = "f", example = "e", "text", string)]
    pub f4_x: X<0>,
    #[opg(integer, inline, example = "e", format = "f")]
    #[serde(skip_serializing_if = "gone")]
    pub f5_x: X<1>,
}
fn p455() {
    tag("P455");
    let full = j(&P455 { is_ok: V::<0>::default(), second: V::<1>::default(), a1_b2: X::<2>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P455 { is_ok: V::<0>::any(), second: V::<1>::any(), a1_b2: if gone == 0 { X::<2>::maybe() } else { X::<2>::any() }, f3_x: X::<0>::any(), f4_x: X::<0>::any(), f5_x: if gone == 1 { X::<1>::maybe() } else { X::<1>::any() } });
    named_struct(ty::<P455>(), &full, &v, &[false, false, false, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct P456 {
    #[opg(integer)]
    #[serde(rename(serialize = "Ser238", deserialize = "De238"))]
    pub a1_b2: X<1>,
    #[opg(format = "f", example = "e", number)]
    #[serde(default)]
    pub r#fn: X<2>,
    #[serde(skip)]
    #[opg(any, optional)]
    pub first_one: V<2>,
    #[opg(inline, optional, integer)]
    #[serde(rename = "Gone 448", skip_serializing_if = "gone")]
    pub f3_x: X<1>,
    #[opg(string, optional, inline)]
    #[serde(rename(serialize = "Ser227", deserialize = "De227"))]
    pub f4_x: X<0>,
    #[opg(format = "f", example = "e", inline, string)]
    #[serde(default)]
    pub f5_x: X<0>,
}
fn p456() {
    tag("P456");
    let full = j(&P456 { a1_b2: X::<1>::default(), r#fn: X::<2>::default(), first_one: V::<2>::default(), f3_x: X::<1>::default(), f4_x: X::<0>::default(), f5_x: X::<0>::default() });
    let gone = choose(1);
    let v = j(&P456 { a1_b2: X::<1>::any(), r#fn: X::<2>::any(), first_one: V::<2>::any(), f3_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: X::<0>::any(), f5_x: X::<0>::any() });
    named_struct(ty::<P456>(), &full, &v, &[true, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
pub struct P457 {
    #[serde(skip_deserializing)]
    #[opg(format = "f", example = "e", inline, any)]
    pub first_one: V<0>,
    #[serde(rename = "Gone 432", skip_serializing_if = "gone")]
    #[opg(nullable, optional, string)]
    pub _lead: X<0>,
    #[opg(string)]
    #[serde(rename(serialize = "Ser221", deserialize = "De221"))]
    pub tail_: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)]
    pub f3_x: X<3>,
    #[opg(optional, "text")]
    pub f4_x: V<1>,
    #[serde(default)]
    #[opg("text", inline, integer)]
    pub f5_x: X<1>,
}
fn p457() {
    tag("P457");
    let full = j(&P457 { first_one: V::<0>::default(), _lead: X::<0>::default(), tail_: X::<0>::default(), f3_x: X::<3>::default(), f4_x: V::<1>::default(), f5_x: X::<1>::default() });
    let gone = choose(2);
    let v = j(&P457 { first_one: V::<0>::any(), _lead: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, tail_: X::<0>::any(), f3_x: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f4_x: V::<1>::any(), f5_x: X::<1>::any() });
    named_struct(ty::<P457>(), &full, &v, &[true, false, true, false, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct P458 {
    #[opg(number, inline)]
    #[serde(skip_deserializing)]
    pub tail_: X<2>,
    #[opg("text", optional, string)]
    pub deep_er_name: X<0>,
    #[opg(format = "f", example = "e", string)]
    pub r#type: X<0>,
    #[opg(string, nullable, example = "e", format = "f")]
    pub f3_x: X<0>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(string, inline)]
    pub f4_x: X<0>,
    #[serde(rename = "re-N104")]
    #[opg(inline)]
    pub f5_x: V<2>,
}
fn p458() {
    tag("P458");
    let full = j(&P458 { tail_: X::<2>::default(), deep_er_name: X::<0>::default(), r#type: X::<0>::default(), f3_x: X::<0>::default(), f4_x: X::<0>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P458 { tail_: X::<2>::any(), deep_er_name: X::<0>::any(), r#type: X::<0>::any(), f3_x: X::<0>::any(), f4_x: if gone == 0 { X::<0>::maybe() } else { X::<0>::any() }, f5_x: V::<2>::any() });
    named_struct(ty::<P458>(), &full, &v, &[true, false, true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct P459 {
    #[serde(default)]
    #[opg(any, inline, "text")]
    pub r#type: V<0>,
    #[serde(rename(serialize = "Ser234", deserialize = "De234"))]
    #[opg(format = "f", example = "e", inline, string)]
    pub x__y: X<0>,
    #[opg(boolean)]
    #[serde(rename(serialize = "Ser272", deserialize = "De272"))]
    pub is_ok: X<3>,
    #[opg(format = "f", example = "e", nullable, integer)]
    #[serde(rename = "Gone 456", skip_serializing_if = "gone")]
    pub f3_x: X<1>,
    #[opg(inline)]
    pub f4_x: V<1>,
    #[opg("text", inline)]
    #[serde(skip_deserializing)]
    pub f5_x: V<2>,
}
fn p459() {
    tag("P459");
    let full = j(&P459 { r#type: V::<0>::default(), x__y: X::<0>::default(), is_ok: X::<3>::default(), f3_x: X::<1>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(1);
    let v = j(&P459 { r#type: V::<0>::any(), x__y: X::<0>::any(), is_ok: X::<3>::any(), f3_x: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P459>(), &full, &v, &[true, true, true, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct P460 {
    #[serde(rename = "Gone 443", skip_serializing_if = "gone")]
    #[opg(integer, optional)]
    pub is_ok: X<1>,
    #[serde(skip_serializing_if = "gone")]
    #[opg(any, inline, nullable)]
    pub second: V<1>,
    #[opg(string, optional, example = "e", format = "f")]
    pub a1_b2: X<0>,
    #[opg(any, optional, inline)]
    #[serde(rename = "Gone 499", skip_serializing_if = "gone")]
    pub f3_x: V<0>,
    #[opg("text", nullable, any)]
    pub f4_x: V<1>,
    #[opg("text", inline)]
    #[serde(rename(serialize = "Ser214", deserialize = "De214"))]
    pub f5_x: V<2>,
}
fn p460() {
    tag("P460");
    let full = j(&P460 { is_ok: X::<1>::default(), second: V::<1>::default(), a1_b2: X::<0>::default(), f3_x: V::<0>::default(), f4_x: V::<1>::default(), f5_x: V::<2>::default() });
    let gone = choose(3);
    let v = j(&P460 { is_ok: if gone == 0 { X::<1>::maybe() } else { X::<1>::any() }, second: if gone == 1 { V::<1>::maybe() } else { V::<1>::any() }, a1_b2: X::<0>::any(), f3_x: if gone == 2 { V::<0>::maybe() } else { V::<0>::any() }, f4_x: V::<1>::any(), f5_x: V::<2>::any() });
    named_struct(ty::<P460>(), &full, &v, &[false, false, false, false, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct P461 {
    #[serde(skip_serializing_if = "gone")]
    #[opg(format = "f", example = "e", nullable, boolean)]
    pub a1_b2: X<3>,
    #[opg(number, "text")]
    #[serde(skip_deserializing)]
    pub r#fn: X<2>,
    #[serde(rename = "Gone 483", skip_serializing_if = "gone")]
    #[opg(boolean, optional, nullable)]
    pub first_one: X<3>,
    #[serde(rename = "Gone 460", skip_serializing_if = "gone")]
    #[opg(optional, number)]
    pub f3_x: X<2>,
    #[opg(any, nullable, example = "e", format = "f")]
    #[serde(rename = "Gone 507", skip_serializing_if = "gone")]
    pub f4_x: V<1>,
    #[opg(optional, string)]
    #[serde(rename = "re-N120")]
    pub f5_x: X<0>,
}
fn p461() {
    tag("P461");
    let full = j(&P461 { a1_b2: X::<3>::default(), r#fn: X::<2>::default(), first_one: X::<3>::default(), f3_x: X::<2>::default(), f4_x: V::<1>::default(), f5_x: X::<0>::default() });
    let gone = choose(4);
    let v = j(&P461 { a1_b2: if gone == 0 { X::<3>::maybe() } else { X::<3>::any() }, r#fn: X::<2>::any(), first_one: if gone == 1 { X::<3>::maybe() } else { X::<3>::any() }, f3_x: if gone == 2 { X::<2>::maybe() } else { X::<2>::any() }, f4_x: if gone == 3 { V::<1>::maybe() } else { V::<1>::any() }, f5_x: X::<0>::any() });
    named_struct(ty::<P461>(), &full, &v, &[false, true, false, false, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub struct P462 {
    #[opg(number, optional, inline)]
    #[serde(rename(serialize = "Ser261", deserialize = "De261"))]
    pub first_one: X<2>,
    #[opg(format = "f", example = "e", inline, number)]
    pub _lead: X<2>,
    #[serde(default)]
    #[opg("text", boolean)]
    pub tail_: X<3>,
    #[opg(integer, optional)]
    #[serde(rename = "re-N137")]
    pub f3_x: X<1>,
}
fn p462() {
    tag("P462");
    let full = j(&P462 { first_one: X::<2>::default(), _lead: X::<2>::default(), tail_: X::<3>::default(), f3_x: X::<1>::default() });
    let v = j(&P462 { first_one: X::<2>::any(), _lead: X::<2>::any(), tail_: X::<3>::any(), f3_x: X::<1>::any() });
    named_struct(ty::<P462>(), &full, &v, &[true, false, true, true, false]);
}
#[derive(Serialize, OpgModel)]
pub struct Q463(#[opg(string, inline, "text")] #[serde(skip_deserializing)] X<0>, #[opg(string, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] X<0>, #[serde(skip_deserializing)] #[opg(example = "e", format = "f")] V<2>, #[opg("text", inline, boolean)] #[serde(skip_deserializing)] X<3>);
fn q463() {
    tag("Q463");
    tuple_struct(ty::<Q463>(), &j(&Q463(X::<0>::any(), X::<0>::any(), V::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q464(#[opg(any, "text")] #[serde(skip_deserializing)] V<0>, #[opg(boolean, "text", example = "e", format = "f")] X<3>, #[opg("text", inline, integer)] #[serde(skip_deserializing)] X<1>, #[serde(skip_deserializing)] #[opg("text", nullable, string)] X<0>);
fn q464() {
    tag("Q464");
    tuple_struct(ty::<Q464>(), &j(&Q464(V::<0>::any(), X::<3>::any(), X::<1>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q465(#[serde(skip_deserializing)] #[opg(format = "f", example = "e", number)] X<2>, #[opg(any, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] V<1>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, number)] X<2>, #[opg(nullable, inline, boolean)] #[serde(skip_deserializing)] X<3>);
fn q465() {
    tag("Q465");
    tuple_struct(ty::<Q465>(), &j(&Q465(X::<2>::any(), V::<1>::any(), X::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q466(#[opg(boolean, example = "e", format = "f")] X<3>, #[serde(skip_deserializing)] #[opg(nullable, any)] V<1>, #[serde(skip_deserializing)] #[opg("text", nullable, any)] V<2>, #[opg(integer)] X<1>);
fn q466() {
    tag("Q466");
    tuple_struct(ty::<Q466>(), &j(&Q466(X::<3>::any(), V::<1>::any(), V::<2>::any(), X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q467(#[serde(skip_deserializing)] #[opg(nullable, "text")] V<0>, #[opg(any, inline, "text")] #[serde(skip_deserializing)] V<1>, #[serde(skip_deserializing)] #[opg(boolean, nullable)] X<3>, #[opg(any)] #[serde(skip_deserializing)] V<0>);
fn q467() {
    tag("Q467");
    tuple_struct(ty::<Q467>(), &j(&Q467(V::<0>::any(), V::<1>::any(), X::<3>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q468(#[opg(nullable)] V<0>, V<1>, #[opg(number)] #[serde(skip_deserializing)] X<2>, #[serde(skip_deserializing)] #[opg(boolean, inline, example = "e", format = "f")] X<3>);
fn q468() {
    tag("Q468");
    tuple_struct(ty::<Q468>(), &j(&Q468(V::<0>::any(), V::<1>::any(), X::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q469(#[opg("text", boolean)] #[serde(skip_deserializing)] X<3>, #[opg(string, inline, "text")] X<0>, #[opg("text", nullable, number)] X<2>, #[opg(format = "f", example = "e", nullable, integer)] #[serde(skip_deserializing)] X<1>);
fn q469() {
    tag("Q469");
    tuple_struct(ty::<Q469>(), &j(&Q469(X::<3>::any(), X::<0>::any(), X::<2>::any(), X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q470(#[opg(inline, boolean)] #[serde(skip_deserializing)] X<3>, #[opg(string, inline, nullable)] X<0>, #[opg(number, nullable, example = "e", format = "f")] X<2>, #[opg(format = "f", example = "e", inline, any)] V<0>);
fn q470() {
    tag("Q470");
    tuple_struct(ty::<Q470>(), &j(&Q470(X::<3>::any(), X::<0>::any(), X::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q471(#[opg(any, "text")] V<0>, #[opg(format = "f", example = "e", "text", any)] V<1>, #[opg(number, inline, "text")] #[serde(skip_deserializing)] X<2>, #[serde(skip)] #[opg(inline)] V<0>);
fn q471() {
    tag("Q471");
    tuple_struct(ty::<Q471>(), &j(&Q471(V::<0>::any(), V::<1>::any(), X::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q472(#[opg(nullable, inline, integer)] X<1>, #[serde(skip_deserializing)] #[opg(integer, nullable)] X<1>, #[opg(boolean, nullable, "text")] X<3>, #[opg(format = "f", example = "e", number)] X<2>);
fn q472() {
    tag("Q472");
    tuple_struct(ty::<Q472>(), &j(&Q472(X::<1>::any(), X::<1>::any(), X::<3>::any(), X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q473(#[serde(skip_deserializing)] #[opg(boolean, "text", example = "e", format = "f")] X<3>, #[opg(number, inline, "text")] X<2>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", number)] X<2>, #[opg(string, inline, nullable)] #[serde(skip_deserializing)] X<0>);
fn q473() {
    tag("Q473");
    tuple_struct(ty::<Q473>(), &j(&Q473(X::<3>::any(), X::<2>::any(), X::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q474(#[opg(inline, boolean)] X<3>, #[opg(format = "f", example = "e", any)] V<1>, #[opg("text", example = "e", format = "f")] V<2>, #[opg("text")] V<0>);
fn q474() {
    tag("Q474");
    tuple_struct(ty::<Q474>(), &j(&Q474(X::<3>::any(), V::<1>::any(), V::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q475(#[opg(string, "text")] #[serde(skip_deserializing)] X<0>, #[opg(format = "f", example = "e", "text", number)] X<2>, #[serde(skip_deserializing)] #[opg("text", example = "e", format = "f")] V<2>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, string)] X<0>);
fn q475() {
    tag("Q475");
    tuple_struct(ty::<Q475>(), &j(&Q475(X::<0>::any(), X::<2>::any(), V::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q476(#[opg(nullable, number)] X<2>, #[serde(skip_deserializing)] #[opg(nullable, number)] X<2>, #[opg(nullable, inline, boolean)] X<3>, #[opg(inline, integer)] #[serde(skip_deserializing)] X<1>);
fn q476() {
    tag("Q476");
    tuple_struct(ty::<Q476>(), &j(&Q476(X::<2>::any(), X::<2>::any(), X::<3>::any(), X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q477(#[opg(nullable, "text")] V<0>, #[opg("text", integer)] X<1>, #[opg("text", inline)] V<2>, #[serde(skip_deserializing)] #[opg(nullable)] V<0>);
fn q477() {
    tag("Q477");
    tuple_struct(ty::<Q477>(), &j(&Q477(V::<0>::any(), X::<1>::any(), V::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q478(#[opg(integer, inline, example = "e", format = "f")] X<1>, #[opg(number, inline, nullable)] #[serde(skip_deserializing)] X<2>, #[opg(nullable, inline, integer)] #[serde(skip_deserializing)] X<1>, #[opg(any, inline, "text")] V<0>);
fn q478() {
    tag("Q478");
    tuple_struct(ty::<Q478>(), &j(&Q478(X::<1>::any(), X::<2>::any(), X::<1>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q479(#[serde(skip_deserializing)] #[opg(integer, example = "e", format = "f")] X<1>, #[opg(integer, nullable, "text")] X<1>, #[opg(format = "f", example = "e", "text", string)] X<0>, #[serde(skip_deserializing)] #[opg(boolean, example = "e", format = "f")] X<3>);
fn q479() {
    tag("Q479");
    tuple_struct(ty::<Q479>(), &j(&Q479(X::<1>::any(), X::<1>::any(), X::<0>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q480(#[opg(inline)] #[serde(skip_deserializing)] V<0>, #[opg(inline, example = "e", format = "f")] V<1>, #[opg(number)] X<2>, #[opg(boolean, inline, example = "e", format = "f")] X<3>);
fn q480() {
    tag("Q480");
    tuple_struct(ty::<Q480>(), &j(&Q480(V::<0>::any(), V::<1>::any(), X::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q481(#[opg(number, inline, nullable)] X<2>, #[opg(format = "f", example = "e", nullable, boolean)] X<3>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", any)] V<2>, #[opg(number, "text")] X<2>);
fn q481() {
    tag("Q481");
    tuple_struct(ty::<Q481>(), &j(&Q481(X::<2>::any(), X::<3>::any(), V::<2>::any(), X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q482(#[serde(skip)] #[opg("text", nullable)] V<0>, #[opg(integer, example = "e", format = "f")] X<1>, #[serde(skip_serializing)] #[opg("text", nullable)] V<2>, #[serde(skip_deserializing)] #[opg(nullable, string)] X<0>);
fn q482() {
    tag("Q482");
    tuple_struct(ty::<Q482>(), &j(&Q482(V::<0>::any(), X::<1>::any(), V::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q483(#[opg(integer, nullable)] X<1>, #[opg(string, inline)] #[serde(skip_deserializing)] X<0>, #[opg(boolean)] X<3>, #[opg(nullable, string)] X<0>);
fn q483() {
    tag("Q483");
    tuple_struct(ty::<Q483>(), &j(&Q483(X::<1>::any(), X::<0>::any(), X::<3>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q484(#[serde(skip_deserializing)] #[opg(inline, example = "e", format = "f")] V<0>, #[opg(integer, "text", example = "e", format = "f")] X<1>, #[opg(format = "f", example = "e", nullable, boolean)] #[serde(skip_deserializing)] X<3>, #[serde(skip)] #[opg(string)] V<0>);
fn q484() {
    tag("Q484");
    tuple_struct(ty::<Q484>(), &j(&Q484(V::<0>::any(), X::<1>::any(), X::<3>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q485(#[opg(integer)] #[serde(skip_deserializing)] X<1>, #[serde(skip_deserializing)] #[opg(integer, "text", example = "e", format = "f")] X<1>, #[opg(number, inline)] X<2>, #[opg(any, nullable, example = "e", format = "f")] V<0>);
fn q485() {
    tag("Q485");
    tuple_struct(ty::<Q485>(), &j(&Q485(X::<1>::any(), X::<1>::any(), X::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q486(#[serde(skip_deserializing)] #[opg("text", nullable, number)] X<2>, #[opg(any, inline)] V<1>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", any)] V<2>, #[opg(string, inline)] X<0>);
fn q486() {
    tag("Q486");
    tuple_struct(ty::<Q486>(), &j(&Q486(X::<2>::any(), V::<1>::any(), V::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q487(#[opg(nullable, inline)] V<0>, #[opg(number, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] X<2>, #[serde(skip_deserializing)] V<2>, #[opg("text", inline, boolean)] X<3>);
fn q487() {
    tag("Q487");
    tuple_struct(ty::<Q487>(), &j(&Q487(V::<0>::any(), X::<2>::any(), V::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q488(#[opg(format = "f", example = "e", nullable, integer)] X<1>, #[opg(any, inline)] #[serde(skip_deserializing)] V<1>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", string)] X<0>, #[opg(any, inline, nullable)] #[serde(skip_deserializing)] V<0>);
fn q488() {
    tag("Q488");
    tuple_struct(ty::<Q488>(), &j(&Q488(X::<1>::any(), V::<1>::any(), X::<0>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q489(#[opg(inline, integer)] X<1>, #[opg(string, "text")] X<0>, #[serde(skip_serializing)] #[opg(string)] V<2>, #[opg(boolean, nullable)] X<3>);
fn q489() {
    tag("Q489");
    tuple_struct(ty::<Q489>(), &j(&Q489(X::<1>::any(), X::<0>::any(), V::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q490(#[opg(nullable, inline)] #[serde(skip_deserializing)] V<0>, #[opg("text")] #[serde(skip_deserializing)] V<1>, #[opg(format = "f", example = "e", nullable)] V<2>, #[opg(string)] X<0>);
fn q490() {
    tag("Q490");
    tuple_struct(ty::<Q490>(), &j(&Q490(V::<0>::any(), V::<1>::any(), V::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q491(#[opg(any)] V<0>, #[opg("text", boolean)] X<3>, #[serde(skip_serializing)] #[opg(inline)] V<2>, #[opg(any, inline, nullable)] V<0>);
fn q491() {
    tag("Q491");
    tuple_struct(ty::<Q491>(), &j(&Q491(V::<0>::any(), X::<3>::any(), V::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q492(#[opg("text", nullable, string)] X<0>, #[opg(format = "f", example = "e", nullable)] #[serde(skip_deserializing)] V<1>, #[opg(example = "e", format = "f")] V<2>, #[opg(boolean)] #[serde(skip_deserializing)] X<3>);
fn q492() {
    tag("Q492");
    tuple_struct(ty::<Q492>(), &j(&Q492(X::<0>::any(), V::<1>::any(), V::<2>::any(), X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q493(#[opg("text", integer)] #[serde(skip_deserializing)] X<1>, #[opg(string)] #[serde(skip_deserializing)] X<0>, #[opg("text", inline, integer)] X<1>, #[opg(format = "f", example = "e", inline, string)] X<0>);
fn q493() {
    tag("Q493");
    tuple_struct(ty::<Q493>(), &j(&Q493(X::<1>::any(), X::<0>::any(), X::<1>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q494(#[serde(skip_deserializing)] #[opg(integer, inline, example = "e", format = "f")] X<1>, #[opg(nullable, any)] V<1>, #[serde(skip_deserializing)] #[opg(boolean, nullable, "text")] X<3>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", "text", string)] X<0>);
fn q494() {
    tag("Q494");
    tuple_struct(ty::<Q494>(), &j(&Q494(X::<1>::any(), V::<1>::any(), X::<3>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q495(#[serde(skip_deserializing)] #[opg(integer, nullable, "text")] X<1>, #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, any)] V<1>, #[opg(number, inline)] #[serde(skip_deserializing)] X<2>, #[opg(format = "f", example = "e", string)] X<0>);
fn q495() {
    tag("Q495");
    tuple_struct(ty::<Q495>(), &j(&Q495(X::<1>::any(), V::<1>::any(), X::<2>::any(), X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q496(#[opg(string, nullable, example = "e", format = "f")] X<0>, #[opg(inline)] V<1>, #[opg("text", inline)] #[serde(skip_deserializing)] V<2>, #[opg("text", nullable, any)] V<0>);
fn q496() {
    tag("Q496");
    tuple_struct(ty::<Q496>(), &j(&Q496(X::<0>::any(), V::<1>::any(), V::<2>::any(), V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct Q497(#[opg(number, "text")] #[serde(skip_deserializing)] X<2>, #[opg(format = "f", example = "e", inline, number)] X<2>);
fn q497() {
    tag("Q497");
    tuple_struct(ty::<Q497>(), &j(&Q497(X::<2>::any(), X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N498 { #[opg(number, inline, nullable)] #[serde(rename = "Gone 467", skip_serializing_if = "gone")] f0: X<2> }
fn n498() {
    tag("N498");
    admitted(ty::<N498>(), &j(&N498 { f0: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N499 { #[serde(skip)] f0: u8, #[opg(string, inline, "text")] #[serde(skip_deserializing)] f1: X<0> }
fn n499() {
    tag("N499");
    admitted(ty::<N499>(), &j(&N499 { f0: 7, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N500(#[opg(integer, nullable, "text")] #[serde(rename = "re-N147")] X<1>, std::marker::PhantomData<std::sync::Barrier>);
fn n500() {
    tag("N500");
    admitted(ty::<N500>(), &j(&N500(X::<1>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N501 { #[serde(rename = "Gone 472", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", inline, number)] f0: X<2>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n501() {
    tag("N501");
    admitted(ty::<N501>(), &j(&N501 { f0: X::<2>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N502 { #[opg(inline, example = "e", format = "f")] #[serde(rename = "re-N115")] f0: V<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n502() {
    tag("N502");
    admitted(ty::<N502>(), &j(&N502 { f0: V::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N503(#[serde(rename = "re-N180")] #[opg("text", inline, boolean)] X<3>);
fn n503() {
    tag("N503");
    admitted(ty::<N503>(), &j(&N503(X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N504 { #[opg(string, inline)] #[serde(rename(serialize = "Ser223", deserialize = "De223"))] f0: X<0>, #[serde(skip)] f1: u8 }
fn n504() {
    tag("N504");
    admitted(ty::<N504>(), &j(&N504 { f0: X::<0>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N505 { f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(string, nullable, example = "e", format = "f")] #[serde(skip_deserializing)] f1: X<0> }
fn n505() {
    tag("N505");
    admitted(ty::<N505>(), &j(&N505 { f0: std::marker::PhantomData, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N506(#[serde(skip_serializing)] #[opg(optional)] String, std::marker::PhantomData<std::sync::Barrier>, #[serde(rename = "re-N127")] #[opg(string, inline, nullable)] X<0>);
fn n506() {
    tag("N506");
    admitted(ty::<N506>(), &j(&N506(String::new(), std::marker::PhantomData, X::<0>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N507 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(skip_serializing_if = "gone")] #[opg(number, inline, "text")] f1: X<2> }
fn n507() {
    tag("N507");
    admitted(ty::<N507>(), &j(&N507 { f0: std::marker::PhantomData, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N508 { #[serde(rename = "Gone 474", skip_serializing_if = "gone")] #[opg(format = "f", example = "e", "text", number)] f0: X<2> }
fn n508() {
    tag("N508");
    admitted(ty::<N508>(), &j(&N508 { f0: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N509(#[opg(number, inline, "text")] #[serde(rename(serialize = "Ser265", deserialize = "De265"))] X<2>);
fn n509() {
    tag("N509");
    admitted(ty::<N509>(), &j(&N509(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N510 { #[serde(skip_deserializing)] #[opg(boolean, optional, nullable)] f0: X<3>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n510() {
    tag("N510");
    admitted(ty::<N510>(), &j(&N510 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N511 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[serde(rename(serialize = "Ser209", deserialize = "De209"))] #[opg(example = "e", format = "f")] f1: V<0>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n511() {
    tag("N511");
    admitted(ty::<N511>(), &j(&N511 { f0: String::new(), f1: V::<0>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N512(#[opg(format = "f", example = "e", nullable, boolean)] #[serde(rename(serialize = "Ser286", deserialize = "De286"))] X<3>, #[opg(optional)] std::marker::PhantomData<std::sync::Barrier>);
fn n512() {
    tag("N512");
    admitted(ty::<N512>(), &j(&N512(X::<3>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N513 { #[serde(rename(serialize = "Ser245", deserialize = "De245"))] #[opg(integer, optional, nullable)] f0: X<1> }
fn n513() {
    tag("N513");
    admitted(ty::<N513>(), &j(&N513 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N514 { #[serde(rename(serialize = "Ser285", deserialize = "De285"))] #[opg(boolean, inline, example = "e", format = "f")] f0: X<3>, #[serde(skip)] f1: u8 }
fn n514() {
    tag("N514");
    admitted(ty::<N514>(), &j(&N514 { f0: X::<3>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N515 { #[opg(nullable, string)] #[serde(default)] f0: X<0> }
fn n515() {
    tag("N515");
    admitted(ty::<N515>(), &j(&N515 { f0: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N516 { #[opg(format = "f", example = "e", number)] #[serde(skip_serializing_if = "gone")] f0: X<2>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n516() {
    tag("N516");
    admitted(ty::<N516>(), &j(&N516 { f0: X::<2>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N517 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(skip_deserializing)] #[opg(example = "e", format = "f")] f1: V<0> }
fn n517() {
    tag("N517");
    admitted(ty::<N517>(), &j(&N517 { f0: std::marker::PhantomData, f1: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N518 { #[opg(format = "f", example = "e", string)] #[serde(default)] f0: X<0> }
fn n518() {
    tag("N518");
    admitted(ty::<N518>(), &j(&N518 { f0: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N519 { #[serde(skip)] f0: u8, #[opg(format = "f", example = "e", "text", number)] #[serde(default)] f1: X<2> }
fn n519() {
    tag("N519");
    admitted(ty::<N519>(), &j(&N519 { f0: 7, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N520 { #[opg(format = "f", example = "e", optional, boolean)] #[serde(rename(serialize = "Ser284", deserialize = "De284"))] f0: X<3>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n520() {
    tag("N520");
    admitted(ty::<N520>(), &j(&N520 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N521(#[opg(integer, optional, "text")] #[serde(skip_serializing_if = "gone")] X<1>);
fn n521() {
    tag("N521");
    admitted(ty::<N521>(), &j(&N521(X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N522 { #[serde(rename = "Gone 487", skip_serializing_if = "gone")] #[opg(boolean, nullable, "text")] f0: X<3>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n522() {
    tag("N522");
    admitted(ty::<N522>(), &j(&N522 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N523 { #[serde(rename = "re-N142")] #[opg(inline, optional, integer)] f0: X<1> }
fn n523() {
    tag("N523");
    admitted(ty::<N523>(), &j(&N523 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N524(#[opg("text", inline, boolean)] #[serde(skip_deserializing)] X<3>, #[serde(skip)] u8);
fn n524() {
    tag("N524");
    admitted(ty::<N524>(), &j(&N524(X::<3>::any(), 7)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N525 { f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(skip_serializing_if = "gone")] #[opg(string)] f1: X<0> }
fn n525() {
    tag("N525");
    admitted(ty::<N525>(), &j(&N525 { f0: std::marker::PhantomData, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N526 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[opg(optional)] #[serde(rename = "re-N103")] f1: V<0>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n526() {
    tag("N526");
    newtype_struct(ty::<N526>(), ty::<V<0>>(), &j(&N526 { f0: String::new(), f1: V::<0>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N527(#[opg("text", example = "e", format = "f")] #[serde(rename = "re-N117")] V<0>);
fn n527() {
    tag("N527");
    admitted(ty::<N527>(), &j(&N527(V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N528 { #[serde(rename(serialize = "Ser262", deserialize = "De262"))] #[opg(nullable, optional, number)] f0: X<2> }
fn n528() {
    tag("N528");
    admitted(ty::<N528>(), &j(&N528 { f0: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N529 { #[serde(skip)] f0: u8, #[serde(default)] #[opg(nullable, inline, boolean)] f1: X<3> }
fn n529() {
    tag("N529");
    admitted(ty::<N529>(), &j(&N529 { f0: 7, f1: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N530(#[opg(number, optional, example = "e", format = "f")] #[serde(rename(serialize = "Ser267", deserialize = "De267"))] X<2>, std::marker::PhantomData<std::sync::Barrier>);
fn n530() {
    tag("N530");
    admitted(ty::<N530>(), &j(&N530(X::<2>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N531 { #[opg(boolean, "text", example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f0: X<3>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n531() {
    tag("N531");
    admitted(ty::<N531>(), &j(&N531 { f0: X::<3>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N532 { #[serde(rename = "re-N121")] #[opg(string, inline)] f0: X<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n532() {
    tag("N532");
    admitted(ty::<N532>(), &j(&N532 { f0: X::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N533 { #[opg("text", example = "e", format = "f")] #[serde(default)] f0: V<0> }
fn n533() {
    tag("N533");
    admitted(ty::<N533>(), &j(&N533 { f0: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N534 { #[opg(boolean, "text", example = "e", format = "f")] f0: X<3>, #[serde(skip)] f1: u8 }
fn n534() {
    tag("N534");
    admitted(ty::<N534>(), &j(&N534 { f0: X::<3>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N535 { f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(skip_serializing_if = "gone")] #[opg(inline)] f1: V<0> }
fn n535() {
    tag("N535");
    newtype_struct(ty::<N535>(), ty::<V<0>>(), &j(&N535 { f0: std::marker::PhantomData, f1: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N536(#[serde(skip_serializing)] #[opg(optional)] String, std::marker::PhantomData<std::sync::Barrier>, #[serde(skip_serializing_if = "gone")] #[opg(format = "f", example = "e", optional, boolean)] X<3>);
fn n536() {
    tag("N536");
    admitted(ty::<N536>(), &j(&N536(String::new(), std::marker::PhantomData, X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N537 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[opg("text", inline, integer)] #[serde(skip_deserializing)] f1: X<1> }
fn n537() {
    tag("N537");
    admitted(ty::<N537>(), &j(&N537 { f0: std::marker::PhantomData, f1: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N538 { #[serde(skip_deserializing)] #[opg("text", nullable, string)] f0: X<0> }
fn n538() {
    tag("N538");
    admitted(ty::<N538>(), &j(&N538 { f0: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N539(#[serde(rename = "Gone 477", skip_serializing_if = "gone")] #[opg(boolean, optional)] X<3>);
fn n539() {
    tag("N539");
    admitted(ty::<N539>(), &j(&N539(X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N540 { #[opg(boolean, nullable, "text")] #[serde(default)] f0: X<3>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n540() {
    tag("N540");
    admitted(ty::<N540>(), &j(&N540 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N541 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[serde(skip_serializing_if = "gone")] #[opg(inline, boolean)] f1: X<3>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n541() {
    tag("N541");
    admitted(ty::<N541>(), &j(&N541 { f0: String::new(), f1: X::<3>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N542 { #[opg(boolean, optional, nullable)] #[serde(default)] f0: X<3>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n542() {
    tag("N542");
    admitted(ty::<N542>(), &j(&N542 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N543 { #[serde(skip_deserializing)] #[opg(format = "f", example = "e", number)] f0: X<2> }
fn n543() {
    tag("N543");
    admitted(ty::<N543>(), &j(&N543 { f0: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N544 { #[opg(example = "e", format = "f")] #[serde(rename = "re-N107")] f0: V<0>, #[serde(skip)] f1: u8 }
fn n544() {
    tag("N544");
    admitted(ty::<N544>(), &j(&N544 { f0: V::<0>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N545(#[serde(rename = "re-N108")] #[opg(inline, optional)] V<0>);
fn n545() {
    tag("N545");
    newtype_struct(ty::<N545>(), ty::<V<0>>(), &j(&N545(V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N546 { #[opg(optional, string)] #[serde(skip_serializing_if = "gone")] f0: X<0>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n546() {
    tag("N546");
    admitted(ty::<N546>(), &j(&N546 { f0: X::<0>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N547 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(string, inline, "text")] #[serde(rename(serialize = "Ser231", deserialize = "De231"))] f1: X<0> }
fn n547() {
    tag("N547");
    admitted(ty::<N547>(), &j(&N547 { f0: std::marker::PhantomData, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
pub struct N548(#[opg(nullable, optional, number)] #[serde(skip_serializing_if = "gone")] X<2>);
fn n548() {
    tag("N548");
    admitted(ty::<N548>(), &j(&N548(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N549 { #[serde(skip)] f0: u8, #[serde(rename = "re-N119")] #[opg(string)] f1: X<0> }
fn n549() {
    tag("N549");
    admitted(ty::<N549>(), &j(&N549 { f0: 7, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N550 { #[serde(skip_deserializing)] #[opg(format = "f", example = "e", inline, number)] f0: X<2>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n550() {
    tag("N550");
    admitted(ty::<N550>(), &j(&N550 { f0: X::<2>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
pub struct N551(#[opg(number, inline)] #[serde(rename(serialize = "Ser257", deserialize = "De257"))] X<2>);
fn n551() {
    tag("N551");
    admitted(ty::<N551>(), &j(&N551(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N552 { #[serde(default)] #[opg(optional, inline, nullable, "text", format = "f", example = "e", integer)] f0: X<1>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n552() {
    tag("N552");
    admitted(ty::<N552>(), &j(&N552 { f0: X::<1>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N553 { #[serde(default)] #[opg(boolean)] f0: X<3> }
fn n553() {
    tag("N553");
    admitted(ty::<N553>(), &j(&N553 { f0: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N554(#[opg(nullable, inline, boolean)] #[serde(skip_deserializing)] X<3>, #[serde(skip)] u8);
fn n554() {
    tag("N554");
    admitted(ty::<N554>(), &j(&N554(X::<3>::any(), 7)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N555 { f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(optional, number)] #[serde(default)] f1: X<2> }
fn n555() {
    tag("N555");
    admitted(ty::<N555>(), &j(&N555 { f0: std::marker::PhantomData, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N556 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[serde(skip_deserializing)] #[opg("text", optional, string)] f1: X<0>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n556() {
    tag("N556");
    admitted(ty::<N556>(), &j(&N556 { f0: String::new(), f1: X::<0>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N557(#[opg(format = "f", example = "e", optional)] #[serde(rename = "Gone 420", skip_serializing_if = "gone")] V<0>);
fn n557() {
    tag("N557");
    admitted(ty::<N557>(), &j(&N557(V::<0>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N558 { #[serde(skip_serializing_if = "gone")] #[opg(number, optional, example = "e", format = "f")] f0: X<2> }
fn n558() {
    tag("N558");
    admitted(ty::<N558>(), &j(&N558 { f0: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N559 { #[serde(skip)] f0: u8, #[serde(rename = "Gone 451", skip_serializing_if = "gone")] #[opg(integer, optional, "text")] f1: X<1> }
fn n559() {
    tag("N559");
    admitted(ty::<N559>(), &j(&N559 { f0: 7, f1: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N560(#[opg(boolean, example = "e", format = "f")] X<3>, std::marker::PhantomData<std::sync::Barrier>);
fn n560() {
    tag("N560");
    admitted(ty::<N560>(), &j(&N560(X::<3>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N561 { #[opg(example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f0: V<0>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n561() {
    tag("N561");
    admitted(ty::<N561>(), &j(&N561 { f0: V::<0>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N562 { #[opg(inline)] #[serde(rename = "Gone 410", skip_serializing_if = "gone")] f0: V<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n562() {
    tag("N562");
    newtype_struct(ty::<N562>(), ty::<V<0>>(), &j(&N562 { f0: V::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N563(#[serde(rename = "re-N159")] #[opg(number, optional, inline)] X<2>);
fn n563() {
    tag("N563");
    admitted(ty::<N563>(), &j(&N563(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N564 { #[opg(integer, "text", example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f0: X<1>, #[serde(skip)] f1: u8 }
fn n564() {
    tag("N564");
    admitted(ty::<N564>(), &j(&N564 { f0: X::<1>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N565 { f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(format = "f", example = "e", optional)] #[serde(rename(serialize = "Ser216", deserialize = "De216"))] f1: V<0> }
fn n565() {
    tag("N565");
    admitted(ty::<N565>(), &j(&N565 { f0: std::marker::PhantomData, f1: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N566(#[serde(skip_serializing)] #[opg(optional)] String, std::marker::PhantomData<std::sync::Barrier>, #[opg(optional, number)] #[serde(rename = "re-N154")] X<2>);
fn n566() {
    tag("N566");
    admitted(ty::<N566>(), &j(&N566(String::new(), std::marker::PhantomData, X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N567 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(integer)] f1: X<1> }
fn n567() {
    tag("N567");
    admitted(ty::<N567>(), &j(&N567 { f0: std::marker::PhantomData, f1: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N568 { #[serde(skip_deserializing)] #[opg(nullable, "text")] f0: V<0> }
fn n568() {
    tag("N568");
    admitted(ty::<N568>(), &j(&N568 { f0: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
pub struct N569(#[serde(rename = "Gone 447", skip_serializing_if = "gone")] #[opg(integer, example = "e", format = "f")] X<1>);
fn n569() {
    tag("N569");
    admitted(ty::<N569>(), &j(&N569(X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N570 { #[serde(default)] f0: V<0>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n570() {
    tag("N570");
    newtype_struct(ty::<N570>(), ty::<V<0>>(), &j(&N570 { f0: V::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N571 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[serde(skip_deserializing)] #[opg(boolean, nullable)] f1: X<3>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n571() {
    tag("N571");
    admitted(ty::<N571>(), &j(&N571 { f0: String::new(), f1: X::<3>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N572(#[serde(rename = "Gone 462", skip_serializing_if = "gone")] #[opg(nullable, number)] X<2>, #[opg(optional)] std::marker::PhantomData<std::sync::Barrier>);
fn n572() {
    tag("N572");
    admitted(ty::<N572>(), &j(&N572(X::<2>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N573 { #[opg(boolean, optional, "text")] f0: X<3> }
fn n573() {
    tag("N573");
    admitted(ty::<N573>(), &j(&N573 { f0: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N574 { #[opg(nullable)] f0: V<0>, #[serde(skip)] f1: u8 }
fn n574() {
    tag("N574");
    admitted(ty::<N574>(), &j(&N574 { f0: V::<0>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N575(#[opg(inline, optional, boolean)] X<3>);
fn n575() {
    tag("N575");
    admitted(ty::<N575>(), &j(&N575(X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N576 { #[opg(format = "f", example = "e", "text", string)] #[serde(skip_serializing_if = "gone")] f0: X<0>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n576() {
    tag("N576");
    admitted(ty::<N576>(), &j(&N576 { f0: X::<0>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N577 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] f1: X<2> }
fn n577() {
    tag("N577");
    admitted(ty::<N577>(), &j(&N577 { f0: std::marker::PhantomData, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N578 { #[opg(integer, nullable, "text")] #[serde(default)] f0: X<1> }
fn n578() {
    tag("N578");
    admitted(ty::<N578>(), &j(&N578 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N579 { #[serde(skip)] f0: u8, f1: V<0> }
fn n579() {
    tag("N579");
    newtype_struct(ty::<N579>(), ty::<V<0>>(), &j(&N579 { f0: 7, f1: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N580 { #[opg(nullable, optional, number)] #[serde(default)] f0: X<2>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n580() {
    tag("N580");
    admitted(ty::<N580>(), &j(&N580 { f0: X::<2>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N581(#[opg(nullable, inline, integer)] #[serde(rename(serialize = "Ser246", deserialize = "De246"))] X<1>);
fn n581() {
    tag("N581");
    admitted(ty::<N581>(), &j(&N581(X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N582 { #[opg(nullable, "text")] #[serde(default)] f0: V<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n582() {
    tag("N582");
    admitted(ty::<N582>(), &j(&N582 { f0: V::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N583 { #[serde(skip_deserializing)] #[opg(optional, nullable)] f0: V<0> }
fn n583() {
    tag("N583");
    admitted(ty::<N583>(), &j(&N583 { f0: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N584(#[opg("text", integer)] #[serde(rename(serialize = "Ser242", deserialize = "De242"))] X<1>, #[serde(skip)] u8);
fn n584() {
    tag("N584");
    admitted(ty::<N584>(), &j(&N584(X::<1>::any(), 7)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N585 { f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(number)] #[serde(skip_deserializing)] f1: X<2> }
fn n585() {
    tag("N585");
    admitted(ty::<N585>(), &j(&N585 { f0: std::marker::PhantomData, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N586 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[opg(optional, inline, nullable, "text", format = "f", example = "e", boolean)] f1: X<3>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n586() {
    tag("N586");
    admitted(ty::<N586>(), &j(&N586 { f0: String::new(), f1: X::<3>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
pub struct N587(#[serde(rename(serialize = "Ser251", deserialize = "De251"))] #[opg(integer, inline, example = "e", format = "f")] X<1>);
fn n587() {
    tag("N587");
    admitted(ty::<N587>(), &j(&N587(X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N588 { #[serde(skip_deserializing)] #[opg(boolean, inline, example = "e", format = "f")] f0: X<3> }
fn n588() {
    tag("N588");
    admitted(ty::<N588>(), &j(&N588 { f0: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N589 { #[serde(skip)] f0: u8, #[opg(boolean, optional, "text")] #[serde(default)] f1: X<3> }
fn n589() {
    tag("N589");
    admitted(ty::<N589>(), &j(&N589 { f0: 7, f1: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N590(#[opg("text", boolean)] #[serde(skip_deserializing)] X<3>, std::marker::PhantomData<std::sync::Barrier>);
fn n590() {
    tag("N590");
    admitted(ty::<N590>(), &j(&N590(X::<3>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N591 { #[serde(skip_serializing_if = "gone")] #[opg(number, inline)] f0: X<2>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n591() {
    tag("N591");
    admitted(ty::<N591>(), &j(&N591 { f0: X::<2>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N592 { #[opg(string, inline, "text")] f0: X<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n592() {
    tag("N592");
    admitted(ty::<N592>(), &j(&N592 { f0: X::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N593(#[opg("text", nullable, number)] X<2>);
fn n593() {
    tag("N593");
    admitted(ty::<N593>(), &j(&N593(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N594 { #[serde(rename = "Gone 455", skip_serializing_if = "gone")] #[opg(integer, inline, example = "e", format = "f")] f0: X<1>, #[serde(skip)] f1: u8 }
fn n594() {
    tag("N594");
    admitted(ty::<N594>(), &j(&N594 { f0: X::<1>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N595 { f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(rename = "re-N169")] #[opg(number, example = "e", format = "f", "text", nullable, inline, optional)] f1: X<2> }
fn n595() {
    tag("N595");
    admitted(ty::<N595>(), &j(&N595 { f0: std::marker::PhantomData, f1: X::<2>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N596(#[serde(skip_serializing)] #[opg(optional)] String, std::marker::PhantomData<std::sync::Barrier>, #[serde(rename(serialize = "Ser247", deserialize = "De247"))] #[opg(integer, optional, "text")] X<1>);
fn n596() {
    tag("N596");
    admitted(ty::<N596>(), &j(&N596(String::new(), std::marker::PhantomData, X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N597 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(rename = "re-N178")] #[opg(nullable, inline, boolean)] f1: X<3> }
fn n597() {
    tag("N597");
    admitted(ty::<N597>(), &j(&N597 { f0: std::marker::PhantomData, f1: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N598 { #[opg(format = "f", example = "e", nullable, integer)] #[serde(skip_deserializing)] f0: X<1> }
fn n598() {
    tag("N598");
    admitted(ty::<N598>(), &j(&N598 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N599(#[opg(inline, boolean)] #[serde(skip_deserializing)] X<3>);
fn n599() {
    tag("N599");
    admitted(ty::<N599>(), &j(&N599(X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N600 { #[opg(boolean, inline, example = "e", format = "f")] #[serde(skip_serializing_if = "gone")] f0: X<3>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n600() {
    tag("N600");
    admitted(ty::<N600>(), &j(&N600 { f0: X::<3>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N601 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[serde(skip_serializing_if = "gone")] #[opg(boolean)] f1: X<3>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n601() {
    tag("N601");
    admitted(ty::<N601>(), &j(&N601 { f0: String::new(), f1: X::<3>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N602(#[serde(rename(serialize = "Ser243", deserialize = "De243"))] #[opg(integer, example = "e", format = "f")] X<1>, #[opg(optional)] std::marker::PhantomData<std::sync::Barrier>);
fn n602() {
    tag("N602");
    admitted(ty::<N602>(), &j(&N602(X::<1>::any(), std::marker::PhantomData)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[opg(inline)]
pub struct N603 { #[serde(default)] #[opg(inline, optional, integer)] f0: X<1> }
fn n603() {
    tag("N603");
    admitted(ty::<N603>(), &j(&N603 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N604 { #[opg(nullable, "text")] #[serde(rename = "re-N113")] f0: V<0>, #[serde(skip)] f1: u8 }
fn n604() {
    tag("N604");
    admitted(ty::<N604>(), &j(&N604 { f0: V::<0>::any(), f1: 7 }));
}
#[derive(Serialize, OpgModel)]
pub struct N605(#[opg(integer, optional, nullable)] #[serde(skip_serializing_if = "gone")] X<1>);
fn n605() {
    tag("N605");
    admitted(ty::<N605>(), &j(&N605(X::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
pub struct N606 { #[opg("text", nullable, number)] #[serde(skip_serializing_if = "gone")] f0: X<2>, #[serde(skip_serializing)] #[opg(optional)] f1: String, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n606() {
    tag("N606");
    admitted(ty::<N606>(), &j(&N606 { f0: X::<2>::any(), f1: String::new(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "lowercase")]
pub struct N607 { #[opg(optional)] f0: std::marker::PhantomData<std::sync::Barrier>, #[opg(inline, boolean)] #[serde(rename(serialize = "Ser274", deserialize = "De274"))] f1: X<3> }
fn n607() {
    tag("N607");
    admitted(ty::<N607>(), &j(&N607 { f0: std::marker::PhantomData, f1: X::<3>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "UPPERCASE")]
pub struct N608 { #[serde(default)] #[opg(format = "f", example = "e", nullable, integer)] f0: X<1> }
fn n608() {
    tag("N608");
    admitted(ty::<N608>(), &j(&N608 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "PascalCase")]
pub struct N609 { #[serde(skip)] f0: u8, #[opg(string, inline, nullable)] f1: X<0> }
fn n609() {
    tag("N609");
    admitted(ty::<N609>(), &j(&N609 { f0: 7, f1: X::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "camelCase")]
pub struct N610 { #[opg(number, nullable, example = "e", format = "f")] f0: X<2>, f1: std::marker::PhantomData<std::sync::Barrier> }
fn n610() {
    tag("N610");
    admitted(ty::<N610>(), &j(&N610 { f0: X::<2>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct N611(#[opg(boolean, optional, nullable)] #[serde(skip_serializing_if = "gone")] X<3>);
fn n611() {
    tag("N611");
    admitted(ty::<N611>(), &j(&N611(X::<3>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct N612 { #[opg(format = "f", example = "e", "text", string)] #[serde(rename = "re-N134")] f0: X<0>, #[opg(optional)] f1: std::marker::PhantomData<std::sync::Barrier> }
fn n612() {
    tag("N612");
    admitted(ty::<N612>(), &j(&N612 { f0: X::<0>::any(), f1: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "kebab-case")]
pub struct N613 { #[opg(integer, inline, example = "e", format = "f")] #[serde(default)] f0: X<1> }
fn n613() {
    tag("N613");
    admitted(ty::<N613>(), &j(&N613 { f0: X::<1>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct N614(#[opg(integer, nullable)] #[serde(rename = "re-N139")] X<1>, #[serde(skip)] u8);
fn n614() {
    tag("N614");
    admitted(ty::<N614>(), &j(&N614(X::<1>::any(), 7)));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct N615 { f0: std::marker::PhantomData<std::sync::Barrier>, #[serde(rename = "Gone 409", skip_serializing_if = "gone")] #[opg(optional)] f1: V<0> }
fn n615() {
    tag("N615");
    newtype_struct(ty::<N615>(), ty::<V<0>>(), &j(&N615 { f0: std::marker::PhantomData, f1: V::<0>::any() }));
}
#[derive(Serialize, OpgModel)]
#[serde(transparent)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct N616 { #[serde(skip_serializing)] #[opg(optional)] f0: String, #[opg(format = "f", example = "e", number)] #[serde(rename = "re-N158")] f1: X<2>, f2: std::marker::PhantomData<std::sync::Barrier> }
fn n616() {
    tag("N616");
    admitted(ty::<N616>(), &j(&N616 { f0: String::new(), f1: X::<2>::any(), f2: std::marker::PhantomData }));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct N617(#[opg(number, inline, "text")] #[serde(skip_deserializing)] X<2>);
fn n617() {
    tag("N617");
    admitted(ty::<N617>(), &j(&N617(X::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct K618 {
}
fn k618() {
    tag("K618");
    let full = j(&K618 {  });
    let v = j(&K618 {  });
    named_struct(ty::<K618>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
pub struct K619 {
    #[serde(rename = "x-Y")]
    pub k0_x: V<0>,
}
fn k619() {
    tag("K619");
    let full = j(&K619 { k0_x: V::<0>::default() });
    let v = j(&K619 { k0_x: V::<0>::any() });
    named_struct(ty::<K619>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub struct K620 {
    pub k0_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    pub k1_x: V<1>,
}
fn k620() {
    tag("K620");
    let full = j(&K620 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K620 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe() });
    named_struct(ty::<K620>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
pub struct K621 {
    pub k0_x: V<0>,
}
fn k621() {
    tag("K621");
    let full = j(&K621 { k0_x: V::<0>::default() });
    let v = j(&K621 { k0_x: V::<0>::any() });
    named_struct(ty::<K621>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct K622 {
    pub k0_x: V<0>,
}
fn k622() {
    tag("K622");
    let full = j(&K622 { k0_x: V::<0>::default() });
    let v = j(&K622 { k0_x: V::<0>::any() });
    named_struct(ty::<K622>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct K623 {
    pub k0_x: V<0>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub k1_x: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub k2_x: V<2>,
}
fn k623() {
    tag("K623");
    let full = j(&K623 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K623 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::maybe() });
    named_struct(ty::<K623>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "an \"other\"")]
pub struct K624 {
    pub k0_x: V<0>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k1_x: V<1>,
    #[opg(inline)]
    pub k2_x: V<2>,
}
fn k624() {
    tag("K624");
    let full = j(&K624 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K624 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K624>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "an \"other\"")]
pub struct K625 {
}
fn k625() {
    tag("K625");
    let full = j(&K625 {  });
    let v = j(&K625 {  });
    named_struct(ty::<K625>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct K626 {
    pub k0_x: V<0>,
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k626() {
    tag("K626");
    let full = j(&K626 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K626 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K626>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub struct K627 {
    pub k0_x: V<0>,
}
fn k627() {
    tag("K627");
    let full = j(&K627 { k0_x: V::<0>::default() });
    let v = j(&K627 { k0_x: V::<0>::any() });
    named_struct(ty::<K627>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K628 {
    pub k0_x: V<0>,
}
fn k628() {
    tag("K628");
    let full = j(&K628 { k0_x: V::<0>::default() });
    let v = j(&K628 { k0_x: V::<0>::any() });
    named_struct(ty::<K628>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K629 {
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
}
fn k629() {
    tag("K629");
    let full = j(&K629 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K629 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K629>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "", rename_all = "kebab-case")]
pub struct K630 {
    pub k0_x: V<0>,
    #[serde(skip)]
    pub k1_x: V<1>,
    pub k2_x: V<2>,
}
fn k630() {
    tag("K630");
    let full = j(&K630 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K630 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K630>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "", rename_all = "kebab-case")]
pub struct K631 {
}
fn k631() {
    tag("K631");
    let full = j(&K631 {  });
    let v = j(&K631 {  });
    named_struct(ty::<K631>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K632 {
}
fn k632() {
    tag("K632");
    let full = j(&K632 {  });
    let v = j(&K632 {  });
    named_struct(ty::<K632>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K633 {
    pub k0_x: V<0>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub k1_x: V<1>,
}
fn k633() {
    tag("K633");
    let full = j(&K633 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K633 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K633>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct K634 {
    pub k0_x: V<0>,
}
fn k634() {
    tag("K634");
    let full = j(&K634 { k0_x: V::<0>::default() });
    let v = j(&K634 { k0_x: V::<0>::any() });
    named_struct(ty::<K634>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
pub struct K635 {
    pub k0_x: V<0>,
    pub k1_x: V<1>,
    #[serde(skip_deserializing)]
    pub k2_x: V<2>,
}
fn k635() {
    tag("K635");
    let full = j(&K635 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K635 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K635>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
#[opg(nullable)]
pub struct K636 {
    pub k0_x: V<0>,
    #[serde(skip_deserializing)]
    pub k1_x: V<1>,
    #[opg(optional)]
    pub k2_x: V<2>,
}
fn k636() {
    tag("K636");
    let full = j(&K636 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K636 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K636>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(tag = "kind")]
pub struct K637 {
}
fn k637() {
    tag("K637");
    let full = j(&K637 {  });
    let v = j(&K637 {  });
    named_struct(ty::<K637>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(nullable)]
pub struct K638 {
}
fn k638() {
    tag("K638");
    let full = j(&K638 {  });
    let v = j(&K638 {  });
    named_struct(ty::<K638>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(rename = "Other")]
pub struct K639 {
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub k0_x: V<0>,
}
fn k639() {
    tag("K639");
    let full = j(&K639 { k0_x: V::<0>::default() });
    let v = j(&K639 { k0_x: V::<0>::any() });
    named_struct(ty::<K639>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename = "Other")]
#[opg(nullable)]
pub struct K640 {
    pub k0_x: V<0>,
    #[serde(rename = "x-Y")]
    pub k1_x: V<1>,
}
fn k640() {
    tag("K640");
    let full = j(&K640 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K640 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K640>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(tag = "type", rename = "Other")]
pub struct K641 {
    pub k0_x: V<0>,
}
fn k641() {
    tag("K641");
    let full = j(&K641 { k0_x: V::<0>::default() });
    let v = j(&K641 { k0_x: V::<0>::any() });
    named_struct(ty::<K641>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(nullable)]
pub struct K642 {
    pub k0_x: V<0>,
    #[serde(default)]
    pub k1_x: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub k2_x: V<2>,
}
fn k642() {
    tag("K642");
    let full = j(&K642 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K642 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::maybe() });
    named_struct(ty::<K642>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(rename_all = "snake_case")]
pub struct K643 {
}
fn k643() {
    tag("K643");
    let full = j(&K643 {  });
    let v = j(&K643 {  });
    named_struct(ty::<K643>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(nullable)]
pub struct K644 {
}
fn k644() {
    tag("K644");
    let full = j(&K644 {  });
    let v = j(&K644 {  });
    named_struct(ty::<K644>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K645 {
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
}
fn k645() {
    tag("K645");
    let full = j(&K645 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K645 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K645>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
#[opg(nullable)]
pub struct K646 {
    pub k0_x: V<0>,
    #[serde(rename(deserialize = "dE"))]
    pub k1_x: V<1>,
}
fn k646() {
    tag("K646");
    let full = j(&K646 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K646 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K646>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
pub struct K647 {
    pub k0_x: V<0>,
}
fn k647() {
    tag("K647");
    let full = j(&K647 { k0_x: V::<0>::default() });
    let v = j(&K647 { k0_x: V::<0>::any() });
    named_struct(ty::<K647>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(nullable)]
pub struct K648 {
    pub k0_x: V<0>,
}
fn k648() {
    tag("K648");
    let full = j(&K648 { k0_x: V::<0>::default() });
    let v = j(&K648 { k0_x: V::<0>::any() });
    named_struct(ty::<K648>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable)]
#[serde(tag = "kind", rename = "", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K649 {
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub k0_x: V<0>,
    #[serde(default)]
    pub k1_x: V<1>,
}
fn k649() {
    tag("K649");
    let full = j(&K649 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K649 { k0_x: V::<0>::maybe(), k1_x: V::<1>::any() });
    named_struct(ty::<K649>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct K650 {
    pub k0_x: V<0>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub k1_x: V<1>,
}
fn k650() {
    tag("K650");
    let full = j(&K650 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K650 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K650>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct K651 {
    pub k0_x: V<0>,
}
fn k651() {
    tag("K651");
    let full = j(&K651 { k0_x: V::<0>::default() });
    let v = j(&K651 { k0_x: V::<0>::any() });
    named_struct(ty::<K651>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type")]
#[opg(inline)]
pub struct K652 {
    pub k0_x: V<0>,
}
fn k652() {
    tag("K652");
    let full = j(&K652 { k0_x: V::<0>::default() });
    let v = j(&K652 { k0_x: V::<0>::any() });
    named_struct(ty::<K652>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "type")]
pub struct K653 {
    pub k0_x: V<0>,
    #[serde(skip_deserializing)]
    pub k1_x: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub k2_x: V<2>,
}
fn k653() {
    tag("K653");
    let full = j(&K653 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K653 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K653>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
#[opg(inline)]
pub struct K654 {
    pub k0_x: V<0>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub k1_x: V<1>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub k2_x: V<2>,
}
fn k654() {
    tag("K654");
    let full = j(&K654 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K654 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K654>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(rename = "Other")]
pub struct K655 {
}
fn k655() {
    tag("K655");
    let full = j(&K655 {  });
    let v = j(&K655 {  });
    named_struct(ty::<K655>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "Other")]
#[opg(inline)]
pub struct K656 {
}
fn k656() {
    tag("K656");
    let full = j(&K656 {  });
    let v = j(&K656 {  });
    named_struct(ty::<K656>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "t-Ag", rename = "Other")]
pub struct K657 {
    pub k0_x: V<0>,
    #[serde(rename = "x-Y")]
    pub k1_x: V<1>,
}
fn k657() {
    tag("K657");
    let full = j(&K657 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K657 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K657>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(inline)]
pub struct K658 {
    pub k0_x: V<0>,
}
fn k658() {
    tag("K658");
    let full = j(&K658 { k0_x: V::<0>::default() });
    let v = j(&K658 { k0_x: V::<0>::any() });
    named_struct(ty::<K658>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(rename_all = "snake_case")]
pub struct K659 {
    #[serde(default)]
    pub k0_x: V<0>,
    #[serde(skip)]
    pub k1_x: V<1>,
}
fn k659() {
    tag("K659");
    let full = j(&K659 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K659 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K659>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(inline)]
pub struct K660 {
    pub k0_x: V<0>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub k1_x: V<1>,
    #[serde(skip_serializing_if = "gone")]
    pub k2_x: V<2>,
}
fn k660() {
    tag("K660");
    let full = j(&K660 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K660 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::maybe() });
    named_struct(ty::<K660>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "kind", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K661 {
}
fn k661() {
    tag("K661");
    let full = j(&K661 {  });
    let v = j(&K661 {  });
    named_struct(ty::<K661>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
#[opg(inline)]
pub struct K662 {
}
fn k662() {
    tag("K662");
    let full = j(&K662 {  });
    let v = j(&K662 {  });
    named_struct(ty::<K662>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
pub struct K663 {
    pub k0_x: V<0>,
    #[serde(rename(deserialize = "dE"))]
    pub k1_x: V<1>,
}
fn k663() {
    tag("K663");
    let full = j(&K663 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K663 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K663>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(inline)]
pub struct K664 {
    pub k0_x: V<0>,
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k664() {
    tag("K664");
    let full = j(&K664 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K664 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K664>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
#[serde(tag = "type", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K665 {
    pub k0_x: V<0>,
}
fn k665() {
    tag("K665");
    let full = j(&K665 { k0_x: V::<0>::default() });
    let v = j(&K665 { k0_x: V::<0>::any() });
    named_struct(ty::<K665>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
pub struct K666 {
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
    #[opg(nullable)]
    pub k2_x: V<2>,
}
fn k666() {
    tag("K666");
    let full = j(&K666 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K666 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K666>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
pub struct K667 {
}
fn k667() {
    tag("K667");
    let full = j(&K667 {  });
    let v = j(&K667 {  });
    named_struct(ty::<K667>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(nullable, inline)]
pub struct K668 {
}
fn k668() {
    tag("K668");
    let full = j(&K668 {  });
    let v = j(&K668 {  });
    named_struct(ty::<K668>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(tag = "t-Ag")]
pub struct K669 {
    #[serde(skip_serializing)]
    pub k0_x: V<0>,
}
fn k669() {
    tag("K669");
    let full = j(&K669 { k0_x: V::<0>::default() });
    let v = j(&K669 { k0_x: V::<0>::any() });
    named_struct(ty::<K669>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "")]
#[opg(nullable, inline)]
pub struct K670 {
    pub k0_x: V<0>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k670() {
    tag("K670");
    let full = j(&K670 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K670 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe() });
    named_struct(ty::<K670>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(rename = "")]
pub struct K671 {
    pub k0_x: V<0>,
}
fn k671() {
    tag("K671");
    let full = j(&K671 { k0_x: V::<0>::default() });
    let v = j(&K671 { k0_x: V::<0>::any() });
    named_struct(ty::<K671>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other")]
#[opg(nullable, inline)]
pub struct K672 {
    pub k0_x: V<0>,
}
fn k672() {
    tag("K672");
    let full = j(&K672 { k0_x: V::<0>::default() });
    let v = j(&K672 { k0_x: V::<0>::any() });
    named_struct(ty::<K672>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(tag = "kind", rename = "Other")]
pub struct K673 {
    pub k0_x: V<0>,
    pub k1_x: V<1>,
    #[serde(skip_deserializing)]
    pub k2_x: V<2>,
}
fn k673() {
    tag("K673");
    let full = j(&K673 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K673 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K673>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(nullable, inline)]
pub struct K674 {
}
fn k674() {
    tag("K674");
    let full = j(&K674 {  });
    let v = j(&K674 {  });
    named_struct(ty::<K674>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(rename_all = "snake_case")]
pub struct K675 {
    pub k0_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    pub k1_x: V<1>,
}
fn k675() {
    tag("K675");
    let full = j(&K675 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K675 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe() });
    named_struct(ty::<K675>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(nullable, inline)]
pub struct K676 {
    pub k0_x: V<0>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub k1_x: V<1>,
}
fn k676() {
    tag("K676");
    let full = j(&K676 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K676 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K676>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K677 {
    pub k0_x: V<0>,
}
fn k677() {
    tag("K677");
    let full = j(&K677 { k0_x: V::<0>::default() });
    let v = j(&K677 { k0_x: V::<0>::any() });
    named_struct(ty::<K677>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
#[opg(nullable, inline)]
pub struct K678 {
    pub k0_x: V<0>,
}
fn k678() {
    tag("K678");
    let full = j(&K678 { k0_x: V::<0>::default() });
    let v = j(&K678 { k0_x: V::<0>::any() });
    named_struct(ty::<K678>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(rename = "an \"other\"", rename_all = "kebab-case")]
pub struct K679 {
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k0_x: V<0>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k679() {
    tag("K679");
    let full = j(&K679 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K679 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K679>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(nullable, inline)]
pub struct K680 {
    pub k0_x: V<0>,
    #[serde(default)]
    pub k1_x: V<1>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub k2_x: V<2>,
}
fn k680() {
    tag("K680");
    let full = j(&K680 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K680 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::maybe() });
    named_struct(ty::<K680>(), &full, &v, &[true, true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline)]
#[serde(tag = "t-Ag", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K681 {
}
fn k681() {
    tag("K681");
    let full = j(&K681 {  });
    let v = j(&K681 {  });
    named_struct(ty::<K681>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct K682 {
    pub k0_x: V<0>,
}
fn k682() {
    tag("K682");
    let full = j(&K682 { k0_x: V::<0>::default() });
    let v = j(&K682 { k0_x: V::<0>::any() });
    named_struct(ty::<K682>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct K683 {
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k2_x: V<2>,
}
fn k683() {
    tag("K683");
    let full = j(&K683 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K683 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K683>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
#[opg("about")]
pub struct K684 {
    pub k0_x: V<0>,
    #[serde(rename(deserialize = "dE"))]
    pub k1_x: V<1>,
    #[serde(skip_serializing)]
    pub k2_x: V<2>,
}
fn k684() {
    tag("K684");
    let full = j(&K684 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K684 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K684>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "kind")]
pub struct K685 {
}
fn k685() {
    tag("K685");
    let full = j(&K685 {  });
    let v = j(&K685 {  });
    named_struct(ty::<K685>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "")]
#[opg("about")]
pub struct K686 {
}
fn k686() {
    tag("K686");
    let full = j(&K686 {  });
    let v = j(&K686 {  });
    named_struct(ty::<K686>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename = "")]
pub struct K687 {
    pub k0_x: V<0>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k687() {
    tag("K687");
    let full = j(&K687 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K687 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe() });
    named_struct(ty::<K687>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename = "")]
#[opg("about")]
pub struct K688 {
    pub k0_x: V<0>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub k1_x: V<1>,
}
fn k688() {
    tag("K688");
    let full = j(&K688 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K688 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K688>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "type", rename = "")]
pub struct K689 {
}
fn k689() {
    tag("K689");
    let full = j(&K689 {  });
    let v = j(&K689 {  });
    named_struct(ty::<K689>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg("about")]
pub struct K690 {
    pub k0_x: V<0>,
    #[serde(skip_serializing)]
    pub k1_x: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub k2_x: V<2>,
}
fn k690() {
    tag("K690");
    let full = j(&K690 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K690 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K690>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename_all = "snake_case")]
pub struct K691 {
}
fn k691() {
    tag("K691");
    let full = j(&K691 {  });
    let v = j(&K691 {  });
    named_struct(ty::<K691>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg("about")]
pub struct K692 {
}
fn k692() {
    tag("K692");
    let full = j(&K692 {  });
    let v = j(&K692 {  });
    named_struct(ty::<K692>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K693 {
    pub k0_x: V<0>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub k1_x: V<1>,
}
fn k693() {
    tag("K693");
    let full = j(&K693 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K693 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K693>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other", rename_all = "kebab-case")]
#[opg("about")]
pub struct K694 {
    pub k0_x: V<0>,
    pub k1_x: V<1>,
}
fn k694() {
    tag("K694");
    let full = j(&K694 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K694 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K694>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(rename = "Other", rename_all = "kebab-case")]
pub struct K695 {
    pub k0_x: V<0>,
}
fn k695() {
    tag("K695");
    let full = j(&K695 { k0_x: V::<0>::default() });
    let v = j(&K695 { k0_x: V::<0>::any() });
    named_struct(ty::<K695>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg("about")]
pub struct K696 {
    pub k0_x: V<0>,
}
fn k696() {
    tag("K696");
    let full = j(&K696 { k0_x: V::<0>::default() });
    let v = j(&K696 { k0_x: V::<0>::any() });
    named_struct(ty::<K696>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
#[serde(tag = "kind", rename = "an \"other\"", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K697 {
    pub k0_x: V<0>,
    #[serde(default)]
    pub k1_x: V<1>,
    #[serde(skip)]
    pub k2_x: V<2>,
}
fn k697() {
    tag("K697");
    let full = j(&K697 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K697 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K697>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
pub struct K698 {
}
fn k698() {
    tag("K698");
    let full = j(&K698 {  });
    let v = j(&K698 {  });
    named_struct(ty::<K698>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
pub struct K699 {
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub k0_x: V<0>,
}
fn k699() {
    tag("K699");
    let full = j(&K699 { k0_x: V::<0>::default() });
    let v = j(&K699 { k0_x: V::<0>::any() });
    named_struct(ty::<K699>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type")]
#[opg(nullable, "about")]
pub struct K700 {
    pub k0_x: V<0>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k1_x: V<1>,
}
fn k700() {
    tag("K700");
    let full = j(&K700 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K700 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K700>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(tag = "type")]
pub struct K701 {
    pub k0_x: V<0>,
}
fn k701() {
    tag("K701");
    let full = j(&K701 { k0_x: V::<0>::default() });
    let v = j(&K701 { k0_x: V::<0>::any() });
    named_struct(ty::<K701>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "")]
#[opg(nullable, "about")]
pub struct K702 {
    pub k0_x: V<0>,
}
fn k702() {
    tag("K702");
    let full = j(&K702 { k0_x: V::<0>::default() });
    let v = j(&K702 { k0_x: V::<0>::any() });
    named_struct(ty::<K702>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(rename = "")]
pub struct K703 {
    pub k0_x: V<0>,
    #[opg(inline)]
    pub k1_x: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub k2_x: V<2>,
}
fn k703() {
    tag("K703");
    let full = j(&K703 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K703 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K703>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "")]
#[opg(nullable, "about")]
pub struct K704 {
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
    #[opg(nullable)]
    pub k2_x: V<2>,
}
fn k704() {
    tag("K704");
    let full = j(&K704 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K704 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K704>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(tag = "t-Ag", rename = "")]
pub struct K705 {
}
fn k705() {
    tag("K705");
    let full = j(&K705 {  });
    let v = j(&K705 {  });
    named_struct(ty::<K705>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(nullable, "about")]
pub struct K706 {
    pub k0_x: V<0>,
    #[serde(skip)]
    pub k1_x: V<1>,
}
fn k706() {
    tag("K706");
    let full = j(&K706 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K706 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K706>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(rename_all = "snake_case")]
pub struct K707 {
    pub k0_x: V<0>,
}
fn k707() {
    tag("K707");
    let full = j(&K707 { k0_x: V::<0>::default() });
    let v = j(&K707 { k0_x: V::<0>::any() });
    named_struct(ty::<K707>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(nullable, "about")]
pub struct K708 {
    pub k0_x: V<0>,
}
fn k708() {
    tag("K708");
    let full = j(&K708 { k0_x: V::<0>::default() });
    let v = j(&K708 { k0_x: V::<0>::any() });
    named_struct(ty::<K708>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(tag = "kind", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K709 {
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub k0_x: V<0>,
    #[serde(rename(deserialize = "dE"))]
    pub k1_x: V<1>,
}
fn k709() {
    tag("K709");
    let full = j(&K709 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K709 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K709>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other", rename_all = "kebab-case")]
#[opg(nullable, "about")]
pub struct K710 {
    pub k0_x: V<0>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub k1_x: V<1>,
    #[serde(skip_deserializing)]
    pub k2_x: V<2>,
}
fn k710() {
    tag("K710");
    let full = j(&K710 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K710 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe(), k2_x: V::<2>::any() });
    named_struct(ty::<K710>(), &full, &v, &[true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(rename = "Other", rename_all = "kebab-case")]
pub struct K711 {
}
fn k711() {
    tag("K711");
    let full = j(&K711 {  });
    let v = j(&K711 {  });
    named_struct(ty::<K711>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(nullable, "about")]
pub struct K712 {
}
fn k712() {
    tag("K712");
    let full = j(&K712 {  });
    let v = j(&K712 {  });
    named_struct(ty::<K712>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, "about")]
#[serde(tag = "type", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K713 {
    pub k0_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    pub k1_x: V<1>,
}
fn k713() {
    tag("K713");
    let full = j(&K713 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K713 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe() });
    named_struct(ty::<K713>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
pub struct K714 {
    pub k0_x: V<0>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub k1_x: V<1>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub k2_x: V<2>,
}
fn k714() {
    tag("K714");
    let full = j(&K714 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K714 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K714>(), &full, &v, &[true, true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
pub struct K715 {
}
fn k715() {
    tag("K715");
    let full = j(&K715 {  });
    let v = j(&K715 {  });
    named_struct(ty::<K715>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag")]
#[opg(inline, "about")]
pub struct K716 {
}
fn k716() {
    tag("K716");
    let full = j(&K716 {  });
    let v = j(&K716 {  });
    named_struct(ty::<K716>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(tag = "t-Ag")]
pub struct K717 {
    pub k0_x: V<0>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k1_x: V<1>,
}
fn k717() {
    tag("K717");
    let full = j(&K717 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K717 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K717>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "an \"other\"")]
#[opg(inline, "about")]
pub struct K718 {
    pub k0_x: V<0>,
    #[serde(default)]
    pub k1_x: V<1>,
}
fn k718() {
    tag("K718");
    let full = j(&K718 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K718 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K718>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "an \"other\"")]
pub struct K719 {
}
fn k719() {
    tag("K719");
    let full = j(&K719 {  });
    let v = j(&K719 {  });
    named_struct(ty::<K719>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "")]
#[opg(inline, "about")]
pub struct K720 {
    pub k0_x: V<0>,
}
fn k720() {
    tag("K720");
    let full = j(&K720 { k0_x: V::<0>::default() });
    let v = j(&K720 { k0_x: V::<0>::any() });
    named_struct(ty::<K720>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(tag = "kind", rename = "")]
pub struct K721 {
    pub k0_x: V<0>,
    #[opg(nullable)]
    pub k1_x: V<1>,
    #[serde(rename(serialize = "sE", deserialize = "dE"))]
    pub k2_x: V<2>,
}
fn k721() {
    tag("K721");
    let full = j(&K721 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K721 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K721>(), &full, &v, &[true, true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(inline, "about")]
pub struct K722 {
}
fn k722() {
    tag("K722");
    let full = j(&K722 {  });
    let v = j(&K722 {  });
    named_struct(ty::<K722>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename_all = "snake_case")]
pub struct K723 {
    pub k0_x: V<0>,
    #[serde(skip)]
    pub k1_x: V<1>,
}
fn k723() {
    tag("K723");
    let full = j(&K723 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K723 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K723>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(inline, "about")]
pub struct K724 {
    pub k0_x: V<0>,
    #[opg(inline)]
    pub k1_x: V<1>,
}
fn k724() {
    tag("K724");
    let full = j(&K724 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K724 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K724>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(tag = "type", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K725 {
    pub k0_x: V<0>,
}
fn k725() {
    tag("K725");
    let full = j(&K725 { k0_x: V::<0>::default() });
    let v = j(&K725 { k0_x: V::<0>::any() });
    named_struct(ty::<K725>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other", rename_all = "kebab-case")]
#[opg(inline, "about")]
pub struct K726 {
    pub k0_x: V<0>,
}
fn k726() {
    tag("K726");
    let full = j(&K726 { k0_x: V::<0>::default() });
    let v = j(&K726 { k0_x: V::<0>::any() });
    named_struct(ty::<K726>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(rename = "Other", rename_all = "kebab-case")]
pub struct K727 {
    pub k0_x: V<0>,
    #[serde(default, skip_serializing_if = "gone")]
    #[opg(nullable, "text")]
    pub k1_x: V<1>,
    #[serde(rename = "r", skip_serializing_if = "gone")]
    #[opg(optional)]
    pub k2_x: V<2>,
}
fn k727() {
    tag("K727");
    let full = j(&K727 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K727 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe(), k2_x: V::<2>::maybe() });
    named_struct(ty::<K727>(), &full, &v, &[true, false, false]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(inline, "about")]
pub struct K728 {
    pub k0_x: V<0>,
    #[serde(skip_serializing)]
    pub k1_x: V<1>,
    #[serde(default)]
    #[serde(rename = "two")]
    #[serde(alias = "a1", alias = "a2")]
    pub k2_x: V<2>,
}
fn k728() {
    tag("K728");
    let full = j(&K728 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K728 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K728>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(inline, "about")]
#[serde(tag = "t-Ag", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K729 {
}
fn k729() {
    tag("K729");
    let full = j(&K729 {  });
    let v = j(&K729 {  });
    named_struct(ty::<K729>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
pub struct K730 {
    pub k0_x: V<0>,
    #[serde(alias = "other")]
    #[opg(inline, optional)]
    pub k1_x: V<1>,
}
fn k730() {
    tag("K730");
    let full = j(&K730 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K730 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K730>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
pub struct K731 {
    pub k0_x: V<0>,
}
fn k731() {
    tag("K731");
    let full = j(&K731 { k0_x: V::<0>::default() });
    let v = j(&K731 { k0_x: V::<0>::any() });
    named_struct(ty::<K731>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
#[opg(nullable, inline, "about")]
pub struct K732 {
    pub k0_x: V<0>,
}
fn k732() {
    tag("K732");
    let full = j(&K732 { k0_x: V::<0>::default() });
    let v = j(&K732 { k0_x: V::<0>::any() });
    named_struct(ty::<K732>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(tag = "kind")]
pub struct K733 {
    pub k0_x: V<0>,
    #[serde(rename = "x-Y")]
    pub k1_x: V<1>,
}
fn k733() {
    tag("K733");
    let full = j(&K733 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K733 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K733>(), &full, &v, &[true, true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "an \"other\"")]
#[opg(nullable, inline, "about")]
pub struct K734 {
    pub k0_x: V<0>,
    #[serde(skip_serializing_if = "gone")]
    pub k1_x: V<1>,
    #[serde(skip)]
    pub k2_x: V<2>,
}
fn k734() {
    tag("K734");
    let full = j(&K734 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K734 { k0_x: V::<0>::any(), k1_x: V::<1>::maybe(), k2_x: V::<2>::any() });
    named_struct(ty::<K734>(), &full, &v, &[true, false]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(rename = "an \"other\"")]
pub struct K735 {
}
fn k735() {
    tag("K735");
    let full = j(&K735 {  });
    let v = j(&K735 {  });
    named_struct(ty::<K735>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "type", rename = "an \"other\"")]
#[opg(nullable, inline, "about")]
pub struct K736 {
}
fn k736() {
    tag("K736");
    let full = j(&K736 {  });
    let v = j(&K736 {  });
    named_struct(ty::<K736>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(tag = "type", rename = "an \"other\"")]
pub struct K737 {
    pub k0_x: V<0>,
    #[serde(skip_serializing)]
    #[opg(optional)]
    pub k1_x: V<1>,
}
fn k737() {
    tag("K737");
    let full = j(&K737 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K737 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K737>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
#[opg(nullable, inline, "about")]
pub struct K738 {
    pub k0_x: V<0>,
}
fn k738() {
    tag("K738");
    let full = j(&K738 { k0_x: V::<0>::default() });
    let v = j(&K738 { k0_x: V::<0>::any() });
    named_struct(ty::<K738>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(rename_all = "snake_case")]
pub struct K739 {
    #[serde(rename(deserialize = "dE"))]
    pub k0_x: V<0>,
    #[opg(inline)]
    pub k1_x: V<1>,
}
fn k739() {
    tag("K739");
    let full = j(&K739 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K739 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K739>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(nullable, inline, "about")]
pub struct K740 {
    pub k0_x: V<0>,
    #[opg(optional)]
    pub k1_x: V<1>,
    #[opg("text")]
    #[serde(default, skip_deserializing)]
    pub k2_x: V<2>,
}
fn k740() {
    tag("K740");
    let full = j(&K740 { k0_x: V::<0>::default(), k1_x: V::<1>::default(), k2_x: V::<2>::default() });
    let v = j(&K740 { k0_x: V::<0>::any(), k1_x: V::<1>::any(), k2_x: V::<2>::any() });
    named_struct(ty::<K740>(), &full, &v, &[true, true, false, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(tag = "t-Ag", rename_all = "SCREAMING_SNAKE_CASE")]
pub struct K741 {
}
fn k741() {
    tag("K741");
    let full = j(&K741 {  });
    let v = j(&K741 {  });
    named_struct(ty::<K741>(), &full, &v, &[true]);
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "", rename_all = "kebab-case")]
#[opg(nullable, inline, "about")]
pub struct K742 {
}
fn k742() {
    tag("K742");
    let full = j(&K742 {  });
    let v = j(&K742 {  });
    named_struct(ty::<K742>(), &full, &v, &[]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(rename = "", rename_all = "kebab-case")]
pub struct K743 {
    pub k0_x: V<0>,
    #[opg("text", format = "f", example = "e", nullable, inline)]
    pub k1_x: V<1>,
}
fn k743() {
    tag("K743");
    let full = j(&K743 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K743 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K743>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
#[opg(nullable, inline, "about")]
pub struct K744 {
    pub k0_x: V<0>,
    #[serde(skip)]
    pub k1_x: V<1>,
}
fn k744() {
    tag("K744");
    let full = j(&K744 { k0_x: V::<0>::default(), k1_x: V::<1>::default() });
    let v = j(&K744 { k0_x: V::<0>::any(), k1_x: V::<1>::any() });
    named_struct(ty::<K744>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
#[opg(nullable, inline, "about")]
#[serde(tag = "kind", rename = "Other", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct K745 {
    pub k0_x: V<0>,
}
fn k745() {
    tag("K745");
    let full = j(&K745 { k0_x: V::<0>::default() });
    let v = j(&K745 { k0_x: V::<0>::any() });
    named_struct(ty::<K745>(), &full, &v, &[true, true]);
}
#[derive(Serialize, OpgModel)]
pub struct T746(V<0>, V<1>, V<2>);
fn t746() {
    tag("T746");
    tuple_struct(ty::<T746>(), &j(&T746(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T747(V<0>, #[serde(skip)] V<1>);
fn t747() {
    tag("T747");
    tuple_struct(ty::<T747>(), &j(&T747(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T748(V<0>, #[serde(skip_serializing)] V<1>);
fn t748() {
    tag("T748");
    tuple_struct(ty::<T748>(), &j(&T748(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T749(V<0>, #[opg(inline)] V<1>, V<2>);
fn t749() {
    tag("T749");
    tuple_struct(ty::<T749>(), &j(&T749(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T750(V<0>, #[opg("text")] V<1>);
fn t750() {
    tag("T750");
    tuple_struct(ty::<T750>(), &j(&T750(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T751(V<0>, #[serde(skip_deserializing)] V<1>);
fn t751() {
    tag("T751");
    tuple_struct(ty::<T751>(), &j(&T751(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T752(#[serde(skip)] V<0>, V<1>);
fn t752() {
    tag("T752");
    tuple_struct(ty::<T752>(), &j(&T752(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T753(#[serde(skip)] V<0>, #[serde(skip)] V<1>);
fn t753() {
    tag("T753");
    tuple_struct(ty::<T753>(), &j(&T753(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T754(#[serde(skip)] V<0>, #[serde(skip_serializing)] V<1>, V<2>);
fn t754() {
    tag("T754");
    tuple_struct(ty::<T754>(), &j(&T754(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T755(#[serde(skip)] V<0>, #[opg(inline)] V<1>);
fn t755() {
    tag("T755");
    tuple_struct(ty::<T755>(), &j(&T755(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T756(#[serde(skip)] V<0>, #[opg("text")] V<1>);
fn t756() {
    tag("T756");
    tuple_struct(ty::<T756>(), &j(&T756(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T757(#[serde(skip)] V<0>, #[serde(skip_deserializing)] V<1>, V<2>);
fn t757() {
    tag("T757");
    tuple_struct(ty::<T757>(), &j(&T757(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T758(#[serde(skip_serializing)] V<0>, V<1>);
fn t758() {
    tag("T758");
    tuple_struct(ty::<T758>(), &j(&T758(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T759(#[serde(skip_serializing)] V<0>, #[serde(skip)] V<1>, V<2>);
fn t759() {
    tag("T759");
    tuple_struct(ty::<T759>(), &j(&T759(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T760(#[serde(skip_serializing)] V<0>, #[serde(skip_serializing)] V<1>);
fn t760() {
    tag("T760");
    tuple_struct(ty::<T760>(), &j(&T760(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T761(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>);
fn t761() {
    tag("T761");
    tuple_struct(ty::<T761>(), &j(&T761(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T762(#[serde(skip_serializing)] V<0>, #[opg("text")] V<1>, V<2>);
fn t762() {
    tag("T762");
    tuple_struct(ty::<T762>(), &j(&T762(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T763(#[serde(skip_serializing)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t763() {
    tag("T763");
    tuple_struct(ty::<T763>(), &j(&T763(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T764(#[opg(inline)] V<0>, V<1>, V<2>);
fn t764() {
    tag("T764");
    tuple_struct(ty::<T764>(), &j(&T764(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T765(#[opg(inline)] V<0>, #[serde(skip)] V<1>);
fn t765() {
    tag("T765");
    tuple_struct(ty::<T765>(), &j(&T765(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T766(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>);
fn t766() {
    tag("T766");
    tuple_struct(ty::<T766>(), &j(&T766(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T767(#[opg(inline)] V<0>, #[opg(inline)] V<1>, V<2>);
fn t767() {
    tag("T767");
    tuple_struct(ty::<T767>(), &j(&T767(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T768(#[opg(inline)] V<0>, #[opg("text")] V<1>);
fn t768() {
    tag("T768");
    tuple_struct(ty::<T768>(), &j(&T768(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T769(#[opg(inline)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t769() {
    tag("T769");
    tuple_struct(ty::<T769>(), &j(&T769(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T770(#[opg("text")] V<0>, V<1>);
fn t770() {
    tag("T770");
    tuple_struct(ty::<T770>(), &j(&T770(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T771(#[opg("text")] V<0>, #[serde(skip)] V<1>);
fn t771() {
    tag("T771");
    tuple_struct(ty::<T771>(), &j(&T771(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T772(#[opg("text")] V<0>, #[serde(skip_serializing)] V<1>, V<2>);
fn t772() {
    tag("T772");
    tuple_struct(ty::<T772>(), &j(&T772(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T773(#[opg("text")] V<0>, #[opg(inline)] V<1>);
fn t773() {
    tag("T773");
    tuple_struct(ty::<T773>(), &j(&T773(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T774(#[opg("text")] V<0>, #[opg("text")] V<1>);
fn t774() {
    tag("T774");
    tuple_struct(ty::<T774>(), &j(&T774(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T775(#[opg("text")] V<0>, #[serde(skip_deserializing)] V<1>, V<2>);
fn t775() {
    tag("T775");
    tuple_struct(ty::<T775>(), &j(&T775(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T776(#[serde(skip_deserializing)] V<0>, V<1>);
fn t776() {
    tag("T776");
    tuple_struct(ty::<T776>(), &j(&T776(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T777(#[serde(skip_deserializing)] V<0>, #[serde(skip)] V<1>, V<2>);
fn t777() {
    tag("T777");
    tuple_struct(ty::<T777>(), &j(&T777(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T778(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>);
fn t778() {
    tag("T778");
    tuple_struct(ty::<T778>(), &j(&T778(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T779(#[serde(skip_deserializing)] V<0>, #[opg(inline)] V<1>);
fn t779() {
    tag("T779");
    tuple_struct(ty::<T779>(), &j(&T779(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T780(#[serde(skip_deserializing)] V<0>, #[opg("text")] V<1>, V<2>);
fn t780() {
    tag("T780");
    tuple_struct(ty::<T780>(), &j(&T780(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
pub struct T781(#[serde(skip_deserializing)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t781() {
    tag("T781");
    tuple_struct(ty::<T781>(), &j(&T781(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T782(V<0>, #[serde(skip)] V<1>);
fn t782() {
    tag("T782");
    tuple_struct(ty::<T782>(), &j(&T782(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T783(V<0>, #[opg(inline)] V<1>, V<2>);
fn t783() {
    tag("T783");
    tuple_struct(ty::<T783>(), &j(&T783(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T784(V<0>, #[serde(skip_deserializing)] V<1>);
fn t784() {
    tag("T784");
    tuple_struct(ty::<T784>(), &j(&T784(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T785(#[serde(skip)] V<0>, V<1>);
fn t785() {
    tag("T785");
    tuple_struct(ty::<T785>(), &j(&T785(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T786(#[serde(skip)] V<0>, #[serde(skip_serializing)] V<1>, V<2>);
fn t786() {
    tag("T786");
    tuple_struct(ty::<T786>(), &j(&T786(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T787(#[serde(skip)] V<0>, #[opg("text")] V<1>);
fn t787() {
    tag("T787");
    tuple_struct(ty::<T787>(), &j(&T787(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T788(#[serde(skip_serializing)] V<0>, #[serde(skip)] V<1>, V<2>);
fn t788() {
    tag("T788");
    tuple_struct(ty::<T788>(), &j(&T788(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T789(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>);
fn t789() {
    tag("T789");
    tuple_struct(ty::<T789>(), &j(&T789(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T790(#[serde(skip_serializing)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t790() {
    tag("T790");
    tuple_struct(ty::<T790>(), &j(&T790(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T791(#[opg(inline)] V<0>, V<1>, V<2>);
fn t791() {
    tag("T791");
    tuple_struct(ty::<T791>(), &j(&T791(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T792(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>);
fn t792() {
    tag("T792");
    tuple_struct(ty::<T792>(), &j(&T792(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T793(#[opg(inline)] V<0>, #[opg("text")] V<1>);
fn t793() {
    tag("T793");
    tuple_struct(ty::<T793>(), &j(&T793(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T794(#[opg("text")] V<0>, #[serde(skip)] V<1>);
fn t794() {
    tag("T794");
    tuple_struct(ty::<T794>(), &j(&T794(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T795(#[opg("text")] V<0>, #[opg(inline)] V<1>);
fn t795() {
    tag("T795");
    tuple_struct(ty::<T795>(), &j(&T795(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T796(#[opg("text")] V<0>, #[serde(skip_deserializing)] V<1>, V<2>);
fn t796() {
    tag("T796");
    tuple_struct(ty::<T796>(), &j(&T796(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T797(#[serde(skip_deserializing)] V<0>, V<1>);
fn t797() {
    tag("T797");
    tuple_struct(ty::<T797>(), &j(&T797(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T798(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>);
fn t798() {
    tag("T798");
    tuple_struct(ty::<T798>(), &j(&T798(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[serde(rename = "Other")]
pub struct T799(#[serde(skip_deserializing)] V<0>, #[opg("text")] V<1>, V<2>);
fn t799() {
    tag("T799");
    tuple_struct(ty::<T799>(), &j(&T799(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T800(V<0>, V<1>, V<2>);
fn t800() {
    tag("T800");
    tuple_struct(ty::<T800>(), &j(&T800(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T801(V<0>, #[serde(skip_serializing)] V<1>);
fn t801() {
    tag("T801");
    tuple_struct(ty::<T801>(), &j(&T801(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T802(V<0>, #[opg("text")] V<1>);
fn t802() {
    tag("T802");
    tuple_struct(ty::<T802>(), &j(&T802(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T803(#[serde(skip)] V<0>, #[serde(skip)] V<1>);
fn t803() {
    tag("T803");
    tuple_struct(ty::<T803>(), &j(&T803(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T804(#[serde(skip)] V<0>, #[opg(inline)] V<1>);
fn t804() {
    tag("T804");
    tuple_struct(ty::<T804>(), &j(&T804(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T805(#[serde(skip)] V<0>, #[serde(skip_deserializing)] V<1>, V<2>);
fn t805() {
    tag("T805");
    tuple_struct(ty::<T805>(), &j(&T805(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T806(#[serde(skip_serializing)] V<0>, V<1>);
fn t806() {
    tag("T806");
    tuple_struct(ty::<T806>(), &j(&T806(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T807(#[serde(skip_serializing)] V<0>, #[serde(skip_serializing)] V<1>);
fn t807() {
    tag("T807");
    tuple_struct(ty::<T807>(), &j(&T807(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T808(#[serde(skip_serializing)] V<0>, #[opg("text")] V<1>, V<2>);
fn t808() {
    tag("T808");
    tuple_struct(ty::<T808>(), &j(&T808(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T809(#[opg(inline)] V<0>, #[serde(skip)] V<1>);
fn t809() {
    tag("T809");
    tuple_struct(ty::<T809>(), &j(&T809(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T810(#[opg(inline)] V<0>, #[opg(inline)] V<1>, V<2>);
fn t810() {
    tag("T810");
    tuple_struct(ty::<T810>(), &j(&T810(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T811(#[opg(inline)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t811() {
    tag("T811");
    tuple_struct(ty::<T811>(), &j(&T811(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T812(#[opg("text")] V<0>, V<1>);
fn t812() {
    tag("T812");
    tuple_struct(ty::<T812>(), &j(&T812(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T813(#[opg("text")] V<0>, #[serde(skip_serializing)] V<1>, V<2>);
fn t813() {
    tag("T813");
    tuple_struct(ty::<T813>(), &j(&T813(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T814(#[opg("text")] V<0>, #[opg("text")] V<1>);
fn t814() {
    tag("T814");
    tuple_struct(ty::<T814>(), &j(&T814(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T815(#[serde(skip_deserializing)] V<0>, #[serde(skip)] V<1>, V<2>);
fn t815() {
    tag("T815");
    tuple_struct(ty::<T815>(), &j(&T815(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T816(#[serde(skip_deserializing)] V<0>, #[opg(inline)] V<1>);
fn t816() {
    tag("T816");
    tuple_struct(ty::<T816>(), &j(&T816(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct T817(#[serde(skip_deserializing)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t817() {
    tag("T817");
    tuple_struct(ty::<T817>(), &j(&T817(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T818(V<0>, #[serde(skip)] V<1>);
fn t818() {
    tag("T818");
    tuple_struct(ty::<T818>(), &j(&T818(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T819(V<0>, #[opg(inline)] V<1>, V<2>);
fn t819() {
    tag("T819");
    tuple_struct(ty::<T819>(), &j(&T819(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T820(V<0>, #[serde(skip_deserializing)] V<1>);
fn t820() {
    tag("T820");
    tuple_struct(ty::<T820>(), &j(&T820(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T821(#[serde(skip)] V<0>, V<1>);
fn t821() {
    tag("T821");
    tuple_struct(ty::<T821>(), &j(&T821(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T822(#[serde(skip)] V<0>, #[serde(skip_serializing)] V<1>, V<2>);
fn t822() {
    tag("T822");
    tuple_struct(ty::<T822>(), &j(&T822(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T823(#[serde(skip)] V<0>, #[opg("text")] V<1>);
fn t823() {
    tag("T823");
    tuple_struct(ty::<T823>(), &j(&T823(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T824(#[serde(skip_serializing)] V<0>, #[serde(skip)] V<1>, V<2>);
fn t824() {
    tag("T824");
    tuple_struct(ty::<T824>(), &j(&T824(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T825(#[serde(skip_serializing)] V<0>, #[opg(inline)] V<1>);
fn t825() {
    tag("T825");
    tuple_struct(ty::<T825>(), &j(&T825(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T826(#[serde(skip_serializing)] V<0>, #[serde(skip_deserializing)] V<1>);
fn t826() {
    tag("T826");
    tuple_struct(ty::<T826>(), &j(&T826(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T827(#[opg(inline)] V<0>, V<1>, V<2>);
fn t827() {
    tag("T827");
    tuple_struct(ty::<T827>(), &j(&T827(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T828(#[opg(inline)] V<0>, #[serde(skip_serializing)] V<1>);
fn t828() {
    tag("T828");
    tuple_struct(ty::<T828>(), &j(&T828(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T829(#[opg(inline)] V<0>, #[opg("text")] V<1>);
fn t829() {
    tag("T829");
    tuple_struct(ty::<T829>(), &j(&T829(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T830(#[opg("text")] V<0>, #[serde(skip)] V<1>);
fn t830() {
    tag("T830");
    tuple_struct(ty::<T830>(), &j(&T830(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T831(#[opg("text")] V<0>, #[opg(inline)] V<1>);
fn t831() {
    tag("T831");
    tuple_struct(ty::<T831>(), &j(&T831(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T832(#[opg("text")] V<0>, #[serde(skip_deserializing)] V<1>, V<2>);
fn t832() {
    tag("T832");
    tuple_struct(ty::<T832>(), &j(&T832(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T833(#[serde(skip_deserializing)] V<0>, V<1>);
fn t833() {
    tag("T833");
    tuple_struct(ty::<T833>(), &j(&T833(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T834(#[serde(skip_deserializing)] V<0>, #[serde(skip_serializing)] V<1>);
fn t834() {
    tag("T834");
    tuple_struct(ty::<T834>(), &j(&T834(V::<0>::any(), V::<1>::any())));
}
#[derive(Serialize, OpgModel)]
#[opg("about")]
pub struct T835(#[serde(skip_deserializing)] V<0>, #[opg("text")] V<1>, V<2>);
fn t835() {
    tag("T835");
    tuple_struct(ty::<T835>(), &j(&T835(V::<0>::any(), V::<1>::any(), V::<2>::any())));
}
pub fn g0() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s0(),
        1 => s1(),
        2 => s2(),
        3 => s3(),
        4 => s4(),
        5 => s5(),
        6 => s6(),
        7 => s7(),
        8 => s8(),
        9 => s9(),
        10 => s10(),
        11 => s11(),
        12 => s12(),
        13 => s13(),
        14 => s14(),
        15 => s15(),
        16 => s16(),
        17 => s17(),
        18 => s18(),
        19 => s19(),
        20 => s20(),
        21 => s21(),
        22 => s22(),
        _ => s23(),
    }
}
pub fn g1() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s24(),
        1 => s25(),
        2 => s26(),
        3 => s27(),
        4 => s28(),
        5 => s29(),
        6 => s30(),
        7 => s31(),
        8 => s32(),
        9 => s33(),
        10 => s34(),
        11 => s35(),
        12 => s36(),
        13 => s37(),
        14 => s38(),
        15 => s39(),
        16 => s40(),
        17 => s41(),
        18 => s42(),
        19 => s43(),
        20 => s44(),
        21 => s45(),
        22 => s46(),
        _ => s47(),
    }
}
pub fn g2() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s48(),
        1 => s49(),
        2 => s50(),
        3 => s51(),
        4 => s52(),
        5 => s53(),
        6 => s54(),
        7 => s55(),
        8 => s56(),
        9 => s57(),
        10 => s58(),
        11 => s59(),
        12 => s60(),
        13 => s61(),
        14 => s62(),
        15 => s63(),
        16 => s64(),
        17 => s65(),
        18 => s66(),
        19 => s67(),
        20 => s68(),
        21 => s69(),
        22 => s70(),
        _ => s71(),
    }
}
pub fn g3() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s72(),
        1 => s73(),
        2 => s74(),
        3 => s75(),
        4 => s76(),
        5 => s77(),
        6 => s78(),
        7 => s79(),
        8 => s80(),
        9 => s81(),
        10 => s82(),
        11 => s83(),
        12 => s84(),
        13 => s85(),
        14 => s86(),
        15 => s87(),
        16 => s88(),
        17 => s89(),
        18 => s90(),
        19 => s91(),
        20 => s92(),
        21 => s93(),
        22 => s94(),
        _ => s95(),
    }
}
pub fn g4() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s96(),
        1 => s97(),
        2 => s98(),
        3 => s99(),
        4 => s100(),
        5 => s101(),
        6 => s102(),
        7 => s103(),
        8 => s104(),
        9 => s105(),
        10 => s106(),
        11 => s107(),
        12 => s108(),
        13 => s109(),
        14 => s110(),
        15 => s111(),
        16 => s112(),
        17 => s113(),
        18 => s114(),
        19 => s115(),
        20 => s116(),
        21 => s117(),
        22 => s118(),
        _ => s119(),
    }
}
pub fn g5() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s120(),
        1 => s121(),
        2 => s122(),
        3 => s123(),
        4 => s124(),
        5 => s125(),
        6 => s126(),
        7 => s127(),
        8 => s128(),
        9 => s129(),
        10 => s130(),
        11 => s131(),
        12 => s132(),
        13 => s133(),
        14 => s134(),
        15 => s135(),
        16 => s136(),
        17 => s137(),
        18 => s138(),
        19 => s139(),
        20 => s140(),
        21 => s141(),
        22 => s142(),
        _ => s143(),
    }
}
pub fn g6() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s144(),
        1 => s145(),
        2 => s146(),
        3 => s147(),
        4 => s148(),
        5 => s149(),
        6 => s150(),
        7 => s151(),
        8 => s152(),
        9 => s153(),
        10 => s154(),
        11 => s155(),
        12 => s156(),
        13 => s157(),
        14 => s158(),
        15 => s159(),
        16 => s160(),
        17 => s161(),
        18 => s162(),
        19 => s163(),
        20 => s164(),
        21 => s165(),
        22 => s166(),
        _ => s167(),
    }
}
pub fn g7() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s168(),
        1 => s169(),
        2 => s170(),
        3 => s171(),
        4 => s172(),
        5 => s173(),
        6 => s174(),
        7 => s175(),
        8 => s176(),
        9 => s177(),
        10 => s178(),
        11 => s179(),
        12 => s180(),
        13 => s181(),
        14 => s182(),
        15 => s183(),
        16 => s184(),
        17 => s185(),
        18 => s186(),
        19 => s187(),
        20 => s188(),
        21 => s189(),
        22 => s190(),
        _ => s191(),
    }
}
pub fn g8() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s192(),
        1 => s193(),
        2 => s194(),
        3 => s195(),
        4 => s196(),
        5 => s197(),
        6 => s198(),
        7 => s199(),
        8 => s200(),
        9 => s201(),
        10 => s202(),
        11 => s203(),
        12 => s204(),
        13 => s205(),
        14 => s206(),
        15 => s207(),
        16 => s208(),
        17 => s209(),
        18 => s210(),
        19 => s211(),
        20 => s212(),
        21 => s213(),
        22 => s214(),
        _ => s215(),
    }
}
pub fn g9() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s216(),
        1 => s217(),
        2 => s218(),
        3 => s219(),
        4 => s220(),
        5 => s221(),
        6 => s222(),
        7 => s223(),
        8 => s224(),
        9 => s225(),
        10 => s226(),
        11 => s227(),
        12 => s228(),
        13 => s229(),
        14 => s230(),
        15 => s231(),
        16 => s232(),
        17 => s233(),
        18 => s234(),
        19 => s235(),
        20 => s236(),
        21 => s237(),
        22 => s238(),
        _ => s239(),
    }
}
pub fn g10() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s240(),
        1 => s241(),
        2 => s242(),
        3 => s243(),
        4 => s244(),
        5 => s245(),
        6 => s246(),
        7 => s247(),
        8 => s248(),
        9 => s249(),
        10 => s250(),
        11 => s251(),
        12 => s252(),
        13 => s253(),
        14 => s254(),
        15 => s255(),
        16 => s256(),
        17 => s257(),
        18 => s258(),
        19 => s259(),
        20 => s260(),
        21 => s261(),
        22 => s262(),
        _ => s263(),
    }
}
pub fn g11() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s264(),
        1 => s265(),
        2 => s266(),
        3 => s267(),
        4 => s268(),
        5 => s269(),
        6 => s270(),
        7 => s271(),
        8 => s272(),
        9 => s273(),
        10 => s274(),
        11 => s275(),
        12 => s276(),
        13 => s277(),
        14 => s278(),
        15 => s279(),
        16 => s280(),
        17 => s281(),
        18 => s282(),
        19 => s283(),
        20 => s284(),
        21 => s285(),
        22 => s286(),
        _ => s287(),
    }
}
pub fn g12() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s288(),
        1 => s289(),
        2 => s290(),
        3 => s291(),
        4 => s292(),
        5 => s293(),
        6 => s294(),
        7 => s295(),
        8 => s296(),
        9 => s297(),
        10 => s298(),
        11 => s299(),
        12 => s300(),
        13 => s301(),
        14 => s302(),
        15 => s303(),
        16 => s304(),
        17 => s305(),
        18 => s306(),
        19 => s307(),
        20 => s308(),
        21 => s309(),
        22 => s310(),
        _ => s311(),
    }
}
pub fn g13() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s312(),
        1 => s313(),
        2 => s314(),
        3 => s315(),
        4 => s316(),
        5 => s317(),
        6 => s318(),
        7 => s319(),
        8 => s320(),
        9 => s321(),
        10 => s322(),
        11 => s323(),
        12 => s324(),
        13 => s325(),
        14 => s326(),
        15 => s327(),
        16 => s328(),
        17 => s329(),
        18 => s330(),
        19 => s331(),
        20 => s332(),
        21 => s333(),
        22 => s334(),
        _ => s335(),
    }
}
pub fn g14() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => s336(),
        1 => s337(),
        2 => s338(),
        3 => s339(),
        4 => s340(),
        5 => s341(),
        6 => p342(),
        7 => p343(),
        8 => p344(),
        9 => p345(),
        10 => p346(),
        11 => p347(),
        12 => p348(),
        13 => p349(),
        14 => p350(),
        15 => p351(),
        16 => p352(),
        17 => p353(),
        18 => p354(),
        19 => p355(),
        20 => p356(),
        21 => p357(),
        22 => p358(),
        _ => p359(),
    }
}
pub fn g15() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => p360(),
        1 => p361(),
        2 => p362(),
        3 => p363(),
        4 => p364(),
        5 => p365(),
        6 => p366(),
        7 => p367(),
        8 => p368(),
        9 => p369(),
        10 => p370(),
        11 => p371(),
        12 => p372(),
        13 => p373(),
        14 => p374(),
        15 => p375(),
        16 => p376(),
        17 => p377(),
        18 => p378(),
        19 => p379(),
        20 => p380(),
        21 => p381(),
        22 => p382(),
        _ => p383(),
    }
}
pub fn g16() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => p384(),
        1 => p385(),
        2 => p386(),
        3 => p387(),
        4 => p388(),
        5 => p389(),
        6 => p390(),
        7 => p391(),
        8 => p392(),
        9 => p393(),
        10 => p394(),
        11 => p395(),
        12 => p396(),
        13 => p397(),
        14 => p398(),
        15 => p399(),
        16 => p400(),
        17 => p401(),
        18 => p402(),
        19 => p403(),
        20 => p404(),
        21 => p405(),
        22 => p406(),
        _ => p407(),
    }
}
pub fn g17() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => p408(),
        1 => p409(),
        2 => p410(),
        3 => p411(),
        4 => p412(),
        5 => p413(),
        6 => p414(),
        7 => p415(),
        8 => p416(),
        9 => p417(),
        10 => p418(),
        11 => p419(),
        12 => p420(),
        13 => p421(),
        14 => p422(),
        15 => p423(),
        16 => p424(),
        17 => p425(),
        18 => p426(),
        19 => p427(),
        20 => p428(),
        21 => p429(),
        22 => p430(),
        _ => p431(),
    }
}
pub fn g18() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => p432(),
        1 => p433(),
        2 => p434(),
        3 => p435(),
        4 => p436(),
        5 => p437(),
        6 => p438(),
        7 => p439(),
        8 => p440(),
        9 => p441(),
        10 => p442(),
        11 => p443(),
        12 => p444(),
        13 => p445(),
        14 => p446(),
        15 => p447(),
        16 => p448(),
        17 => p449(),
        18 => p450(),
        19 => p451(),
        20 => p452(),
        21 => p453(),
        22 => p454(),
        _ => p455(),
    }
}
pub fn g19() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => p456(),
        1 => p457(),
        2 => p458(),
        3 => p459(),
        4 => p460(),
        5 => p461(),
        6 => p462(),
        7 => q463(),
        8 => q464(),
        9 => q465(),
        10 => q466(),
        11 => q467(),
        12 => q468(),
        13 => q469(),
        14 => q470(),
        15 => q471(),
        16 => q472(),
        17 => q473(),
        18 => q474(),
        19 => q475(),
        20 => q476(),
        21 => q477(),
        22 => q478(),
        _ => q479(),
    }
}
pub fn g20() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => q480(),
        1 => q481(),
        2 => q482(),
        3 => q483(),
        4 => q484(),
        5 => q485(),
        6 => q486(),
        7 => q487(),
        8 => q488(),
        9 => q489(),
        10 => q490(),
        11 => q491(),
        12 => q492(),
        13 => q493(),
        14 => q494(),
        15 => q495(),
        16 => q496(),
        17 => q497(),
        18 => n498(),
        19 => n499(),
        20 => n500(),
        21 => n501(),
        22 => n502(),
        _ => n503(),
    }
}
pub fn g21() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => n504(),
        1 => n505(),
        2 => n506(),
        3 => n507(),
        4 => n508(),
        5 => n509(),
        6 => n510(),
        7 => n511(),
        8 => n512(),
        9 => n513(),
        10 => n514(),
        11 => n515(),
        12 => n516(),
        13 => n517(),
        14 => n518(),
        15 => n519(),
        16 => n520(),
        17 => n521(),
        18 => n522(),
        19 => n523(),
        20 => n524(),
        21 => n525(),
        22 => n526(),
        _ => n527(),
    }
}
pub fn g22() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => n528(),
        1 => n529(),
        2 => n530(),
        3 => n531(),
        4 => n532(),
        5 => n533(),
        6 => n534(),
        7 => n535(),
        8 => n536(),
        9 => n537(),
        10 => n538(),
        11 => n539(),
        12 => n540(),
        13 => n541(),
        14 => n542(),
        15 => n543(),
        16 => n544(),
        17 => n545(),
        18 => n546(),
        19 => n547(),
        20 => n548(),
        21 => n549(),
        22 => n550(),
        _ => n551(),
    }
}
pub fn g23() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => n552(),
        1 => n553(),
        2 => n554(),
        3 => n555(),
        4 => n556(),
        5 => n557(),
        6 => n558(),
        7 => n559(),
        8 => n560(),
        9 => n561(),
        10 => n562(),
        11 => n563(),
        12 => n564(),
        13 => n565(),
        14 => n566(),
        15 => n567(),
        16 => n568(),
        17 => n569(),
        18 => n570(),
        19 => n571(),
        20 => n572(),
        21 => n573(),
        22 => n574(),
        _ => n575(),
    }
}
pub fn g24() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => n576(),
        1 => n577(),
        2 => n578(),
        3 => n579(),
        4 => n580(),
        5 => n581(),
        6 => n582(),
        7 => n583(),
        8 => n584(),
        9 => n585(),
        10 => n586(),
        11 => n587(),
        12 => n588(),
        13 => n589(),
        14 => n590(),
        15 => n591(),
        16 => n592(),
        17 => n593(),
        18 => n594(),
        19 => n595(),
        20 => n596(),
        21 => n597(),
        22 => n598(),
        _ => n599(),
    }
}
pub fn g25() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => n600(),
        1 => n601(),
        2 => n602(),
        3 => n603(),
        4 => n604(),
        5 => n605(),
        6 => n606(),
        7 => n607(),
        8 => n608(),
        9 => n609(),
        10 => n610(),
        11 => n611(),
        12 => n612(),
        13 => n613(),
        14 => n614(),
        15 => n615(),
        16 => n616(),
        17 => n617(),
        18 => k618(),
        19 => k619(),
        20 => k620(),
        21 => k621(),
        22 => k622(),
        _ => k623(),
    }
}
pub fn g26() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k624(),
        1 => k625(),
        2 => k626(),
        3 => k627(),
        4 => k628(),
        5 => k629(),
        6 => k630(),
        7 => k631(),
        8 => k632(),
        9 => k633(),
        10 => k634(),
        11 => k635(),
        12 => k636(),
        13 => k637(),
        14 => k638(),
        15 => k639(),
        16 => k640(),
        17 => k641(),
        18 => k642(),
        19 => k643(),
        20 => k644(),
        21 => k645(),
        22 => k646(),
        _ => k647(),
    }
}
pub fn g27() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k648(),
        1 => k649(),
        2 => k650(),
        3 => k651(),
        4 => k652(),
        5 => k653(),
        6 => k654(),
        7 => k655(),
        8 => k656(),
        9 => k657(),
        10 => k658(),
        11 => k659(),
        12 => k660(),
        13 => k661(),
        14 => k662(),
        15 => k663(),
        16 => k664(),
        17 => k665(),
        18 => k666(),
        19 => k667(),
        20 => k668(),
        21 => k669(),
        22 => k670(),
        _ => k671(),
    }
}
pub fn g28() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k672(),
        1 => k673(),
        2 => k674(),
        3 => k675(),
        4 => k676(),
        5 => k677(),
        6 => k678(),
        7 => k679(),
        8 => k680(),
        9 => k681(),
        10 => k682(),
        11 => k683(),
        12 => k684(),
        13 => k685(),
        14 => k686(),
        15 => k687(),
        16 => k688(),
        17 => k689(),
        18 => k690(),
        19 => k691(),
        20 => k692(),
        21 => k693(),
        22 => k694(),
        _ => k695(),
    }
}
pub fn g29() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k696(),
        1 => k697(),
        2 => k698(),
        3 => k699(),
        4 => k700(),
        5 => k701(),
        6 => k702(),
        7 => k703(),
        8 => k704(),
        9 => k705(),
        10 => k706(),
        11 => k707(),
        12 => k708(),
        13 => k709(),
        14 => k710(),
        15 => k711(),
        16 => k712(),
        17 => k713(),
        18 => k714(),
        19 => k715(),
        20 => k716(),
        21 => k717(),
        22 => k718(),
        _ => k719(),
    }
}
pub fn g30() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k720(),
        1 => k721(),
        2 => k722(),
        3 => k723(),
        4 => k724(),
        5 => k725(),
        6 => k726(),
        7 => k727(),
        8 => k728(),
        9 => k729(),
        10 => k730(),
        11 => k731(),
        12 => k732(),
        13 => k733(),
        14 => k734(),
        15 => k735(),
        16 => k736(),
        17 => k737(),
        18 => k738(),
        19 => k739(),
        20 => k740(),
        21 => k741(),
        22 => k742(),
        _ => k743(),
    }
}
pub fn g31() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => k744(),
        1 => k745(),
        2 => t746(),
        3 => t747(),
        4 => t748(),
        5 => t749(),
        6 => t750(),
        7 => t751(),
        8 => t752(),
        9 => t753(),
        10 => t754(),
        11 => t755(),
        12 => t756(),
        13 => t757(),
        14 => t758(),
        15 => t759(),
        16 => t760(),
        17 => t761(),
        18 => t762(),
        19 => t763(),
        20 => t764(),
        21 => t765(),
        22 => t766(),
        _ => t767(),
    }
}
pub fn g32() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => t768(),
        1 => t769(),
        2 => t770(),
        3 => t771(),
        4 => t772(),
        5 => t773(),
        6 => t774(),
        7 => t775(),
        8 => t776(),
        9 => t777(),
        10 => t778(),
        11 => t779(),
        12 => t780(),
        13 => t781(),
        14 => t782(),
        15 => t783(),
        16 => t784(),
        17 => t785(),
        18 => t786(),
        19 => t787(),
        20 => t788(),
        21 => t789(),
        22 => t790(),
        _ => t791(),
    }
}
pub fn g33() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(24) {
        0 => t792(),
        1 => t793(),
        2 => t794(),
        3 => t795(),
        4 => t796(),
        5 => t797(),
        6 => t798(),
        7 => t799(),
        8 => t800(),
        9 => t801(),
        10 => t802(),
        11 => t803(),
        12 => t804(),
        13 => t805(),
        14 => t806(),
        15 => t807(),
        16 => t808(),
        17 => t809(),
        18 => t810(),
        19 => t811(),
        20 => t812(),
        21 => t813(),
        22 => t814(),
        _ => t815(),
    }
}
pub fn g34() {
    pick_kinds(3, tiered(3, KINDS));
    match choose(20) {
        0 => t816(),
        1 => t817(),
        2 => t818(),
        3 => t819(),
        4 => t820(),
        5 => t821(),
        6 => t822(),
        7 => t823(),
        8 => t824(),
        9 => t825(),
        10 => t826(),
        11 => t827(),
        12 => t828(),
        13 => t829(),
        14 => t830(),
        15 => t831(),
        16 => t832(),
        17 => t833(),
        18 => t834(),
        _ => t835(),
    }
}
