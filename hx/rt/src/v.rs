//! A field type that stands for any type: its schema and its values are symbolic,
//! and agree with each other. The kind is chosen per run, the value per instance.
use crate::gen::*;
use crate::sx::*;
use crate::o::*;
use serde::{Serialize, Serializer};
use std::borrow::Cow;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct V<const I: usize> {
    pub bits: u64,
    pub gone: bool,
}
pub const KINDS: u32 = 6;
static mut KIND: [u32; 4] = [0; 4];

/// Chooses what each of the first `n` types is, among the first `max` kinds.
pub fn pick_kinds(n: usize, max: u32) {
    for i in 0..n {
        set_kind(i, choose(max));
    }
}
pub fn set_kind(i: usize, k: u32) {
    unsafe { KIND[i] = k }
}
pub fn kind(i: usize) -> u32 {
    unsafe { KIND[i] }
}
static mut TEXT: [Option<u8>; 4] = [None; 4];
/// The schemas of the types carry a symbolic description from now on.
pub fn described_kinds() {
    for i in 0..4 {
        let b = sym_u8();
        assume(b < 0x80);
        unsafe { TEXT[i] = Some(b) }
    }
}
/// Is the type documented under a name?
pub fn named(i: usize) -> bool {
    kind(i) == 1
}
impl<const I: usize> V<I> {
    pub fn any() -> Self {
        V { bits: sym(64), gone: false }
    }
    /// As `any`, and symbolically left out where the declaration allows it.
    pub fn maybe() -> Self {
        V { bits: sym(64), gone: flip() }
    }
}
impl<const I: usize> Default for V<I> {
    fn default() -> Self {
        V { bits: 0, gone: false }
    }
}
pub trait Gone {
    fn gone(&self) -> bool;
}
impl<const I: usize> Gone for V<I> {
    fn gone(&self) -> bool {
        self.gone
    }
}
impl<const N: usize> Gone for X<N> {
    fn gone(&self) -> bool {
        self.gone
    }
}
pub fn gone<T: Gone>(v: &T) -> bool {
    v.gone()
}
/// A type without a schema, for fields with an explicit one: its values are texts (0), integers (1), numbers (2) or truth values (3).
#[derive(Clone)]
pub struct X<const N: usize> {
    pub bits: u64,
    pub gone: bool,
}
impl<const N: usize> X<N> {
    pub fn any() -> Self {
        X { bits: sym(64), gone: false }
    }
    pub fn maybe() -> Self {
        X { bits: sym(64), gone: flip() }
    }
}
impl<const N: usize> Default for X<N> {
    fn default() -> Self {
        X { bits: 0, gone: false }
    }
}
impl<const N: usize> Serialize for X<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match N {
            0 => s.serialize_str(if self.bits & 1 == 1 { "text" } else { "" }),
            1 => s.serialize_i64(self.bits as i64),
            2 => s.serialize_f64(if self.bits & 1 == 1 { 0.5 } else { -1.0 }),
            _ => s.serialize_bool(self.bits & 1 == 1),
        }
    }
}
const NAMES: [&str; 4] = ["V0", "V1", "V2", "V3"];

#[derive(Serialize)]
struct K {
    k: bool,
}
impl<const I: usize> Serialize for V<I> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let b = self.bits & 1 == 1;
        match kind(I) {
            0 => s.serialize_i32(self.bits as i32),
            1 | 5 => K { k: b }.serialize(s),
            2 => s.serialize_str(if b { "x" } else { "y" }),
            3 => {
                if self.bits & 2 == 2 {
                    s.serialize_none()
                } else {
                    s.serialize_bool(b)
                }
            }
            _ => [self.bits as u8].serialize(s),
        }
    }
}
impl<const I: usize> OpgModel for V<I> {
    fn get_schema(_: &mut Components) -> Model {
        use ModelTypeDescription as D;
        let mut m = match kind(I) {
            0 => plain(D::Integer(ModelSimple { format: Some("int32".to_owned()), example: None })),
            1 | 5 => {
                let mut properties = BTreeMap::new();
                properties.insert("k".to_owned(), ModelReference::Inline(boolean()));
                plain(D::Object(ModelObject { properties, additional_properties: None, required: vec!["k".to_owned()] }))
            }
            2 => plain(D::String(ModelString {
                variants: Some(vec!["x".to_owned(), "y".to_owned()]),
                data: ModelSimple { format: None, example: None },
            })),
            3 => model(single(true, D::Boolean)),
            _ => plain(D::Array(ModelArray {
                items: Box::new(ModelReference::Inline(plain(D::Integer(ModelSimple { format: Some("uint8".to_owned()), example: None })))),
            })),
        };
        if let Some(b) = unsafe { TEXT[I] } {
            m.description = Some((b as char).to_string());
        }
        m
    }
    fn type_name() -> Option<Cow<'static, str>> {
        if named(I) {
            Some(NAMES[I].into())
        } else {
            None
        }
    }
}
