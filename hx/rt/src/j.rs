//! What a data format sees: a serializer that records the serialized form as JSON
//! would, keeping duplicate keys and key order.
use serde::ser::*;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Float(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}

pub struct Rec;
pub struct Seq(Vec<J>, Option<&'static str>);
pub struct Map(Vec<(String, J)>, Option<String>, Option<&'static str>);

/// The serialized form, or `None` if the type refuses to serialize.
pub fn to_j<T: Serialize + ?Sized>(v: &T) -> Option<J> {
    v.serialize(Rec).ok()
}

fn key(j: J) -> Result<String, E> {
    match j {
        J::Str(s) => Ok(s),
        J::Int(n) if n >= 0 && n <= 0xffff => Ok((n as u16).to_string()),
        J::Int(n) => Ok(n.to_string()),
        J::Bool(b) => Ok(if b { "true".to_owned() } else { "false".to_owned() }),
        _ => Err(E),
    }
}

fn wrap(v: Option<&'static str>, j: J) -> J {
    match v {
        Some(v) => J::Obj(vec![(v.to_owned(), j)]),
        None => j,
    }
}

impl Serializer for Rec {
    type Ok = J;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    fn serialize_bool(self, v: bool) -> Result<J, E> {
        Ok(J::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_u8(self, v: u8) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_u16(self, v: u16) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_u32(self, v: u32) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_u64(self, v: u64) -> Result<J, E> {
        Ok(J::Int(v as i128))
    }
    fn serialize_f32(self, v: f32) -> Result<J, E> {
        Ok(J::Float(v.to_bits() as u64))
    }
    fn serialize_f64(self, v: f64) -> Result<J, E> {
        Ok(J::Float(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<J, E> {
        Ok(J::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<J, E> {
        Ok(J::Str(v.to_owned()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, E> {
        Ok(J::Arr(v.iter().map(|b| J::Int(*b as i128)).collect()))
    }
    fn serialize_none(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<J, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, E> {
        Ok(J::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<J, E> {
        Ok(J::Str(v.to_owned()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<J, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<J, E> {
        Ok(wrap(Some(n), v.serialize(Rec)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> {
        Ok(Seq(Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq(Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(Vec::new(), Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, E> {
        Ok(Map(Vec::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map, E> {
        Ok(Map(Vec::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map, E> {
        Ok(Map(Vec::new(), None, Some(n)))
    }
}
macro_rules! seq {
    ($t:ident, $f:ident) => {
        impl $t for Seq {
            type Ok = J;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(Rec)?);
                Ok(())
            }
            fn end(self) -> Result<J, E> {
                Ok(wrap(self.1, J::Arr(self.0)))
            }
        }
    };
}
seq!(SerializeSeq, serialize_element);
seq!(SerializeTuple, serialize_element);
seq!(SerializeTupleStruct, serialize_field);
seq!(SerializeTupleVariant, serialize_field);
macro_rules! strukt {
    ($t:ident) => {
        impl $t for Map {
            type Ok = J;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                let v = v.serialize(Rec)?;
                self.0.push((k.to_owned(), v));
                Ok(())
            }
            fn end(self) -> Result<J, E> {
                Ok(wrap(self.2, J::Obj(self.0)))
            }
        }
    };
}
strukt!(SerializeStruct);
strukt!(SerializeStructVariant);
impl SerializeMap for Map {
    type Ok = J;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(key(k.serialize(Rec)?)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E)?;
        let v = v.serialize(Rec)?;
        self.0.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<J, E> {
        Ok(J::Obj(self.0))
    }
}

/// Equality of text without branching byte by byte.
pub fn seq_eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Structural equality; objects compare as maps only if `ordered` is false.
pub fn j_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::Int(a), J::Int(b)) => a == b,
        (J::Float(a), J::Float(b)) => a == b,
        (J::Str(a), J::Str(b)) => seq_eq(a, b),
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| j_eq(a, b)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| seq_eq(k, l) && j_eq(a, b)),
        _ => false,
    }
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| seq_eq(n, k)).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            J::Obj(v) => v.iter().map(|x| x.0.as_str()).collect(),
            _ => Vec::new(),
        }
    }
    /// As `j_eq`, but the order of keys inside objects does not matter. Keys are
    /// required to be distinct on both sides.
    pub fn same(&self, b: &J) -> bool {
        match (self, b) {
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (J::Obj(a), J::Obj(b)) => {
                a.len() == b.len()
                    && distinct(a)
                    && distinct(b)
                    && a.iter().all(|(k, v)| b.iter().any(|(l, w)| seq_eq(k, l) && v.same(w)))
            }
            _ => j_eq(self, b),
        }
    }
}
pub fn distinct(v: &[(String, J)]) -> bool {
    for i in 0..v.len() {
        for k in 0..i {
            if seq_eq(&v[i].0, &v[k].0) {
                return false;
            }
        }
    }
    true
}
static mut UNORDERED: bool = false;
/// What follows depends on a hasher's random keys: not compared between runs.
pub fn unordered() {
    unsafe { UNORDERED = true }
}
pub fn observe_j(j: &J) {
    if unsafe { UNORDERED } {
        return;
    }
    use crate::sx::*;
    match j {
        J::Null => observe(1),
        J::Bool(b) => observe(2 + *b as u64),
        J::Int(n) => {
            observe(4);
            observe(*n as u64)
        }
        J::Float(n) => {
            observe(5);
            observe(*n)
        }
        J::Str(s) => {
            observe(6);
            observe_str(s)
        }
        J::Arr(a) => {
            observe(7);
            observe(a.len() as u64);
            for x in a {
                observe_j(x)
            }
        }
        J::Obj(a) => {
            observe(8);
            observe(a.len() as u64);
            for (k, x) in a {
                observe_str(k);
                observe_j(x)
            }
        }
    }
}
