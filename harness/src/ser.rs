//! A serde format that keeps values as trees.
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{IntoDeserializer, Visitor};
use serde::ser::*;
use serde::{forward_to_deserialize_any, Deserializer};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(u128),
    B(bool),
    S(String),
    Nil,
    Seq(Vec<V>),
    Map(Vec<(&'static str, V)>),
    Var(&'static str, Box<V>),
}
pub fn put<T: Serialize + ?Sized>(t: &T) -> Option<V> {
    t.serialize(F).ok()
}
pub fn get<T: for<'de> serde::Deserialize<'de>>(v: V) -> Option<T> {
    T::deserialize(v).ok()
}
#[derive(Debug)]
pub struct No;
impl std::fmt::Display for No {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for No {}
impl serde::ser::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
}
impl serde::de::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
}
pub struct F;
pub struct Many(Option<&'static str>, Vec<V>);
pub struct Fields(Option<&'static str>, Vec<(&'static str, V)>);
impl Many {
    fn done(self) -> Result<V, No> {
        let v = V::Seq(self.1);
        Ok(match self.0 {
            None => v,
            Some(n) => V::Var(n, Box::new(v)),
        })
    }
    fn add<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), No> {
        self.1.push(t.serialize(F)?);
        Ok(())
    }
}
impl Fields {
    fn done(self) -> Result<V, No> {
        let v = V::Map(self.1);
        Ok(match self.0 {
            None => v,
            Some(n) => V::Var(n, Box::new(v)),
        })
    }
}
macro_rules! numbers {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Result<V, No> { Ok(V::N(v as u128)) })*};
}
macro_rules! many {
    ($($t:ident $f:ident),*) => {$(impl $t for Many {
        type Ok = V;
        type Error = No;
        fn $f<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), No> {
            self.add(t)
        }
        fn end(self) -> Result<V, No> {
            self.done()
        }
    })*};
}
many!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => {$(impl $t for Fields {
        type Ok = V;
        type Error = No;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), No> {
            self.1.push((k, t.serialize(F)?));
            Ok(())
        }
        fn end(self) -> Result<V, No> {
            self.done()
        }
    })*};
}
fields!(SerializeStruct, SerializeStructVariant);
impl Serializer for F {
    type Ok = V;
    type Error = No;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Impossible<V, No>;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    numbers!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_char char);
    fn serialize_bool(self, v: bool) -> Result<V, No> {
        Ok(V::B(v))
    }
    fn serialize_f32(self, _: f32) -> Result<V, No> {
        Err(No)
    }
    fn serialize_f64(self, _: f64) -> Result<V, No> {
        Err(No)
    }
    fn serialize_str(self, v: &str) -> Result<V, No> {
        Ok(V::S(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<V, No> {
        Err(No)
    }
    fn serialize_none(self) -> Result<V, No> {
        Ok(V::Nil)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<V, No> {
        t.serialize(self)
    }
    fn serialize_unit(self) -> Result<V, No> {
        Ok(V::Nil)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, No> {
        Ok(V::Nil)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V, No> {
        Ok(V::S(n.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<V, No> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, t: &T) -> Result<V, No> {
        Ok(V::Var(n, Box::new(t.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, No> {
        Ok(Many(None, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, No> {
        Ok(Many(None, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, No> {
        Ok(Many(None, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Many, No> {
        Ok(Many(Some(n), vec![]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<V, No>, No> {
        Err(No)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, No> {
        Ok(Fields(None, vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Fields, No> {
        Ok(Fields(Some(n), vec![]))
    }
}
impl IntoDeserializer<'_, No> for V {
    type Deserializer = V;
    fn into_deserializer(self) -> V {
        self
    }
}
impl<'de> Deserializer<'de> for V {
    type Error = No;
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, No> {
        match self {
            V::N(n) if n >> 64 != 0 => x.visit_u128(n),
            V::N(n) => x.visit_u64(n as u64),
            V::B(b) => x.visit_bool(b),
            V::S(s) => x.visit_string(s),
            V::Nil => x.visit_unit(),
            V::Seq(v) => x.visit_seq(SeqDeserializer::new(v.into_iter())),
            V::Map(v) => x.visit_map(MapDeserializer::new(v.into_iter())),
            V::Var(..) => Err(No),
        }
    }
    fn deserialize_u128<X: Visitor<'de>>(self, x: X) -> Result<X::Value, No> {
        match self {
            V::N(n) => x.visit_u128(n),
            _ => Err(No),
        }
    }
    fn deserialize_newtype_struct<X: Visitor<'de>>(self, _: &'static str, x: X) -> Result<X::Value, No> {
        x.visit_newtype_struct(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
        option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
