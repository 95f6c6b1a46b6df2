//! A serializer that records what a Serialize impl emits.

use serde::de;
use serde::ser::{self, Serialize, Serializer};
use std::fmt::{self, Display};

#[derive(Debug, Clone, PartialEq)]
pub struct Er(pub String);
impl Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: Display>(m: T) -> Er { Er(m.to_string()) }
}
impl de::Error for Er {
    fn custom<T: Display>(m: T) -> Er { Er(m.to_string()) }
}

/// What a Serialize impl emitted.
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Text(String),
    Bytes(Vec<u8>),
    Other(&'static str),
}

pub struct Ser {
    pub human: bool,
}
macro_rules! other {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Out, Er> { Ok(Out::Other(stringify!($f))) })* };
}
impl Serializer for Ser {
    type Ok = Out;
    type Error = Er;
    type SerializeSeq = ser::Impossible<Out, Er>;
    type SerializeTuple = ser::Impossible<Out, Er>;
    type SerializeTupleStruct = ser::Impossible<Out, Er>;
    type SerializeTupleVariant = ser::Impossible<Out, Er>;
    type SerializeMap = ser::Impossible<Out, Er>;
    type SerializeStruct = ser::Impossible<Out, Er>;
    type SerializeStructVariant = ser::Impossible<Out, Er>;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_str(self, v: &str) -> Result<Out, Er> { Ok(Out::Text(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, Er> { Ok(Out::Bytes(v.to_vec())) }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> Result<Out, Er> { Ok(Out::Text(v.to_string())) }
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<Out, Er> { Ok(Out::Other("none")) }
    fn serialize_unit(self) -> Result<Out, Er> { Ok(Out::Other("unit")) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Out, Er> { Ok(Out::Other("some")) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Out, Er> { Ok(Out::Other("variant")) }
    // A newtype wrapper is transparent in the formats that matter here.
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Out, Er> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, Er> { Ok(Out::Other("newtype variant")) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Er> { Err(Er("seq".into())) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> { Err(Er("tuple".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> { Err(Er("tuple struct".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> { Err(Er("tuple variant".into())) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> { Err(Er("map".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> { Err(Er("struct".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> { Err(Er("struct variant".into())) }
}
