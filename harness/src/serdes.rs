//! Minimal serde back ends: a serializer that accepts exactly one string, and serde's own string deserializers.
use serde::de::value::{BorrowedStrDeserializer, Error, StrDeserializer, StringDeserializer};
use serde::de::Deserialize;
use serde::ser::{Impossible, Serialize, Serializer};

pub struct Cap;
#[derive(Debug)]
pub struct NotAString;
impl std::fmt::Display for NotAString {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for NotAString {}
impl serde::ser::Error for NotAString {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        NotAString
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $( fn $f(self $(, _: $t)*) -> Result<String, NotAString> { Err(NotAString) } )* };
}
type Im = Impossible<String, NotAString>;
impl Serializer for Cap {
    type Ok = String;
    type Error = NotAString;
    type SerializeSeq = Im;
    type SerializeTuple = Im;
    type SerializeTupleStruct = Im;
    type SerializeTupleVariant = Im;
    type SerializeMap = Im;
    type SerializeStruct = Im;
    type SerializeStructVariant = Im;
    fn serialize_str(self, v: &str) -> Result<String, NotAString> {
        Ok(v.to_owned())
    }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, v: &T) -> Result<String, NotAString> {
        Ok(v.to_string())
    }
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]);
        serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, NotAString> {
        Err(NotAString)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<String, NotAString> {
        // transparent in every self-describing format
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, NotAString> {
        Err(NotAString)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_tuple(self, _: usize) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Im, NotAString> {
        Err(NotAString)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, NotAString> {
        Err(NotAString)
    }
}
pub fn ser<T: Serialize>(t: &T) -> Option<String> {
    t.serialize(Cap).ok()
}
/// through a transient, an owned and a borrowed string
pub fn de<'a, T: Deserialize<'a>>(s: &'a str, how: usize) -> Option<T> {
    match how {
        0 => T::deserialize(StrDeserializer::<Error>::new(s)).ok(),
        1 => T::deserialize(StringDeserializer::<Error>::new(s.to_owned())).ok(),
        _ => T::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok(),
    }
}
