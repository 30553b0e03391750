//! The smallest serialization format that holds messages and points: a tape of typed values, with the names of
//! struct members on it.  `Mode::Named` reads structs back by member name (as JSON does), `Mode::Positional` by
//! position (as binary formats do).
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn missing_field(_: &'static str) -> Self {
        E
    }
    fn duplicate_field(_: &'static str) -> Self {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        E
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    None,
    U8,
    U32,
    I32,
    F32,
    Bool,
    Str,
    Seq,
    Struct,
    Variant,
}

/// One value. `text` is a copy of a string; `len` is the number of elements of a sequence or the number of
/// members of a struct; `name` is the member name in front of it.
#[derive(Clone, Copy)]
pub struct Tok {
    pub kind: Kind,
    pub bits: u64,
    pub len: usize,
    pub name: &'static str,
    pub text: &'static str,
}

pub const MAX: usize = 40;

pub struct Tape {
    pub t: [Tok; MAX],
    pub n: usize,
    pub at: usize,
    pub named: bool,
    next_name: &'static str,
}
impl Tape {
    pub fn new(named: bool) -> Tape {
        Tape { t: [Tok { kind: Kind::None, bits: 0, len: 0, name: "", text: "" }; MAX], n: 0, at: 0, named, next_name: "" }
    }
    fn put(&mut self, kind: Kind, bits: u64, len: usize) -> Result<(), E> {
        if self.n >= MAX {
            return Err(E);
        }
        let name = self.next_name;
        self.next_name = "";
        self.t[self.n] = Tok { kind, bits, len, name, text: "" };
        self.n += 1;
        Ok(())
    }
    fn take(&mut self, kind: Kind) -> Result<Tok, E> {
        if self.at >= self.n {
            return Err(E);
        }
        let t = self.t[self.at];
        if t.kind != kind {
            return Err(E);
        }
        self.at += 1;
        Ok(t)
    }
}

macro_rules! no_ser {
    ($($f:ident($t:ty))*) => { $( fn $f(self, _: $t) -> Result<(), E> { Err(E) } )* };
}

impl<'a> ser::Serializer for &'a mut Tape {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeStruct = Self;
    type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    no_ser!(serialize_i8(i8) serialize_i16(i16) serialize_i64(i64) serialize_u16(u16) serialize_u64(u64) serialize_f64(f64) serialize_char(char) serialize_bytes(&[u8]) serialize_unit_struct(&'static str));
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.put(Kind::Bool, v as u64, 0)
    }
    fn serialize_u8(self, v: u8) -> Result<(), E> {
        self.put(Kind::U8, v as u64, 0)
    }
    fn serialize_u32(self, v: u32) -> Result<(), E> {
        self.put(Kind::U32, v as u64, 0)
    }
    fn serialize_i32(self, v: i32) -> Result<(), E> {
        self.put(Kind::I32, v as u32 as u64, 0)
    }
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.put(Kind::F32, v.to_bits() as u64, 0)
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        let copy = core::mem::ManuallyDrop::new(String::from(v));
        let text: &'static str = unsafe { core::mem::transmute::<&str, &'static str>(copy.as_str()) };
        self.put(Kind::Str, 0, 0)?;
        self.t[self.n - 1].text = text;
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.put(Kind::Variant, i as u64, 0)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        self.put(Kind::Seq, 0, len.ok_or(E)?)?;
        Ok(self)
    }
    fn serialize_tuple(self, len: usize) -> Result<Self, E> {
        self.put(Kind::Seq, 0, len)?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Self, E> {
        self.put(Kind::Struct, 0, len)?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), E>, E> {
        Err(E)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Tape {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeTuple for &'a mut Tape {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeStruct for &'a mut Tape {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> Result<(), E> {
        self.next_name = name;
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

macro_rules! scalar_de {
    ($($f:ident, $kind:ident, $visit:ident, |$b:ident| $e:expr;)*) => {
        $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let $b = self.take(Kind::$kind)?.bits; v.$visit($e) } )*
    };
}
macro_rules! no_de {
    ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) } )* };
}
impl<'de, 'a> de::Deserializer<'de> for &'a mut Tape {
    type Error = E;
    scalar_de! {
        deserialize_bool, Bool, visit_bool, |b| b != 0;
        deserialize_u8, U8, visit_u8, |b| b as u8;
        deserialize_u32, U32, visit_u32, |b| b as u32;
        deserialize_i32, I32, visit_i32, |b| b as u32 as i32;
        deserialize_f32, F32, visit_f32, |b| f32::from_bits(b as u32);
    }
    no_de!(deserialize_any deserialize_i8 deserialize_i16 deserialize_i64 deserialize_u16 deserialize_u64 deserialize_f64 deserialize_char
        deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.take(Kind::Str)?;
        v.visit_string(String::from(t.text))
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.take(Kind::Seq)?.len;
        v.visit_seq(Items { tape: self, left: n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let n = self.take(Kind::Struct)?.len;
        if self.named {
            v.visit_map(Items { tape: self, left: n })
        } else {
            v.visit_seq(Items { tape: self, left: n })
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let i = self.take(Kind::Variant)?.bits;
        v.visit_enum(Variant(i as u32))
    }
}
struct Items<'a> {
    tape: &'a mut Tape,
    left: usize,
}
impl<'de, 'a> SeqAccess<'de> for Items<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.tape).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'de, 'a> MapAccess<'de> for Items<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        if self.tape.at >= self.tape.n {
            return Err(E);
        }
        seed.deserialize(Name(self.tape.t[self.tape.at].name)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(&mut *self.tape)
    }
}
struct Name(&'static str);
impl<'de> de::Deserializer<'de> for Name {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Variant(u32);
impl<'de> de::Deserializer<'de> for Variant {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u32(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> EnumAccess<'de> for Variant {
    type Error = E;
    type Variant = Unit;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Unit), E> {
        Ok((seed.deserialize(self)?, Unit))
    }
}
struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, E> {
        Err(E)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E)
    }
}
