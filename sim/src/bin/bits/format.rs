//! A serialization format of a dependent crate: text or binary, self-describing or driven by what
//! the type asks for, owning its input or lending it. Whatever a type asks it for is made from the
//! same bytes, so every entry a `Deserialize` implementation may use is reached.

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::forward_to_deserialize_any;
pub type Error = serde::de::value::Error;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Str,
    BorrowedStr,
    String,
    Bytes,
    BorrowedBytes,
    ByteBuf,
    Seq,
    Map,
    Number,
    /// gives each type what it asks for
    Asked,
}
pub const FORMS: &[Form] =
    &[Form::Str, Form::BorrowedStr, Form::String, Form::Bytes, Form::BorrowedBytes, Form::ByteBuf, Form::Seq, Form::Map, Form::Number, Form::Asked];

#[derive(Clone, Copy)]
pub struct Format<'a> {
    pub form: Form,
    pub human: bool,
    /// the payload
    pub bytes: &'a [u8],
    /// the payload as the text formats have it
    pub text: &'a str,
    /// a number, for whoever asks for one
    pub number: u64,
    /// what the sequences say of their length
    pub hint: Option<usize>,
}

impl<'a> Format<'a> {
    fn pair(self) -> Pair<'a> {
        Pair { f: self, at: 0 }
    }
}

/// A sequence of the payload's bytes.
struct Bytes<'a> {
    f: Format<'a>,
    at: usize,
}
impl<'de> SeqAccess<'de> for Bytes<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        let Some(b) = self.f.bytes.get(self.at) else { return Ok(None) };
        self.at += 1;
        let one: de::value::U8Deserializer<Error> = b.into_deserializer_();
        seed.deserialize(one).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.f.hint
    }
}
trait OneByte {
    fn into_deserializer_(&self) -> de::value::U8Deserializer<Error>;
}
impl OneByte for u8 {
    fn into_deserializer_(&self) -> de::value::U8Deserializer<Error> {
        (*self).into_deserializer()
    }
}

/// A sequence of fields, each given what it asks for.
struct Pair<'a> {
    f: Format<'a>,
    at: usize,
}
impl<'de> SeqAccess<'de> for Pair<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.at == 3 {
            return Ok(None);
        }
        self.at += 1;
        seed.deserialize(Format { form: Form::Asked, ..self.f }).map(Some)
    }
}
impl<'de> MapAccess<'de> for Pair<'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        let names = ["bytes", "len", "bits"];
        let Some(n) = names.get(self.at) else { return Ok(None) };
        self.at += 1;
        let k: de::value::StrDeserializer<Error> = (*n).into_deserializer();
        seed.deserialize(k).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        seed.deserialize(Format { form: Form::Asked, ..self.f })
    }
}
impl<'de> EnumAccess<'de> for Pair<'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), Error> {
        let k: de::value::U32Deserializer<Error> = (self.f.number as u32).into_deserializer();
        seed.deserialize(k).map(|v| (v, self))
    }
}
impl<'de> de::VariantAccess<'de> for Pair<'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(Format { form: Form::Asked, ..self.f })
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(self)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_map(self)
    }
}

macro_rules! asked {
    ($($m:ident => |$s:ident, $v:ident| $e:expr;)*) => {$(
        fn $m<V: Visitor<'de>>(self, $v: V) -> Result<V::Value, Error> {
            let $s = self;
            if $s.form == Form::Asked { $e } else { $s.deserialize_any($v) }
        }
    )*};
}

impl<'de> Deserializer<'de> for Format<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.form {
            Form::Str => v.visit_str(&self.text.to_string()),
            Form::BorrowedStr => v.visit_borrowed_str(self.text),
            Form::String => v.visit_string(self.text.to_string()),
            Form::Bytes => v.visit_bytes(&self.bytes.to_vec()),
            Form::BorrowedBytes | Form::Asked => v.visit_borrowed_bytes(self.bytes),
            Form::ByteBuf => v.visit_byte_buf(self.bytes.to_vec()),
            Form::Seq => v.visit_seq(Bytes { f: self, at: 0 }),
            Form::Map => v.visit_map(self.pair()),
            Form::Number => v.visit_u64(self.number),
        }
    }
    asked! {
        deserialize_str => |s, v| v.visit_borrowed_str(s.text);
        deserialize_string => |s, v| v.visit_string(s.text.to_string());
        deserialize_bytes => |s, v| v.visit_borrowed_bytes(s.bytes);
        deserialize_byte_buf => |s, v| v.visit_byte_buf(s.bytes.to_vec());
        deserialize_seq => |s, v| v.visit_seq(Bytes { f: s, at: 0 });
        deserialize_u8 => |s, v| v.visit_u8(s.number as u8);
        deserialize_u16 => |s, v| v.visit_u16(s.number as u16);
        deserialize_u32 => |s, v| v.visit_u32(s.number as u32);
        deserialize_u64 => |s, v| v.visit_u64(s.number);
        deserialize_u128 => |s, v| v.visit_u128(s.number as u128);
        deserialize_map => |s, v| v.visit_map(s.pair());
        deserialize_bool => |s, v| v.visit_bool(s.number % 2 == 1);
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        if n > 3 {
            return v.visit_seq(Bytes { f: self, at: 0 });
        }
        v.visit_seq(self.pair())
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(self.pair())
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        if self.human {
            v.visit_map(self.pair())
        } else {
            v.visit_seq(self.pair())
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(self.pair())
    }
    forward_to_deserialize_any! { i8 i16 i32 i64 i128 f32 f64 char unit unit_struct identifier ignored_any }
}
