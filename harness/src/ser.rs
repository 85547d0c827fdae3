//! A data format that only remembers: serialising builds a `Rec`, reading it
//! back hands each part to the visitor as a map or as a sequence.
use core::fmt;
use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, Serialize, SerializeStruct, Serializer};

macro_rules! opaque {
    () => {
        loop {}
    };
}

pub struct MSer(u64);
pub struct Rec(u64);
pub struct MStruct(u64);

#[derive(Debug)]
pub struct MErr(u64);

impl fmt::Display for MErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        opaque!()
    }
}
#[cfg(feature = "std")]
impl std::error::Error for MErr {}
#[cfg(not(feature = "std"))]
impl core::error::Error for MErr {}
impl serde::ser::Error for MErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        opaque!()
    }
}
impl serde::de::Error for MErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        opaque!()
    }
    fn invalid_length(len: usize, exp: &dyn serde::de::Expected) -> Self {
        opaque!()
    }
    fn missing_field(field: &'static str) -> Self {
        opaque!()
    }
    fn duplicate_field(field: &'static str) -> Self {
        opaque!()
    }
    fn unknown_field(field: &str, expected: &'static [&'static str]) -> Self {
        opaque!()
    }
}

macro_rules! scalars {
    ($($n:ident: $t:ty),*) => {$(
        fn $n(self, v: $t) -> Result<Rec, MErr> { opaque!() }
    )*};
}

impl Serializer for MSer {
    type Ok = Rec;
    type Error = MErr;
    type SerializeSeq = Impossible<Rec, MErr>;
    type SerializeTuple = Impossible<Rec, MErr>;
    type SerializeTupleStruct = MStruct;
    type SerializeTupleVariant = Impossible<Rec, MErr>;
    type SerializeMap = Impossible<Rec, MErr>;
    type SerializeStruct = MStruct;
    type SerializeStructVariant = Impossible<Rec, MErr>;

    scalars!(
        serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8]
    );

    fn serialize_none(self) -> Result<Rec, MErr> {
        Ok(rec_none())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Rec, MErr> {
        let r = v.serialize(mser())?;
        Ok(rec_some(r))
    }
    fn serialize_unit(self) -> Result<Rec, MErr> {
        opaque!()
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Rec, MErr> {
        opaque!()
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Rec, MErr> {
        opaque!()
    }
    // A newtype struct is transparent, as it is in the usual formats.
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Rec, MErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        x: &T,
    ) -> Result<Rec, MErr> {
        opaque!()
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, MErr> {
        opaque!()
    }
    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, MErr> {
        opaque!()
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<MStruct, MErr> {
        Ok(mstruct_new())
    }
    fn serialize_tuple_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        len: usize,
    ) -> Result<Self::SerializeTupleVariant, MErr> {
        opaque!()
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, MErr> {
        opaque!()
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<MStruct, MErr> {
        Ok(mstruct_new())
    }
    fn serialize_struct_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        len: usize,
    ) -> Result<Self::SerializeStructVariant, MErr> {
        opaque!()
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Rec, MErr> {
        opaque!()
    }
}

// Primitives of the data format; the analyses give them meaning.
pub fn mser() -> MSer {
    opaque!()
}
pub fn mstruct_new() -> MStruct {
    opaque!()
}
pub fn mstruct_push(s: &mut MStruct, key: &'static str, v: Rec) {
    opaque!()
}
pub fn mstruct_end(s: MStruct) -> Rec {
    opaque!()
}
pub fn rec_none() -> Rec {
    opaque!()
}
pub fn rec_some(r: Rec) -> Rec {
    opaque!()
}
pub fn rec_is_none(d: &MDe) -> bool {
    opaque!()
}
pub fn rec_inner(d: MDe) -> MDe {
    opaque!()
}
pub fn rec_len(r: &Rec) -> usize {
    opaque!()
}
pub fn rec_key(r: &Rec, i: usize) -> &'static str {
    opaque!()
}
pub fn rec_val(r: &Rec, i: usize) -> MDe {
    opaque!()
}
pub fn rec_map(d: &MDe) -> bool {
    opaque!()
}
pub fn rec_of(d: MDe) -> Rec {
    opaque!()
}

impl SerializeStruct for MStruct {
    type Ok = Rec;
    type Error = MErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), MErr> {
        let r = v.serialize(mser())?;
        mstruct_push(self, key, r);
        Ok(())
    }
    fn end(self) -> Result<Rec, MErr> {
        Ok(mstruct_end(self))
    }
}

impl serde::ser::SerializeTupleStruct for MStruct {
    type Ok = Rec;
    type Error = MErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), MErr> {
        let r = v.serialize(mser())?;
        mstruct_push(self, "", r);
        Ok(())
    }
    fn end(self) -> Result<Rec, MErr> {
        Ok(mstruct_end(self))
    }
}

// The reading side.
pub struct MDe(u64);

macro_rules! de_opaque {
    ($($n:ident),*) => {$(
        fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, MErr> { opaque!() }
    )*};
}

pub struct MMap {
    rec: Rec,
    i: usize,
}
pub struct MSeq {
    rec: Rec,
    i: usize,
}
pub struct MKey(&'static str);

impl<'de> Deserializer<'de> for MDe {
    type Error = MErr;
    de_opaque!(
        deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64,
        deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf,
        deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier
    );
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, MErr> {
        v.visit_unit()
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, MErr> {
        if rec_is_none(&self) {
            v.visit_none()
        } else {
            v.visit_some(rec_inner(self))
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, MErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, len: usize, v: V) -> Result<V::Value, MErr> {
        v.visit_seq(MSeq { rec: rec_of(self), i: 0 })
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        n: &'static str,
        f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, MErr> {
        if rec_map(&self) {
            v.visit_map(MMap { rec: rec_of(self), i: 0 })
        } else {
            v.visit_seq(MSeq { rec: rec_of(self), i: 0 })
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        n: &'static str,
        vs: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, MErr> {
        opaque!()
    }
}

impl<'de> MapAccess<'de> for MMap {
    type Error = MErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, MErr> {
        if self.i < rec_len(&self.rec) {
            let k = seed.deserialize(MKey(rec_key(&self.rec, self.i)))?;
            Ok(Some(k))
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, MErr> {
        let i = self.i;
        self.i = i + 1;
        seed.deserialize(rec_val(&self.rec, i))
    }
}

impl<'de> SeqAccess<'de> for MSeq {
    type Error = MErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, MErr> {
        let i = self.i;
        if i < rec_len(&self.rec) {
            self.i = i + 1;
            let v = seed.deserialize(rec_val(&self.rec, i))?;
            Ok(Some(v))
        } else {
            Ok(None)
        }
    }
}

macro_rules! key_visit {
    ($($n:ident),*) => {$(
        fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, MErr> { v.visit_str(self.0) }
    )*};
}
macro_rules! key_opaque {
    ($($n:ident),*) => {$(
        fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, MErr> { opaque!() }
    )*};
}

impl<'de> Deserializer<'de> for MKey {
    type Error = MErr;
    key_visit!(deserialize_any, deserialize_str, deserialize_string, deserialize_identifier);
    key_opaque!(
        deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64,
        deserialize_char, deserialize_bytes, deserialize_byte_buf,
        deserialize_option, deserialize_unit, deserialize_seq, deserialize_map,
        deserialize_ignored_any
    );
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, len: usize, v: V) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        n: &'static str,
        f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, MErr> {
        opaque!()
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        n: &'static str,
        vs: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, MErr> {
        opaque!()
    }
}
