//! A serialiser and a deserialiser whose data model is the analyser's: every leaf goes to or comes from a function the
//! analyser interprets itself (tape_*), so that (de)serialisation code of /repo is evaluated against an abstract document.
use serde::{de, ser};
use std::fmt;
#[derive(Debug)]
pub struct VErr;
impl fmt::Display for VErr { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for VErr {}
impl ser::Error for VErr { fn custom<T: fmt::Display>(_: T) -> Self { VErr } }
impl de::Error for VErr { fn custom<T: fmt::Display>(_: T) -> Self { VErr } }
pub fn tape_str(_: &str) { unimplemented!() }
pub fn tape_char(_: char) { unimplemented!() }
pub fn tape_bytes(_: &[u8]) { unimplemented!() }
pub fn tape_u(_: u64) { unimplemented!() }
pub fn tape_i(_: i64) { unimplemented!() }
pub fn tape_bool(_: bool) { unimplemented!() }
pub fn tape_float(_: f64) { unimplemented!() }
pub fn tape_null() { unimplemented!() }
pub fn tape_begin(_: u8) { unimplemented!() }
pub fn tape_key(_: &str) { unimplemented!() }
pub fn tape_end() { unimplemented!() }
/// kind of the node to read: 0 null, 1 bool, 2 unsigned, 3 signed, 4 float, 5 string, 6 sequence, 7 map
pub fn read_kind() -> u8 { unimplemented!() }
pub fn read_bool() -> bool { unimplemented!() }
pub fn read_u() -> u64 { unimplemented!() }
pub fn read_i() -> i64 { unimplemented!() }
pub fn read_float() -> f64 { unimplemented!() }
pub fn read_str() -> String { unimplemented!() }
pub fn read_enter() { unimplemented!() }
pub fn read_more() -> bool { unimplemented!() }
pub fn read_key() { unimplemented!() }
pub fn read_value() { unimplemented!() }
pub fn read_leave() -> bool { unimplemented!() }

#[derive(Clone, Copy)]
pub struct VSer;
pub struct VComp { pub close: u8 }
impl ser::Serializer for VSer {
    type Ok = (); type Error = VErr;
    type SerializeSeq = VComp; type SerializeTuple = VComp; type SerializeTupleStruct = VComp; type SerializeTupleVariant = VComp;
    type SerializeMap = VComp; type SerializeStruct = VComp; type SerializeStructVariant = VComp;
    fn serialize_bool(self, v: bool) -> Result<(), VErr> { tape_bool(v); Ok(()) }
    fn serialize_i8(self, v: i8) -> Result<(), VErr> { tape_i(v as i64); Ok(()) }
    fn serialize_i16(self, v: i16) -> Result<(), VErr> { tape_i(v as i64); Ok(()) }
    fn serialize_i32(self, v: i32) -> Result<(), VErr> { tape_i(v as i64); Ok(()) }
    fn serialize_i64(self, v: i64) -> Result<(), VErr> { tape_i(v); Ok(()) }
    fn serialize_u8(self, v: u8) -> Result<(), VErr> { tape_u(v as u64); Ok(()) }
    fn serialize_u16(self, v: u16) -> Result<(), VErr> { tape_u(v as u64); Ok(()) }
    fn serialize_u32(self, v: u32) -> Result<(), VErr> { tape_u(v as u64); Ok(()) }
    fn serialize_u64(self, v: u64) -> Result<(), VErr> { tape_u(v); Ok(()) }
    fn serialize_f32(self, v: f32) -> Result<(), VErr> { tape_float(v as f64); Ok(()) }
    fn serialize_f64(self, v: f64) -> Result<(), VErr> { tape_float(v); Ok(()) }
    fn serialize_char(self, v: char) -> Result<(), VErr> { tape_char(v); Ok(()) }
    fn serialize_str(self, v: &str) -> Result<(), VErr> { tape_str(v); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), VErr> { tape_bytes(v); Ok(()) }
    fn serialize_none(self) -> Result<(), VErr> { tape_null(); Ok(()) }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<(), VErr> { v.serialize(self) }
    fn serialize_unit(self) -> Result<(), VErr> { tape_null(); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), VErr> { tape_null(); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), VErr> { tape_str(v); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), VErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<(), VErr> { tape_begin(1); tape_key(k); v.serialize(self)?; tape_end(); Ok(()) }
    fn serialize_seq(self, _: Option<usize>) -> Result<VComp, VErr> { tape_begin(0); Ok(VComp { close: 1 }) }
    fn serialize_tuple(self, _: usize) -> Result<VComp, VErr> { tape_begin(0); Ok(VComp { close: 1 }) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<VComp, VErr> { tape_begin(0); Ok(VComp { close: 1 }) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<VComp, VErr> { tape_begin(1); tape_key(k); tape_begin(0); Ok(VComp { close: 2 }) }
    fn serialize_map(self, _: Option<usize>) -> Result<VComp, VErr> { tape_begin(1); Ok(VComp { close: 1 }) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<VComp, VErr> { tape_begin(1); Ok(VComp { close: 1 }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<VComp, VErr> { tape_begin(1); tape_key(k); tape_begin(1); Ok(VComp { close: 2 }) }
}
impl VComp { pub fn fin(self) -> Result<(), VErr> { tape_end(); if self.close == 2 { tape_end(); } Ok(()) } }
impl ser::SerializeSeq for VComp { type Ok = (); type Error = VErr;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), VErr> { v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeTuple for VComp { type Ok = (); type Error = VErr;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), VErr> { v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeTupleStruct for VComp { type Ok = (); type Error = VErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), VErr> { v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeTupleVariant for VComp { type Ok = (); type Error = VErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), VErr> { v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeMap for VComp { type Ok = (); type Error = VErr;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, k: &T) -> Result<(), VErr> { k.serialize(VKey) }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), VErr> { v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeStruct for VComp { type Ok = (); type Error = VErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), VErr> { tape_key(k); v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
impl ser::SerializeStructVariant for VComp { type Ok = (); type Error = VErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), VErr> { tape_key(k); v.serialize(VSer) }
    fn end(self) -> Result<(), VErr> { self.fin() } }
/// Map keys: strings only.
pub struct VKey;
macro_rules! nokey { ($($n:ident($t:ty))*) => { $(fn $n(self, _: $t) -> Result<(), VErr> { Err(VErr) })* } }
impl ser::Serializer for VKey {
    type Ok = (); type Error = VErr;
    type SerializeSeq = ser::Impossible<(), VErr>; type SerializeTuple = ser::Impossible<(), VErr>; type SerializeTupleStruct = ser::Impossible<(), VErr>; type SerializeTupleVariant = ser::Impossible<(), VErr>;
    type SerializeMap = ser::Impossible<(), VErr>; type SerializeStruct = ser::Impossible<(), VErr>; type SerializeStructVariant = ser::Impossible<(), VErr>;
    nokey! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_bytes(&[u8]) serialize_unit_struct(&'static str) }
    fn serialize_str(self, v: &str) -> Result<(), VErr> { tape_key(v); Ok(()) }
    fn serialize_none(self) -> Result<(), VErr> { Err(VErr) }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), VErr> { Err(VErr) }
    fn serialize_unit(self) -> Result<(), VErr> { Err(VErr) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), VErr> { tape_key(v); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), VErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), VErr> { Err(VErr) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, VErr> { Err(VErr) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, VErr> { Err(VErr) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, VErr> { Err(VErr) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, VErr> { Err(VErr) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, VErr> { Err(VErr) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, VErr> { Err(VErr) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, VErr> { Err(VErr) }
}

#[derive(Clone, Copy)]
pub struct VDe;
pub struct VSeq;
impl VDe {
    fn any<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        match read_kind() {
            0 => v.visit_unit(),
            1 => v.visit_bool(read_bool()),
            2 => v.visit_u64(read_u()),
            3 => v.visit_i64(read_i()),
            4 => v.visit_f64(read_float()),
            5 => { let s = read_str(); v.visit_str(&s) }
            6 => { read_enter(); let r = v.visit_seq(VSeq)?; if read_leave() { Ok(r) } else { Err(VErr) } }
            _ => { read_enter(); let r = v.visit_map(VSeq)?; if read_leave() { Ok(r) } else { Err(VErr) } }
        }
    }
}
macro_rules! de_any { ($($n:ident)*) => { $(fn $n<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> { self.any(v) })* } }
macro_rules! de_kind { ($($n:ident $k:pat),*) => { $(fn $n<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> { match read_kind() { $k => self.any(v), _ => Err(VErr) } })* } }
impl<'de> de::Deserializer<'de> for VDe {
    type Error = VErr;
    de_any! { deserialize_any deserialize_ignored_any }
    de_kind! { deserialize_bool 1, deserialize_i8 2..=4, deserialize_i16 2..=4, deserialize_i32 2..=4, deserialize_i64 2..=4, deserialize_u8 2..=4, deserialize_u16 2..=4, deserialize_u32 2..=4, deserialize_u64 2..=4, deserialize_i128 2..=4, deserialize_u128 2..=4,
        deserialize_f32 2..=4, deserialize_f64 2..=4, deserialize_char 5, deserialize_str 5, deserialize_string 5, deserialize_bytes 5..=6, deserialize_byte_buf 5..=6, deserialize_unit 0, deserialize_seq 6, deserialize_map 7, deserialize_identifier 5 }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> { match read_kind() { 0 => v.visit_none(), _ => v.visit_some(self) } }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, VErr> { match read_kind() { 0 => v.visit_unit(), _ => Err(VErr) } }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, VErr> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, VErr> { match read_kind() { 6 => self.any(v), _ => Err(VErr) } }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, VErr> { match read_kind() { 6 => self.any(v), _ => Err(VErr) } }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, VErr> { match read_kind() { 6 | 7 => self.any(v), _ => Err(VErr) } }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, VErr> {
        match read_kind() {
            5 => v.visit_enum(VSeq),
            7 => { read_enter(); if !read_more() { return Err(VErr); } read_key(); let r = v.visit_enum(VSeq)?; if read_leave() { Ok(r) } else { Err(VErr) } }
            _ => Err(VErr),
        }
    }
}
impl<'de> de::SeqAccess<'de> for VSeq { type Error = VErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, VErr> { if !read_more() { return Ok(None); } read_value(); Ok(Some(seed.deserialize(VDe)?)) } }
impl<'de> de::MapAccess<'de> for VSeq { type Error = VErr;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, VErr> { if !read_more() { return Ok(None); } read_key(); Ok(Some(seed.deserialize(VDe)?)) }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, VErr> { read_value(); seed.deserialize(VDe) } }
impl<'de> de::EnumAccess<'de> for VSeq { type Error = VErr; type Variant = VSeq;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, VSeq), VErr> { Ok((seed.deserialize(VDe)?, VSeq)) } }
impl<'de> de::VariantAccess<'de> for VSeq { type Error = VErr;
    fn unit_variant(self) -> Result<(), VErr> { Ok(()) }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, VErr> { read_value(); seed.deserialize(VDe) }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, VErr> { read_value(); VDe.any(v) }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, VErr> { read_value(); VDe.any(v) } }

pub type NGl = <crate::MGl as starky::traits::MerkleTree>::MTNode;
pub type NBn = <crate::MBn as starky::traits::MerkleTree>::MTNode;
pub type NBls = <crate::MBls as starky::traits::MerkleTree>::MTNode;
pub type EBls = <crate::MBls as starky::traits::MerkleTree>::BaseField;
macro_rules! roots { ($($s:ident $d:ident $t:ty),*) => { $(
    pub fn $s(x: &$t) -> Result<(), VErr> { ser::Serialize::serialize(x, VSer) }
    pub fn $d() -> Result<$t, VErr> { de::Deserialize::deserialize(VDe) } )* } }
roots! { ser_digest_gl de_digest_gl NGl, ser_digest_bn de_digest_bn NBn, ser_digest_bls de_digest_bls NBls,
    ser_gl de_gl crate::Gl, ser_bn de_bn crate::FrBn, ser_bls de_bls EBls, ser_f3 de_f3 crate::F3, ser_f5 de_f5 crate::F5,
    ser_vk de_vk recursion_gnark_ffi::json_util::JsonVerificationKey<crate::ABls>, ser_pf de_pf recursion_gnark_ffi::json_util::Groth16Proof<crate::ABls>,
    ser_pi de_pi recursion_gnark_ffi::json_util::JsonPublicInput<crate::ABlsFr>,
    ser_pbn de_pbn recursion_gnark_ffi::proof::ProofBn254,
    ser_sp_gl de_sp_gl starky::stark_gen::StarkProof<crate::MGl>, ser_sp_bn de_sp_bn starky::stark_gen::StarkProof<crate::MBn>, ser_sp_bls de_sp_bls starky::stark_gen::StarkProof<crate::MBls>,
    ser_expr de_expr starky::types::Expression, ser_pil de_pil starky::types::PIL }

/// Reading and writing at any type (the models of serde_json's generic entry points go through these).
pub fn de<T: de::DeserializeOwned>() -> Result<T, VErr> { T::deserialize(VDe) }
pub fn ser<T: ser::Serialize + ?Sized>(x: &T) -> Result<(), VErr> { x.serialize(VSer) }
macro_rules! both { ($($n:ident $t:ty),*) => { $( pub fn $n(x: &$t) -> Result<$t, VErr> { ser(x)?; de::<$t>() } )* } }
both! { t1 NGl, t2 NBn, t3 NBls, t4 Vec<crate::F3>, t5 Vec<crate::F5>, t6 Vec<crate::Gl>, t7 Vec<Vec<crate::F3>>, t8 Vec<Vec<Vec<NGl>>>, t9 Vec<Vec<Vec<NBn>>>, t10 Vec<Vec<Vec<NBls>>>, t11 String,
    t12 recursion_gnark_ffi::json_util::JsonVerificationKey<crate::ABls>, t13 recursion_gnark_ffi::json_util::Groth16Proof<crate::ABls>, t14 recursion_gnark_ffi::json_util::JsonPublicInput<crate::ABlsFr>,
    t15 starky::types::PIL, t16 starky::types::StarkStruct, t17 starky::types::Expression,
    t18 std::collections::BTreeMap<String, serde_json::Value>, t19 std::collections::HashMap<String, serde_json::Value>, t20 Vec<String>, t21 algebraic::circom_circuit::CircuitJson, t22 algebraic_gpu::circom_circuit::CircuitJson, t23 Vec<u64> }
