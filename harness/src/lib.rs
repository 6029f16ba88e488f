//! Entry points for the static analysis. Nothing here is ever executed: the crate is only
//! type-checked, and its MIR (with everything it reaches in /repo and below) is dumped.
//! `sym_*` functions have no meaning of their own; the analysis gives them one.
#![allow(clippy::all)]
use libgoldilocks::errors::LibgoldilockErrors;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, Signature, SigningKey, VerifyingKey};
use serdect::serde::de::{self, DeserializeSeed, Visitor};
use serdect::serde::ser::{self, Serialize};
use serdect::serde::Deserialize;

include!("points.rs");

#[inline(never)]
pub fn sym_bool(_which: u32) -> bool {
    loop {}
}
#[inline(never)]
pub fn sym_u64() -> u64 {
    loop {}
}
#[inline(never)]
pub fn sym_fill(_d: &mut [u8]) {
    loop {}
}
#[inline(never)]
pub fn sym_str() -> &'static str {
    loop {}
}
#[inline(never)]
pub fn sym_string() -> String {
    loop {}
}
/// a value of the given kind was handed to the serializer
#[inline(never)]
pub fn sym_ser_str(_s: &str) {
    loop {}
}
#[inline(never)]
pub fn sym_ser_other(_kind: u32) {
    loop {}
}

// ---- goldilocks ----
type R<T> = Result<T, LibgoldilockErrors>;
pub fn root_verify(pk: &[u8], sig: &[u8], msg: &[u8]) -> R<bool> {
    g::ed448_verify(pk, sig, msg)
}
pub fn root_verify_with_error(pk: &[u8], sig: &[u8], msg: &[u8]) -> R<()> {
    g::ed448_verify_with_error(pk, sig, msg)
}
pub fn root_sign(k: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    g::ed448_sign(k, msg)
}
pub fn root_derive_public(k: &[u8; 57]) -> [u8; 57] {
    g::ed448_derive_public(k)
}
pub fn root_private_to_secret(k: &[u8; 57]) -> [u8; 57] {
    g::private_to_secret(k)
}
pub fn root_secret_to_public(k: &[u8; 57]) -> [u8; 57] {
    g::secret_to_public(k)
}
pub fn root_private_to_public(k: &[u8; 57]) -> [u8; 57] {
    g::private_to_public(k)
}
pub fn root_sign_by_private(k: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    g::sign_by_private(k, msg)
}
pub fn root_sign_with_secret_and_nonce(s: &[u8; 57], n: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    g::sign_with_secret_and_nonce(s, n, msg)
}
pub fn root_generate_key() -> [u8; 57] {
    g::ed448_generate_key()
}
pub fn root_hex_to_private_key(s: &str) -> [u8; 57] {
    g::hex_to_private_key(s)
}
pub fn root_hex_to_signature(s: &str) -> [u8; 114] {
    g::hex_to_signature(s)
}
pub fn root_hex_to_message_hash(s: &str) -> [u8; 32] {
    g::hex_to_message_hash(s)
}

// ---- key types ----
pub fn root_sk_from_str(s: &str) -> SecretKey {
    SecretKey::from_str(s)
}
pub fn root_sk_from_bytes(s: &[u8]) -> SecretKey {
    SecretKey::from_bytes(s)
}
pub fn root_vk_from_str(s: &str) -> VerifyingKey {
    VerifyingKey::from_str(s)
}
pub fn root_vk_from_bytes(s: &[u8]) -> VerifyingKey {
    VerifyingKey::from_bytes(s)
}
pub fn root_vk_as_bytes(k: &VerifyingKey) -> &[u8] {
    k.as_bytes()
}
pub fn root_sgk_from_str(s: &str) -> SigningKey {
    SigningKey::from_str(s)
}
pub fn root_sgk_from_slice(s: &[u8]) -> SigningKey {
    SigningKey::from_slice(s)
}
pub fn root_sgk_from_bytes(s: &[u8]) -> R<SigningKey> {
    SigningKey::from_bytes(s)
}
pub fn root_sgk_from_secret(s: SecretKey) -> SigningKey {
    SigningKey::from(s)
}
pub fn root_sgk_to_bytes(k: &SigningKey) -> [u8; 57] {
    k.to_bytes()
}
pub fn root_sgk_verifying_key(k: &SigningKey) -> &VerifyingKey {
    k.verifying_key()
}
pub fn root_sgk_secret_key(k: &SigningKey) -> &SecretKey {
    k.secret_key()
}
pub fn root_sgk_sign_prehash(k: &SigningKey, m: &[u8]) -> R<Signature> {
    k.sign_prehash(m)
}
pub fn root_sig_as_slice(s: &Signature) -> &[u8] {
    s.as_slice()
}
pub fn root_sgk_random(r: &mut Rng) -> SigningKey {
    SigningKey::random(r)
}
pub fn root_sk_eq(a: &SecretKey, b: &SecretKey) -> bool {
    a == b
}
pub fn root_vk_eq(a: &VerifyingKey, b: &VerifyingKey) -> bool {
    a == b
}
pub fn root_sgk_eq(a: &SigningKey, b: &SigningKey) -> bool {
    a == b
}
pub fn root_sk_clone(a: &SecretKey) -> SecretKey {
    a.clone()
}
pub fn root_vk_clone(a: &VerifyingKey) -> VerifyingKey {
    a.clone()
}
pub fn root_sgk_clone(a: &SigningKey) -> SigningKey {
    a.clone()
}

// ---- random source ----
pub struct Rng(u8);
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        sym_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        sym_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        sym_fill(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        sym_fill(dest);
        Ok(())
    }
}
impl rand::CryptoRng for Rng {}

// ---- serde ----
#[derive(Debug)]
pub struct Er(u8);
impl core::fmt::Display for Er {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Er(1)
    }
}
impl ser::Error for Er {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Er(2)
    }
}

pub struct Ser;
macro_rules! ser_other { ($($f:ident: $t:ty = $n:expr),*) => { $(fn $f(self, _v: $t) -> Result<u8, Er> { sym_ser_other($n); Ok(1) })* } }
impl ser::Serializer for Ser {
    type Ok = u8;
    type Error = Er;
    type SerializeSeq = ser::Impossible<u8, Er>;
    type SerializeTuple = ser::Impossible<u8, Er>;
    type SerializeTupleStruct = ser::Impossible<u8, Er>;
    type SerializeTupleVariant = ser::Impossible<u8, Er>;
    type SerializeMap = ser::Impossible<u8, Er>;
    type SerializeStruct = ser::Impossible<u8, Er>;
    type SerializeStructVariant = ser::Impossible<u8, Er>;
    fn is_human_readable(&self) -> bool {
        true
    }
    fn serialize_str(self, v: &str) -> Result<u8, Er> {
        sym_ser_str(v);
        Ok(1)
    }
    ser_other!(serialize_bool: bool = 1, serialize_i8: i8 = 2, serialize_i16: i16 = 3, serialize_i32: i32 = 4,
        serialize_i64: i64 = 5, serialize_u8: u8 = 6, serialize_u16: u16 = 7, serialize_u32: u32 = 8,
        serialize_u64: u64 = 9, serialize_f32: f32 = 10, serialize_f64: f64 = 11, serialize_char: char = 12,
        serialize_bytes: &[u8] = 13, serialize_unit_struct: &'static str = 14);
    fn serialize_none(self) -> Result<u8, Er> {
        sym_ser_other(20);
        Ok(1)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _v: &T) -> Result<u8, Er> {
        sym_ser_other(21);
        Ok(1)
    }
    fn serialize_unit(self) -> Result<u8, Er> {
        sym_ser_other(22);
        Ok(1)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u8, Er> {
        sym_ser_other(23);
        Ok(1)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<u8, Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _v: &T) -> Result<u8, Er> {
        sym_ser_other(24);
        Ok(1)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(25);
        Err(Er(3))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(26);
        Err(Er(3))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(27);
        Err(Er(3))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(28);
        Err(Er(3))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(29);
        Err(Er(3))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(30);
        Err(Er(3))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Er> {
        sym_ser_other(31);
        Err(Er(3))
    }
}

pub struct De;
/// The format hands over some string, in one of the three ways serde allows, or fails.
fn give<'de, V: Visitor<'de>>(v: V) -> Result<V::Value, Er> {
    if sym_bool(1) {
        return Err(Er(9));
    }
    if sym_bool(2) {
        return v.visit_str(sym_str());
    }
    if sym_bool(3) {
        return v.visit_borrowed_str(sym_str());
    }
    v.visit_string(sym_string())
}
macro_rules! de_give { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { give(v) })* } }
macro_rules! de_fail { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Er> { Err(Er(8)) })* } }
impl<'de> de::Deserializer<'de> for De {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        sym_bool(0)
    }
    de_give!(deserialize_any, deserialize_str, deserialize_string);
    de_fail!(deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8,
        deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char,
        deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq,
        deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _v: V) -> Result<V::Value, Er> {
        Err(Er(8))
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _v: V) -> Result<V::Value, Er> {
        Err(Er(8))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _v: V) -> Result<V::Value, Er> {
        Err(Er(8))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _v: V) -> Result<V::Value, Er> {
        Err(Er(8))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _v: V) -> Result<V::Value, Er> {
        Err(Er(8))
    }
}
#[allow(dead_code)]
fn _unused<'de, S: DeserializeSeed<'de>>(_: S) {}

pub fn root_sk_ser(k: &SecretKey) -> Result<u8, Er> {
    k.serialize(Ser)
}
pub fn root_vk_ser(k: &VerifyingKey) -> Result<u8, Er> {
    k.serialize(Ser)
}
pub fn root_sgk_ser(k: &SigningKey) -> Result<u8, Er> {
    k.serialize(Ser)
}
pub fn root_sk_de() -> Result<SecretKey, Er> {
    SecretKey::deserialize(De)
}
pub fn root_vk_de() -> Result<VerifyingKey, Er> {
    VerifyingKey::deserialize(De)
}
pub fn root_sgk_de() -> Result<SigningKey, Er> {
    SigningKey::deserialize(De)
}
