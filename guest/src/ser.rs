//! A serde format whose only value is handed to / taken from the simulator; failures carry a code
//! that must come back unchanged.
use super::{host_panic, host_sink, host_source, A, R};
use core::fmt;
use serde::{de, ser as s, Deserialize, Serialize};

const CODE: u32 = 0x5A17;
#[derive(Debug)]
pub struct Error(u32);
impl fmt::Display for Error { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[cfg(not(any()))]
impl serde::de::StdError for Error {}
impl s::Error for Error { fn custom<T: fmt::Display>(_: T) -> Self { Error(1) } }
impl de::Error for Error { fn custom<T: fmt::Display>(_: T) -> Self { Error(2) } }

struct S(A, R);
macro_rules! put {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> {
        unsafe {
            if host_sink(self.0 .0, &v as *const $t as *const u8, core::mem::size_of::<$t>()) != 0 { self.1.put(v); Ok(()) } else { Err(Error(CODE)) }
        }
    })* };
}
macro_rules! bad { ($($f:ident ($($a:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $a),*) -> Result<$r, Error> { Err(Error(3)) })* }; }
type I = s::Impossible<(), Error>;
impl s::Serializer for S {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = I;
    type SerializeTuple = I;
    type SerializeTupleStruct = I;
    type SerializeTupleVariant = I;
    type SerializeMap = I;
    type SerializeStruct = I;
    type SerializeStructVariant = I;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<(), Error> { self.serialize_u8(v as u8) }
    bad! {
        serialize_char(char) -> (); serialize_str(&str) -> (); serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_seq(Option<usize>) -> I; serialize_tuple(usize) -> I; serialize_tuple_struct(&'static str, usize) -> I;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> I; serialize_map(Option<usize>) -> I;
        serialize_struct(&'static str, usize) -> I; serialize_struct_variant(&'static str, u32, &'static str, usize) -> I;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> { Err(Error(3)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Error> { Err(Error(3)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { Err(Error(3)) }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<(), Error> { Err(Error(3)) }
}
struct D(A);
macro_rules! get {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        unsafe {
            let mut x = core::mem::MaybeUninit::<$t>::uninit();
            if host_source(self.0 .0, x.as_mut_ptr() as *mut u8) != 0 { v.$v(x.assume_init()) } else { Err(Error(CODE)) }
        }
    })* };
}
macro_rules! badd { ($($f:ident ($($a:ty),*);)*) => { $(fn $f<V: de::Visitor<'de>>(self, $(_: $a,)* _: V) -> Result<V::Value, Error> { Err(Error(3)) })* }; }
impl<'de> de::Deserializer<'de> for D {
    type Error = Error;
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_i128 visit_i128 i128, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let mut x = 0u8;
        if unsafe { host_source(self.0 .0, &mut x) } != 0 { v.visit_bool(x & 1 != 0) } else { Err(Error(CODE)) }
    }
    badd! {
        deserialize_any(); deserialize_char(); deserialize_str(); deserialize_string(); deserialize_bytes(); deserialize_byte_buf(); deserialize_option(); deserialize_unit();
        deserialize_unit_struct(&'static str); deserialize_newtype_struct(&'static str); deserialize_seq(); deserialize_tuple(usize); deserialize_tuple_struct(&'static str, usize);
        deserialize_map(); deserialize_struct(&'static str, &'static [&'static str]); deserialize_enum(&'static str, &'static [&'static str]); deserialize_identifier(); deserialize_ignored_any();
    }
}
pub unsafe fn ser<T: Serialize>(a: A, r: R, x: &T) {
    match x.serialize(S(a, r)) {
        Ok(()) => r.flag(true),
        Err(Error(CODE)) => r.flag(false),
        Err(_) => host_panic(),
    }
}
pub unsafe fn de<'de, T: Deserialize<'de>>(a: A, r: R, o: *mut T) {
    match T::deserialize(D(a)) {
        Ok(v) => { o.write(v); r.flag(true) }
        Err(Error(CODE)) => r.flag(false),
        Err(_) => host_panic(),
    }
}
