//! YAML output is only used for debugging dumps.  This writes something that
//! has the same content, if not quite the same syntax: every map key stands on
//! a line of its own, followed by a colon.
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: fmt::Display>(t: T) -> Self { Error(t.to_string()) } }
impl serde::de::Error for Error { fn custom<T: fmt::Display>(t: T) -> Self { Error(t.to_string()) } }
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error(e.to_string()) } }

pub struct Serializer<W> { w: W }
impl<W: std::io::Write> Serializer<W> {
    pub fn new(w: W) -> Self { Serializer { w } }
    fn put(&mut self, t: impl fmt::Display) -> R { write!(self.w, "{t} ")?; Ok(()) }
}
type R = Result<(), Error>;
pub struct C<'a, W> { s: &'a mut Serializer<W>, end: &'static str }
impl<'a, W: std::io::Write> C<'a, W> {
    fn elem<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut *self.s) }
    fn field<T: ?Sized + Serialize>(&mut self, k: &str, t: &T) -> R { write!(self.s.w, "\n{k}:\n")?; t.serialize(&mut *self.s) }
    fn fin(self) -> R { let e = self.end; self.s.put(e) }
}

impl<'a, W: std::io::Write> serde::Serializer for &'a mut Serializer<W> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = C<'a, W>;
    type SerializeTuple = C<'a, W>;
    type SerializeTupleStruct = C<'a, W>;
    type SerializeTupleVariant = C<'a, W>;
    type SerializeMap = C<'a, W>;
    type SerializeStruct = C<'a, W>;
    type SerializeStructVariant = C<'a, W>;
    fn serialize_bool(self, v: bool) -> R { self.put(v) }
    fn serialize_i8(self, v: i8) -> R { self.put(v) }
    fn serialize_i16(self, v: i16) -> R { self.put(v) }
    fn serialize_i32(self, v: i32) -> R { self.put(v) }
    fn serialize_i64(self, v: i64) -> R { self.put(v) }
    fn serialize_i128(self, v: i128) -> R { self.put(v) }
    fn serialize_u8(self, v: u8) -> R { self.put(v) }
    fn serialize_u16(self, v: u16) -> R { self.put(v) }
    fn serialize_u32(self, v: u32) -> R { self.put(v) }
    fn serialize_u64(self, v: u64) -> R { self.put(v) }
    fn serialize_u128(self, v: u128) -> R { self.put(v) }
    fn serialize_f32(self, v: f32) -> R { self.put(v) }
    fn serialize_f64(self, v: f64) -> R { self.put(v) }
    fn serialize_char(self, v: char) -> R { self.put(v) }
    fn serialize_str(self, v: &str) -> R { self.put(v) }
    fn serialize_bytes(self, v: &[u8]) -> R { self.put(v.len()) }
    fn serialize_none(self) -> R { self.put("~") }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { v.serialize(self) }
    fn serialize_unit(self) -> R { self.put("~") }
    fn serialize_unit_struct(self, n: &'static str) -> R { self.put(n) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R { self.put(v) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R { self.put(n)?; v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<C<'a, W>, Error> { self.put("[")?; Ok(C { s: self, end: "]" }) }
    fn serialize_tuple(self, _: usize) -> Result<C<'a, W>, Error> { self.put("(")?; Ok(C { s: self, end: ")" }) }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<C<'a, W>, Error> { self.put(n)?; self.put("(")?; Ok(C { s: self, end: ")" }) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<C<'a, W>, Error> { self.put(n)?; self.put("(")?; Ok(C { s: self, end: ")" }) }
    fn serialize_map(self, _: Option<usize>) -> Result<C<'a, W>, Error> { self.put("{")?; Ok(C { s: self, end: "}" }) }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<C<'a, W>, Error> { self.put(n)?; self.put("{")?; Ok(C { s: self, end: "}" }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<C<'a, W>, Error> { self.put(n)?; self.put("{")?; Ok(C { s: self, end: "}" }) }
}
impl<'a, W: std::io::Write> ser::SerializeSeq for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.elem(v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeTuple for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.elem(v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeTupleStruct for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.elem(v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeTupleVariant for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.elem(v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeStruct for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R { self.field(k, v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeStructVariant for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R { self.field(k, v) }
    fn end(self) -> R { self.fin() }
}
impl<'a, W: std::io::Write> ser::SerializeMap for C<'a, W> {
    type Ok = (); type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> R {
        let mut b = Serializer::new(Vec::new());
        k.serialize(&mut b)?;
        let t = String::from_utf8_lossy(&b.w).replace('\n', " ");
        write!(self.s.w, "\n{}:\n", t.trim())?;
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.elem(v) }
    fn end(self) -> R { self.fin() }
}

pub fn to_string<T: ?Sized + Serialize>(t: &T) -> Result<String, Error> {
    let mut s = Serializer::new(Vec::new());
    t.serialize(&mut s)?;
    Ok(String::from_utf8_lossy(&s.w).into_owned())
}
pub fn from_str<T>(_: &str) -> Result<T, Error> { Err(Error("unsupported".into())) }

pub mod with {
    pub mod singleton_map {
        /// The identity
        pub struct SingletonMap;
        impl SingletonMap {
            #[allow(clippy::new_ret_no_self)]
            pub fn new<S>(s: S) -> S { s }
        }
    }
}
