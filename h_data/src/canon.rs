//! A serde serializer into an ordered tree, so that a value holding hash maps has
//! one canonical rendering. Map entries are always sorted; `sort_seqs` also sorts
//! sequences (for types whose sequences are serialized hash sets).
use serde::ser::*;

pub fn canon<T: Serialize>(v: &T, sort_seqs: bool) -> String {
    v.serialize(S { sort: sort_seqs }).unwrap()
}

#[derive(Clone, Copy)]
struct S {
    sort: bool,
}
#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
struct Seq {
    s: S,
    items: Vec<String>,
    name: String,
    is_seq: bool,
}
impl Seq {
    fn fin(mut self) -> String {
        if self.is_seq && self.s.sort {
            self.items.sort();
        }
        format!("{}[{}]", self.name, self.items.join(","))
    }
}
struct Map {
    s: S,
    items: Vec<(String, String)>,
    key: Option<String>,
    name: String,
    is_map: bool,
}
impl Map {
    fn fin(mut self) -> String {
        if self.is_map {
            self.items.sort();
        }
        let v: Vec<String> = self.items.into_iter().map(|(k, v)| format!("{k}:{v}")).collect();
        format!("{}{{{}}}", self.name, v.join(","))
    }
}
macro_rules! prim { ($($n:ident $t:ty),*) => { $(fn $n(self, v: $t) -> Result<String, E> { Ok(format!("{v:?}")) })* } }
impl Serializer for S {
    type Ok = String;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
          serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
          serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<String, E> {
        Ok("None".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<String, E> {
        Ok(format!("Some({})", v.serialize(self)?))
    }
    fn serialize_unit(self) -> Result<String, E> {
        Ok("()".into())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<String, E> {
        Ok(n.into())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<String, E> {
        Ok(v.into())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<String, E> {
        Ok(format!("{n}({})", v.serialize(self)?))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<String, E> {
        Ok(format!("{n}({})", v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> {
        Ok(Seq { s: self, items: vec![], name: String::new(), is_seq: true })
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq { s: self, items: vec![], name: "t".into(), is_seq: false })
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq { s: self, items: vec![], name: n.into(), is_seq: false })
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq { s: self, items: vec![], name: n.into(), is_seq: false })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, E> {
        Ok(Map { s: self, items: vec![], key: None, name: String::new(), is_map: true })
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Map, E> {
        Ok(Map { s: self, items: vec![], key: None, name: n.into(), is_map: false })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map, E> {
        Ok(Map { s: self, items: vec![], key: None, name: n.into(), is_map: false })
    }
}
macro_rules! seqimpl { ($tr:ident, $f:ident) => { impl $tr for Seq { type Ok = String; type Error = E;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { let s = v.serialize(self.s)?; self.items.push(s); Ok(()) }
    fn end(self) -> Result<String, E> { Ok(self.fin()) } } } }
seqimpl!(SerializeSeq, serialize_element);
seqimpl!(SerializeTuple, serialize_element);
seqimpl!(SerializeTupleStruct, serialize_field);
seqimpl!(SerializeTupleVariant, serialize_field);
impl SerializeMap for Map {
    type Ok = String;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.key = Some(k.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let s = v.serialize(self.s)?;
        self.items.push((self.key.take().unwrap(), s));
        Ok(())
    }
    fn end(self) -> Result<String, E> {
        Ok(self.fin())
    }
}
macro_rules! structimpl { ($tr:ident) => { impl $tr for Map { type Ok = String; type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> { let s = v.serialize(self.s)?; self.items.push((k.into(), s)); Ok(()) }
    fn end(self) -> Result<String, E> { Ok(self.fin()) } } } }
structimpl!(SerializeStruct);
structimpl!(SerializeStructVariant);
