//! A serde serializer and deserializer which record exactly what they are told.
use crate::model::M;
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    None,
    Unit,
    Bool(bool),
    I(i128),
    U(u128),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Option<usize>, Vec<T>),
    Map(Option<usize>, Vec<(T, T)>),
    Other(&'static str),
}

#[derive(Debug, PartialEq)]
pub enum E {
    /// The injected failure.
    Injected,
    Msg(String),
}

impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            E::Injected => f.write_str("injected failure"),
            E::Msg(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<D: fmt::Display>(m: D) -> E {
        E::Msg(m.to_string())
    }
}
impl de::Error for E {
    fn custom<D: fmt::Display>(m: D) -> E {
        E::Msg(m.to_string())
    }
}

/// What happens while serializing.
#[derive(Default)]
pub struct Log {
    /// Number of calls made.
    pub calls: Cell<u64>,
    /// The call which fails.
    pub fail: Option<u64>,
    /// Calls made although an earlier one failed.
    pub after: Cell<u64>,
    /// The last scalar method called.
    pub leaf: Cell<&'static str>,
    /// Claim to be a binary format.
    pub binary: bool,
    /// Collections which were announced without their length.
    pub vague: Cell<u64>,
}

impl Log {
    fn tick(&self) -> Result<(), E> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        match self.fail {
            Some(f) if n == f => Err(E::Injected),
            Some(f) if n > f => {
                self.after.set(self.after.get() + 1);
                Err(E::Injected)
            }
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Rec<'a>(pub &'a Log);

pub struct Col<'a> {
    log: &'a Log,
    len: Option<usize>,
    items: Vec<T>,
    map: bool,
}

impl<'a> Col<'a> {
    fn put<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        self.log.tick()?;
        self.items.push(v.serialize(Rec(self.log))?);
        Ok(())
    }
    fn done(self) -> Result<T, E> {
        self.log.tick()?;
        if !self.map {
            return Ok(T::Seq(self.len, self.items));
        }
        let mut out = Vec::new();
        let mut it = self.items.into_iter();
        while let Some(k) = it.next() {
            out.push((k, it.next().ok_or_else(|| E::Msg("key without a value".into()))?));
        }
        Ok(T::Map(self.len, out))
    }
}

macro_rules! leaf {
    ($($f:ident $t:ty, $v:ident => $e:expr;)*) => {
        $(fn $f(self, $v: $t) -> Result<T, E> { self.0.tick()?; self.0.leaf.set(stringify!($f)); Ok($e) })*
    };
}

impl<'a> Serializer for Rec<'a> {
    type Ok = T;
    type Error = E;
    type SerializeSeq = Col<'a>;
    type SerializeTuple = Col<'a>;
    type SerializeTupleStruct = Col<'a>;
    type SerializeTupleVariant = Col<'a>;
    type SerializeMap = Col<'a>;
    type SerializeStruct = Col<'a>;
    type SerializeStructVariant = Col<'a>;
    leaf! {
        serialize_bool bool, v => T::Bool(v);
        serialize_i8 i8, v => T::I(v.into());
        serialize_i16 i16, v => T::I(v.into());
        serialize_i32 i32, v => T::I(v.into());
        serialize_i64 i64, v => T::I(v.into());
        serialize_i128 i128, v => T::I(v);
        serialize_u8 u8, v => T::U(v.into());
        serialize_u16 u16, v => T::U(v.into());
        serialize_u32 u32, v => T::U(v.into());
        serialize_u64 u64, v => T::U(v.into());
        serialize_u128 u128, v => T::U(v);
        serialize_f32 f32, v => T::F32(v);
        serialize_f64 f64, v => T::F64(v);
        serialize_char char, v => T::Str(v.to_string());
        serialize_str &str, v => T::Str(v.to_owned());
        serialize_bytes &[u8], v => T::Bytes(v.to_vec());
        serialize_unit_struct &'static str, _v => T::Other("unit struct");
    }
    fn is_human_readable(&self) -> bool {
        !self.0.binary
    }
    fn serialize_none(self) -> Result<T, E> {
        self.0.tick()?;
        Ok(T::None)
    }
    fn serialize_unit(self) -> Result<T, E> {
        self.0.tick()?;
        Ok(T::Unit)
    }
    fn serialize_some<V: ?Sized + Serialize>(self, v: &V) -> Result<T, E> {
        v.serialize(self)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<T, E> {
        Ok(T::Other("unit variant"))
    }
    fn serialize_newtype_struct<V: ?Sized + Serialize>(self, _: &'static str, v: &V) -> Result<T, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<V: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &V,
    ) -> Result<T, E> {
        Ok(T::Other("newtype variant"))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Col<'a>, E> {
        self.0.tick()?;
        self.0.vague.set(self.0.vague.get() + u64::from(len.is_none()));
        Ok(Col { log: self.0, len, items: Vec::new(), map: false })
    }
    fn serialize_tuple(self, len: usize) -> Result<Col<'a>, E> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Col<'a>, E> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<Col<'a>, E> {
        self.serialize_seq(Some(len))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Col<'a>, E> {
        self.0.tick()?;
        self.0.vague.set(self.0.vague.get() + u64::from(len.is_none()));
        Ok(Col { log: self.0, len, items: Vec::new(), map: true })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Col<'a>, E> {
        self.serialize_map(Some(len))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<Col<'a>, E> {
        self.serialize_map(Some(len))
    }
}

impl ser::SerializeSeq for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_element<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeTuple for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_element<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeTupleStruct for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_field<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeTupleVariant for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_field<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeMap for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_key<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        if self.items.len() % 2 != 0 {
            return Err(E::Msg("two keys in a row".into()));
        }
        self.put(v)
    }
    fn serialize_value<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), E> {
        if self.items.len() % 2 == 0 {
            return Err(E::Msg("two values in a row".into()));
        }
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeStruct for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_field<V: ?Sized + Serialize>(&mut self, k: &'static str, v: &V) -> Result<(), E> {
        self.items.push(T::Str(k.into()));
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}
impl ser::SerializeStructVariant for Col<'_> {
    type Ok = T;
    type Error = E;
    fn serialize_field<V: ?Sized + Serialize>(&mut self, k: &'static str, v: &V) -> Result<(), E> {
        self.items.push(T::Str(k.into()));
        self.put(v)
    }
    fn end(self) -> Result<T, E> {
        self.done()
    }
}

impl<'de> Deserialize<'de> for T {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = T;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_none<E>(self) -> Result<T, E> {
                Ok(T::None)
            }
            fn visit_unit<E>(self) -> Result<T, E> {
                Ok(T::None)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> {
                d.deserialize_any(V)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> {
                d.deserialize_any(V)
            }
            fn visit_bool<E>(self, v: bool) -> Result<T, E> {
                Ok(T::Bool(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<T, E> {
                Ok(T::I(v.into()))
            }
            fn visit_u64<E>(self, v: u64) -> Result<T, E> {
                Ok(T::U(v.into()))
            }
            fn visit_i128<E>(self, v: i128) -> Result<T, E> {
                Ok(T::I(v))
            }
            fn visit_u128<E>(self, v: u128) -> Result<T, E> {
                Ok(T::U(v))
            }
            fn visit_f32<E>(self, v: f32) -> Result<T, E> {
                Ok(T::F32(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<T, E> {
                Ok(T::F64(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<T, E> {
                Ok(T::Str(v.into()))
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<T, E> {
                Ok(T::Bytes(v.into()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
                let hint = a.size_hint();
                let mut out = Vec::new();
                while let Some(v) = a.next_element()? {
                    out.push(v);
                }
                if a.next_element::<T>()?.is_some() {
                    return Err(de::Error::custom("more elements after the last one"));
                }
                Ok(T::Seq(hint, out))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
                let hint = a.size_hint();
                let mut out = Vec::new();
                while let Some(k) = a.next_key()? {
                    out.push((k, a.next_value()?));
                }
                if a.next_key::<T>()?.is_some() {
                    return Err(de::Error::custom("more entries after the last one"));
                }
                Ok(T::Map(hint, out))
            }
        }
        d.deserialize_any(V)
    }
}

fn bytes(b: &[u8], t: &T) -> bool {
    match t {
        T::Str(s) => s.as_bytes() == b,
        T::Bytes(v) => v == b && std::str::from_utf8(b).is_err(),
        _ => false,
    }
}

/// Test if a recorded number is the one which is written.
pub fn number(n: &str, t: &T) -> bool {
    let int = n.parse::<u128>().is_ok() || n.parse::<i128>().is_ok();
    match t {
        T::U(v) => n.parse::<u128>().is_ok_and(|n| n == *v),
        T::I(v) => n.parse::<i128>().is_ok_and(|n| n == *v),
        T::F64(v) => !int && n.parse::<f64>().is_ok_and(|n| n.to_bits() == v.to_bits()),
        T::F32(v) => !int && n.parse::<f32>().is_ok_and(|n| n.to_bits() == v.to_bits()),
        _ => false,
    }
}

/// First difference between a model and what was recorded.
pub fn diff(m: &M, t: &T) -> Option<String> {
    let fail = || Some(format!("{} is {t:?}", m.show()));
    match (m, t) {
        (M::Null { .. }, T::None | T::Unit) => None,
        (M::Bool(a), T::Bool(b)) if a == b => None,
        (M::Num(n), t) if number(n, t) => None,
        (M::Str { s, .. }, t) if bytes(s, t) => None,
        (M::Seq { items, .. }, T::Seq(len, b)) => {
            if items.len() != b.len() || len.is_some_and(|n| n != b.len()) {
                return fail();
            }
            items.iter().zip(b).find_map(|(m, t)| diff(m, t))
        }
        (M::Map { items, .. }, T::Map(len, b)) => {
            if items.len() != b.len() || len.is_some_and(|n| n != b.len()) {
                return fail();
            }
            for ((k, m), (kt, t)) in items.iter().zip(b) {
                if !bytes(k, kt) {
                    return Some(format!("key {:?} is {kt:?}", bstr::BStr::new(k)));
                }
                if let Some(e) = diff(m, t) {
                    return Some(e);
                }
            }
            None
        }
        _ => fail(),
    }
}
