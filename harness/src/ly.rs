//! Second opinion: what libyaml (through serde_yaml) reads.
use crate::model::M;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Ly {
    Null,
    Bool(bool),
    U(u128),
    I(i128),
    F(f64),
    Str(Vec<u8>),
    Seq(Vec<Ly>),
    Map(Vec<(Ly, Ly)>),
}

impl<'de> Deserialize<'de> for Ly {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Ly;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<Ly, E> {
                Ok(Ly::Null)
            }
            fn visit_none<E>(self) -> Result<Ly, E> {
                Ok(Ly::Null)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Ly, D::Error> {
                Ly::deserialize(d)
            }
            fn visit_bool<E>(self, v: bool) -> Result<Ly, E> {
                Ok(Ly::Bool(v))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Ly, E> {
                Ok(Ly::U(v.into()))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Ly, E> {
                Ok(Ly::I(v.into()))
            }
            fn visit_u128<E>(self, v: u128) -> Result<Ly, E> {
                Ok(Ly::U(v))
            }
            fn visit_i128<E>(self, v: i128) -> Result<Ly, E> {
                Ok(Ly::I(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Ly, E> {
                Ok(Ly::F(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Ly, E> {
                Ok(Ly::Str(v.as_bytes().to_vec()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Ly, A::Error> {
                let mut out = Vec::new();
                while let Some(v) = a.next_element()? {
                    out.push(v);
                }
                Ok(Ly::Seq(out))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Ly, A::Error> {
                let mut out = Vec::new();
                while let Some(v) = a.next_entry()? {
                    out.push(v);
                }
                Ok(Ly::Map(out))
            }
        }
        d.deserialize_any(V)
    }
}

pub fn read(text: &[u8]) -> Result<Ly, String> {
    serde_yaml::from_slice(text).map_err(|e| e.to_string())
}

fn num(n: &str, l: &Ly) -> bool {
    match l {
        Ly::U(v) => n.parse::<u128>().is_ok_and(|n| n == *v) || (*v == 0 && n.parse::<i128>() == Ok(0)),
        Ly::I(v) => n.parse::<i128>().is_ok_and(|n| n == *v) || (*v == 0 && n.parse::<i128>() == Ok(0)),
        Ly::F(v) => n.parse::<f64>().is_ok_and(|n| n == *v),
        _ => false,
    }
}

fn trim_nl(s: &[u8]) -> &[u8] {
    let mut s = s;
    while let Some((b'\n', r)) = s.split_last() {
        s = r;
    }
    s
}

/// First difference between a model and what libyaml read. See
/// [`crate::model::diff`] for `reread`.
pub fn diff(m: &M, l: &Ly, reread: bool) -> Option<String> {
    fn go(m: &M, l: &Ly, reread: bool, at: &str) -> Option<String> {
        let ok = match (m, l) {
            (M::Null { .. }, Ly::Null) => true,
            (M::Bool(a), Ly::Bool(b)) => a == b,
            (M::Num(n), l @ (Ly::U(_) | Ly::I(_) | Ly::F(_))) => num(n, l),
            (M::Str { s, loose }, Ly::Str(b)) => s == b || (reread && *loose && trim_nl(s) == trim_nl(b)),
            (M::Map { flow: false, items }, Ly::Null) if reread => items.is_empty(),
            (M::Seq { flow: false, items }, Ly::Null) if reread => items.is_empty(),
            (M::Map { items, .. }, Ly::Map(b)) if items.len() == b.len() => {
                for ((k, v), (lk, lv)) in items.iter().zip(b) {
                    let key_ok = match lk {
                        Ly::Str(s) => s == k,
                        Ly::Null => k == b"~" || k.eq_ignore_ascii_case(b"null"),
                        Ly::Bool(b) => k.eq_ignore_ascii_case(b.to_string().as_bytes()),
                        l => std::str::from_utf8(k).is_ok_and(|k| num(k, l)),
                    };
                    if !key_ok {
                        return Some(format!("at {at}: key {:?} read by libyaml as {lk:?}", bstr::BStr::new(k)));
                    }
                    if let Some(d) = go(v, lv, reread, &format!("{at}.{:?}", bstr::BStr::new(k))) {
                        return Some(d);
                    }
                }
                true
            }
            (M::Seq { items, .. }, Ly::Seq(b)) if items.len() == b.len() => {
                for (i, (v, lv)) in items.iter().zip(b).enumerate() {
                    if let Some(d) = go(v, lv, reread, &format!("{at}[{i}]")) {
                        return Some(d);
                    }
                }
                true
            }
            _ => false,
        };
        if ok {
            None
        } else {
            Some(format!("at {at}: expected {} but libyaml reads {l:?}", m.show()))
        }
    }
    go(m, l, reread, "$")
}
