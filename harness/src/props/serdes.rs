//! Serialization and deserialization.
use super::show;
use crate::edit::{self, bytes_of, Act, Cfg, Op, Sc};
use crate::fw::{Cx, Prop, Res};
use crate::gen::{self, Opts};
use crate::model::{canon, canon_doc, diff, Step, M};
use crate::rec::{self, Log, Rec, E, T};
use crate::rng::Rng;
use crate::zoo;
use crate::{bail, check, ly, soup};
use nondestructive::yaml::{self, Any, Document, Id, Value};
use serde::de::value::{MapAccessDeserializer, SeqAccessDeserializer};
use serde::de::{DeserializeOwned, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::marker::PhantomData;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C19",
        run: c19,
        quick: 250_000,
        thorough: 15_000_000,
        rule: "a case is a document (generated, edited or hostile), every value of which is serialized into a recording \
               serializer, which also fails at every call of small documents; distinct by the bytes of the document, \
               non-trivial if there is a collection",
        level: "exploration",
        assumptions: &["serde_yaml writes what it is told"],
        required: &[
            "values serialized", "mappings", "sequences", "non-utf8 as bytes", "128-bit numbers", "floats", "nulls",
            "after edits", "failures injected", "typed numbers", "through serde_yaml", "through serde_json", "through ciborium", "hostile documents",
            "very many values",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C20",
        run: c20,
        quick: 200_000,
        thorough: 12_000_000,
        rule: "a case is a document, every value of which is deserialized into recorders and a zoo of types, or a random \
               value of the zoo, written as YAML in several ways; distinct by bytes, non-trivial if there is a collection",
        level: "exploration",
        assumptions: &["serde_json is right about which values have which types"],
        required: &[
            "values deserialized", "as integers", "as floats", "as strings", "as options", "as enums", "as structs",
            "borrowed strings", "strings lent", "keys lent", "non-utf8 as bytes", "types accepted", "types rejected", "zoo as json", "zoo as yaml",
            "zoo as pretty json", "edited", "hostile documents",
            "keys of many types", "non-utf8 keys", "standard types", "wide numbers", "zoo through serde_yaml", "very many values",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C21",
        run: c21,
        quick: 50_000,
        thorough: 3_000_000,
        rule: "a case is a document which is snapshotted in the middle of a history of edits through a format, restored, \
               and edited in lockstep with the original; distinct by the edits and bytes, non-trivial if there was an edit",
        level: "exploration",
        assumptions: &["ciborium, serde_yaml and serde_json are faithful"],
        required: &["snapshots", "cbor", "yaml", "reader", "edits in lockstep", "identifiers compared", "edited before", "holes", "very many values"],
        enumerated: 0,
        threads: false,
    },
];

/// A document, what it is expected to hold, and whether it has been edited.
fn some_document(cx: &mut Cx, r: &mut Rng) -> Result<(Document, Option<M>, bool), String> {
    if r.pct(15) {
        let mut t = soup::soup(r);
        if r.pct(30) {
            soup::mutate(r, &mut t);
        }
        if let Ok(d) = yaml::from_slice(&t) {
            cx.count("hostile documents");
            return Ok((d, None, false));
        }
    }
    let mut o = Opts::wild(r);
    o.limit(30);
    let d = gen::document(r, &o);
    let mut doc = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}: {}", show(&d.text)))?;
    let mut m = d.model;
    let edited = r.pct(50);
    if edited {
        let cfg = Cfg::any(r);
        for _ in 0..r.range(1, 8) {
            let op = edit::gen_op(r, &m, &cfg);
            edit::step(&mut doc, &mut m, &op)?;
        }
        cx.count("after edits");
        cx.count("edited");
    }
    Ok((doc, Some(m), edited))
}

fn weird(m: &M) -> bool {
    // NaN and infinities aren't numbers when they are read.
    match m {
        M::Num(n) => n.parse::<f64>().is_ok_and(|n| !n.is_finite()),
        M::Seq { items, .. } => items.iter().any(weird),
        M::Map { items, .. } => items.iter().any(|(_, m)| weird(m)),
        _ => false,
    }
}

fn utf8(m: &M) -> bool {
    match m {
        M::Str { s, .. } => std::str::from_utf8(s).is_ok(),
        M::Seq { items, .. } => items.iter().all(utf8),
        M::Map { items, .. } => items.iter().all(|(k, m)| std::str::from_utf8(k).is_ok() && utf8(m)),
        _ => true,
    }
}

fn dups(m: &M) -> bool {
    match m {
        M::Seq { items, .. } => items.iter().any(dups),
        M::Map { items, .. } => {
            items.iter().enumerate().any(|(i, (k, v))| items[..i].iter().any(|(o, _)| o == k) || dups(v))
        }
        _ => false,
    }
}

/// Documents of more values than 16 bits can number are serialized in full.
fn many_serialized(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, m) = super::many_values(r);
    let doc = yaml::from_slice(&text).map_err(|e| format!("rejected with {e}"))?;
    for binary in [false, true] {
        let log = Log { binary, ..Log::default() };
        let t = doc.as_ref().serialize(Rec(&log)).map_err(|e| format!("not serialized: {e}"))?;
        if let Some(e) = rec::diff(&m, &t) {
            bail!("many values are serialized as something else: {}", e.chars().take(300).collect::<String>());
        }
        check!(log.vague.get() == 0, "many values are serialized without lengths");
        let calls = log.calls.get();
        for _ in 0..6 {
            let fail = r.below(calls as usize) as u64;
            let log = Log { fail: Some(fail), binary, ..Log::default() };
            let got = doc.as_ref().serialize(Rec(&log));
            check!(got == Err(E::Injected) && log.after.get() == 0, "failing call {fail} of {calls} isn't the end of it");
        }
    }
    let j = serde_json::to_value(doc.as_ref()).map_err(|e| e.to_string())?;
    check!(Some(&j) == to_json(&m).as_ref(), "many values are something else as JSON");
    cx.count("very many values");
    Ok(())
}

/// Documents of more values than 16 bits can number are deserialized in full.
fn many_deserialized(cx: &mut Cx, r: &mut Rng) -> Res {
    #[derive(Deserialize)]
    struct Many<'a> {
        #[serde(borrow)]
        s: Vec<&'a str>,
        #[serde(borrow)]
        m: HashMap<&'a str, u32>,
    }
    let (text, m) = super::many_values(r);
    let doc = yaml::from_slice(&text).map_err(|e| format!("rejected with {e}"))?;
    let (Some(M::Seq { items, .. }), Some(M::Map { items: map, .. })) = (m.get(&[Step(0)]), m.get(&[Step(1)])) else {
        bail!("harness: no collections")
    };
    let t = de::<T>(doc.as_ref())?;
    if let Some(e) = rec::diff(&m, &t) {
        bail!("many values are deserialized as something else: {}", e.chars().take(300).collect::<String>());
    }
    let many = de::<Many<'_>>(doc.as_ref())?;
    check!(
        many.s.len() == items.len() && many.s.iter().zip(items).all(|(s, m)| matches!(m, M::Str { s: w, .. } if w == s.as_bytes())),
        "{} strings are deserialized as {} others",
        items.len(),
        many.s.len()
    );
    check!(
        many.m.len() == map.len()
            && map.iter().all(|(k, v)| {
                let k = std::str::from_utf8(k).unwrap_or_default();
                matches!((v, many.m.get(k)), (M::Num(n), Some(v)) if *n == v.to_string())
            }),
        "{} entries are deserialized as {} others",
        map.len(),
        many.m.len()
    );
    cx.count("very many values");
    Ok(())
}

/// Documents of more values than 16 bits can number are restored in full.
fn many_restored(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, mut m) = super::many_values(r);
    let mut doc = yaml::from_slice(&text).map_err(|e| format!("rejected with {e}"))?;
    let holes = r.pct(50);
    let op = |path: Vec<Step>, act| Op { path, nav: 0, act };
    if holes {
        for i in 0..20 {
            let at = r.below(60_000);
            let op = op(vec![Step(i % 2)], if i % 2 == 0 { Act::RemoveAt(at) } else { Act::Remove(format!("k{at}").into_bytes()) });
            edit::step(&mut doc, &mut m, &op)?;
        }
    }
    let mut b = Vec::new();
    ciborium::into_writer(&doc, &mut b).map_err(|e| format!("not snapshotted as CBOR: {e}"))?;
    let mut other: Document = ciborium::from_reader(&b[..]).map_err(|e| format!("not restored from CBOR: {e}"))?;
    let mut shared = None;
    for i in 0..4 {
        twins(cx, &doc, &other, &mut shared)
            .map_err(|e| format!("restoring many values, after {i} edits: {}", e.chars().take(300).collect::<String>()))?;
        if let Some(e) = diff(&m, &canon_doc(&other), false) {
            bail!("many values are others when restored, after {i} edits: {}", e.chars().take(300).collect::<String>());
        }
        let act = if i % 2 == 0 { Act::Push(Sc::U32(i as u32)) } else { Act::Insert(format!("n{i}").into_bytes(), Sc::U32(i as u32)) };
        let op = op(vec![Step(i % 2)], act);
        edit::step(&mut other, &mut m.clone(), &op)?;
        edit::step(&mut doc, &mut m, &op)?;
    }
    cx.count("very many values");
    Ok(())
}

/// The same as JSON, if it can be represented.
fn to_json(m: &M) -> Option<J> {
    Some(match m {
        M::Null { .. } => J::Null,
        M::Bool(b) => J::Bool(*b),
        M::Num(n) => {
            if let Ok(n) = n.parse::<u64>() {
                n.into()
            } else if let Ok(n) = n.parse::<i64>() {
                n.into()
            } else if n.parse::<u128>().is_ok() || n.parse::<i128>().is_ok() {
                return None;
            } else {
                J::Number(serde_json::Number::from_f64(n.parse().ok()?)?)
            }
        }
        M::Str { s, .. } => J::String(String::from_utf8(s.clone()).ok()?),
        M::Seq { items, .. } => J::Array(items.iter().map(to_json).collect::<Option<_>>()?),
        M::Map { items, .. } => {
            let mut map = serde_json::Map::new();
            for (k, v) in items {
                if map.insert(String::from_utf8(k.clone()).ok()?, to_json(v)?).is_some() {
                    return None;
                }
            }
            J::Object(map)
        }
    })
}

/// Numbers which are set are serialized as the type they were set with.
fn typed(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    o.limit(12);
    let d = gen::document(r, &o);
    let mut doc = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}: {}", show(&d.text)))?;
    let mut m = d.model;
    let cfg = Cfg::any(r);
    for _ in 0..6 {
        let op = edit::gen_op(r, &m, &cfg);
        cx.note(format!("{} {op:?}", show(&bytes_of(&doc))));
        let done = edit::step(&mut doc, &mut m, &op)?;
        let (Some(id), Some(sc)) = (done.value, op.act.scalar()) else { continue };
        let finite = match sc {
            Sc::F32(f) => f.is_finite(),
            Sc::F64(f) => f.is_finite(),
            Sc::Null(..) | Sc::Bool(..) | Sc::Str(..) | Sc::StrWith(..) | Sc::Block(..) => false,
            _ => true,
        };
        if !finite {
            continue;
        }
        let log = Log::default();
        let t = doc.value(id).serialize(Rec(&log)).map_err(|e| e.to_string())?;
        let name = format!("{sc:?}");
        let want = format!("serialize_{}", name.split('(').next().unwrap_or_default().to_lowercase());
        check!(log.leaf.get() == want, "{sc:?} is serialized as {t:?} by {} instead of {want}", log.leaf.get());
        cx.count("typed numbers");
    }
    Ok(())
}

fn c19(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 100_000 == 5 {
        return many_serialized(cx, r);
    }
    typed(cx, r)?;
    let (doc, m, _) = some_document(cx, r)?;
    let text = bytes_of(&doc);
    cx.note(show(&text));
    let observed = canon_doc(&doc);
    let m = m.unwrap_or_else(|| observed.clone());
    if weird(&m) {
        return Ok(());
    }
    // 1. Exactly what is in the document, for every value in it.
    for (p, id) in edit::ids(&doc) {
        let v = doc.value(id);
        let sub = m.get(&p).ok_or("missing in the model")?;
        let log = Log::default();
        let t = match v.serialize(Rec(&log)) {
            Ok(t) => t,
            Err(e) => bail!("{p:?} of {} is not serialized: {e}", show(&text)),
        };
        if let Some(e) = rec::diff(sub, &t) {
            bail!("{p:?} of {} is serialized as something else: {e}", show(&text));
        }
        check!(log.vague.get() == 0, "{p:?} of {} is serialized without lengths", show(&text));
        // Binary formats get the same.
        let log = Log { binary: true, ..Log::default() };
        match v.serialize(Rec(&log)) {
            Ok(b) => check!(b == t || format!("{b:?}") == format!("{t:?}"), "{p:?} of {} is {b:?} in binary, and {t:?} otherwise", show(&text)),
            Err(e) => bail!("{p:?} of {} is not serialized in binary: {e}", show(&text)),
        }
        cx.count("values serialized");
        // The same through the views.
        match v.into_any() {
            Any::Mapping(m) => {
                cx.count("mappings");
                check!(m.serialize(Rec(&Log::default())) == Ok(t), "{p:?} is serialized differently as a mapping");
            }
            Any::Sequence(s) => {
                cx.count("sequences");
                check!(s.serialize(Rec(&Log::default())) == Ok(t), "{p:?} is serialized differently as a sequence");
            }
            _ => match t {
                T::Bytes(_) => cx.count("non-utf8 as bytes"),
                T::U(v) if v > u128::from(u64::MAX) => cx.count("128-bit numbers"),
                T::F32(_) | T::F64(_) => cx.count("floats"),
                T::None | T::Unit => cx.count("nulls"),
                _ => {}
            },
        }
    }
    // 2. Failures are passed on, and nothing is done after them.
    let log = Log::default();
    let _ = doc.as_ref().serialize(Rec(&log));
    let calls = log.calls.get();
    let all = calls <= 60 || cx.thorough && calls <= 300;
    let points: Vec<u64> = if all { (0..calls).collect() } else { (0..20).map(|_| r.below(calls as usize) as u64).collect() };
    for fail in points {
        let log = Log { fail: Some(fail), ..Log::default() };
        let got = doc.as_ref().serialize(Rec(&log));
        check!(got == Err(E::Injected), "failing call {fail} gives {got:?}");
        check!(log.after.get() == 0, "{} calls after call {fail} failed", log.after.get());
        check!(log.calls.get() == fail + 1, "{} calls up to the one which fails, which is {fail}", log.calls.get());
        cx.count("failures injected");
    }
    check!(bytes_of(&doc) == text, "the document is changed by serializing it");
    // 3. Through real serializers.
    if case % 3 == 1 {
        let mut b = Vec::new();
        ciborium::into_writer(&doc.as_ref(), &mut b).map_err(|e| format!("CBOR: {e}"))?;
        let mut t: T = ciborium::from_reader(&b[..]).map_err(|e| format!("CBOR: {e}"))?;
        singles(&m, &mut t);
        if let Some(e) = rec::diff(&m, &t) {
            bail!("{} is something else as CBOR: {e}", show(&text));
        }
        cx.count("through ciborium");
    }
    if case % 3 == 0 && utf8(&m) && !dups(&m) {
        let y = serde_yaml::to_string(&doc.as_ref()).map_err(|e| format!("serde_yaml: {e}"))?;
        match ly::read(y.as_bytes()) {
            Err(e) => bail!("what serde_yaml writes is rejected: {e} in {y:?}"),
            Ok(l) => {
                if let Some(e) = ly::diff(&m, &l, false) {
                    bail!("serde_yaml writes {y:?} for {}: {e}", show(&text));
                }
            }
        }
        cx.count("through serde_yaml");
        if let Some(j) = to_json(&m) {
            let s = serde_json::to_string(&doc.as_ref()).map_err(|e| format!("serde_json: {e}"))?;
            let back: J = serde_json::from_str(&s).map_err(|e| format!("serde_json: {e} in {s}"))?;
            check!(same_json(&back, &j), "serde_json writes {s} for {}, instead of {j}", show(&text));
            let v = serde_json::to_value(doc.as_ref()).map_err(|e| format!("serde_json: {e}"))?;
            check!(same_json(&v, &j), "serde_json makes {v} of {}, instead of {j}", show(&text));
            cx.count("through serde_json");
        }
    }
    if m.is_collection() {
        cx.distinct(&text);
    }
    cx.sample(|| format!("{} is serialized with {calls} calls", show(&text)));
    Ok(())
}

/// Whether this is zero, with a sign which doesn't matter.
fn negative_zero(n: &str) -> bool {
    n.strip_prefix('-').is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b == b'0'))
}

/// Numbers of single precision aren't told apart from others by CBOR.
fn singles(m: &M, t: &mut T) {
    match (m, t) {
        (M::Num(n), t @ T::F64(_)) => {
            let T::F64(v) = *t else { return };
            if n.parse::<f64>().ok() != Some(v) && f64::from(v as f32) == v {
                *t = T::F32(v as f32);
            }
        }
        // Nor are those with a sign.
        (M::Num(n), t @ T::U(0)) if negative_zero(n) => *t = T::I(0),
        (M::Seq { items, .. }, T::Seq(_, b)) => items.iter().zip(b).for_each(|(m, t)| singles(m, t)),
        (M::Map { items, .. }, T::Map(_, b)) => items.iter().zip(b).for_each(|((_, m), (_, t))| singles(m, t)),
        _ => {}
    }
}

fn same_json(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(a), J::Number(b)) => {
            a == b
                || match (a.as_f64(), b.as_f64()) {
                    // NB: serde_json does not parse floats precisely, and some are singles.
                    (Some(a), Some(b)) => (a - b).abs() <= a.abs() * 1e-6 || (a as f32 == b as f32),
                    _ => false,
                }
        }
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_json(a, b)),
        (J::Object(a), J::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_json(v, w)))
        }
        _ => a == b,
    }
}

/// Deserialize as a value which exists.
fn de<'a, D: Deserialize<'a>>(v: Value<'a>) -> Result<D, String> {
    D::deserialize(v.into_deserializer()).map_err(|e| e.to_string())
}

/// The same result as deserializing from JSON.
fn like_json<D>(cx: &mut Cx, v: Value<'_>, j: &J, lenient: bool) -> Res
where
    D: DeserializeOwned + PartialEq + fmt::Debug,
{
    let name = std::any::type_name::<D>();
    let got = de::<D>(v);
    let want = serde_json::from_value::<D>(j.clone());
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            check!(a == b || format!("{a:?}") == format!("{b:?}"), "{j} as {name} is {a:?} instead of {b:?}");
            cx.count("types accepted");
        }
        (Err(_), Err(_)) => cx.count("types rejected"),
        // Additional elements are ignored.
        (Ok(_), Err(_)) if lenient => cx.count("lenient"),
        _ => bail!("{j} as {name} is {got:?} instead of {want:?}"),
    }
    Ok(())
}

/// Whatever a document holds, borrowed from it.
#[derive(Debug, PartialEq)]
struct Raw<'a>(&'a [u8]);

impl<'de: 'a, 'a> Deserialize<'de> for Raw<'a> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Raw<'de>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Raw<'de>, E> {
                Ok(Raw(v))
            }
            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Raw<'de>, E> {
                Ok(Raw(v.as_bytes()))
            }
        }
        d.deserialize_bytes(V)
    }
}

/// A string which is borrowed, whichever way it is asked for.
struct Lent<'a>(&'a [u8]);

thread_local! {
    static ASK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
const ASKS: usize = 8;

impl<'de: 'a, 'a> Deserialize<'de> for Lent<'a> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Lent<'de>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a borrowed string")
            }
            fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Lent<'de>, E> {
                Ok(Lent(v))
            }
            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Lent<'de>, E> {
                Ok(Lent(v.as_bytes()))
            }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Lent<'de>, D::Error> {
                d.deserialize_any(V)
            }
            fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Lent<'de>, D::Error> {
                d.deserialize_any(V)
            }
        }
        match ASK.get() % ASKS {
            0 => d.deserialize_any(V),
            1 => d.deserialize_str(V),
            2 => d.deserialize_string(V),
            3 => d.deserialize_bytes(V),
            4 => d.deserialize_byte_buf(V),
            5 => d.deserialize_identifier(V),
            6 => d.deserialize_option(V),
            _ => d.deserialize_newtype_struct("Lent", V),
        }
    }
}

/// The keys of a mapping, and its values.
struct Lents<'a>(Vec<Lent<'a>>);

impl<'de: 'a, 'a> Deserialize<'de> for Lents<'a> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Lents<'de>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a mapping")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Lents<'de>, A::Error> {
                let mut out = Vec::new();
                while let Some(k) = a.next_key()? {
                    out.push(k);
                    a.next_value::<IgnoredAny>()?;
                }
                Ok(Lents(out))
            }
        }
        d.deserialize_map(V)
    }
}

/// Whichever way strings are asked for, they are those of the document.
fn lent<'a>(cx: &mut Cx, v: &dyn Fn() -> Value<'a>) -> Res {
    for ask in 0..ASKS {
        ASK.set(ask);
        if let Some(s) = v().as_bstr() {
            let got = de::<Lent<'_>>(v());
            check!(
                matches!(&got, Ok(g) if g.0.as_ptr() == s.as_ptr() && g.0 == &s[..]),
                "{s:?} is not borrowed when asked for in way {ask}: {:?}",
                got.map(|g| g.0)
            );
            cx.count("strings lent");
        }
        if let Some(m) = v().as_mapping() {
            let got = de::<Lents<'_>>(v()).map_err(|e| format!("keys are not borrowed when asked for in way {ask}: {e}"))?;
            check!(got.0.len() == m.len(), "{} keys of {}", got.0.len(), m.len());
            for ((k, _), g) in m.iter().zip(&got.0) {
                check!(g.0.as_ptr() == k.as_ptr() && g.0 == &k[..], "the key {k:?} is {:?} when asked for in way {ask}", g.0);
                cx.count("keys lent");
            }
        }
    }
    Ok(())
}

/// The same, but as a copy.
#[derive(Debug, PartialEq)]
struct Buf(Vec<u8>);

impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Buf;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Buf, E> {
                Ok(Buf(v.to_vec()))
            }
            fn visit_str<E>(self, v: &str) -> Result<Buf, E> {
                Ok(Buf(v.as_bytes().to_vec()))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// The name of a variant without contents, whichever it is.
#[derive(Debug, PartialEq)]
struct Variant(String);

impl<'de> Deserialize<'de> for Variant {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Variant;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("variant")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Variant, A::Error> {
                let (name, rest) = a.variant::<String>()?;
                rest.unit_variant()?;
                Ok(Variant(name))
            }
        }
        d.deserialize_enum("Variant", &[], V)
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Wrapped(String);

#[derive(Debug, PartialEq, Deserialize)]
struct Triple(String, String, String);

/// The keys of a mapping as some type, each of which might fail without the
/// others being affected.
struct Keys<K>(PhantomData<K>);

impl<'de, K: Deserialize<'de>> serde::de::DeserializeSeed<'de> for Keys<K> {
    type Value = Vec<Option<K>>;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        struct V<K>(PhantomData<K>);
        impl<'de, K: Deserialize<'de>> Visitor<'de> for V<K> {
            type Value = Vec<Option<K>>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("mapping")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                use serde::de::Error;
                if a.next_value::<IgnoredAny>().is_ok() {
                    return Err(A::Error::custom("there is a value before the first key"));
                }
                let mut out = Vec::new();
                loop {
                    match a.next_key::<K>() {
                        Ok(None) => break,
                        Ok(Some(key)) => out.push(Some(key)),
                        Err(..) => out.push(None),
                    }
                    a.next_value::<IgnoredAny>()?;
                    if a.next_value::<IgnoredAny>().is_ok() {
                        return Err(A::Error::custom("there are two values for one key"));
                    }
                }
                if a.next_key::<K>().map_or(true, |k| k.is_some()) {
                    return Err(A::Error::custom("there are keys after the last key"));
                }
                Ok(out)
            }
        }
        d.deserialize_map(V(self.0))
    }
}

fn keys<'a, K: Deserialize<'a>>(v: Value<'a>) -> Result<Vec<Option<K>>, String> {
    use serde::de::DeserializeSeed;
    Keys(PhantomData).deserialize(v.into_deserializer()).map_err(|e| e.to_string())
}

/// The keys of a mapping are given to whatever wants them.
fn all_keys<'a>(cx: &mut Cx, v: impl Fn() -> Value<'a>, want: &[&[u8]]) -> Res {
    let text: Vec<Option<&str>> = want.iter().map(|k| std::str::from_utf8(k).ok()).collect();
    macro_rules! is {
        ($t:ty, $f:expr) => {{
            let got = keys::<$t>(v())?;
            let want: Vec<Option<$t>> = text.iter().map(|k| k.and_then($f)).collect();
            check!(got == want, "the keys as {} are {got:?} instead of {want:?}", stringify!($t));
        }};
    }
    is!(&str, Some);
    is!(String, |k| Some(k.to_owned()));
    is!(Option<String>, |k| Some(Some(k.to_owned())));
    is!(Option<Option<String>>, |k| Some(Some(Some(k.to_owned()))));
    is!(Wrapped, |k| Some(Wrapped(k.to_owned())));
    is!(Variant, |k| Some(Variant(k.to_owned())));
    is!(char, |k| {
        let mut c = k.chars();
        c.next().filter(|_| c.next().is_none())
    });
    let got: Vec<Option<&[u8]>> = keys::<Raw<'_>>(v())?.into_iter().map(|k| k.map(|k| k.0)).collect();
    check!(got.iter().copied().eq(want.iter().map(|k| Some(*k))), "the keys as bytes are {got:?} instead of {want:?}");
    let got = keys::<Buf>(v())?;
    check!(
        got.iter().map(|k| k.as_ref().map(|k| &k.0[..])).eq(want.iter().map(|k| Some(*k))),
        "the keys as byte buffers are {got:?} instead of {want:?}"
    );
    let got = keys::<IgnoredAny>(v())?;
    check!(got.len() == want.len() && got.iter().all(|k| k.is_some()), "keys can't be ignored");
    // Nothing else is expected to be accepted, unless it is what is written.
    macro_rules! parsed {
        ($($t:ty),*) => {$(
            for (got, text) in keys::<$t>(v())?.into_iter().zip(&text) {
                if let Some(got) = got {
                    let want = text.and_then(|t| t.parse::<$t>().ok());
                    check!(want == Some(got), "the key {text:?} is {got:?} as {}", stringify!($t));
                }
            }
        )*};
    }
    parsed!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
    macro_rules! never {
        ($($t:ty),*) => {$(
            let got = keys::<$t>(v())?;
            check!(got.len() == want.len() && got.iter().all(|k| k.is_none()), "keys are accepted as {}", stringify!($t));
        )*};
    }
    never!((), zoo::Unit, Vec<String>, (String, String), Triple, HashMap<String, String>, zoo::Nums);
    if !want.is_empty() {
        cx.count("keys of many types");
    }
    if text.iter().any(|k| k.is_none()) {
        cx.count("non-utf8 keys");
    }
    Ok(())
}

/// Reads only some of a collection.
struct Partial(usize);

impl<'de> serde::de::DeserializeSeed<'de> for Partial {
    type Value = Vec<T>;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<T>, D::Error> {
        struct V(usize);
        impl<'de> Visitor<'de> for V {
            type Value = Vec<T>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("collection")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<T>, A::Error> {
                let mut out = Vec::new();
                for _ in 0..self.0 {
                    out.extend(a.next_element()?);
                }
                // The rest as a sequence of its own.
                let rest = Vec::<T>::deserialize(SeqAccessDeserializer::new(a))?;
                out.extend(rest);
                Ok(out)
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<T>, A::Error> {
                let mut out = Vec::new();
                for _ in 0..self.0 {
                    // Keys might not be looked at.
                    if a.next_key::<IgnoredAny>()?.is_some() {
                        out.push(a.next_value()?);
                    }
                }
                match T::deserialize(MapAccessDeserializer::new(a))? {
                    T::Map(_, rest) => out.extend(rest.into_iter().map(|(_, v)| v)),
                    t => out.push(t),
                }
                Ok(out)
            }
        }
        d.deserialize_any(V(self.0))
    }
}

macro_rules! ints {
    ($cx:ident, $v:ident, $n:ident, $($t:ty, $as:ident;)*) => {$(
        {
            let got = de::<$t>($v());
            let want = $v().$as();
            match (&got, want) {
                (Ok(a), Some(b)) if *a == b => {}
                (Err(_), None) => {}
                // Integers with a sign which doesn't matter.
                (Ok(0), None) if $n.is_some_and(negative_zero) => {}
                _ => bail!("{:?} as {} is {got:?}, but {want:?} when accessed", $n, stringify!($t)),
            }
            $cx.count("as integers");
        }
    )*};
}

fn c20(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 100_000 == 5 {
        return many_deserialized(cx, r);
    }
    if case % 2 == 1 {
        return zoo_case(cx, r);
    }
    let (doc, m, edited) = some_document(cx, r)?;
    let text = bytes_of(&doc);
    cx.note(show(&text));
    let observed = canon_doc(&doc);
    let m = m.unwrap_or(observed);
    if weird(&m) {
        return Ok(());
    }
    for (p, id) in edit::ids(&doc) {
        let v = || doc.value(id);
        let sub = m.get(&p).ok_or("missing in the model")?;
        let at = || format!("{p:?} of {}", show(&text));
        // 1. Anything.
        let t = de::<T>(v()).map_err(|e| format!("{} is not deserialized: {e}", at()))?;
        if let Some(e) = rec::diff(sub, &t) {
            bail!("{} is deserialized as something else: {e}", at());
        }
        if matches!(t, T::Bytes(_)) {
            cx.count("non-utf8 as bytes");
        }
        de::<IgnoredAny>(v()).map_err(|e| format!("{} is not ignored: {e}", at()))?;
        cx.count("values deserialized");
        // 2. Numbers.
        let n = match sub {
            M::Num(n) => Some(n.as_str()),
            _ => None,
        };
        ints! { cx, v, n,
            u8, as_u8; u16, as_u16; u32, as_u32; u64, as_u64; u128, as_u128;
            i8, as_i8; i16, as_i16; i32, as_i32; i64, as_i64; i128, as_i128;
        }
        let (f, want) = (de::<f64>(v()), v().as_f64());
        check!(f.clone().ok() == want, "{} as f64 is {f:?}, but {want:?} when accessed", at());
        let (f, want) = (de::<f32>(v()), v().as_f32());
        check!(f.clone().ok() == want, "{} as f32 is {f:?}, but {want:?} when accessed", at());
        if want.is_some() {
            cx.count("as floats");
        }
        let b = de::<bool>(v());
        check!(b.clone().ok() == v().as_bool(), "{} as bool is {b:?}", at());
        // 3. Strings, without a copy.
        let s = de::<&str>(v());
        check!(s.clone().ok() == v().as_str(), "{} as a string is {s:?}, but {:?} when accessed", at(), v().as_str());
        if let (Ok(s), Some(w)) = (&s, v().as_str()) {
            check!(s.as_ptr() == w.as_ptr(), "{} is copied", at());
            cx.count("borrowed strings");
        }
        check!(de::<String>(v()).ok() == v().as_str().map(str::to_owned), "{} as an owned string", at());
        cx.count("as strings");
        let b = de::<Raw<'_>>(v());
        let want = v().as_bstr().map(|s| -> &[u8] { s });
        check!(b.as_ref().ok().map(|b| b.0) == want, "{} as bytes is {b:?} instead of {want:?}", at());
        let b = de::<Buf>(v());
        check!(b.as_ref().ok().map(|b| &b.0[..]) == want, "{} as a byte buffer is {b:?} instead of {want:?}", at());
        lent(cx, &v)?;
        // 4. Options and units.
        let null = matches!(sub, M::Null { .. });
        let o = de::<Option<T>>(v()).map_err(|e| format!("{} as an option: {e}", at()))?;
        check!(o.is_none() == null, "{} as an option is {o:?}", at());
        if let Some(o) = o {
            check!(o == t, "{} as an option is {o:?}", at());
        }
        check!(de::<()>(v()).is_ok() == null, "{} as a unit", at());
        check!(de::<zoo::Unit>(v()).is_ok() == null, "{} as a unit struct", at());
        cx.count("as options");
        // 5. Collections, in parts.
        match &t {
            T::Seq(_, items) => {
                let k = r.below(items.len() + 2);
                use serde::de::DeserializeSeed;
                let got = Partial(k).deserialize(v().into_deserializer()).map_err(|e| e.to_string());
                check!(got.as_ref() == Ok(items), "{} in parts is {got:?}", at());
                check!(de::<Vec<T>>(v()).as_ref() == Ok(items), "{} as a vector", at());
            }
            T::Map(_, items) => {
                let k = r.below(items.len() + 2);
                use serde::de::DeserializeSeed;
                let got = Partial(k).deserialize(v().into_deserializer()).map_err(|e| e.to_string());
                let want: Vec<T> = items.iter().map(|(_, v)| v.clone()).collect();
                check!(got == Ok(want), "{} in parts is {got:?}", at());
                if case % 8 == 0 {
                    let M::Map { items: entries, .. } = sub else { bail!("{} is a mapping", at()) };
                    let want: Vec<&[u8]> = entries.iter().map(|(k, _)| &k[..]).collect();
                    all_keys(cx, v, &want).map_err(|e| format!("{}: {e}", at()))?;
                }
            }
            _ => check!(de::<Vec<T>>(v()).is_err() && de::<HashMap<String, T>>(v()).is_err(), "{} is a collection", at()),
        }
        // 6. The same as JSON.
        if let Some(j) = to_json(sub) {
            like_json::<zoo::New>(cx, v(), &j, false)?;
            like_json::<Vec<i32>>(cx, v(), &j, false)?;
            like_json::<Vec<Option<f64>>>(cx, v(), &j, false)?;
            like_json::<Vec<String>>(cx, v(), &j, false)?;
            like_json::<Option<bool>>(cx, v(), &j, false)?;
            like_json::<BTreeMap<String, Option<String>>>(cx, v(), &j, false)?;
            like_json::<BTreeMap<String, IgnoredAnyEq>>(cx, v(), &j, false)?;
            like_json::<char>(cx, v(), &j, false)?;
            like_json::<std::net::IpAddr>(cx, v(), &j, false)?;
            like_json::<std::path::PathBuf>(cx, v(), &j, false)?;
            like_json::<std::num::NonZeroU8>(cx, v(), &j, false)?;
            like_json::<std::time::Duration>(cx, v(), &j, true)?;
            like_json::<BTreeMap<char, Option<zoo::Plain>>>(cx, v(), &j, true)?;
            like_json::<std::collections::BTreeSet<u8>>(cx, v(), &j, false)?;
            like_json::<Box<str>>(cx, v(), &j, false)?;
            cx.count("as structs");
            like_json::<zoo::Pair>(cx, v(), &j, true)?;
            like_json::<(f64, f64)>(cx, v(), &j, true)?;
            like_json::<zoo::Nums>(cx, v(), &j, true)?;
            like_json::<zoo::Shape>(cx, v(), &j, true)?;
            cx.count("as enums");
            // Numbers which are set keep the type they are set as, and serde
            // can't buffer 128-bit integers.
            if !edited {
                like_json::<zoo::Loose>(cx, v(), &j, false)?;
                like_json::<zoo::Flat>(cx, v(), &j, false)?;
                like_json::<zoo::Tagged>(cx, v(), &j, true)?;
                like_json::<zoo::Adjacent>(cx, v(), &j, true)?;
                cx.count("as buffered types");
            }
        }
    }
    check!(bytes_of(&doc) == text, "the document is changed by deserializing it");
    // The document itself.
    let t = T::deserialize((&doc).into_deserializer()).map_err(|e| e.to_string())?;
    if let Some(e) = rec::diff(&m, &t) {
        bail!("the document is deserialized as something else: {e}");
    }
    if m.is_collection() {
        cx.distinct(&text);
    }
    cx.sample(|| format!("{} is {t:?}", show(&text)));
    Ok(())
}

#[derive(Debug, PartialEq)]
struct IgnoredAnyEq;

impl<'de> Deserialize<'de> for IgnoredAnyEq {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        IgnoredAny::deserialize(d).map(|_| IgnoredAnyEq)
    }
}

fn back<D>(cx: &mut Cx, what: &str, text: &str, want: &D) -> Res
where
    D: DeserializeOwned + PartialEq + fmt::Debug,
{
    cx.note(format!("{text:?} {want:?}"));
    let doc = match yaml::from_slice(text) {
        Ok(d) => d,
        Err(e) => bail!("{what} is rejected: {e} in {text:?}"),
    };
    match de::<D>(doc.as_ref()) {
        Ok(got) => check!(got == *want, "{what}: {text:?} is read as {got:?} instead of {want:?}"),
        Err(e) => bail!("{what}: {text:?} is not read as {}: {e}", std::any::type_name::<D>()),
    }
    cx.distinct(text.as_bytes());
    Ok(())
}

fn zoo_one<D>(cx: &mut Cx, r: &mut Rng, v: &D) -> Res
where
    D: Serialize + DeserializeOwned + PartialEq + fmt::Debug,
{
    let e = |e: serde_json::Error| e.to_string();
    let j = serde_json::to_string(v).map_err(e)?;
    if r.pct(50) {
        let p = serde_json::to_string_pretty(v).map_err(e)?;
        cx.count("zoo as pretty json");
        back(cx, "pretty JSON", &p, v)?;
    } else {
        cx.count("zoo as json");
        back(cx, "JSON", &j, v)?;
    }
    // As serde_yaml writes it, with enums as mappings instead of tags, and
    // unless there are line breaks in quotes.
    if !["\\n", "\\r", "\\u{85}", "\\u{2028}", "\\u{2029}"].iter().any(|b| format!("{v:?}").contains(b)) {
        let mut y = Vec::new();
        let mut out = serde_yaml::Serializer::new(&mut y);
        serde_yaml::with::singleton_map_recursive::serialize(v, &mut out).map_err(|e| e.to_string())?;
        cx.count("zoo through serde_yaml");
        back(cx, "YAML", &String::from_utf8_lossy(&y), v)?;
    }
    // As a block, through an edited document.
    let j: J = serde_json::from_str(&j).map_err(e)?;
    let mut doc = yaml::from_slice("").map_err(|e| e.to_string())?;
    build(doc.as_mut(), &j, r);
    let text = doc.to_string();
    match de::<D>(doc.as_ref()) {
        Ok(got) => check!(got == *v || imprecise(&format!("{got:?}"), &format!("{v:?}")), "built as {text:?}, which is {got:?} instead of {v:?}"),
        Err(e) => bail!("built as {text:?}, which is not read: {e}"),
    }
    cx.count("zoo as yaml");
    Ok(())
}

/// serde_json doesn't parse floats precisely.
fn imprecise(a: &str, b: &str) -> bool {
    let f = |s: &str| -> Vec<String> {
        s.split(|c: char| matches!(c, ' ' | ',' | '(' | ')' | '[' | ']' | '}')).map(str::to_owned).collect()
    };
    let (a, b) = (f(a), f(b));
    a.len() == b.len()
        && a.iter().zip(&b).all(|(a, b)| {
            a == b
                || match (a.parse::<f64>(), b.parse::<f64>()) {
                    (Ok(a), Ok(b)) => (a - b).abs() <= a.abs() * 1e-9,
                    _ => false,
                }
        })
}

/// Write JSON into a document by editing it.
fn build(mut v: yaml::ValueMut<'_>, j: &J, r: &mut Rng) {
    match j {
        J::Null => v.set_null(if r.pct(50) { yaml::Null::Tilde } else { yaml::Null::Keyword }),
        J::Bool(b) => v.set_bool(*b),
        J::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(n), ..) => v.set_u64(n),
            (_, Some(n), _) => v.set_i64(n),
            (.., n) => v.set_f64(n.unwrap_or_default()),
        },
        J::String(s) => v.set_string(s),
        J::Array(items) => {
            let mut s = v.make_sequence();
            for i in items {
                build(s.push(yaml::Separator::Auto), i, r);
            }
        }
        J::Object(items) => {
            let mut m = v.make_mapping();
            for (k, i) in items {
                build(m.insert(k, yaml::Separator::Auto), i, r);
            }
        }
    }
}

fn zoo_case(cx: &mut Cx, r: &mut Rng) -> Res {
    match r.below(11) {
        8 | 9 => {
            let v = zoo::std(r);
            cx.count("standard types");
            zoo_one(cx, r, &v)
        }
        10 => {
            let v = zoo::wide(r);
            cx.count("wide numbers");
            let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            back(cx, "JSON", &j, &v)?;
            let y = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
            back(cx, "YAML", &y, &v)
        }
        0 => {
            let v = zoo::shape(r, 3);
            zoo_one(cx, r, &v)
        }
        1 => {
            let v: BTreeMap<String, zoo::Loose> = (0..r.below(5)).map(|_| (zoo::k(r), zoo::loose(r, 3))).collect();
            zoo_one(cx, r, &v)
        }
        2 => {
            let v: Vec<_> = (0..r.below(5)).map(|_| zoo::tagged(r)).collect();
            zoo_one(cx, r, &v)
        }
        3 => {
            let v: Vec<_> = (0..r.below(5)).map(|_| zoo::adjacent(r)).collect();
            zoo_one(cx, r, &v)
        }
        4 => {
            let v: Vec<String> = (0..r.below(6)).map(|_| zoo::s(r)).collect();
            zoo_one(cx, r, &v)?;
            // Lines are written as literal blocks.
            let lines = |r: &mut Rng| {
                let lines: Vec<String> = (0..r.range(1, 4)).map(|_| edit::word(r)).collect();
                lines.join("\n") + ["", "\n"][r.below(2)]
            };
            let v: BTreeMap<String, Vec<String>> =
                (0..r.below(4)).map(|_| (zoo::k(r), (0..r.below(3)).map(|_| lines(r)).collect())).collect();
            let y = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
            back(cx, "YAML", &y, &v)
        }
        5 => {
            let v = zoo::nums(r);
            zoo_one(cx, r, &v)
        }
        _ => {
            let deep = usize::from(r.pct(30));
            let v = zoo::big(r, deep);
            zoo_one(cx, r, &v)
        }
    }
}

fn snapshot(cx: &mut Cx, r: &mut Rng, doc: &Document) -> Result<Document, String> {
    cx.count("snapshots");
    match r.below(3) {
        0 => {
            cx.count("cbor");
            let mut b = Vec::new();
            ciborium::into_writer(doc, &mut b).map_err(|e| format!("not snapshotted as CBOR: {e}"))?;
            ciborium::from_reader(&b[..]).map_err(|e| format!("not restored from CBOR: {e}"))
        }
        1 => {
            cx.count("yaml");
            let s = serde_yaml::to_string(doc).map_err(|e| format!("not snapshotted as YAML: {e}"))?;
            serde_yaml::from_str(&s).map_err(|e| format!("not restored from YAML: {e}"))
        }
        _ => {
            cx.count("reader");
            let v = ciborium::Value::serialized(doc).map_err(|e| format!("not snapshotted as a value: {e}"))?;
            v.deserialized().map_err(|e| format!("not restored from a value: {e}"))
        }
    }
}

/// Two documents which can't be told apart.
///
/// Values in `shared` existed when one was restored from the other, so they have
/// the same identifiers. Which identifiers new values get is up to them.
fn twins(cx: &mut Cx, a: &Document, b: &Document, shared: &mut Option<HashSet<Id>>) -> Res {
    let (x, y) = (bytes_of(a), bytes_of(b));
    check!(x == y, "the restored document is {} instead of {}", show(&y), show(&x));
    check!(a.to_string() == b.to_string(), "the restored document is displayed differently");
    let (i, j) = (edit::ids(a), edit::ids(b));
    match shared {
        None => {
            check!(i == j, "identifiers of the restored document differ: {j:?} instead of {i:?}");
            *shared = Some(i.iter().map(|(_, id)| *id).collect());
        }
        Some(shared) => {
            check!(i.len() == j.len() && i.iter().zip(&j).all(|(i, j)| i.0 == j.0), "there are different values: {j:?} instead of {i:?}");
            let mut live = HashSet::new();
            for ((p, i), (_, j)) in i.iter().zip(&j) {
                if shared.contains(i) || shared.contains(j) {
                    check!(i == j, "{p:?} has a different identifier: {j:?} instead of {i:?}");
                    live.insert(*i);
                }
            }
            *shared = live;
        }
    }
    for ((p, i), (_, j)) in i.iter().zip(&j) {
        let (v, w) = (|| a.value(*i), || b.value(*j));
        let (c, d) = (canon(v()), canon(w()));
        check!(c == d, "{p:?} is {} instead of {}", d.show(), c.show());
        check!(v().to_string() == w().to_string(), "{p:?} is displayed differently");
        check!(raw(v()) == raw(w()), "{p:?} has different raw contents: {:?} instead of {:?}", raw(w()), raw(v()));
        // Number types included.
        let (s, t) = (v().serialize(Rec(&Log::default())), w().serialize(Rec(&Log::default())));
        check!(s == t || format!("{s:?}") == format!("{t:?}"), "{p:?} is serialized as {t:?} instead of {s:?}");
        cx.count("identifiers compared");
    }
    Ok(())
}

fn raw(v: Value<'_>) -> Option<Vec<u8>> {
    match v.into_any() {
        Any::String(s) => Some(s.as_raw().to_vec()),
        Any::Number(n) => Some(n.as_raw().to_vec()),
        _ => None,
    }
}

fn c21(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 25_000 == 5 {
        return many_restored(cx, r);
    }
    let mut o = Opts::wild(r);
    o.limit(24);
    let d = gen::document(r, &o);
    let mut doc = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}: {}", show(&d.text)))?;
    let mut m = d.model;
    let cfg = Cfg::any(r);
    let mut log = Vec::new();
    let mut sig = Vec::new();
    for _ in 0..r.below(8) {
        let op = edit::gen_op(r, &m, &cfg);
        log.push(format!("{op:?}"));
        cx.note(format!("{} {log:?}", show(&d.text)));
        let done = edit::step(&mut doc, &mut m, &op)?;
        if done.removed.is_some() {
            cx.count("holes");
        }
        sig.extend_from_slice(op.act.name().as_bytes());
        cx.count("edited before");
    }
    log.push("snapshot".into());
    cx.note(format!("{} {log:?}", show(&d.text)));
    let mut other = snapshot(cx, r, &doc)?;
    let mut shared = None;
    twins(cx, &doc, &other, &mut shared)?;
    for _ in 0..r.below(8) {
        let op = edit::gen_op(r, &m, &cfg);
        log.push(format!("{op:?}"));
        cx.note(format!("{} {log:?}", show(&d.text)));
        let mut n = m.clone();
        edit::step(&mut other, &mut n, &op)?;
        edit::step(&mut doc, &mut m, &op)?;
        twins(cx, &doc, &other, &mut shared)?;
        cx.count("edits in lockstep");
        sig.extend_from_slice(op.act.name().as_bytes());
    }
    // A restored document can be snapshotted again.
    let again = snapshot(cx, r, &other)?;
    twins(cx, &other, &again, &mut None)?;
    if !sig.is_empty() {
        sig.extend_from_slice(&bytes_of(&doc));
        cx.distinct(&sig);
    }
    let _: Option<Step> = None;
    cx.sample(|| format!("{} {log:?}", show(&d.text)));
    Ok(())
}
