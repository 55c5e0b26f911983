//! Rust types which documents are deserialized into.
use crate::edit;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::{NonZeroI64, NonZeroU8, Wrapping};
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Unit;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct New(pub i32);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pair(pub u8, pub String);

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Unit,
    New(i64),
    Tuple(u8, bool),
    Struct { a: i16, b: Option<String> },
    Rec(Box<Shape>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Loose {
    Bool(bool),
    Int(i64),
    Float(f64),
    Text(String),
    List(Vec<Loose>),
    Dict(BTreeMap<String, Loose>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Tagged {
    One { x: u16 },
    Two { y: Vec<i8>, z: Option<bool> },
    Three,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
pub enum Adjacent {
    Num(f64),
    Str(String),
    Nothing,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Flat {
    pub id: u32,
    #[serde(flatten)]
    pub rest: BTreeMap<String, Loose>,
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
pub struct Nums {
    pub a: u8,
    pub b: i8,
    pub c: u16,
    pub d: i16,
    pub e: u32,
    pub f: i32,
    pub g: u64,
    pub h: i64,
    pub k: f64,
    #[serde(default)]
    pub l: Option<u64>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Big {
    pub name: String,
    pub flag: bool,
    pub c: char,
    pub unit: (),
    pub u: Unit,
    pub new: New,
    pub pair: Pair,
    pub tuple: (i32, f64, Option<bool>),
    pub nums: Nums,
    pub shapes: Vec<Shape>,
    pub loose: Loose,
    pub tagged: Vec<Tagged>,
    pub adjacent: Vec<Adjacent>,
    pub flat: Flat,
    pub map: BTreeMap<String, Vec<Option<i32>>>,
    pub shape_map: BTreeMap<String, Shape>,
    #[serde(default)]
    pub nothing: Option<Box<Big>>,
}

/// Types of the standard library, some of which are written differently when
/// nobody is meant to read them.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Std {
    pub ip: IpAddr,
    pub v4: Ipv4Addr,
    pub v6: Ipv6Addr,
    pub sock: SocketAddr,
    pub time: Duration,
    pub path: PathBuf,
    pub range: Range<i32>,
    pub bound: Bound<u8>,
    pub array: [i16; 3],
    pub none: [bool; 0],
    pub set: BTreeSet<String>,
    pub queue: VecDeque<(u8, char)>,
    pub text: Box<str>,
    pub cow: Cow<'static, str>,
    pub slice: Box<[Option<bool>]>,
    pub result: Result<i32, String>,
    pub nz: NonZeroU8,
    pub nzi: Option<NonZeroI64>,
    pub wrapped: Wrapping<u16>,
    pub chars: BTreeMap<char, u8>,
    pub shapes: BTreeMap<Plain, i8>,
    pub size: usize,
    pub isize: isize,
    #[serde(rename = "with space", alias = "other")]
    pub renamed: u8,
    #[serde(with = "text")]
    pub through: u32,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub skipped: Option<String>,
}

/// An enum which is a key.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
pub enum Plain {
    Null,
    True,
    TwoWords,
    #[serde(rename = "a: b")]
    Colon,
    #[serde(rename = "")]
    Empty,
}

/// Numbers which are wider than most formats.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Wide {
    pub a: u128,
    pub b: i128,
    pub c: Vec<u128>,
    pub d: Option<i128>,
    pub e: (u64, i64),
}

/// A number as a string.
mod text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(n: &u32, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(n)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

/// A string, without backslashes: how `"\\"` is read is a known finding.
pub fn s(r: &mut Rng) -> String {
    let t = if r.pct(50) { edit::word(r) } else { edit::text(r) };
    t.chars().filter(|c| *c != '\\').collect()
}

/// A key.
pub fn k(r: &mut Rng) -> String {
    let mut t = edit::word(r);
    if r.pct(20) {
        t.insert(0, *r.pick(&['1', ' ', '"', '\'', '-', '#', '&', '!']));
    }
    t
}

fn f(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => (r.range(0, 2000) as f64 - 1000.0) / 8.0,
        1 => 0.0,
        2 => 1.0e-7 * r.range(1, 1000) as f64,
        _ => loop {
            let v = f64::from_bits(r.u64());
            if v.is_finite() {
                break v;
            }
        },
    }
}

pub fn shape(r: &mut Rng, depth: usize) -> Shape {
    match r.below(if depth == 0 { 4 } else { 5 }) {
        0 => Shape::Unit,
        1 => Shape::New(r.u64() as i64),
        2 => Shape::Tuple(r.u64() as u8, r.pct(50)),
        3 => Shape::Struct { a: r.u64() as i16, b: r.pct(50).then(|| s(r)) },
        _ => Shape::Rec(Box::new(shape(r, depth - 1))),
    }
}

pub fn loose(r: &mut Rng, depth: usize) -> Loose {
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => Loose::Bool(r.pct(50)),
        1 => Loose::Int(r.u64() as i64 >> r.below(60)),
        // NB: one which is an integer isn't a float.
        2 => Loose::Float(f(r)),
        3 => Loose::Text(s(r)),
        4 => Loose::List((0..r.below(4)).map(|_| loose(r, depth - 1)).collect()),
        _ => Loose::Dict((0..r.below(4)).map(|_| (k(r), loose(r, depth - 1))).collect()),
    }
}

pub fn tagged(r: &mut Rng) -> Tagged {
    match r.below(3) {
        0 => Tagged::One { x: r.u64() as u16 },
        1 => Tagged::Two { y: (0..r.below(4)).map(|_| r.u64() as i8).collect(), z: r.pct(50).then(|| r.pct(50)) },
        _ => Tagged::Three,
    }
}

pub fn adjacent(r: &mut Rng) -> Adjacent {
    match r.below(3) {
        0 => Adjacent::Num(f(r)),
        1 => Adjacent::Str(s(r)),
        _ => Adjacent::Nothing,
    }
}

pub fn nums(r: &mut Rng) -> Nums {
    let mut n = || r.u64() >> r.below(64).min(63);
    Nums {
        a: n() as u8,
        b: n() as i8,
        c: n() as u16,
        d: n() as i16,
        e: n() as u32,
        f: n() as i32,
        g: n(),
        h: n() as i64,
        k: 0.5,
        l: None,
    }
}

pub fn big(r: &mut Rng, depth: usize) -> Big {
    let mut n = nums(r);
    n.k = f(r);
    n.l = r.pct(50).then(|| r.u64());
    Big {
        name: s(r),
        flag: r.pct(50),
        c: loop {
            if let Some(c) = char::from_u32((r.u64() as u32) >> (11 + r.below(14))) {
                if c != '\\' {
                    break c;
                }
            }
        },
        unit: (),
        u: Unit,
        new: New(r.u64() as i32),
        pair: Pair(r.u64() as u8, s(r)),
        tuple: (r.u64() as i32, f(r), r.pct(50).then(|| r.pct(50))),
        nums: n,
        shapes: (0..r.below(4)).map(|_| shape(r, 2)).collect(),
        loose: loose(r, 2),
        tagged: (0..r.below(4)).map(|_| tagged(r)).collect(),
        adjacent: (0..r.below(4)).map(|_| adjacent(r)).collect(),
        flat: Flat {
            id: r.u64() as u32,
            rest: {
                let keys: Vec<String> = (0..r.below(3)).map(|_| k(r)).collect();
                keys.into_iter().filter(|k| k != "id").map(|k| (k, loose(r, 1))).collect()
            },
        },
        map: (0..r.below(4)).map(|_| (k(r), (0..r.below(4)).map(|_| r.pct(70).then(|| r.u64() as i32)).collect())).collect(),
        shape_map: (0..r.below(3)).map(|_| (k(r), shape(r, 1))).collect(),
        nothing: (depth > 0).then(|| Box::new(big(r, depth - 1))),
    }
}

pub fn std(r: &mut Rng) -> Std {
    let v4 = Ipv4Addr::from(r.u64() as u32);
    let v6 = Ipv6Addr::from((u128::from(r.u64()) << 64 | u128::from(r.u64())) >> r.below(128));
    let ip = if r.pct(50) { IpAddr::V4(v4) } else { IpAddr::V6(v6) };
    Std {
        ip,
        v4,
        v6,
        sock: SocketAddr::new(ip, r.u64() as u16),
        time: Duration::new(r.u64() >> r.below(60), r.below(1_000_000_000) as u32),
        path: s(r).into(),
        range: r.u64() as i32..r.u64() as i32,
        bound: match r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(r.u64() as u8),
            _ => Bound::Excluded(r.u64() as u8),
        },
        array: [r.u64() as i16, 0, r.u64() as i16],
        none: [],
        set: (0..r.below(4)).map(|_| s(r)).collect(),
        queue: (0..r.below(4)).map(|_| (r.u64() as u8, *r.pick(&['a', '0', ' ', '\'', '\n', '~', 'é', '🦀', '#', '-']))).collect(),
        text: s(r).into(),
        cow: s(r).into(),
        slice: (0..r.below(4)).map(|_| r.pct(60).then(|| r.pct(50))).collect(),
        result: if r.pct(50) { Ok(r.u64() as i32) } else { Err(s(r)) },
        nz: NonZeroU8::new(r.range(1, 255) as u8).unwrap(),
        nzi: NonZeroI64::new(r.u64() as i64 >> r.below(64)),
        wrapped: Wrapping(r.u64() as u16),
        chars: (0..r.below(4)).map(|_| (*r.pick(&['a', '0', '-', '~', 'é', ':', '#', '"', ' ', '?', '{', '1']), r.u64() as u8)).collect(),
        shapes: (0..r.below(4))
            .map(|_| (*r.pick(&[Plain::Null, Plain::True, Plain::TwoWords, Plain::Colon, Plain::Empty]), r.u64() as i8))
            .collect(),
        size: r.u64() as usize,
        isize: r.u64() as isize,
        renamed: r.u64() as u8,
        through: r.u64() as u32,
        skipped: r.pct(50).then(|| s(r)),
    }
}

pub fn wide(r: &mut Rng) -> Wide {
    let mut n = || (u128::from(r.u64()) << 64 | u128::from(r.u64())) >> r.below(128);
    Wide { a: n(), b: n() as i128, c: vec![n(), u128::MAX, n()], d: Some((n() as i128).wrapping_neg()), e: (n() as u64, n() as i64) }
}
