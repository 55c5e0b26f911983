//! Random edits, applied both to a real document through the public API, and to
//! the model.
use crate::gen;
use crate::model::{canon, Step, M};
use crate::plain_ok;
use crate::rng::Rng;
use bstr::ByteSlice;
use nondestructive::yaml::{
    AnyMut, Block, Chomp, Document, Id, MappingMut, Null, Separator, SequenceMut, StringKind, Value, ValueMut,
};

#[derive(Clone, Debug)]
pub enum Sc {
    Null(Null),
    Bool(bool),
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    F32(f32),
    F64(f64),
    Str(String),
    StrWith(String, StringKind),
    Block(Vec<String>, Block),
}

#[derive(Clone, Debug)]
pub enum Sub {
    Leave,
    Set(Sc),
    MakeMap,
    MakeSeq,
}

#[derive(Clone, Debug)]
pub enum Act {
    Set(Sc),
    MakeMap,
    MakeSeq,
    Insert(Vec<u8>, Sc),
    InsertSlot(Vec<u8>, Option<String>, Sub),
    Remove(Vec<u8>),
    ClearMap,
    Push(Sc),
    PushSlot(Option<String>, Sub),
    RemoveAt(usize),
    ClearSeq,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub path: Vec<Step>,
    /// Way to navigate to the value.
    pub nav: usize,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Only do edits whose result is in the dialect.
    pub strict: bool,
    /// Do block scalars.
    pub blocks: bool,
    /// Only strings libyaml can represent as well.
    pub compat: bool,
    pub maps: usize,
    pub seqs: usize,
    pub sets: usize,
    pub makes: usize,
    /// Weights of removals.
    pub removes: usize,
}

impl Cfg {
    pub fn any(r: &mut Rng) -> Cfg {
        Cfg {
            strict: false,
            blocks: r.pct(50),
            compat: r.pct(50),
            maps: 10,
            seqs: 10,
            sets: 6,
            makes: 3,
            removes: r.range(2, 10),
        }
    }
}

pub fn chomp(r: &mut Rng) -> Chomp {
    match r.below(3) {
        0 => Chomp::Clip,
        1 => Chomp::Strip,
        _ => Chomp::Keep,
    }
}

/// Text without anything special in it.
pub fn word(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        s.push(*r.pick(&['a', 'b', 'x', 'é', 'Z', '_', '私']));
    }
    s
}

/// Any text at all, biased towards everything which needs quoting.
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 => {
            s.push_str(r.pick(&[
                "", " ", "~", "null", "NULL", "Null", "true", "True", "false", "FALSE", "yes", "no", "on", "off", "-", "--",
                "---", "...", "- a", "-a", "?", "? a", ":", ": a", "a:", "a: b", "a:b", "a :b", "#", "# a", "a #b", "a#b",
                "&a", "*a", "!a", "!!str", "|", ">", "|-", "'", "\"", "''", "\"\"", "%", "%YAML", "@", "`", "[", "]", "{",
                "}", ",", "a,b", "[a]", "{a: b}", "0", "1", "-1", "+1", "0x1F", "0o7", "017", "1e5", "1e", "1.", ".5", ".",
                "-.", ".inf", "-.inf", ".nan", ".NaN", "1_000", "12:30", "1-2", "2001-01-01", "<<", "=", "a\nb", "\n", "a\n",
                "\na", "a\tb", "\t", "\ta", "a\t", " a", "a ", "a  b", "\r", "a\r\nb", "\0", "\x07", "\x1b", "\x7f",
                "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\\", "\\n",
                "a\\", "it's", "say \"hi\"", "é", "私", "🦀", "0b1", "1E+2", "-0", "-0.0", "e5", "Infinity", "NaN", "nan",
                "inf", "-inf", "infinity",
            ]));
        }
        1..=5 => {
            for _ in 0..r.below(10) {
                let p = *r.pick(&[
                    "a", "b", "Z", "0", "7", " ", " ", ":", ": ", "#", " #", "-", "- ", ",", "[", "]", "{", "}", "'", "\"",
                    "\\", "é", "私", "🦀", "|", ">", "&", "*", "!", "%", "@", "`", "?", "~", ".", "+", "_", "/", "=", "<", "\t",
                    "null", "true", "\u{a0}", "\u{200b}",
                ]);
                s.push_str(p);
            }
        }
        6..=7 => {
            for _ in 0..r.below(8) {
                let p = *r.pick(&[
                    "a", "\n", "\n\n", "\r\n", "\r", "\t", "\0", "\x01", "\x1f", "\x7f", "\u{80}", "\u{85}", "\u{9f}",
                    "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\"", "'", "\\", " ",
                    "é", ": ", "\u{e000}", "\u{10ffff}", "\u{1ffff}",
                ]);
                s.push_str(p);
            }
        }
        8..=9 => {
            for _ in 0..r.below(12) {
                let c = loop {
                    let n = match r.below(4) {
                        0 => r.below(0x80),
                        1 => r.below(0x800),
                        2 => r.below(0x1_0000),
                        _ => r.below(0x11_0000),
                    };
                    if let Some(c) = char::from_u32(n as u32) {
                        break c;
                    }
                };
                s.push(c);
            }
        }
        _ => s = word(r),
    }
    if r.below(250) == 0 {
        // A long one, with whatever is above in the midst of it.
        let n = gen::long_len(r);
        let mut long = String::from_utf8(gen::long(r, n)).unwrap();
        if matches!(n, gen::COLLIDE | 900) {
            return long;
        }
        let at = r.below(long.len() + 1);
        long.insert_str(at, &s);
        s = long;
    }
    s
}

/// Lines which can't all be part of a block.
pub fn odd_lines(r: &mut Rng) -> Vec<String> {
    (0..r.below(5))
        .map(|_| match r.below(6) {
            0 => String::new(),
            1 => " ".repeat(r.below(4)),
            2 => format!("{}{}", r.pick(&[" ", "  ", "\t", "\n", "\r", "\u{feff}", "\u{85}"]), word(r)),
            3 => format!("{}{}", word(r), r.pick(&[" ", "  ", "\t", "\n", "\n\n", "\r\n", "\u{2028}"])),
            4 => word(r),
            _ => text(r),
        })
        .collect()
}

fn block_parts(r: &mut Rng) -> Vec<String> {
    if r.below(8) == 0 {
        return odd_lines(r);
    }
    let n = if r.below(200) == 0 { r.range(100, 300) } else { r.range(1, 4) };
    let long = r.below(200) == 0;
    (0..n)
        .map(|_| {
            let mut s = word(r);
            if long {
                let n = gen::long_len(r);
                s.push_str(std::str::from_utf8(&gen::long(r, n)).unwrap());
            }
            for _ in 0..r.below(3) {
                s.push_str(r.pick(&[" ", ": ", " # ", "- ", "'", "\"", ",", "[", "|"]));
                s.push_str(&word(r));
            }
            s
        })
        .collect()
}

fn number_text(v: &Value<'_>) -> Option<String> {
    Some(v.as_number()?.as_raw().to_str().ok()?.to_owned())
}

impl Sc {
    pub fn random(r: &mut Rng, cfg: &Cfg, flow: bool, in_seq: bool) -> Sc {
        macro_rules! int {
            ($v:ident, $ty:ty) => {{
                let v = match r.below(6) {
                    0 => <$ty>::MAX,
                    1 => <$ty>::MIN,
                    2 => <$ty>::MAX - 1,
                    3 => r.below(100) as $ty,
                    _ => ((u128::from(r.u64()) << 64) | u128::from(r.u64())) as $ty,
                };
                Sc::$v(v)
            }};
        }
        loop {
            return match r.below(24) {
                0 => Sc::Null(Null::Keyword),
                1 => Sc::Null(Null::Tilde),
                2 if !(cfg.strict && flow && in_seq) => Sc::Null(Null::Empty),
                3 => Sc::Bool(true),
                4 => Sc::Bool(false),
                5 => int!(U8, u8),
                6 => int!(I8, i8),
                7 => int!(U16, u16),
                8 => int!(I16, i16),
                9 => int!(U32, u32),
                10 => int!(I32, i32),
                11 => int!(U64, u64),
                12 => int!(I64, i64),
                13 => int!(U128, u128),
                14 => int!(I128, i128),
                15 => Sc::F32(loop {
                    let v = match r.below(6) {
                        0 | 1 => f32::from_bits(r.u64() as u32),
                        2 | 3 => (r.below(2000) as f32 - 1000.0) / 8.0,
                        4 => {
                            let v: f32 = format!("{}e{}", r.range(1, 12), r.range(0, 90) as i32 - 45).parse().unwrap();
                            if r.pct(30) { -v } else { v }
                        }
                        _ => *r.pick(&[
                            0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::from_bits(1), -f32::from_bits(1),
                            f32::from_bits(0x007f_ffff), 16_777_216.0, 16_777_215.0, 16_777_218.0, 0.1, 1.0, -1.0, 1e10, 9_999_999.0,
                        ]),
                    };
                    if v.is_finite() {
                        break v;
                    }
                }),
                16 => Sc::F64(loop {
                    let v = match r.below(6) {
                        0 | 1 => f64::from_bits(r.u64()),
                        2 | 3 => (r.below(2000) as f64 - 1000.0) / 8.0,
                        4 => {
                            let v: f64 = format!("{}e{}", r.range(1, 12), r.range(0, 640) as i32 - 325).parse().unwrap();
                            if r.pct(30) { -v } else { v }
                        }
                        _ => *r.pick(&[
                            0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1), -f64::from_bits(1),
                            f64::from_bits(0x000f_ffff_ffff_ffff), 9_007_199_254_740_992.0, 9_007_199_254_740_991.0,
                            9_007_199_254_740_994.0, 0.1, 1.0, -1.0, 1e15, 1e16, 1e17, 123_456_789_012_345_680.0, 1e300, 0.1 + 0.2,
                            f32::MAX as f64, 18_446_744_073_709_551_616.0, 9_223_372_036_854_775_808.0,
                        ]),
                    };
                    if v.is_finite() {
                        break v;
                    }
                }),
                17..=19 => Sc::Str(text(r)),
                20 => Sc::StrWith(text(r), StringKind::Double),
                21 => {
                    let s = text(r);
                    if cfg.strict && s.chars().any(|c| c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}')) {
                        continue;
                    }
                    Sc::StrWith(s, StringKind::Single)
                }
                22 => {
                    let s = if cfg.strict { word(r) } else { text(r) };
                    if cfg.strict && !plain_ok(s.as_bytes(), flow) {
                        continue;
                    }
                    Sc::StrWith(s, StringKind::Bare)
                }
                23 if cfg.blocks => {
                    let b = if r.pct(60) { Block::Literal(chomp(r)) } else { Block::Folded(chomp(r)) };
                    Sc::Block(block_parts(r), b)
                }
                _ => continue,
            };
        }
    }

    /// The value this represents. Numbers are by value, see [`Sc::number_ok`].
    pub fn model(&self, flow: bool) -> M {
        match self {
            Sc::Null(n) => M::Null { empty: matches!(n, Null::Empty) },
            Sc::Bool(b) => M::Bool(*b),
            Sc::U8(n) => M::Num(n.to_string()),
            Sc::I8(n) => M::Num(n.to_string()),
            Sc::U16(n) => M::Num(n.to_string()),
            Sc::I16(n) => M::Num(n.to_string()),
            Sc::U32(n) => M::Num(n.to_string()),
            Sc::I32(n) => M::Num(n.to_string()),
            Sc::U64(n) => M::Num(n.to_string()),
            Sc::I64(n) => M::Num(n.to_string()),
            Sc::U128(n) => M::Num(n.to_string()),
            Sc::I128(n) => M::Num(n.to_string()),
            // Replaced by whatever text is used, once that is known to be right.
            Sc::F32(n) => M::Num(format!("{n:?}")),
            Sc::F64(n) => M::Num(format!("{n:?}")),
            Sc::Str(s) | Sc::StrWith(s, _) => M::str(s),
            Sc::Block(parts, b) => {
                let (sep, chomp) = match b {
                    Block::Literal(c) => ("\n", c),
                    Block::Folded(c) => (" ", c),
                    _ => unreachable!(),
                };
                let mut s = parts.join(sep);
                if !matches!(chomp, Chomp::Keep) {
                    s.truncate(s.trim_end_matches('\n').len());
                }
                if matches!(chomp, Chomp::Keep) && !parts.is_empty() || matches!(chomp, Chomp::Clip) && !s.is_empty() {
                    s.push('\n');
                }
                M::Str { s: s.into_bytes(), loose: !flow }
            }
        }
    }

    /// For floats any text is fine, as long as it is the same number.
    pub fn float_text(&self, v: &Value<'_>) -> Result<Option<String>, String> {
        match self {
            Sc::F32(n) => {
                let t = number_text(v).ok_or_else(|| format!("{n:?} is not a number"))?;
                if t.parse::<f32>().map(f32::to_bits) != Ok(n.to_bits()) || v.as_f32().map(f32::to_bits) != Some(n.to_bits()) {
                    return Err(format!("{n:?} as f32 is represented as {t} and reads as {:?}", v.as_f32()));
                }
                Ok(Some(t))
            }
            Sc::F64(n) => {
                let t = number_text(v).ok_or_else(|| format!("{n:?} is not a number"))?;
                if t.parse::<f64>().map(f64::to_bits) != Ok(n.to_bits()) || v.as_f64().map(f64::to_bits) != Some(n.to_bits()) {
                    return Err(format!("{n:?} as f64 is represented as {t} and reads as {:?}", v.as_f64()));
                }
                Ok(Some(t))
            }
            _ => Ok(None),
        }
    }

    /// The typed accessor corresponding to the setter gives back the value.
    pub fn typed_ok(&self, v: &Value<'_>) -> Result<(), String> {
        macro_rules! eq {
            ($a:expr, $b:expr) => {
                if $a != Some($b) {
                    return Err(format!("{self:?} reads as {:?} through the accessor of its type ({v})", $a));
                }
            };
        }
        match self {
            Sc::Null(_) => {
                if !v.as_any().is_null() {
                    return Err(format!("{self:?} is not null"));
                }
            }
            Sc::Bool(b) => eq!(v.as_bool(), *b),
            Sc::U8(n) => eq!(v.as_u8(), *n),
            Sc::I8(n) => eq!(v.as_i8(), *n),
            Sc::U16(n) => eq!(v.as_u16(), *n),
            Sc::I16(n) => eq!(v.as_i16(), *n),
            Sc::U32(n) => eq!(v.as_u32(), *n),
            Sc::I32(n) => eq!(v.as_i32(), *n),
            Sc::U64(n) => eq!(v.as_u64(), *n),
            Sc::I64(n) => eq!(v.as_i64(), *n),
            Sc::U128(n) => eq!(v.as_u128(), *n),
            Sc::I128(n) => eq!(v.as_i128(), *n),
            Sc::F32(n) => eq!(v.as_f32().map(f32::to_bits), n.to_bits()),
            Sc::F64(n) => eq!(v.as_f64().map(f64::to_bits), n.to_bits()),
            Sc::Str(s) | Sc::StrWith(s, _) => eq!(v.as_str(), s.as_str()),
            Sc::Block(..) => {
                let M::Str { s, .. } = self.model(false) else { unreachable!() };
                eq!(v.as_bstr().map(|s| s.to_vec()), s);
            }
        }
        Ok(())
    }

    pub fn set(&self, v: &mut ValueMut<'_>) {
        match self {
            Sc::Null(n) => v.set_null(match n {
                Null::Keyword => Null::Keyword,
                Null::Tilde => Null::Tilde,
                _ => Null::Empty,
            }),
            Sc::Bool(b) => v.set_bool(*b),
            Sc::U8(n) => v.set_u8(*n),
            Sc::I8(n) => v.set_i8(*n),
            Sc::U16(n) => v.set_u16(*n),
            Sc::I16(n) => v.set_i16(*n),
            Sc::U32(n) => v.set_u32(*n),
            Sc::I32(n) => v.set_i32(*n),
            Sc::U64(n) => v.set_u64(*n),
            Sc::I64(n) => v.set_i64(*n),
            Sc::U128(n) => v.set_u128(*n),
            Sc::I128(n) => v.set_i128(*n),
            Sc::F32(n) => v.set_f32(*n),
            Sc::F64(n) => v.set_f64(*n),
            Sc::Str(s) => v.set_string(s),
            Sc::StrWith(s, k) => v.set_string_with(s, kind(k)),
            Sc::Block(p, b) => v.set_block(lines(p, b), block(b)),
        }
    }

    /// Insert through the typed method, if there is one.
    pub fn insert(&self, m: &mut MappingMut<'_>, k: &[u8]) {
        match self {
            Sc::Null(_) | Sc::StrWith(..) => self.set(&mut m.insert(k, Separator::Auto)),
            Sc::Bool(b) => m.insert_bool(k, *b),
            Sc::U8(n) => m.insert_u8(k, *n),
            Sc::I8(n) => m.insert_i8(k, *n),
            Sc::U16(n) => m.insert_u16(k, *n),
            Sc::I16(n) => m.insert_i16(k, *n),
            Sc::U32(n) => m.insert_u32(k, *n),
            Sc::I32(n) => m.insert_i32(k, *n),
            Sc::U64(n) => m.insert_u64(k, *n),
            Sc::I64(n) => m.insert_i64(k, *n),
            Sc::U128(n) => m.insert_u128(k, *n),
            Sc::I128(n) => m.insert_i128(k, *n),
            Sc::F32(n) => m.insert_f32(k, *n),
            Sc::F64(n) => m.insert_f64(k, *n),
            Sc::Str(s) => m.insert_str(k, s),
            Sc::Block(p, b) => m.insert_block(k, lines(p, b), block(b)),
        }
    }

    pub fn push(&self, m: &mut SequenceMut<'_>) {
        match self {
            Sc::Null(_) | Sc::StrWith(..) => self.set(&mut m.push(Separator::Auto)),
            Sc::Bool(b) => m.push_bool(*b),
            Sc::U8(n) => m.push_u8(*n),
            Sc::I8(n) => m.push_i8(*n),
            Sc::U16(n) => m.push_u16(*n),
            Sc::I16(n) => m.push_i16(*n),
            Sc::U32(n) => m.push_u32(*n),
            Sc::I32(n) => m.push_i32(*n),
            Sc::U64(n) => m.push_u64(*n),
            Sc::I64(n) => m.push_i64(*n),
            Sc::U128(n) => m.push_u128(*n),
            Sc::I128(n) => m.push_i128(*n),
            Sc::F32(n) => m.push_f32(*n),
            Sc::F64(n) => m.push_f64(*n),
            Sc::Str(s) => m.push_string(s),
            Sc::Block(p, b) => m.push_block(lines(p, b), block(b)),
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Sc::Null(_) => "null",
            Sc::Bool(_) => "bool",
            Sc::F32(_) | Sc::F64(_) => "float",
            Sc::Str(_) => "string",
            Sc::StrWith(..) => "string-with",
            Sc::Block(..) => "block",
            _ => "integer",
        }
    }
}

fn kind(k: &StringKind) -> StringKind {
    match k {
        StringKind::Bare => StringKind::Bare,
        StringKind::Single => StringKind::Single,
        _ => StringKind::Double,
    }
}

fn chomp_of(c: &Chomp) -> Chomp {
    match c {
        Chomp::Clip => Chomp::Clip,
        Chomp::Strip => Chomp::Strip,
        _ => Chomp::Keep,
    }
}

thread_local! {
    /// Panic in front of this line the next time lines are asked for.
    pub static PANIC_AT: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// An iterator which knows how many lines there are or doesn't, goes on after
/// its end, and may panic.
struct Lines<'a> {
    parts: &'a [String],
    at: usize,
    exact: bool,
    panic_at: Option<usize>,
}

fn lines<'a>(parts: &'a [String], b: &Block) -> Lines<'a> {
    let (Block::Literal(c) | Block::Folded(c)) = b else { unreachable!() };
    let n = parts.len() + usize::from(matches!((b, c), (Block::Literal(_), Chomp::Keep) | (Block::Folded(_), Chomp::Clip)));
    Lines { parts, at: 0, exact: n % 2 == 0, panic_at: PANIC_AT.take() }
}

impl<'a> Iterator for Lines<'a> {
    type Item = &'a str;

    fn next(&mut self) -> Option<&'a str> {
        assert!(self.panic_at != Some(self.at), "there are no more lines");
        self.at += 1;
        if self.at > self.parts.len() + 1 {
            return Some("more");
        }
        self.parts.get(self.at - 1).map(String::as_str)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.parts.len().saturating_sub(self.at);
        if self.exact {
            (n, Some(n))
        } else {
            (0, if n % 3 == 0 { Some(n + 4) } else { None })
        }
    }
}

fn block(b: &Block) -> Block {
    match b {
        Block::Literal(c) => Block::Literal(chomp_of(c)),
        Block::Folded(c) => Block::Folded(chomp_of(c)),
        _ => unreachable!(),
    }
}

impl Act {
    /// The scalar which is written, if any.
    pub fn scalar(&self) -> Option<&Sc> {
        match self {
            Act::Set(sc)
            | Act::Insert(_, sc)
            | Act::Push(sc)
            | Act::InsertSlot(_, _, Sub::Set(sc))
            | Act::PushSlot(_, Sub::Set(sc)) => Some(sc),
            _ => None,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Act::Set(s) => format!("set {}", s.name()),
            Act::MakeMap => "make_mapping".into(),
            Act::MakeSeq => "make_sequence".into(),
            Act::Insert(_, s) => format!("insert {}", s.name()),
            Act::InsertSlot(..) => "insert slot".into(),
            Act::Remove(_) => "mapping remove".into(),
            Act::ClearMap => "mapping clear".into(),
            Act::Push(s) => format!("push {}", s.name()),
            Act::PushSlot(..) => "push slot".into(),
            Act::RemoveAt(_) => "sequence remove".into(),
            Act::ClearSeq => "sequence clear".into(),
        }
    }
}

/// A key which is almost another one.
pub fn near(r: &mut Rng, k: &[u8]) -> String {
    let s = String::from_utf8_lossy(k).into_owned();
    match r.below(17) {
        0 => format!("\"{s}\""),
        1 => format!("'{s}'"),
        2 => format!("{s}:"),
        3 => format!("{s} "),
        4 => format!(" {s}"),
        5 => format!("{s}\0"),
        6 => format!("{s}{s}"),
        7 => format!("{s}s"),
        8 => s.chars().skip(1).collect(),
        9 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        10 => s.to_uppercase(),
        11 => s.chars().rev().collect(),
        12 => s.trim().to_owned(),
        13 => s.replace('\'', "''"),
        14 => s.escape_default().to_string(),
        15 => s.trim_matches(['"', '\'']).to_owned(),
        // Bytes which are not UTF-8 are not the character which replaces them.
        _ => s,
    }
}

fn key(r: &mut Rng, cfg: &Cfg, items: &[(Vec<u8>, M)]) -> Vec<u8> {
    match r.below(10) {
        0..=2 if !items.is_empty() => r.pick(items).0.clone(),
        3..=6 => format!("n{}", r.below(40)).into_bytes(),
        7 if !cfg.strict && !cfg.compat => {
            let mut k = word(r).into_bytes();
            k.push(0xfe);
            k.push(b'z');
            k
        }
        n => loop {
            let t = if n == 8 && !items.is_empty() && r.pct(50) {
                let k = r.pick(items).0.clone();
                near(r, &k)
            } else {
                text(r)
            };
            // Other ways to write numbers as keys are outside of what libyaml
            // and this crate could agree on.
            if cfg.compat && looks_numeric(&t) {
                continue;
            }
            // YAML limits how long a key can be.
            if cfg.compat && t.len() > 250 {
                continue;
            }
            return t.into_bytes();
        },
    }
}

pub fn looks_numeric(t: &str) -> bool {
    let u = t.strip_prefix(['-', '+']).unwrap_or(t);
    u.starts_with(|c: char| c == '.' || c.is_ascii_digit())
}

fn sep(r: &mut Rng, cfg: &Cfg) -> Option<String> {
    if r.pct(65) {
        None
    } else if cfg.strict {
        Some(" ".repeat(r.range(1, 4)))
    } else {
        Some((*r.pick(&["", " ", "   ", "\n  ", " # hm\n    ", "\t"])).to_owned())
    }
}

fn sub(r: &mut Rng, cfg: &Cfg, flow: bool, in_seq: bool) -> Sub {
    match r.below(10) {
        0 => Sub::Leave,
        1..=3 => Sub::MakeMap,
        4..=6 => Sub::MakeSeq,
        _ => Sub::Set(Sc::random(r, cfg, flow, in_seq)),
    }
}

/// Whether the collection a value is in is a flow collection.
pub fn parent_of<'m>(m: &'m M, path: &[Step]) -> Option<&'m M> {
    m.get(path.split_last()?.1)
}

pub fn gen_op(r: &mut Rng, m: &M, cfg: &Cfg) -> Op {
    let paths = m.paths();
    let nav = r.below(6);
    loop {
        // Prefer collections, since there are fewer of them.
        let path = r.pick(&paths).clone();
        let node = m.get(&path).unwrap();
        let parent = parent_of(m, &path);
        let pflow = parent.is_some_and(M::is_flow);
        let in_seq = matches!(parent, Some(M::Seq { .. }));
        let flow = node.is_flow();
        let total = cfg.sets + cfg.makes + cfg.maps + cfg.seqs + cfg.removes;
        let mut n = r.below(total);
        let mut take = |w: usize| {
            if n < w {
                n = usize::MAX;
                true
            } else {
                n = n.saturating_sub(w);
                false
            }
        };
        let act = if take(cfg.sets) {
            if path.is_empty() && r.pct(90) || node.is_collection() && r.pct(60) {
                continue;
            }
            Act::Set(Sc::random(r, cfg, pflow, in_seq))
        } else if take(cfg.makes) {
            if path.is_empty() && node.is_collection() && r.pct(80) {
                continue;
            }
            if r.pct(50) {
                Act::MakeMap
            } else {
                Act::MakeSeq
            }
        } else if take(cfg.maps) {
            let M::Map { items, .. } = node else { continue };
            let k = key(r, cfg, items);
            if r.pct(65) {
                Act::Insert(k, Sc::random(r, cfg, flow, false))
            } else {
                Act::InsertSlot(k, sep(r, cfg), sub(r, cfg, flow, false))
            }
        } else if take(cfg.seqs) {
            let M::Seq { .. } = node else { continue };
            if r.pct(65) {
                Act::Push(Sc::random(r, cfg, flow, true))
            } else {
                let mut s = sub(r, cfg, flow, true);
                if let (true, Sub::Set(Sc::Null(Null::Empty))) = (flow && cfg.strict, &s) {
                    s = Sub::Leave;
                }
                Act::PushSlot(sep(r, cfg), s)
            }
        } else {
            match node {
                M::Map { items, .. } => {
                    if r.pct(8) {
                        Act::ClearMap
                    } else if !items.is_empty() && r.pct(85) {
                        Act::Remove(r.pick(items).0.clone())
                    } else if !items.is_empty() && r.pct(60) {
                        let k = r.pick(items).0.clone();
                        Act::Remove(near(r, &k).into_bytes())
                    } else {
                        Act::Remove(text(r).into_bytes())
                    }
                }
                M::Seq { items, .. } => {
                    if r.pct(8) {
                        Act::ClearSeq
                    } else if !items.is_empty() && r.pct(85) {
                        Act::RemoveAt(r.below(items.len()))
                    } else {
                        let n = items.len() + r.below(3);
                        Act::RemoveAt(if r.pct(5) { usize::MAX } else { n })
                    }
                }
                _ => continue,
            }
        };
        return Op { path, nav, act };
    }
}

/// The identifier of the value at the given path.
pub fn id_at(doc: &Document, path: &[Step]) -> Result<Id, String> {
    let mut v = doc.as_ref();
    for s in path {
        let next = match v.as_any() {
            nondestructive::yaml::Any::Mapping(m) => m.iter().nth(s.0).map(|(_, v)| v.id()),
            nondestructive::yaml::Any::Sequence(q) => q.get(s.0).map(|v| v.id()),
            _ => None,
        };
        let Some(id) = next else {
            return Err(format!("nothing at {path:?}"));
        };
        v = doc.value(id);
    }
    Ok(v.id())
}

/// Navigate to the value in one of the ways the API allows.
pub fn value_at<'d>(doc: &'d mut Document, m: &M, path: &[Step], nav: usize) -> Result<ValueMut<'d>, String> {
    // Keys have to be UTF-8, and the first one of their name, to be able to
    // navigate by them.
    let mut by_key = true;
    let mut keys: Vec<Option<String>> = Vec::new();
    let mut at = m;
    for s in path {
        match at {
            M::Map { items, .. } => {
                let k = &items[s.0].0;
                let first = items.iter().position(|(o, _)| o == k) == Some(s.0);
                match std::str::from_utf8(k) {
                    Ok(k) if first => keys.push(Some(k.to_owned())),
                    _ => by_key = false,
                }
                at = &items[s.0].1;
            }
            M::Seq { items, .. } => {
                keys.push(None);
                at = &items[s.0];
            }
            _ => return Err("harness: no such path".into()),
        }
    }
    if nav < 2 || !by_key {
        let id = id_at(doc, path)?;
        return Ok(doc.value_mut(id));
    }
    let lost = |s: &Step, k: &Option<String>| format!("could not navigate to {s:?} {k:?}");
    if nav == 2 {
        // One borrow at a time.
        let mut id = doc.as_ref().id();
        for (s, k) in path.iter().zip(&keys) {
            let mut v = doc.value_mut(id);
            id = match k {
                Some(k) => {
                    let mut m = v.as_mapping_mut().ok_or_else(|| lost(s, &keys[0]))?;
                    let v = m.get_mut(k).ok_or_else(|| lost(s, &keys[0]))?;
                    v.as_ref().id()
                }
                None => {
                    let mut q = v.as_sequence_mut().ok_or_else(|| lost(s, &keys[0]))?;
                    let v = q.get_mut(s.0).ok_or_else(|| lost(s, &keys[0]))?;
                    v.as_ref().id()
                }
            };
        }
        return Ok(doc.value_mut(id));
    }
    let mut v = doc.as_mut();
    for (s, k) in path.iter().zip(&keys) {
        let l = || lost(s, k);
        v = match (k, nav) {
            (Some(k), 3 | 4) => v.into_mapping_mut().ok_or_else(l)?.get_into_mut(k).ok_or_else(l)?,
            (None, 3 | 4) => v.into_sequence_mut().ok_or_else(l)?.get_into_mut(s.0).ok_or_else(l)?,
            (Some(k), _) => match v.into_any_mut() {
                AnyMut::Mapping(m) => m.get_into_mut(k).ok_or_else(l)?,
                _ => return Err(l()),
            },
            (None, _) => match v.into_any_mut() {
                AnyMut::Sequence(q) => q.get_into_mut(s.0).ok_or_else(l)?,
                _ => return Err(l()),
            },
        };
    }
    Ok(v)
}

fn separator(s: &Option<String>) -> Separator<'_> {
    match s {
        None => Separator::Auto,
        Some(s) => Separator::Custom(s),
    }
}

fn empty(map: bool, flow: bool) -> M {
    if map {
        M::Map { flow, items: Vec::new() }
    } else {
        M::Seq { flow, items: Vec::new() }
    }
}

fn put(m: &mut M, new: M, real: Value<'_>, sc: Option<&Sc>) -> Result<(), String> {
    *m = new;
    if let Some(sc) = sc {
        sc.typed_ok(&real)?;
        if let Some(t) = sc.float_text(&real)? {
            *m = M::Num(t);
        }
    }
    Ok(())
}

/// What an edit was about.
pub struct Done {
    /// The value which was put in place or added, if any.
    pub value: Option<Id>,
    /// Whether an entry was added.
    pub added: bool,
    /// The entry removed.
    pub removed: Option<usize>,
    /// The key already existed, and this is where.
    pub replaced: Option<usize>,
}

/// Apply one edit to both, checking everything the call itself promises.
pub fn step(doc: &mut Document, m: &mut M, op: &Op) -> Result<Done, String> {
    let pflow = parent_of(m, &op.path).is_some_and(M::is_flow);
    let mut done = Done { value: None, added: false, removed: None, replaced: None };
    let mut v = value_at(doc, m, &op.path, op.nav)?;
    let target = v.as_ref().id();
    let node = m.get_mut(&op.path).unwrap();
    match &op.act {
        Act::Set(sc) => {
            sc.set(&mut v);
            if v.as_ref().id() != target {
                return Err("the id of a value changed by setting it".into());
            }
            put(node, sc.model(pflow), v.as_ref(), Some(sc))?;
            done.value = Some(target);
        }
        Act::MakeMap => {
            let c = v.make_mapping();
            if c.as_ref().id() != target {
                return Err("the id of a value changed by make_mapping".into());
            }
            if !matches!(node, M::Map { .. }) {
                *node = empty(true, pflow);
            }
            let M::Map { items, .. } = node else { unreachable!() };
            if c.as_ref().len() != items.len() || c.as_ref().is_empty() != items.is_empty() {
                return Err(format!("make_mapping: {} entries", c.as_ref().len()));
            }
        }
        Act::MakeSeq => {
            let c = v.make_sequence();
            if c.as_ref().id() != target {
                return Err("the id of a value changed by make_sequence".into());
            }
            if !matches!(node, M::Seq { .. }) {
                *node = empty(false, pflow);
            }
            let M::Seq { items, .. } = node else { unreachable!() };
            if c.as_ref().len() != items.len() || c.as_ref().is_empty() != items.is_empty() {
                return Err(format!("make_sequence: {} items", c.as_ref().len()));
            }
        }
        Act::Insert(..) | Act::InsertSlot(..) | Act::Remove(..) | Act::ClearMap => {
            let M::Map { flow, items } = node else { return Err("harness: not a mapping".into()) };
            let flow = *flow;
            let Some(mut real) = v.as_mapping_mut() else {
                return Err("expected a mapping".into());
            };
            match &op.act {
                Act::Insert(k, sc) => {
                    sc.insert(&mut real, k);
                    let at = items.iter().position(|(o, _)| o == k);
                    let i = at.unwrap_or_else(|| {
                        items.push((k.clone(), M::null()));
                        items.len() - 1
                    });
                    let real = real.into_ref();
                    let Some((rk, rv)) = real.iter().nth(i) else {
                        return Err(format!("inserted entry {:?} is not there", bstr::BStr::new(k)));
                    };
                    if rk != &k[..] {
                        return Err(format!("key inserted is {rk:?} instead of {:?}", bstr::BStr::new(k)));
                    }
                    done.value = Some(rv.id());
                    done.added = at.is_none();
                    done.replaced = at;
                    put(&mut items[i].1, sc.model(flow), rv, Some(sc))?;
                }
                Act::InsertSlot(k, sep, sub) => {
                    let at = items.iter().position(|(o, _)| o == k);
                    let i = at.unwrap_or_else(|| {
                        items.push((k.clone(), M::null()));
                        items.len() - 1
                    });
                    let mut rv = real.insert(k, separator(sep));
                    if !rv.as_ref().as_any().is_null() {
                        return Err("the value of a fresh entry is not null".into());
                    }
                    items[i].1 = M::Null { empty: true };
                    done.value = Some(rv.as_ref().id());
                    done.added = at.is_none();
                    done.replaced = at;
                    match sub {
                        Sub::Leave => {}
                        Sub::Set(sc) => {
                            sc.set(&mut rv);
                            put(&mut items[i].1, sc.model(flow), rv.as_ref(), Some(sc))?;
                        }
                        Sub::MakeMap => {
                            let _ = rv.make_mapping();
                            items[i].1 = empty(true, flow);
                        }
                        Sub::MakeSeq => {
                            let _ = rv.make_sequence();
                            items[i].1 = empty(false, flow);
                        }
                    }
                }
                Act::Remove(k) => {
                    let Ok(ks) = std::str::from_utf8(k) else { return Ok(done) };
                    let at = items.iter().position(|(o, _)| o == k);
                    let there = real.get_mut(ks).is_some();
                    if there != at.is_some() {
                        return Err(format!("get_mut({ks:?}) is {there}"));
                    }
                    let was = real.remove(ks);
                    if was != at.is_some() {
                        return Err(format!("remove({ks:?}) returned {was}"));
                    }
                    if let Some(i) = at {
                        items.remove(i);
                    }
                    done.removed = at;
                }
                _ => {
                    real.clear();
                    items.clear();
                    if !real.as_ref().is_empty() || real.as_ref().len() != 0 {
                        return Err("a cleared mapping is not empty".into());
                    }
                }
            }
        }
        _ => {
            let M::Seq { flow, items } = node else { return Err("harness: not a sequence".into()) };
            let flow = *flow;
            let Some(mut real) = v.as_sequence_mut() else {
                return Err("expected a sequence".into());
            };
            match &op.act {
                Act::Push(sc) => {
                    sc.push(&mut real);
                    items.push(M::null());
                    let real = real.into_ref();
                    let Some(rv) = real.get(items.len() - 1) else {
                        return Err("pushed item is not there".into());
                    };
                    done.value = Some(rv.id());
                    done.added = true;
                    put(items.last_mut().unwrap(), sc.model(flow), rv, Some(sc))?;
                }
                Act::PushSlot(sep, sub) => {
                    let mut rv = real.push(separator(sep));
                    if !rv.as_ref().as_any().is_null() {
                        return Err("a fresh item is not null".into());
                    }
                    items.push(M::Null { empty: !flow });
                    done.value = Some(rv.as_ref().id());
                    done.added = true;
                    let last = items.last_mut().unwrap();
                    match sub {
                        Sub::Leave => {}
                        Sub::Set(sc) => {
                            sc.set(&mut rv);
                            put(last, sc.model(flow), rv.as_ref(), Some(sc))?;
                        }
                        Sub::MakeMap => {
                            let _ = rv.make_mapping();
                            *last = empty(true, flow);
                        }
                        Sub::MakeSeq => {
                            let _ = rv.make_sequence();
                            *last = empty(false, flow);
                        }
                    }
                }
                Act::RemoveAt(i) => {
                    let ok = *i < items.len();
                    if real.get_mut(*i).is_some() != ok {
                        return Err(format!("get_mut({i}) is {}", !ok));
                    }
                    let was = real.remove(*i);
                    if was != ok {
                        return Err(format!("remove({i}) of {} items returned {was}", items.len()));
                    }
                    if ok {
                        items.remove(*i);
                        done.removed = Some(*i);
                    }
                }
                _ => {
                    real.clear();
                    items.clear();
                    if !real.as_ref().is_empty() || real.as_ref().len() != 0 {
                        return Err("a cleared sequence is not empty".into());
                    }
                }
            }
        }
    }
    Ok(done)
}

/// All values of a document, with their paths.
pub fn ids(doc: &Document) -> Vec<(Vec<Step>, Id)> {
    fn go(v: Value<'_>, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, Id)>) {
        out.push((at.clone(), v.id()));
        if let Some(m) = v.as_mapping() {
            for (i, (_, v)) in m.iter().enumerate() {
                at.push(Step(i));
                go(v, at, out);
                at.pop();
            }
        } else if let Some(s) = v.as_sequence() {
            for (i, v) in s.iter().enumerate() {
                at.push(Step(i));
                go(v, at, out);
                at.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(doc.as_ref(), &mut Vec::new(), &mut out);
    out
}

pub fn bytes_of(doc: &Document) -> Vec<u8> {
    let mut out = Vec::new();
    doc.write_to(&mut out).expect("writing to a vector");
    out
}

pub fn model_of(doc: &Document) -> M {
    canon(doc.as_ref())
}
