//! Reading and writing text.
use super::show;
use crate::edit::{self, bytes_of, Cfg};
use crate::fw::{guarded, heap_live, heap_peak, heap_peak_reset, thread_seconds, Cx, Prop, Res};
use crate::gen::{self, Opts, Sp};
use crate::ly;
use crate::model::{canon, canon_doc, diff, Step, M};
use crate::rng::Rng;
use crate::{soup, trace};
use crate::{bail, check};
use bstr::{BStr, ByteSlice};
use nondestructive::yaml::{self, AnyMut, Document, ErrorKind, ValueMut};
use std::collections::BTreeSet;
use std::fmt;
use std::io;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: c01,
        quick: 800_000,
        thorough: 48_000_000,
        rule: "a case is a generated document, a mutated document, or token soup; non-trivial when it was accepted, \
               distinct by its bytes",
        level: "exploration",
        assumptions: &["the writer given to write_to does not fail (C03 covers that)"],
        required: &["accepted structured", "accepted hostile", "with header", "with crlf", "with non-utf8", "no-op edits",
            "with long-strings", "with wide-columns", "with many-blank-lines", "with many-items", "with deep-nesting",
            "more than 65536 values"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C02",
        run: c02,
        quick: 100_000,
        thorough: 6_000_000,
        rule: "a case is a document rendered in every way before and after random edits; distinct by the bytes rendered",
        level: "exploration",
        assumptions: &["Display is compared with the lossy UTF-8 decoding of what write_to produces"],
        required: &["sub-values compared with their text", "edited documents", "non-utf8 documents", "displayed with a width"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C03",
        run: c03,
        quick: 60_000,
        thorough: 3_600_000,
        rule: "a case is a document, for which the writer fails at every byte offset (every byte for short documents), \
               in each of the fault kinds; distinct by document",
        level: "fault_enumeration",
        assumptions: &["faults are those std::io::Write allows: errors, panics, short writes, interruptions and Ok(0)"],
        required: &["faults injected", "short writes", "interruptions", "zero writes", "fmt faults", "panics of the writer",
            "writers using documents"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C04",
        run: c04,
        quick: 400_000,
        thorough: 24_000_000,
        rule: "a case is hostile input; everything is non-trivial, distinct by bytes",
        level: "exploration",
        assumptions: &[
            "nesting is at most 400 levels deep (a listed known finding is about 200000 levels)",
            "a case which uses more than 25 seconds of CPU time does not finish",
            "time is out of proportion if eight times as much input needs more than 24 times as much CPU time",
        ],
        required: &["accepted", "rejected", "token soup", "mutated document", "large inputs", "nested inputs", "truncated",
            "outcomes compared", "scaled documents accepted", "scaled documents rejected"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C05",
        run: c05,
        quick: 800_000,
        thorough: 48_000_000,
        rule: "a case is an input which is rejected; distinct by bytes; malformed constructs are put in known places in \
               otherwise valid documents",
        level: "exploration",
        assumptions: &[],
        required: &[
            "hostile rejected", "BadEscape", "BadHexEscape", "BadUnicodeEscape", "BadSequenceTerminator",
            "BadMappingTerminator", "BadMappingSeparator", "ExpectedEof",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C06",
        run: c06,
        quick: 900_000,
        thorough: 54_000_000,
        rule: "a case is a document generated together with what it means; distinct by bytes, non-trivial with at least \
               two nodes",
        level: "exploration",
        assumptions: &["the dialect covered is the one in DESIGN.md", "libyaml (serde_yaml) is right about YAML 1.2 core"],
        required: &[
            "agreed with libyaml", "literal", "folded", "escape", "flow-map", "flow-seq", "empty-null", "quoted-key",
            "compact-nesting", "trailing-comma", "multi-line-flow", "seq-at-key-indent", "value-on-next-line", "crlf",
            "tab-indent", "header-line-collection", "tab-separator", "distinct strings in one document",
            "long-strings", "wide-columns", "many-blank-lines", "many-items", "deep-nesting",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C07",
        run: c07,
        quick: 4_000_000,
        thorough: 240_000_000,
        rule: "a case is the text of a bare scalar in a random context; distinct by the text, non-trivial if it is not \
               just letters",
        level: "exploration",
        assumptions: &["the number grammar is -?[0-9]*(.[0-9]*)?([eE][+-]?[0-9]+)? with at least one digit"],
        required: &["numbers", "strings", "booleans", "nulls", "integers in range", "integers out of range", "floats", "hundreds of digits"],
        enumerated: 0,
        threads: false,
    },
];

fn parse(t: &[u8]) -> Result<Document, yaml::Error> {
    yaml::from_slice(t)
}

/// Visit everything through mutable views, without changing anything.
fn touch(mut v: ValueMut<'_>, r: &mut Rng, depth: usize) {
    if depth > 1001 {
        return;
    }
    // Every way to get at a collection without changing it.
    let id = v.as_ref().id();
    let map = v.as_mapping_mut().map(|m| m.as_ref().len());
    let seq = v.as_sequence_mut().map(|s| s.as_ref().len());
    assert_eq!(map, v.as_ref().as_mapping().map(|m| m.len()));
    assert_eq!(seq, v.as_ref().as_sequence().map(|s| s.len()));
    let any = match r.below(4) {
        0 if map.is_some() => v.into_mapping_mut().map(AnyMut::Mapping),
        1 if map.is_some() => Some(AnyMut::Mapping(v.make_mapping())),
        0 if seq.is_some() => v.into_sequence_mut().map(AnyMut::Sequence),
        1 if seq.is_some() => Some(AnyMut::Sequence(v.make_sequence())),
        2 => match v.into_any_mut() {
            AnyMut::Scalar(v) => {
                assert_eq!(v.into_ref().id(), id);
                return;
            }
            any => Some(any),
        },
        _ => Some(v.into_any_mut()),
    };
    let Some(any) = any else {
        panic!("a collection is none when it is converted");
    };
    match any {
        AnyMut::Mapping(mut m) => {
            // Only once each, or values in repeated keys would be visited ever more often.
            let keys: BTreeSet<String> =
                m.as_ref().iter().filter_map(|(k, _)| std::str::from_utf8(k).ok().map(str::to_owned)).collect();
            let _ = m.remove("\u{1}no such key");
            if keys.len() == 1 && r.pct(50) {
                if let Some(v) = keys.first().and_then(|k| m.get_into_mut(k)) {
                    touch(v, r, depth + 1);
                }
                return;
            }
            for k in keys {
                if let Some(v) = m.get_mut(&k) {
                    touch(v, r, depth + 1);
                }
            }
            let n = m.as_ref().len();
            assert_eq!(n, m.into_ref().len());
        }
        AnyMut::Sequence(mut s) => {
            let n = s.as_ref().len();
            let _ = s.remove(n);
            let _ = s.remove(usize::MAX);
            if n == 1 && r.pct(50) {
                if let Some(v) = s.get_into_mut(0) {
                    touch(v, r, depth + 1);
                }
                return;
            }
            for i in 0..n {
                if let Some(v) = s.get_mut(i) {
                    if v.as_ref().as_sequence().is_some() && r.pct(50) {
                        let _ = v.make_sequence();
                    } else if v.as_ref().as_mapping().is_some() && r.pct(50) {
                        let _ = v.make_mapping();
                    } else {
                        touch(v, r, depth + 1);
                    }
                }
            }
        }
        AnyMut::Scalar(v) => {
            let _ = v.as_ref().as_any();
        }
        _ => {}
    }
}

fn c01(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    let structured = case % 2 == 0;
    let text = if case == 14 {
        cx.count("more than 65536 values");
        super::many_values(r).0
    } else if structured {
        let mut o = Opts::wild(r);
        if case % 200 == 0 {
            o.nodes = 800;
        }
        let d = gen::document(r, &o);
        for n in gen::feature_names(d.features) {
            cx.count(&format!("with {n}"));
        }
        d.text
    } else {
        soup::hostile(r).0
    };
    cx.note(show(&text));
    let mut doc = match r.below(3) {
        0 => parse(&text),
        1 => yaml::from_slice(text.clone()),
        _ => match std::str::from_utf8(&text) {
            Ok(s) => yaml::from_slice(s),
            Err(_) => parse(&text),
        },
    };
    let doc = match &mut doc {
        Ok(d) => d,
        Err(_) => {
            cx.count("rejected");
            return Ok(());
        }
    };
    cx.count(if structured { "accepted structured" } else { "accepted hostile" });
    cx.add("bytes", text.len() as u64);
    cx.distinct(&text);
    cx.sample(|| show(&text));
    let out = bytes_of(doc);
    check!(out == text, "written as {} but read from {}", show(&out), show(&text));
    if std::str::from_utf8(&text).is_ok() {
        let s = doc.to_string();
        check!(s.as_bytes() == text, "displayed as {s:?} but read from {}", show(&text));
    }
    if r.pct(40) {
        // Looking around, or edits which don't do anything, are not edits.
        let before = canon_doc(doc);
        touch(doc.as_mut(), r, 0);
        for (_, id) in edit::ids(doc).into_iter().take(50) {
            touch(doc.value_mut(id), r, 1000);
        }
        let _ = format!("{doc:?} {:?}", doc.as_ref());
        check!(canon_doc(doc) == before, "looking at values changed them");
        let out = bytes_of(doc);
        check!(out == text, "written as {} after looking at it, but read from {}", show(&out), show(&text));
        let out = bytes_of(&doc.clone());
        check!(out == text, "a clone is written as {} but read from {}", show(&out), show(&text));
        cx.count("no-op edits");
    }
    Ok(())
}

fn lossy(b: &[u8]) -> String {
    // What bstr does, which is the same as `String::from_utf8_lossy`.
    String::from_utf8_lossy(b).into_owned()
}

fn sub_values(cx: &mut Cx, doc: &Document, m: &M, sp: &Sp, text: &[u8], at: &mut Vec<Step>) -> Res {
    let id = edit::id_at(doc, at)?;
    let v = doc.value(id);
    let s = v.to_string();
    let want = lossy(&text[sp.span.0..sp.span.1]);
    let ok = match m {
        // Trailing newlines of blocks are part of them, but not of the span.
        M::Str { loose: true, .. } => s.trim_end_matches(['\r', '\n']) == want.trim_end_matches(['\r', '\n']),
        _ => s.trim_end_matches(['\r', '\n']) == want.trim_end_matches(['\r', '\n']),
    };
    check!(ok, "value at {at:?} renders as {s:?} but its text is {want:?}");
    if let Some(m) = v.as_mapping() {
        check!(m.to_string() == s, "mapping at {at:?} renders as {m} but the value as {s}");
    }
    if let Some(q) = v.as_sequence() {
        check!(q.to_string() == s, "sequence at {at:?} renders as {q} but the value as {s}");
    }
    cx.count("sub-values compared with their text");
    let kids: Vec<&M> = match m {
        M::Map { items, .. } => items.iter().map(|(_, m)| m).collect(),
        M::Seq { items, .. } => items.iter().collect(),
        _ => Vec::new(),
    };
    for (i, (k, s)) in kids.into_iter().zip(&sp.kids).enumerate() {
        at.push(Step(i));
        sub_values(cx, doc, k, s, text, at)?;
        at.pop();
    }
    Ok(())
}

/// All ways to render a document agree.
pub fn renders_agree(doc: &Document) -> Result<Vec<u8>, String> {
    let a = bytes_of(doc);
    let s = doc.to_string();
    check!(s == lossy(&a), "Display gives {s:?} but write_to {}", show(&a));
    let mut d = String::new();
    fmt::Write::write_fmt(&mut d, format_args!("{doc}{doc}")).unwrap();
    check!(d.len() == 2 * s.len() && d.starts_with(&s) && d.ends_with(&s), "rendering is not repeatable: {d:?}");
    let b = bytes_of(doc);
    check!(a == b, "write_to gives {} and then {}", show(&a), show(&b));
    Ok(a)
}

/// Options of a formatter might pad what is displayed, but don't change it.
fn padded(cx: &mut Cx, what: &impl fmt::Display, plain: &str) -> Res {
    // A filler which isn't part of it.
    macro_rules! with {
        ($($f:literal),*) => {$(
            let s = format!($f, what);
            check!(s.trim_matches('\u{1f9ea}') == plain, "{:?} is {s:?} when displayed as {}", plain, $f);
        )*};
    }
    if !plain.contains('\u{1f9ea}') {
        with!("{:\u{1f9ea}<300}", "{:\u{1f9ea}>9}", "{:\u{1f9ea}^60}", "{:#}", "{:\u{1f9ea}>+#33}");
        cx.count("displayed with a width");
    }
    Ok(())
}

fn c02(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    o.limit(40);
    let d = gen::document(r, &o);
    cx.note(show(&d.text));
    let Ok(mut doc) = parse(&d.text) else {
        bail!("rejected {}", show(&d.text));
    };
    let a = renders_agree(&doc)?;
    check!(a == d.text, "written as {} but read from {}", show(&a), show(&d.text));
    if std::str::from_utf8(&d.text).is_err() {
        cx.count("non-utf8 documents");
    }
    sub_values(cx, &doc, &d.model, &d.sp, &d.text, &mut Vec::new())?;
    cx.distinct(&a);
    let mut m = d.model;
    let cfg = Cfg::any(r);
    let n = r.range(1, 8);
    let mut ops = Vec::new();
    for _ in 0..n {
        let op = edit::gen_op(r, &m, &cfg);
        ops.push(op.clone());
        cx.note(format!("{} {ops:?}", show(&d.text)));
        edit::step(&mut doc, &mut m, &op)?;
        let a = renders_agree(&doc)?;
        cx.distinct(&a);
        cx.count("edited documents");
        padded(cx, &doc, &doc.to_string())?;
        // The rendering of a value is part of the rendering of whatever it's in.
        let ids = edit::ids(&doc);
        // Only some of the values of large documents.
        let nth = 1 + a.len() * ids.len() / 100_000;
        let first = r.below(nth);
        for (path, id) in ids.iter().skip(first).step_by(nth) {
            let v = doc.value(*id).to_string();
            if r.pct(5) {
                padded(cx, &doc.value(*id), &v)?;
            }
            if let Some((_, up)) = path.split_last() {
                let p = doc.value(edit::id_at(&doc, up)?).to_string();
                check!(p.contains(&v), "{path:?} renders as {v:?} but what it is in as {p:?}");
            } else {
                check!(doc.to_string().contains(&v), "the root renders as {v:?} in {doc}");
            }
        }
        if ids.iter().skip(first).step_by(nth).any(|(_, id)| format!("{:?}", doc.value(*id)).is_empty()) {
            bail!("nothing printed when debugging");
        }
    }
    cx.sample(|| format!("{} then {ops:?} gives {}", show(&d.text), show(&bytes_of(&doc))));
    Ok(())
}

/// What a writer fails with, to be recognized.
#[derive(Debug, PartialEq)]
struct Injected(usize);

impl fmt::Display for Injected {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected at {}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Error(io::ErrorKind),
    /// An error which the system raised, and is only a number.
    System(i32),
    Panic,
    Zero,
    Short(usize),
    Interrupt,
}

struct Faulty {
    out: Vec<u8>,
    at: usize,
    fault: Fault,
    flip: bool,
    hits: u64,
}

impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.at.saturating_sub(self.out.len());
        match self.fault {
            Fault::Error(k) => {
                if room == 0 {
                    self.hits += 1;
                    return Err(io::Error::new(k, Injected(self.at)));
                }
                let n = b.len().min(room);
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Fault::System(_) | Fault::Panic | Fault::Zero => {
                if room == 0 {
                    self.hits += 1;
                    return match self.fault {
                        Fault::System(code) => Err(io::Error::from_raw_os_error(code)),
                        Fault::Panic => std::panic::panic_any(Injected(self.at)),
                        _ => Ok(0),
                    };
                }
                let n = b.len().min(room);
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Fault::Short(n) => {
                self.hits += 1;
                let n = b.len().min(n);
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Fault::Interrupt => {
                self.flip = !self.flip;
                if self.flip {
                    self.hits += 1;
                    return Err(io::ErrorKind::Interrupted.into());
                }
                let n = b.len().min(3);
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A writer which uses documents itself, among them the one it is given.
struct Using<'a> {
    doc: &'a Document,
    other: &'a Document,
    /// How both are written.
    text: (&'a [u8], &'a [u8]),
    out: Vec<u8>,
    calls: usize,
}

impl Using<'_> {
    fn take(&mut self, b: &[u8]) -> Result<usize, String> {
        self.calls += 1;
        // Less and less often, since documents can be large.
        if self.calls < 12 || self.calls.is_power_of_two() {
            match self.calls % 4 {
                0 => check!(bytes_of(self.doc) == self.text.0, "written differently by the writer it is given to"),
                1 => check!(bytes_of(self.other) == self.text.1, "another one is written differently by the writer of one"),
                2 => check!(self.other.to_string().as_bytes() == self.text.1, "another one is displayed differently"),
                _ => {
                    let Ok(mut again) = yaml::from_slice(self.text.1) else {
                        bail!("rejected by a writer");
                    };
                    again.as_mut().set_string("it's");
                    drop(again.to_string());
                }
            }
        }
        let n = b.len().min(7 + self.calls);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
}

impl io::Write for Using<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.take(b).map_err(io::Error::other)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl fmt::Write for Using<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = self.take(b).map_err(|_| fmt::Error)?;
            b = &b[n..];
        }
        Ok(())
    }
}

struct FmtFaulty {
    out: String,
    at: usize,
}

impl fmt::Write for FmtFaulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.out.len() + s.len() > self.at {
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn c03(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    if o.big == gen::Big::No {
        o.nodes = if case % 50 == 7 { 1500 } else { [1, 4, 12, 24][r.below(4)] };
    }
    let d = gen::document(r, &o);
    cx.note(show(&d.text));
    let Ok(mut doc) = parse(&d.text) else {
        bail!("rejected {}", show(&d.text));
    };
    // Half of them are edited, to reach everything which is not text from the
    // input.
    let mut ops = Vec::new();
    if r.pct(50) {
        let cfg = Cfg::any(r);
        let mut m = d.model;
        for _ in 0..r.range(1, 5) {
            let op = edit::gen_op(r, &m, &cfg);
            ops.push(op.clone());
            cx.note(format!("{} {ops:?}", show(&d.text)));
            edit::step(&mut doc, &mut m, &op)?;
        }
    }
    let full = bytes_of(&doc);
    let shown = doc.to_string();
    cx.distinct(&full);
    // Everywhere, unless it is too long for that.
    let tries = if cx.thorough { (100_000_000 / (full.len() + 1)).clamp(160, 4000) } else { 160 };
    let step = if full.len() <= tries { 1 } else { full.len() / tries + 1 };
    let kinds = [
        io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied,
        io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero, io::ErrorKind::OutOfMemory, io::ErrorKind::InvalidData,
    ];
    let mut at = 0;
    while at < full.len() {
        let kind = kinds[(case as usize + at) % kinds.len()];
        let other = if (at / step) % 16 == 3 { Fault::Panic } else { Fault::System([5, 28, 32, 9999][at % 4]) };
        for fault in [Fault::Error(kind), Fault::Zero, other] {
            let mut w = Faulty { out: Vec::new(), at, fault, flip: false, hits: 0 };
            let dynamic = r.pct(50);
            let res = guarded(|| if dynamic { doc.write_to(&mut w as &mut dyn io::Write) } else { doc.write_to(&mut w) });
            cx.count("faults injected");
            if fault == Fault::Panic {
                cx.count("panics of the writer");
                check!(res.is_err(), "a panic of the writer at byte {at} is lost");
            }
            let res = match res {
                Ok(res) => res,
                Err(_) if fault == Fault::Panic => Err(io::ErrorKind::WriteZero.into()),
                Err(e) => bail!("write_to panics with a writer which fails with {fault:?} at byte {at}: {e}"),
            };
            if fault == Fault::Zero {
                cx.count("zero writes");
            }
            let want = match fault {
                Fault::Error(k) => k,
                Fault::System(code) => io::Error::from_raw_os_error(code).kind(),
                _ => io::ErrorKind::WriteZero,
            };
            match res {
                Ok(()) => bail!("write_to is fine with a writer which fails with {fault:?} at byte {at} of {}", full.len()),
                Err(e) => {
                    check!(e.kind() == want, "the writer fails with {want:?} at {at} but write_to with {:?}", e.kind());
                    if let Fault::System(code) = fault {
                        check!(e.raw_os_error() == Some(code), "the writer's own error at {at} is returned as {e:?}");
                        check!(e.get_ref().is_none(), "the writer's own error at {at} is returned as {e:?}");
                    }
                    if let Fault::Error(_) = fault {
                        let own = e.get_ref().and_then(|e| e.downcast_ref::<Injected>());
                        check!(own == Some(&Injected(at)), "the writer's own error at {at} is returned as {e:?}");
                    }
                }
            }
            check!(
                w.out == full[..at],
                "the writer failed with {fault:?} at byte {at}, but got {} which is not the beginning of {}",
                show(&w.out),
                show(&full)
            );
            check!(w.hits == 1, "writing continued after the writer failed with {fault:?} at byte {at} ({} more)", w.hits - 1);
        }
        let mut f = FmtFaulty { out: String::new(), at };
        let res = fmt::Write::write_fmt(&mut f, format_args!("{doc}"));
        cx.count("fmt faults");
        if at < shown.len() {
            check!(res.is_err(), "formatting is fine with a formatter which fails at byte {at}");
            check!(shown.starts_with(&f.out), "formatted {:?} which is not the beginning of {shown:?}", f.out);
        }
        at += step;
    }
    for fault in [Fault::Short(1), Fault::Short(r.range(2, 9)), Fault::Interrupt] {
        let mut w = Faulty { out: Vec::new(), at: 0, fault, flip: false, hits: 0 };
        let res = doc.write_to(&mut w);
        check!(res.is_ok(), "write_to fails with {res:?} for {fault:?}");
        check!(w.out == full, "a writer with {fault:?} gets {} instead of {}", show(&w.out), show(&full));
        cx.count(if fault == Fault::Interrupt { "interruptions" } else { "short writes" });
    }
    let other = parse(b"- 'a b': {c: [d, \"e\"]} # f\n- |\n  g\n").map_err(|e| e.to_string())?;
    let text = bytes_of(&other);
    let mut w = Using { doc: &doc, other: &other, text: (&full, &text), out: Vec::new(), calls: 0 };
    let res = guarded(|| doc.write_to(&mut w)).map_err(|e| format!("written by a writer which uses documents: {e}"))?;
    if let Err(e) = res {
        bail!("written by a writer which uses documents: {e}");
    }
    check!(w.out == full, "a writer which uses documents gets {} instead of {}", show(&w.out), show(&full));
    let mut w = Using { doc: &doc, other: &other, text: (&full, &text), out: Vec::new(), calls: 0 };
    let res = guarded(|| fmt::Write::write_fmt(&mut w, format_args!("{doc}")))
        .map_err(|e| format!("displayed by a formatter which uses documents: {e}"))?;
    check!(res.is_ok(), "displaying fails with a formatter which uses documents");
    check!(w.out == shown.as_bytes(), "a formatter which uses documents gets {} instead of {shown:?}", show(&w.out));
    cx.count("writers using documents");
    // Nothing of this changed the document.
    check!(bytes_of(&doc) == full && doc.to_string() == shown, "failing to write a document changed it");
    cx.sample(|| format!("{} {ops:?} failing at every {step} byte(s)", show(&d.text)));
    Ok(())
}

/// Use everything of a document which was accepted.
fn exercise(doc: &Document) {
    let _ = bytes_of(doc);
    let _ = doc.to_string();
    let m = canon_doc(doc);
    let _ = format!("{doc:?} {:?}", doc.as_ref());
    for (_, id) in edit::ids(doc) {
        let v = doc.value(id);
        let _ = (v.as_u8(), v.as_i128(), v.as_f32(), v.as_f64(), v.as_bool(), v.as_str(), v.as_bstr());
        if let Some(m) = v.as_mapping() {
            let _ = (m.get("a"), m.len(), m.iter().rev().count());
        }
        if let Some(s) = v.as_sequence() {
            let _ = (s.first(), s.last(), s.get(usize::MAX), s.iter().rev().count());
        }
    }
    drop(m);
    drop(doc.clone());
}

/// What repeated parts of large documents look like. The first of a pair comes
/// once, and what it starts can be continued by every following part.
const PARTS: &[(&str, &str, &str)] = &[
    // Layout.
    ("", "# comment\n", ""),
    ("", "\n", ""),
    ("", "\r\n", ""),
    ("", "   # \u{e9}\n", ""),
    ("#", "x", "\n"),
    // Entries.
    ("", "k: v\n", ""),
    ("", "k: # comment\n", ""),
    ("", "k:\n", ""),
    ("", "k: |\n  text\n", ""),
    ("", "k: >-\n  text\n", ""),
    ("", "'k': \"v\\n\"\n", ""),
    ("", "k: {a: b, c: [d, e]}\n", ""),
    ("", "k:\n  - a\n  - b\n", ""),
    ("", "k:\n- a\n- b\n", ""),
    ("", "k:\n  a: 1\n  b: 2\n", ""),
    ("", "\nk: 1 # c\n", ""),
    ("", "k: 1\r\n", ""),
    ("k:\n", "  - a\n", ""),
    ("k:\n", "  - - a\n    - b\n", ""),
    ("k:\n", "  -\n", ""),
    ("k:\n", "  - # c\n\n", ""),
    ("k:\n", "  a: 1.5\n", ""),
    ("k:\n", "                    - a: b\n                      c: d\n", ""),
    // Inline collections.
    ("k: [", "a, ", "]\n"),
    ("k: [", "1,\n  ", "]\n"),
    ("k: [", "[], {}, ", "]\n"),
    ("k: [", "# c\n", "]\n"),
    ("k: [", "'a', \"b\", ", "c]\n"),
    ("k: {", "a: b, ", "}\n"),
    ("k: {", "a: ,\n  ", "}\n"),
    ("k: {", "'a': \"b\", ", "c: d}\n"),
    // Scalars.
    ("k: ", "word ", "\n"),
    ("k: ", "1", "\n"),
    ("k: ", "1e", "\n"),
    ("k: ", "a:b", "\n"),
    ("k: ", "a#b", "\n"),
    ("k: ", "-", "\n"),
    ("k: '", "''", "'\n"),
    ("k: '", "x ", "'\n"),
    ("k: \"", "\\n", "\"\n"),
    ("k: \"", "\\u00e9", "\"\n"),
    ("k: \"", "\u{1f980}", "\"\n"),
    ("k: |\n", "  line\n", ""),
    ("k: |\n", "  line\n\n", ""),
    ("k: |+\n  a\n", "\n", ""),
    ("k: |\n  a", " ", "\n"),
    ("k: >\n", "  line\n", ""),
    ("k: |\r\n", "  line\r\n", ""),
    ("", "k", ": 1\n"),
    ("'", "k", "': 1\n"),
    ("k:", " ", "1\n"),
    ("k:", "\n", "  1\n"),
    ("k:\n", "  # c\n", "  a: 1\n"),
    // Malformed.
    ("k: [", "a, ", "\n"),
    ("k: {", "a: b, ", "\n"),
    ("k: \"", "a", "\n"),
    ("k: '", "''", "\n"),
    ("", "a ", "\n"),
    ("- ", "a\n", ""),
    ("k: \"", "\\n", "\\q\"\n"),
    ("k: 'a' ", "x", ""),
];

/// A document of about `n` bytes made of repeated parts.
fn large(parts: &[(Vec<u8>, Vec<u8>, Vec<u8>)], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, (a, b, c)) in parts.iter().enumerate() {
        out.extend_from_slice(a);
        while out.len() < n * (i + 1) / parts.len() {
            out.extend_from_slice(b);
        }
        out.extend_from_slice(c);
    }
    out
}

/// The CPU time of this thread in seconds for reading and using a document.
fn cost(text: &[u8]) -> f64 {
    let t = thread_seconds();
    if let Ok(doc) = parse(text) {
        let b = bytes_of(&doc);
        let s = doc.to_string();
        let c = doc.clone();
        drop((b, s, c, doc));
    }
    thread_seconds() - t
}

/// Time has to be in proportion to the size of the input.
fn scaling(cx: &mut Cx, r: &mut Rng) -> Res {
    let n = r.range(1, 3);
    let mut parts: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        let (a, b, c) = r.pick(PARTS);
        parts.push((a.as_bytes().to_vec(), b.as_bytes().to_vec(), c.as_bytes().to_vec()));
    }
    if r.pct(20) {
        // All lines are indented.
        let by = b" ".repeat(*r.pick(&[1, 2, 7, 40]));
        for (a, b, c) in &mut parts {
            for t in [a, b, c] {
                let mut o = Vec::new();
                for l in t.split_inclusive(|b| *b == b'\n') {
                    o.extend_from_slice(if l.len() > 2 { &by } else { b"" });
                    o.extend_from_slice(l);
                }
                *t = o;
            }
        }
    }
    let small = large(&parts, 40_000);
    let big = large(&parts, 320_000);
    cx.distinct(&small);
    cx.note(format!("{:?}", parts.iter().map(|p| (show(&p.0), show(&p.1), show(&p.2))).collect::<Vec<_>>()));
    let ok = parse(&small).is_ok();
    cx.count(if ok { "scaled documents accepted" } else { "scaled documents rejected" });
    let mut t = (f64::MAX, f64::MAX);
    for _ in 0..4 {
        t.1 = t.1.min(cost(&big));
        t.0 = t.0.min(cost(&small));
        if t.1 < 0.03 || t.1 < 24.0 * t.0 {
            cx.max("percent of linear time for eight times the size", (t.1 / t.0 * 12.5) as u64);
            return Ok(());
        }
    }
    bail!(
        "eight times as much input needs {:.0} times as much time ({:.3} s for {} bytes, {:.3} s for {})",
        t.1 / t.0,
        t.0,
        small.len(),
        t.1,
        big.len()
    )
}

/// Documents which have to be read the same whatever was read before.
const CANARIES: &[(&[u8], &[u8])] = &[
    (b"\"\\t\"", b"\t"),
    (b"\"\\x41\\u00e9\\U0001f980\"", b"A\xc3\xa9\xf0\x9f\xa6\x80"),
    (b"'a''b'", b"a'b"),
    (b"|\n  a\n  b\n", b"a\nb\n"),
    (b">-\n  a\n  b\n", b"a b"),
    (b"plain text", b"plain text"),
    (b"\"\"", b""),
];

fn canary(n: usize) -> Res {
    let (text, want) = CANARIES[n % CANARIES.len()];
    let doc = parse(text).map_err(|e| format!("{e} in {}", show(text)))?;
    let got = doc.as_ref().as_bstr().map(|s| s.to_vec());
    check!(got.as_deref() == Some(want), "{} is {got:?} after something else was read", show(text));
    Ok(())
}

fn outcome(text: &[u8]) -> String {
    let mut o = String::new();
    match parse(text) {
        Err(e) => o.push_str(&format!("{e} {:?} {:?}", e.kind(), e.span())),
        Ok(doc) => trace::document(&mut o, &doc),
    }
    o
}

fn c04(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 800 == 29 {
        return scaling(cx, r);
    }
    let (mut text, what) = if case % 400 == 7 {
        // Large inputs of something repeated, all kinds of ambiguities.
        let (mut t, _) = soup::hostile(r);
        t.truncate(200);
        if t.is_empty() {
            t.push(b'a');
        }
        let n = if cx.thorough { 60_000 } else { 12_000 };
        let mut out = Vec::new();
        // Nothing here may nest.
        t.retain(|b| !b"[{-?".contains(b));
        if t.is_empty() {
            t.push(b' ');
        }
        // Like a: b: c: on a single line would.
        if t.contains(&b':') && !t.contains(&b'\n') {
            t.push(b'\n');
        }
        while out.len() < n {
            out.extend_from_slice(&t);
        }
        (out, "large inputs")
    } else if case % 400 == 13 {
        let depth = r.range(2, 400);
        let mut out = Vec::new();
        match r.below(5) {
            0 => out = b"[".repeat(depth),
            1 => out = b"{a: ".repeat(depth),
            2 => out = b"- ".repeat(depth),
            3 => {
                for i in 0..depth {
                    out.extend(b" ".repeat(i));
                    out.extend_from_slice(b"a:\n");
                }
            }
            _ => {
                for _ in 0..depth {
                    out.extend_from_slice(if r.pct(50) { b"[" } else { b"{k: " });
                }
            }
        }
        if r.pct(50) {
            out.push(b'1');
        }
        if r.pct(50) {
            let close: Vec<u8> = out.iter().rev().filter_map(|b| match b {
                b'[' => Some(b']'),
                b'{' => Some(b'}'),
                _ => None,
            }).collect();
            out.extend(close);
        }
        (out, "nested inputs")
    } else {
        soup::hostile(r)
    };
    if case % 400 > 29 && r.pct(15) && !text.is_empty() {
        // Cut short, possibly within an escape.
        let esc: Vec<usize> = text.iter().enumerate().filter(|(_, b)| **b == b'\\').map(|(n, _)| n).collect();
        let n = if !esc.is_empty() && r.pct(70) { *r.pick(&esc) + r.range(1, 9) } else { r.below(text.len()) };
        text.truncate(n);
        cx.count("truncated");
    }
    let text = text;
    cx.count(what);
    cx.note(if text.len() > 4000 { format!("{}... ({} bytes)", show(&text[..400]), text.len()) } else { show(&text) });
    cx.distinct(&text);
    if cx.verbose {
        println!("{}", cx.note);
    }
    let base = heap_peak_reset();
    let res = guarded(|| parse(&text));
    let used = heap_peak().saturating_sub(base);
    cx.max("bytes of memory per byte of input", (used / (text.len() + 64)) as u64);
    check!(
        used <= 4096 * (text.len() + 64),
        "parsing {} bytes needs {used} bytes of memory",
        text.len()
    );
    match res {
        Err(p) => bail!("parsing {p}"),
        Ok(Err(e)) => {
            cx.count("rejected");
            if let Err(p) = guarded(|| format!("{e} {e:?}")) {
                bail!("printing the error {p}");
            }
        }
        Ok(Ok(doc)) => {
            cx.count("accepted");
            cx.add("nodes", edit::ids(&doc).len() as u64);
            if let Err(p) = guarded(|| exercise(&doc)) {
                bail!("using the document {p}");
            }
            drop(doc);
            let left = heap_live().saturating_sub(base);
            check!(left < 1 << 20, "{left} bytes are still in use after the document is gone");
        }
    }
    canary(r.below(CANARIES.len()))?;
    if text.len() < 4000 && r.pct(20) {
        // The same again after something else, and as a part of something.
        let first = outcome(&text);
        let (other, _) = soup::hostile(r);
        let _ = guarded(|| parse(&other).is_ok());
        let before = *r.pick(&[&b""[..], b"- ", b"\"", b"[", b"x: |\n"]);
        let mut whole = before.to_vec();
        whole.extend_from_slice(&text);
        whole.extend_from_slice(*r.pick(&[&b"\""[..], b"'", b"41\"", b"]}", b"\n", b": x\n", b"  more\n", b"0", b"\xa9"]));
        let part = &whole[before.len()..before.len() + text.len()];
        let again = guarded(|| outcome(part)).unwrap_or_else(|p| p);
        check!(first == again, "what is read differs when it is read again:\n{first}\n{again}");
        let again = guarded(|| outcome(&text.clone().into_boxed_slice())).unwrap_or_else(|p| p);
        check!(first == again, "what is read differs when it is read again:\n{first}\n{again}");
        cx.count("outcomes compared");
    }
    cx.sample(|| format!("{what}: {}", show(&text)));
    Ok(())
}

fn well_formed(cx: &mut Cx, text: &[u8], e: &yaml::Error) -> Res {
    let s = e.span();
    check!(
        s.start <= s.end && s.end <= text.len(),
        "the span {s:?} of {e} is not within the {} bytes of {}",
        text.len(),
        show(text)
    );
    let m = e.to_string();
    check!(
        m.ends_with(&format!("(at {}-{})", s.start, s.end)) && m.len() > 15,
        "the message {m:?} does not tell about the span {s:?}"
    );
    let d: &dyn std::error::Error = e;
    check!(d.to_string() == m, "messages differ");
    if !text.is_ascii() {
        // Characters which aren't ASCII mean as little as letters do.
        let text = BStr::new(text);
        let plain: Vec<u8> = text.char_indices().map(|(.., c)| if c.is_ascii() { c as u8 } else { b'g' }).collect();
        let at: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect();
        match parse(&plain) {
            Ok(_) => bail!("rejected with {e}, but accepted if it is made ASCII: {}", show(text)),
            Err(f) => {
                // The last byte may be the first one of a character.
                let ends = match f.span().end {
                    0 => 0..=0,
                    n => at[n - 1] + 1..=at[n],
                };
                check!(
                    f.kind() == e.kind() && s.start == at[f.span().start] && ends.contains(&s.end),
                    "rejected with {e}, but with {f} if it is made ASCII: {}",
                    show(text)
                );
            }
        }
        cx.count("same error when made ASCII");
    }
    cx.count(&format!("{:?}", e.kind()));
    Ok(())
}

/// White space and comments at the end of a collection which is not closed.
const TAILS: &[&[u8]] = &[
    b"", b"\n", b" # comment\n", b" # \xc3\xa9\xe2\x80\xa6\n", b"\t#\xf0\x9f\xa6\x80\r\n\n  ", b" # \xff\xfe\xc3\n", b"\n\n\t# 'a', [\n",
];

fn c05(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 3 == 0 {
        let (text, _) = soup::hostile(r);
        cx.note(show(&text));
        if let Err(e) = parse(&text) {
            well_formed(cx, &text, &e)?;
            cx.count("hostile rejected");
            cx.distinct(&text);
            let Err(f) = parse(&text) else { bail!("rejected once only: {}", show(&text)) };
            check!(f.span() == e.span() && f.kind() == e.kind(), "errors differ: {e} and {f}");
        }
        return Ok(());
    }
    // A valid document, the root of which is a block mapping or sequence, and
    // a malformed entry at the end of it.
    let mut o = Opts::wild(r);
    o.header = false;
    o.limit(24);
    o.crlf = false;
    o.final_nl = true;
    let d = loop {
        let d = gen::document(r, &o);
        if matches!(d.model, M::Map { flow: false, .. } | M::Seq { flow: false, .. }) && d.text.ends_with(b"\n") {
            break d;
        }
    };
    check!(parse(&d.text).is_ok(), "rejected {}", show(&d.text));
    let line = d.text[..d.sp.span.0].iter().rposition(|b| *b == b'\n').map_or(0, |n| n + 1);
    let mut text = d.text.clone();
    let indent = d.text[line..d.sp.span.0].to_vec();
    if r.pct(3) {
        // Positions which need more than one or two bytes.
        let mut long = b"# ".to_vec();
        long.extend(std::iter::repeat(b'x').take(*r.pick(&[250, 300, 5_000, 70_000])));
        long.push(b'\n');
        text.splice(0..0, long);
        cx.count("long documents");
    }
    let map = matches!(d.model, M::Map { .. });
    // What is last might have an empty value, which could be on the next line.
    text.extend_from_slice(&indent);
    text.extend_from_slice(if map { b"yy: 1\n" } else { b"- 1\n" });
    text.extend_from_slice(&indent);
    let entry_at = text.len();
    text.extend_from_slice(if map { b"zz: " } else { b"- " });
    let quiet = |r: &mut Rng| -> String {
        let mut s = String::new();
        for _ in 0..r.below(6) {
            s.push_str(r.pick(&["a", "é", " ", "\\n", "\\x41", "\\u00e9", "b: ", "#", "'", "[", "\\\""]));
        }
        s
    };
    let mut after = false;
    let mut exact = false;
    // Where the malformed bytes are.
    let (kind, lo, hi) = match r.below(9) {
        0 => {
            let bad = *r.pick(&["\\q", "\\c", "\\1", "\\w", "\\'", "\\%", "\\A", "\\E", "\\X", "\\?", "\\:"]);
            let pre = quiet(r);
            let post = quiet(r);
            let key = r.pct(25) && map;
            if key {
                text.truncate(entry_at);
            }
            text.push(b'"');
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(bad.as_bytes());
            let end = text.len();
            text.extend_from_slice(post.as_bytes());
            text.extend_from_slice(if key { b"\": 1\n" } else { b"\"\n" });
            (ErrorKind::BadEscape, at, end)
        }
        1 => {
            let bad = *r.pick(&["\\xg1", "\\x1g", "\\xzz", "\\x-1", "\\x+1", "\\x 1", "\\u12g4", "\\ug234", "\\u 123", "\\u123z", "\\U0000004g", "\\u+041"]);
            let pre = quiet(r);
            let flow = r.pct(30);
            text.extend_from_slice(if flow { b"[a, \"" } else { b"\"" });
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(bad.as_bytes());
            let end = text.len();
            text.extend_from_slice(quiet(r).as_bytes());
            text.extend_from_slice(if flow { b"\"]\n" } else { b"\"\n" });
            (if bad.starts_with("\\x") { ErrorKind::BadHexEscape } else { ErrorKind::BadUnicodeEscape }, at, end)
        }
        2 => {
            let bad = match r.below(3) {
                0 => format!("\\u{:04x}", r.range(0xd800, 0xdfff)),
                1 => format!("\\U{:08x}", r.range(0x11_0000, 0xffff_ffff)),
                _ => format!("\\U0000{:04X}", r.range(0xd800, 0xdfff)),
            };
            let pre = quiet(r);
            text.extend_from_slice(b"\"");
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(bad.as_bytes());
            let end = text.len();
            text.extend_from_slice(quiet(r).as_bytes());
            text.extend_from_slice(b"\"\n");
            (ErrorKind::BadUnicodeEscape, at, end)
        }
        3 => {
            // Entries which are complete, and what comes after them.
            let (pre, post) = *r.pick(&[
                ("[a, b", ""), ("[", ""), ("[a", ","), ("[[a]", ", 1 "), ("[{a: b}", ", "), ("[a, 'b c', \"d\"", " x"),
                ("[aé, 'ü'", ""), ("[\n  a,\n  b", "\n"), ("[a, [b, c]", " [d]]"), ("[a, {b: c}", "}"),
            ]);
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(post.as_bytes());
            text.extend_from_slice(*r.pick(TAILS));
            (ErrorKind::BadSequenceTerminator, at, text.len())
        }
        4 => {
            let (pre, post) = *r.pick(&[
                ("{a: 1", ""), ("{", ""), ("{a: 1", ","), ("{a: [b]", " "), ("{a: {b: c}", ", "), ("{a: 1, 'b': \"c\"", " x"),
                ("{é: 1, b: 'ü'", ""), ("{\n  a: 1,\n  b: c", "\n"), ("{a: b, c: {d: e}", " {}}"), ("{a: b, c: [d]", "]"),
            ]);
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(post.as_bytes());
            text.extend_from_slice(*r.pick(TAILS));
            (ErrorKind::BadMappingTerminator, at, text.len())
        }
        5 => {
            let (pre, post) = *r.pick(&[
                ("{a: 1", ", b"), ("{", "a"), ("{", "a # c"), ("{", "'a' 1}"), ("{", "\"a\" b: 1}"), ("{a: 1, b: 2", ", 'c'}"),
                ("{a: {b: c}", ", \"d\" x}"), ("{a: [é, ü],\n  'b': c", ",\n  d"),
            ]);
            text.extend_from_slice(pre.as_bytes());
            let at = text.len();
            text.extend_from_slice(post.as_bytes());
            text.extend_from_slice(*r.pick(TAILS));
            (ErrorKind::BadMappingSeparator, at, text.len())
        }
        6 => {
            // Something after the end of the value.
            let at = text.len();
            let v = *r.pick(&[&b"[a, b]"[..], b"{a: b}", b"'a'", b"\"a\""]);
            text.extend_from_slice(v);
            let at = at + v.len();
            text.extend_from_slice(*r.pick(&[&b" 42"[..], b" x", b" 'y'", b" [1]", b"\"z\"", b" @"]));
            text.push(b'\n');
            // Which of them it is depends on what it is part of.
            after = true;
            (if map { ErrorKind::BadMappingSeparator } else { ErrorKind::ExpectedEof }, at, text.len())
        }
        7 if map => {
            // An entry of a mapping which has no separator.
            text.truncate(entry_at);
            exact = true;
            let at = text.len();
            text.extend_from_slice(*r.pick(&[&b"zz"[..], b"zz # c", b"'zz'", b"zz aa"]));
            if r.pct(50) {
                text.push(b'\n');
            }
            (ErrorKind::BadMappingSeparator, at, text.len())
        }
        _ => {
            // Content which is indented less than the root, or at the root of
            // a sequence without being an item.
            text.truncate(entry_at);
            if map {
                return Ok(());
            }
            exact = true;
            let at = text.len();
            text.extend_from_slice(*r.pick(&[&b"42"[..], b"a: b", b"[x]", b"'a'", b"-a"]));
            text.push(b'\n');
            (ErrorKind::ExpectedEof, at, text.len())
        }
    };
    let (mut hi, mut text) = (hi, text);
    if kind == ErrorKind::ExpectedEof && text.ends_with(b"\n") && r.pct(10) {
        for _ in 0..*r.pick(&[30, 100, 10_000]) {
            text.extend_from_slice(*r.pick(&[&b"# rest\n"[..], b"\n", b"rest\n", b"- rest\n", b"\"rest\n"]));
        }
        hi = text.len();
        cx.count("long rest");
    }
    cx.note(show(&text));
    let Err(e) = parse(&text) else {
        bail!("{kind:?} at {lo}-{hi} was accepted: {}", show(&text));
    };
    well_formed(cx, &text, &e)?;
    cx.distinct(&text);
    cx.sample(|| format!("{e} in {}", show(&text)));
    let s = e.span();

    check!(*e.kind() == kind || after && *e.kind() == ErrorKind::ExpectedEof, "expected {kind:?} at {lo}-{hi} but got {e} in {}", show(&text));
    if *e.kind() == ErrorKind::ExpectedEof {
        check!(s.end == text.len(), "the span of {e} is {s:?}, but everything up to {} is left: {}", text.len(), show(&text));
    }
    match kind {
        ErrorKind::BadEscape | ErrorKind::BadHexEscape | ErrorKind::BadUnicodeEscape => {
            // From the backslash to the first byte which can't be part of it.
            let digits = match text[lo + 1] {
                b'x' => 2,
                b'u' => 4,
                b'U' => 8,
                _ => 0,
            };
            let n = text[lo + 2..].iter().take(digits).take_while(|b| b.is_ascii_hexdigit()).count();
            let end = lo + 2 + if n < digits { n + 1 } else { n };
            check!(s.start == lo && s.end == end && end <= hi, "the span of {kind:?} is {s:?}, but it is at {lo}-{hi} in {}", show(&text));
        }
        _ => {
            check!(
                s.start >= lo && s.start <= hi && (!exact || s.start == lo && s.end > lo),
                "the span of {kind:?} is {s:?}, but it is at {lo}-{hi} in {}",
                show(&text)
            );
        }
    }
    Ok(())
}

fn c06(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case == 0 {
        // Every one of very many strings is itself.
        let all = super::many_strings(r.u64());
        let mut text = String::new();
        for (i, s) in all.iter().enumerate() {
            text.push_str(&format!("{s}: {}\n", all[all.len() - 1 - i]));
        }
        let doc = parse(text.as_bytes()).map_err(|e| e.to_string())?;
        let m = doc.as_ref().as_mapping().ok_or("not a mapping")?;
        check!(m.len() == all.len(), "{} entries instead of {}", m.len(), all.len());
        for (i, (k, v)) in m.iter().enumerate() {
            let want = &all[all.len() - 1 - i];
            check!(k == all[i].as_bytes() && v.as_str() == Some(want), "{:?}: {want:?} is {k:?}: {:?}", all[i], v.as_str());
        }
        cx.add("distinct strings in one document", all.len() as u64);
        return Ok(());
    }
    let mut o = Opts::wild(r);
    if case % 500 == 0 {
        o.nodes = 1500;
    }
    let d = gen::document(r, &o);
    cx.note(show(&d.text));
    let doc = match parse(&d.text) {
        Ok(d) => d,
        Err(e) => bail!("rejected with {e}: {}", show(&d.text)),
    };
    if let Some(e) = diff(&d.model, &canon(doc.as_ref()), false) {
        bail!("{e} in {}", show(&d.text));
    }
    cx.add("nodes compared", d.model.nodes() as u64);
    if d.model.nodes() > 1 {
        cx.distinct(&d.text);
    }
    for n in gen::feature_names(d.features) {
        cx.count(n);
    }
    if !o.bytes && !o.dups && !o.tabs && !o.header_line && !o.gaps {
        match ly::read(&d.text) {
            Err(e) => {
                // The generator went out of the dialect; not about this crate.
                cx.count("rejected by libyaml");
                let _ = e;
            }
            Ok(l) => {
                if let Some(e) = ly::diff(&d.model, &l, false) {
                    bail!("harness: libyaml disagrees with the generator: {e} in {}", show(&d.text));
                }
                cx.count("agreed with libyaml");
            }
        }
    }
    cx.sample(|| format!("{} means {}", show(&d.text), d.model.show()));
    Ok(())
}

/// The number grammar.
fn is_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = usize::from(b.first() == Some(&b'-'));
    let mut digits = false;
    while i < b.len() && b[i].is_ascii_digit() {
        digits = true;
        i += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            digits = true;
            i += 1;
        }
    }
    if !digits {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            i += 1;
        }
        let s = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if s == i {
            return false;
        }
    }
    i == b.len()
}

fn c07(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let s: String = match r.below(10) {
        0 if r.below(300) == 0 => {
            // As many digits as there could be, in some part of it.
            let n = *r.pick(&[100, 255, 256, 257, 300, 310, 400, 1000, 70_000]);
            let many: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            cx.count("hundreds of digits");
            match r.below(6) {
                0 => many,
                1 => format!("-{many}"),
                2 => format!("{many}.5"),
                3 => format!("0.{many}"),
                4 => format!("{many}e-{}", r.below(400)),
                _ => format!("{many}x"),
            }
        }
        0..=2 => gen::number(r),
        3..=5 => {
            let n = r.range(1, 8);
            (0..n).map(|_| *r.pick(&['0', '1', '2', '9', '5', '.', 'e', 'E', '-', '+', '-', '.', '7'])).collect()
        }
        6 => {
            let w = *r.pick(&["true", "false", "null", "~", "yes", "no", "on", "off", "nul", "truee", "nulll", "tru", "t", "n", "y"]);
            w.chars().map(|c| if r.pct(40) { c.to_ascii_uppercase() } else { c }).collect()
        }
        7 => {
            // Integers around the limits of all types.
            let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
            let v = (1u128 << bits).wrapping_add(r.below(5) as u128).wrapping_sub(2);
            let neg = r.pct(50);
            let mut s = if neg { format!("-{v}") } else { v.to_string() };
            if r.pct(10) {
                s.push('0');
            }
            s
        }
        8 => {
            let mut s = gen::number(r);
            let at = r.below(s.len() + 1);
            s.insert(at, *r.pick(&['x', '_', ',', '.', 'e', '-', '+', ' ', '0', 'a']));
            s
        }
        _ => edit::word(r),
    };
    let s = s.trim().to_owned();
    // These would be something else than a scalar.
    if s.is_empty() || s.starts_with([',', '+']) && false || s == "-" || s.starts_with("- ") || s.contains(',') || s.starts_with("--") || s.starts_with("..") {
        return Ok(());
    }
    let (pre, post): (&str, &str) = *r.pick(&[
        ("", ""), ("", "\n"), ("a: ", ""), ("a: ", "\n"), ("- ", "\n"), ("[", "]"), ("[ ", " ]"), ("[x, ", ", y]"), ("{a: ", "}"),
        ("{a: ", ", b: c}"), ("a: ", " # c\n"), ("- ", "  \n- x\n"), ("- - ", "\n"), ("a:\n  ", "\nb: c\n"), ("[", "\n]"), ("a: ", "\r\n"),
        ("{a: ", " }"), ("[\n", " # c\n]"), ("--- ", "\n"), ("", " # c"),
    ]);
    let text = format!("{pre}{s}{post}");
    cx.note(format!("{text:?}"));
    let doc = match parse(text.as_bytes()) {
        Ok(d) => d,
        Err(e) => bail!("{text:?} rejected with {e}"),
    };
    let id = edit::ids(&doc)
        .into_iter()
        .find(|(_, id)| doc.value(*id).to_string() == s && doc.value(*id).as_mapping().is_none() && doc.value(*id).as_sequence().is_none());
    let Some((_, id)) = id else {
        bail!("{s:?} is not a value in {text:?}: {}", canon_doc(&doc).show());
    };
    let v = doc.value(id);
    if s.bytes().any(|b| !b.is_ascii_alphabetic()) {
        cx.distinct(s.as_bytes());
    }
    cx.sample(|| format!("{text:?}"));
    let any = v.as_any();
    let (is_null, is_bool, is_num) = (
        s == "~" || s.eq_ignore_ascii_case("null"),
        s.eq_ignore_ascii_case("true") || s.eq_ignore_ascii_case("false"),
        is_number(&s),
    );
    check!(
        any.is_null() == is_null,
        "{text:?}: whether {s:?} is null is {}",
        !is_null
    );
    check!(
        v.as_bool() == is_bool.then(|| s.eq_ignore_ascii_case("true")),
        "{text:?}: {s:?} as a boolean is {:?}",
        v.as_bool()
    );
    check!(v.as_any().into_bool() == v.as_bool(), "{text:?}: into_bool and as_bool differ");
    check!(v.as_number().is_some() == is_num, "{text:?}: whether {s:?} is a number is {}", !is_num);
    let is_str = !is_null && !is_bool && !is_num;
    check!(
        v.as_str() == is_str.then_some(&s[..]) && v.as_bstr().map(|b| b.to_vec()) == is_str.then(|| s.clone().into_bytes()),
        "{text:?}: {s:?} as a string is {:?}",
        v.as_str()
    );
    cx.count(if is_num { "numbers" } else if is_str { "strings" } else if is_null { "nulls" } else { "booleans" });
    macro_rules! int {
        ($($f:ident $ty:ty),*) => {$({
            // A minus sign makes everything but zero out of range of unsigned types.
            let want = if is_num { s.parse::<$ty>().ok() } else { None };
            let got = v.$f();
            let n = v.as_number();
            let by_number = n.as_ref().and_then(|n| n.$f());
            check!(by_number == got, "{text:?}: {} of the number is {by_number:?} but {got:?} of the value", stringify!($f));
            if want != got {
                let zero = s.trim_start_matches('-').bytes().all(|b| b == b'0');
                if !(zero && s.starts_with('-')) {
                    bail!("{text:?}: {} of {s:?} should be {want:?} but is {got:?}", stringify!($f));
                }
            }
            if is_num {
                cx.count(if want.is_some() { "integers in range" } else { "integers out of range" });
            }
        })*};
    }
    int!(as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_u128 u128, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128);
    if is_num {
        let n = v.as_number().unwrap();
        check!(n.as_raw() == &s[..], "{text:?}: raw number is {:?}", n.as_raw());
        // A lone dot next to digits is fine with both.
        let (w32, w64) = (s.parse::<f32>(), s.parse::<f64>());
        if let (Ok(a), Ok(b)) = (w32, w64) {
            let (ga, gb) = (v.as_f32(), v.as_f64());
            // Lexical does not accept everything the standard library does,
            // but whatever it does accept is right.
            let plain = !s.ends_with('.') && !s.contains(".e") && !s.contains(".E") && !s.starts_with('.') && !s.starts_with("-.");
            check!(
                ga.map_or(!plain, |g| g.to_bits() == a.to_bits()),
                "{text:?}: as_f32 of {s:?} should be {a:?} but is {ga:?}"
            );
            check!(
                gb.map_or(!plain, |g| g.to_bits() == b.to_bits()),
                "{text:?}: as_f64 of {s:?} should be {b:?} but is {gb:?}"
            );
            check!(n.as_f64().map(f64::to_bits) == gb.map(f64::to_bits) && n.as_f32().map(f32::to_bits) == ga.map(f32::to_bits), "{text:?}: floats differ");
            cx.count("floats");
        }
    }
    Ok(())
}
