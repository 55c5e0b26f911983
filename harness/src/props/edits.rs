//! What edits do to documents.
use super::show;
use super::views::{makes, moved};
use crate::edit::{self, bytes_of, Act, Cfg, Done, Op, Sc, Sub};
use crate::fw::{guarded, Cx, Prop, Res};
use crate::gen::{self, Opts, Sp};
use crate::ly;
use crate::model::{canon_doc, diff, Step, M};
use crate::rng::Rng;
use crate::{bail, check};
use nondestructive::yaml::{self, Block, Chomp, Document, Id, Null, StringKind};
use std::collections::HashMap;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        run: c09,
        quick: 200_000,
        thorough: 12_000_000,
        rule: "a case is a history of edits on the mappings of a document; distinct by its operations and their results, \
               non-trivial if a mapping changed",
        level: "exploration",
        assumptions: &["the model is an ordered list of entries, in which a key refers to the first entry of its name"],
        required: &[
            "insert new", "insert existing", "insert slot", "mapping remove hit", "mapping remove miss", "mapping clear",
            "get", "duplicate keys", "flow mapping edited", "block mapping edited", "non-utf8 key",
            "edits of very many values",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C10",
        run: c10,
        quick: 200_000,
        thorough: 12_000_000,
        rule: "a case is a history of edits on the sequences of a document; distinct by its operations and their results, \
               non-trivial if a sequence changed",
        level: "exploration",
        assumptions: &["the model is a vector"],
        required: &[
            "push", "push slot", "sequence remove hit", "sequence remove miss", "sequence clear", "flow sequence edited",
            "block sequence edited", "edits of very many values",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C11",
        run: c11,
        quick: 250_000,
        thorough: 15_000_000,
        rule: "a case is a history of edits, where the text before and after every edit is compared byte by byte; distinct \
               by the text after the edit",
        level: "exploration",
        assumptions: &["separators used for new entries are spaces"],
        required: &[
            "removals located", "clears located", "additions located", "replacements located",
            "set", "add", "remove", "clear", "make", "bytes preserved", "unrelated values compared", "comments preserved",
            "crlf", "non-utf8", "comment kept when cleared", "space kept when cleared",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C12",
        run: c12,
        quick: 200_000,
        thorough: 12_000_000,
        rule: "a case is a history of edits, where the text after every edit is read back by this crate and (if it is plain \
               YAML) by libyaml; distinct by that text",
        level: "exploration",
        assumptions: &[
            "the edits are those of the dialect in DESIGN.md",
            "histories which involve block scalars are on documents without comments or trailing spaces (known finding)",
            "empty block collections read back as null, and block scalars up to their trailing newlines",
        ],
        required: &["read back", "agreed with libyaml", "with block scalars", "with comments", "nested collections made"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C13",
        run: c13,
        quick: 500_000,
        thorough: 30_000_000,
        rule: "a case is a string put somewhere in a document as a value or key, in every way there is; distinct by the \
               string, non-trivial if it needs quoting",
        level: "exploration",
        assumptions: &["set_string_with is only used with a style which can represent the string"],
        required: &[
            "set_string", "push_string", "insert_str", "as key", "single", "double", "bare", "in flow", "in block",
            "at root", "agreed with libyaml", "control characters", "every code point checked",
            "distinct strings in one document",
        ],
        enumerated: 1088,
        threads: false,
    },
    Prop {
        id: "C14",
        run: c14,
        quick: 600_000,
        thorough: 36_000_000,
        rule: "a case is a null, boolean or number put somewhere in a document through its typed method; distinct by the \
               value",
        level: "exploration",
        assumptions: &["floats are finite (known finding)"],
        required: &[
            "set", "push", "insert", "null", "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128",
            "f32", "f64", "agreed with libyaml",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C15",
        run: c15,
        quick: 500_000,
        thorough: 30_000_000,
        rule: "a case is a block scalar put somewhere in a document; distinct by its lines, style and place",
        level: "exploration",
        assumptions: &[
            "lines have no line breaks; those of folded blocks, and the first and last ones, are not empty and do not start with white space",
            "documents have no comments or trailing spaces (known finding)",
        ],
        required: &["literal", "folded", "clip", "strip", "keep", "set", "push", "insert", "nested", "agreed with libyaml", "in flow",
            "lines which panic", "lines with space", "odd lines", "read back exactly", "as a block", "quoted instead"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C17",
        run: c17,
        quick: 300_000,
        thorough: 18_000_000,
        rule: "a case is one edit of a generated document, the result of which is predicted byte by byte from the positions \
               of its values; distinct by the result",
        level: "exploration",
        assumptions: &["the value itself is rendered as Display shows it"],
        required: &[
            "insert block", "push block", "insert flow", "push flow", "custom separator", "set", "replace", "first remove block",
            "remove block", "clear", "make", "after trailing comma", "before space", "nested in sequence item", "into empty flow", "odd separator", "grown", "grown root", "grown with tabs",
        ],
        enumerated: 0,
        threads: false,
    },
];

/// The options of a document which is edited, and put back together by any YAML
/// parser.
fn parse(text: &[u8]) -> Result<Document, String> {
    yaml::from_slice(text).map_err(|e| format!("rejected with {e}: {}", show(text)))
}

fn history(cx: &mut Cx, case: u64, r: &mut Rng, cfg: &Cfg, kind: &str) -> Res {
    let mut o = Opts::wild(r);
    o.limit(30);
    if r.pct(30) {
        o.compat = false;
        o.dups = true;
        o.bytes = true;
    }
    let d = gen::document(r, &o);
    let mut doc = parse(&d.text)?;
    let mut m = d.model;
    let mut ops: Vec<Op> = Vec::new();
    let mut sig = Vec::new();
    let steps = if cx.thorough { r.range(1, 60) } else { r.range(1, 25) };
    // Now and then a very long one.
    let steps = if case % 2000 == 9 { r.range(200, 600) } else { steps };
    for _ in 0..steps {
        let op = edit::gen_op(r, &m, cfg);
        ops.push(op.clone());
        cx.note(format!("{} {ops:?}", show(&d.text)));
        let flow = m.get(&op.path).is_some_and(M::is_flow);
        let done = edit::step(&mut doc, &mut m, &op)?;
        if let Some(e) = diff(&m, &canon_doc(&doc), false) {
            bail!("after {op:?}: {e}");
        }
        let what = match &op.act {
            Act::Insert(k, _) | Act::InsertSlot(k, ..) => {
                if std::str::from_utf8(k).is_err() {
                    cx.count("non-utf8 key");
                }
                if matches!(op.act, Act::InsertSlot(..)) {
                    cx.count("insert slot");
                }
                if done.added {
                    "insert new"
                } else {
                    "insert existing"
                }
            }
            Act::Remove(_) if done.removed.is_some() => "mapping remove hit",
            Act::Remove(_) => "mapping remove miss",
            Act::RemoveAt(_) if done.removed.is_some() => "sequence remove hit",
            Act::RemoveAt(_) => "sequence remove miss",
            Act::ClearMap => "mapping clear",
            Act::ClearSeq => "sequence clear",
            Act::Push(_) => "push",
            Act::PushSlot(..) => "push slot",
            Act::Set(_) => "set",
            Act::MakeMap | Act::MakeSeq => "make",
        };
        cx.count(what);
        if done.added || done.removed.is_some() {
            cx.count(&format!("{} {kind} edited", if flow { "flow" } else { "block" }));
        }
        // Lookups of what was just changed.
        if kind == "mapping" {
            if let (Some(map), Some(M::Map { items, .. })) = (doc.value(edit::id_at(&doc, &op.path)?).as_mapping(), m.get(&op.path)) {
                let mut first: HashMap<&[u8], usize> = HashMap::new();
                for (i, (k, _)) in items.iter().enumerate() {
                    if first.contains_key(&k[..]) {
                        cx.count("duplicate keys");
                    }
                    first.entry(k).or_insert(i);
                }
                let ids: Vec<Id> = map.iter().map(|(_, v)| v.id()).collect();
                for (k, i) in &first {
                    let Ok(k) = std::str::from_utf8(k) else { continue };
                    check!(map.get(k).map(|v| v.id()) == ids.get(*i).copied(), "get({k:?}) after {op:?} in {doc}");
                    cx.count("get");
                }
                if let Act::Remove(k) = &op.act {
                    let Ok(ks) = std::str::from_utf8(k) else { continue };
                    check!(map.get(ks).is_some() == first.contains_key(&k[..]), "get({ks:?}) after {op:?} in {doc}");
                }
            }
        }
        sig.extend_from_slice(op.act.name().as_bytes());
        sig.push(m.nodes() as u8);
        sig.push(op.path.len() as u8);
    }
    cx.distinct(&sig);
    cx.max("operations in a history", ops.len() as u64);
    cx.sample(|| format!("{} then {ops:?} gives {}", show(&d.text), show(&bytes_of(&doc))));
    Ok(())
}

/// Edits of collections which are larger than 16 bits can number.
pub fn many_edits(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, mut m) = super::many_values(r);
    let mut doc = parse(&text)?;
    let n = edit::ids(&doc).len();
    let nav = r.below(6);
    let far = |r: &mut Rng| *r.pick(&[0, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 65_540]);
    let num = |r: &mut Rng| Sc::U32(r.u64() as u32);
    for i in 0..24 {
        let at = far(r);
        let (path, act) = match i % 8 {
            0 => (vec![Step(0), Step(at)], Act::Set(num(r))),
            1 => (vec![Step(1), Step(at)], Act::Set(num(r))),
            2 => (vec![Step(0)], Act::RemoveAt(at)),
            3 => (vec![Step(1)], Act::Remove(format!("k{at}").into_bytes())),
            4 => (vec![Step(1)], Act::Insert(format!("k{at}").into_bytes(), num(r))),
            5 => (vec![Step(0)], Act::Push(num(r))),
            6 => (vec![Step(1)], Act::Insert(format!("n{i}").into_bytes(), num(r))),
            _ => (vec![Step(0)], Act::RemoveAt(70_000)),
        };
        let op = Op { path, nav, act };
        edit::step(&mut doc, &mut m, &op)?;
        cx.count("edits of very many values");
        if i % 8 == 7 {
            if let Some(e) = diff(&m, &canon_doc(&doc), false) {
                bail!("with more than 65536 values, after {op:?}: {e}");
            }
        }
    }
    let out = bytes_of(&doc);
    if let Some(e) = diff(&m, &canon_doc(&parse(&out)?), false) {
        bail!("with more than 65536 values, when read back: {e}");
    }
    cx.max("values in a document", n as u64);
    Ok(())
}

fn c09(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case == 3 {
        return many_edits(cx, r);
    }
    let mut cfg = Cfg::any(r);
    cfg.maps = 30;
    cfg.seqs = 3;
    history(cx, case, r, &cfg, "mapping")
}

fn c10(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case == 3 {
        return many_edits(cx, r);
    }
    let mut cfg = Cfg::any(r);
    cfg.seqs = 30;
    cfg.maps = 3;
    history(cx, case, r, &cfg, "sequence")
}

fn find_all(hay: &[u8], needle: &[u8], max: usize) -> Vec<usize> {
    if needle.is_empty() {
        return (0..=max.min(hay.len())).collect();
    }
    let mut out = Vec::new();
    let mut at = 0;
    while at + needle.len() <= hay.len() && at <= max {
        if hay[at..].starts_with(needle) {
            out.push(at);
        }
        at += 1;
    }
    out
}

fn raw_of(doc: &Document, id: Id) -> Vec<u8> {
    doc.value(id).to_string().into_bytes()
}

/// Nothing but whitespace and comments.
fn is_blank(b: &[u8]) -> bool {
    b.split(|b| *b == b'\n').all(|l| matches!(l.trim_ascii().first(), None | Some(b'#')))
}

fn is_ws(b: &[u8]) -> bool {
    b.iter().all(|b| matches!(b, b' ' | b'\n' | b'\t' | b'\r'))
}

fn c11(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    o.limit(40);
    let d = gen::document(r, &o);
    let mut doc = parse(&d.text)?;
    let mut m = d.model;
    let mut cfg = Cfg::any(r);
    cfg.strict = true;
    let mut ops: Vec<Op> = Vec::new();
    let utf8 = std::str::from_utf8(&d.text).is_ok();
    if !utf8 {
        cx.count("non-utf8");
    }
    if o.crlf {
        cx.count("crlf");
    }
    let steps = r.range(1, if cx.thorough { 14 } else { 7 });
    for _ in 0..steps {
        let op = edit::gen_op(r, &m, &cfg);
        ops.push(op.clone());
        cx.note(format!("{} {ops:?}", show(&d.text)));
        let old = bytes_of(&doc);
        let target = edit::id_at(&doc, &op.path)?;
        let ids = edit::ids(&doc);
        let before: Vec<(Vec<Step>, Id, String)> =
            ids.iter().map(|(p, id)| (p.clone(), *id, doc.value(*id).to_string())).collect();
        let made = makes(&m, &op);
        let before_m = m.clone();
        let done = edit::step(&mut doc, &mut m, &op)?;
        let new = bytes_of(&doc);
        cx.distinct(&new);
        if ops.len() == 1 {
            located(cx, &old, &new, &d.sp, &before_m, &op, &done)?;
        }
        // 1. Values which are not involved are written in the same way.
        let subject = match (&op.act, done.replaced) {
            (Act::Insert(..) | Act::InsertSlot(..), Some(i)) => {
                let mut p = op.path.clone();
                p.push(Step(i));
                p
            }
            _ => op.path.clone(),
        };
        for (p, id, text) in &before {
            if subject.starts_with(p) {
                continue;
            }
            if moved(p, &op, &done, made).is_none() {
                continue;
            }
            let now = doc.value(*id).to_string();
            check!(now == *text, "{p:?} was written as {text:?}, and as {now:?} after {op:?}");
            cx.count("unrelated values compared");
        }
        if !utf8 {
            // Renderings are lossy.
            local(cx, &old, &new, &op, &done, made, None, b"")?;
            continue;
        }
        // 2. Nothing but the value or entry changes.
        let text_of = |p: &[Step]| before.iter().find(|(q, _, _)| q == p).map(|(_, _, t)| t.clone().into_bytes());
        let sub = text_of(&subject).unwrap_or_default();
        let now = match (&op.act, done.value) {
            (_, Some(id)) => raw_of(&doc, id),
            _ => raw_of(&doc, target),
        };
        let mut last = subject.clone();
        last.push(Step(before_m.get(&subject).map_or(0, M::len).saturating_sub(1)));
        let last = text_of(&last).unwrap_or_default();
        local(cx, &old, &new, &op, &done, made, Some((&sub, &now)), &last)?;
        // 3. Comments, except those which are part of what is removed.
        if o.comments {
            let gone = match (&op.act, done.removed) {
                (Act::Remove(_) | Act::RemoveAt(_), Some(_)) | (Act::ClearMap | Act::ClearSeq, _) => true,
                // Collections may contain comments.
                _ => before_m.get(&subject).is_some_and(M::is_collection) && !matches!(op.act, Act::Push(_) | Act::PushSlot(..)) && !done.added,
            };
            if !gone {
                let was = comments(&old);
                let has = comments(&new);
                // What belongs to an empty value goes away with it, and may be
                // repeated with separators.
                let empties = matches!(op.act, Act::Set(Sc::Null(Null::Empty)))
                    || matches!(op.act, Act::InsertSlot(_, _, Sub::Set(Sc::Null(Null::Empty)) | Sub::MakeMap | Sub::MakeSeq | Sub::Leave))
                    || matches!(op.act, Act::Insert(_, Sc::Null(Null::Empty)))
                    || made;
                // The header of a block is part of it.
                let sub_c = comments(&sub);
                for c in was.iter().filter(|c| !sub_c.contains(c)) {
                    check!(has.contains(c) || empties, "comment {c} is lost by {op:?}: {} is now {}", show(&old), show(&new));
                }
                cx.add("comments preserved", was.len() as u64);
            }
        }
    }
    cx.sample(|| format!("{} then {ops:?} gives {}", show(&d.text), show(&bytes_of(&doc))));
    Ok(())
}

/// Where the edit of a document which was just read is, is known from how it was
/// generated.
fn located(cx: &mut Cx, old: &[u8], new: &[u8], sp: &Sp, m: &M, op: &Op, done: &Done) -> Res {
    let at = sp.get(&op.path);
    let Some(sub) = m.get(&op.path) else { bail!("harness: nothing there") };
    let p = old.iter().zip(new).take_while(|(a, b)| a == b).count();
    let s = old.iter().rev().zip(new.iter().rev()).take_while(|(a, b)| a == b).count();
    let fail = |what: &str| Err(format!("{what} by {op:?}: {} is now {}", show(old), show(new)));
    let flow = matches!(sub, M::Map { flow: true, .. } | M::Seq { flow: true, .. });
    let after = |gone: &Sp| {
        let mut n = gone.span.1;
        if !flow {
            return n;
        }
        // The comma is removed too.
        while matches!(old.get(n), Some(b' ' | b'\t' | b'\r' | b'\n' | b'#')) {
            n += match old[n] {
                b'#' => old[n..].iter().position(|b| *b == b'\n').unwrap_or(old.len() - n),
                _ => 1,
            };
        }
        if old.get(n) == Some(&b',') {
            n + 1
        } else {
            gone.span.1
        }
    };
    match (&op.act, done.removed) {
        (Act::ClearMap | Act::ClearSeq, _) => {
            if p < if flow { at.span.0 + 1 } else { at.ind } {
                return fail("something in front of what is cleared is removed");
            }
            if s < old.len() - at.kids.last().map_or(at.span.1 - usize::from(flow), after) {
                return fail("something after what is cleared is removed");
            }
            cx.count("clears located");
        }
        (Act::Remove(_) | Act::RemoveAt(_), Some(i)) => {
            let gone = &at.kids[i];
            // NB: what leads to a collection goes away with its last entry.
            let start = if !flow && at.kids.len() == 1 { at.ind } else { gone.prev };
            if p < start {
                return fail("something in front of what follows the previous entry is removed");
            }
            if s < old.len() - after(gone) {
                return fail("something after the entry is removed with it");
            }
            cx.count("removals located");
        }
        (Act::Push(_) | Act::PushSlot(..) | Act::Insert(..) | Act::InsertSlot(..), _) if done.added => {
            let last = at.kids.last().map_or(at.span.0, |k| k.span.1);
            if p < last || s < old.len() - at.span.1.max(last) {
                return fail("something is added elsewhere");
            }
            cx.count("additions located");
        }
        (Act::Set(_), _) if !sub.is_collection() && at.span.0 < at.span.1 && !matches!(op.act, Act::Set(Sc::Null(Null::Empty))) => {
            if p < at.span.0 || s < old.len() - at.span.1 {
                return fail("something else is replaced");
            }
            cx.count("replacements located");
        }
        _ => {}
    }
    Ok(())
}

/// The numbers of the comments in a text.
fn comments(t: &[u8]) -> Vec<usize> {
    let mut out = Vec::new();
    let mut at = 0;
    while let Some(n) = t[at..].windows(3).position(|w| w == b"# c") {
        at += n + 3;
        let digits: String = t[at..].iter().take_while(|b| b.is_ascii_digit()).map(|b| *b as char).collect();
        if t.get(at + digits.len()) == Some(&b';') {
            if let Ok(n) = digits.parse() {
                out.push(n);
            }
        }
    }
    out
}

/// Only the text of what was edited differs.
fn local(cx: &mut Cx, old: &[u8], new: &[u8], op: &Op, done: &Done, made: bool, text: Option<(&[u8], &[u8])>, last: &[u8]) -> Res {
    let p = old.iter().zip(new).take_while(|(a, b)| a == b).count();
    let s = old[p..].iter().rev().zip(new[p..].iter().rev()).take_while(|(a, b)| a == b).count();
    cx.add("bytes preserved", (p + s) as u64);
    let fail = |what: &str| Err(format!("{what} by {op:?}: {} is now {}", show(old), show(new)));
    match &op.act {
        Act::Push(_) | Act::PushSlot(..) | Act::Insert(..) | Act::InsertSlot(..) if done.added => {
            cx.count("add");
            if p + s != old.len() {
                return fail("something else than adding an entry is done");
            }
        }
        Act::Remove(_) | Act::RemoveAt(_) => {
            cx.count("remove");
            if p + s != new.len() {
                return fail("something else than removing an entry is done");
            }
            if done.removed.is_none() && old != new {
                return fail("the document is changed by removing nothing");
            }
        }
        Act::ClearMap | Act::ClearSeq => {
            cx.count("clear");
            if p + s != new.len() {
                return fail("something else than removing entries is done");
            }
            // What follows the last entry stays.
            if let Some((was, now)) = text.filter(|(was, _)| was.starts_with(b"[") || was.starts_with(b"{")) {
                let gap = now.len().saturating_sub(2);
                let head = &was[1..was.len() - 1 - gap.min(was.len() - 2)];
                if !head.trim_ascii_end().ends_with(last) && !head.trim_ascii_end().ends_with(b",") {
                    return fail("what follows the last entry is removed");
                }
                if gap > 0 {
                    cx.count(if now.contains(&b'#') { "comment kept when cleared" } else { "space kept when cleared" });
                }
            }
        }
        Act::MakeMap | Act::MakeSeq if !made => {
            if old != new {
                return fail("the document is changed");
            }
        }
        _ => {
            cx.count(if made { "make" } else { "set" });
            let Some((was, now)) = text else { return Ok(()) };
            let ok = find_all(old, was, if now.is_empty() { old.len() } else { p }).into_iter().any(|at| {
                let tail = &old[at + was.len()..];
                // The same separator.
                if new.len() == at + now.len() + tail.len() && new[at..].starts_with(now) && new.ends_with(tail) {
                    return true;
                }
                // Whitespace before it comes and goes with the value.
                if was.is_empty() && new.ends_with(tail) && at <= p {
                    let mid = &new[at..new.len() - tail.len().min(new.len() - at)];
                    return mid.ends_with(now) && is_blank(&mid[..mid.len() - now.len()]);
                }
                if now.is_empty() && new.ends_with(tail) {
                    // Whatever leads to the value goes away with it.
                    let head = new[..new.len() - tail.len()].trim_ascii_end();
                    return old[..at].starts_with(head) && at >= head.len();
                }
                // A sequence might be on the level of its key.
                if was.contains(&b'-') && !now.is_empty() && new.ends_with(tail) && at <= p {
                    let mid = &new[at..new.len() - tail.len().min(new.len() - at)];
                    return mid == [b"  ", now].concat();
                }
                false
            });
            if !ok {
                return fail(&format!("something else than the value ({} to {}) is changed", show(was), show(now)));
            }
        }
    }
    Ok(())
}

fn reread(cx: &mut Cx, doc: &Document, m: &M, libyaml: bool) -> Res {
    let text = bytes_of(doc);
    let again = match yaml::from_slice(&text) {
        Ok(d) => d,
        Err(e) => bail!("what is written is rejected with {e}: {}", show(&text)),
    };
    if let Some(e) = diff(m, &canon_doc(&again), true) {
        bail!("what is written reads differently: {e} in {}", show(&text));
    }
    cx.count("read back");
    if libyaml {
        // NB: libyaml doesn't accept empty values next to a comma.
        if text.windows(2).any(|w| matches!(w, b":," | b":}" | b":]")) {
            return Ok(());
        }
        match ly::read(&text) {
            Err(e) => bail!("what is written is not YAML according to libyaml: {e} in {}", show(&text)),
            Ok(l) => {
                if let Some(e) = ly::diff(m, &l, true) {
                    bail!("what is written reads differently: {e} in {}", show(&text));
                }
                cx.count("agreed with libyaml");
            }
        }
    }
    Ok(())
}

fn c12(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    o.limit(30);
    let blocks = case % 2 == 0;
    if blocks {
        o.comments = false;
        o.tidy = true;
        o.blocks = true;
        o.tabs = false;
    } else {
        o.blocks = false;
    }
    let libyaml = r.pct(60);
    if libyaml {
        o.compat = true;
        o.bytes = false;
        o.dups = false;
        o.tabs = false;
        o.header_line = false;
        o.gaps = false;
    }
    let d = gen::document(r, &o);
    let mut doc = parse(&d.text)?;
    let mut m = d.model;
    let mut cfg = Cfg::any(r);
    cfg.strict = true;
    cfg.blocks = blocks;
    cfg.compat = libyaml;
    let mut ops: Vec<Op> = Vec::new();
    cx.count(if blocks { "with block scalars" } else { "with comments" });
    for _ in 0..r.range(1, if cx.thorough { 20 } else { 10 }) {
        let op = edit::gen_op(r, &m, &cfg);
        if matches!(op.act, Act::MakeMap | Act::MakeSeq) && !op.path.is_empty() {
            cx.count("nested collections made");
        }
        ops.push(op.clone());
        cx.note(format!("{} {ops:?}", show(&d.text)));
        edit::step(&mut doc, &mut m, &op)?;
        reread(cx, &doc, &m, libyaml).map_err(|e| format!("after {op:?}: {e}"))?;
        cx.distinct(&bytes_of(&doc));
    }
    cx.sample(|| format!("{} then {ops:?} gives {}", show(&d.text), show(&bytes_of(&doc))));
    Ok(())
}

/// A place for a value: path of the collection or value, and how to put it there.
#[derive(Debug, Clone, Copy, PartialEq)]
enum How {
    Set,
    Push,
    Insert,
}

/// Pick where and how to put a scalar.
fn place(r: &mut Rng, m: &M, key: &[u8], sc: &Sc) -> Option<(Op, How, bool)> {
    let paths = m.paths();
    for _ in 0..40 {
        let path = r.pick(&paths).clone();
        let node = m.get(&path).unwrap();
        let pflow = edit::parent_of(m, &path).is_some_and(M::is_flow);
        let nav = r.below(6);
        let (act, how, flow) = match node {
            _ if r.pct(10) => (Act::Set(sc.clone()), How::Set, pflow),
            M::Map { flow, .. } => (Act::Insert(key.to_vec(), sc.clone()), How::Insert, *flow),
            M::Seq { flow, .. } => (Act::Push(sc.clone()), How::Push, *flow),
            _ => (Act::Set(sc.clone()), How::Set, pflow),
        };
        return Some((Op { path, nav, act }, how, flow));
    }
    None
}

fn target_doc(r: &mut Rng, tidy: bool) -> gen::Doc {
    let mut o = Opts::random(r);
    if !o.chain {
        o.nodes = *r.pick(&[1, 3, 8, 14]);
        o.depth = r.range(1, 4);
    }
    o.header = r.pct(10);
    if r.below(60) == 0 {
        o.grow(r);
    }
    if tidy {
        o.comments = false;
        o.tidy = true;
    } else {
        o.blocks = false;
    }
    gen::document(r, &o)
}

fn put(cx: &mut Cx, r: &mut Rng, sc: &Sc, tidy: bool) -> Res {
    let d = target_doc(r, tidy);
    let mut doc = parse(&d.text)?;
    let mut m = d.model;
    let key = format!("new{}", r.below(5)).into_bytes();
    let Some((op, how, flow)) = place(r, &m, &key, sc) else { return Ok(()) };
    cx.note(format!("{} {op:?}", show(&d.text)));
    if matches!((sc, how, flow), (Sc::Null(Null::Empty), How::Push | How::Set, true)) {
        return Ok(());
    }
    if op.path.is_empty() && how == How::Set {
        cx.count("at root");
    }
    if let Sc::Block(parts, _) = sc {
        if r.below(8) == 0 {
            // If there are no lines to be had after all, nothing happens.
            edit::PANIC_AT.set(Some(r.range(0, parts.len())));
            let res = guarded(|| edit::step(&mut doc, &mut m.clone(), &op).map(|_| ()));
            edit::PANIC_AT.set(None);
            check!(res.is_err(), "the lines of {op:?} panic, but it gives {res:?}");
            check!(bytes_of(&doc) == d.text, "lines which panic change the document to {}", show(&bytes_of(&doc)));
            if let Some(e) = diff(&m, &canon_doc(&doc), false) {
                bail!("lines which panic change the document: {e}");
            }
            cx.count("lines which panic");
        }
    }
    let done = edit::step(&mut doc, &mut m, &op)?;
    if let Some(e) = diff(&m, &canon_doc(&doc), false) {
        bail!("after {op:?}: {e}");
    }
    reread(cx, &doc, &m, true).map_err(|e| format!("after {op:?}: {e}"))?;
    if let (Sc::Block(..), Some(id)) = (sc, done.value) {
        // It's the very same unless what follows is part of it.
        let part = doc.value(id).to_string();
        let text = doc.to_string();
        let Some((path, _)) = edit::ids(&doc).into_iter().find(|(_, i)| *i == id) else {
            bail!("the value {id:?} is not part of the document");
        };
        let after = text.find(&part).map(|n| &text[n + part.len()..]);
        if text.matches(&part).count() == 1 && after.is_some_and(|t| t == "\n" || t.starts_with('\n') && !t[1..].trim_start_matches([' ', '\t', '\r']).starts_with(['\n', '#'])) {
            let again = parse(text.as_bytes())?;
            let (a, b) = (again.value(edit::id_at(&again, &path)?), doc.value(id));
            check!(a.as_str() == b.as_str(), "after {op:?}: {:?} is read as {:?}", b.as_str(), a.as_str());
            cx.count("read back exactly");
            cx.count(if part.starts_with(['|', '>']) { "as a block" } else { "quoted instead" });
        }
    }
    cx.count(if flow { "in flow" } else { "in block" });
    cx.count(match how {
        How::Set => "set",
        How::Push => "push",
        How::Insert => "insert",
    });
    if op.path.len() > 1 {
        cx.count("nested");
    }
    // Once read, it's the same as something which was there all along.
    let again = parse(&bytes_of(&doc))?;
    if let Some(e) = diff(&canon_doc(&again), &canon_doc(&parse(&bytes_of(&again))?), false) {
        bail!("reading twice differs: {e}");
    }
    cx.sample(|| format!("{} then {op:?} gives {}", show(&d.text), show(&bytes_of(&doc))));
    Ok(())
}

fn c13(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case == 1088 {
        // Every one of very many strings is itself.
        let all = super::many_strings(r.u64());
        let mut doc = yaml::from_slice("[]").map_err(|e| e.to_string())?;
        {
            let mut s = doc.as_mut().into_sequence_mut().ok_or("not a sequence")?;
            for t in &all {
                s.push_string(t);
            }
        }
        let s = doc.as_ref().as_sequence().ok_or("not a sequence")?;
        check!(s.len() == all.len(), "{} items instead of {}", s.len(), all.len());
        for (v, w) in s.iter().zip(&all) {
            check!(v.as_str() == Some(w), "{w:?} is {:?}", v.as_str());
        }
        let text = bytes_of(&doc);
        let again = parse(&text)?;
        let s = again.as_ref().as_sequence().ok_or("not a sequence when read back")?;
        check!(s.len() == all.len(), "{} items instead of {} when read back", s.len(), all.len());
        for (v, w) in s.iter().zip(&all) {
            check!(v.as_str() == Some(w), "{w:?} is {:?} when read back", v.as_str());
        }
        cx.add("distinct strings in one document", all.len() as u64);
        return Ok(());
    }
    if case < 1088 {
        // Every code point there is, a thousand at a time.
        let mut doc = yaml::from_slice("- x\n").map_err(|e| e.to_string())?;
        let mut want = vec!["x".to_owned()];
        {
            let mut s = doc.as_mut().into_sequence_mut().ok_or("not a sequence")?;
            for n in case * 1024..(case + 1) * 1024 {
                let Some(c) = char::from_u32(n as u32) else { continue };
                let t = match n % 4 {
                    0 => c.to_string(),
                    1 => format!("a{c}"),
                    2 => format!("a{c}b"),
                    _ => format!("{c}a"),
                };
                cx.note(format!("{t:?}"));
                s.push_string(&t);
                want.push(t);
            }
        }
        let text = bytes_of(&doc);
        let again = parse(&text)?;
        let got: Vec<Option<String>> = again
            .as_ref()
            .as_sequence()
            .ok_or("not a sequence when read back")?
            .iter()
            .map(|v| v.as_str().map(str::to_owned))
            .collect();
        for (i, w) in want.iter().enumerate() {
            check!(got.get(i) == Some(&Some(w.clone())), "{w:?} is read back as {:?}", got.get(i));
        }
        check!(got.len() == want.len(), "{} strings instead of {}", got.len(), want.len());
        match ly::read(&text) {
            Ok(ly::Ly::Seq(l)) => {
                for (w, l) in want.iter().zip(&l) {
                    if !matches!(l, ly::Ly::Str(s) if s == w.as_bytes()) {
                        bail!("{w:?} is read by libyaml as {l:?}");
                    }
                }
            }
            o => bail!("libyaml reads the code points from {} as {o:?}", case * 1024),
        }
        cx.add("every code point checked", want.len() as u64 - 1);
        cx.distinct(&case.to_le_bytes());
        return Ok(());
    }
    let s = edit::text(r);
    if s.chars().any(|c| !c.is_alphanumeric()) {
        cx.distinct(s.as_bytes());
    }
    if s.chars().any(char::is_control) {
        cx.count("control characters");
    }
    match r.below(8) {
        0..=3 => {
            let sc = Sc::Str(s);
            for n in ["set_string", "push_string", "insert_str"] {
                cx.count(n);
            }
            put(cx, r, &sc, false)
        }
        4 => {
            cx.count("double");
            put(cx, r, &Sc::StrWith(s, StringKind::Double), false)
        }
        5 => {
            // No control characters or line breaks.
            if s.chars().any(|c| c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}')) {
                return Ok(());
            }
            cx.count("single");
            put(cx, r, &Sc::StrWith(s, StringKind::Single), false)
        }
        6 => {
            let s = if crate::plain_ok(s.as_bytes(), true) && !s.chars().any(|c| c.is_control() || ('\u{2028}'..='\u{2029}').contains(&c) || matches!(c, '\u{feff}' | '\u{fffe}' | '\u{ffff}')) { s } else { edit::word(r) };
            if !crate::plain_ok(s.as_bytes(), true) {
                return Ok(());
            }
            cx.count("bare");
            put(cx, r, &Sc::StrWith(s, StringKind::Bare), false)
        }
        _ => {
            // As a key. Numbers are keys which libyaml reads as such.
            if edit::looks_numeric(&s) || s.len() > 250 {
                return Ok(());
            }
            let d = target_doc(r, false);
            let mut doc = parse(&d.text)?;
            let mut m = d.model;
            let maps: Vec<_> = m.paths().into_iter().filter(|p| matches!(m.get(p), Some(M::Map { .. }))).collect();
            if maps.is_empty() {
                return Ok(());
            }
            let path = r.pick(&maps).clone();
            let act = match r.below(3) {
                0 => Act::InsertSlot(s.into_bytes(), None, Sub::Set(Sc::U32(7))),
                1 => Act::Insert(s.into_bytes(), Sc::Str("v".into())),
                _ => Act::Insert(s.into_bytes(), Sc::Bool(true)),
            };
            let op = Op { path, nav: r.below(6), act };
            cx.note(format!("{} {op:?}", show(&d.text)));
            edit::step(&mut doc, &mut m, &op)?;
            cx.count("as key");
            reread(cx, &doc, &m, true).map_err(|e| format!("after {op:?}: {e}"))
        }
    }
}

fn c14(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let cfg = Cfg { strict: true, blocks: false, compat: true, maps: 1, seqs: 1, sets: 1, makes: 0, removes: 0 };
    let sc = loop {
        let sc = Sc::random(r, &cfg, false, false);
        if !matches!(sc, Sc::Str(_) | Sc::StrWith(..) | Sc::Block(..)) {
            break sc;
        }
    };
    let text = format!("{sc:?}");
    cx.distinct(text.as_bytes());
    let name = match &sc {
        Sc::Null(_) => "null",
        Sc::Bool(_) => "bool",
        Sc::U8(_) => "u8",
        Sc::I8(_) => "i8",
        Sc::U16(_) => "u16",
        Sc::I16(_) => "i16",
        Sc::U32(_) => "u32",
        Sc::I32(_) => "i32",
        Sc::U64(_) => "u64",
        Sc::I64(_) => "i64",
        Sc::U128(_) => "u128",
        Sc::I128(_) => "i128",
        Sc::F32(_) => "f32",
        Sc::F64(_) => "f64",
        _ => unreachable!(),
    };
    cx.count(name);
    // Read back with the accessor of its type, too.
    let d = target_doc(r, false);
    let mut doc = parse(&d.text)?;
    let mut m = d.model;
    let Some((op, how, flow)) = place(r, &m, b"typed", &sc) else { return Ok(()) };
    if matches!((&sc, how, flow), (Sc::Null(Null::Empty), How::Push | How::Set, true)) {
        return Ok(());
    }
    cx.note(format!("{} {op:?}", show(&d.text)));
    edit::step(&mut doc, &mut m, &op)?;
    let mut path = op.path.clone();
    match m.get(&path) {
        Some(M::Map { items, .. }) if how == How::Insert => {
            path.push(Step(items.iter().position(|(k, _)| k == b"typed").ok_or("not inserted")?));
        }
        Some(M::Seq { items, .. }) if how == How::Push => path.push(Step(items.len() - 1)),
        _ => {}
    }
    let again = parse(&bytes_of(&doc))?;
    sc.typed_ok(&again.value(edit::id_at(&again, &path)?)).map_err(|e| format!("when read back, {e}: {again}"))?;
    put(cx, r, &sc, false)
}

fn c15(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let n = if r.below(500) == 0 { r.range(100, 300) } else { r.range(1, 5) };
    let parts: Vec<String> = (0..n)
        .map(|_| loop {
            let t = if r.pct(50) { edit::text(r) } else { format!("{} {}", edit::word(r), edit::text(r)) };
            let t = t.trim_matches([' ', '\t']).to_owned();
            let odd = |c: char| c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}');
            if !t.is_empty() && !t.chars().any(odd) {
                break t;
            }
        })
        .collect();
    let c = edit::chomp(r);
    cx.count(match c {
        Chomp::Clip => "clip",
        Chomp::Strip => "strip",
        _ => "keep",
    });
    let odd = r.pct(25);
    if odd {
        cx.count("odd lines");
    }
    let literal = r.pct(60);
    cx.count(if literal { "literal" } else { "folded" });
    let mut parts = if odd { edit::odd_lines(r) } else { parts };
    if !odd && literal && r.pct(40) {
        // Lines are as they are in literal blocks, but what the first one starts
        // with is what the block is indented by.
        let last = parts.len() - 1;
        for (i, part) in parts.iter_mut().enumerate() {
            match r.below(6) {
                0 if i > 0 => part.insert_str(0, &spaces(r.range(1, 5))),
                1 => part.push_str(&spaces(r.range(1, 5))),
                2 if i > 0 && i < last => *part = spaces(r.below(5)),
                3 if i > 0 && i < last => part.clear(),
                _ => continue,
            }
            cx.count("lines with space");
        }
    }
    let sc = Sc::Block(parts, if literal { Block::Literal(c) } else { Block::Folded(c) });
    cx.distinct(format!("{sc:?}").as_bytes());
    put(cx, r, &sc, true)
}

/// The text which is replaced, and by what.
struct Frame {
    pre: usize,
    post: usize,
    mid: Vec<u8>,
    what: &'static str,
}

fn spaces(n: usize) -> String {
    " ".repeat(n)
}

/// Where an entry of a block collection starts.
fn start_of(s: &Sp, seq: bool) -> usize {
    if seq {
        s.ind - 1
    } else {
        s.key.0
    }
}

/// Column of the beginning of a collection.
fn column(text: &[u8], at: usize) -> usize {
    let n = text[..at].iter().rposition(|b| *b == b'\n').map_or(0, |n| n + 1);
    String::from_utf8_lossy(&text[n..at]).chars().count()
}

/// Predict what an edit does. `value` is how the value put is rendered, and
/// `key` how its key is.
fn predict(text: &[u8], m: &M, sp: &Sp, op: &Op, done: &Done, value: &[u8], key: &[u8]) -> Option<Frame> {
    let node = m.get(&op.path)?;
    let s = sp.get(&op.path);
    let pflow = edit::parent_of(m, &op.path).is_some_and(M::is_flow);
    match &op.act {
        Act::Set(sc) => set(text, node, s, sc, value, "set"),
        Act::Insert(_, sc) if done.replaced.is_some() => {
            let i = done.replaced?;
            let M::Map { items, .. } = node else { return None };
            set(text, &items[i].1, &s.kids[i], sc, value, "replace")
        }
        Act::Insert(..) | Act::InsertSlot(..) | Act::Push(..) | Act::PushSlot(..) => {
            if done.replaced.is_some() {
                return None;
            }
            let seq = matches!(node, M::Seq { .. });
            let (custom, empty) = match &op.act {
                Act::InsertSlot(_, sep, Sub::Set(sc)) | Act::PushSlot(sep, Sub::Set(sc)) => {
                    (sep.clone(), matches!(sc, Sc::Null(Null::Empty)))
                }
                Act::Insert(_, sc) | Act::Push(sc) => (None, matches!(sc, Sc::Null(Null::Empty))),
                _ => return None,
            };
            if empty {
                return None;
            }
            let flow = node.is_flow();
            let Some(last) = s.kids.last() else {
                if !flow {
                    return None;
                }
                // Nothing but the brackets.
                if s.span.1 - s.span.0 != 2 {
                    return None;
                }
                let mut mid = Vec::new();
                if !seq {
                    mid.extend_from_slice(key);
                    mid.push(b':');
                }
                mid.extend_from_slice(custom.as_deref().unwrap_or(if seq { "" } else { " " }).as_bytes());
                mid.extend_from_slice(value);
                return Some(Frame { pre: s.span.0 + 1, post: s.span.0 + 1, mid, what: "into empty flow" });
            };
            let mut at = last.span.1;
            let mut mid = Vec::new();
            if flow {
                // White space before a trailing comma belongs to the last one.
                at += text[at..s.span.1 - 1].iter().position(|b| *b == b',').unwrap_or(0);
                // Right before what precedes the bracket: a trailing comma, a
                // line break or nothing.
                if !text[last.span.1..s.span.1 - 1].iter().all(|b| b", \t\r\n".contains(b)) {
                    return None;
                }
                let from = if seq { last.ind } else { last.prev };
                // The whitespace before the last entry is used again.
                let start = if seq { last.span.0 } else { last.key.0 };
                let mut gap = &text[from..start];
                if gap.contains(&b'#') {
                    return None;
                }
                if s.kids.len() > 1 {
                    let c = gap.iter().position(|b| *b == b',');
                    if let Some(c) = c {
                        gap = &gap[c + 1..];
                    }
                }
                mid.push(b',');
                if gap.is_empty() {
                    mid.push(b' ');
                } else if is_ws(gap) {
                    mid.extend_from_slice(gap);
                } else {
                    mid.push(b' ');
                }
                if !seq {
                    mid.extend_from_slice(key);
                    mid.push(b':');
                }
                mid.extend_from_slice(custom.as_deref().unwrap_or(if seq { "" } else { " " }).as_bytes());
                mid.extend_from_slice(value);
            } else {
                mid.push(b'\n');
                mid.extend_from_slice(spaces(column(text, s.span.0)).as_bytes());
                if seq {
                    mid.push(b'-');
                    match &custom {
                        Some(c) => mid.extend_from_slice(c.as_bytes()),
                        None => {
                            // The same as that of the last item.
                            let gap = &text[last.ind..last.span.0];
                            let last_m = match node {
                                M::Seq { items, .. } => items.last()?,
                                _ => return None,
                            };
                            // That of something which is not a scalar is that
                            // of a nested collection.
                            if gap.is_empty() || !gap.iter().all(|b| *b == b' ') {
                                return None;
                            }
                            let _ = last_m;
                            mid.extend_from_slice(gap);
                        }
                    }
                } else {
                    mid.extend_from_slice(key);
                    mid.push(b':');
                    mid.extend_from_slice(custom.as_deref().unwrap_or(" ").as_bytes());
                }
                mid.extend_from_slice(value);
            }
            let what = match (&custom, seq, flow) {
                (Some(_), ..) => "custom separator",
                _ if flow && text[at] == b',' => "after trailing comma",
                _ if flow && text[at] != b']' && text[at] != b'}' => "before space",
                (_, true, true) => "push flow",
                (_, true, false) => "push block",
                (_, false, true) => "insert flow",
                (_, false, false) => "insert block",
            };
            Some(Frame { pre: at, post: at, mid, what })
        }
        Act::Remove(_) | Act::RemoveAt(_) => {
            let i = done.removed?;
            let seq = matches!(node, M::Seq { .. });
            if node.is_flow() {
                return None;
            }
            let k = &s.kids[i];
            if i > 0 {
                return Some(Frame { pre: k.prev, post: k.span.1, mid: Vec::new(), what: "remove block" });
            }
            if s.kids.len() > 1 {
                // What precedes the first one belongs to the collection.
                Some(Frame { pre: start_of(k, seq), post: k.span.1, mid: Vec::new(), what: "first remove block" })
            } else {
                Some(Frame { pre: lead(op, s), post: s.span.1, mid: Vec::new(), what: "last remove block" })
            }
        }
        Act::ClearMap | Act::ClearSeq => {
            if node.is_flow() {
                // Whitespace before the bracket stays.
                let from = s.kids.last().map_or(s.span.0 + 1, |k| k.span.1);
                let gap = &text[from..s.span.1 - 1];
                if gap.contains(&b'#') {
                    return None;
                }
                let gap = gap.iter().position(|b| *b == b',').map_or(gap, |n| &gap[n + 1..]);
                if !is_ws(gap) {
                    return None;
                }
                Some(Frame { pre: s.span.0 + 1, post: s.span.1 - 1 - gap.len(), mid: Vec::new(), what: "clear" })
            } else {
                Some(Frame { pre: lead(op, s), post: s.span.1, mid: Vec::new(), what: "clear" })
            }
        }
        Act::MakeMap | Act::MakeSeq => {
            let map = matches!(op.act, Act::MakeMap);
            if node.is_collection() && matches!(node, M::Map { .. }) == map {
                return Some(Frame { pre: 0, post: 0, mid: Vec::new(), what: "make" });
            }
            if !pflow || matches!(node, M::Null { empty: true }) {
                return None;
            }
            let mid = if map { b"{}".to_vec() } else { b"[]".to_vec() };
            Some(Frame { pre: s.span.0, post: s.span.1, mid, what: "make" })
        }
    }
}

/// Where what disappears with a block collection which becomes empty begins.
fn lead(op: &Op, s: &Sp) -> usize {
    if op.path.is_empty() {
        s.span.0
    } else {
        s.ind
    }
}

fn set(text: &[u8], old: &M, s: &Sp, sc: &Sc, value: &[u8], what: &'static str) -> Option<Frame> {
    // Blocks have trailing newlines.
    if matches!(old, M::Str { loose: true, .. }) {
        return None;
    }
    if matches!(sc, Sc::Null(Null::Empty)) {
        return None;
    }
    if matches!(old, M::Null { empty: true }) {
        let mut mid = vec![b' '];
        mid.extend_from_slice(value);
        return Some(Frame { pre: s.ind, post: s.ind, mid, what });
    }
    let mut mid = value.to_vec();
    // A sequence might be on the level of its key.
    if text[s.span.0..].starts_with(b"-") && matches!(old, M::Seq { .. }) && column(text, s.span.0) <= column(text, s.key.0) && s.key.1 > s.key.0 {
        mid = [b"  ", value].concat();
    }
    Some(Frame { pre: s.span.0, post: s.span.1, mid, what })
}

/// Something which is built inside of a document.
#[derive(Debug)]
enum Tree {
    Leaf(u32),
    Map(Vec<Tree>),
    Seq(Vec<Tree>),
}

impl Tree {
    fn new(r: &mut Rng, depth: usize) -> Tree {
        let n = r.range(1, 4);
        match r.below(if depth == 0 { 1 } else { 3 }) {
            0 => Tree::Leaf(r.below(1000) as u32),
            1 => Tree::Map((0..n).map(|_| Tree::new(r, depth - 1)).collect()),
            _ => Tree::Seq((0..n).map(|_| Tree::new(r, depth - 1)).collect()),
        }
    }
    fn build(&self, mut v: yaml::ValueMut<'_>) {
        match self {
            Tree::Leaf(n) => v.set_u32(*n),
            Tree::Map(items) => {
                let mut m = v.make_mapping();
                for (i, t) in items.iter().enumerate() {
                    t.build(m.insert(format!("k{i}"), yaml::Separator::Auto));
                }
            }
            Tree::Seq(items) => {
                let mut m = v.make_sequence();
                for t in items {
                    t.build(m.push(yaml::Separator::Auto));
                }
            }
        }
    }
    /// What is written inside of a collection in column `n`, the indentation of
    /// which is `like`.
    fn write(&self, in_seq: bool, like: &str, n: usize, out: &mut String) {
        if let Tree::Leaf(n) = self {
            out.push_str(&format!(" {n}"));
            return;
        }
        let like = if in_seq {
            out.push(' ');
            " ".to_string()
        } else {
            let mut s: String = like.chars().take(n + 2).map(|c| if c.is_whitespace() { c } else { ' ' }).collect();
            while s.chars().count() < n + 2 {
                s.push(' ');
            }
            out.push('\n');
            out.push_str(&s);
            s
        };
        self.items(&like, n + 2, out);
    }
    fn items(&self, like: &str, n: usize, out: &mut String) {
        let (Tree::Map(items) | Tree::Seq(items)) = self else { return };
        let seq = matches!(self, Tree::Seq(..));
        for (i, t) in items.iter().enumerate() {
            if i > 0 {
                out.push('\n');
                out.push_str(&spaces(n));
            }
            if seq {
                out.push('-');
            } else {
                out.push_str(&format!("k{i}:"));
            }
            t.write(seq, like, n, out);
        }
    }
}

fn has_loose(m: &M) -> bool {
    match m {
        M::Str { loose, .. } => *loose,
        M::Map { items, .. } => items.iter().any(|(_, m)| has_loose(m)),
        M::Seq { items, .. } => items.iter().any(has_loose),
        _ => false,
    }
}

/// Collections which are built where there is something else.
fn grow(cx: &mut Cx, r: &mut Rng, d: &gen::Doc) -> Res {
    let paths = d.model.paths();
    let path = r.pick(&paths).clone();
    let node = d.model.get(&path).unwrap();
    let s = d.sp.get(&path);
    let t = Tree::new(r, 3);
    let same = match t {
        Tree::Leaf(..) => true,
        Tree::Map(..) => matches!(node, M::Map { .. }),
        Tree::Seq(..) => matches!(node, M::Seq { .. }),
    };
    if same || has_loose(node) {
        return Ok(());
    }
    let mut mid = String::new();
    let pre;
    if let Some(parent) = edit::parent_of(&d.model, &path) {
        if parent.is_flow() {
            return Ok(());
        }
        let c = d.sp.get(&path[..path.len() - 1]);
        let from = if path.len() == 1 { 0 } else { c.ind };
        let gap = String::from_utf8_lossy(&d.text[from..c.span.0]).into_owned();
        let like = match gap.rsplit_once('\n') {
            Some((_, like)) => like,
            None if path.len() > 1 && gap.contains('\t') => return Ok(()),
            None => &gap,
        };
        pre = s.ind;
        t.write(matches!(parent, M::Seq { .. }), like, column(&d.text, c.span.0), &mut mid);
        if like.contains('\t') {
            cx.count("grown with tabs");
        }
    } else {
        if matches!(node, M::Null { empty: true }) {
            return Ok(());
        }
        pre = s.span.0;
        let line = d.text[..pre].iter().rposition(|b| *b == b'\n').map_or(0, |n| n + 1);
        let header = !d.text[line..pre].trim_ascii().is_empty();
        if header {
            mid.push('\n');
        }
        let like = if header { String::new() } else { String::from_utf8_lossy(&d.text[line..pre]).into_owned() };
        t.items(&like, like.chars().count(), &mut mid);
        cx.count("grown root");
    }
    let mut doc = parse(&d.text)?;
    cx.note(format!("{} {path:?} {t:?}", show(&d.text)));
    t.build(edit::value_at(&mut doc, &d.model, &path, r.below(8))?);
    let mut want = d.text[..pre].to_vec();
    want.extend_from_slice(mid.as_bytes());
    want.extend_from_slice(&d.text[s.span.1..]);
    let got = bytes_of(&doc);
    check!(got == want, "building {t:?} at {path:?} in {} should give {} but gives {}", show(&d.text), show(&want), show(&got));
    cx.count("grown");
    cx.distinct(&got);
    Ok(())
}

fn c17(cx: &mut Cx, _: u64, r: &mut Rng) -> Res {
    let mut o = Opts::wild(r);
    o.limit(30);
    o.bytes = false;
    let d = gen::document(r, &o);
    let mut cfg = Cfg::any(r);
    cfg.strict = true;
    cfg.removes = 8;
    grow(cx, r, &d)?;
    for _ in 0..4 {
        let mut op = edit::gen_op(r, &d.model, &cfg);
        if let Act::InsertSlot(_, Some(s), _) | Act::PushSlot(Some(s), _) = &mut op.act {
            // Whatever it is.
            if r.pct(30) {
                *s = (*r.pick(&["", "", "\t", "\n   ", " # c\n  ", "\u{a0}"])).to_owned();
                cx.count("odd separator");
            }
        }
        cx.note(format!("{} {op:?}", show(&d.text)));
        let mut doc = parse(&d.text)?;
        let mut m = d.model.clone();
        let done = edit::step(&mut doc, &mut m, &op)?;
        let value = done.value.map(|id| raw_of(&doc, id)).unwrap_or_default();
        // How a key is written doesn't depend on what is there.
        let key = match &op.act {
            Act::Insert(k, _) | Act::InsertSlot(k, ..) => {
                let flow = d.model.get(&op.path).is_some_and(M::is_flow);
                key_text(k, flow)?
            }
            _ => Vec::new(),
        };
        let Some(f) = predict(&d.text, &d.model, &d.sp, &op, &done, &value, &key) else { continue };
        let mut want = d.text[..f.pre].to_vec();
        want.extend_from_slice(&f.mid);
        want.extend_from_slice(&d.text[f.post..]);
        let got = bytes_of(&doc);
        check!(
            got == want,
            "{op:?} ({}) of {} should give {} but gives {}",
            f.what,
            show(&d.text),
            show(&want),
            show(&got)
        );
        cx.count(f.what);
        if op.path.len() > 1 && matches!(d.model.get(&op.path[..op.path.len() - 1]), Some(M::Seq { .. })) && done.added {
            cx.count("nested in sequence item");
        }
        cx.distinct(&got);
        cx.sample(|| format!("{op:?} of {} gives {}", show(&d.text), show(&got)));
    }
    Ok(())
}

/// How a key is written.
fn key_text(k: &[u8], flow: bool) -> Result<Vec<u8>, String> {
    let mut doc = yaml::from_slice(if flow { "{}" } else { "a: 1" }).map_err(|e| e.to_string())?;
    {
        let mut m = doc.as_mut().into_mapping_mut().ok_or("not a mapping")?;
        m.remove("a");
        m.insert_u32(k, 1);
    }
    let t = bytes_of(&doc);
    let t = t.strip_prefix(b"{").unwrap_or(&t);
    let t = t.strip_suffix(b"}").unwrap_or(t);
    t.strip_suffix(b": 1").map(<[u8]>::to_vec).ok_or_else(|| format!("unexpected {}", show(t)))
}
