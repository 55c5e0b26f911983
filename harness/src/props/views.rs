//! Reading through all of the views, identifiers, and clones.
use super::show;
use crate::edit::{self, bytes_of, id_at, Act, Cfg, Op, Sc};
use crate::fw::{Cx, Prop, Res};
use crate::gen::{self, Opts};
use crate::model::{canon, canon_doc, diff, Step, M};
use crate::rng::Rng;
use crate::soup;
use crate::{bail, check};
use bstr::{BStr, BString};
use nondestructive::yaml::{self, Any, AnyMut, Document, Id, Value};
use std::collections::{HashMap, HashSet, VecDeque};

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C08",
        run: c08,
        quick: 150_000,
        thorough: 9_000_000,
        rule: "a case is a document (generated, edited or hostile), every value of which is read through every view; \
               distinct by bytes and the iterator script, non-trivial if there is a collection",
        level: "exploration",
        assumptions: &["the forward iterators are checked against the generator's model for generated documents"],
        required: &[
            "mappings", "sequences", "iterator calls", "exhausted iterators", "after edits", "nth", "nth_back",
            "duplicate keys", "hostile documents", "very many values",
        ],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C16",
        run: c16,
        quick: 250_000,
        thorough: 15_000_000,
        rule: "a case is a history of edits, where every identifier is kept and resolved after every edit; distinct by \
               the operations of the history, non-trivial if something was removed or added",
        level: "exploration",
        assumptions: &["identifiers of removed values are not used again"],
        required: &["identifiers resolved", "values removed", "values added", "values replaced", "edits through identifiers"],
        enumerated: 0,
        threads: false,
    },
    Prop {
        id: "C18",
        run: c18,
        quick: 200_000,
        thorough: 12_000_000,
        rule: "a case is a history over a family of clones; distinct by the operations, non-trivial with at least two \
               clones which were edited",
        level: "exploration",
        assumptions: &[],
        required: &["clones", "edits", "others unchanged", "dropped", "clones onto others", "very many values"],
        enumerated: 0,
        threads: false,
    },
];

enum Pull {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Len,
}

fn script(r: &mut Rng, n: usize) -> Vec<Pull> {
    let calls = r.range(1, n + 4);
    (0..calls)
        .map(|_| match r.below(9) {
            0..=1 => Pull::Next,
            2..=3 => Pull::Back,
            4..=5 => Pull::Nth(if r.pct(8) { usize::MAX } else { r.below(n / 2 + 2) }),
            6..=7 => Pull::NthBack(if r.pct(8) { usize::MAX } else { r.below(n / 2 + 2) }),
            _ => Pull::Len,
        })
        .collect()
}

/// Drive an iterator from both ends, comparing it with a queue.
fn drive<T, K: PartialEq + std::fmt::Debug + Clone>(
    cx: &mut Cx,
    mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator,
    all: &[K],
    key: impl Fn(T) -> K,
    s: &[Pull],
) -> Res {
    let mut q: VecDeque<K> = all.iter().cloned().collect();
    for (i, p) in s.iter().enumerate() {
        cx.count("iterator calls");
        check!(
            it.len() == q.len() && it.size_hint() == (q.len(), Some(q.len())),
            "before call {i}, the iterator claims {:?} of {} remaining items",
            it.size_hint(),
            q.len()
        );
        let (want, got, name) = match p {
            Pull::Next => (q.pop_front(), it.next(), "next"),
            Pull::Back => (q.pop_back(), it.next_back(), "next_back"),
            Pull::Nth(n) => {
                for _ in 0..(*n).min(q.len()) {
                    q.pop_front();
                }
                cx.count("nth");
                (q.pop_front(), it.nth(*n), "nth")
            }
            Pull::NthBack(n) => {
                for _ in 0..(*n).min(q.len()) {
                    q.pop_back();
                }
                cx.count("nth_back");
                (q.pop_back(), it.nth_back(*n), "nth_back")
            }
            Pull::Len => continue,
        };
        if want.is_none() {
            cx.count("exhausted iterators");
        }
        let got = got.map(&key);
        check!(want == got, "call {i} ({name}) should give {want:?} but gives {got:?} (of {all:?})");
    }
    check!(it.len() == q.len(), "{} items remain instead of {}", it.len(), q.len());
    let rest: Vec<K> = it.map(&key).collect();
    check!(rest == Vec::from(q.clone()), "the rest is {rest:?} instead of {q:?}");
    Ok(())
}

fn views(cx: &mut Cx, doc: &Document, v: Value<'_>, m: &M, seen: &mut HashSet<Id>, edited: bool, r: &mut Rng) -> Res {
    let id = v.id();
    check!(seen.insert(id), "two values are identified by {id:?}");
    check!(doc.value(id).id() == id, "the value of an identifier has another identifier");
    // Exactly one of the views is there, and it's the same through as_any and
    // into_any.
    let (is_map, is_seq) = (v.as_mapping().is_some(), v.as_sequence().is_some());
    let (is_num, is_bool, is_str) = (v.as_number().is_some(), v.as_bool().is_some(), v.as_bstr().is_some());
    let null = doc.value(id).as_any().is_null();
    let n = [is_map, is_seq, is_num, is_bool, is_str, null].iter().filter(|v| **v).count();
    check!(n == 1, "{n} views are available of {v}");
    check!(doc.value(id).into_number().is_some() == is_num, "into_number and as_number differ for {v}");
    check!(v.as_any().into_number().is_some() == is_num, "Any::into_number and as_number differ for {v}");
    check!(v.as_any().into_bool() == v.as_bool(), "Any::into_bool and as_bool differ for {v}");
    check!(v.as_any().into_string().is_some() == is_str, "Any::into_string and as_bstr differ for {v}");
    check!(
        v.as_str() == v.as_bstr().and_then(|s| std::str::from_utf8(s).ok()),
        "as_str and as_bstr differ for {v}"
    );
    let (dbg, shown) = (format!("{v:?}"), v.to_string());
    let front = dbg.strip_suffix(')').and_then(|d| d.strip_suffix(&shown[..])).and_then(|d| d.strip_prefix("Value("));
    // In front is whatever precedes the value.
    check!(front.is_some(), "{shown:?} debugs as {dbg:?}");
    let a = canon(doc.value(id));
    check!(a == canon(v_of(doc, id)), "reading the same value twice differs");
    if let Some(e) = diff(m, &a, false) {
        bail!("{e}");
    }
    match v.as_any() {
        Any::Mapping(map) => {
            check!(is_map && map.id() == id, "the identifier of a mapping is not that of its value");
            let M::Map { items, .. } = m else { bail!("expected {} but got the mapping {map}", m.show()) };
            cx.count("mappings");
            let all: Vec<(Vec<u8>, Id)> = map.iter().map(|(k, v)| (k.to_vec(), v.id())).collect();
            let k: Vec<_> = all.iter().map(|(k, _)| k).collect();
            check!(k.iter().copied().eq(items.iter().map(|(k, _)| k)), "the keys are {k:?} in {map}");
            check!(map.len() == items.len() && map.is_empty() == items.is_empty(), "{} entries claimed in {map}", map.len());
            for s in [script(r, all.len()), script(r, all.len())] {
                drive(cx, map.iter(), &all, |(k, v)| (k.to_vec(), v.id()), &s)?;
            }
            drive(cx, (&map).into_iter(), &all, |(k, v)| (k.to_vec(), v.id()), &[])?;
            drive(cx, v.as_mapping().unwrap().into_iter(), &all, |(k, v)| (k.to_vec(), v.id()), &[])?;
            let mut back: Vec<_> = map.iter().rev().map(|(k, v)| (k.to_vec(), v.id())).collect();
            back.reverse();
            check!(back == all, "iterating backwards is not the reverse");
            let mut first: HashMap<&[u8], Id> = HashMap::new();
            for (k, id) in &all {
                if first.contains_key(&k[..]) {
                    cx.count("duplicate keys");
                }
                first.entry(k).or_insert(*id);
            }
            for (k, id) in &first {
                if let Ok(k) = std::str::from_utf8(k) {
                    let got = map.get(k).map(|v| v.id());
                    check!(got == Some(*id), "get({k:?}) gives {got:?} instead of {id:?}");
                }
            }
            let mut others = vec![String::new(), "no such key".into(), "\0".into(), edit::text(r), edit::text(r)];
            for (k, _) in all.iter().take(40) {
                others.push(edit::near(r, k));
            }
            for k in &others {
                cx.count(if first.contains_key(k.as_bytes()) { "other keys found" } else { "other keys missed" });
                let want = first.get(k.as_bytes()).copied();
                let got = map.get(k).map(|v| v.id());
                check!(got == want, "get({k:?}) gives {got:?} instead of {want:?}");
            }
            let kv = |k: &[u8], id: Id| (BStr::new(k).to_owned(), doc.value(id));
            let want = Listed(all.iter().map(|(k, id)| kv(k, *id)).collect(), true);
            let dbg = format!("{map:?}");
            check!(dbg == format!("{want:?}"), "a mapping debugs as {dbg} instead of {want:?}");
            let kids: Vec<(Id, &M)> = all.iter().map(|(_, id)| *id).zip(items.iter().map(|(_, m)| m)).collect();
            for (id, m) in kids {
                views(cx, doc, doc.value(id), m, seen, edited, r)?;
            }
        }
        Any::Sequence(seq) => {
            check!(is_seq && seq.id() == id, "the identifier of a sequence is not that of its value");
            let M::Seq { items, .. } = m else { bail!("expected {} but got the sequence {seq}", m.show()) };
            cx.count("sequences");
            let all: Vec<Id> = seq.iter().map(|v| v.id()).collect();
            check!(
                all.len() == items.len() && seq.len() == items.len() && seq.is_empty() == items.is_empty(),
                "{} items claimed, {} there, in {seq}",
                seq.len(),
                all.len()
            );
            for s in [script(r, all.len()), script(r, all.len())] {
                drive(cx, seq.iter(), &all, |v| v.id(), &s)?;
            }
            drive(cx, (&seq).into_iter(), &all, |v| v.id(), &[])?;
            drive(cx, v.as_sequence().unwrap().into_iter(), &all, |v| v.id(), &[])?;
            let mut back: Vec<_> = seq.iter().rev().map(|v| v.id()).collect();
            back.reverse();
            check!(back == all, "iterating backwards is not the reverse");
            for i in (0..all.len() + 3).chain([usize::MAX, usize::MAX / 2]) {
                let got = seq.get(i).map(|v| v.id());
                check!(got == all.get(i).copied(), "get({i}) of {} items gives {got:?}", all.len());
            }
            check!(seq.first().map(|v| v.id()) == all.first().copied(), "first of {seq}");
            check!(seq.last().map(|v| v.id()) == all.last().copied(), "last of {seq}");
            let want = Listed(all.iter().map(|id| (BString::from(""), doc.value(*id))).collect(), false);
            let dbg = format!("{seq:?}");
            check!(dbg == format!("{want:?}"), "a sequence debugs as {dbg} instead of {want:?}");
            for (id, m) in all.into_iter().zip(items) {
                views(cx, doc, doc.value(id), m, seen, edited, r)?;
            }
        }
        Any::String(s) => {
            check!(is_str && v.as_bstr().map(|b| b.to_vec()) == Some(s.to_vec()), "the string view differs");
            let (dbg, want) = (format!("{s:?}"), format!("{:?}", v.as_bstr().unwrap_or_default()));
            check!(dbg == want, "the string {want} debugs as {dbg}");
            // The raw text of a string is how it is rendered, or what was
            // inserted.
            let raw = String::from_utf8_lossy(s.as_raw()).into_owned();
            let text = v.to_string();
            if !text.starts_with(['|', '>']) {
                check!(raw == text || s.as_raw() == &*s && edited, "the raw text is {raw:?}, but it is displayed as {text:?}");
            }
        }
        Any::Number(n) => {
            check!(String::from_utf8_lossy(n.as_raw()) == v.to_string(), "raw number of {v} is {:?}", n.as_raw());
            check!(format!("{n:?}") == v.to_string(), "the number {v} debugs as {n:?}");
        }
        Any::Bool(b) => check!(v.as_bool() == Some(b), "the boolean view differs"),
        Any::Null => check!(null, "the null view differs"),
        o => bail!("unexpected view {o:?}"),
    }
    cx.count("values");
    Ok(())
}

/// What is expected of the debug output of a collection.
struct Listed<'a>(Vec<(BString, Value<'a>)>, bool);

impl std::fmt::Debug for Listed<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 {
            f.debug_map().entries(self.0.iter().map(|(k, v)| (BStr::new(&k[..]), v))).finish()
        } else {
            f.debug_list().entries(self.0.iter().map(|(_, v)| v)).finish()
        }
    }
}

fn v_of(doc: &Document, id: Id) -> Value<'_> {
    doc.value(id)
}

/// The mutable views show the same thing.
fn mut_views(doc: &mut Document, r: &mut Rng) -> Res {
    for (path, id) in edit::ids(doc) {
        let want = canon(doc.value(id));
        let shown = doc.value(id).to_string();
        let mut v = doc.value_mut(id);
        check!(v.as_ref().id() == id && canon(v.as_ref()) == want, "ValueMut::as_ref differs at {path:?}");
        match &want {
            M::Map { items, .. } => {
                {
                    let Some(mut m) = v.as_mapping_mut() else { bail!("as_mapping_mut gives nothing at {path:?}") };
                    check!(m.as_ref().id() == id && m.as_ref().to_string() == shown, "MappingMut::as_ref differs at {path:?}");
                    let mut seen = HashSet::new();
                    for (k, w) in items {
                        let Ok(k) = std::str::from_utf8(k) else { continue };
                        if seen.insert(k) {
                            let Some(x) = m.get_mut(k) else { bail!("get_mut({k:?}) gives nothing at {path:?}") };
                            check!(canon(x.as_ref()) == *w, "get_mut({k:?}) differs at {path:?}");
                        }
                    }
                    check!(m.get_mut("\u{1}no such key").is_none(), "get_mut of a missing key");
                    for (k, _) in items.iter().take(20) {
                        let k = edit::near(r, k);
                        let got = m.get_mut(&k).map(|x| canon(x.as_ref()));
                        let want = items.iter().find(|(o, _)| o == k.as_bytes()).map(|(_, w)| w);
                        check!(got.as_ref() == want, "get_mut({k:?}) gives {got:?} at {path:?}");
                    }
                    check!(m.into_ref().id() == id, "MappingMut::into_ref differs at {path:?}");
                }
                check!(v.as_sequence_mut().is_none(), "a mapping as a sequence");
            }
            M::Seq { items, .. } => {
                {
                    let Some(mut s) = v.as_sequence_mut() else { bail!("as_sequence_mut gives nothing at {path:?}") };
                    check!(s.as_ref().id() == id && s.as_ref().to_string() == shown, "SequenceMut::as_ref differs at {path:?}");
                    for (i, w) in items.iter().enumerate() {
                        let Some(x) = s.get_mut(i) else { bail!("get_mut({i}) gives nothing at {path:?}") };
                        check!(canon(x.as_ref()) == *w, "get_mut({i}) differs at {path:?}");
                    }
                    check!(s.get_mut(items.len()).is_none() && s.get_mut(usize::MAX).is_none(), "get_mut out of bounds");
                    check!(s.into_ref().id() == id, "SequenceMut::into_ref differs at {path:?}");
                }
                check!(v.as_mapping_mut().is_none(), "a sequence as a mapping");
            }
            _ => {
                check!(
                    v.as_mapping_mut().is_none() && v.as_sequence_mut().is_none(),
                    "a scalar as a collection at {path:?}"
                );
            }
        }
        // The ones which consume the view they are given.
        match &want {
            M::Map { items, .. } => {
                let mut first: HashMap<&[u8], &M> = HashMap::new();
                for (k, w) in items {
                    first.entry(k).or_insert(w);
                }
                for (k, w) in first {
                    let Ok(k) = std::str::from_utf8(k) else { continue };
                    let got = v.as_mapping_mut().and_then(|m| m.get_into_mut(k)).map(|x| canon(x.into_ref()));
                    check!(got.as_ref() == Some(w), "get_into_mut({k:?}) is {got:?} at {path:?}");
                }
                for (k, _) in items.iter().take(20) {
                    let k = edit::near(r, k);
                    let got = v.as_mapping_mut().and_then(|m| m.get_into_mut(&k)).map(|x| canon(x.into_ref()));
                    let want = items.iter().find(|(o, _)| o == k.as_bytes()).map(|(_, w)| w);
                    check!(got.as_ref() == want, "get_into_mut({k:?}) gives {got:?} at {path:?}");
                }
                let got = v.as_mapping_mut().and_then(|m| m.get_into_mut("\u{1}no such key")).map(|v| v.as_ref().id());
                check!(got.is_none(), "get_into_mut of a missing key is {got:?}");
            }
            M::Seq { items, .. } => {
                for (i, w) in items.iter().enumerate() {
                    let got = v.as_sequence_mut().and_then(|s| s.get_into_mut(i)).map(|x| canon(x.into_ref()));
                    check!(got.as_ref() == Some(w), "get_into_mut({i}) is {got:?} at {path:?}");
                }
                for i in [items.len(), items.len() + 1, usize::MAX] {
                    let got = v.as_sequence_mut().and_then(|s| s.get_into_mut(i)).map(|v| v.as_ref().id());
                    check!(got.is_none(), "get_into_mut({i}) of {} items is {got:?}", items.len());
                }
            }
            _ => {}
        }
        check!(v.into_ref().id() == id, "ValueMut::into_ref differs at {path:?}");
        check!(doc.value_mut(id).into_mapping_mut().is_some() == matches!(want, M::Map { .. }), "into_mapping_mut at {path:?}");
        check!(doc.value_mut(id).into_sequence_mut().is_some() == matches!(want, M::Seq { .. }), "into_sequence_mut at {path:?}");
        let any = doc.value_mut(id).into_any_mut();
        check!(any.id() == id, "AnyMut::id differs at {path:?}");
        let ok = match (&any, &want) {
            (AnyMut::Mapping(m), M::Map { items, .. }) => m.as_ref().len() == items.len(),
            (AnyMut::Sequence(s), M::Seq { items, .. }) => s.as_ref().len() == items.len(),
            (AnyMut::Scalar(s), m) => !m.is_collection() && s.as_ref().id() == id,
            _ => false,
        };
        check!(ok, "into_any_mut differs at {path:?}");
    }
    Ok(())
}

/// Views of collections of more values than 16 bits can number.
fn many_views(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, m) = super::many_values(r);
    let Ok(doc) = yaml::from_slice(text) else { bail!("rejected a document of many values") };
    let (Some(M::Seq { items, .. }), Some(M::Map { items: entries, .. })) = (m.get(&[Step(0)]), m.get(&[Step(1)])) else {
        bail!("harness: no collections")
    };
    let root = doc.as_ref().as_mapping().ok_or("not a mapping")?;
    let seq = root.get("s").and_then(|v| v.as_sequence()).ok_or("no sequence")?;
    let map = root.get("m").and_then(|v| v.as_mapping()).ok_or("no mapping")?;
    check!(seq.len() == items.len() && map.len() == entries.len(), "{} items and {} entries", seq.len(), map.len());
    let text = |m: &M| match m {
        M::Str { s, .. } => s.clone(),
        M::Num(n) => n.clone().into_bytes(),
        _ => Vec::new(),
    };
    let at = |v: Value<'_>| v.to_string().trim().as_bytes().to_vec();
    let all: Vec<Vec<u8>> = items.iter().map(text).collect();
    let n = all.len();
    // A few calls, with long ways in between them.
    let far = |r: &mut Rng| {
        let s: Vec<Pull> = (0..r.range(2, 12))
            .map(|_| match r.below(6) {
                0 => Pull::Next,
                1 => Pull::Back,
                2 | 3 => Pull::Nth(*r.pick(&[255, 256, 4096, 32_768, 65_535, 65_536, 9_999])),
                4 => Pull::NthBack(*r.pick(&[255, 256, 4096, 32_768, 65_535, 65_536, 9_999])),
                _ => Pull::Len,
            })
            .collect();
        s
    };
    let short = |e: String| e.chars().take(300).collect::<String>();
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = entries.iter().map(|(k, v)| (k.clone(), text(v))).collect();
    for _ in 0..4 {
        drive(cx, seq.iter(), &all, at, &far(r)).map_err(short)?;
        drive(cx, map.iter(), &pairs, |(k, v)| (k.to_vec(), at(v)), &far(r)).map_err(short)?;
    }
    let places: Vec<usize> = [0, 1, 255, 256, 4095, 4096, 32_767, 32_768, 65_535, 65_536, n - 1, n, n + 1, n + 65_536]
        .into_iter()
        .chain((0..100).map(|_| r.below(n)))
        .collect();
    for i in places {
        let got = seq.get(i).map(at);
        check!(got.as_ref() == all.get(i), "item {i} of {n} is {got:?}");
        let got = map.get(&format!("k{i}")).map(at);
        check!(got.as_ref() == pairs.get(i).map(|(_, v)| v), "the entry k{i} of {n} is {got:?}");
    }
    check!(seq.first().map(at).as_ref() == all.first() && seq.last().map(at).as_ref() == all.last(), "the ends are others");
    cx.count("very many values");
    Ok(())
}

fn c08(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 100_000 == 5 {
        return many_views(cx, r);
    }
    let (mut doc, mut m, text) = if case % 5 == 4 {
        let (text, _) = soup::hostile(r);
        let Ok(doc) = yaml::from_slice(&text) else { return Ok(()) };
        cx.count("hostile documents");
        let m = canon_doc(&doc);
        (doc, m, text)
    } else {
        let mut o = Opts::wild(r);
        o.limit(60);
        if case % 100 == 0 {
            o.nodes = 300;
        }
        let d = gen::document(r, &o);
        let Ok(doc) = yaml::from_slice(&d.text) else { bail!("rejected {}", show(&d.text)) };
        (doc, d.model, d.text)
    };
    cx.note(show(&text));
    let before = bytes_of(&doc);
    views(cx, &doc, doc.as_ref(), &m, &mut HashSet::new(), false, r).map_err(|e| format!("{e} in {}", show(&text)))?;
    mut_views(&mut doc, r).map_err(|e| format!("{e} in {}", show(&text)))?;
    check!(bytes_of(&doc) == before, "reading {} changed it to {}", show(&before), show(&bytes_of(&doc)));
    if m.is_collection() {
        cx.distinct(&text);
    }
    if case % 5 != 4 {
        let cfg = Cfg::any(r);
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 6) {
            let op = edit::gen_op(r, &m, &cfg);
            ops.push(op.clone());
            cx.note(format!("{} {ops:?}", show(&text)));
            edit::step(&mut doc, &mut m, &op)?;
        }
        views(cx, &doc, doc.as_ref(), &m, &mut HashSet::new(), true, r).map_err(|e| format!("{e} in {doc}"))?;
        mut_views(&mut doc, r).map_err(|e| format!("{e} in {doc}"))?;
        cx.count("after edits");
    }
    cx.sample(|| format!("{} ({} values)", show(&text), m.nodes()));
    Ok(())
}

/// Where a value which was at `path` is after an edit, if it still exists.
pub fn moved(path: &[Step], op: &Op, done: &edit::Done, made: bool) -> Option<Vec<Step>> {
    let Some(rest) = path.strip_prefix(&op.path[..]) else {
        return Some(path.to_vec());
    };
    if rest.is_empty() {
        return Some(path.to_vec());
    }
    let i = rest[0].0;
    match &op.act {
        Act::Set(_) | Act::ClearMap | Act::ClearSeq => None,
        // Nothing happens if it's already one.
        Act::MakeMap | Act::MakeSeq => (!made).then(|| path.to_vec()),
        Act::Remove(_) | Act::RemoveAt(_) => match done.removed {
            Some(n) if n == i => None,
            Some(n) if n < i => {
                let mut p = path.to_vec();
                p[op.path.len()].0 -= 1;
                Some(p)
            }
            _ => Some(path.to_vec()),
        },
        // What is overwritten stays the same value.
        Act::Insert(..) | Act::InsertSlot(..) => (done.replaced != Some(i) || rest.len() == 1).then(|| path.to_vec()),
        Act::Push(_) | Act::PushSlot(..) => Some(path.to_vec()),
    }
}

/// Whether making a collection replaces whatever is there.
pub fn makes(m: &M, op: &Op) -> bool {
    match (&op.act, m.get(&op.path)) {
        (Act::MakeMap, Some(M::Map { .. })) | (Act::MakeSeq, Some(M::Seq { .. })) => false,
        (Act::MakeMap | Act::MakeSeq, _) => true,
        _ => false,
    }
}

fn c16(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case == 3 {
        return many_ids(cx, r);
    }
    let mut o = Opts::wild(r);
    o.limit(30);
    let d = gen::document(r, &o);
    let Ok(mut doc) = yaml::from_slice(&d.text) else { bail!("rejected {}", show(&d.text)) };
    let mut m = d.model;
    let mut cfg = Cfg::any(r);
    cfg.removes += 4;
    // Identifiers which were handed out, and where they belong.
    let mut held: Vec<(Vec<Step>, Id)> = edit::ids(&doc);
    let mut ops: Vec<Op> = Vec::new();
    let steps = if cx.thorough { r.range(1, 40) } else { r.range(1, 16) };
    let mut sig = Vec::new();
    for _ in 0..steps {
        let mut op = edit::gen_op(r, &m, &cfg);
        // Use an identifier which was handed out a while ago.
        let mut by_id = None;
        if r.pct(50) {
            by_id = held.iter().find(|(p, _)| *p == op.path).map(|(_, id)| *id);
            op.nav = 0;
        }
        ops.push(op.clone());
        cx.note(format!("{} {ops:?}", show(&d.text)));
        if let Some(id) = by_id {
            let now = id_at(&doc, &op.path)?;
            check!(now == id, "{:?} was {id:?}, but now is {now:?}", op.path);
            cx.count("edits through identifiers");
        }
        let made = makes(&m, &op);
        let live: HashSet<Id> = held.iter().map(|(_, id)| *id).collect();
        let done = edit::step(&mut doc, &mut m, &op)?;
        let n = held.len();
        held = held.into_iter().filter_map(|(p, id)| Some((moved(&p, &op, &done, made)?, id))).collect();
        cx.add("values removed", (n - held.len()) as u64);
        if done.replaced.is_some() {
            cx.count("values replaced");
        }
        for (p, id) in &held {
            let v = doc.value(*id);
            check!(v.id() == *id, "resolving {id:?} gives another identifier");
            let Some(w) = m.get(p) else { bail!("harness: nothing at {p:?}") };
            if let Some(e) = diff(w, &canon(v), false) {
                bail!("{id:?}, which is {p:?}, resolves to something else after {op:?}: {e}");
            }
            check!(id_at(&doc, p)? == *id, "the identifier of {p:?} changed by {op:?}");
            cx.count("identifiers resolved");
        }
        // As text they are just as different.
        let shown: HashSet<String> = held.iter().map(|(_, id)| id.to_string()).collect();
        check!(shown.len() == held.len(), "{} identifiers are displayed as {shown:?}", held.len());
        // New values have new identifiers.
        let known: HashSet<Id> = held.iter().map(|(_, id)| *id).collect();
        let now = edit::ids(&doc);
        let mut all = HashSet::new();
        for (p, id) in now {
            check!(all.insert(id), "{id:?} identifies two values after {op:?}");
            if !known.contains(&id) {
                // If it was in use until just now it was that of something
                // which has been removed.
                check!(!held.iter().any(|(_, h)| *h == id), "{id:?} is reused");
                if !live.contains(&id) {
                    cx.count("values added");
                }
                held.push((p, id));
            }
        }
        check!(all.len() == held.len(), "{} values, but {} identifiers are in use", all.len(), held.len());
        sig.extend_from_slice(op.act.name().as_bytes());
        sig.push(op.path.len() as u8);
    }
    cx.distinct(&sig);
    cx.sample(|| format!("{} then {ops:?}, {} identifiers", show(&d.text), held.len()));
    Ok(())
}

/// Identifiers in documents of more values than 16 bits can number.
fn many_ids(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, mut m) = super::many_values(r);
    let Ok(mut doc) = yaml::from_slice(text) else { bail!("rejected a document of many values") };
    let mut held = edit::ids(&doc);
    let all: HashSet<Id> = held.iter().map(|(_, id)| *id).collect();
    check!(all.len() == held.len() && held.len() == m.nodes(), "{} identifiers for {} values", all.len(), m.nodes());
    let shown: HashSet<String> = held.iter().map(|(_, id)| id.to_string()).collect();
    check!(shown.len() == held.len(), "{} identifiers are displayed in {} ways", held.len(), shown.len());
    for (p, id) in &held {
        let (Some(w), v) = (m.get(p), doc.value(*id)) else { bail!("harness: nothing at {p:?}") };
        check!(v.id() == *id, "resolving {id:?} gives another identifier");
        if w.is_collection() {
            continue;
        }
        if let Some(e) = diff(w, &canon(v), false) {
            bail!("{id:?}, which is {p:?}, resolves to something else: {e}");
        }
        cx.count("identifiers resolved");
    }
    // Those which stay still do when others come and go.
    for i in 0..8u32 {
        let at = r.below(65_000);
        let gone = doc.as_mut().into_mapping_mut().and_then(|m| m.get_into_mut("s")).and_then(|v| v.into_sequence_mut()).is_some_and(|mut s| s.remove(at));
        check!(gone, "removing index {at} of many");
        let Some(M::Seq { items, .. }) = m.get_mut(&[Step(0)]) else { bail!("harness: no sequence") };
        items.remove(at);
        held.retain(|(p, _)| *p != [Step(0), Step(at)]);
        for (p, _) in &mut held {
            if p.len() == 2 && p[0].0 == 0 && p[1].0 > at {
                p[1].0 -= 1;
            }
        }
        let (p, id) = r.pick(&held[200..]).clone();
        if p.len() == 2 {
            doc.value_mut(id).set_u32(i);
            *m.get_mut(&p).ok_or("harness")? = M::Num(i.to_string());
        }
        let made = doc.as_mut().into_mapping_mut().and_then(|m| m.get_into_mut("s")).and_then(|v| v.into_sequence_mut()).map(|mut s| {
            s.push_u32(i);
            s.as_ref().len()
        });
        check!(made.is_some(), "nothing to push to");
        let Some(M::Seq { items, .. }) = m.get_mut(&[Step(0)]) else { bail!("harness: no sequence") };
        items.push(M::Num(i.to_string()));
        let now = edit::ids(&doc);
        let before: HashMap<Id, &Vec<Step>> = held.iter().map(|(p, id)| (*id, p)).collect();
        let mut new = Vec::new();
        for (p, id) in now {
            match before.get(&id) {
                Some(q) => check!(**q == p, "{id:?} was at {q:?}, but now is at {p:?}"),
                None => new.push((p, id)),
            }
        }
        check!(new.len() == 1, "{} new identifiers for one new value", new.len());
        held.extend(new);
    }
    if let Some(e) = diff(&m, &canon(doc.as_ref()), false) {
        bail!("with more than 65536 values: {e}");
    }
    cx.max("values in a document", held.len() as u64);
    Ok(())
}

/// Clones of documents of more values than 16 bits can number.
fn many_cloned(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, mut m) = super::many_values(r);
    let Ok(mut doc) = yaml::from_slice(text) else { bail!("rejected a document of many values") };
    for i in 0..3 {
        let mut copy = doc.clone();
        let (ids, text) = (edit::ids(&doc), bytes_of(&doc));
        check!(edit::ids(&copy) == ids && bytes_of(&copy) == text, "clone {i} of many values isn't the same");
        let mut n = m.clone();
        for j in 0..6 {
            let at = r.below(60_000);
            let (path, act) = match j % 3 {
                0 => (vec![Step(0), Step(at)], Act::Set(Sc::U32(7))),
                1 => (vec![Step(0)], Act::RemoveAt(at)),
                _ => (vec![Step(1)], Act::Remove(format!("k{at}").into_bytes())),
            };
            edit::step(&mut copy, &mut n, &Op { path, nav: 0, act })?;
        }
        check!(edit::ids(&doc) == ids && bytes_of(&doc) == text, "editing clone {i} of many values changed the original");
        if let Some(e) = diff(&n, &canon(copy.as_ref()), false) {
            bail!("in a clone of many values: {}", e.chars().take(300).collect::<String>());
        }
        if r.pct(50) {
            (doc, m) = (copy, n);
        }
    }
    cx.count("very many values");
    Ok(())
}

fn c18(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    if case % 100_000 == 5 {
        return many_cloned(cx, r);
    }
    let mut o = Opts::wild(r);
    o.limit(24);
    let d = gen::document(r, &o);
    let Ok(doc) = yaml::from_slice(&d.text) else { bail!("rejected {}", show(&d.text)) };
    struct Copy {
        doc: Document,
        m: M,
        bytes: Vec<u8>,
        ids: Vec<(Vec<Step>, Id)>,
    }
    let mut all = vec![Copy { bytes: bytes_of(&doc), ids: edit::ids(&doc), doc, m: d.model }];
    // One which has nothing to do with it.
    let other = gen::document(r, &o);
    let Ok(doc) = yaml::from_slice(&other.text) else { bail!("rejected {}", show(&other.text)) };
    all.push(Copy { bytes: bytes_of(&doc), ids: edit::ids(&doc), doc, m: other.model });
    let cfg = Cfg::any(r);
    let mut log: Vec<String> = Vec::new();
    let mut sig = Vec::new();
    for _ in 0..r.range(3, if cx.thorough { 30 } else { 14 }) {
        let i = r.below(all.len());
        match r.below(10) {
            0..=2 if all.len() < 6 => {
                log.push(format!("clone {i}"));
                let c = all[i].doc.clone();
                check!(bytes_of(&c) == all[i].bytes, "a clone of {} is {}", show(&all[i].bytes), show(&bytes_of(&c)));
                check!(edit::ids(&c) == all[i].ids, "the identifiers in a clone are not the same");
                check!(format!("{:?}", c.as_ref()) == format!("{:?}", all[i].doc.as_ref()), "a clone debugs differently");
                let c = Copy { doc: c, m: all[i].m.clone(), bytes: all[i].bytes.clone(), ids: all[i].ids.clone() };
                all.push(c);
                cx.count("clones");
                sig.push(1);
            }
            3 if all.len() > 1 => {
                log.push(format!("drop {i}"));
                all.swap_remove(i);
                cx.count("dropped");
                sig.push(2);
            }
            4 if all.len() > 1 => {
                let j = r.below(all.len());
                if i != j {
                    log.push(format!("{i}.clone_from({j})"));
                    let (m, ids) = (all[j].m.clone(), all[j].ids.clone());
                    let from = all[j].doc.clone();
                    all[i].doc.clone_from(&from);
                    drop(from);
                    let b = bytes_of(&all[i].doc);
                    check!(b == all[j].bytes, "a clone of {} onto {} is {}", show(&all[j].bytes), show(&all[i].bytes), show(&b));
                    cx.count("clones onto others");
                    (all[i].m, all[i].bytes, all[i].ids) = (m, b, ids);
                }
            }
            _ => {
                let op = edit::gen_op(r, &all[i].m, &cfg);
                log.push(format!("{i} {op:?}"));
                cx.note(format!("{} {log:?}", show(&d.text)));
                sig.extend_from_slice(op.act.name().as_bytes());
                let c = &mut all[i];
                edit::step(&mut c.doc, &mut c.m, &op)?;
                c.bytes = bytes_of(&c.doc);
                c.ids = edit::ids(&c.doc);
                cx.count("edits");
            }
        }
        for (j, c) in all.iter().enumerate() {
            let b = bytes_of(&c.doc);
            check!(
                b == c.bytes,
                "after {:?}, document {j} is {} instead of {}",
                log.last(),
                show(&b),
                show(&c.bytes)
            );
            if let Some(e) = diff(&c.m, &canon_doc(&c.doc), false) {
                bail!("after {:?}, document {j}: {e}", log.last());
            }
            check!(edit::ids(&c.doc) == c.ids, "after {:?}, the identifiers of document {j} changed", log.last());
            if j != i {
                cx.count("others unchanged");
            }
        }
    }
    cx.distinct(&sig);
    cx.sample(|| format!("{} {log:?}", show(&d.text)));
    Ok(())
}
