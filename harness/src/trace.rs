//! A workload whose outcome is told in full, so that two builds of this crate, or
//! two threads, can be compared.
use crate::edit::{self, bytes_of, Cfg};
use crate::fw::{case_rng, guarded};
use crate::gen::{self, Opts};
use crate::model::canon_doc;
use crate::rng::Rng;
use crate::soup;
use bstr::BStr;
use nondestructive::yaml::{self, Any, Document, Value};
use std::cell::RefCell;
use std::fmt::Write;

/// Everything there is to know about a value.
pub fn value(o: &mut String, v: &Value<'_>) {
    let shown = v.to_string();
    sound(&shown);
    v.as_str().into_iter().for_each(sound);
    let _ = write!(o, "{:?} {v:?} {shown:?}", v.id());
    let _ = write!(o, " {:?} {:?} {:?}", v.as_bool(), v.as_str(), v.as_bstr());
    let _ = write!(o, " {:?} {:?} {:?} {:?} {:?}", v.as_u8(), v.as_u16(), v.as_u32(), v.as_u64(), v.as_u128());
    let _ = write!(o, " {:?} {:?} {:?} {:?} {:?}", v.as_i8(), v.as_i16(), v.as_i32(), v.as_i64(), v.as_i128());
    let _ = write!(o, " {:?} {:?}", v.as_f32().map(f32::to_bits), v.as_f64().map(f64::to_bits));
    let _ = write!(o, " {} {:?} {}", v.id(), v.as_any(), v.as_any().is_null());
    match v.as_any() {
        Any::Mapping(m) => {
            let _ = write!(o, " mapping of {}:", m.len());
            for (k, v) in m.iter() {
                let same = std::str::from_utf8(k).ok().and_then(|k| m.get(k)).map(|v| v.id());
                let _ = write!(o, " {k:?} {:?} {same:?}", v.id());
            }
            for (k, v) in m.iter().rev() {
                let _ = write!(o, " {k:?} {:?}", v.id());
            }
        }
        Any::Sequence(s) => {
            let _ = write!(o, " sequence of {}:", s.len());
            for v in s.iter().chain(s.iter().rev()).chain(s.first()).chain(s.last()).chain(s.get(1)) {
                let _ = write!(o, " {:?}", v.id());
            }
        }
        _ => {}
    }
    o.push('\n');
}

thread_local! {
    /// What is told of serde and of snapshots, in builds which have them.
    static MORE: RefCell<[String; 2]> = const { RefCell::new([String::new(), String::new()]) };
}

#[cfg(feature = "nd-serde")]
fn serde(o: &mut String, doc: &Document) {
    use serde::Deserialize;
    let json = serde_json::to_string(&doc.as_ref());
    let _ = writeln!(o, "{json:?}");
    let v = serde_json::Value::deserialize(doc.as_ref());
    let _ = writeln!(o, "{v:?}");
    if let Ok(all) = <Vec<(&str, Option<u64>)>>::deserialize(doc.as_ref()) {
        all.iter().for_each(|s| sound(s.0));
    }
    if let Ok(all) = <std::collections::BTreeMap<&str, &str>>::deserialize(doc.as_ref()) {
        all.iter().for_each(|s| (sound(s.0), sound(s.1)).0);
    }
}

#[cfg(all(feature = "nd-serde-edits", not(miri)))]
fn snapshot(o: &mut String, doc: &Document) {
    let mut bytes = Vec::new();
    if ciborium::into_writer(doc, &mut bytes).is_err() {
        return o.push_str("no snapshot");
    }
    match ciborium::from_reader::<Document, _>(&bytes[..]) {
        Ok(doc) => {
            let _ = writeln!(o, "{:?} {:?} {:?}", BStr::new(&bytes_of(&doc)), edit::ids(&doc), doc.as_ref());
        }
        Err(e) => {
            let _ = writeln!(o, "{e}");
        }
    }
}

/// A string which isn't valid is undefined behaviour, but not always noticed.
fn sound(s: &str) {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        eprintln!("error: a str which is not UTF-8: {:?}", BStr::new(s.as_bytes()));
        std::process::abort();
    }
}

/// Everything there is to know about a document.
pub fn document(o: &mut String, doc: &Document) {
    MORE.with_borrow_mut(|[_s, _e]| {
        #[cfg(feature = "nd-serde")]
        serde(_s, doc);
        // Miri takes seconds for one.
        #[cfg(all(feature = "nd-serde-edits", not(miri)))]
        snapshot(_e, doc);
    });
    let _ = writeln!(o, "{:?}", BStr::new(&bytes_of(doc)));
    let _ = writeln!(o, "{:?}", doc.to_string());
    for (p, id) in edit::ids(doc) {
        let _ = write!(o, "{p:?} ");
        value(o, &doc.value(id));
    }
    let _ = writeln!(o, "{:?}", canon_doc(doc));
}

fn body(o: &mut String, case: u64, r: &mut Rng) {
    let (text, model) = match case % 4 {
        0 => (soup::hostile(r).0, None),
        1 => {
            let n = gen::number(r);
            let mut t = if r.pct(70) { n } else { edit::text(r) };
            t.insert_str(0, ["", "- ", "a: ", "[", "{a: "][r.below(5)]);
            if t.starts_with('[') {
                t.push(']');
            } else if t.starts_with('{') {
                t.push('}');
            }
            (t.into_bytes(), None)
        }
        _ => {
            let mut w = Opts::wild(r);
            if case < 400 {
                // These are interpreted as well.
                w.small();
            }
            w.limit(30);
            let d = gen::document(r, &w);
            (d.text, Some(d.model))
        }
    };
    let (mut text, mut model) = (text, model);
    if case % 4 != 1 && r.pct(25) && !text.is_empty() {
        // Cut short, possibly within an escape.
        let esc: Vec<usize> = text.iter().enumerate().filter(|(_, b)| **b == b'\\').map(|(n, _)| n).collect();
        let n = if !esc.is_empty() && r.pct(80) { *r.pick(&esc) + r.range(1, 9) } else { r.below(text.len()) };
        text.truncate(n);
        model = None;
    }
    // Nothing follows it in its allocation.
    let text = text.into_boxed_slice();
    let _ = writeln!(o, "{:?}", BStr::new(&text));
    let mut doc = match yaml::from_slice(&text) {
        Ok(d) => d,
        Err(e) => {
            let _ = writeln!(o, "{e} {:?} {:?}", e.kind(), e.span());
            return;
        }
    };
    document(o, &doc);
    let mut m = model.unwrap_or_else(|| canon_doc(&doc));
    let cfg = Cfg::any(r);
    let mut ops = 0;
    for _ in 0..r.below(6) {
        let op = edit::gen_op(r, &m, &cfg);
        let _ = writeln!(o, "{op:?}");
        match edit::step(&mut doc, &mut m, &op) {
            Ok(done) => {
                let _ = writeln!(o, "{:?} {} {:?} {:?}", done.value, done.added, done.removed, done.replaced);
            }
            Err(e) => {
                let _ = writeln!(o, "{e}");
                break;
            }
        }
        ops += 1;
        document(o, &doc);
    }
    let copy = doc.clone();
    if ops > 0 {
        document(o, &copy);
    }
}

/// Where the cases begin which are little work, so that they can be interpreted.
pub const TINY: u64 = 1 << 40;

fn tiny(o: &mut String, case: u64, r: &mut Rng) {
    let number = |r: &mut Rng| match r.below(3) {
        0 => gen::number(r),
        1 => {
            // About as large as what there is a type for.
            let n = (1i128 << *r.pick(&[7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100])) + r.below(5) as i128 - 2;
            if r.pct(40) { format!("-{n}") } else { n.to_string() }
        }
        _ => format!("{}.{}e{}", r.below(1000), r.below(100_000), r.below(60) as i64 - 30),
    };
    match case % 4 {
        0 => {
            let t = number(r);
            let _ = write!(o, "{t}: ");
            match yaml::from_slice(&t) {
                Ok(d) => {
                    let v = d.as_ref();
                    let _ = write!(o, "{:?} {:?} {:?} {:?}", v.as_u32(), v.as_u64(), v.as_i32(), v.as_i64());
                    let _ = write!(o, " {:?} {:?}", v.as_u128(), v.as_i128());
                    let _ = write!(o, " {:?} {:?} {v}", v.as_f32().map(f32::to_bits), v.as_f64().map(f64::to_bits));
                }
                Err(e) => o.push_str(&e.to_string()),
            }
        }
        1 => {
            let mut t = b"[\"a".to_vec();
            for _ in 0..r.range(1, 4) {
                t.extend_from_slice(r.pick(&[
                    "\\x41", "\\u00e9", "\\U0001F980", "\\U0010ffff", "\\U80000041", "\\Uffffffff", "\\ud800", "\\U00110000", "\\n", "\\",
                    "é", " ", "\\x4", "\\xfg", "\\q",
                ]).as_bytes());
            }
            t.extend_from_slice(b"\"]");
            match yaml::from_slice(&t) {
                Ok(d) => {
                    if let Some(s) = d.as_ref().as_sequence() {
                        let _ = write!(o, "{d} {:?}", s.get(0).and_then(|v| v.as_str().map(str::to_owned)));
                    }
                }
                Err(e) => o.push_str(&e.to_string()),
            }
        }
        2 => {
            let n = r.below(*r.clone().pick(&[3, 20, 300]));
            let t = format!("{}{}: {}\n", " ".repeat(n), edit::word(r), r.pick(&["[a, b]", "|\n  x", "\"a", "{a: ~", "'it''s' # c", "- a"]));
            match yaml::from_slice(&t) {
                Ok(d) => {
                    let _ = write!(o, "{d} {:?}", d.as_ref());
                }
                Err(e) => o.push_str(&e.to_string()),
            }
        }
        _ => {
            let mut d = yaml::from_slice("- a\n").expect("a document");
            if let Some(mut s) = d.as_mut().into_sequence_mut() {
                match r.below(6) {
                    0 => s.push_u64(r.u64()),
                    1 => s.push_i128(i128::from(r.u64()) << r.below(64)),
                    2 => s.push_f64(f64::from_bits(r.u64() & !(1 << 62))),
                    3 => s.push_f32(f32::from_bits(r.u64() as u32 & !(1 << 30))),
                    4 => s.push_string(edit::text(r)),
                    _ => {
                        let mut m = s.push(yaml::Separator::Auto).make_mapping();
                        m.insert_u32("b", r.u64() as u32);
                        let _ = write!(o, "{} ", m.remove("b"));
                    }
                }
            }
            if let Some(s) = d.as_ref().as_sequence() {
                let _ = write!(o, "{d} {:?}", s.get(1).map(|v| v.id()));
            }
        }
    }
    o.push('\n');
}

/// Takes a snapshot of a small document with a history.
#[cfg(feature = "nd-serde-edits")]
pub fn take(seed: u64, case: u64) -> Vec<u8> {
    let mut r = case_rng("snapshot", seed, case);
    let r = &mut r;
    let (a, b, c) = (edit::word(r), edit::word(r), edit::word(r));
    let n = gen::number(r);
    let text = match r.below(5) {
        0 => format!("{a}: {n}\n{b}:\n  - x\n  - {c} # c\n"),
        1 => format!("- {a}: 'it''s'\n  {b}: [{c}, ~, ]\n- \"\\u00e9{a}\"\n"),
        2 => format!("{{{a}: {n}, {b}: {{{c}: true}} , }} # {a}\n"),
        3 => format!("---\n{a}: |+\n  {b}\n\n{c}: >-\n    {n}\n{b}: Null"),
        _ => format!("[{n}, [{a}], {{}}, {b}]"),
    };
    let mut out = Vec::new();
    let _ = guarded(|| {
        let Ok(mut doc) = yaml::from_slice(text) else { return };
        let mut m = canon_doc(&doc);
        let cfg = Cfg::any(r);
        for _ in 0..r.below(4) {
            let op = edit::gen_op(r, &m, &cfg);
            if edit::step(&mut doc, &mut m, &op).is_err() {
                break;
            }
        }
        let _ = ciborium::into_writer(&doc, &mut out);
    });
    out
}

/// What there is in a snapshot, and what comes of edits of it.
#[cfg(feature = "nd-serde-edits")]
pub fn restore(seed: u64, case: u64, bytes: &[u8]) -> String {
    let mut o = String::new();
    let mut r = case_rng("restore", seed, case);
    let e = guarded(|| {
        let mut doc = match ciborium::from_reader::<Document, _>(bytes) {
            Ok(doc) => doc,
            Err(e) => return o.push_str(&e.to_string()),
        };
        let mut m = canon_doc(&doc);
        let _ = write!(o, "{:?} {:?}", BStr::new(&bytes_of(&doc)), edit::ids(&doc));
        for (_, id) in edit::ids(&doc) {
            let keys: Vec<Vec<u8>> =
                doc.value(id).as_mapping().map(|m| m.iter().map(|(k, _)| k.to_vec()).collect()).unwrap_or_default();
            if let Some(mut all) = doc.value_mut(id).into_mapping_mut() {
                // Which is already there.
                if !keys.is_empty() {
                    let k = r.pick(&keys);
                    all.insert_u32(k, 7);
                }
                all.insert_str("again", "it's");
                all.insert_str("again", "- it is");
                break;
            }
        }
        let cfg = Cfg::any(&mut r);
        let _ = write!(o, " {:?} {m:?}", BStr::new(&bytes_of(&doc)));
        m = canon_doc(&doc);
        for _ in 0..2 {
            let op = edit::gen_op(&mut r, &m, &cfg);
            if edit::step(&mut doc, &mut m, &op).is_err() {
                break;
            }
            let _ = write!(o, " {op:?} {:?}", BStr::new(&bytes_of(&doc)));
        }
    });
    if let Err(e) = e {
        o.push_str(e.rsplit_once(" at ").map_or(&e[..], |(e, _)| e));
    }
    o.replace('\n', " ")
}

/// What happens in a case.
pub fn log(seed: u64, case: u64) -> String {
    let mut o = String::new();
    let mut r = case_rng("trace", seed, case);
    if let Err(e) = guarded(|| if case < TINY { body(&mut o, case, &mut r) } else { tiny(&mut o, case, &mut r) }) {
        // Not where it panics.
        let e = e.rsplit_once(" at ").map_or(&e[..], |(e, _)| e);
        let _ = writeln!(o, "{e}");
    }
    o
}

/// What is told of serde and of snapshots in the last case.
pub fn more() -> [String; 2] {
    MORE.with_borrow_mut(|all| [0, 1].map(|n| std::mem::take(&mut all[n])))
}
