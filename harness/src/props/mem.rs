//! Memory held by documents.
use super::show;
use crate::edit::{self, bytes_of, Cfg, Op};
use crate::fw::{heap_blocks, heap_live, heap_peak, heap_peak_reset, Cx, Prop, Res};
use crate::gen::{self, Opts};
use crate::model::{Step, M};
use crate::rng::Rng;
use crate::{bail, check, soup};
use nondestructive::yaml::{self, Block, Chomp, Document, Null, Separator, ValueMut};

pub const PROPS: &[Prop] = &[Prop {
    id: "C23",
    run: c23,
    quick: 100_000,
    thorough: 6_000_000,
    rule: "a case is a document and a cycle of edits which undoes itself, repeated 60 times while live heap bytes and \
           blocks are counted; distinct by the text the cycle settles on",
    level: "exploration",
    assumptions: &[
        "only strings which have been in the document before are used again, the string table keeps each once",
        "the counting allocator of the harness sees every allocation of the crate",
    ],
    required: &[
        "cycles", "rounds", "scalars made into collections", "entries removed", "items removed", "mappings cleared",
        "sequences cleared", "collections replaced", "entries replaced", "collections made into others", "random histories", "dropped",
        "clones dropped", "errors dropped", "large documents", "nested", "items pushed", "skewed",
    ],
    enumerated: 0,
    threads: false,
}];

/// Something to put in a document.
enum Tree {
    Leaf(usize),
    Map(Vec<Tree>),
    Seq(Vec<Tree>),
}

impl Tree {
    fn new(r: &mut Rng, depth: usize) -> Tree {
        let n = r.below(4);
        match r.below(if depth == 0 { 1 } else { 3 }) {
            0 => Tree::Leaf(r.below(9)),
            1 => Tree::Map((0..n).map(|_| Tree::new(r, depth - 1)).collect()),
            _ => Tree::Seq((0..n).map(|_| Tree::new(r, depth - 1)).collect()),
        }
    }
    /// Collections in collections, far deeper than any other.
    fn deep(r: &mut Rng) -> Tree {
        let mut t = Tree::Leaf(r.below(9));
        let maps = r.range(0, 100);
        for _ in 0..r.range(20, 120) {
            let mut items = vec![t];
            if r.pct(10) {
                items.push(Tree::Leaf(r.below(9)));
            }
            t = if r.pct(maps) { Tree::Map(items) } else { Tree::Seq(items) };
        }
        t
    }
    fn collection(r: &mut Rng) -> Tree {
        if r.pct(2) {
            return Tree::deep(r);
        }
        loop {
            let t = Tree::new(r, 3);
            if !matches!(t, Tree::Leaf(..)) {
                return t;
            }
        }
    }
    fn leaf(v: &mut ValueMut<'_>, n: usize) {
        match n {
            0 => v.set_null(Null::Keyword),
            1 => v.set_bool(true),
            2 => v.set_u32(7),
            3 => v.set_f64(1.5),
            4 => v.set_string("word"),
            5 => v.set_string("needs: quotes"),
            6 => v.set_i128(-1),
            7 => v.set_block(["one", "two"], Block::Literal(Chomp::Strip)),
            _ => v.set_null(Null::Tilde),
        }
    }
    fn build(&self, mut v: ValueMut<'_>) {
        match self {
            Tree::Leaf(n) => Tree::leaf(&mut v, *n),
            Tree::Map(items) => {
                let mut m = v.make_mapping();
                for (i, t) in items.iter().enumerate() {
                    t.build(m.insert(format!("k{i}"), Separator::Auto));
                }
            }
            Tree::Seq(items) => {
                let mut s = v.make_sequence();
                for t in items {
                    t.build(s.push(Separator::Auto));
                }
            }
        }
    }
}

/// One step of a cycle.
enum Do {
    /// Build something at a path.
    Build(Vec<Step>, Tree),
    /// Add an entry and remove it again.
    Entry(Vec<Step>, &'static str, Tree, Option<Tree>),
    /// Add items and remove as many, from the back or the front of the added ones.
    Items(Vec<Step>, Vec<Tree>, bool),
    /// Make an empty collection, fill and clear it.
    Clear(Vec<Step>, Tree),
    /// Random edits, which are only used on fresh copies.
    Random(Vec<Op>),
    /// Copy the document, edit the copy, and drop it.
    Clone(Vec<Step>, Tree),
}

fn at<'d>(doc: &'d mut Document, path: &[Step]) -> Result<ValueMut<'d>, String> {
    let id = edit::id_at(doc, path)?;
    Ok(doc.value_mut(id))
}

fn perform(doc: &mut Document, m: &M, what: &Do) -> Res {
    match what {
        Do::Build(p, t) => t.build(at(doc, p)?),
        Do::Entry(p, k, t, again) => {
            let mut map = at(doc, p)?.into_mapping_mut().ok_or("not a mapping")?;
            let n = map.as_ref().len();
            t.build(map.insert(k, Separator::Auto));
            if let Some(again) = again {
                again.build(map.insert(k, Separator::Auto));
            }
            check!(map.as_ref().len() == n + 1, "inserting {k} makes {} of {n} entries", map.as_ref().len());
            check!(map.remove(k), "{k} can not be removed");
            check!(map.as_ref().len() == n, "removing {k} leaves {} of {n} entries", map.as_ref().len());
        }
        Do::Items(p, ts, front) => {
            let mut s = at(doc, p)?.into_sequence_mut().ok_or("not a sequence")?;
            let n = s.as_ref().len();
            for t in ts {
                t.build(s.push(Separator::Auto));
            }
            for i in (0..ts.len()).rev() {
                let i = if *front { n } else { n + i };
                check!(s.remove(i), "item {i} can not be removed");
            }
            check!(s.as_ref().len() == n, "{} items are left of {n}", s.as_ref().len());
        }
        Do::Clear(p, t) => {
            t.build(at(doc, p)?);
            match t {
                Tree::Map(_) => at(doc, p)?.into_mapping_mut().ok_or("not a mapping")?.clear(),
                _ => at(doc, p)?.into_sequence_mut().ok_or("not a sequence")?.clear(),
            }
        }
        Do::Random(ops) => {
            let mut copy = doc.clone();
            let mut m = m.clone();
            for op in ops {
                edit::step(&mut copy, &mut m, op)?;
            }
        }
        Do::Clone(p, t) => {
            let mut copy = doc.clone();
            t.build(at(&mut copy, p)?);
            let _ = bytes_of(&copy);
            drop(copy);
        }
    }
    Ok(())
}

fn held(doc: &Document, path: &[Step]) -> Result<(usize, bool, bool), String> {
    let v = doc.value(edit::id_at(doc, path)?);
    Ok(match v.as_any() {
        yaml::Any::Mapping(m) => (m.len(), true, false),
        yaml::Any::Sequence(s) => (s.len(), false, true),
        _ => (0, false, false),
    })
}

fn c23(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    match case % 10 {
        0 => return whole(cx, case, r),
        1 => return rejected(cx, r),
        2 if case % 50 == 2 => return skewed(cx, r),
        _ => {}
    }
    let mut o = Opts::wild(r);
    o.limit(40);
    let d = gen::document(r, &o);
    cx.note(show(&d.text));
    let mut doc = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}: {}", show(&d.text)))?;
    // Leaves no two of which contain one another, so that steps don't interfere.
    let mut todo: Vec<Do> = Vec::new();
    let mut used: Vec<Vec<Step>> = Vec::new();
    let mut paths = d.model.paths();
    for _ in 0..r.range(1, 4) {
        let p = paths.swap_remove(r.below(paths.len()));
        let clash = used.iter().any(|u| {
            let n = u.len().min(p.len());
            u[..n] == p[..n]
        });
        if !clash {
            let node = d.model.get(&p).unwrap();
            let t = Tree::collection(r);
            if p.len() > 1 {
                cx.count("nested");
            }
            match node {
                M::Map { items, .. } if r.pct(60) => {
                    let k = *r.pick(&["added", "needs: quotes too", "1"]);
                    if items.iter().all(|(o, _)| o != k.as_bytes()) {
                        let again = r.pct(40).then(|| Tree::new(r, 2));
                        if again.is_some() {
                            cx.count("entries replaced");
                        }
                        todo.push(Do::Entry(p.clone(), k, t, again));
                        cx.count("entries removed");
                    }
                }
                M::Seq { .. } if r.pct(60) => {
                    let ts: Vec<Tree> = (0..r.range(1, 4)).map(|_| Tree::new(r, 2)).collect();
                    cx.add("items pushed", ts.len() as u64);
                    todo.push(Do::Items(p.clone(), ts, r.pct(50)));
                    cx.count("items removed");
                }
                _ => match r.below(4) {
                    0 => {
                        cx.count(if matches!(t, Tree::Map(..)) { "mappings cleared" } else { "sequences cleared" });
                        todo.push(Do::Clear(p.clone(), t));
                    }
                    1 => {
                        todo.push(Do::Clone(p.clone(), t));
                        cx.count("clones dropped");
                    }
                    2 => {
                        // From one kind of collection to another, and back.
                        let (a, b) = match t {
                            Tree::Map(..) => (t, Tree::Seq((0..r.below(3)).map(|_| Tree::new(r, 2)).collect())),
                            t => (t, Tree::Map((0..r.below(3)).map(|_| Tree::new(r, 2)).collect())),
                        };
                        todo.push(Do::Build(p.clone(), Tree::Leaf(2)));
                        todo.push(Do::Build(p.clone(), a));
                        todo.push(Do::Build(p.clone(), b));
                        todo.push(Do::Build(p.clone(), Tree::Leaf(r.below(9))));
                        cx.count("collections made into others");
                    }
                    _ => {
                        if node.is_collection() {
                            cx.count("collections replaced");
                        }
                        todo.push(Do::Build(p.clone(), t));
                        todo.push(Do::Build(p.clone(), Tree::Leaf(r.below(9))));
                        cx.count("scalars made into collections");
                    }
                },
            }
            used.push(p);
        }
        if paths.is_empty() {
            break;
        }
    }
    // Copies are only edited at random if nothing else changes what they hold.
    if todo.is_empty() || r.pct(15) {
        let cfg = Cfg::any(r);
        let mut m = d.model.clone();
        let mut copy = doc.clone();
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 8) {
            let op = edit::gen_op(r, &m, &cfg);
            edit::step(&mut copy, &mut m, &op)?;
            ops.push(op);
        }
        todo = vec![Do::Random(ops)];
        cx.count("random histories");
    }
    const WARM: usize = 8;
    const ROUNDS: usize = 60;
    // What is there afterwards settles, and so does what is needed for it.
    let mut settled: Option<(Vec<u8>, usize, i64)> = None;
    let mut sizes = Vec::with_capacity(todo.len());
    for round in 0..ROUNDS {
        sizes.clear();
        for what in &todo {
            perform(&mut doc, &d.model, what)?;
            if let Do::Build(p, _) | Do::Clear(p, _) = what {
                sizes.push(held(&doc, p)?);
            }
        }
        cx.count("rounds");
        if round + 1 == WARM {
            let text = bytes_of(&doc);
            settled = Some((text, 0, 0));
            if let Some(s) = &mut settled {
                s.1 = heap_live();
                s.2 = heap_blocks();
            }
        }
    }
    let live = heap_live();
    let blocks = heap_blocks();
    let Some((text, live0, blocks0)) = settled else { bail!("harness: never settled") };
    check!(
        bytes_of(&doc) == text,
        "doing the same {ROUNDS} times to {} ends in {}, but was {} after {WARM} times",
        show(&d.text),
        show(&bytes_of(&doc)),
        show(&text)
    );
    let grown = live.saturating_sub(live0);
    // A capacity might still double, once.
    check!(
        grown <= 2048 && blocks - blocks0 <= 16,
        "repeating {} steps with {} {} more times makes the document need {grown} more bytes in {} more blocks",
        todo.len(),
        show(&text),
        ROUNDS - WARM,
        blocks - blocks0
    );
    cx.max("bytes grown", grown as u64);
    cx.count("cycles");
    cx.distinct(&text);
    cx.sample(|| format!("{} settles on {}, live {live0} bytes then {live}", show(&d.text), show(&text)));
    Ok(())
}

/// Everything is given back, and what is needed is in proportion.
fn whole(cx: &mut Cx, case: u64, r: &mut Rng) -> Res {
    let large = case % 100 == 0;
    let mut o = Opts::wild(r);
    if large {
        o.nodes = 2000;
        cx.count("large documents");
    }
    let d = gen::document(r, &o);
    cx.note(if large { format!("{} bytes", d.text.len()) } else { show(&d.text) });
    let cfg = Cfg::any(r);
    let mut m = d.model.clone();
    let mut scratch = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}"))?;
    let mut ops = Vec::new();
    for _ in 0..r.below(12) {
        let op = edit::gen_op(r, &m, &cfg);
        edit::step(&mut scratch, &mut m, &op)?;
        ops.push(op);
    }
    drop(scratch);
    let before = heap_peak_reset();
    let blocks = heap_blocks();
    let doc = yaml::from_slice(&d.text).map_err(|e| format!("rejected with {e}"))?;
    let live = heap_live() - before;
    let peak = heap_peak() - before;
    let nodes = d.model.nodes();
    let room = 8192 + 2048 * nodes + 16 * d.text.len();
    check!(peak <= room, "{} values in {} bytes need {peak} bytes of memory", nodes, d.text.len());
    {
        let copy = doc.clone();
        let c = heap_live() - before - live;
        check!(c <= live + 4096, "a document needs {live} bytes, but a copy of it needs {c}");
        drop(copy);
        check!(heap_live() - before == live, "{} bytes are left of a copy", heap_live() - before - live);
    }
    let mut doc = doc;
    {
        let mut m = d.model.clone();
        for op in &ops {
            edit::step(&mut doc, &mut m, op)?;
        }
        let _ = heap_peak_reset();
        let at = heap_live();
        let text = doc.to_string();
        let used = heap_peak() - at;
        check!(used <= 4096 + 8 * text.len(), "writing {} bytes needs {used} bytes of memory", text.len());
    }
    drop(doc);
    check!(
        heap_live() == before && heap_blocks() == blocks,
        "{} bytes in {} blocks are left of a document which is dropped: {} after {ops:?}",
        heap_live() as i64 - before as i64,
        heap_blocks() - blocks,
        if large { String::new() } else { show(&d.text) }
    );
    cx.count("dropped");
    cx.max("bytes per node", (live.saturating_sub(4 * d.text.len()) / nodes.max(1)) as u64);
    Ok(())
}

/// What is needed is in proportion, also if values are nested in front of, around
/// or after something which is long.
fn skewed(cx: &mut Cx, r: &mut Rng) -> Res {
    let depth = r.range(1, 200);
    let long = r.range(10_000, 60_000);
    let fill = |r: &mut Rng| -> (String, usize) {
        match r.below(7) {
            0 => ("w".repeat(long), 0),
            1 => (format!("'{}'", "it''s ".repeat(long / 6)), 0),
            2 => (format!("\"{}\"", "\\n ".repeat(long / 3)), 0),
            3 => (format!("[{}]", "1, ".repeat(long / 3)), long / 3),
            4 => (format!("[{}]", " ".repeat(long)), 0),
            5 => (format!("{{{}}}", "a: 1, ".repeat(long / 6)), long / 6),
            _ => (format!("{{{}}}", " ".repeat(long)), 0),
        }
    };
    let mut text = String::new();
    let (kind, at) = (r.below(4), r.below(3));
    let (filler, items) = fill(r);
    let (open, close) = *r.pick(&[("[", "]"), ("{a: ", "}"), ("[{a: ", "}]")]);
    match kind {
        // In front of, in or after brackets.
        0 | 1 => {
            text.push('[');
            if at == 0 {
                text.push_str(&format!("{filler}, "));
            }
            text.push_str(&open.repeat(depth));
            text.push_str(if at == 1 { &filler } else { "1" });
            text.push_str(&close.repeat(depth));
            if at == 2 {
                text.push_str(&format!(", {filler}"));
            }
            text.push_str("]\n");
        }
        // Nested by indentation, with something long in front, inside or after.
        2 => {
            if at == 0 {
                text.push_str(&format!("x: {filler}\n"));
            }
            for n in 0..depth {
                text.push_str(&format!("{}a:\n", " ".repeat(n)));
            }
            text.push_str(&format!("{}b: {}\n", " ".repeat(depth), if at == 1 { &filler } else { "1" }));
            if at == 2 {
                text.push_str(&format!("y: {filler}\n"));
            }
        }
        // A lot of comments and blank lines.
        _ => {
            let lines = "# a comment\n\n".repeat(long / 13);
            text.push_str(if at == 0 { &lines } else { "" });
            text.push_str(&"- ".repeat(depth));
            text.push_str("1\n");
            text.push_str(if at != 0 { &lines } else { "" });
        }
    }
    cx.note(format!("{} bytes, {depth} deep, kind {kind} {open:?} at {at} with {}...", text.len(), &filler[..8]));
    let before = heap_peak_reset();
    let doc = yaml::from_slice(&text).map_err(|e| format!("rejected with {e}"))?;
    let live = heap_live() - before;
    let peak = heap_peak() - before;
    let nodes = 4 + 2 * depth + if kind == 3 { 0 } else { items };
    // NB: the indentation of each level is kept.
    let room = 16_384 + 2048 * nodes + 16 * text.len();
    check!(peak <= room, "reading {} bytes, {depth} deep, needs {peak} bytes of memory", text.len());
    let copy = doc.clone();
    let c = heap_live() - before - live;
    check!(c <= live + 4096, "a document needs {live} bytes, but a copy of it needs {c}");
    drop(copy);
    let peak0 = heap_peak_reset();
    let mut out = Vec::new();
    doc.write_to(&mut out).map_err(|e| e.to_string())?;
    let used = heap_peak() - peak0.min(heap_peak());
    check!(out == text.as_bytes(), "written differently");
    check!(used <= 4096 + 8 * text.len(), "writing {} bytes needs {used} bytes of memory", text.len());
    drop((out, doc));
    check!(heap_live() == before, "{} bytes are left", heap_live() as i64 - before as i64);
    cx.count("skewed");
    cx.max("bytes of a skewed document per byte", (peak / text.len()) as u64);
    Ok(())
}

/// Nothing is left of what is rejected.
fn rejected(cx: &mut Cx, r: &mut Rng) -> Res {
    let (text, _) = soup::hostile(r);
    cx.note(show(&text));
    let before = heap_live();
    let blocks = heap_blocks();
    let what = match yaml::from_slice(&text) {
        Ok(_) => "dropped",
        Err(_) => "errors dropped",
    };
    check!(
        heap_live() == before && heap_blocks() == blocks,
        "{} bytes in {} blocks are left after reading {}",
        heap_live() as i64 - before as i64,
        heap_blocks() - blocks,
        show(&text)
    );
    cx.count(what);
    Ok(())
}
