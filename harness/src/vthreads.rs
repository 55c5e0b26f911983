//! Documents which are shared between threads, and handed from one to another.
//!
//! `vthreads SEED FROM TO THREADS` prints what was observed, and fails if what a
//! thread sees isn't what is seen by one alone.
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Barrier};

use nondestructive::yaml;
use vlib::edit::{self, bytes_of, Cfg, Op};
use vlib::gen::{self, Opts};
use vlib::model::M;
use vlib::{fw, rng, trace};

fn shared<T: Send + Sync>() {}
fn owned<T: Send + Sync + UnwindSafe + RefUnwindSafe + Unpin + 'static>() {}

/// What may cross threads. Does not compile otherwise.
fn promises() {
    owned::<yaml::Document>();
    owned::<yaml::Error>();
    owned::<yaml::Id>();
    shared::<yaml::Value<'static>>();
    shared::<yaml::Mapping<'static>>();
    shared::<yaml::Sequence<'static>>();
    shared::<yaml::Any<'static>>();
    shared::<yaml::ValueMut<'static>>();
    shared::<yaml::MappingMut<'static>>();
    shared::<yaml::SequenceMut<'static>>();
    shared::<yaml::AnyMut<'static>>();
    shared::<yaml::Separator<'static>>();
}

fn told(doc: &yaml::Document) -> u64 {
    let mut o = String::new();
    trace::document(&mut o, doc);
    rng::hash(o.as_bytes())
}

fn edited(mut doc: yaml::Document, mut m: M, ops: &[Op]) -> (u64, yaml::Document) {
    for op in ops {
        if edit::step(&mut doc, &mut m, op).is_err() {
            break;
        }
    }
    (told(&doc), doc)
}

fn fail(case: u64, what: &str) -> ! {
    println!("FAIL {case} {what}");
    std::process::exit(9)
}

fn main() {
    promises();
    fw::quiet_panics();
    let a: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("a number")).collect();
    let [seed, from, to, n] = a[..] else { panic!("usage: vthreads SEED FROM TO THREADS") };
    let n = n as usize;
    let (mut reads, mut edits, mut moves, mut errors) = (0u64, 0u64, 0u64, 0u64);
    let overlapping = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    for case in from..to {
        let mut r = fw::case_rng("threads", seed, case);
        let mut o = Opts::wild(&mut r);
        if case < 400 {
            // These are interpreted as well.
            o.small();
        }
        o.limit(20);
        let d = gen::document(&mut r, &o);
        let Ok(doc) = yaml::from_slice(&d.text) else { fail(case, "rejected") };
        let cfg = Cfg::any(&mut r);
        // Alone.
        let want = told(&doc);
        let mut m = d.model.clone();
        let mut copy = doc.clone();
        let mut ops = Vec::new();
        for _ in 0..r.below(5) {
            let op = edit::gen_op(&mut r, &m, &cfg);
            if edit::step(&mut copy, &mut m, &op).is_err() {
                break;
            }
            ops.push(op);
        }
        let (want_edited, _) = edited(doc.clone(), d.model.clone(), &ops);
        let bad = b"a: [";
        // Shared by all readers, while others edit copies of it.
        let start = Barrier::new(n);
        let live = AtomicUsize::new(0);
        let sum = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (doc, start, live, ops, model) = (&doc, &start, &live, &ops, &d.model);
                    let (overlapping, most, text) = (&overlapping, &most, &d.text);
                    s.spawn(move || {
                        start.wait();
                        let now = live.fetch_add(1, SeqCst) + 1;
                        if now > 1 {
                            overlapping.fetch_add(1, SeqCst);
                        }
                        most.fetch_max(now, SeqCst);
                        let mut sum = (0, 0, 0);
                        for k in 0..3 {
                            match (t + k) % 4 {
                                0 | 1 => {
                                    if told(doc) != want {
                                        fail(case, "a reader sees something else");
                                    }
                                    sum.0 += 1;
                                }
                                2 => {
                                    let (got, _) = edited(doc.clone(), model.clone(), ops);
                                    if got != want_edited {
                                        fail(case, "a copy edited next to readers is something else");
                                    }
                                    sum.1 += 1;
                                }
                                _ => {
                                    let Ok(again) = yaml::from_slice(text) else { fail(case, "rejected at the same time") };
                                    if told(&again) != want {
                                        fail(case, "what is read at the same time is something else");
                                    }
                                    if yaml::from_slice(bad).is_ok() {
                                        fail(case, "accepted");
                                    }
                                    sum.2 += 1;
                                }
                            }
                        }
                        live.fetch_sub(1, SeqCst);
                        sum
                    })
                })
                .collect();
            let mut sum = (0, 0, 0);
            for h in hs {
                let s = h.join().unwrap_or_else(|_| fail(case, "panicked"));
                sum = (sum.0 + s.0, sum.1 + s.1, sum.2 + s.2);
            }
            sum
        });
        reads += sum.0;
        edits += sum.1;
        errors += sum.2;
        if told(&doc) != want {
            fail(case, "changed by reading");
        }
        // Handed on: read in one thread, edited in another, dropped in a third.
        let (a, b) = mpsc::channel::<yaml::Document>();
        let (c, d2) = mpsc::channel::<Arc<yaml::Document>>();
        let text = d.text.clone();
        let model = d.model.clone();
        let back = std::thread::scope(|s| {
            s.spawn(move || {
                for _ in 0..2 {
                    if let Ok(d) = yaml::from_slice(&text) {
                        let _ = a.send(d);
                    }
                }
            });
            let ops = &ops;
            s.spawn(move || {
                for d in b {
                    let (got, d) = edited(d, model.clone(), ops);
                    if got != want_edited {
                        fail(case, "a document handed to another thread is something else");
                    }
                    let d = Arc::new(d);
                    let _ = c.send(d.clone());
                    let _ = bytes_of(&d);
                }
            });
            let h = s.spawn(move || d2.into_iter().map(|d| (told(&d), 1)).collect::<Vec<_>>());
            h.join().unwrap_or_else(|_| fail(case, "panicked"))
        });
        if back.len() != 2 || back.iter().any(|b| b.0 != want_edited) {
            fail(case, "a document handed back is something else");
        }
        moves += 2;
        // Errors are handed on as well.
        let e = std::thread::spawn(move || yaml::from_slice(bad).err()).join();
        if !matches!(e, Ok(Some(e)) if e.to_string() == yaml::from_slice(bad).unwrap_err().to_string()) {
            fail(case, "an error from another thread is something else");
        }
    }
    println!(
        "OK reads={reads} edits={edits} parses={errors} moves={moves} overlapping={} most={}",
        overlapping.load(SeqCst),
        most.load(SeqCst)
    );
}
