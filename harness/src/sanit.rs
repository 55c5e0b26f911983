//! Runs workloads under sanitizers and an interpreter which finds undefined
//! behaviour.
use crate::configs::cargo;
use crate::trace;
use crate::fw::{self, json, Env, Prop, Report, VERIF};
use std::collections::HashSet;
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::time::Instant;

const TARGET: &str = "x86_64-unknown-linux-gnu";

pub const THREADS: Prop = Prop {
    id: "C24",
    run: |_, _, _| Ok(()),
    quick: 4_000,
    thorough: 200_000,
    rule: "a case is a document which is read by several threads at once while others edit copies of it and read the same \
           text, and which is then handed from thread to thread; distinct is the number of documents",
    level: "exploration",
    assumptions: &["the scheduler and the thread sanitizer decide which interleavings are seen"],
    required: &["reads", "edits", "moves", "overlapping", "under the thread sanitizer: reads", "under the thread sanitizer: overlapping"],
    enumerated: 0,
    threads: true,
};

pub const MEMORY: Prop = Prop {
    id: "C25",
    run: |_, _, _| Ok(()),
    quick: 30_000,
    thorough: 600_000,
    rule: "a case is a document (generated, hostile or a number) with a history of edits, run under the address sanitizer, \
           with overflow checks, and some of them in Miri; distinct by what happens",
    level: "exploration",
    assumptions: &["the address sanitizer and Miri see what happens in this crate and what it uses"],
    required: &["under the address sanitizer", "interpreted by Miri"],
    enumerated: 0,
    threads: true,
};

fn output(c: &mut Command) -> Result<Output, String> {
    c.stdin(Stdio::null()).output().map_err(|e| e.to_string())
}

fn brief(o: &Output) -> String {
    let e = String::from_utf8_lossy(&o.stderr);
    let keep: Vec<&str> = e
        .lines()
        .filter(|l| ["error", "ERROR", "WARNING", "SUMMARY", "panicked", "-->", "#0", "#1", "#2", "#3"].iter().any(|k| l.contains(k)))
        .take(10)
        .collect();
    let s = if keep.is_empty() { e.chars().take(500).collect() } else { keep.join(" / ") };
    format!("{} {}", o.status, s.chars().take(1500).collect::<String>())
}

enum Built {
    Exe(PathBuf),
    Crate(String),
    /// The promises about threads are not kept.
    Promise(String),
    Other(String),
}

fn build(bin: &str, dir: &str, toolchain: Option<&str>, flags: &str, std: bool) -> Built {
    let dir = format!("{VERIF}/harness/target/{dir}");
    let mut c = cargo(flags);
    c.args(toolchain.map(|t| format!("+{t}")));
    c.args(["build", "--offline", "--locked", "--no-default-features", "--bin", bin, "--target-dir", &dir]);
    if bin == "vtrace" {
        c.args(["--features", "nd-serde,nd-serde-edits"]);
    }
    let mut sub = "debug".to_string();
    if toolchain.is_some() {
        c.args(["--target", TARGET]);
        sub = format!("{TARGET}/debug");
    }
    if std {
        c.arg("-Zbuild-std");
    }
    match output(&mut c) {
        Err(e) => Built::Other(e),
        Ok(o) if o.status.success() => Built::Exe(PathBuf::from(format!("{dir}/{sub}/{bin}"))),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).into_owned();
            let what = brief(&o);
            if e.contains("could not compile `nondestructive`") {
                Built::Crate(what)
            } else if ["cannot be shared between threads safely", "cannot be sent between threads safely", "may not be safely transferred"]
                .iter()
                .any(|p| e.contains(p))
            {
                let why: Vec<&str> =
                    e.lines().filter(|l| l.contains("between threads") || l.contains("safely transferred")).take(4).collect();
                Built::Promise(why.join(" / "))
            } else {
                Built::Other(what)
            }
        }
    }
}

/// Run parts of a workload, and give what each has printed.
fn parts(jobs: u64, per: u64, f: impl Fn(u64, u64) -> Result<Output, String> + Sync) -> Vec<(u64, Result<Output, String>)> {
    std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = (0..jobs).map(|j| s.spawn(move || (j * per, f(j * per, (j + 1) * per)))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

fn built(r: &mut Report, what: &str, b: Built) -> Option<PathBuf> {
    match b {
        Built::Exe(e) => return Some(e),
        Built::Promise(e) => r.violations.push((u64::MAX, format!("documents may not be used by threads: {e}"))),
        Built::Crate(e) => r.violations.push((u64::MAX, format!("does not compile {what}: {e}"))),
        Built::Other(e) => r.inconclusive.push(format!("the workload does not build {what}: {e}")),
    }
    None
}

/// A sanitizer which can't start here says nothing about the code.
fn starts(r: &mut Report, what: &str, exe: &PathBuf) -> bool {
    match output(Command::new(exe).env("ASAN_OPTIONS", "detect_leaks=0").args(["1", "0", "0", "1"])) {
        Ok(o) if o.status.success() => return true,
        Ok(o) => r.inconclusive.push(format!("{what} does not run here: {}", brief(&o))),
        Err(e) => r.inconclusive.push(e),
    }
    false
}

fn tally(r: &mut Report, prefix: &str, out: &str) {
    for l in out.lines().filter(|l| l.starts_with("OK ")) {
        for kv in l.split(' ').skip(1) {
            let Some((k, v)) = kv.split_once('=') else { continue };
            let v: u64 = v.parse().unwrap_or(0);
            let e = r.counters.entry(format!("{prefix}{k}")).or_insert(0);
            if k == "most" {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
    }
}

pub fn threads() -> ! {
    let t = Instant::now();
    let env = Env::new(THREADS.id);
    let mut r = Report::default();
    let seed = env.seed.to_string();
    let cases = if env.thorough { THREADS.thorough } else { THREADS.quick };
    let (plain, tsan) = std::thread::scope(|s| {
        let a = s.spawn(|| build("vthreads", "c24", None, "", false));
        let b = s.spawn(|| build("vthreads", "c24-tsan", Some("nightly"), "-Zsanitizer=thread", true));
        (a.join().unwrap(), b.join().unwrap())
    });
    if let Some(exe) = built(&mut r, "as it is", plain) {
        for (from, o) in parts(4, cases / 4, |a, b| {
            output(Command::new(&exe).args([&seed, &a.to_string(), &b.to_string(), "4"]))
        }) {
            match o {
                Ok(o) if o.status.success() => {
                    tally(&mut r, "", &String::from_utf8_lossy(&o.stdout));
                    r.evaluations += cases / 4;
                    r.distinct += cases / 4;
                }
                Ok(o) => {
                    let said = String::from_utf8_lossy(&o.stdout);
                    r.violations.push((from, json(&format!("several threads: {} {}", said.trim(), brief(&o)))));
                }
                Err(e) => r.inconclusive.push(e),
            }
        }
    }
    if let Some(exe) = built(&mut r, "with the thread sanitizer", tsan).filter(|e| starts(&mut r, "the thread sanitizer", e)) {
        let per = cases / 20;
        for (from, o) in parts(4, per, |a, b| {
            output(
                Command::new(&exe)
                    .env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66")
                    .args([&seed, &a.to_string(), &b.to_string(), "4"]),
            )
        }) {
            match o {
                Ok(o) if o.status.success() => {
                    tally(&mut r, "under the thread sanitizer: ", &String::from_utf8_lossy(&o.stdout));
                    r.evaluations += per;
                }
                Ok(o) if String::from_utf8_lossy(&o.stderr).contains("FATAL: ThreadSanitizer") => {
                    r.inconclusive.push(format!("the thread sanitizer does not run here: {}", brief(&o)))
                }
                Ok(o) => {
                    let said = String::from_utf8_lossy(&o.stdout);
                    r.violations.push((from, json(&format!("the thread sanitizer: {} {}", said.trim(), brief(&o)))));
                }
                Err(e) => r.inconclusive.push(e),
            }
        }
    }
    r.samples.push(json("two readers, a thread editing a copy and one reading the text again, at once, for every document"));
    fw::finish(&THREADS, &env, r, t)
}

pub fn memory() -> ! {
    let t = Instant::now();
    let env = Env::new(MEMORY.id);
    let mut r = Report::default();
    let seed = env.seed.to_string();
    let cases = if env.thorough { MEMORY.thorough } else { MEMORY.quick };
    let miri = |from: u64, to: u64| {
        output(
            cargo("")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation")
                .args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--no-default-features", "--bin", "vtrace"])
                .args(["--target-dir", &format!("{VERIF}/harness/target/miri")])
                .args(["--", &seed, &from.to_string(), &to.to_string()]),
        )
    };
    let (asan, first) = std::thread::scope(|s| {
        let a = s.spawn(|| build("vtrace", "c25-asan", Some("nightly"), "-Zsanitizer=address", false));
        let b = s.spawn(|| miri(0, 0));
        (a.join().unwrap(), b.join().unwrap())
    });
    let mut set = HashSet::new();
    if let Some(exe) = built(&mut r, "with the address sanitizer", asan).filter(|e| starts(&mut r, "the address sanitizer", e)) {
        for (from, o) in parts(8, cases / 8, |a, b| {
            output(
                Command::new(&exe)
                    .env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1")
                    .args([&seed, &a.to_string(), &b.to_string()]),
            )
        }) {
            match o {
                Ok(o) if o.status.success() => {
                    let out = String::from_utf8_lossy(&o.stdout).into_owned();
                    for l in out.lines() {
                        r.evaluations += 1;
                        *r.counters.entry("under the address sanitizer".into()).or_insert(0) += 1;
                        set.insert(l.split(' ').nth(1).map(str::to_owned));
                    }
                }
                Ok(o) if String::from_utf8_lossy(&o.stderr).contains("Shadow memory range") => {
                    r.inconclusive.push(format!("the address sanitizer does not run here: {}", brief(&o)))
                }
                Ok(o) => r.violations.push((from, json(&format!("the address sanitizer, from case {from}: {}", brief(&o))))),
                Err(e) => r.inconclusive.push(e),
            }
        }
    }
    r.distinct = set.len() as u64;
    match first {
        Ok(o) if o.status.success() => {
            let per = if env.thorough { 24 } else { 2 };
            let small = if env.thorough { 160 } else { 40 };
            let tiny = parts(8, small, |a, b| miri(trace::TINY + a, trace::TINY + b));
            for (from, o) in parts(8, per, miri).into_iter().chain(tiny) {
                match o {
                    Ok(o) if o.status.success() => {
                        let n = String::from_utf8_lossy(&o.stdout).lines().count() as u64;
                        r.evaluations += n;
                        *r.counters.entry("interpreted by Miri".into()).or_insert(0) += n;
                    }
                    Ok(o) if String::from_utf8_lossy(&o.stderr).contains("unsupported operation") => {
                        r.inconclusive.push(format!("Miri: {}", brief(&o)))
                    }
                    Ok(o) => r.violations.push((from, json(&format!("Miri, from case {from}: {}", brief(&o))))),
                    Err(e) => r.inconclusive.push(e),
                }
            }
        }
        Ok(o) => r.inconclusive.push(format!("the workload does not build for Miri: {}", brief(&o))),
        Err(e) => r.inconclusive.push(e),
    }
    r.samples.push(json("the workload of C22: everything told of a document after every edit"));
    fw::finish(&MEMORY, &env, r, t)
}
