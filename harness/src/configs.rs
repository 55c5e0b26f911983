//! Builds the same workload in several ways, and compares what happens.
use crate::trace;
use crate::fw::{self, json, Env, Prop, Report, VERIF};
use std::collections::HashSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

pub const PROP: Prop = Prop {
    id: "C22",
    run: |_, _, _| Ok(()),
    quick: 40_000,
    thorough: 700_000,
    rule: "a case is a document (generated, hostile or a number) with a history of edits, about which everything there is \
           to know is told after every edit, by every build; distinct by what is told, non-trivial if there is more than \
           one line of it",
    level: "exploration",
    assumptions: &["the workload is the same in every build, it only depends on the seed"],
    required: &["builds compared", "runs compared", "cases per build", "compared: serde", "compared: snapshots"],
    enumerated: 0,
    threads: true,
};

struct Build {
    name: &'static str,
    args: &'static [&'static str],
    flags: &'static str,
    dir: &'static str,
}

const BUILDS: &[Build] = &[
    Build { name: "no features", args: &["--no-default-features"], flags: "", dir: "debug" },
    Build { name: "serde", args: &["--no-default-features", "--features", "nd-serde"], flags: "", dir: "debug" },
    Build { name: "serde-edits", args: &["--no-default-features", "--features", "nd-serde-edits"], flags: "", dir: "debug" },
    Build {
        name: "all features",
        args: &["--no-default-features", "--features", "nd-serde,nd-serde-edits"],
        flags: "",
        dir: "debug",
    },
    Build { name: "optimized, no features", args: &["--release", "--no-default-features"], flags: "", dir: "release" },
    Build {
        name: "optimized, all features",
        args: &["--release", "--no-default-features", "--features", "nd-serde,nd-serde-edits"],
        flags: "",
        dir: "release",
    },
];

pub fn cargo(flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.current_dir(format!("{VERIF}/harness"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .stdin(Stdio::null());
    if flags.is_empty() {
        c.env_remove("RUSTFLAGS");
    } else {
        c.env("RUSTFLAGS", flags);
    }
    c
}

enum Built {
    Exe(PathBuf),
    /// The crate itself does not compile.
    Crate(String),
    Other(String),
}

fn build(b: &Build, i: usize) -> Built {
    let dir = format!("{VERIF}/harness/target/c22-{i}");
    let out = cargo(b.flags)
        .args(["build", "--offline", "--locked", "--bin", "vtrace", "--target-dir", &dir])
        .args(b.args)
        .output();
    match out {
        Ok(o) if o.status.success() => Built::Exe(PathBuf::from(format!("{dir}/{}/vtrace", b.dir))),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).into_owned();
            let short: String = e.lines().filter(|l| l.contains("error") || l.contains("-->")).take(6).collect::<Vec<_>>().join(" / ");
            if e.contains("could not compile `nondestructive`") {
                Built::Crate(short)
            } else {
                Built::Other(short)
            }
        }
        Err(e) => Built::Other(e.to_string()),
    }
}

/// Digests of all cases, by running several processes.
fn run(exe: &Path, seed: u64, cases: u64, jobs: u64) -> Result<Vec<String>, (String, u64)> {
    let per = cases.div_ceil(jobs);
    let parts: Vec<Result<Vec<String>, (String, u64)>> = std::thread::scope(|s| {
        let all: Vec<_> = (0..jobs)
            .map(|j| {
                s.spawn(move || {
                    let (from, to) = (j * per, ((j + 1) * per).min(cases));
                    let out = Command::new(exe)
                        .args([seed.to_string(), from.to_string(), to.to_string()])
                        .stdin(Stdio::null())
                        .output()
                        .map_err(|e| (e.to_string(), from))?;
                    let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(str::to_owned).collect();
                    if !out.status.success() || lines.len() as u64 != to.saturating_sub(from) {
                        let e = String::from_utf8_lossy(&out.stderr);
                        let e: String = e.chars().take(300).collect();
                        return Err((format!("{} {e}", out.status), from));
                    }
                    Ok(lines)
                })
            })
            .collect();
        all.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = Vec::new();
    for p in parts {
        all.extend(p?);
    }
    Ok(all)
}

fn told(exe: &Path, seed: u64, case: u64) -> Vec<String> {
    let out = Command::new(exe).args([seed.to_string(), case.to_string()]).stdin(Stdio::null()).output();
    out.map(|o| String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect()).unwrap_or_default()
}

/// What every build tells, and what those with serde and with snapshots tell.
const COLUMNS: [&str; 3] = ["", "serde: ", "snapshot: "];

/// Digests of a case, by column.
fn columns(l: &str) -> [&str; 3] {
    let mut it = l.rsplitn(3, ' ');
    let (snapshot, serde) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    [it.next().unwrap_or(""), serde, snapshot]
}

fn has(b: &Build, column: usize) -> bool {
    match column {
        0 => true,
        1 => b.args.iter().any(|a| a.split(',').any(|a| a == "nd-serde")),
        _ => b.args.iter().any(|a| a.split(',').any(|a| a == "nd-serde-edits")),
    }
}

fn first_difference(a: &[String], b: &[String], column: usize) -> String {
    let of = |l: &&String| match column {
        0 => !COLUMNS[1..].iter().any(|c| l.starts_with(c)),
        n => l.starts_with(COLUMNS[n]),
    };
    let (a, b): (Vec<_>, Vec<_>) = (a.iter().filter(of).collect(), b.iter().filter(of).collect());
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let cut = |s: Option<&&String>| s.map_or("nothing".into(), |s| s.chars().take(600).collect::<String>());
            return format!("line {i}: {} / {}", cut(x), cut(y));
        }
    }
    "nothing when told again".into()
}

/// Interpreted, for targets which can't be run here.
fn foreign(r: &mut Report, env: &Env) {
    let (seed, scratch) = (env.seed, &env.scratch);
    // By the same compiler, as what is printable differs.
    let dir = scratch.join("nightly");
    let o = cargo("")
        .args(["+nightly", "build", "-q", "--offline", "--locked", "--no-default-features", "--features", "nd-serde-edits"])
        .args(["--bin", "vtrace", "--bin", "vsnap", "--target-dir"])
        .arg(&dir)
        .output();
    match o {
        Ok(o) if o.status.success() => {}
        o => return r.inconclusive.push(format!("the nightly compiler does not build: {o:?}")),
    }
    let exe = dir.join("debug/vtrace");
    let snap = dir.join("debug/vsnap");
    // Cases of which there are many, and which are little work, and a few others.
    let mut ranges: Vec<(u64, u64)> = Vec::new();
    let per = if env.thorough { 150 } else { 40 };
    for j in 0..8 {
        ranges.push((trace::TINY + j * per, trace::TINY + (j + 1) * per));
    }
    if env.thorough {
        ranges.extend((0..8).map(|j| (j * 3, j * 3 + 3)));
    }
    for target in ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"] {
        let dir = scratch.join(target);
        let exec = |from: u64, to: u64| {
            cargo("")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation")
                .args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--no-default-features"])
                .args(["--features", "nd-serde-edits", "--bin", "vtrace", "--target", target, "--target-dir"])
                .arg(&dir)
                .args(["--", &seed.to_string(), &from.to_string(), &to.to_string()])
                .output()
        };
        // Build it first.
        match exec(0, 0) {
            Ok(o) if o.status.success() => {}
            Ok(o) if String::from_utf8_lossy(&o.stderr).contains("could not compile `nondestructive`") => {
                let e: String = String::from_utf8_lossy(&o.stderr).chars().take(800).collect();
                r.violations.push((u64::MAX, json(&format!("does not compile for {target}: {e}"))));
                continue;
            }
            o if env.thorough => {
                r.inconclusive.push(format!("{target} does not build: {o:?}"));
                continue;
            }
            _ => {
                // The other builds are compared all the same.
                *r.counters.entry("targets which can't be built for".into()).or_insert(0) += 1;
                continue;
            }
        }
        let next = std::sync::atomic::AtomicUsize::new(0);
        let parts: Vec<_> = std::thread::scope(|s| {
            let (exec, next, ranges) = (&exec, &next, &ranges);
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(move || {
                        let mut all = Vec::new();
                        while let Some(&(from, to)) = ranges.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                            all.push((from, to, exec(from, to)));
                        }
                        all
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        for (from, to, o) in parts {
            let want = match Command::new(&exe).args([seed.to_string(), from.to_string(), to.to_string()]).stdin(Stdio::null()).output() {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
                o => {
                    r.inconclusive.push(format!("the reference fails: {o:?}"));
                    continue;
                }
            };
            match o {
                Ok(o) if o.status.success() => {
                    let out = String::from_utf8_lossy(&o.stdout).into_owned();
                    let n = want.lines().zip(out.lines()).take_while(|(a, b)| columns(a)[0] == columns(b)[0]).count();
                    *r.counters.entry(format!("cases interpreted for {target}")).or_insert(0) += n as u64;
                    r.evaluations += n as u64;
                    if n as u64 != to - from {
                        let case = from + n as u64;
                        r.violations.push((case, json(&format!("case {case} of seed {seed} differs on {target}: it is {:?} here", trace::log(seed, case)))));
                    }
                }
                Ok(o) if String::from_utf8_lossy(&o.stderr).contains("unsupported operation") => {
                    r.inconclusive.push(format!("Miri for {target}: {}", String::from_utf8_lossy(&o.stderr)))
                }
                Ok(o) => {
                    let e: String = String::from_utf8_lossy(&o.stderr).chars().take(800).collect();
                    r.violations.push((from, json(&format!("fails when interpreted for {target}: {e}"))));
                }
                Err(e) => r.inconclusive.push(e.to_string()),
            }
        }
        exchange(r, env, target, &dir, &snap);
        let _ = fs::remove_dir_all(&dir);
    }
    let _ = fs::remove_dir_all(&dir);
}

/// Snapshots which are taken on one platform are restored on another.
fn exchange(r: &mut Report, env: &Env, target: &str, dir: &Path, snap: &Path) {
    let seed = env.seed.to_string();
    let (jobs, per) = if env.thorough { (8, 12) } else { (8, 1) };
    let native = |args: &[&str]| Command::new(snap).args(args).stdin(Stdio::null()).output();
    let parts: Vec<Result<(u64, u64), (u64, String)>> = std::thread::scope(|s| {
        let (native, seed) = (&native, &seed);
        let hs: Vec<_> = (0..jobs)
            .map(|j| {
                s.spawn(move || {
                    let (from, to) = ((j * per).to_string(), ((j + 1) * per).to_string());
                    let fail = |e: String| (j * per, e);
                    let ok = |o: std::io::Result<std::process::Output>| match o {
                        Ok(o) if o.status.success() => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
                        Ok(o) => Err(fail(format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(800).collect::<String>()))),
                        Err(e) => Err(fail(e.to_string())),
                    };
                    let file = |name: &str, text: &str| {
                        let p = env.scratch.join(format!("{target}-{j}-{name}"));
                        fs::write(&p, text).map_err(|e| fail(e.to_string()))?;
                        Ok::<_, (u64, String)>(p.to_string_lossy().into_owned())
                    };
                    let here = file("here", &ok(native(&[seed, &from, &to]))?)?;
                    let want = ok(native(&[seed, &from, &to, &here]))?;
                    let there = ok(cargo("")
                        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
                        .args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--no-default-features"])
                        .args(["--features", "nd-serde-edits", "--bin", "vsnap", "--target", target, "--target-dir"])
                        .arg(dir)
                        .args(["--", seed, &from, &to, &here])
                        .output())?;
                    let back = ok(native(&[seed, &from, &to, &file("there", &there)?]))?;
                    let restored = |s: &str| s.lines().filter(|l| l.starts_with("restored ")).map(str::to_owned).collect::<Vec<_>>();
                    let (want, there, back) = (restored(&want), restored(&there), restored(&back));
                    for (n, w) in want.iter().enumerate() {
                        for (got, what) in [(&there, "taken here and restored there"), (&back, "taken there and restored here")] {
                            if got.get(n) != Some(w) {
                                let case = j * per + n as u64;
                                let got = got.get(n).map_or("nothing", |g| g);
                                return Err((case, format!("a snapshot {what} gives {got} instead of {w}")));
                            }
                        }
                    }
                    Ok((want.len() as u64, want.iter().map(|w| w.len() as u64).sum()))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        match p {
            Ok((n, _)) => {
                *r.counters.entry(format!("snapshots exchanged with {target}")).or_insert(0) += 2 * n;
                r.evaluations += n;
            }
            Err((_, e)) if e.contains("unsupported operation") || e.contains("could not compile") => r.inconclusive.push(format!("{target}: {e}")),
            Err((case, e)) => {
                let e: String = e.chars().take(1500).collect();
                r.violations.push((case, json(&format!("snapshot {case} of seed {} with {target}: {e}", env.seed))));
            }
        }
    }
}

pub fn check() -> ! {
    let t = Instant::now();
    let env = Env::new(PROP.id);
    let mut r = Report::default();
    let built: Vec<Built> = std::thread::scope(|s| {
        let hs: Vec<_> = BUILDS.iter().enumerate().map(|(i, b)| s.spawn(move || build(b, i))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut exes = Vec::new();
    for (b, built) in BUILDS.iter().zip(built) {
        match built {
            Built::Exe(e) => exes.push((b.name, e, [0, 1, 2].map(|c| has(b, c)))),
            // The monitors themselves were built with all features.
            Built::Crate(e) => r.violations.push((u64::MAX, format!("does not compile with {}: {e}", b.name))),
            Built::Other(e) => r.inconclusive.push(format!("the workload does not build with {}: {e}", b.name)),
        }
    }
    let cases = if env.thorough { PROP.thorough } else { PROP.quick };
    let mut seen: Vec<(&str, PathBuf, Vec<String>, [bool; 3])> = Vec::new();
    // The last one again: nothing depends on the process either.
    if let Some((_, e, has)) = exes.first().cloned() {
        exes.push(("no features, run again", e, has));
    }
    for (name, exe, has) in exes {
        let exe = &exe;
        match run(exe, env.seed, cases, 8) {
            Err((e, from)) => r.violations.push((from, json(&format!("with {name}, cases from {from} of seed {}: {e}", env.seed)))),
            Ok(lines) => {
                r.evaluations += lines.len() as u64;
                *r.counters.entry(if name.ends_with("again") { "runs compared" } else { "builds compared" }.into()).or_insert(0) += 1;
                r.counters.insert("cases per build".into(), cases);
                if seen.is_empty() {
                    let mut set = HashSet::new();
                    for l in &lines {
                        let mut it = l.split(' ').skip(1);
                        let (h, n) = (it.next(), it.next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0));
                        *r.counters.entry("lines told per build".into()).or_insert(0) += n;
                        if n > 1 {
                            set.insert(h.map(str::to_owned));
                        }
                    }
                    r.distinct = set.len() as u64;
                    for case in 0..3 {
                        let l = told(exe, env.seed, case);
                        r.samples.push(json(&l.join(" / ").chars().take(400).collect::<String>()));
                    }
                }
                for column in 0..3 {
                    // The first build which tells this as well.
                    let Some((first, other, want, _)) = seen.iter().find(|s| has[column] && s.3[column]) else { continue };
                    let differs = |i: usize| columns(&want[i])[column] != lines.get(i).map_or("", |l| columns(l)[column]);
                    *r.counters.entry(["compared: everything", "compared: serde", "compared: snapshots"][column].into()).or_insert(0) +=
                        want.iter().filter(|l| columns(l)[column] != "-").count() as u64;
                    if let Some(case) = (0..want.len()).find(|i| differs(*i)) {
                        let case = case as u64;
                        let d = first_difference(&told(other, env.seed, case), &told(exe, env.seed, case), column);
                        r.violations.push((
                            case,
                            json(&format!("case {case} of seed {} is not the same with {first} and with {name}: {d}", env.seed)),
                        ));
                    }
                }
                seen.push((name, exe.clone(), lines, has));
            }
        }
    }
    foreign(&mut r, &env);
    fw::finish(&PROP, &env, r, t)
}
