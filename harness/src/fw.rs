//! The monitor framework: deterministic cases run in worker processes, whose
//! observations (events, distinct states, violations, crashes) are collected by
//! a parent process which decides the verdict.
use crate::rng::{hash, mix, Rng};
use std::cell::Cell;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
/// CPU seconds a single case may use. Ordinary cases use milliseconds.
pub const CPU_LIMIT: f64 = 25.0;
/// Live heap bytes a worker may have. Ordinary workers use a few megabytes.
pub const HEAP_LIMIT: usize = 2 << 30;
const EXIT_HANG: i32 = 77;
const EXIT_HEAP: i32 = 78;

// ---------------------------------------------------------------------------
// Counting allocator.

pub struct Counting;
/// What the process has, for the limit.
static ALL: AtomicUsize = AtomicUsize::new(0);
static GUARD: AtomicBool = AtomicBool::new(false);

/// What a thread has, since other threads of a worker allocate as well.
struct Heap {
    live: Cell<i64>,
    peak: Cell<i64>,
    blocks: Cell<i64>,
}

thread_local! {
    static HEAP: Heap = const { Heap { live: Cell::new(1 << 40), peak: Cell::new(0), blocks: Cell::new(0) } };
}

fn grow(n: usize, blocks: i64) {
    let now = ALL.fetch_add(n, Relaxed).wrapping_add(n);
    if now as i64 > HEAP_LIMIT as i64 && GUARD.load(Relaxed) {
        unsafe { libc::_exit(EXIT_HEAP) };
    }
    let _ = HEAP.try_with(|h| {
        let now = h.live.get() + n as i64;
        h.live.set(now);
        h.peak.set(h.peak.get().max(now));
        h.blocks.set(h.blocks.get() + blocks);
    });
}

fn shrink(n: usize, blocks: i64) {
    ALL.fetch_sub(n, Relaxed);
    let _ = HEAP.try_with(|h| {
        h.live.set(h.live.get() - n as i64);
        h.blocks.set(h.blocks.get() - blocks);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size(), 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size(), 1);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size(), 0);
        } else {
            shrink(l.size() - n, 0);
        }
        System.realloc(p, l, n)
    }
}

/// The bytes in use by this thread, relative to some constant.
pub fn heap_live() -> usize {
    HEAP.with(|h| h.live.get() as usize)
}
pub fn heap_blocks() -> i64 {
    HEAP.with(|h| h.blocks.get())
}
pub fn heap_peak_reset() -> usize {
    HEAP.with(|h| h.peak.set(h.live.get()));
    heap_live()
}
pub fn heap_peak() -> usize {
    HEAP.with(|h| h.peak.get() as usize)
}

// ---------------------------------------------------------------------------
// Per-worker context.

#[derive(Default)]
pub struct Cx {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// What the current case is doing, for reports.
    pub note: String,
    pub thorough: bool,
    pub seed: u64,
    /// Print what is going on (replay).
    pub verbose: bool,
    want_sample: bool,
}

impl Cx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_owned(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max {k}");
        let v = self.counters.entry(k).or_insert(0);
        *v = (*v).max(n);
    }
    /// Record that a distinct non-trivial state was observed.
    pub fn distinct(&mut self, sig: &[u8]) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash(sig));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 1200 {
                let mut n = 1200;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// Describe the current case. Only kept for reports.
    pub fn note(&mut self, s: impl Into<String>) {
        self.note = s.into();
    }
}

pub type Res = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx, u64, &mut Rng) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters which have to be non-zero for the run to be conclusive.
    pub required: &'static [&'static str],
    /// Cases which are enumerated, and therefore are always run (the first ones).
    pub enumerated: u64,
    pub threads: bool,
}

pub fn case_rng(id: &str, seed: u64, case: u64) -> Rng {
    Rng::new(mix(hash(id.as_bytes()) ^ mix(seed)) ^ mix(case ^ 0x5bd1_e995))
}

// ---------------------------------------------------------------------------
// JSON output.

pub fn json(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------------------
// Worker.

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {msg}{at}")));
    }));
}

/// Run something of the code under test, turning panics into errors.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))
}

pub fn run_case(p: &Prop, cx: &mut Cx, seed: u64, case: u64) -> Res {
    let mut rng = case_rng(p.id, seed, case);
    cx.note.clear();
    match guarded(|| (p.run)(cx, case, &mut rng)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// The CPU time this thread has used.
pub fn thread_seconds() -> f64 {
    thread_cpu(libc::CLOCK_THREAD_CPUTIME_ID)
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

/// Ends the process if a single case uses far too much CPU time.
fn watchdog() {
    let clock = unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    };
    std::thread::spawn(move || {
        let mut at = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let case = CASE.load(Relaxed);
            let now = thread_cpu(clock);
            if case != at.0 {
                at = (case, now);
            } else if case != u64::MAX && now - at.1 > CPU_LIMIT {
                unsafe { libc::_exit(EXIT_HANG) };
            }
        }
    });
}

fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    // Deep documents are bounded by what an ordinary main thread can do.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

#[allow(clippy::too_many_arguments)]
pub fn worker(p: &Prop, seed: u64, thorough: bool, w: u64, n: u64, skip: u64, deadline: f64, out: &Path) -> ! {
    quiet_panics();
    GUARD.store(true, Relaxed);
    let total = if thorough { p.thorough } else { p.quick };
    big_stack(|| {
        watchdog();
        let t = Instant::now();
        let mut cx = Cx { thorough, seed, ..Cx::default() };
        let progress = fs::File::create(out.with_extension("at")).unwrap();
        let mut case = w;
        let mut evaluations = 0u64;
        let mut violation = None;
        while case < total {
            if case < skip {
                case += n;
                continue;
            }
            if case >= p.enumerated && t.elapsed().as_secs_f64() > deadline {
                cx.count("workers stopped by deadline");
                break;
            }
            use std::os::unix::fs::FileExt;
            let _ = progress.write_at(&case.to_le_bytes(), 0);
            CASE.store(case, Relaxed);
            cx.want_sample = evaluations < 2 || cx.samples.is_empty();
            evaluations += 1;
            if let Err(e) = run_case(p, &mut cx, seed, case) {
                violation = Some((case, e, cx.note.clone()));
                break;
            }
            case += n;
        }
        CASE.store(u64::MAX, Relaxed);
        let mut s = String::new();
        s.push_str(&format!("E {evaluations}\n"));
        for (k, v) in &cx.counters {
            s.push_str(&format!("C {v} {k}\n"));
        }
        for v in &cx.samples {
            s.push_str(&format!("S {}\n", json(v)));
        }
        if let Some((case, e, note)) = violation {
            s.push_str(&format!("V {case} {} {}\n", json(&e).replace(' ', "\\u0020"), json(&note)));
        }
        s.push_str("DONE\n");
        let mut d = Vec::with_capacity(cx.distinct.len() * 8);
        for h in &cx.distinct {
            d.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(out.with_extension("set"), d).unwrap();
        fs::write(out, s).unwrap();
    });
    std::process::exit(0);
}

/// Run a single case in this process; exit code 10 if it's a violation.
pub fn one(p: &Prop, seed: u64, thorough: bool, case: u64, verbose: bool) -> ! {
    quiet_panics();
    GUARD.store(true, Relaxed);
    let r = big_stack(|| {
        watchdog();
        CASE.store(case, Relaxed);
        let mut cx = Cx { thorough, seed, verbose, want_sample: true, ..Cx::default() };
        let r = run_case(p, &mut cx, seed, case);
        if verbose {
            for s in &cx.samples {
                println!("{s}");
            }
        }
        r.map_err(|e| (e, cx.note))
    });
    match r {
        Ok(()) => {
            if verbose {
                println!("case {case} of {}: held", p.id);
            }
            std::process::exit(0)
        }
        Err((e, note)) => {
            println!("{e}\n{note}");
            std::process::exit(10)
        }
    }
}

// ---------------------------------------------------------------------------
// Parent.

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Already JSON encoded extra coverage fields.
    pub extra: Vec<(String, String)>,
    /// `(case, what)`; `u64::MAX` if it's not a case.
    pub violations: Vec<(u64, String)>,
    pub inconclusive: Vec<String>,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
}

impl Env {
    pub fn new(id: &str) -> Env {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|s| s == "thorough");
        let scratch = PathBuf::from(format!("{VERIF}/scratch/{id}.{}", std::process::id()));
        let _ = fs::remove_dir_all(&scratch);
        fs::create_dir_all(&scratch).unwrap();
        Env { seed, thorough, scratch }
    }
    pub fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
}

impl Drop for Env {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.scratch);
    }
}

fn describe(status: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(EXIT_HANG), _) => Some(format!("does not finish within {CPU_LIMIT} CPU seconds")),
        (Some(EXIT_HEAP), _) => Some(format!("needs more than {HEAP_LIMIT} bytes of memory")),
        (_, Some(s)) => Some(format!("process killed by signal {s}")),
        _ => None,
    }
}

/// Run all cases of a property in worker processes.
pub fn run_workers(p: &Prop, env: &Env) -> Report {
    let exe = std::env::current_exe().unwrap();
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8) as u64;
    let deadline: f64 = std::env::var("VERIF_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if env.thorough { 700.0 } else { 300.0 });
    let mut r = Report::default();
    let mut set = HashSet::new();
    let spawn = |w: u64, skip: u64, out: &Path| {
        Command::new(&exe)
            .args([
                "worker",
                p.id,
                &env.seed.to_string(),
                env.tier(),
                &w.to_string(),
                &n.to_string(),
                &skip.to_string(),
                &deadline.to_string(),
                out.to_str().unwrap(),
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(out.with_extension("err")).unwrap())
            .spawn()
            .unwrap()
    };
    let children: Vec<_> = (0..n)
        .map(|w| {
            let out = env.scratch.join(format!("w{w}"));
            (w, spawn(w, 0, &out), out)
        })
        .collect();
    for (w, mut child, out) in children {
        let status = child.wait().unwrap();
        let text = fs::read_to_string(&out).unwrap_or_default();
        for line in text.lines() {
            let (tag, rest) = line.split_at(1);
            let rest = rest.trim_start();
            match tag {
                "E" => r.evaluations += rest.parse::<u64>().unwrap_or(0),
                "C" => {
                    if let Some((v, k)) = rest.split_once(' ') {
                        let v: u64 = v.parse().unwrap_or(0);
                        let e = r.counters.entry(k.to_owned()).or_insert(0);
                        if k.starts_with("max ") {
                            *e = (*e).max(v);
                        } else {
                            *e += v;
                        }
                    }
                }
                "S" if r.samples.len() < 6 => r.samples.push(rest.to_owned()),
                "V" => {
                    let mut it = rest.splitn(2, ' ');
                    let case: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                    r.violations.push((case, it.next().unwrap_or("").to_owned()));
                }
                _ => {}
            }
        }
        if let Ok(d) = fs::read(out.with_extension("set")) {
            for c in d.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if !text.ends_with("DONE\n") {
            let at = fs::read(out.with_extension("at")).unwrap_or_default();
            let case = at.try_into().ok().map(u64::from_le_bytes);
            let err = fs::read_to_string(out.with_extension("err")).unwrap_or_default();
            match (describe(status), case) {
                (Some(what), Some(case)) => {
                    // Confirm in a fresh process.
                    let again = one_child(p, env, case);
                    if again.starts_with("held") || again.starts_with("error") {
                        r.inconclusive.push(format!(
                            "worker {w}: {what} in case {case}, which did not repeat: {again} {err}"
                        ));
                    } else {
                        r.violations.push((case, json(&again)));
                    }
                }
                _ => r.inconclusive.push(format!("worker {w} ended with {status}: {err}")),
            }
        }
    }
    r.distinct = set.len() as u64;
    r
}

fn one_child(p: &Prop, env: &Env, case: u64) -> String {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id, &env.seed.to_string(), env.tier(), &case.to_string()])
        .output();
    match out {
        Err(e) => format!("error {e}"),
        Ok(o) => match describe(o.status) {
            Some(d) => d,
            None if o.status.code() == Some(0) => "held".into(),
            None if o.status.code() == Some(10) => String::from_utf8_lossy(&o.stdout).into_owned(),
            None => format!("error {}", o.status),
        },
    }
}

pub fn finish(p: &Prop, env: &Env, r: Report, t: Instant) -> ! {
    let mut r = r;
    quiet_panics();
    #[cfg(feature = "full")]
    for k in crate::known::report(p.id) {
        match k {
            Ok(k) => {
                println!("KNOWN-FINDING: property={} {k}", p.id);
                r.extra.push(("known_finding".into(), json(&k)));
            }
            Err(e) => r.violations.push((u64::MAX, e)),
        }
    }
    let dir = PathBuf::from(format!("{VERIF}/evidence"));
    fs::create_dir_all(&dir).unwrap();
    for k in p.required {
        if r.counters.get(*k).copied().unwrap_or(0) == 0 && r.violations.is_empty() {
            r.inconclusive.push(format!("nothing of this was observed: {k}"));
        }
    }
    let mut c = Vec::new();
    c.push(format!("\"evaluations\": {}", r.evaluations));
    c.push(format!("\"distinct_nontrivial\": {}", r.distinct));
    c.push(format!("\"rule\": {}", json(p.rule)));
    c.push(format!("\"samples\": [{}]", r.samples.join(", ")));
    let obs: Vec<_> = r.counters.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    c.push(format!("\"observed\": {{{}}}", obs.join(", ")));
    for (i, (k, v)) in r.extra.iter().enumerate() {
        // Keys are unique.
        let n = r.extra[..i].iter().filter(|(l, _)| l == k).count();
        let k = if n == 0 { k.clone() } else { format!("{k}_{}", n + 1) };
        c.push(format!("{}: {v}", json(&k)));
    }
    let a: Vec<_> = p.assumptions.iter().map(|s| json(s)).collect();
    let ev = format!(
        "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        p.id,
        env.tier(),
        env.seed,
        p.level,
        c.join(",\n    "),
        a.join(", "),
        t.elapsed().as_secs_f64(),
        r.violations.len()
    );
    fs::write(dir.join(format!("{}.json", p.id)), ev).unwrap();
    let _ = std::io::stdout().flush();
    println!(
        "{} {}: {} cases, {} distinct, {:.1}s",
        p.id,
        env.tier(),
        r.evaluations,
        r.distinct,
        t.elapsed().as_secs_f64()
    );
    let mut code = 0;
    if !r.violations.is_empty() {
        r.violations.sort();
        let dir = PathBuf::from(format!("{VERIF}/replays"));
        fs::create_dir_all(&dir).unwrap();
        let mut n = 0;
        for (case, what) in &r.violations {
            n += 1;
            if n > 3 {
                break;
            }
            let path = dir.join(format!("{}-{}-{n}.json", p.id, env.seed));
            fs::write(
                &path,
                format!(
                    "{{\"property\": \"{}\", \"seed\": {}, \"tier\": \"{}\", \"case\": {}, \"what\": {}}}\n",
                    p.id,
                    env.seed,
                    env.tier(),
                    case,
                    if what.starts_with('"') { what.replacen("\" \"", "\", \"note\": \"", 1) } else { json(what) }
                ),
            )
            .unwrap();
            println!("VIOLATION property={} replay={}", p.id, path.display());
            println!("  case {case}: {}", what.replace("\\u0020", " "));
        }
        code = 1;
    } else if !r.inconclusive.is_empty() {
        for i in &r.inconclusive {
            println!("INCONCLUSIVE property={}: {i}", p.id);
        }
        code = 2;
    }
    let _ = fs::remove_dir_all(&env.scratch);
    std::process::exit(code)
}
