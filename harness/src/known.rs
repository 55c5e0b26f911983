//! Defects which are known, and listed in `known_findings.json`. The inputs which
//! trigger them are left out of what is generated, so each of them is probed
//! here, by the specific input which fails.
use crate::fw::{guarded, VERIF};
use nondestructive::yaml::{self, Any, Block, Chomp};
use std::process::{Command, Stdio};

pub enum Seen {
    /// What should be is what is.
    Right,
    /// Fails in the way it is known to fail.
    Known(String),
    /// Fails in another way.
    Other(String),
}
use Seen::*;

pub struct Probe {
    /// As listed in `known_findings.json`.
    pub id: &'static str,
    pub property: &'static str,
    pub run: fn() -> Seen,
}

pub const PROBES: &[Probe] = &[
    Probe { id: "escaped-backslash", property: "C06", run: escaped_backslash },
    Probe { id: "folded-blank-line", property: "C06", run: folded_blank_line },
    Probe { id: "deep-flow-nesting", property: "C04", run: || deep("flow") },
    Probe { id: "deep-inline-mappings", property: "C04", run: || deep("inline") },
    Probe { id: "nan-and-infinities", property: "C14", run: non_finite },
    Probe { id: "block-swallows-comment", property: "C12", run: block_comment },
];

fn string(text: &str) -> Result<String, String> {
    match yaml::from_slice(text) {
        Ok(d) => d.as_ref().as_str().map(str::to_owned).ok_or("not a string".to_owned()),
        Err(e) => Err(e.to_string()),
    }
}

fn decoded(text: &str, right: &str, known: &str) -> Seen {
    match string(text) {
        Ok(s) if s == right => Right,
        Ok(s) if s == known => Known(format!("{text:?} is read as {s:?} instead of {right:?}")),
        other => Other(format!("{text:?} is read as {other:?} instead of {right:?}")),
    }
}

fn escaped_backslash() -> Seen {
    decoded("\"a \\\\ b\"", "a \\ b", "a \" b")
}

fn folded_blank_line() -> Seen {
    decoded(">\n  a\n\n  b\n", "a\nb\n", "a b\n")
}

/// What [`deep`] runs in a process of its own.
pub fn deep_child(what: &str) {
    let text = match what {
        "flow" => "[".repeat(2_000_000),
        _ => "a: ".repeat(200_000),
    };
    let text = text.into_bytes();
    let _ = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || drop(yaml::from_slice(&text)))
        .unwrap()
        .join();
}

fn deep(what: &str) -> Seen {
    use std::os::unix::process::ExitStatusExt;
    let s = Command::new(std::env::current_exe().unwrap())
        .args(["deep-child", what])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    match s {
        Ok(s) if s.success() => Right,
        Ok(s) if matches!(s.signal(), Some(libc::SIGABRT | libc::SIGSEGV)) => Known(match what {
            "flow" => "2000000 times \"[\" overflows an 8 MiB stack".into(),
            _ => "200000 times \"a: \" on a line overflows an 8 MiB stack".into(),
        }),
        Ok(s) => Other(format!("deep nesting ({what}) ends with {s}")),
        Err(e) => Other(format!("deep nesting ({what}): {e}")),
    }
}

fn non_finite() -> Seen {
    let mut bad = Vec::new();
    for n in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        let mut doc = yaml::from_slice("a: 1").unwrap();
        if let Some(mut m) = doc.as_mut().into_mapping_mut() {
            m.insert_f64("a", n);
        }
        let text = doc.to_string();
        let seen = yaml::from_slice(&text).ok().map(|d| match d.as_ref().as_mapping().and_then(|m| m.get("a")) {
            Some(v) if v.as_f64().is_some_and(|m| m == n || m.is_nan() && n.is_nan()) => None,
            Some(v) => match v.into_any() {
                Any::String(_) => Some(true),
                _ => Some(false),
            },
            None => Some(false),
        });
        match seen {
            Some(None) => {}
            Some(Some(true)) => bad.push(text),
            _ => return Other(format!("{n} is written as {text:?}, which is neither read as a number nor a string")),
        }
    }
    if bad.is_empty() {
        Right
    } else {
        Known(format!("numbers which are not finite are written as {bad:?}, which are read as strings"))
    }
}

fn block_comment() -> Seen {
    let mut doc = yaml::from_slice("a: 1 # c\nb: 2\n").unwrap();
    if let Some(mut m) = doc.as_mut().into_mapping_mut() {
        if let Some(mut v) = m.get_mut("a") {
            v.set_block(["x"], Block::Literal(Chomp::Clip));
        }
    }
    let text = doc.to_string();
    let got = yaml::from_slice(&text).ok().and_then(|d| {
        let v = d.as_ref();
        let m = v.as_mapping()?;
        let s = m.get("a")?.as_str()?.to_owned();
        let n = m.get("b")?.as_u64()?;
        Some((s, n))
    });
    match got {
        Some((s, 2)) if s.trim_end() == "x" => Right,
        Some((s, 2)) if s.trim_end() == "x # c" => {
            Known(format!("setting \"a\" of \"a: 1 # c\\nb: 2\\n\" to a block \"x\" makes {text:?}, which is read as {s:?}"))
        }
        other => Other(format!("setting \"a\" of \"a: 1 # c\\nb: 2\\n\" to a block \"x\" makes {text:?}, which is read as {other:?}")),
    }
}

/// Probe everything which is known about a property. `Ok` if it's listed.
pub fn report(property: &str) -> Vec<Result<String, String>> {
    let text = std::fs::read_to_string(format!("{VERIF}/known_findings.json")).unwrap_or_default();
    let listed: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
    let listed = |id: &str| {
        listed["known"].as_array().is_some_and(|l| l.iter().any(|k| k["id"] == id && k["property"] == property))
    };
    let mut out = Vec::new();
    for p in PROBES.iter().filter(|p| p.property == property) {
        match guarded(p.run) {
            Ok(Right) => {}
            Ok(Known(what)) if listed(p.id) => out.push(Ok(format!("{}: {what}", p.id))),
            Ok(Known(what) | Other(what)) | Err(what) => out.push(Err(format!("probe {}: {what}", p.id))),
        }
    }
    out
}
