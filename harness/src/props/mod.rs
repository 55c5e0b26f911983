pub mod edits;
pub mod mem;
pub mod serdes;
pub mod text;
pub mod views;

use crate::fw::Prop;
use crate::model::M;
use crate::rng::Rng;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(text::PROPS.iter());
    v.extend(edits::PROPS.iter());
    v.extend(views::PROPS.iter());
    v.extend(serdes::PROPS.iter());
    v.extend(mem::PROPS.iter());
    v.sort_by_key(|p| p.id);
    v
}

/// Render bytes for a report.
pub fn show(b: &[u8]) -> String {
    format!("{:?}", bstr::BStr::new(b))
}

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Very many strings, all of them different: enough for about ten pairs to share
/// any given 32 bits of a hash, and with families which only differ in one byte
/// somewhere, or in how often something is repeated.
pub fn many_strings(seed: u64) -> Vec<String> {
    let mut out: Vec<String> = (0..300_000u64).map(|n| format!("s{:x}", (n + (seed & 0xffff_ffff)).wrapping_mul(0x9e37_79b9_7f4a_7c15))).collect();
    for n in 1..600 {
        out.push("x".repeat(n));
    }
    for n in 0..800 {
        let mut s = vec![b'y'; 800];
        s[n] = b'z';
        out.push(String::from_utf8(s).unwrap());
    }
    // Long ones.
    for (len, step) in [(2000, 20), (9000, 100), (70_000, 1100)] {
        for n in (0..len).step_by(step) {
            let mut s = vec![b'w'; len];
            s[n] = b'v';
            out.push(String::from_utf8(s).unwrap());
        }
    }
    // With equal hashes.
    for o in [0, 8] {
        for n in 0..64u8 {
            let k = [n & 3, n >> 2 & 3, n >> 4];
            out.push(String::from_utf8(crate::gen::collide_with(&k, o)).unwrap());
        }
    }
    for n in 0..256 {
        out.push((0..8).map(|b| if n >> b & 1 == 1 { "ab" } else { "ba" }).collect());
    }
    out
}

/// A document with a sequence and a mapping, each of more items than 16 bits can
/// number.
pub fn many_values(r: &mut Rng) -> (Vec<u8>, M) {
    let n = 65_536 + r.range(10, 3000);
    let mut text = Vec::new();
    let flow = r.pct(50);
    let mut seq = Vec::new();
    let mut map = Vec::new();
    text.extend_from_slice(if flow { b"s: [" } else { b"s:" });
    for i in 0..n {
        let v = format!("v{i}");
        let t = if flow { format!("{}{v}", if i == 0 { "" } else { ", " }) } else { format!("\n- {v}") };
        text.extend_from_slice(t.as_bytes());
        seq.push(M::str(v));
    }
    if flow {
        text.push(b']');
    }
    text.extend_from_slice(b"\nm:");
    for i in 0..n {
        text.extend_from_slice(format!("\n  k{i}: {i}").as_bytes());
        map.push((format!("k{i}").into_bytes(), M::Num(i.to_string())));
    }
    text.push(b'\n');
    let items = vec![
        (b"s".to_vec(), M::Seq { flow, items: seq }),
        (b"m".to_vec(), M::Map { flow: false, items: map }),
    ];
    (text, M::Map { flow: false, items })
}
