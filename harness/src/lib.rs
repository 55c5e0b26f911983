pub mod edit;
pub mod fw;
pub mod gen;
#[cfg(feature = "full")]
pub mod known;
#[cfg(feature = "full")]
pub mod ly;
pub mod model;
pub mod rng;
#[cfg(feature = "full")]
pub mod rec;
#[cfg(feature = "full")]
pub mod zoo;

/// Test if a byte string is a plain scalar that everybody agrees is a string.
pub fn plain_ok(s: &[u8], flow: bool) -> bool {
    let Some(&first) = s.first() else {
        return false;
    };
    if b"-?:,[]{}#&*!|>'\"%@` \t+.~0123456789".contains(&first) {
        return false;
    }
    if matches!(s.last(), Some(b' ' | b'\t' | b':')) {
        return false;
    }
    let has = |p: &[u8]| s.windows(p.len()).any(|w| w == p);
    if has(b": ") || has(b" #") || has(b"\t#") || has(b":\t") {
        return false;
    }
    if flow && s.iter().any(|b| b"[]{},".contains(b)) {
        return false;
    }
    if flow && [b":[", b":]", b":{", b":}", b":,", b":?"].iter().any(|p| has(*p)) {
        return false;
    }
    if s.iter().any(|b| *b < 0x20 && *b != b'\t' || *b == 0x7f) {
        return false;
    }
    !["true", "false", "null"]
        .iter()
        .any(|k| s.eq_ignore_ascii_case(k.as_bytes()))
}
#[cfg(feature = "full")]
pub mod configs;
#[cfg(feature = "full")]
pub mod sanit;
pub mod soup;
pub mod trace;
#[cfg(feature = "full")]
pub mod props;
