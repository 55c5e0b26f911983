//! Hostile inputs.
use crate::gen;
use crate::rng::Rng;

pub const CORPUS: &[&str] = &[
    include_str!("../corpus/k8s.yaml"),
    include_str!("../corpus/workflow.yaml"),
    include_str!("../corpus/compose.yaml"),
    include_str!("../corpus/mixed.yaml"),
];

const TOKENS: &[&[u8]] = &[
    b"\n", b"\n", b"\n", b"\r\n", b"\r", b" ", b" ", b"  ", b"    ", b"\t", b"a", b"b", b"key", b":", b": ", b":", b"- ", b"-", b"---",
    b"...", b"? ", b"?", b"[", b"]", b"{", b"}", b",", b", ", b"'", b"''", b"\"", b"\\", b"\\\"", b"\\n", b"\\x", b"\\x4", b"\\x41",
    b"\\u", b"\\u00e9", b"\\ud800", b"\\U0001f980", b"\\U00110000", b"\\U80000000", b"\\Uffffffff", b"\\xff", b"\\uffff", b"\\0", b"\\q", b"#", b" #", b"# c", b"|", b"|-", b"|+", b"|2", b">", b">-",
    b">+", b"&a", b"*a", b"!t", b"%YAML 1.2", b"%", b"@", b"`", b"~", b"null", b"true", b"False", b"0", b"1", b"-1", b"12.5", b"1e5", b"1e",
    b".", b".5", b"-", b"+", b"0x1f", b"\0", b"\x01", b"\x0c", b"\x7f", b"\x80", b"\xff", b"\xc3", b"\xc3\xa9", b"\xe7\xa7\x81", b"\xf0\x9f\xa6\x80",
    b"\xc2\x85", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"a: 1\n", b"- a\n", b"  b: 2\n", b"  - x\n", b"a: |\n  t\n", b"[a, b]", b"{a: b}",
    b"\n  ", b"\n    ", b"\n- ", b"\nk: ", b"\n\n",
];

/// Token soup.
pub fn soup(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1, 2, 3, 4, 6, 10, 20, 40, 100]);
    let mut out = Vec::new();
    // A small vocabulary makes interesting repetitions more likely.
    let vocab: Vec<&[u8]> = if r.pct(60) {
        (0..r.range(2, 9)).map(|_| *r.pick(TOKENS)).collect()
    } else {
        TOKENS.to_vec()
    };
    for _ in 0..n {
        out.extend_from_slice(r.pick(&vocab));
    }
    out
}

/// A few random edits to the bytes of a document.
pub fn mutate(r: &mut Rng, t: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        let at = r.below(t.len() + 1);
        match r.below(9) {
            0 if !t.is_empty() => {
                let end = (at + r.range(1, 5)).min(t.len());
                t.drain(at.min(end)..end);
            }
            1 => t.truncate(at),
            2 if at < t.len() => t[at] = *r.pick(b" \n\t:-,[]{}'\"\\#|>&*!%@`~?0aZ.\r\0\xff"),
            3 => {
                let b = *r.pick(b" \n\t:-,[]{}'\"\\#|>&*!%@`~?0aZ.\r\0\xff");
                t.insert(at, b);
            }
            4..=5 => {
                let k = *r.pick(TOKENS);
                t.splice(at..at, k.iter().copied());
            }
            6 => {
                let end = (at + r.range(1, 30)).min(t.len());
                let part = t[at..end].to_vec();
                let to = r.below(t.len() + 1);
                t.splice(to..to, part);
            }
            7 => {
                // Change the indentation of a line.
                if let Some(n) = t[..at].iter().rposition(|b| *b == b'\n') {
                    if r.pct(50) {
                        t.splice(n + 1..n + 1, std::iter::repeat(b' ').take(r.range(1, 3)));
                    } else if t.get(n + 1) == Some(&b' ') {
                        t.remove(n + 1);
                    }
                }
            }
            _ => {
                let end = (at + r.range(1, 4)).min(t.len());
                for b in &mut t[at..end] {
                    *b = r.u64() as u8;
                }
            }
        }
    }
}

/// Some document, not necessarily a valid one, and what kind it is.
pub fn hostile(r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(100) {
        0..=34 => {
            let mut o = gen::Opts::wild(r);
            o.limit(40);
            let mut t = gen::document(r, &o).text;
            mutate(r, &mut t);
            (t, "mutated document")
        }
        35..=74 => (soup(r), "token soup"),
        75..=84 => {
            let mut t = r.pick(CORPUS).as_bytes().to_vec();
            // A window of lines.
            if r.pct(50) {
                let a = r.below(t.len());
                let b = r.range(a, t.len());
                t = t[a..b].to_vec();
            }
            mutate(r, &mut t);
            (t, "mutated corpus")
        }
        85..=92 => {
            let n = r.below(60);
            ((0..n).map(|_| r.u64() as u8).collect(), "random bytes")
        }
        _ => {
            // Something repeated.
            let k: Vec<u8> = (0..r.range(1, 3)).flat_map(|_| r.pick(TOKENS).to_vec()).collect();
            let n = r.range(1, 300);
            let mut out = Vec::new();
            if r.pct(40) {
                out.extend_from_slice(r.pick(TOKENS));
            }
            for _ in 0..n {
                out.extend_from_slice(&k);
            }
            if r.pct(40) {
                out.extend_from_slice(r.pick(TOKENS));
            }
            (out, "repetition")
        }
    }
}
