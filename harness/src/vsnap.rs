//! Takes snapshots, and restores those of another platform.
//!
//! `vsnap SEED FROM TO FILE` prints a snapshot of each case, and what comes of the
//! snapshot of it in a file which was printed so.
use vlib::{fw, trace};

fn main() {
    fw::quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let [seed, from, to] = [0, 1, 2].map(|n| a[n].parse::<u64>().expect("a number"));
    let file = a.get(3).map(|f| std::fs::read_to_string(f).expect("snapshots")).unwrap_or_default();
    let mut given = file.lines().filter_map(|l| l.strip_prefix("snapshot "));
    for case in from..to {
        let hex: String = trace::take(seed, case).iter().map(|b| format!("{b:02x}")).collect();
        println!("snapshot {hex}");
        if let Some(hex) = given.next() {
            let bytes: Vec<u8> =
                (0..hex.len() / 2).map(|n| u8::from_str_radix(&hex[2 * n..2 * n + 2], 16).expect("a snapshot")).collect();
            println!("restored {case} {}", trace::restore(seed, case, &bytes));
        }
    }
}
