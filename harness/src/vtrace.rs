//! Tells what happens in every case of a workload.
//!
//! `vtrace SEED FROM TO` prints digests of each case, and `vtrace SEED CASE` what
//! happens in a case.
use vlib::{fw, rng, trace};

fn main() {
    fw::quiet_panics();
    let a: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("a number")).collect();
    match a[..] {
        [seed, from, to, ..] => {
            let mut out = String::new();
            for case in from..to {
                let log = trace::log(seed, case);
                let digest = |s: String| if s.is_empty() { "-".to_owned() } else { format!("{:016x}", rng::hash(s.as_bytes())) };
                let [serde, snapshots] = trace::more().map(digest);
                out.push_str(&format!("{case} {:016x} {} {serde} {snapshots}\n", rng::hash(log.as_bytes()), log.lines().count()));
                if out.len() > 1 << 16 {
                    print!("{out}");
                    out.clear();
                }
            }
            print!("{out}");
        }
        [seed, case] => {
            print!("{}", trace::log(seed, case));
            for (what, s) in ["serde", "snapshot"].into_iter().zip(trace::more()) {
                s.lines().for_each(|l| println!("{what}: {l}"));
            }
        }
        _ => panic!("usage: vtrace SEED FROM TO"),
    }
}
