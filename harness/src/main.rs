use std::path::PathBuf;
use std::time::Instant;
use vlib::fw::{self, Counting, Env, Prop};
use vlib::props;

#[global_allocator]
static ALLOC: Counting = Counting;

fn prop(id: &str) -> &'static Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    match a[..] {
        ["check", "C22"] => vlib::configs::check(),
        ["check", "C24"] => vlib::sanit::threads(),
        ["check", "C25"] => vlib::sanit::memory(),
        ["check", id] => {
            let p = prop(id);
            let t = Instant::now();
            let env = Env::new(id);
            let r = fw::run_workers(p, &env);
            fw::finish(p, &env, r, t);
        }
        ["worker", id, seed, tier, w, n, skip, deadline, out] => fw::worker(
            prop(id),
            seed.parse().unwrap(),
            tier == "thorough",
            w.parse().unwrap(),
            n.parse().unwrap(),
            skip.parse().unwrap(),
            deadline.parse().unwrap(),
            &PathBuf::from(out),
        ),
        ["one", id, seed, tier, case] => {
            fw::one(prop(id), seed.parse().unwrap(), tier == "thorough", case.parse().unwrap(), false)
        }
        ["show", id, seed, tier, case] => {
            fw::one(prop(id), seed.parse().unwrap(), tier == "thorough", case.parse().unwrap(), true)
        }
        ["deep-child", what] => vlib::known::deep_child(what),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: vmon check ID | show ID SEED TIER CASE | list");
            std::process::exit(2)
        }
    }
}
