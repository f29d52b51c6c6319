//! The checks: one module per area, one `Prop` per property.

mod common;
mod p_arith;
mod p_cmp;
mod p_conv;
mod p_func;
mod p_ops;
mod p_state;
mod p_store;
mod p_text;

use oracle::engine::{self, Opts, Prop};
use oracle::guard;
use std::sync::atomic::Ordering::Relaxed;

#[cfg(not(feature = "asan"))]
#[global_allocator]
static GUARD: guard::Guard = guard::Guard;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(p_text::PROPS);
    v.extend(p_arith::PROPS);
    v.extend(p_cmp::PROPS);
    v.extend(p_conv::PROPS);
    v.extend(p_store::PROPS);
    v.extend(p_func::PROPS);
    v.extend(p_ops::PROPS);
    v.extend(p_state::PROPS);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let has = |k: &str| args.iter().any(|a| a == k);
    guard::INSTALLED.store(cfg!(not(feature = "asan")), Relaxed);
    guard::BUDGET.store(get("--budget").map_or(40_000_000, |b| b.parse().unwrap()), Relaxed);
    engine::CASE_SECONDS.store(get("--case-seconds").map_or(90, |b| b.parse().unwrap()), Relaxed);
    let all = props();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for p in &all {
            for g in p.groups {
                println!("{} {} {} {}", p.id, g.name, g.quick, g.thorough);
            }
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("first") {
        std::process::exit(p_state::first_child());
    }
    let id = get("--prop").expect("--prop");
    if id == "C11" {
        p_conv::prepare_locales();
    }
    engine::FAULTS_FAIL.store(id == "C30", Relaxed);
    let p = match all.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2);
        }
    };
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let ch = get("--choices").unwrap_or_default();
        let ch = ch.split_whitespace().map(|x| x.parse().expect("choice")).collect();
        std::process::exit(engine::run_choices(p, &get("--group").expect("--group"), ch, get("--log-choices")));
    }
    let part = get("--part").unwrap_or("0/1".into());
    let (k, n) = part.split_once('/').expect("--part k/n");
    let o = Opts {
        prop: id,
        thorough: has("--thorough"),
        seed: get("--seed").map_or(1, |s| s.parse().expect("seed")),
        config: get("--config").unwrap_or("?".into()),
        part: (k.parse().unwrap(), n.parse().unwrap()),
        threads: get("--threads").map_or(8, |s| s.parse().unwrap()),
        out: get("--out"),
        slots: get("--slots"),
        replay_dir: get("--replay-dir").unwrap_or("/tmp/replays".into()),
        only_group: get("--group"),
        only_case: get("--case").map(|s| s.parse().unwrap()),
        log_choices: get("--log-choices"),
        scale: get("--scale").map_or(1.0, |s| s.parse().unwrap()),
        digests: get("--digests"),
    };
    std::process::exit(engine::run(p, &o));
}
