//! Runtime monitors for cfg-noodle. One binary, one subcommand per property.
#![allow(dead_code)]
mod conc;
mod content;
mod driver;
mod exec;
mod hist;
mod mixed;
mod nor;
mod norprops;
mod parse;
mod rng;
mod sim;
mod store;
mod types;
mod vtime;
mod wake;
mod worker;

use driver::{Args, Check, Tier};

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(hist::checks());
    v.extend(conc::checks());
    v.extend(mixed::checks());
    v.extend(worker::checks());
    v.extend(types::checks());
    v.extend(content::checks());
    v.extend(norprops::checks());
    v
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let prop = argv.get(1).cloned().unwrap_or_default();
    let get = |n: &str| {
        argv.iter()
            .position(|x| x == n)
            .and_then(|i| argv.get(i + 1))
            .cloned()
    };
    let has = |n: &str| argv.iter().any(|x| x == n);
    let tier = get("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_default();
    let a = Args {
        tier: if tier == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: get("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        iters: get("--iters").and_then(|s| s.parse().ok()),
        secs: get("--secs").and_then(|s| s.parse().ok()),
        only: get("--only").and_then(|s| s.parse().ok()),
        verbose: has("--verbose"),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        }),
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
    };
    let all = checks();
    let Some(c) = all.iter().find(|c| c.prop == prop) else {
        eprintln!(
            "usage: harness <{}> [--tier T] [--seed N] [--iters N] [--secs N] [--only I] [--verbose]",
            all.iter().map(|c| c.prop).collect::<Vec<_>>().join("|")
        );
        std::process::exit(2);
    };
    if has("--bare") {
        let from = get("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
        driver::bare(c, a.seed, from, a.iters.unwrap_or(10));
        return;
    }
    if has("--child") {
        std::process::exit(driver::drive(c, &a));
    }
    // Supervise: a crash of the child (signal) is a violation of the running check; being killed
    // is inconclusive.
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&argv[1..])
        .arg("--child")
        .status()
        .expect("spawn");
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    let sig = st.signal().unwrap_or(0);
    println!("child died with signal {sig}");
    if matches!(sig, 4 | 6 | 7 | 8 | 11) {
        let dir = format!("{}/out", a.root);
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{prop}-seed{}-crash.txt", a.seed);
        let _ = std::fs::write(
            &p,
            format!("property {prop}\nthe process crashed with signal {sig}\nreplay: {}\n", argv.join(" ")),
        );
        println!("VIOLATION property={prop} replay={p}");
        std::process::exit(1);
    }
    println!("INCONCLUSIVE: killed");
    std::process::exit(3);
}
