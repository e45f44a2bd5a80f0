//! Checks that draw their iterations from several workload families.
use crate::{
    conc, content,
    driver::{Check, Ctx, Verdict},
    hist,
    sim::{track_bad, track_created, track_live},
    wake,
};

type Run = fn(&mut Ctx) -> Verdict;

/// Further workload families a check draws from, with their share in percent.
fn families(prop: &str) -> &'static [(&'static str, usize, Run)] {
    match prop {
        "P01" => &[("concurrent_histories", 10, conc::iteration)],
        "P03" => &[("sequential_histories", 15, hist::iteration)],
        "P04" | "P05" | "P07" | "P19" | "P20" | "P21" => &[("concurrent_histories", 20, conc::iteration)],
        "P06" => &[("concurrent_histories", 50, conc::iteration)],
        "P09" => &[("sequential_histories", 30, hist::iteration)],
        "P10" => &[("sequential_histories", 10, hist::iteration)],
        "P13" => &[("sequential_histories", 25, hist::iteration)],
        "P16" => &[
            ("hydrations", 25, content::p03),
            ("sequential_histories", 8, hist::iteration),
            ("concurrent_histories", 4, conc::iteration),
        ],
        "P17" => &[("hydrations", 20, content::p03), ("sequential_histories", 10, hist::iteration)],
        "P24" => &[("request_histories", 40, wake::iteration)],
        _ => &[],
    }
}

pub fn family(c: &mut Ctx) -> Option<Run> {
    let f = families(c.prop);
    if f.is_empty() {
        return None;
    }
    let mut x = c.rng.below(100);
    for (name, share, run) in f {
        if x < *share {
            c.cov.count(name);
            return Some(*run);
        }
        x -= share;
    }
    None
}

fn p08(c: &mut Ctx) -> Verdict {
    if c.rng.chance(2, 5) {
        c.cov.count("concurrent_histories");
        conc::iteration(c)
    } else {
        c.cov.count("sequential_histories");
        hist::iteration(c)
    }
}

/// The ledger must be balanced after a sequential history, too (its boots detach everything).
fn p11(c: &mut Ctx) -> Verdict {
    if c.rng.chance(3, 5) {
        c.cov.count("concurrent_histories");
        return conc::iteration(c);
    }
    c.cov.count("sequential_histories");
    hist::iteration(c)?;
    c.cov.count("ledgers_closed");
    c.cov.evals += 1;
    c.cov.add("payloads_tracked", track_created());
    let bad = track_bad();
    if !bad.is_empty() {
        return Err(format!("payload ledger: {}", bad.join("; ")));
    }
    if track_live() != 0 {
        return Err(format!(
            "{} payload instances are still alive after all nodes were detached",
            track_live()
        ));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            prop: "P08",
            level: "fault_enumeration",
            rule: "pending-change model over sequential histories with faults (writes that must or must not touch storage, records that must hold every pending change) and over concurrent schedules; distinct = (contents, call, outcome) triples and schedules",
            assumptions: &[],
            quick_iters: 150_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: p08,
            must_see: &["writes_noop", "writes_stored", "final_values_judged", "concurrent_histories"],
        },
        Check {
            prop: "P11",
            level: "exploration",
            rule: "every payload instance gets an identity at birth (decode, clone, default); double drops, uses after drop and survivors are reported; distinct = schedules and traces",
            assumptions: &["one payload type with tracked instances, whose decoding also fails after construction"],
            quick_iters: 120_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: p11,
            must_see: &["ledgers_closed", "payloads_tracked", "concurrent_histories", "sequential_histories"],
        },
    ]
}
