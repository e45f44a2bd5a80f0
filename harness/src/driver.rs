//! Runs iterations of a check on several threads, collects coverage, writes evidence and replay
//! files, and turns the outcome into an exit code.
use crate::rng::Rng;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::Write,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
}
impl Cov {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counters {
            let e = self.counters.entry(k).or_default();
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
    }
}

pub fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Per-iteration context.
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub iter: u64,
    pub rng: Rng,
    pub cov: Cov,
    pub trace: Vec<String>,
    pub verbose: bool,
}
impl Ctx {
    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.verbose {
            eprintln!("    {s}");
        }
        if self.trace.len() > 600 {
            self.trace.drain(0..200);
        }
        self.trace.push(s);
    }
}

/// `Err` is a violation of the property being checked.
pub type Verdict = Result<(), String>;

pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_iters: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub run: fn(&mut Ctx) -> Verdict,
    /// counters that must be non-zero, else the run observed nothing (inconclusive)
    pub must_see: &'static [&'static str],
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_INFO.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, loc));
            }
        });
    }));
}
pub fn take_panic() -> (String, String) {
    PANIC_INFO
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("?".into(), "?".into()))
}

pub enum IterOut {
    Ok,
    Violation(String),
    HarnessError(String),
}

pub fn run_iter(check: &Check, ctx: &mut Ctx) -> IterOut {
    let r = catch_unwind(AssertUnwindSafe(|| (crate::mixed::family(ctx).unwrap_or(check.run))(ctx)));
    match r {
        Ok(Ok(())) => IterOut::Ok,
        Ok(Err(m)) => IterOut::Violation(m),
        Err(_) => {
            let (msg, loc) = take_panic();
            if msg.starts_with("ORACLE:") {
                IterOut::Violation(msg)
            } else if loc.starts_with("src/") || loc.contains("/verif/") {
                IterOut::HarnessError(format!("{msg} at {loc}"))
            } else {
                IterOut::Violation(format!("panic: {msg} at {loc}"))
            }
        }
    }
}

unsafe extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
fn cpu_ms(clk: i32) -> u64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clk, &mut ts) } != 0 {
        return 0;
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub tier: Tier,
    pub seed: u64,
    pub iters: Option<u64>,
    pub secs: Option<u64>,
    pub only: Option<u64>,
    pub verbose: bool,
    pub threads: usize,
    pub root: String,
}

const CPU_LIMIT_MS: u64 = 90_000;

fn write_replay(root: &str, check: &Check, a: &Args, iter: u64, msg: &str, trace: &[String]) -> String {
    let dir = format!("{root}/out");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-iter{}.txt", check.prop, a.seed, iter);
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = writeln!(
            f,
            "property {}\nviolation: {}\nreplay: {root}/run.sh {} --tier {} --seed {} --only {} --verbose\n\ntrace:",
            check.prop,
            msg,
            check.prop,
            if a.tier == Tier::Quick { "quick" } else { "thorough" },
            a.seed,
            iter
        );
        for t in trace {
            let _ = writeln!(f, "  {t}");
        }
    }
    path
}

/// Returns the exit code.
pub fn drive(check: &Check, a: &Args) -> i32 {
    install_hook();
    let start = Instant::now();
    let next = AtomicU64::new(a.only.unwrap_or(0));
    let stop = AtomicBool::new(false);
    let total = a.iters.unwrap_or(match a.tier {
        Tier::Quick => check.quick_iters * 3,
        Tier::Thorough => u64::MAX,
    });
    let secs = a.secs.unwrap_or(match a.tier {
        Tier::Quick => check.quick_secs.min(100),
        Tier::Thorough => check.thorough_secs,
    });
    let cov = Mutex::new(Cov::default());
    let iters_done = AtomicU64::new(0);
    let found: Mutex<Option<(u64, String, Vec<String>)>> = Mutex::new(None);
    let herr: Mutex<Option<(u64, String, Vec<String>)>> = Mutex::new(None);
    struct Mark {
        clk: AtomicU64,
        cpu0: AtomicU64,
        iter: AtomicU64,
        busy: AtomicBool,
    }
    let n_threads = if a.only.is_some() { 1 } else { a.threads };
    let marks: Vec<Mark> = (0..n_threads)
        .map(|_| Mark {
            clk: AtomicU64::new(0),
            cpu0: AtomicU64::new(0),
            iter: AtomicU64::new(0),
            busy: AtomicBool::new(false),
        })
        .collect();
    let live = AtomicU64::new(n_threads as u64);
    let mut hang: Option<u64> = None;
    std::thread::scope(|sc| {
        for t in 0..n_threads {
            let (next, stop, cov, iters_done, found, herr, marks, live) =
                (&next, &stop, &cov, &iters_done, &found, &herr, &marks, &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut clk = 0i32;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut clk) };
                    marks[t].clk.store(clk as i64 as u64, Ordering::SeqCst);
                    let mut local = Cov::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() >= secs {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if a.only.is_some_and(|o| o != i) || i >= total {
                            break;
                        }
                        marks[t].iter.store(i, Ordering::SeqCst);
                        marks[t].cpu0.store(cpu_ms(clk), Ordering::SeqCst);
                        marks[t].busy.store(true, Ordering::SeqCst);
                        let mut ctx = Ctx {
                            prop: check.prop,
                            tier: a.tier,
                            seed: a.seed,
                            iter: i,
                            rng: Rng::derive(a.seed, i, check.prop.bytes().map(u64::from).sum()),
                            cov: std::mem::take(&mut local),
                            trace: vec![],
                            verbose: a.verbose,
                        };
                        crate::sim::track_reset();
                        crate::vtime::reset();
                        let out = run_iter(check, &mut ctx);
                        marks[t].busy.store(false, Ordering::SeqCst);
                        local = std::mem::take(&mut ctx.cov);
                        iters_done.fetch_add(1, Ordering::Relaxed);
                        match out {
                            IterOut::Ok => {}
                            IterOut::Violation(m) => {
                                stop.store(true, Ordering::Relaxed);
                                let mut f = found.lock().unwrap();
                                if f.as_ref().is_none_or(|x| x.0 > i) {
                                    *f = Some((i, m, ctx.trace));
                                }
                            }
                            IterOut::HarnessError(m) => {
                                stop.store(true, Ordering::Relaxed);
                                *herr.lock().unwrap() = Some((i, m, ctx.trace));
                            }
                        }
                    }
                    cov.lock().unwrap().merge(local);
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: processor time spent in one iteration
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for m in &marks {
                let clk = m.clk.load(Ordering::SeqCst) as i64 as i32;
                if clk == 0 || !m.busy.load(Ordering::SeqCst) {
                    continue;
                }
                let used = cpu_ms(clk).saturating_sub(m.cpu0.load(Ordering::SeqCst));
                if used > CPU_LIMIT_MS && m.busy.load(Ordering::SeqCst) {
                    hang = Some(m.iter.load(Ordering::SeqCst));
                    break;
                }
            }
            if let Some(i) = hang {
                let msg = format!(
                    "an operation does not terminate: iteration {i} used more than {CPU_LIMIT_MS} ms of processor time (normal: well under 2 s)"
                );
                let p = write_replay(&a.root, check, a, i, &msg, &[]);
                let c = Cov::default();
                evidence(check, a, &c, start, iters_done.load(Ordering::SeqCst), 1);
                println!("{msg}");
                println!("VIOLATION property={} replay={p}", check.prop);
                std::process::exit(1);
            }
        }
    });
    let cov = cov.into_inner().unwrap();
    let done = iters_done.load(Ordering::Relaxed);
    let found = found.into_inner().unwrap();
    let herr = herr.into_inner().unwrap();
    evidence(check, a, &cov, start, done, found.is_some() as u64);
    println!(
        "{} {:?} seed {}: {} iterations, {} evaluations, {} distinct, {:.1}s",
        check.prop,
        a.tier,
        a.seed,
        done,
        cov.evals,
        cov.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    for (k, v) in &cov.counters {
        println!("  {k} = {v}");
    }
    if let Some((i, m, tr)) = found {
        let p = write_replay(&a.root, check, a, i, &m, &tr);
        println!("{m}");
        println!("VIOLATION property={} replay={p}", check.prop);
        return 1;
    }
    if let Some((i, m, tr)) = herr {
        let p = write_replay(&a.root, check, a, i, &m, &tr);
        println!("INCONCLUSIVE: harness error in iteration {i}: {m} (see {p})");
        return 3;
    }
    if a.only.is_none() {
        for k in check.must_see {
            if cov.counters.get(k).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE: nothing observed for {k}");
                return 3;
            }
        }
    }
    0
}

/// Run iterations [from, from+n) on this thread without touching files or judging behaviour: for
/// interpreters and sanitizers, which have their own way of reporting.
pub fn bare(check: &Check, seed: u64, from: u64, n: u64) {
    install_hook();
    let mut cov = Cov::default();
    let (mut ok, mut odd) = (0, 0);
    for i in from..from + n {
        println!("bare {} seed {seed} iter {i}", check.prop);
        let mut ctx = Ctx {
            prop: check.prop,
            tier: Tier::Quick,
            seed,
            iter: i,
            rng: Rng::derive(seed, i, check.prop.bytes().map(u64::from).sum()),
            cov: std::mem::take(&mut cov),
            trace: vec![],
            verbose: false,
        };
        crate::sim::track_reset();
        crate::vtime::reset();
        match run_iter(check, &mut ctx) {
            IterOut::Ok => ok += 1,
            _ => odd += 1,
        }
        cov = std::mem::take(&mut ctx.cov);
    }
    println!("events histories={ok} judged_elsewhere={odd} evaluations={}", cov.evals);
}

fn evidence(check: &Check, a: &Args, cov: &Cov, start: Instant, iters: u64, viol: u64) {
    if a.only.is_some() {
        return;
    }
    let mut s = String::from("{\n");
    s.push_str(&format!(
        " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n",
        js(check.prop),
        js(if a.tier == Tier::Quick { "quick" } else { "thorough" }),
        a.seed,
        js(check.level)
    ));
    s.push_str(&format!(
        " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"iterations\": {iters},\n  \"observed\": {{",
        cov.evals,
        cov.distinct.len(),
        js(check.rule)
    ));
    let c: Vec<String> = cov
        .counters
        .iter()
        .map(|(k, v)| format!("{}: {v}", js(k)))
        .collect();
    s.push_str(&c.join(", "));
    s.push_str("},\n  \"samples\": [");
    let c: Vec<String> = cov.samples.iter().map(|x| js(x)).collect();
    s.push_str(&c.join(",\n   "));
    s.push_str("]\n },\n");
    let c: Vec<String> = check.assumptions.iter().map(|x| js(x)).collect();
    s.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {viol}\n}}\n",
        c.join(", "),
        start.elapsed().as_secs_f64()
    ));
    let dir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", check.prop), s);
}
