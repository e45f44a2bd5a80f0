//! The real default worker under a virtual clock (P14, P15).
//!
//! User tasks attach, write, detach and sleep for times around the worker's debounce windows.
//! The clock only moves when every task is at rest, so "bounded time" is judged exactly:
//! before the clock moves past a deadline, nothing may be outstanding that was due.
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::{Event, Outcome, Sim, cancel_after, run_now},
    nor::NorBack,
    parse,
    rng::Rng,
    sim::{List, SimMutex, Val, many_keys, pick_keys, fresh_id, stored_id},
    store::{Backend, CtlRef, ElemStore, Fault, Mon},
    vtime,
};
use cfg_noodle::{StorageListNode, StorageListNodeHandle, worker_task::default_worker_task};
use embassy_time::Timer;
use sequential_storage::cache::NoCache;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

const K: usize = 3;
const MS: u64 = 1_000;
const S: u64 = 1_000_000;

struct M {
    prop: &'static str,
    ctl: CtlRef,
    keys: Vec<&'static str>,
    nodes: Vec<&'static StorageListNode<Val>>,
    list: &'static List<K>,
    /// attach calls in flight: token -> node
    attaching: BTreeMap<u64, usize>,
    tok: u64,
    /// values written through a handle and not yet seen in storage
    pend: Vec<Option<u64>>,
    /// the value a handle must load
    cur: Vec<Option<u64>>,
    last_req: u64,
    delayed_at: u64,
    /// completion times of handle writes
    write_times: Vec<u64>,
    /// times of attach calls and their completions: a read, and then the delayed collection,
    /// follows
    attach_times: Vec<u64>,
    /// no more requests
    halted: bool,
    stop: Event,
    trace: Vec<String>,
    verbose: bool,
    viol: Option<String>,
    cnt: BTreeMap<&'static str, u64>,
    worker_gone: Option<u64>,
}
impl M {
    fn log(&mut self, s: String) {
        let s = format!("t={:.3}s {s}", vtime::now() as f64 / 1e6);
        if self.verbose {
            eprintln!("    {s}");
        }
        self.trace.push(s);
    }
    fn count(&mut self, k: &'static str) {
        *self.cnt.entry(k).or_default() += 1;
    }
    fn request(&mut self) {
        self.last_req = vtime::now();
        // the operation under way counts in full
        let c = self.ctl.borrow();
        self.delayed_at = c.delayed.saturating_sub(c.delays.iter().copied().max().unwrap_or(0));
    }
    fn fail(&mut self, props: &[&str], s: String) {
        if props.contains(&self.prop) && self.viol.is_none() {
            self.log(format!("VIOLATION {s}"));
            self.viol = Some(s);
        }
    }
    fn stored(&self, n: usize) -> Option<u64> {
        let e = self.ctl.borrow().shadow_elems();
        let r = parse::newest(&e)?;
        r.kv.iter().find(|x| x.0 == self.keys[n]).and_then(|x| stored_id(&x.1))
    }
    /// Drop what has reached storage from the pending list.
    fn refresh(&mut self) {
        for n in 0..self.pend.len() {
            if let Some(id) = self.pend[n]
                && self.stored(n).is_some_and(|s| s >= id)
            {
                self.pend[n] = None;
                self.count("writes_became_durable");
            }
        }
    }
}
type W = Rc<RefCell<M>>;
type H = StorageListNodeHandle<Val, SimMutex, K>;

async fn sleep(us: u64) {
    if us > 0 {
        Timer::after_micros(us).await;
    }
}

async fn attach(w: &W, n: usize, cancel: Option<usize>) -> Option<H> {
    let (node, list, tok) = {
        let mut g = w.borrow_mut();
        g.tok += 1;
        let t = g.tok;
        g.attaching.insert(t, n);
        g.request();
        g.attach_times.push(vtime::now());
        g.log(format!("attach {n}"));
        (g.nodes[n], g.list, t)
    };
    let id = fresh_id();
    let fut = node.attach_with_default(list, move || Val::new(id, 3));
    let r = match cancel {
        None => Some(fut.await),
        Some(k) => cancel_after(fut, k).await,
    };
    let mut g = w.borrow_mut();
    g.attaching.remove(&tok);
    g.attach_times.push(vtime::now());
    match r {
        None => {
            g.log(format!("attach {n} dropped"));
            g.count("attach_dropped");
            None
        }
        Some(Err(e)) => {
            g.log(format!("attach {n} -> {e:?}"));
            g.fail(&["P14"], format!("attach of an unattached node with a unique key fails: {e:?}"));
            None
        }
        Some(Ok(h)) => {
            let got = h.load().id;
            g.log(format!("attach {n} -> ok, {got}{}", if got == id { " (default)" } else { "" }));
            g.count("attach_ok");
            g.cur[n] = Some(got);
            Some(h)
        }
    }
}

async fn write(w: &W, n: usize, h: &mut H, pad: u16) {
    let id = fresh_id();
    let v = Val::new(id, pad);
    let r = h.write(&v).await;
    let mut g = w.borrow_mut();
    g.log(format!("write {n} := {id} -> {r:?}"));
    if r.is_err() {
        g.fail(&["P14"], format!("write through a live handle fails: {r:?}"));
        return;
    }
    g.count("write_ok");
    g.cur[n] = Some(id);
    if g.stop.fired() {
        return;
    }
    g.pend[n] = Some(id);
    let t = vtime::now();
    g.write_times.push(t);
    g.request();
    drop(g);
    if h.load().id != id {
        w.borrow_mut().fail(&["P14"], "load does not return the value just written".into());
    }
}

#[derive(Clone)]
struct UserOpts {
    steps: usize,
    sleeps: Vec<u64>,
    detach: u32,
    cancel: u32,
    max_pad: usize,
}

async fn user(w: W, mine: Vec<usize>, mut rng: Rng, o: UserOpts) {
    let mut hs: BTreeMap<usize, H> = BTreeMap::new();
    let halted = |w: &W| {
        let g = w.borrow();
        g.halted || g.stop.fired()
    };
    for _ in 0..o.steps {
        if halted(&w) {
            break;
        }
        let n = *rng.pick(&mine);
        if let Some(h) = hs.get_mut(&n) {
            match rng.below(8) {
                0 if rng.chance(o.detach, 4) => {
                    hs.remove(&n);
                    if rng.chance(1, 2) {
                        let (node, list) = {
                            let mut g = w.borrow_mut();
                            g.pend[n] = None;
                            (g.nodes[n], g.list)
                        };
                        let r = node.detach(list).await;
                        let mut g = w.borrow_mut();
                        g.pend[n] = None;
                        g.log(format!("detach {n} -> {r:?}"));
                        g.count("detach");
                    }
                }
                1 => {
                    let l = h.load().id;
                    let mut g = w.borrow_mut();
                    if g.cur[n] != Some(l) {
                        let want = g.cur[n];
                        g.fail(&["P14", "P15"], format!("load of key {n} returns {l}, expected {want:?}"));
                    }
                }
                _ => {
                    let pad = rng.below(o.max_pad + 1) as u16;
                    write(&w, n, h, pad).await
                }
            }
        } else {
            let c = rng.chance(o.cancel, 8).then(|| rng.range(1, 4));
            if let Some(h) = attach(&w, n, c).await {
                hs.insert(n, h);
            }
        }
        if rng.chance(2, 3) {
            let s = *rng.pick(&o.sleeps);
            sleep(s).await;
        }
    }
    // keep the handles until the end of the run: a detach would discard pending writes
    HELD.with(|x| x.borrow_mut().extend(hs.into_values()));
    w.borrow_mut().count("users_done");
}
thread_local! {
    static HELD: RefCell<Vec<H>> = const { RefCell::new(vec![]) };
}

/// Deadline for the outstanding attaches / writes, given when requests paused.
fn deadlines(g: &M) -> (u64, u64) {
    let c = g.ctl.borrow();
    let extra = c.delayed - g.delayed_at;
    let lr = g.last_req;
    // a delayed first collection restarts the debounce windows once
    let slack = 2 * S + c.delayed;
    let gc_possible = |until: u64| {
        c.iter_times.iter().chain(&g.attach_times).any(|r| r + 120 * S + slack >= lr && r + 120 * S <= until + slack)
    };
    // a write that meets an unhydrated node is tried again, at most one window later
    let recent_write = g.write_times.iter().any(|t| t + 25 * S + slack >= lr) || g.pend.iter().any(|p| p.is_some());
    let mut a = 100 * MS;
    if recent_write {
        a += 150 * MS;
    }
    if gc_possible(lr + S) {
        a += 100 * MS;
    }
    let mut wr = 10 * S + 350 * MS;
    if gc_possible(lr + 11 * S) {
        wr += 10 * S + 350 * MS;
    }
    (lr + a + extra, lr + wr + extra)
}

/// Nothing that is due before `next` may be outstanding now.
fn judge(w: &W, next: u64) {
    let mut g = w.borrow_mut();
    g.refresh();
    let (a, wr) = deadlines(&g);
    if next > a {
        g.count("attach_deadlines_judged");
        if let Some(n) = g.attaching.values().next().copied() {
            let lr = g.last_req;
            g.fail(
                &["P14"],
                format!(
                    "attach of key {n} still waits at t={:.3}s although requests paused at t={:.3}s",
                    next as f64 / 1e6,
                    lr as f64 / 1e6
                ),
            );
        }
    }
    if next > wr {
        g.count("write_deadlines_judged");
        if let Some(n) = (0..g.pend.len()).find(|n| g.pend[*n].is_some()) {
            let (lr, id) = (g.last_req, g.pend[n].unwrap());
            g.fail(
                &["P14"],
                format!(
                    "value {id} of key {n} is not durable at t={:.3}s although requests paused at t={:.3}s",
                    next as f64 / 1e6,
                    lr as f64 / 1e6
                ),
            );
        }
    }
}

struct Run<'a> {
    w: W,
    sim: Sim<'a>,
    rng: Rng,
    faulty: bool,
}
impl Run<'_> {
    fn viol(&self) -> Verdict {
        match self.w.borrow_mut().viol.take() {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    /// Let everything happen that can happen now; false when the budget is used up.
    fn rest(&mut self) -> Verdict {
        let out = self.sim.settle(&mut self.rng, 300_000);
        if out == Outcome::Limit {
            let mut g = self.w.borrow_mut();
            g.fail(&["P14", "P15"], "the worker spins: 300000 polls without the clock moving".into());
            g.halted = true;
        }
        self.viol()
    }
    /// Run until `until`, judging deadlines on the way when `strict`.
    fn run_to(&mut self, until: u64, strict: bool) -> Verdict {
        loop {
            self.rest()?;
            let next = vtime::next_deadline().unwrap_or(u64::MAX).min(until);
            if strict {
                judge(&self.w, next);
                self.viol()?;
            }
            {
                let mut g = self.w.borrow_mut();
                if let Some(t) = g.worker_gone
                    && !g.stop.fired()
                {
                    g.fail(&["P14"], format!("the worker returned at t={}us without being stopped", t));
                }
            }
            self.viol()?;
            if next >= until && vtime::now() >= until {
                return Ok(());
            }
            vtime::advance_to(next);
            if vtime::now() >= until {
                return self.rest();
            }
        }
    }
}

/// In runs without storage delays: no record is appended while handle writes keep coming at
/// less than the debounce time.
fn early_appends(w: &W) {
    let mut g = w.borrow_mut();
    let c = g.ctl.clone();
    let c = c.borrow();
    let mut bad = None;
    for p in &c.push_times {
        if let Some(t) = g.write_times.iter().find(|t| **t < *p && *p - **t < 10 * S) {
            bad = Some(format!(
                "a record is appended at t={:.3}s although the latest handle write was at t={:.3}s: less than the 10 s debounce time",
                *p as f64 / 1e6,
                *t as f64 / 1e6
            ));
        }
    }
    if let Some(b) = bad {
        g.fail(&["P14"], b);
    }
    let n = c.push_times.len() as u64;
    *g.cnt.entry("appends_judged_for_debounce").or_default() += n;
}

fn go_on<B: Backend>(c: &mut Ctx, empty: B, max_pad: usize) -> Verdict
where
    B::Error: std::fmt::Debug,
{
    HELD.with(|h| h.borrow_mut().clear());
    let p = c.prop;
    let mut rng = Rng::new(c.rng.u64());
    let nn = if rng.chance(1, 30) { rng.range(5, 14) } else { rng.range(1, 4) };
    // the last one is a spare
    let keys = if nn > 4 { many_keys(nn + 1) } else { pick_keys(&mut rng, nn + 1, 40) };
    let list: &'static List<K> = Box::leak(Box::new(List::<K>::new()));
    let nodes: Vec<&'static StorageListNode<Val>> =
        keys.iter().map(|k| &*Box::leak(Box::new(StorageListNode::new(k)))).collect();
    let mut inner = empty;
    if rng.chance(1, 2) {
        inner.preload(&crate::hist::prior_content(&mut rng, &keys, K));
    }
    let sto = Mon::new(inner, rng.u64());
    let ctl = sto.ctl.clone();
    let faulty = rng.chance(1, 3);
    let slow = rng.chance(1, 3);
    {
        let mut g = ctl.borrow_mut();
        g.yield_level = *rng.pick(&[0u32, 2, 6]);
        if slow {
            g.delays = match rng.below(3) {
                0 => vec![200],
                1 => vec![MS, 7 * MS],
                _ => vec![40 * MS, 150 * MS],
            };
        }
    }
    let w: W = Rc::new(RefCell::new(M {
        prop: p,
        ctl: ctl.clone(),
        keys: keys.clone(),
        nodes: nodes.clone(),
        list,
        attaching: BTreeMap::new(),
        tok: 0,
        pend: vec![None; nn + 1],
        cur: vec![None; nn + 1],
        last_req: 0,
        delayed_at: 0,
        write_times: vec![],
        attach_times: vec![],
        halted: false,
        stop: Event::default(),
        trace: vec![],
        verbose: c.verbose,
        viol: None,
        cnt: BTreeMap::new(),
        worker_gone: None,
    }));
    let stop = w.borrow().stop.clone();
    let mut buf: Vec<u8> = vec![0; B::MAX_ELEM_SIZE.min(4096)];
    let bufp: *mut Vec<u8> = &mut buf;
    let mut sim = Sim::new();
    sim.spurious = rng.chance(1, 6);
    if rng.chance(1, 4) {
        sim.eager(*rng.pick(&[1u32, 4, 8]), Rng::new(rng.u64()));
    }
    {
        let (w, stop) = (w.clone(), stop.clone());
        sim.spawn_daemon("worker", async move {
            // the buffer outlives the executor, which is dropped first
            let b: &mut [u8] = unsafe { &mut *bufp };
            default_worker_task(list, sto, stop.wait(), b).await;
            let mut g = w.borrow_mut();
            g.log("worker returned".into());
            g.worker_gone = Some(vtime::now());
        });
    }
    let palette: Vec<u64> = match rng.below(6) {
        0 => vec![0, MS, 50 * MS, 99 * MS, 101 * MS],
        1 => vec![0, S, 5 * S, 9_900 * MS, 10_050 * MS, 10_100 * MS],
        2 => vec![60 * S, 119_900 * MS, 120 * S, 120_050 * MS, 109_950 * MS],
        3 => vec![20 * S, 30 * S],
        _ => vec![0, MS, 99 * MS, 150 * MS, S, 9_950 * MS, 10_200 * MS, 25 * S, 119_950 * MS],
    };
    let o = UserOpts {
        steps: rng.range(2, if c.tier == crate::driver::Tier::Thorough { 40 } else { 18 }),
        sleeps: palette,
        detach: *rng.pick(&[0u32, 1, 4]),
        cancel: *rng.pick(&[0u32, 0, 2]),
        max_pad: max_pad.min(10),
    };
    let nu = rng.range(1, 3).min(nn);
    for u in 0..nu {
        let mine: Vec<usize> = (0..nn).filter(|n| n % nu == u).collect();
        let ur = Rng::new(rng.u64());
        let mut oo = o.clone();
        oo.steps = 1 + rng.below(o.steps);
        sim.spawn(format!("user{u}"), user(w.clone(), mine, ur, oo));
    }
    let mut run = Run { w: w.clone(), sim, rng: Rng::new(rng.u64()), faulty };
    let arm = |rng: &mut Rng| {
        let mut g = ctl.borrow_mut();
        let base = g.opno;
        for _ in 0..rng.range(1, 8) {
            let at = base + rng.below(120) as u64;
            let f = if rng.chance(1, 2) { Fault::ErrBefore } else { Fault::ErrAfter };
            g.faults.insert(at, f);
        }
    };
    let res = (|| -> Verdict {
        let mut horizon = S * rng.range(5, 400) as u64;
        if p == "P15" {
            if faulty {
                arm(&mut rng);
            }
            // where to stop: at a storage operation, at a virtual time, or after some polls there
            let by_op = rng.chance(1, 2);
            if by_op {
                let n = rng.below(150) as u64;
                ctl.borrow_mut().stop_at = Some((n, stop.clone()));
            }
            // leave the loop when the stop fired or at the horizon
            if rng.chance(1, 2) {
                horizon = *rng.pick(&[0, MS, 99 * MS, 100 * MS, 101 * MS, S, 9_999 * MS, 10 * S, 10_001 * MS, 10_101 * MS, 20_201 * MS, 120_100 * MS, 130_100 * MS]);
            }
            loop {
                let n = run.rng.range(1, 60) as u64;
                let out = run.sim.settle(&mut run.rng, n);
                run.viol()?;
                if stop.fired() {
                    break;
                }
                if out == Outcome::Quiescent {
                    let next = vtime::next_deadline().unwrap_or(u64::MAX).min(horizon);
                    if next >= horizon {
                        vtime::advance_to(horizon);
                        // anywhere inside the activity at this instant
                        let n = run.rng.below(40) as u64;
                        run.sim.settle(&mut run.rng, n);
                        run.viol()?;
                        break;
                    }
                    vtime::advance_to(next);
                }
            }
            let must: Vec<Option<u64>> = {
                ctl.borrow_mut().faults.clear();
                ctl.borrow_mut().stop_at = None;
                let mut g = w.borrow_mut();
                g.refresh();
                g.halted = true;
                g.count("stops");
                if by_op && stop.fired() {
                    g.count("stops_inside_storage_operations");
                }
                if !g.attaching.is_empty() {
                    g.count("stops_with_waiting_attach");
                }
                g.log("STOP".into());
                g.pend.clone()
            };
            stop.fire();
            let t0 = vtime::now();
            let d0 = ctl.borrow().delayed;
            loop {
                run.rest()?;
                if w.borrow().worker_gone.is_some() {
                    break;
                }
                let next = vtime::next_deadline().unwrap_or(u64::MAX);
                if next > t0 + S + (ctl.borrow().delayed - d0) {
                    return Err("the worker did not return in bounded time after the stop future completed".into());
                }
                vtime::advance_to(next);
            }
            let mut g = w.borrow_mut();
            c.cov.evals += 1;
            for n in 0..must.len() {
                // (a detach that was under way discards the value)
                if let (Some(id), Some(_)) = (must[n], g.pend[n]) {
                    g.count("pending_at_stop_judged");
                    let got = g.stored(n);
                    if got.is_none_or(|x| x < id) {
                        return Err(format!(
                            "the worker returned after its stop, but value {id} written to key {:?} before is not stored (stored: {got:?})",
                            keys[n]
                        ));
                    }
                }
            }
            return Ok(());
        }
        // ---- P14
        if !faulty {
            run.run_to(horizon, true)?;
            w.borrow_mut().halted = true;
            // everything must come to rest
            let t = vtime::now();
            run.run_to(t + 400 * S, true)?;
        } else {
            for _ in 0..rng.range(1, 3) {
                arm(&mut rng);
                let t = vtime::now();
                run.run_to(t + horizon / 2, false)?;
            }
            ctl.borrow_mut().faults.clear();
            w.borrow_mut().halted = true;
            let t = vtime::now();
            run.run_to(t + *rng.pick(&[0, 50 * MS, S, 9_950 * MS, 10_050 * MS, 119_950 * MS, 130 * S]), false)?;
            // the later trigger: an attach, then a write
            let spare = nn;
            let w2 = w.clone();
            let gap = *rng.pick(&[0, 50 * MS, S, 20 * S]);
            run.sim.spawn("trigger", async move {
                if let Some(mut h) = attach(&w2, spare, None).await {
                    sleep(gap).await;
                    write(&w2, spare, &mut h, 3).await;
                    w2.borrow_mut().count("triggers_after_faults");
                    HELD.with(|x| x.borrow_mut().push(h));
                }
            });
            // attaches are due after the trigger's attach, writes after its write
            let t = vtime::now();
            run.run_to(t + 25 * S, false)?;
            let mut guard = 0;
            while w.borrow().cur[spare].is_none() || w.borrow().write_times.last().is_none_or(|x| *x < t) {
                let now = vtime::now();
                run.run_to(now + S, false)?;
                guard += 1;
                if guard > 60 {
                    return Err("after storage errors ended, a new attach is not served any more".into());
                }
            }
            let now = vtime::now();
            run.run_to(now + 60 * S, true)?;
        }
        if !w.borrow().attach_times.is_empty() {
            // the delayed first collection and those after writes leave nothing but the newest records
            let e = ctl.borrow().shadow_elems();
            let want = parse::kept_elems(&e, K);
            let mut g = w.borrow_mut();
            g.count("final_contents_judged");
            if e != want {
                g.fail(&["P14"], format!("long after all requests paused storage still holds uncollected elements: {e:?}, newest records: {want:?}"));
            }
        }
        if !slow {
            early_appends(&w);
            run.viol()?;
        }
        c.cov.evals += 1;
        Ok(())
    })();
    {
        let mut g = w.borrow_mut();
        for (k, v) in std::mem::take(&mut g.cnt) {
            c.cov.add(k, v);
        }
        if faulty {
            c.cov.count("runs_with_storage_errors");
        }
        c.cov.add("storage_ops", ctl.borrow().opno);
        c.cov.max("max_virtual_seconds", vtime::now() / S);
        c.trace.append(&mut g.trace);
        c.cov.seen(hash(&c.trace));
        c.cov.seen(run.sim.sched_hash);
        c.cov.add("polls_within_a_wake", run.sim.eager_polls());
    }
    let iter = c.iter;
    let tr: Vec<_> = c.trace.iter().take(25).cloned().collect();
    c.cov.sample(|| format!("iteration {iter}: {}", tr.join("; ")));
    let _ = run.faulty;
    drop(run);
    HELD.with(|h| h.borrow_mut().clear());
    let mut ok = true;
    for n in &nodes {
        ok &= run_now(n.detach(list)) == Some(Ok(()));
    }
    drop(w);
    if ok {
        unsafe {
            for n in nodes {
                crate::sim::unleak(n);
            }
            crate::sim::unleak(list);
        }
    }
    vtime::clear_timers();
    drop(buf);
    res
}

fn go(c: &mut Ctx) -> Verdict {
    if c.rng.chance(3, 4) {
        go_on(c, ElemStore::<300>::new(), 10)
    } else {
        go_on(c, NorBack::<1, 4, 1024, 8, NoCache>::new(), 10)
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            prop: "P14",
            level: "exploration",
            rule: "virtual-time runs of the real default worker; at every instant before the clock moves, attaches and writes whose deadline (computed from the last request) lies before the next instant must be done; distinct = schedules and traces",
            assumptions: &["storage operations take the simulated time only; computation takes none"],
            quick_iters: 400_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: go,
            must_see: &["attach_deadlines_judged", "write_deadlines_judged", "writes_became_durable", "triggers_after_faults", "appends_judged_for_debounce", "final_contents_judged"],
        },
        Check {
            prop: "P15",
            level: "fault_enumeration",
            rule: "stop fired at a random storage operation, instant or poll of the real default worker; storage judged when it returns; distinct = schedules and traces",
            assumptions: &["storage errors only before the stop"],
            quick_iters: 1_000_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: go,
            must_see: &["stops", "stops_inside_storage_operations", "stops_with_waiting_attach", "pending_at_stop_judged"],
        },
    ]
}
