//! P24, judged event by event: after every registration that needs hydration and every completed
//! handle write, some wait that is live - or the next one - must be woken. Reads and writes fail,
//! are dropped half-way or overlap the requests; waits are dropped at any point.
use crate::{
    driver::{Ctx, Verdict, hash},
    exec::run_now,
    rng::Rng,
    sim::{Handle, List, Val, fresh_id, pick_keys, unleak},
    store::{ElemStore, Fault, Mon},
};
use cfg_noodle::{StorageListNode, error::Error};
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc,
        atomic::{AtomicU32, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
};

const K: usize = 2;

struct Cnt(AtomicU32);
impl Wake for Cnt {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// A future with its own waker; polled only when woken (or told to).
struct Task<T> {
    fut: Pin<Box<dyn Future<Output = T>>>,
    w: Arc<Cnt>,
    seen: u32,
    started: bool,
}
impl<T> Task<T> {
    fn new(f: impl Future<Output = T> + 'static) -> Self {
        Task { fut: Box::pin(f), w: Arc::new(Cnt(AtomicU32::new(0))), seen: 0, started: false }
    }
    fn woken(&self) -> bool {
        !self.started || self.w.0.load(Ordering::SeqCst) != self.seen
    }
    fn poll(&mut self) -> Option<T> {
        self.started = true;
        self.seen = self.w.0.load(Ordering::SeqCst);
        let wk = Waker::from(self.w.clone());
        match self.fut.as_mut().poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(v) => Some(v),
            Poll::Pending => None,
        }
    }
}

struct N {
    node: &'static StorageListNode<Val>,
    h: Option<Handle<K>>,
    attach: Option<Task<Result<Handle<K>, Error>>>,
    /// a handle write in flight (it owns the handle meanwhile)
    writing: Option<Task<(Handle<K>, Result<(), Error>)>>,
    /// the attach future in flight has been counted as a registration
    counted: bool,
}

struct Wk {
    list: &'static List<K>,
    nodes: Vec<N>,
    waits: [Vec<Task<()>>; 2],
    owed: [Option<String>; 2],
    op: Option<(Task<String>, &'static str)>,
}

const NAME: [&str; 2] = ["needs_read", "needs_write"];

impl Wk {
    /// A wait on the queue has ended: everything up to now is settled. That includes attaches of
    /// which we do not know whether they registered already (an operation may hold the list).
    fn served(&mut self, q: usize) {
        self.owed[q] = None;
        if q == 0 {
            for n in self.nodes.iter_mut() {
                n.counted = true;
            }
        }
    }
    fn new_wait(&self, q: usize) -> Task<()> {
        let l = self.list;
        if q == 0 {
            Task::new(async move { l.needs_read().await })
        } else {
            Task::new(async move { l.needs_write().await })
        }
    }
    fn owe(&mut self, q: usize, c: &mut Ctx, what: String) {
        c.cov.count(if q == 0 { "read_requests" } else { "write_requests" });
        if !self.waits[q].is_empty() {
            c.cov.count("requests_with_a_wait_in_place");
        }
        c.log(|| format!("request: {what}"));
        self.owed[q].get_or_insert(what);
    }
    /// Let the attach futures go as far as they can.
    fn settle(&mut self, c: &mut Ctx) {
        loop {
            let mut any = false;
            for i in 0..self.nodes.len() {
                let n = &mut self.nodes[i];
                if let Some(t) = &mut n.attach
                    && t.woken()
                {
                    any = true;
                    if let Some(r) = t.poll() {
                        c.log(|| format!("attach {i} -> {:?}", r.as_ref().map(|_| "handle")));
                        n.attach = None;
                        n.h = r.ok();
                    }
                }
                if let Some(t) = &mut n.writing
                    && t.woken()
                {
                    any = true;
                    if let Some((h, r)) = t.poll() {
                        c.log(|| format!("write {i} -> {r:?}"));
                        n.writing = None;
                        n.h = Some(h);
                        if r.is_ok() {
                            c.cov.count("writes_that_waited_for_the_list");
                            self.owe(1, c, format!("write through the handle of node {i} completed"));
                        }
                    }
                }
            }
            if !any {
                break;
            }
        }
        if self.op.is_none() {
            for i in 0..self.nodes.len() {
                if self.nodes[i].attach.is_some() && !self.nodes[i].counted {
                    self.nodes[i].counted = true;
                    self.owe(0, c, format!("attach of node {i} waits for hydration"));
                }
            }
        }
    }
    /// Whatever is owed must wake a wait that is live, or the next one.
    fn judge(&mut self, q: usize, c: &mut Ctx) -> Verdict {
        let Some(what) = self.owed[q].clone() else {
            return Ok(());
        };
        c.cov.evals += 1;
        c.cov.count("requests_judged");
        let live = self.waits[q].len();
        let mut i = 0;
        while i < self.waits[q].len() {
            if self.waits[q][i].woken() {
                if self.waits[q][i].poll().is_some() {
                    c.log(|| format!("wait {i} for {} is woken", NAME[q]));
                    c.cov.count("waits_woken");
                    self.waits[q].remove(i);
                    self.served(q);
                    return Ok(());
                }
            }
            i += 1;
        }
        if live > 0 {
            return Err(format!(
                "{what}; {live} live waits for {} and none of them was woken",
                NAME[q]
            ));
        }
        let mut t = self.new_wait(q);
        if t.poll().is_none() {
            return Err(format!("{what}; a wait for {} that starts afterwards stays asleep", NAME[q]));
        }
        c.cov.count("later_waits_served");
        c.log(|| format!("a later wait for {} is served", NAME[q]));
        self.served(q);
        Ok(())
    }
    fn poll_op(&mut self, c: &mut Ctx, all: bool) {
        loop {
            let Some((t, name)) = &mut self.op else { return };
            if !t.woken() {
                // stands still
                c.log(|| format!("{name} dropped in flight"));
                self.op = None;
                return;
            }
            if let Some(r) = t.poll() {
                let name = *name;
                c.log(|| format!("{name} -> {r}"));
                self.op = None;
                return;
            }
            if !all {
                return;
            }
        }
    }
}

pub fn iteration(c: &mut Ctx) -> Verdict {
    let mut r = Rng::new(c.rng.u64());
    let nn = r.range(1, 4);
    let keys = pick_keys(&mut r, nn, 60);
    let nn = keys.len();
    let list: &'static List<K> = Box::leak(Box::new(List::<K>::new()));
    let prior = if r.chance(1, 2) { crate::hist::prior_content(&mut r, &keys, K) } else { vec![] };
    let sto = Mon::new(ElemStore::<300>::with(prior), r.u64());
    let ctl = sto.ctl.clone();
    ctl.borrow_mut().yield_level = *r.pick(&[0u32, 0, 3, 6]);
    let sto: *mut Mon<ElemStore<300>> = Box::into_raw(Box::new(sto));
    let buf: *mut [u8] = Box::into_raw(vec![0u8; 300].into_boxed_slice());
    let mut k = Wk {
        list,
        nodes: keys
            .iter()
            .map(|x| N { node: Box::leak(Box::new(StorageListNode::new(x))), h: None, attach: None, writing: None, counted: false })
            .collect(),
        waits: [vec![], vec![]],
        owed: [None, None],
        op: None,
    };
    let res = (|| -> Verdict {
        for _ in 0..r.range(6, 60) {
            let i = r.below(nn);
            let q = r.below(2);
            match r.below(20) {
                0..=3 => {
                    if k.nodes[i].h.is_none() && k.nodes[i].attach.is_none() && k.nodes[i].writing.is_none() {
                        let node = k.nodes[i].node;
                        let id = fresh_id();
                        c.log(|| format!("attach {i}"));
                        k.nodes[i].attach = Some(Task::new(async move {
                            node.attach_with_default(list, move || Val::new(id, 2)).await
                        }));
                        k.nodes[i].counted = false;
                    }
                }
                4 => {
                    if k.nodes[i].attach.is_some() {
                        c.log(|| format!("drop attach future {i}"));
                        c.cov.count("attach_dropped");
                        k.nodes[i].attach = None;
                    }
                }
                5 => {
                    // a node without handle leaves the list
                    if k.op.is_none() && k.nodes[i].attach.is_none() && k.nodes[i].writing.is_none() {
                        k.nodes[i].h = None;
                        let d = run_now(k.nodes[i].node.detach(list));
                        c.log(|| format!("detach {i} -> {d:?}"));
                    }
                }
                6..=8 => {
                    if k.op.is_some() && r.chance(3, 4) {
                        if let Some(mut h) = k.nodes[i].h.take() {
                            c.log(|| format!("write {i}, while an operation is in flight"));
                            let v = Val::new(fresh_id(), 1);
                            k.nodes[i].writing = Some(Task::new(async move {
                                let r = h.write(&v).await;
                                (h, r)
                            }));
                        }
                    } else if let Some(h) = &mut k.nodes[i].h {
                        let v = Val::new(fresh_id(), 1);
                        let w = run_now(h.write(&v));
                        c.log(|| format!("write {i} -> {w:?}"));
                        if w == Some(Ok(())) {
                            k.owe(1, c, format!("write through the handle of node {i} completed"));
                        }
                    }
                }
                9..=11 => {
                    if k.waits[q].len() < 3 {
                        let mut t = k.new_wait(q);
                        let done = t.poll();
                        c.log(|| format!("wait for {} -> {done:?}", NAME[q]));
                        if done.is_some() {
                            k.served(q);
                            c.cov.count("waits_woken");
                        } else {
                            k.waits[q].push(t);
                        }
                    }
                }
                12 | 13 => {
                    if !k.waits[q].is_empty() {
                        let j = r.below(k.waits[q].len());
                        let woken = k.waits[q][j].woken();
                        c.log(|| format!("drop wait {j} for {} (woken: {woken})", NAME[q]));
                        c.cov.count(if woken { "woken_waits_dropped" } else { "sleeping_waits_dropped" });
                        k.waits[q].remove(j);
                    }
                }
                14 => {
                    if !k.waits[q].is_empty() {
                        let j = r.below(k.waits[q].len());
                        if k.waits[q][j].woken() && k.waits[q][j].poll().is_some() {
                            k.waits[q].remove(j);
                            k.served(q);
                            c.cov.count("waits_woken");
                        }
                    }
                }
                15..=17 => {
                    if k.op.is_none() {
                        let kind = r.below(4);
                        {
                            let mut g = ctl.borrow_mut();
                            g.faults.clear();
                            if r.chance(1, 2) {
                                let n = g.shadow.len();
                                let at = g.opno + r.below(n + 3) as u64;
                                let f = *r.pick(&[Fault::ErrBefore, Fault::ErrAfter, Fault::HangBefore]);
                                g.faults.insert(at, f);
                            }
                        }
                        let (s, b) = unsafe { (&mut *sto, &mut *buf) };
                        let fmt = |x: Option<String>| x.unwrap_or("ok".into());
                        k.op = Some(match kind {
                            0 | 1 => (
                                Task::new(async move { fmt(list.process_reads(s, b).await.err().map(|e| format!("{e:?}"))) }),
                                "process_reads",
                            ),
                            2 => (
                                Task::new(async move { fmt(list.process_garbage(s, b).await.err().map(|e| format!("{e:?}"))) }),
                                "process_garbage",
                            ),
                            _ => (
                                Task::new(async move { fmt(list.process_writes(s, b).await.err().map(|e| format!("{e:?}"))) }),
                                "process_writes",
                            ),
                        });
                        let all = r.chance(2, 3);
                        k.poll_op(c, all);
                    } else {
                        let all = r.chance(1, 2);
                        k.poll_op(c, all);
                    }
                }
                18 => {
                    if k.op.is_none() && r.chance(1, 3) {
                        run_now(list.reset_cache());
                        c.log(|| "reset_cache".into());
                    }
                }
                _ => {
                    if k.op.is_some() && r.chance(1, 3) {
                        c.log(|| "drop the operation in flight".into());
                        k.op = None;
                    }
                }
            }
            k.settle(c);
            for q in 0..2 {
                if r.chance(1, 3) {
                    k.judge(q, c)?;
                }
            }
        }
        k.poll_op(c, true);
        k.settle(c);
        k.judge(0, c)?;
        k.judge(1, c)
    })();
    let h = hash(&c.trace);
    c.cov.seen(h);
    // tear down
    k.op = None;
    k.waits = [vec![], vec![]];
    let mut ok = res.is_ok();
    for n in k.nodes.iter_mut() {
        n.attach = None;
        n.writing = None;
        n.h = None;
        ok &= run_now(n.node.detach(list)) == Some(Ok(()));
    }
    if ok {
        unsafe {
            for n in &k.nodes {
                unleak(n.node);
            }
            unleak(list);
        }
    }
    drop(k);
    unsafe {
        drop(Box::from_raw(sto));
        drop(Box::from_raw(buf));
    }
    res
}
