//! Random interleavings of user tasks and a worker task under a wake-accurate executor, judged
//! online against reference models.
//!
//! * P08: a completed handle write / installed default is stored by every later successful write
//! * P09: per-key register
//! * P10: linearizability of attach / detach / handle drop against a protocol model
//! * P11: payload ledger at the end
//! * P13: what attach yields, and that every successful read releases it
//! * P23: the no-op worker
//! * P24: a custom worker that waits on the request queues never stalls with outstanding work
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::{Outcome, Sim, yield_once},
    parse,
    rng::Rng,
    sim::{Handle, List, many_keys, pick_keys, Val, fresh_id, stored_id, track_bad, track_live},
    store::{Backend, ElemStore, Fault, Mon, OElem, Traffic},
};
use cfg_noodle::{StorageListNode, error::Error, error::LoadStoreError};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap, HashSet},
    future::Future,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicBool, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
};

const K: usize = 2;
type Sto = Mon<ElemStore<300>>;

// ------------------------------------------------------------------ cancellation

struct Fwd {
    hit: AtomicBool,
    outer: std::sync::Mutex<Option<Waker>>,
}
impl Wake for Fwd {
    fn wake(self: Arc<Self>) {
        self.hit.store(true, Ordering::SeqCst);
        let w = self.outer.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// Run `fut`, but drop it after the task was scheduled `n` times. With `strict`, the inner future
/// is polled only when it was woken, else also on every scheduling of the task.
async fn race_drop<T>(fut: impl Future<Output = T>, n: usize, strict: bool) -> Option<T> {
    let fwd = Arc::new(Fwd { hit: AtomicBool::new(true), outer: std::sync::Mutex::new(None) });
    let inner_waker = Waker::from(fwd.clone());
    let mut fut = Box::pin(fut);
    let mut left = n;
    let r = std::future::poll_fn(|cx| {
        *fwd.outer.lock().unwrap() = Some(cx.waker().clone());
        if !strict || fwd.hit.swap(false, Ordering::SeqCst) {
            fwd.hit.store(false, Ordering::SeqCst);
            let mut icx = Context::from_waker(&inner_waker);
            if let Poll::Ready(v) = fut.as_mut().poll(&mut icx) {
                return Poll::Ready(Some(v));
            }
        }
        if left == 0 {
            return Poll::Ready(None);
        }
        left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await;
    drop(fut);
    r
}

// ------------------------------------------------------------------ protocol model (P10)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Who {
    Free,
    Taken,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum OpKind {
    Attach { n: u8, l: u8 },
    Detach { n: u8, l: u8 },
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum R {
    Ok,
    Taken,
    Other,
    Dup,
    Weird,
}
fn rcode(e: &Error) -> R {
    match e {
        Error::AlreadyTaken => R::Taken,
        Error::NodeInOtherList => R::Other,
        Error::DuplicateKey => R::Dup,
        _ => R::Weird,
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Config {
    nodes: Vec<Option<(u8, Who)>>,
    ops: BTreeMap<u32, Option<R>>,
}
struct Proto {
    keys: Vec<&'static str>,
    kinds: HashMap<u32, OpKind>,
    cfgs: HashSet<Config>,
    next: u32,
}
impl Proto {
    fn new(keys: &[&'static str]) -> Self {
        Proto {
            keys: keys.to_vec(),
            kinds: HashMap::new(),
            cfgs: HashSet::from([Config { nodes: vec![None; keys.len()], ops: BTreeMap::new() }]),
            next: 0,
        }
    }
    fn lin(&self, c: &Config, op: u32) -> Config {
        let mut c = c.clone();
        let r = match self.kinds[&op] {
            OpKind::Attach { n, l } => match c.nodes[n as usize] {
                Some((x, Who::Taken)) if x == l => R::Taken,
                Some((x, Who::Free)) if x == l => {
                    c.nodes[n as usize] = Some((l, Who::Taken));
                    R::Ok
                }
                Some(_) => R::Other,
                None => {
                    let dup = c.nodes.iter().enumerate().any(|(m, s)| {
                        m != n as usize
                            && self.keys[m] == self.keys[n as usize]
                            && s.is_some_and(|s| s.0 == l)
                    });
                    if dup {
                        R::Dup
                    } else {
                        c.nodes[n as usize] = Some((l, Who::Taken));
                        R::Ok
                    }
                }
            },
            OpKind::Detach { n, l } => match c.nodes[n as usize] {
                None => R::Ok,
                Some((x, Who::Free)) if x == l => {
                    c.nodes[n as usize] = None;
                    R::Ok
                }
                Some((x, Who::Taken)) if x == l => R::Taken,
                Some(_) => R::Other,
            },
        };
        c.ops.insert(op, Some(r));
        c
    }
    fn expand(&mut self) {
        let mut work: Vec<Config> = self.cfgs.iter().cloned().collect();
        while let Some(c) = work.pop() {
            let pend: Vec<u32> = c.ops.iter().filter(|(_, r)| r.is_none()).map(|(o, _)| *o).collect();
            for o in pend {
                let d = self.lin(&c, o);
                if self.cfgs.insert(d.clone()) {
                    work.push(d);
                }
            }
        }
    }
    fn call(&mut self, k: OpKind) -> u32 {
        self.next += 1;
        let op = self.next;
        self.kinds.insert(op, k);
        self.cfgs = self
            .cfgs
            .drain()
            .map(|mut c| {
                c.ops.insert(op, None);
                c
            })
            .collect();
        op
    }
    /// false: impossible
    fn ret(&mut self, op: u32, r: R) -> bool {
        self.expand();
        self.cfgs = self
            .cfgs
            .drain()
            .filter_map(|mut c| {
                if c.ops.remove(&op) == Some(Some(r)) { Some(c) } else { None }
            })
            .collect();
        !self.cfgs.is_empty()
    }
    fn dropped(&mut self, op: u32) {
        self.expand();
        let kind = self.kinds[&op];
        self.cfgs = self
            .cfgs
            .drain()
            .map(|mut c| {
                if let (Some(Some(R::Ok)), OpKind::Attach { n, .. }) = (c.ops.remove(&op), kind)
                    && let Some(s) = c.nodes[n as usize].as_mut()
                {
                    s.1 = Who::Free;
                }
                c
            })
            .collect();
    }
    fn handle_dropped(&mut self, n: usize) {
        self.expand();
        self.cfgs = self
            .cfgs
            .drain()
            .map(|mut c| {
                if let Some(s) = c.nodes[n].as_mut() {
                    s.1 = Who::Free;
                }
                c
            })
            .collect();
    }
}

// ------------------------------------------------------------------ world

#[derive(Clone, Default)]
struct Reg {
    /// value known to be current, with the list it lives on
    cur: Option<u64>,
    /// values of dropped writes that may have taken effect
    maybe: Vec<u64>,
    /// value that must reach storage of list `.1` (last completed write or default)
    pend: Option<(u64, usize, bool)>,
    /// values that are current if the detach calls made meanwhile had no effect, and when they
    /// became current
    cand: Vec<(u64, u64)>,
    /// when `cur` was last set
    at: u64,
    /// detach calls in flight
    detaching: u32,
    /// the node was certainly attached to no list at or after this time
    floor: u64,
    /// time of the latest begin or end of an attach call
    last_call: u64,
    /// no attach call was in flight at or after `floor`
    untouched: bool,
}
impl Reg {
    fn unsure(&mut self) {
        let at = self.at;
        let v: Vec<u64> = self.cur.take().into_iter().chain(self.maybe.drain(..)).collect();
        self.cand.extend(v.into_iter().map(|x| (x, at)));
        self.pend = None;
    }
}

/// One process_reads call
struct ReadRec {
    l: usize,
    end: Option<u64>,
    ok: bool,
    kv: HashMap<String, Option<u64>>,
}

struct AttachRec {
    node: usize,
    list: usize,
    def: u64,
    /// certainly registered when this many reads had begun on the list
    registered: Option<u64>,
}

struct World {
    prop: &'static str,
    lists: Vec<&'static List<K>>,
    nodes: Vec<&'static StorageListNode<Val>>,
    keys: Vec<&'static str>,
    regs: Vec<Reg>,
    proto: Proto,
    key_of: HashMap<u64, &'static str>,
    inflight: BTreeMap<u32, String>,
    attaches: BTreeMap<u32, AttachRec>,
    next_tok: u32,
    clock: u64,
    reads: Vec<ReadRec>,
    /// per list: number of reads begun, and that number at the begin of the latest successful one
    /// attaches that completed while a read had not returned yet
    open_judgements: Vec<(usize, String)>,
    reads_begun: Vec<u64>,
    last_ok: Vec<u64>,
    live_handles: Vec<bool>,
    viol: Option<String>,
    trace: Vec<String>,
    verbose: bool,
    cnt: BTreeMap<&'static str, u64>,
    done_users: usize,
    users: usize,
    /// P23: no storage at all
    nostore: bool,
}
type W = Rc<RefCell<World>>;

impl World {
    fn fail(&mut self, props: &[&str], m: impl FnOnce() -> String) {
        if props.contains(&self.prop) && self.viol.is_none() {
            let m = m();
            self.log(|| format!("VIOLATION {m}"));
            self.viol = Some(m);
        }
    }
    fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.verbose {
            eprintln!("    {s}");
        }
        if self.trace.len() < 2000 {
            self.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.cnt.entry(k).or_default() += 1;
    }
    fn begin(&mut self, s: String) -> u32 {
        self.next_tok += 1;
        self.log(|| format!("call {s}"));
        self.inflight.insert(self.next_tok, s);
        self.next_tok
    }
    fn loaded(&mut self, n: usize, id: u64, what: &str) {
        self.count("loads_checked");
        let key = self.keys[n];
        if self.key_of.get(&id) != Some(&key) {
            let m = format!("{what} of node {n} (key {key:?}) yields {id}, a value of key {:?}", self.key_of.get(&id));
            self.fail(&["P09", "P23"], || m);
        }
        let r = self.regs[n].clone();
        if let Some(c) = r.cur
            && id != c
            && !r.maybe.contains(&id)
        {
            self.fail(&["P09", "P23"], || {
                format!("{what} of node {n} (key {key:?}) yields {id}; expected {c} or one of the dropped writes {:?}", r.maybe)
            });
        }
        let now = self.tick();
        let r = &mut self.regs[n];
        if r.cur.is_none() {
            r.at = now;
        }
        r.cur = Some(id);
        r.maybe.clear();
    }
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}

struct Held {
    n: usize,
    l: usize,
    h: Handle<K>,
}

#[derive(Clone, Copy)]
struct UserOpts {
    steps: usize,
    cancel: u32,
    detach: bool,
    two_lists: bool,
}

async fn user(w: W, uid: usize, mut rng: Rng, o: UserOpts, mine: Vec<usize>, gate: Gate) {
    let mut held: Vec<Held> = vec![];
    for _ in 0..o.steps {
        match rng.below(16) {
            0..=4 => {
                let n = *rng.pick(&mine);
                let l = if o.two_lists && rng.chance(1, 5) { 1 } else { 0 };
                // mostly nodes without handle
                let n = if held.iter().any(|h| h.n == n) && !rng.chance(1, 4) {
                    match mine.iter().find(|m| !held.iter().any(|h| h.n == **m)) {
                        Some(m) => *m,
                        None => n,
                    }
                } else {
                    n
                };
                if let Some(h) = attach(&w, uid, n, l, &mut rng, o.cancel).await {
                    held.push(Held { n, l, h });
                }
            }
            5..=8 => {
                if held.is_empty() {
                    yield_once().await;
                    continue;
                }
                let i = rng.below(held.len());
                write(&w, uid, &mut held[i], &mut rng, o.cancel).await;
            }
            9..=11 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                load(&w, &held[i]);
            }
            12 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                release(&w, uid, held.swap_remove(i));
            }
            13 => {
                if o.detach {
                    // usually a node whose handle we give up first
                    let mut n = *rng.pick(&mine);
                    if rng.chance(2, 3)
                        && let Some(i) = held.iter().position(|h| h.n == n)
                    {
                        release(&w, uid, held.swap_remove(i));
                    } else if !held.is_empty() && rng.chance(1, 3) {
                        let h = held.swap_remove(rng.below(held.len()));
                        n = h.n;
                        release(&w, uid, h);
                    }
                    let l = if o.two_lists && rng.chance(1, 5) { 1 } else { 0 };
                    detach(&w, uid, n, l, &mut rng, o.cancel).await;
                }
            }
            14 => gate.pass().await,
            _ => {
                let m = *rng.pick(&[2usize, 5, 30]);
                for _ in 0..rng.below(m) {
                    yield_once().await;
                }
            }
        }
        if rng.chance(2, 3) {
            yield_once().await;
        }
        if w.borrow().viol.is_some() {
            break;
        }
    }
    for h in &held {
        load(&w, h);
    }
    // keep some handles to the very end
    w.borrow_mut().done_users += 1;
    HELD.with(|x| x.borrow_mut().extend(held));
}

thread_local! {
    static HELD: RefCell<Vec<Held>> = const { RefCell::new(vec![]) };
}

async fn attach(w: &W, uid: usize, n: usize, l: usize, rng: &mut Rng, cancel: u32) -> Option<Handle<K>> {
    let def = fresh_id();
    let pad = rng.below(5) as u16;
    let (node, list, op, tok) = {
        let mut g = w.borrow_mut();
        let tok = g.begin(format!("u{uid}: attach node {n} list {l} (default {def})"));
        let key = g.keys[n];
        g.key_of.insert(def, key);
        let op = g.proto.call(OpKind::Attach { n: n as u8, l: l as u8 });
        let rec = AttachRec {
            node: n,
            list: l,
            def,
            registered: None,
        };
        g.attaches.insert(tok, rec);
        let now = g.tick();
        let reg = &mut g.regs[n];
        if reg.untouched {
            // the first attach since the node was on no list: only reads that end later count
            reg.floor = now;
            reg.untouched = false;
        }
        reg.last_call = now;
        (g.nodes[n], g.lists[l], op, tok)
    };
    let fut = node.attach_with_default(list, move || Val::new(def, pad));
    let r = if cancel > 0 && rng.chance(cancel, 16) {
        let k = rng.below(12);
        race_drop(fut, k, rng.chance(1, 2)).await
    } else {
        Some(fut.await)
    };
    let mut g = w.borrow_mut();
    g.inflight.remove(&tok);
    let rec = g.attaches.remove(&tok).unwrap();
    g.regs[n].last_call = g.tick();
    g.log(|| format!("u{uid}: attach node {n} list {l} -> {:?}", r.as_ref().map(|x| x.as_ref().map(|_| "handle"))));
    match r {
        None => {
            g.count("attach_dropped");
            g.proto.dropped(op);
            None
        }
        Some(Err(e)) => {
            g.count("attach_err");
            if !g.proto.ret(op, rcode(&e)) {
                g.fail(&["P10", "P23"], || format!("attach of node {n} to list {l} failed with {e:?}, which no order of the calls explains"));
            }
            None
        }
        Some(Ok(h)) => {
            g.count("attach_ok");
            if !g.proto.ret(op, R::Ok) {
                g.fail(&["P10", "P23"], || {
                    format!("attach of node {n} to list {l} succeeded, which no order of the calls allows (second live handle, second list or duplicate key)")
                });
            }
            if g.live_handles[n] {
                g.fail(&["P10"], || format!("node {n} has two live handles"));
            }
            g.live_handles[n] = true;
            let v = h.load();
            let known = g.regs[n].cur.is_some();
            let cands = std::mem::take(&mut g.regs[n].cand);
            g.loaded(n, v.id, "attach");
            if !known {
                let is_def = v.id == rec.def;
                if is_def {
                    g.count("attach_default");
                    g.regs[n].pend = Some((v.id, l, true));
                } else {
                    g.count("attach_stored");
                }
                let persisted = cands.iter().any(|c| c.0 == v.id);
                if g.nostore {
                    if !is_def && !persisted {
                        g.fail(&["P23"], || format!("attach of node {n} yields {} instead of its default", v.id));
                    }
                } else if !persisted {
                    // hydrated since it was last detached
                    let key = g.keys[n];
                    let floor = g.regs[n].floor;
                    let rel: Vec<(bool, Option<u64>)> = g
                        .reads
                        .iter()
                        .filter(|r| r.l == l && r.end.is_none_or(|e| e >= floor))
                        .map(|r| (r.ok, r.kv.get(key).copied().flatten()))
                        .collect();
                    g.count("hydrations_judged");
                    let good = if is_def {
                        rel.iter().any(|(ok, _)| *ok)
                            && rel.iter().any(|(_, x)| x.is_none())
                    } else {
                        rel.iter().any(|(_, x)| *x == Some(v.id))
                    };
                    if !good {
                        let msg = format!(
                            "attach of node {n} (key {key:?}) yields {} {}, but the reads since it was last detached (succeeded, stored value) are {rel:?}",
                            if is_def { "the default" } else { "value" },
                            v.id
                        );
                        // completed while a read is about to return: judged when it has
                        let open = g.reads.iter().rposition(|r| r.l == l && r.end.is_none());
                        match open {
                            Some(i) if is_def && rel.iter().any(|(_, x)| x.is_none()) => {
                                g.count("judged_when_the_read_returns");
                                g.open_judgements.push((i, msg));
                            }
                            _ => g.fail(&["P13"], || msg),
                        }
                    }
                }
            }
            Some(h)
        }
    }
}

fn load(w: &W, h: &Held) {
    let v = h.h.load();
    let mut g = w.borrow_mut();
    g.loaded(h.n, v.id, "load");
    if h.h.key() != g.keys[h.n] {
        g.fail(&["P09"], || "handle reports a different key".into());
    }
}

async fn write(w: &W, uid: usize, h: &mut Held, rng: &mut Rng, cancel: u32) {
    let id = fresh_id();
    let n = h.n;
    let l = h.l;
    let tok = {
        let mut g = w.borrow_mut();
        let key = g.keys[n];
        g.key_of.insert(id, key);
        g.begin(format!("u{uid}: write node {n} := {id}"))
    };
    let v = Val::new(id, rng.below(7) as u16);
    let r = if cancel > 0 && rng.chance(cancel, 16) {
        let k = rng.below(8);
        race_drop(h.h.write(&v), k, rng.chance(1, 2)).await
    } else {
        Some(h.h.write(&v).await)
    };
    drop(v);
    let mut g = w.borrow_mut();
    g.inflight.remove(&tok);
    g.log(|| format!("u{uid}: write node {n} := {id} -> {r:?}"));
    match r {
        None => {
            g.count("write_dropped");
            g.regs[n].maybe.push(id);
        }
        Some(Ok(())) => {
            g.count("write_ok");
            let now = g.tick();
            let r = &mut g.regs[n];
            r.at = now;
            r.cur = Some(id);
            r.maybe.clear();
            r.pend = Some((id, l, false));
        }
        Some(Err(e)) => g.fail(&["P09", "P23"], || format!("write through the handle of node {n} failed: {e:?}")),
    }
}

fn release(w: &W, uid: usize, h: Held) {
    let mut g = w.borrow_mut();
    let n = h.n;
    g.log(|| format!("u{uid}: drop handle of node {n}"));
    g.live_handles[n] = false;
    drop(h);
    g.proto.handle_dropped(n);
    if g.regs[n].detaching > 0 {
        g.regs[n].unsure();
    }
}

async fn detach(w: &W, uid: usize, n: usize, l: usize, rng: &mut Rng, cancel: u32) {
    let (node, list, op, tok, t0) = {
        let mut g = w.borrow_mut();
        let tok = g.begin(format!("u{uid}: detach node {n} list {l}"));
        let t0 = g.tick();
        g.regs[n].detaching += 1;
        let op = g.proto.call(OpKind::Detach { n: n as u8, l: l as u8 });
        // the value is uncertain from now on
        if !g.live_handles[n] {
            g.regs[n].unsure();
        }
        (g.nodes[n], g.lists[l], op, tok, t0)
    };
    let fut = node.detach(list);
    let r = if cancel > 0 && rng.chance(cancel, 16) {
        let k = rng.below(6);
        race_drop(fut, k, rng.chance(1, 2)).await
    } else {
        Some(fut.await)
    };
    let mut g = w.borrow_mut();
    g.inflight.remove(&tok);
    g.log(|| format!("u{uid}: detach node {n} list {l} -> {r:?}"));
    g.regs[n].detaching -= 1;
    if !g.live_handles[n] {
        g.regs[n].unsure();
    }
    if let Some(Ok(())) = r {
        let busy = g.attaches.values().any(|a| a.node == n);
        let reg = &mut g.regs[n];
        reg.floor = reg.floor.max(t0);
        reg.untouched = !busy && reg.last_call < t0;
        reg.cand.retain(|c| c.1 >= t0);
    }
    match r {
        None => {
            g.count("detach_dropped");
            g.proto.dropped(op);
        }
        Some(Ok(())) => {
            g.count("detach_ok");
            if !g.proto.ret(op, R::Ok) {
                g.fail(&["P10", "P23"], || format!("detach of node {n} from list {l} succeeded, which no order of the calls allows"));
            }
        }
        Some(Err(e)) => {
            g.count("detach_err");
            if !g.proto.ret(op, rcode(&e)) {
                g.fail(&["P10", "P23"], || format!("detach of node {n} from list {l} failed with {e:?}, which no order of the calls explains"));
            }
        }
    }
}

// ------------------------------------------------------------------ workers

/// The storage of a list and everything needed to run operations on it.
struct Worker {
    w: W,
    l: usize,
    sto: Sto,
    buf: Vec<u8>,
    rng: Rng,
    faults: bool,
    garble: bool,
    cancel: u32,
}

fn kv_of(elems: &[OElem]) -> HashMap<String, Option<u64>> {
    let mut m = HashMap::new();
    if let Some(r) = parse::newest(elems) {
        for (k, v) in r.kv {
            m.entry(k).or_insert(stored_id(&v));
        }
    }
    m
}

impl Worker {
    fn arm(&mut self, pushes: bool) {
        let mut c = self.sto.ctl.borrow_mut();
        c.faults.clear();
        c.push_faults.clear();
        if !self.faults || !self.rng.chance(1, 4) {
            return;
        }
        let kind = *self.rng.pick(&[Fault::ErrBefore, Fault::ErrAfter]);
        if pushes && self.rng.chance(1, 2) {
            let at = c.pushno + self.rng.below(5) as u64;
            c.push_faults.insert(at, kind);
        } else {
            let n = c.shadow.len();
            let at = c.opno + self.rng.below(2 * n + 6) as u64;
            c.faults.insert(at, kind);
        }
    }
    fn disarm(&mut self) {
        let mut c = self.sto.ctl.borrow_mut();
        c.faults.clear();
        c.push_faults.clear();
    }
    fn fresh_traffic(&mut self) {
        let mut c = self.sto.ctl.borrow_mut();
        c.traffic = Traffic::default();
        c.inval_in_gc = 0;
        c.push0 = c.pushno;
    }
    /// bytes moved, appends and invalidations begun since `fresh_traffic`
    fn traffic(&self) -> (Traffic, u64, u64) {
        let c = self.sto.ctl.borrow();
        (c.traffic, c.pushno - c.push0, c.inval_in_gc)
    }
    async fn reads(&mut self, may_fail: bool) -> bool {
        let list = self.w.borrow().lists[self.l];
        let elems = self.sto.inner.elems();
        let (idx, begun) = {
            let mut g = self.w.borrow_mut();
            let l = self.l;
            g.log(|| format!("w{l}: process_reads on {elems:?}"));
            g.reads_begun[l] += 1;
            g.reads.push(ReadRec { l, end: None, ok: false, kv: kv_of(&elems) });
            (g.reads.len() - 1, g.reads_begun[l])
        };
        if may_fail {
            self.arm(false);
        }
        let cancel = if may_fail && self.cancel > 0 && self.rng.chance(self.cancel, 16) {
            Some((self.rng.below(25), self.rng.chance(1, 2)))
        } else {
            None
        };
        self.fresh_traffic();
        let fut = list.process_reads(&mut self.sto, &mut self.buf);
        let r = match cancel {
            Some((n, s)) => race_drop(fut, n, s).await,
            None => Some(fut.await),
        };
        self.disarm();
        let ok = matches!(r, Some(Ok(_)));
        let after = self.sto.inner.elems();
        let (t, pushes, invals) = self.traffic();
        let mut g = self.w.borrow_mut();
        let l = self.l;
        if after != elems || pushes + invals > 0 {
            g.fail(&["P20"], || format!("process_reads modified storage: {elems:?} -> {after:?}"));
        }
        if let Some(Ok(rep)) = &r {
            g.count("reads_reports_checked");
            let cur: usize = match parse::newest(&elems) {
                None => 0,
                Some(rec) => elems[rec.first + 1..rec.last].iter().map(<ElemStore<300> as Backend>::stored_len).sum(),
            };
            if rep.total_bytes_read != t.read_bytes || rep.current_bytes_read != cur {
                g.fail(&["P21"], || {
                    format!(
                        "process_reads reports {} / {} bytes, storage handed out {} and the hydration record holds {cur}",
                        rep.total_bytes_read, rep.current_bytes_read, t.read_bytes
                    )
                });
            }
        }
        g.log(|| format!("w{l}: process_reads -> {}", short(&r)));
        g.count(if ok { "reads_ok" } else { "reads_failed" });
        let now = g.tick();
        g.reads[idx].end = Some(now);
        g.reads[idx].ok = ok;
        let (mine, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut g.open_judgements).into_iter().partition(|x| x.0 == idx);
        g.open_judgements = rest;
        if let Some((_, m)) = mine.into_iter().next()
            && !ok
        {
            g.fail(&["P13"], || m);
        }
        if ok {
            g.last_ok[l] = begun;
        }
        ok
    }
    async fn gc(&mut self, may_fail: bool) -> bool {
        let list = self.w.borrow().lists[self.l];
        if may_fail {
            self.arm(false);
        }
        let cancel = if may_fail && self.cancel > 0 && self.rng.chance(self.cancel, 16) {
            Some((self.rng.below(25), self.rng.chance(1, 2)))
        } else {
            None
        };
        let before = self.sto.inner.elems();
        self.fresh_traffic();
        self.sto.resync(&before);
        {
            let top = parse::top_k(&before, K);
            let mut c = self.sto.ctl.borrow_mut();
            let prot: Vec<u64> = c
                .shadow
                .iter()
                .enumerate()
                .filter(|(i, _)| top.iter().any(|r| *i >= r.first && *i <= r.last))
                .map(|(_, x)| x.0)
                .collect();
            c.protected = Some(prot);
            c.protected_hits.clear();
        }
        let fut = list.process_garbage(&mut self.sto, &mut self.buf);
        let r = match cancel {
            Some((n, s)) => race_drop(fut, n, s).await,
            None => Some(fut.await),
        };
        self.disarm();
        let after = self.sto.inner.elems();
        let (t, pushes, invals) = self.traffic();
        let hits = {
            let mut c = self.sto.ctl.borrow_mut();
            c.protected = None;
            std::mem::take(&mut c.protected_hits)
        };
        let mut g = self.w.borrow_mut();
        let l = self.l;
        *g.cnt.entry("invalidations_judged").or_default() += invals;
        if pushes > 0 {
            g.fail(&["P04", "P20"], || "process_garbage appended elements".into());
        }
        if !hits.is_empty() {
            g.fail(&["P04"], || format!("process_garbage (K={K}) invalidated {hits:?}; contents {before:?}"));
        }
        let strip = |v: &[OElem]| parse::top_k(v, K).into_iter().map(|r| (r.seq, r.kv)).collect::<Vec<_>>();
        if strip(&before) != strip(&after) {
            g.fail(&["P04"], || {
                format!("the {K} newest intact records changed in a collection: {before:?} -> {after:?}")
            });
        }
        if let Some(Ok(rep)) = &r {
            g.count("gc_reports_checked");
            if rep.total_bytes_read != t.read_bytes || rep.total_bytes_popped != t.popped_bytes {
                g.fail(&["P21"], || {
                    format!(
                        "process_garbage reports {} read / {} popped, storage saw {} / {}",
                        rep.total_bytes_read, rep.total_bytes_popped, t.read_bytes, t.popped_bytes
                    )
                });
            }
            if g.last_ok[l] > 0 {
                g.count("collections_compared");
                let want = parse::kept_elems(&before, K);
                if after != want {
                    g.fail(&["P05"], || {
                        format!("after a collection (K={K}) storage holds {after:?}, expected {want:?} (before {before:?})")
                    });
                }
            }
        }
        g.log(|| format!("w{l}: process_garbage -> {}", short(&r)));
        matches!(r, Some(Ok(_)))
    }
    async fn writes(&mut self, may_fail: bool) -> Option<Result<(), LoadStoreError<<Sto as cfg_noodle::NdlDataStorage>::Error>>> {
        let l = self.l;
        let list = self.w.borrow().lists[l];
        let want: Vec<(usize, &'static str, u64)> = {
            let g = self.w.borrow();
            g.regs
                .iter()
                .enumerate()
                .filter_map(|(n, r)| match r.pend {
                    Some((id, x, _)) if x == l && r.detaching == 0 => Some((n, g.keys[n], id)),
                    _ => None,
                })
                .collect()
        };
        if may_fail {
            self.arm(true);
        }
        let cancel = if may_fail && self.cancel > 0 && self.rng.chance(self.cancel, 16) {
            Some((self.rng.below(25), self.rng.chance(1, 2)))
        } else {
            None
        };
        {
            let mut g = self.w.borrow_mut();
            g.log(|| format!("w{l}: process_writes"));
        }
        let before = self.sto.inner.elems();
        self.fresh_traffic();
        let fut = list.process_writes(&mut self.sto, &mut self.buf);
        let r = match cancel {
            Some((n, s)) => race_drop(fut, n, s).await,
            None => Some(fut.await),
        };
        self.disarm();
        let e = self.sto.inner.elems();
        let (t, pushes, invals) = self.traffic();
        let mut g = self.w.borrow_mut();
        if invals > 0 {
            g.fail(&["P04", "P20"], || "process_writes invalidated elements".into());
        }
        if pushes > 0 && g.reads_begun[l] == 0 {
            g.fail(&["P20"], || "process_writes modified storage before any process_reads".into());
        }
        match &r {
            Some(Err(LoadStoreError::AppError(x @ (Error::NeedsFirstRead | Error::NeedsGarbageCollect)))) => {
                g.count("writes_with_precondition_missing");
                if pushes > 0 || e != before {
                    g.fail(&["P20"], || format!("process_writes fails with {x:?} after modifying storage"));
                }
            }
            Some(Ok(rep)) => {
                g.count("writes_reports_checked");
                if rep.total_bytes_read != t.read_bytes || rep.current_bytes_written != t.pushed_bytes {
                    g.fail(&["P21"], || {
                        format!(
                            "process_writes reports {} read / {} written, storage saw {} / {}",
                            rep.total_bytes_read, rep.current_bytes_written, t.read_bytes, t.pushed_bytes
                        )
                    });
                }
                let rec = parse::newest(&e);
                if rec.is_none() {
                    g.fail(&["P07"], || "process_writes reported success but storage holds no intact record".into());
                }
                if pushes > 0 {
                    let prev = parse::newest(&before).map(|r| r.seq).unwrap_or(0);
                    g.count("sequence_numbers_checked");
                    if let Some(r) = &rec
                        && r.seq <= prev
                    {
                        let s = r.seq;
                        g.fail(&["P19"], || format!("process_writes succeeded with sequence number {s}, before it the newest was {prev}"));
                    }
                } else if rep.current_bytes_written != 0 {
                    g.fail(&["P08"], || "a write without any append reports bytes written".into());
                }
            }
            _ => {}
        }
        g.log(|| format!("w{l}: process_writes -> {} {e:?}", short(&r)));
        if matches!(r, Some(Ok(_))) {
            g.count("writes_ok");
            let kv = kv_of(&e);
            for (n, key, id) in want {
                // still the same attachment?
                if !matches!(g.regs[n].pend, Some((x, y, _)) if x >= id && y == l) {
                    continue;
                }
                g.count("pending_values_judged");
                let got = kv.get(key).copied().flatten();
                if got.is_none_or(|x| x < id) {
                    g.fail(&["P08", "P07", "P01"], || {
                        format!("process_writes succeeded, but value {id} of key {key:?}, set before it started, is not stored: newest record holds {got:?}")
                    });
                }
            }
        }
        r.map(|x| x.map(|_| ()))
    }
}
fn short<T, E: std::fmt::Debug>(r: &Option<Result<T, E>>) -> String {
    match r {
        None => "dropped".into(),
        Some(Ok(_)) => "ok".into(),
        Some(Err(e)) => format!("{e:?}"),
    }
}

#[derive(Clone, Default)]
struct Gate {
    n: Rc<Cell<u32>>,
    ev: Rc<RefCell<Option<Waker>>>,
}
impl Gate {
    fn open(&self, n: u32) {
        self.n.set(self.n.get() + n);
        let w = self.ev.borrow_mut().take();
        if let Some(w) = w {
            w.wake();
        }
    }
    async fn pass(&self) {
        std::future::poll_fn(|cx| {
            if self.n.get() > 0 {
                self.n.set(self.n.get() - 1);
                Poll::Ready(())
            } else {
                *self.ev.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// Performs random operations, one for each opening of the gate; with `calm` set, a clean
/// read / collect / write cycle instead.
async fn driven(mut wk: Worker, gate: Gate, calm: Rc<Cell<bool>>, out: Rc<RefCell<Vec<OElem>>>) {
    loop {
        gate.pass().await;
        if calm.get() {
            let alone = {
                let g = wk.w.borrow();
                g.inflight.is_empty() && g.done_users == g.users
            };
            let ok = wk.reads(false).await;
            let g = wk.gc(false).await;
            let r = wk.writes(false).await;
            let l = wk.l;
            let mut w = wk.w.borrow_mut();
            w.log(|| format!("w{l}: calm cycle: reads {ok} gc {g} writes {r:?}"));
            if alone {
                w.count("recoveries_ok");
                if !ok || !g || !matches!(r, Some(Ok(_))) {
                    w.fail(&["P06"], || format!("with working storage and nothing else going on: process_reads ok: {ok}, process_garbage ok: {g}, process_writes {r:?}"));
                }
            }
            drop(w);
        } else {
            match wk.rng.below(8) {
                0..=2 => {
                    wk.reads(true).await;
                }
                3 | 4 => {
                    wk.gc(true).await;
                }
                _ => {
                    wk.writes(true).await;
                }
            }
        }
        *out.borrow_mut() = wk.sto.inner.elems();
    }
}

// ------------------------------------------------------------------ custom workers (P24)

#[derive(Clone)]
struct AMutex(Rc<Cell<bool>>);
impl AMutex {
    async fn lock(&self) {
        while self.0.get() {
            yield_once().await;
        }
        self.0.set(true);
    }
    fn unlock(&self) {
        self.0.set(false);
    }
}

async fn wait_noisy(w: &W, l: usize, read: bool, rng: &mut Rng, noise: &mut u32) {
    let list = w.borrow().lists[l];
    while *noise > 0 && rng.chance(1, 2) {
        *noise -= 1;
        let n = rng.below(6);
        let s = rng.chance(1, 2);
        let r = if read {
            race_drop(list.needs_read(), n, s).await
        } else {
            race_drop(list.needs_write(), n, s).await
        };
        w.borrow_mut().count("waits_raced");
        if r.is_some() {
            return;
        }
        for _ in 0..rng.below(3) {
            yield_once().await;
        }
    }
    if read { list.needs_read().await } else { list.needs_write().await }
}

async fn do_write(wk: &mut Worker) -> bool {
    let _ = wk.gc(false).await;
    matches!(wk.writes(false).await, Some(Err(LoadStoreError::AppError(Error::NeedsFirstRead))))
}

/// One task that waits for either request.
async fn worker_select(mut wk: Worker, mut noise: u32, out: Rc<RefCell<Vec<OElem>>>) {
    use embassy_futures::select::{Either, select};
    let mut retry = false;
    loop {
        let (w, l) = (wk.w.clone(), wk.l);
        let mut r1 = Rng::new(wk.rng.u64());
        let mut r2 = Rng::new(wk.rng.u64());
        let (mut n1, mut n2) = (noise.min(2), noise.min(2));
        noise = noise.saturating_sub(4);
        let read_first = wk.rng.chance(1, 2);
        let first = if read_first {
            match select(wait_noisy(&w, l, true, &mut r1, &mut n1), wait_noisy(&w, l, false, &mut r2, &mut n2)).await {
                Either::First(_) => true,
                Either::Second(_) => false,
            }
        } else {
            match select(wait_noisy(&w, l, false, &mut r1, &mut n1), wait_noisy(&w, l, true, &mut r2, &mut n2)).await {
                Either::First(_) => false,
                Either::Second(_) => true,
            }
        };
        w.borrow_mut().count(if first { "woken_for_read" } else { "woken_for_write" });
        if first {
            wk.reads(false).await;
            if retry {
                retry = do_write(&mut wk).await;
            }
        } else {
            retry = do_write(&mut wk).await;
        }
        *out.borrow_mut() = wk.sto.inner.elems();
    }
}

async fn worker_reader(wk: Rc<RefCell<Option<Worker>>>, w: W, l: usize, mx: AMutex, retry: Rc<Cell<bool>>, mut rng: Rng, mut noise: u32, out: Rc<RefCell<Vec<OElem>>>) {
    loop {
        wait_noisy(&w, l, true, &mut rng, &mut noise).await;
        w.borrow_mut().count("woken_for_read");
        mx.lock().await;
        let mut x = wk.borrow_mut().take().unwrap();
        x.reads(false).await;
        if retry.get() {
            retry.set(false);
            if do_write(&mut x).await {
                retry.set(true);
            }
        }
        *out.borrow_mut() = x.sto.inner.elems();
        *wk.borrow_mut() = Some(x);
        mx.unlock();
    }
}
async fn worker_writer(wk: Rc<RefCell<Option<Worker>>>, w: W, l: usize, mx: AMutex, retry: Rc<Cell<bool>>, mut rng: Rng, mut noise: u32, out: Rc<RefCell<Vec<OElem>>>) {
    loop {
        wait_noisy(&w, l, false, &mut rng, &mut noise).await;
        w.borrow_mut().count("woken_for_write");
        mx.lock().await;
        let mut x = wk.borrow_mut().take().unwrap();
        if do_write(&mut x).await {
            retry.set(true);
        }
        *out.borrow_mut() = x.sto.inner.elems();
        *wk.borrow_mut() = Some(x);
        mx.unlock();
    }
}

// ------------------------------------------------------------------ one iteration

fn go(c: &mut Ctx) -> Verdict {
    HELD.with(|h| h.borrow_mut().clear());
    let p = c.prop;
    let mut rng = Rng::new(c.rng.u64());
    let two = matches!(p, "P10") || rng.chance(1, 6);
    let nl = if two { 2 } else { 1 };
    let nn = if rng.chance(1, 30) { rng.range(6, 20) } else { rng.range(1, 5) };
    let mut keys = if nn > 5 { many_keys(nn) } else { pick_keys(&mut rng, nn, 130) };
    let dup = match p {
        "P10" => rng.chance(3, 4),
        "P23" | "P24" | "P13" => rng.chance(1, 8),
        _ => rng.chance(1, 4),
    };
    if dup && nn >= 2 {
        let a = rng.below(nn);
        let b = rng.below(nn);
        keys[a] = keys[b];
    }
    let lists: Vec<&'static List<K>> =
        (0..nl).map(|_| &*Box::leak(Box::new(List::<K>::new()))).collect();
    let nodes: Vec<&'static StorageListNode<Val>> =
        keys.iter().map(|k| &*Box::leak(Box::new(StorageListNode::new(k)))).collect();
    let w: W = Rc::new(RefCell::new(World {
        prop: p,
        lists: lists.clone(),
        nodes: nodes.clone(),
        keys: keys.clone(),
        regs: vec![Reg { untouched: true, ..Reg::default() }; nn],
        proto: Proto::new(&keys),
        key_of: HashMap::new(),
        inflight: BTreeMap::new(),
        attaches: BTreeMap::new(),
        next_tok: 0,
        clock: 0,
        reads: vec![],
        open_judgements: vec![],
        reads_begun: vec![0; nl],
        last_ok: vec![0; nl],
        live_handles: vec![false; nn],
        viol: None,
        trace: vec![],
        verbose: c.verbose,
        cnt: BTreeMap::new(),
        done_users: 0,
        users: 0,
        nostore: p == "P23",
    }));
    let mut prior: Vec<Vec<OElem>> = vec![];
    for _ in 0..nl {
        let e = if rng.chance(3, 5) {
            crate::hist::prior_content(&mut rng, &keys, K)
        } else {
            vec![]
        };
        let mut g = w.borrow_mut();
        for x in &e {
            if let OElem::Data(d) = x
                && let Some((k, v)) = parse::split_kv(d)
                && let Some(id) = stored_id(&v)
                && let Some(key) = keys.iter().find(|y| **y == k)
            {
                g.key_of.insert(id, key);
            }
        }
        drop(g);
        prior.push(e);
    }
    let outs: Vec<Rc<RefCell<Vec<OElem>>>> =
        prior.iter().map(|e| Rc::new(RefCell::new(e.clone()))).collect();
    let yl = *rng.pick(&[0u32, 1, 3, 6]);
    let with_faults = !matches!(p, "P24" | "P23") && rng.chance(1, 2);
    let cancel_ops = if matches!(p, "P24" | "P23") { 0 } else { *rng.pick(&[0u32, 0, 2, 5]) };
    let mk = |l: usize, rng: &mut Rng| {
        let m = Mon::new(ElemStore::<300>::with(prior[l].clone()), rng.u64());
        m.ctl.borrow_mut().yield_level = yl;
        Worker {
            w: w.clone(),
            l,
            sto: m,
            buf: vec![0; 300],
            rng: Rng::new(rng.u64()),
            faults: with_faults,
            garble: false,
            cancel: cancel_ops,
        }
    };
    let gate: Vec<Gate> = (0..nl).map(|_| Gate::default()).collect();
    let calm = Rc::new(Cell::new(false));
    let mut sim = Sim::new();
    sim.spurious = rng.chance(1, 4);
    if rng.chance(1, 3) {
        sim.eager(*rng.pick(&[1u32, 4, 8]), Rng::new(rng.u64()));
    }
    let nu = rng.range(1, 4);
    w.borrow_mut().users = nu;
    let cancel = *rng.pick(&[0u32, 2, 6]);
    let steps = if c.tier == crate::driver::Tier::Thorough { rng.range(6, 40) } else { rng.range(4, 20) };
    let shared = matches!(p, "P10") || rng.chance(1, 3);
    let detach_ok = matches!(p, "P10" | "P11" | "P23") || rng.chance(1, 2);
    let ugate: Vec<Gate> = (0..nu).map(|_| Gate::default()).collect();
    for u in 0..nu {
        let mine: Vec<usize> = if shared {
            (0..nn).collect()
        } else {
            (0..nn).filter(|n| n % nu == u).collect()
        };
        if mine.is_empty() {
            w.borrow_mut().done_users += 1;
            continue;
        }
        let o = UserOpts { steps, cancel, detach: detach_ok, two_lists: two };
        let ur = Rng::new(rng.u64());
        sim.spawn(format!("user{u}"), user(w.clone(), u, ur, o, mine, ugate[u].clone()));
    }
    for l in 0..nl {
        match p {
            "P23" => {
                let list = lists[l];
                sim.spawn_daemon("noop", async move {
                    cfg_noodle::worker_task::no_op_worker_task(list).await;
                });
            }
            "P24" => {
                let wk = mk(l, &mut rng);
                let noise = if rng.chance(1, 2) { 0 } else { rng.range(1, 16) as u32 };
                if rng.chance(1, 2) {
                    sim.spawn_daemon("worker", worker_select(wk, noise, outs[l].clone()));
                } else {
                    let mx = AMutex(Rc::new(Cell::new(false)));
                    let sh = Rc::new(RefCell::new(Some(wk)));
                    let retry = Rc::new(Cell::new(false));
                    let (r1, r2) = (Rng::new(rng.u64()), Rng::new(rng.u64()));
                    sim.spawn_daemon(
                        "reader",
                        worker_reader(sh.clone(), w.clone(), l, mx.clone(), retry.clone(), r1, noise, outs[l].clone()),
                    );
                    sim.spawn_daemon(
                        "writer",
                        worker_writer(sh, w.clone(), l, mx, retry, r2, noise, outs[l].clone()),
                    );
                }
            }
            _ => {
                let wk = mk(l, &mut rng);
                sim.spawn_daemon("worker", driven(wk, gate[l].clone(), calm.clone(), outs[l].clone()));
            }
        }
    }
    let res = (|| -> Verdict {
        let rounds = steps as u32 / 2 + 3;
        let mut stuck = 0;
        for round in 0.. {
            for g in &ugate {
                if round >= rounds || rng.chance(2, 3) {
                    g.open(1);
                }
            }
            if p != "P23" && p != "P24" {
                let late = round >= rounds;
                calm.set(late);
                for g in &gate {
                    g.open(if late { 1 } else { rng.below(7) as u32 });
                }
            }
            let out = sim.settle(&mut rng, 400_000);
            c.cov.evals += 1;
            if let Some(v) = w.borrow_mut().viol.take() {
                return Err(v);
            }
            if out == Outcome::Limit {
                return if matches!(p, "P06" | "P16" | "P09" | "P10" | "P13" | "P23" | "P24") {
                    Err("the tasks do not come to rest within 400000 polls".into())
                } else {
                    Ok(())
                };
            }
            c.cov.seen(sim.sched_hash);
            let mut g = w.borrow_mut();
            c.cov.count("quiescent_points");
            // every attach registered before the begin of a successful read must be done
            if p == "P13" {
                let mut bad = None;
                let (rb, lo) = (g.reads_begun.clone(), g.last_ok.clone());
                for (t, a) in g.attaches.iter_mut() {
                    match a.registered {
                        Some(r) if lo[a.list] > r => {
                            bad = Some(format!(
                                "attach of node {} (call {t}) was waiting before a process_reads started that succeeded, and is still waiting when nothing is running any more",
                                a.node
                            ));
                        }
                        Some(_) => {}
                        None => a.registered = Some(rb[a.list]),
                    }
                }
                if !g.attaches.is_empty() {
                    c.cov.count("attaches_waiting_at_rest");
                }
                if let Some(b) = bad {
                    return Err(b);
                }
            }
            if p == "P23" || p == "P24" {
                if let Some((_, s)) = g.inflight.iter().next() {
                    return Err(format!("nothing is running any more, but \"{s}\" has not completed"));
                }
                if p == "P24" {
                    let mut bad = None;
                    for (n, r) in g.regs.iter().enumerate() {
                        if let Some((id, l, is_def)) = r.pend
                            && !is_def
                            && r.detaching == 0
                        {
                            let kv = kv_of(&outs[l].borrow());
                            let got = kv.get(keys[n]).copied().flatten();
                            c.cov.count("pending_writes_judged");
                            if got.is_none_or(|x| x < id) {
                                bad = Some(format!("all tasks wait, but value {id} written to key {:?} is not stored (stored: {got:?})", keys[n]));
                            }
                        }
                    }
                    if let Some(b) = bad {
                        return Err(b);
                    }
                }
            }
            let done = sim.unfinished().is_empty();
            if done && round >= rounds {
                // two calm cycles are enough to store everything
                if p == "P08" {
                    for (n, r) in g.regs.iter().enumerate() {
                        if let Some((id, l, _)) = r.pend
                            && r.detaching == 0
                            && stuck >= 2
                        {
                            let kv = kv_of(&outs[l].borrow());
                            let got = kv.get(keys[n]).copied().flatten();
                            c.cov.count("final_values_judged");
                            if got.is_none_or(|x| x < id) {
                                return Err(format!("value {id} of key {:?} never reached storage in a final read, collect, write cycle (stored: {got:?})", keys[n]));
                            }
                        }
                    }
                }
                if stuck >= 2 {
                    break;
                }
                stuck += 1;
            } else if round > rounds + 60 {
                let l = g.inflight.values().next().cloned().unwrap_or_default();
                let m = format!("operation \"{l}\" never completes although storage works and reads succeed");
                let blame: &[&str] = if l.contains("attach") {
                    &["P13", "P10"]
                } else if l.contains("detach") {
                    &["P10"]
                } else {
                    &["P09"]
                };
                if blame.contains(&p) {
                    return Err(m);
                }
                return Ok(());
            }
        }
        Ok(())
    })();
    {
        let mut g = w.borrow_mut();
        for (k, v) in std::mem::take(&mut g.cnt) {
            c.cov.add(k, v);
        }
        c.trace.append(&mut g.trace);
        let h = hash(&c.trace);
        c.cov.seen(h);
    }
    c.cov.max("max_polls", sim.polls);
    c.cov.add("polls_within_a_wake", sim.eager_polls());
    let iter = c.iter;
    let tr = &c.trace;
    c.cov.samples.len().lt(&3).then(|| {
        let t: Vec<_> = tr.iter().take(25).cloned().collect();
        c.cov.samples.push(format!("iteration {iter}: {}", t.join("; ")));
    });
    drop(sim);
    // handles that are still held stay usable
    let held = HELD.with(|h| std::mem::take(&mut *h.borrow_mut()));
    for h in &held {
        load(&w, h);
    }
    if res.is_ok()
        && let Some(v) = w.borrow_mut().viol.take()
    {
        return Err(v);
    }
    drop(held);
    let mut ok = true;
    for n in &nodes {
        // attached to at most one of the lists
        let mut one = false;
        for l in &lists {
            match crate::exec::run_now(n.detach(l)) {
                Some(Ok(())) => one = true,
                Some(Err(_)) => {}
                None => ok = false,
            }
        }
        ok &= one;
        // now it must be attached to none
        for l in &lists {
            if crate::exec::run_now(n.detach(l)) != Some(Ok(())) {
                ok = false;
            }
        }
    }
    if !ok && p == "P10" && res.is_ok() {
        return Err("a node cannot be detached although no handle and no attach is live".into());
    }
    if ok {
        unsafe {
            for n in nodes {
                crate::sim::unleak(n);
            }
            for l in lists {
                crate::sim::unleak(l);
            }
        }
    }
    res?;
    if p == "P11" {
        c.cov.count("ledgers_closed");
        c.cov.add("payloads_tracked", crate::sim::track_created());
        let bad = track_bad();
        if !bad.is_empty() {
            return Err(format!("payload ledger: {}", bad.join("; ")));
        }
        if ok && track_live() != 0 {
            return Err(format!(
                "{} payload instances are still alive after all nodes were detached and all futures dropped",
                track_live()
            ));
        }
    }
    Ok(())
}

pub fn iteration(c: &mut Ctx) -> Verdict {
    go(c)
}

pub fn checks() -> Vec<Check> {
    let base = |prop, rule, must_see, quick_iters| Check {
        prop,
        level: "exploration",
        rule,
        assumptions: &["tasks interleave at await points of one thread; true parallelism is covered by P12"],
        quick_iters,
        quick_secs: 150,
        thorough_secs: 780,
        run: go,
        must_see,
    };
    vec![
        base("P09", "every load under random interleavings compared with the per-key register; distinct = schedules and traces", &["loads_checked", "write_ok", "write_dropped", "writes_ok"], 250000),
        base("P10", "results of attach / detach / handle drops must have a linearization in the protocol model", &["attach_ok", "attach_err", "detach_ok", "detach_err", "attach_dropped", "detach_dropped"], 250000),
        base("P13", "every completed attach judged against the reads since the node was last detached; waiting attaches judged at every point of rest", &["hydrations_judged", "attach_default", "attach_stored", "attaches_waiting_at_rest"], 250000),
        base("P23", "as P10 and P09 with the no-op worker; nothing may be pending at rest", &["attach_ok", "detach_ok", "write_ok", "quiescent_points"], 250000),
        base("P24", "points of rest must have no waiting attach and no unstored handle write", &["woken_for_read", "woken_for_write", "pending_writes_judged", "waits_raced", "later_waits_served", "requests_with_a_wait_in_place", "woken_waits_dropped"], 400000),
    ]
}
