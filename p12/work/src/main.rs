//! Multi-threaded programs over the safe public API, generated from a seed, to be run under
//! Miri, ThreadSanitizer or AddressSanitizer. The only `unsafe` in here is the lock
//! implementation, which the API leaves to the user.
//!
//! usage: p12-work [SEED] [ROUNDS] [WEIGHT]
//! Without a seed one is drawn from the runtime (under Miri: from the schedule seed).
use cfg_noodle::{
    Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode,
    StorageListNodeHandle,
};
use minicbor::{CborLen, Decode, Encode};
use mutex_traits::{ConstInit, ScopedRawMutex};
use std::{
    future::Future,
    hash::{BuildHasher, Hasher},
    num::NonZeroU32,
    pin::{Pin, pin},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
    },
    task::{Context, Poll, Wake, Waker},
};

// ---------------------------------------------------------------- lock, time, executor

pub struct Spin(AtomicBool);
impl ConstInit for Spin {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Spin(AtomicBool::new(false));
}
unsafe impl ScopedRawMutex for Spin {
    fn try_with_lock<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        if self.0.compare_exchange(false, true, Acquire, Relaxed).is_err() {
            return None;
        }
        struct G<'a>(&'a AtomicBool);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.store(false, Release);
            }
        }
        let _g = G(&self.0);
        Some(f())
    }
    fn with_lock<R>(&self, f: impl FnOnce() -> R) -> R {
        let mut f = Some(f);
        loop {
            if let Some(r) = self.try_with_lock(|| (f.take().unwrap())()) {
                return r;
            }
            std::thread::yield_now();
        }
    }
    fn is_locked(&self) -> bool {
        self.0.load(Relaxed)
    }
}

struct NoTime;
impl embassy_time_driver::Driver for NoTime {
    fn now(&self) -> u64 {
        0
    }
    fn schedule_wake(&self, _: u64, _: &Waker) {}
}
embassy_time_driver::time_driver_impl!(static DRIVER: NoTime = NoTime);

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Release);
    }
}
/// Poll until done; between polls, wait for a wake or give others a turn. `None` after `max` polls.
fn drive<T>(mut fut: Pin<&mut impl Future<Output = T>>, max: usize) -> Option<T> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut polls = 0;
    let mut idle = 0u64;
    while polls < max {
        if flag.0.swap(false, Acquire) || idle > 400 {
            idle = 0;
            polls += 1;
            if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                return Some(v);
            }
        } else {
            idle += 1;
            // a thread that only waits for its turn does not need to be polled again
            if max < 100 {
                return None;
            }
            std::thread::yield_now();
        }
    }
    None
}
fn wait<T>(f: impl Future<Output = T>) -> T {
    drive(pin!(f), usize::MAX).unwrap()
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

// ---------------------------------------------------------------- storage

#[derive(Clone)]
enum E {
    S(NonZeroU32),
    D(Vec<u8>),
    X(NonZeroU32, u32),
}
struct Store {
    items: Vec<E>,
    yields: bool,
    fail: u64,
}
struct It<'a> {
    s: &'a mut Store,
    at: usize,
}
struct Node<'i> {
    items: &'i mut Vec<E>,
    at: &'i mut usize,
    e: E,
}
impl Store {
    fn faulty(&mut self) -> bool {
        if self.fail == 0 {
            return false;
        }
        self.fail = self.fail.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.fail >> 33) % 23 == 0
    }
}
impl NdlDataStorage for Store {
    type Iter<'t> = It<'t>;
    type Error = ();
    async fn iter_elems<'t>(&'t mut self) -> Result<It<'t>, ()> {
        if self.yields {
            Yield(false).await;
        }
        Ok(It { s: self, at: 0 })
    }
    async fn push(&mut self, d: &Elem<'_>) -> Result<usize, ()> {
        if self.yields {
            Yield(false).await;
        }
        if self.faulty() {
            return Err(());
        }
        self.items.push(match d {
            Elem::Start { seq_no } => E::S(*seq_no),
            Elem::Data { data } => {
                let mut v = vec![data.hdr()];
                v.extend_from_slice(data.key_val());
                E::D(v)
            }
            Elem::End { seq_no, calc_crc } => E::X(*seq_no, *calc_crc),
        });
        Ok(1)
    }
    const MAX_ELEM_SIZE: usize = 256;
}
impl<'a> NdlElemIter for It<'a> {
    type Item<'this, 'buf>
        = Node<'this>
    where
        Self: 'this,
        Self: 'buf;
    type Error = ();
    async fn next<'this, 'buf>(&'this mut self, _: &'buf mut [u8]) -> Result<Option<Node<'this>>, ()>
    where
        Self: 'buf,
        Self: 'this,
    {
        if self.s.yields {
            Yield(false).await;
        }
        if self.s.faulty() {
            return Err(());
        }
        let Some(e) = self.s.items.get(self.at) else { return Ok(None) };
        let e = e.clone();
        self.at += 1;
        Ok(Some(Node { items: &mut self.s.items, at: &mut self.at, e }))
    }
}
impl NdlElemIterNode for Node<'_> {
    type Error = ();
    fn data(&self) -> Option<Elem<'_>> {
        Some(match &self.e {
            E::S(s) => Elem::Start { seq_no: *s },
            E::D(d) => Elem::Data { data: SerData::from_existing(d)? },
            E::X(s, c) => Elem::End { seq_no: *s, calc_crc: *c },
        })
    }
    async fn invalidate(self) -> Result<(), ()> {
        *self.at -= 1;
        self.items.remove(*self.at);
        Ok(())
    }
    fn len(&self) -> usize {
        1
    }
}

// ---------------------------------------------------------------- payloads

/// Heap payload with redundancy: torn or stale memory shows as inconsistency even natively.
#[derive(Clone, Debug, Default, Encode, Decode, CborLen)]
struct Big {
    #[n(0)]
    id: u64,
    #[n(1)]
    text: String,
    #[n(2)]
    opt: Option<Box<u64>>,
}
#[derive(Clone, Copy, Debug, Default, Encode, Decode, CborLen)]
struct Quad {
    #[n(0)]
    a: u64,
    #[n(1)]
    b: u64,
    #[n(2)]
    c: u64,
    #[n(3)]
    d: u64,
}
trait Pay:
    Clone + Default + Send + Sync + 'static + std::fmt::Debug + Encode<()> + CborLen<()> + for<'a> Decode<'a, ()>
{
    fn mk(n: u64) -> Self;
    fn sound(&self) -> bool;
}
impl Pay for Big {
    fn mk(n: u64) -> Self {
        Big { id: n, text: format!("{n}").repeat(1 + n as usize % 3), opt: (n % 2 == 0).then(|| Box::new(n)) }
    }
    fn sound(&self) -> bool {
        let w = Big::mk(self.id);
        *self.text == *w.text && self.opt == w.opt || (self.id == 0 && self.text.is_empty())
    }
}
impl Pay for Quad {
    fn mk(n: u64) -> Self {
        Quad { a: n, b: !n, c: n.rotate_left(17), d: n ^ 0x5555 }
    }
    fn sound(&self) -> bool {
        let w = Quad::mk(self.a);
        (self.b, self.c, self.d) == (w.b, w.c, w.d) || (self.a, self.b, self.c, self.d) == (0, 0, 0, 0)
    }
}
/// zero sized and dropped
#[derive(Clone, Debug, Default, Encode, Decode, CborLen)]
struct Nil {}
impl Pay for Nil {
    fn mk(_: u64) -> Self {
        Nil {}
    }
    fn sound(&self) -> bool {
        true
    }
}

/// User code that panics: clone, drop, encode, decode, construction.
#[derive(Debug)]
struct Boom(Box<u64>);
thread_local! { static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn fuse(n: u64) {
    FUSE.with(|f| f.set(n));
}
fn tick() {
    let hit = FUSE.try_with(|f| {
        let n = f.get();
        f.set(n.saturating_sub(1));
        n == 1
    });
    if hit == Ok(true) && !std::thread::panicking() {
        ev(12);
        std::panic::panic_any(Bang);
    }
}
struct Bang;
impl Clone for Boom {
    fn clone(&self) -> Self {
        tick();
        Boom(self.0.clone())
    }
}
impl Default for Boom {
    fn default() -> Self {
        tick();
        Boom(Box::new(0))
    }
}
impl Drop for Boom {
    fn drop(&mut self) {
        tick();
    }
}
impl Encode<()> for Boom {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut (),
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        tick();
        e.u64(*self.0)?.ok()
    }
}
impl CborLen<()> for Boom {
    fn cbor_len(&self, c: &mut ()) -> usize {
        tick();
        self.0.cbor_len(c)
    }
}
impl<'b> Decode<'b, ()> for Boom {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut ()) -> Result<Self, minicbor::decode::Error> {
        tick();
        let v = Boom(Box::new(d.u64()?));
        tick();
        Ok(v)
    }
}
impl Pay for Boom {
    fn mk(n: u64) -> Self {
        tick();
        Boom(Box::new(n))
    }
    fn sound(&self) -> bool {
        *self.0 < 1000
    }
}
/// Run it; a panic planted by the fuse is swallowed, any other goes on.
fn tame<R>(fuse_at: u64, f: impl FnOnce() -> R) -> Option<R> {
    fuse(fuse_at);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    fuse(0);
    match r {
        Ok(r) => Some(r),
        Err(e) if e.is::<Bang>() => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// One thread, one list: every call may be cut short by a panic in user code.
fn explosive(mut r: Rng, steps: u64) {
    let list = leak(L::new());
    let nodes: Vec<&'static StorageListNode<Boom>> = (0..2).map(|i| leak(StorageListNode::new(K[i]))).collect();
    let mut have: Vec<Option<H<Boom>>> = vec![None, None];
    let mut sto = Store { items: vec![], yields: false, fail: 0 };
    let mut buf = vec![0u8; 300];
    for _ in 0..steps {
        let i = r.below(2) as usize;
        let at = if r.one_in(2) { 1 + r.below(5) } else { 0 };
        match r.below(6) {
            0 | 1 => {
                if have[i].is_none() {
                    let n = r.next() % 1000;
                    let h = tame(0, || {
                        let mut f = pin!(nodes[i].attach_with_default(list, move || Boom::mk(n)));
                        let mut done = drive(f.as_mut(), 1);
                        if done.is_none() {
                            let _ = tame(at, || drive(pin!(list.process_reads(&mut sto, &mut buf)), 1000));
                            done = tame(at, || drive(f.as_mut(), 3)).flatten();
                        }
                        done
                    });
                    if let Some(Some(Ok(h))) = h {
                        ev(0);
                        assert!(h.load().sound(), "torn value");
                        have[i] = Some(h);
                    }
                }
            }
            2 => {
                if let Some(h) = &mut have[i] {
                    let v = Boom(Box::new(r.next() % 1000));
                    let _ = tame(at, || drive(pin!(h.write(&v)), 3));
                    ev(5);
                    assert!(h.load().sound(), "torn value");
                }
            }
            3 => {
                if let Some(h) = &have[i] {
                    let _ = tame(at, || assert!(h.load().sound(), "torn value"));
                    ev(3);
                }
            }
            4 => {
                have[i] = None;
                if r.one_in(2) {
                    let _ = tame(at, || drive(pin!(nodes[i].detach(list)), 3));
                    ev(7);
                }
            }
            _ => {
                let _ = tame(at, || drive(pin!(list.process_reads(&mut sto, &mut buf)), 1000));
                let _ = tame(0, || drive(pin!(list.process_garbage(&mut sto, &mut buf)), 1000));
                let _ = tame(at, || drive(pin!(list.process_writes(&mut sto, &mut buf)), 1000));
                ev(10);
            }
        }
    }
    have.clear();
    for n in nodes {
        let _ = drive(pin!(n.detach(list)), 3);
    }
}

// ---------------------------------------------------------------- program generator

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
}

static EVENTS: [AtomicU64; 13] = [const { AtomicU64::new(0) }; 13];
const NAMES: [&str; 13] = [
    "attached", "attach_refused", "attach_dropped", "loads", "shared_loads", "writes", "write_dropped",
    "detached", "detach_refused", "reads_ok", "writes_ok", "gc_ok", "panics_in_user_code",
];
fn ev(i: usize) {
    EVENTS[i].fetch_add(1, Relaxed);
}

const KEPT: usize = 2;
type L = StorageList<Spin, KEPT>;
type H<T> = StorageListNodeHandle<T, Spin, KEPT>;

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// What one user thread does with nodes of one payload type.
fn user<T: Pay>(mut r: Rng, lists: Vec<&'static L>, nodes: Vec<&'static StorageListNode<T>>, steps: u64, mailbox: Arc<Mutex<Vec<H<T>>>>) {
    let mut have: Vec<H<T>> = vec![];
    for _ in 0..steps {
        let node = nodes[r.below(nodes.len() as u64) as usize];
        let list = lists[r.below(lists.len() as u64) as usize];
        match r.below(12) {
            0..=3 => {
                let n = r.next() % 1000;
                let f = node.attach_with_default(list, move || T::mk(n));
                let mut f = pin!(f);
                let max = if r.one_in(3) { 1 + r.below(3) as usize } else { usize::MAX };
                match drive(f.as_mut(), max) {
                    Some(Ok(h)) => {
                        ev(0);
                        assert!(h.load().sound(), "torn value after attach");
                        have.push(h);
                    }
                    Some(Err(_)) => ev(1),
                    None => ev(2),
                }
            }
            4 | 5 => {
                if let Some(h) = have.last() {
                    assert!(h.load().sound(), "torn value");
                    ev(3);
                }
            }
            6 | 7 => {
                if let Some(h) = have.last_mut() {
                    let v = T::mk(r.next() % 1000);
                    let mut f = pin!(h.write(&v));
                    let max = if r.one_in(4) { 1 } else { usize::MAX };
                    match drive(f.as_mut(), max) {
                        Some(x) => {
                            x.unwrap();
                            ev(5);
                        }
                        None => ev(6),
                    }
                }
            }
            8 => {
                if let Some(h) = have.pop() {
                    // several threads look at one handle
                    if r.one_in(2) {
                        let h = &h;
                        std::thread::scope(|s| {
                            s.spawn(move || assert!(h.load().sound(), "torn value"));
                            assert!(h.load().sound(), "torn value");
                        });
                        ev(4);
                    }
                    drop(h);
                }
            }
            9 | 10 => {
                // either way the node may be in use elsewhere
                let mut f = pin!(node.detach(list));
                let max = if r.one_in(5) { 1 } else { usize::MAX };
                match drive(f.as_mut(), max) {
                    Some(Ok(())) => ev(7),
                    _ => ev(8),
                }
            }
            _ => {
                // hand a handle over to another thread, or take one
                if r.one_in(2) {
                    if let Some(h) = have.pop() {
                        mailbox.lock().unwrap().push(h);
                    }
                } else {
                    let h = mailbox.lock().unwrap().pop();
                    if let Some(h) = h {
                        assert!(h.load().sound(), "torn value");
                        have.push(h);
                    }
                }
            }
        }
        if r.one_in(4) {
            std::thread::yield_now();
        }
    }
    drop(have);
}

fn worker(mut r: Rng, list: &'static L, stop: Arc<AtomicUsize>, yields: bool, faults: bool, waits: bool) {
    let mut sto = Store { items: vec![], yields, fail: if faults { r.next() | 1 } else { 0 } };
    let mut buf = vec![0u8; 300];
    loop {
        let last = stop.load(Relaxed) == 0;
        if waits && r.one_in(3) {
            // wait for a request for a moment
            let _ = drive(pin!(list.needs_read()), 1);
            let _ = drive(pin!(list.needs_write()), 1);
        }
        let cut = |r: &mut Rng| if r.one_in(6) { 1 + r.below(8) as usize } else { usize::MAX };
        let n = cut(&mut r);
        if let Some(Ok(_)) = drive(pin!(list.process_reads(&mut sto, &mut buf)), n) {
            ev(9);
        }
        if r.one_in(2) {
            let n = cut(&mut r);
            if let Some(Ok(_)) = drive(pin!(list.process_garbage(&mut sto, &mut buf)), n) {
                ev(11);
            }
        }
        if r.one_in(2) {
            let n = cut(&mut r);
            if let Some(Ok(_)) = drive(pin!(list.process_writes(&mut sto, &mut buf)), n) {
                ev(10);
            }
        }
        if last {
            break;
        }
        std::thread::yield_now();
    }
}

const K: [&str; 8] = ["a", "b", "cc", "dd", "eee", "fff", "g", "h"];

fn program(seed: u64, weight: u64) {
    let mut r = Rng(seed);
    if r.one_in(8) {
        return explosive(r, 10 + weight * 2);
    }
    let nl = 1 + r.below(2) as usize;
    let lists: Vec<&'static L> = (0..nl).map(|_| leak(L::new())).collect();
    let threads = 2 + r.below(2) as usize;
    let steps = 2 + r.below(weight);
    let stop = Arc::new(AtomicUsize::new(threads));
    let same_key = r.one_in(6);
    let nn = 1 + r.below(3) as usize;
    let key = |i: usize| if same_key { K[0] } else { K[i] };
    let big: Vec<&'static StorageListNode<Big>> = (0..nn).map(|i| leak(StorageListNode::new(key(i)))).collect();
    let quad: Vec<&'static StorageListNode<Quad>> = (0..2).map(|i| leak(StorageListNode::new(key(3 + i)))).collect();
    let nil: Vec<&'static StorageListNode<Nil>> = vec![leak(StorageListNode::new(key(6)))];
    let mb = Arc::new(Mutex::new(vec![]));
    let mq = Arc::new(Mutex::new(vec![]));
    let mn = Arc::new(Mutex::new(vec![]));
    let yields = r.one_in(2);
    let faults = r.one_in(3);
    // sometimes two workers serve one list, each from a storage of its own
    let twin = r.one_in(8);
    let mut ws = vec![];
    for l in lists.iter().chain(lists.first().filter(|_| twin)) {
        let (l, stop, rr) = (*l, stop.clone(), Rng(r.next()));
        let waits = r.one_in(2);
        ws.push(std::thread::spawn(move || worker(rr, l, stop, yields, faults, waits)));
    }
    let mut us = vec![];
    for _ in 0..threads {
        let rr = Rng(r.next());
        let kind = r.below(7);
        let (lists, stop) = (lists.clone(), stop.clone());
        let (big, quad, nil, mb, mq, mn) = (big.clone(), quad.clone(), nil.clone(), mb.clone(), mq.clone(), mn.clone());
        us.push(std::thread::spawn(move || {
            struct G(Arc<AtomicUsize>);
            impl Drop for G {
                fn drop(&mut self) {
                    self.0.fetch_sub(1, Relaxed);
                }
            }
            let _g = G(stop);
            match kind {
                0..=3 => user(rr, lists, big, steps, mb),
                4 | 5 => user(rr, lists, quad, steps, mq),
                _ => user(rr, lists, nil, steps, mn),
            }
        }));
    }
    for u in us {
        u.join().expect("user thread");
    }
    for w in ws {
        w.join().expect("worker thread");
    }
    // take everything apart, as a later owner would
    mb.lock().unwrap().clear();
    mq.lock().unwrap().clear();
    mn.lock().unwrap().clear();
    for l in &lists {
        for n in &big {
            let _ = wait(n.detach(l));
        }
        for n in &quad {
            let _ = wait(n.detach(l));
        }
        for n in &nil {
            let _ = wait(n.detach(l));
        }
    }
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !i.payload().is::<Bang>() {
            hook(i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let weight = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(10);
    let rounds: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed: u64 = match a.get(1).and_then(|s| s.parse().ok()) {
        Some(0) | None => std::collections::hash_map::RandomState::new().build_hasher().finish(),
        Some(s) => s,
    };
    // stop by itself after this many seconds: what was observed so far gets reported
    let secs: u64 = std::env::var("P12_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let begun = std::time::Instant::now();
    let mut done = 0;
    for i in 0..rounds {
        if secs != u64::MAX && begun.elapsed().as_secs() >= secs {
            break;
        }
        done += 1;
        let s = seed.wrapping_add(i.wrapping_mul(0x1_0000_0001));
        if rounds < 4 {
            println!("program {s}");
        }
        program(s, weight);
    }
    let v: Vec<String> = NAMES.iter().zip(&EVENTS).map(|(n, e)| format!("{n}={}", e.load(Relaxed))).collect();
    println!("events programs={done} {}", v.join(" "));
}
