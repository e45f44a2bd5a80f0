//! Single-threaded executors.
//!
//! * [`run_now`]: drive one future to completion without any other activity; `None` if it parks.
//! * [`Sim`]: a wake-accurate random-order executor: a task is polled only after its waker fired
//!   (plus optional spurious polls), so a lost wake-up shows up as quiescence with unfinished work.
use crate::rng::Rng;
use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicBool, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Poll a future repeatedly as long as it keeps waking itself. Returns None if it parks
/// (pending without having been woken) or exceeds `max_polls`.
pub fn run_pinned<T>(fut: &mut Pin<Box<dyn Future<Output = T> + '_>>, max_polls: usize) -> Option<T> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..max_polls {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return None;
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

/// Drive a future that should not have to wait for anybody else.
pub fn run_now<T>(fut: impl Future<Output = T>) -> Option<T> {
    let mut fut = std::pin::pin!(fut);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..1_000_000 {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return None;
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

/// A future that parks forever (used to model an operation that is in flight when the caller
/// drops the future).
pub async fn park_forever() {
    std::future::pending::<()>().await
}

/// Yield to the scheduler once (wakes itself immediately).
pub async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub type TaskId = usize;
type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// The future of a task. `None` while it is being polled and when it has ended.
struct Slot {
    fut: RefCell<Option<Fut>>,
    alive: Cell<bool>,
    flag: Arc<TaskFlag>,
}
struct TaskFlag {
    set: AtomicBool,
    id: usize,
}
/// The tasks that may be polled from within a wake-up, see [`Sim::eager`]
#[derive(Default)]
struct Eager {
    slots: Vec<Rc<Slot>>,
    rng: Option<Rng>,
    level: u32,
    depth: u32,
    polls: u64,
    log: Vec<usize>,
}
thread_local! {
    static EAGER: RefCell<Eager> = RefCell::new(Eager::default());
}
impl Wake for TaskFlag {
    /// Sets the flag. In eager mode the task may also be polled right here, in the middle of the
    /// operation that woke it - what another core or an interrupt would do: the wait queues call
    /// their wakers without holding any lock.
    fn wake(self: Arc<Self>) {
        self.set.store(true, Ordering::SeqCst);
        let slot = EAGER.with(|e| {
            let mut e = e.borrow_mut();
            if e.level == 0 || e.depth == 0 || e.depth > 3 {
                return None;
            }
            let lv = e.level;
            if !e.rng.as_mut().is_some_and(|r| r.chance(lv, 8)) {
                return None;
            }
            e.slots.get(self.id).cloned()
        });
        if let Some(s) = slot {
            poll_slot(&s, true);
        }
    }
}
fn poll_slot(s: &Rc<Slot>, eager: bool) -> bool {
    let Some(mut f) = s.fut.borrow_mut().take() else {
        return !s.alive.get();
    };
    s.flag.set.store(false, Ordering::SeqCst);
    EAGER.with(|e| {
        let mut e = e.borrow_mut();
        e.depth += 1;
        if eager {
            e.polls += 1;
            e.log.push(s.flag.id);
        }
    });
    let waker = Waker::from(s.flag.clone());
    let done = f.as_mut().poll(&mut Context::from_waker(&waker)).is_ready();
    if done {
        s.alive.set(false);
        drop(f);
    } else {
        *s.fut.borrow_mut() = Some(f);
    }
    EAGER.with(|e| e.borrow_mut().depth -= 1);
    done
}

struct Task {
    slot: Rc<Slot>,
    name: String,
    daemon: bool,
}

/// Wake-accurate random executor.
pub struct Sim<'a> {
    tasks: Vec<Task>,
    lt: std::marker::PhantomData<&'a ()>,
    pub polls: u64,
    pub sched_hash: u64,
    pub spurious: bool,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Outcome {
    /// all non-daemon tasks finished
    Done,
    /// no task is runnable but non-daemon tasks remain
    Quiescent,
    /// step limit reached
    Limit,
}

impl<'a> Sim<'a> {
    pub fn new() -> Self {
        EAGER.with(|e| *e.borrow_mut() = Eager::default());
        Sim {
            tasks: vec![],
            lt: std::marker::PhantomData,
            polls: 0,
            sched_hash: 0xcbf29ce484222325,
            spurious: false,
        }
    }
    /// Poll woken tasks right within the wake-up, in `level` of 8 cases
    pub fn eager(&mut self, level: u32, rng: Rng) {
        EAGER.with(|e| {
            let mut e = e.borrow_mut();
            e.level = level;
            e.rng = Some(rng);
        });
    }
    /// How many polls happened within a wake-up?
    pub fn eager_polls(&self) -> u64 {
        EAGER.with(|e| e.borrow().polls)
    }
    pub fn spawn(&mut self, name: impl Into<String>, fut: impl Future<Output = ()> + 'a) -> TaskId {
        let id = self.tasks.len();
        let fut: Pin<Box<dyn Future<Output = ()> + 'a>> = Box::pin(fut);
        // SAFETY: the futures are dropped with the Sim, at the latest
        let fut: Fut = unsafe { std::mem::transmute(fut) };
        let slot = Rc::new(Slot {
            fut: RefCell::new(Some(fut)),
            alive: Cell::new(true),
            flag: Arc::new(TaskFlag { set: AtomicBool::new(true), id }),
        });
        EAGER.with(|e| e.borrow_mut().slots.push(slot.clone()));
        self.tasks.push(Task { slot, name: name.into(), daemon: false });
        id
    }
    pub fn spawn_daemon(
        &mut self,
        name: impl Into<String>,
        fut: impl Future<Output = ()> + 'a,
    ) -> TaskId {
        let id = self.spawn(name, fut);
        self.tasks[id].daemon = true;
        id
    }
    pub fn drop_task(&mut self, id: TaskId) {
        self.tasks[id].slot.alive.set(false);
        let f = self.tasks[id].slot.fut.borrow_mut().take();
        drop(f);
    }
    pub fn finished(&self, id: TaskId) -> bool {
        !self.tasks[id].slot.alive.get()
    }
    pub fn unfinished(&self) -> Vec<String> {
        self.tasks
            .iter()
            .filter(|t| t.slot.alive.get() && !t.daemon)
            .map(|t| t.name.clone())
            .collect()
    }
    fn runnable(&self) -> Vec<usize> {
        self.tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.slot.alive.get() && t.slot.flag.set.load(Ordering::SeqCst))
            .map(|(i, _)| i)
            .collect()
    }
    pub fn poll_task(&mut self, i: usize) -> bool {
        self.polls += 1;
        self.mix(i as u64 + 1);
        let done = poll_slot(&self.tasks[i].slot.clone(), false);
        let log = EAGER.with(|e| std::mem::take(&mut e.borrow_mut().log));
        self.polls += log.len() as u64;
        for x in log {
            self.mix(x as u64 + 1000);
        }
        done
    }
    fn mix(&mut self, x: u64) {
        self.sched_hash = (self.sched_hash ^ x).wrapping_mul(0x100000001b3);
    }
    /// Run until done / quiescent / limit.
    pub fn run(&mut self, rng: &mut Rng, max_polls: u64) -> Outcome {
        let limit = self.polls + max_polls;
        loop {
            if self.tasks.iter().all(|t| !t.slot.alive.get() || t.daemon) {
                return Outcome::Done;
            }
            if self.polls >= limit {
                return Outcome::Limit;
            }
            let r = self.runnable();
            if r.is_empty() {
                return Outcome::Quiescent;
            }
            if self.spurious && rng.chance(1, 16) {
                let alive: Vec<usize> = self
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.slot.alive.get())
                    .map(|(i, _)| i)
                    .collect();
                let i = *rng.pick(&alive);
                self.poll_task(i);
                continue;
            }
            let i = *rng.pick(&r);
            self.poll_task(i);
        }
    }
    /// Run until nothing is runnable any more (daemons included) or the limit is hit. Now and then
    /// one task is held back for a while, so that the others run into it at any point of its work.
    pub fn settle(&mut self, rng: &mut Rng, max_polls: u64) -> Outcome {
        let limit = self.polls + max_polls;
        let mut held: Option<(usize, u32)> = None;
        loop {
            let r = self.runnable();
            if r.is_empty() {
                return Outcome::Quiescent;
            }
            if self.polls >= limit {
                return Outcome::Limit;
            }
            if held.is_none() && rng.chance(1, 12) {
                held = Some((*rng.pick(&r), rng.range(1, 40) as u32));
            }
            let mut i = *rng.pick(&r);
            if let Some((h, n)) = held {
                if i == h {
                    let o: Vec<usize> = r.iter().copied().filter(|x| *x != h).collect();
                    if !o.is_empty() {
                        i = *rng.pick(&o);
                    }
                }
                held = if n > 1 { Some((h, n - 1)) } else { None };
            }
            if self.spurious && rng.chance(1, 24) {
                let alive: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].slot.alive.get()).collect();
                i = *rng.pick(&alive);
            }
            self.poll_task(i);
        }
    }
    #[allow(dead_code)]
    pub fn any_runnable(&self) -> bool {
        !self.runnable().is_empty()
    }
}

impl Drop for Sim<'_> {
    fn drop(&mut self) {
        // wake-ups caused by dropping the futures only set flags (the depth is 0)
        for t in &self.tasks {
            t.slot.alive.set(false);
            let f = t.slot.fut.borrow_mut().take();
            drop(f);
        }
        EAGER.with(|e| {
            let old = std::mem::take(&mut *e.borrow_mut());
            drop(old);
        });
    }
}

/// Shared cell helpers
pub type Shared<T> = Rc<RefCell<T>>;
pub fn shared<T>(t: T) -> Shared<T> {
    Rc::new(RefCell::new(t))
}

/// A manually fired event usable as stop signal.
#[derive(Clone, Default)]
pub struct Event {
    set: Rc<Cell<bool>>,
    waker: Rc<RefCell<Option<Waker>>>,
}
impl Event {
    pub fn fire(&self) {
        self.set.set(true);
        let w = self.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn fired(&self) -> bool {
        self.set.get()
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            if self.set.get() {
                Poll::Ready(())
            } else {
                *self.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// Poll `fut` for at most `n` polls of the inner future, then drop it: `None` if dropped.
pub async fn cancel_after<T>(fut: impl Future<Output = T>, n: usize) -> Option<T> {
    let mut fut = Box::pin(fut);
    let mut left = n;
    let r = std::future::poll_fn(|cx| {
        if left == 0 {
            return Poll::Ready(None);
        }
        left -= 1;
        match fut.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if left == 0 {
                    Poll::Ready(None)
                } else {
                    Poll::Pending
                }
            }
        }
    })
    .await;
    drop(fut);
    r
}
