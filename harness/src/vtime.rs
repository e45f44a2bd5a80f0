//! Virtual-time driver for embassy-time: time only moves when the harness advances it.
//! State is per thread, so independent simulations can run on several threads.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    task::Waker,
};

#[derive(Default)]
struct Clock {
    now: u64,
    seq: u64,
    timers: BTreeMap<(u64, u64), Waker>,
}
thread_local! {
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
}

struct VDriver;
impl embassy_time_driver::Driver for VDriver {
    fn now(&self) -> u64 {
        CLOCK.with(|c| c.borrow().now)
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        let fire = CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            if at <= c.now {
                true
            } else {
                // keep one entry per (deadline, waker)
                if !c
                    .timers
                    .range((at, 0)..=(at, u64::MAX))
                    .any(|(_, w)| w.will_wake(waker))
                {
                    let s = c.seq;
                    c.seq += 1;
                    c.timers.insert((at, s), waker.clone());
                }
                false
            }
        });
        if fire {
            waker.wake_by_ref();
        }
    }
}
embassy_time_driver::time_driver_impl!(static DRIVER: VDriver = VDriver);

pub const TICKS_PER_MS: u64 = 1_000;

pub fn reset() {
    CLOCK.with(|c| *c.borrow_mut() = Clock::default());
}
pub fn now() -> u64 {
    CLOCK.with(|c| c.borrow().now)
}
pub fn next_deadline() -> Option<u64> {
    CLOCK.with(|c| c.borrow().timers.keys().next().map(|k| k.0))
}
/// Advance to `t` (never backwards), firing everything due.
pub fn advance_to(t: u64) {
    let due: Vec<Waker> = CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        if t > c.now {
            c.now = t;
        }
        let now = c.now;
        let keys: Vec<_> = c.timers.range(..=(now, u64::MAX)).map(|(k, _)| *k).collect();
        keys.into_iter().filter_map(|k| c.timers.remove(&k)).collect()
    });
    for w in due {
        w.wake();
    }
}
/// Forget wakers (after the futures that own them are gone).
pub fn clear_timers() {
    CLOCK.with(|c| c.borrow_mut().timers.clear());
}
