#![allow(dead_code)]
//! A virtual clock behind embassy_time (1 tick = 1 µs) and an executor driving it
use core::task::Waker;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

pub static NOW: AtomicU64 = AtomicU64::new(0);
static QUEUE: Mutex<Vec<(u64, Waker)>> = Mutex::new(Vec::new());
struct Driver;
impl embassy_time_driver::Driver for Driver {
    fn now(&self) -> u64 {
        NOW.load(SeqCst)
    }
    fn schedule_wake(&self, at: u64, w: &Waker) {
        QUEUE.lock().unwrap().push((at, w.clone()));
    }
}
embassy_time_driver::time_driver_impl!(static DRIVER: Driver = Driver);

struct Flag(AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
/// Run the tasks until virtual time `until` (µs); returns early when all of them have ended
pub fn run_until(tasks: &mut Vec<core::pin::Pin<Box<dyn Future<Output = ()>>>>, until: u64) {
    let mut flags: Vec<std::sync::Arc<Flag>> = tasks.iter().map(|_| std::sync::Arc::new(Flag(AtomicBool::new(true)))).collect();
    loop {
        let mut progress = true;
        let mut n = 0;
        while progress {
            progress = false;
            let mut i = 0;
            while i < tasks.len() {
                if flags[i].0.swap(false, SeqCst) {
                    progress = true;
                    let w = Waker::from(flags[i].clone());
                    if tasks[i].as_mut().poll(&mut core::task::Context::from_waker(&w)).is_ready() {
                        drop(tasks.remove(i));
                        flags.remove(i);
                        continue;
                    }
                }
                i += 1;
            }
            n += 1;
            assert!(n < 1_000_000, "the tasks never rest");
        }
        if tasks.is_empty() {
            return;
        }
        let mut q = QUEUE.lock().unwrap();
        let now = NOW.load(SeqCst);
        let next = q.iter().map(|e| e.0).min().unwrap_or(u64::MAX).max(now);
        if next > until {
            NOW.store(until, SeqCst);
            return;
        }
        NOW.store(next, SeqCst);
        let (due, rest): (Vec<_>, Vec<_>) = q.drain(..).partition(|e| e.0 <= next);
        *q = rest;
        drop(q);
        due.into_iter().for_each(|(_, w)| w.wake());
    }
}
pub fn secs(s: f64) -> embassy_time::Timer {
    embassy_time::Timer::after(embassy_time::Duration::from_micros((s * 1e6) as u64))
}
