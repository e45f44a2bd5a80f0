//! Compile probes. `--cfg scene="..."` picks a program, `--cfg pay="..."` its payload type,
//! `--cfg raw="..."` its lock type, `--cfg bad` the forbidden variant of a scene.
//! A program that uses sound types compiles; the same program with a type (or in a variant) that
//! would make it racy or dangling must not.
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unexpected_cfgs)]
use cfg_noodle::{StorageList, StorageListNode, StorageListNodeHandle, flash::empty::AlwaysEmptyFlash};
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder, decode, encode};
use mutex_traits::{ConstInit, ScopedRawMutex};
use std::{cell::Cell, future::Future, marker::PhantomData, rc::Rc, sync::MutexGuard};

#[cfg(pay = "plain")]
type Inner = u32;
#[cfg(pay = "cell")]
type Inner = Cell<u32>; // Send, not Sync
#[cfg(pay = "rc")]
type Inner = Rc<u32>; // neither
#[cfg(pay = "guard")]
type Inner = (u32, PhantomData<MutexGuard<'static, u32>>); // Sync, not Send
#[cfg(pay = "raw")]
type Inner = (u32, PhantomData<*const u32>); // neither

#[derive(Clone, Debug)]
struct P(Inner);
trait Mk {
    fn mk(n: u32) -> Self;
    fn n(&self) -> u32;
}
impl Mk for u32 {
    fn mk(n: u32) -> Self {
        n
    }
    fn n(&self) -> u32 {
        *self
    }
}
impl Mk for Cell<u32> {
    fn mk(n: u32) -> Self {
        Cell::new(n)
    }
    fn n(&self) -> u32 {
        self.get()
    }
}
impl Mk for Rc<u32> {
    fn mk(n: u32) -> Self {
        Rc::new(n)
    }
    fn n(&self) -> u32 {
        **self
    }
}
impl<T> Mk for (u32, PhantomData<T>) {
    fn mk(n: u32) -> Self {
        (n, PhantomData)
    }
    fn n(&self) -> u32 {
        self.0
    }
}
impl Default for P {
    fn default() -> Self {
        P(Inner::mk(0))
    }
}
impl<C> Encode<C> for P {
    fn encode<W: encode::Write>(&self, e: &mut Encoder<W>, _: &mut C) -> Result<(), encode::Error<W::Error>> {
        e.u32(self.0.n())?;
        Ok(())
    }
}
impl<C> CborLen<C> for P {
    fn cbor_len(&self, c: &mut C) -> usize {
        self.0.n().cbor_len(c)
    }
}
impl<'b, C> Decode<'b, C> for P {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, decode::Error> {
        Ok(P(Inner::mk(d.u32()?)))
    }
}

#[cfg(not(raw = "local"))]
struct Lock(std::sync::atomic::AtomicBool);
#[cfg(raw = "local")]
struct Lock(Cell<bool>);
#[cfg(not(raw = "local"))]
const UNLOCKED: Lock = Lock(std::sync::atomic::AtomicBool::new(false));
#[cfg(raw = "local")]
const UNLOCKED: Lock = Lock(Cell::new(false));
impl ConstInit for Lock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = UNLOCKED;
}
unsafe impl ScopedRawMutex for Lock {
    fn try_with_lock<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        None
    }
    fn with_lock<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    fn is_locked(&self) -> bool {
        false
    }
}
type L = StorageList<Lock, 3>;
type N = StorageListNode<P>;
type H = StorageListNodeHandle<P, Lock, 3>;

fn block<T>(f: impl Future<Output = T>) -> T {
    unimplemented!()
}
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
fn need_send<T: Send>(t: T) {}

/// a static node, used from two threads, served by a third
#[cfg(scene = "static_node")]
fn main() {
    static LIST: L = L::new();
    static NODE: N = N::new("k");
    std::thread::spawn(|| {
        let h = block(NODE.attach(&LIST)).unwrap();
        h.load();
    });
    std::thread::spawn(|| {
        let mut h = block(NODE.attach(&LIST)).unwrap();
        block(h.write(&P::default())).unwrap();
    });
    block(LIST.process_writes(&mut AlwaysEmptyFlash, &mut [])).unwrap();
}

/// the node never leaves this thread, but the list is served by another one
#[cfg(scene = "foreign_worker")]
fn main() {
    static LIST: L = L::new();
    let node = leak(N::new("k"));
    std::thread::spawn(|| block(LIST.process_writes(&mut AlwaysEmptyFlash, &mut [])));
    let h = block(node.attach(&LIST)).unwrap();
    h.load();
}
#[cfg(scene = "foreign_worker_default")]
fn main() {
    static LIST: L = L::new();
    let node = leak(N::new("k"));
    std::thread::spawn(|| block(LIST.process_writes(&mut AlwaysEmptyFlash, &mut [])));
    let h = block(node.attach_with_default(&LIST, P::default)).unwrap();
    h.load();
}

/// a handle moves to another thread
#[cfg(scene = "send_handle")]
fn main() {
    static LIST: L = L::new();
    let node = leak(N::new("k"));
    let h = block(node.attach(&LIST)).unwrap();
    std::thread::spawn(move || {
        h.load();
        drop(h);
    });
}
/// a handle is looked at from another thread
#[cfg(scene = "share_handle")]
fn main() {
    static LIST: L = L::new();
    let node = leak(N::new("k"));
    let h: &'static H = leak(block(node.attach(&LIST)).unwrap());
    std::thread::spawn(move || {
        h.load();
    });
    h.load();
}
/// a reference to a node moves to another thread, which attaches it there
#[cfg(scene = "share_node")]
fn main() {
    static LIST: L = L::new();
    let node = leak(N::new("k"));
    std::thread::spawn(move || {
        let h = block(node.attach(&LIST)).unwrap();
        h.load();
    });
}
/// a list with this lock is served from two threads
#[cfg(scene = "share_list")]
fn main() {
    let l: &'static L = leak(L::new());
    std::thread::spawn(move || {
        block(l.process_writes(&mut AlwaysEmptyFlash, &mut [])).unwrap();
    });
    block(l.process_writes(&mut AlwaysEmptyFlash, &mut [])).unwrap();
}
/// a handle to a node of a list with this lock moves to another thread
#[cfg(scene = "send_handle_of_local_list")]
fn main() {
    let l: &'static L = leak(L::new());
    let node = leak(N::new("k"));
    let mut h = block(node.attach(l)).unwrap();
    std::thread::spawn(move || {
        block(h.write(&P::default())).unwrap();
    });
    block(l.process_writes(&mut AlwaysEmptyFlash, &mut [])).unwrap();
}
/// handle writes from two threads at once
#[cfg(scene = "shared_write")]
fn main() {
    fn f(mut h: H) {
        #[cfg(bad)]
        std::thread::scope(|s| {
            s.spawn(|| block(h.write(&P::default())));
            s.spawn(|| h.load());
        });
        #[cfg(not(bad))]
        std::thread::scope(|s| {
            s.spawn(|| h.load());
            s.spawn(|| h.load());
        });
    }
}
/// a write in flight while the value is read
#[cfg(scene = "load_during_write")]
fn main() {
    fn f(mut h: H) {
        let p = P::default();
        let w = h.write(&p);
        #[cfg(bad)]
        h.load();
        block(w).unwrap();
        #[cfg(not(bad))]
        h.load();
    }
}
/// two handles of one node
#[cfg(scene = "clone_handle")]
fn main() {
    fn f(h: H) -> H {
        #[cfg(bad)]
        return Clone::clone(&h);
        #[cfg(not(bad))]
        return h;
    }
}
/// nodes and lists must outlive what is attached
#[cfg(scene = "stack_node")]
fn main() {
    static LIST: L = L::new();
    #[cfg(bad)]
    let node = N::new("k");
    #[cfg(not(bad))]
    let node = leak(N::new("k"));
    let h = block(node.attach(&LIST)).unwrap();
    h.load();
}
#[cfg(scene = "stack_list")]
fn main() {
    static NODE: N = N::new("k");
    #[cfg(bad)]
    let list = &L::new();
    #[cfg(not(bad))]
    let list = leak(L::new());
    let list = list;
    let h = block(NODE.attach(list)).unwrap();
    h.load();
}
/// a handle outlives a move of its node
#[cfg(scene = "move_node")]
fn main() {
    static LIST: L = L::new();
    let node: Box<N> = Box::new(N::new("k"));
    #[cfg(bad)]
    {
        let h = block(node.attach(&LIST)).unwrap();
        let moved = *node;
        h.load();
    }
    #[cfg(not(bad))]
    {
        let node: &'static N = Box::leak(node);
        let h = block(node.attach(&LIST)).unwrap();
        h.load();
    }
}
