#![allow(dead_code)]
//! Helpers shared by the demonstrations: an in-memory element queue with fault knobs, a mutex
//! and a tiny executor.
use cfg_noodle::{Crc32, Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList};
use core::num::NonZeroU32;
use core::pin::{Pin, pin};
use core::task::{Context, Poll, Waker};
use mutex_traits::{ConstInit, ScopedRawMutex};
use std::sync::atomic::{AtomicBool, Ordering};

/// A std-capable raw mutex
pub struct Raw(AtomicBool);
impl ConstInit for Raw {
    const INIT: Self = Raw(AtomicBool::new(false));
}
unsafe impl ScopedRawMutex for Raw {
    fn try_with_lock<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        if self.0.swap(true, Ordering::Acquire) {
            return None;
        }
        let r = f();
        self.0.store(false, Ordering::Release);
        Some(r)
    }
    fn with_lock<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.0.swap(true, Ordering::Acquire) {
            std::thread::yield_now();
        }
        let r = f();
        self.0.store(false, Ordering::Release);
        r
    }
    fn is_locked(&self) -> bool {
        self.0.load(Ordering::Relaxed)
    }
}

pub type List<const K: usize> = StorageList<Raw, K>;
pub fn list<const K: usize>() -> &'static List<K> {
    Box::leak(Box::new(StorageList::new()))
}
pub fn node<T>(key: &'static str) -> &'static cfg_noodle::StorageListNode<T>
where
    T: Send + Sync + Clone + minicbor::Encode<()> + minicbor::CborLen<()> + 'static,
    for<'a> T: minicbor::Decode<'a, ()>,
{
    Box::leak(Box::new(cfg_noodle::StorageListNode::new(key)))
}

/// Poll a future with a waker that does nothing
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}
/// Run to completion, panics if the future makes no progress
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    for _ in 0..100_000 {
        if let Poll::Ready(r) = poll(f.as_mut()) {
            return r;
        }
    }
    panic!("the operation never completes");
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    Read,
    Write,
}

/// A queue of raw elements
#[derive(Default)]
pub struct Mem {
    pub items: Vec<Vec<u8>>,
    /// Fail this many `next` calls from now, then one failure
    pub fail_next_in: Option<usize>,
    pub fail_push_in: Option<usize>,
    pub fail_pop_in: Option<usize>,
    /// Applied to every pushed element: None drops it silently
    pub tamper: Option<fn(usize, Vec<u8>) -> Option<Vec<u8>>>,
    pub yield_on_push: bool,
    pub pushes: usize,
    pub pops: usize,
    pub read_bytes: usize,
    pub pushed_bytes: usize,
    pub popped_bytes: usize,
}

fn due(c: &mut Option<usize>) -> bool {
    match c {
        Some(0) => {
            *c = None;
            true
        }
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    }
}

pub fn raw(e: &Elem<'_>) -> Vec<u8> {
    match e {
        Elem::Start { seq_no } => [&[0u8][..], &seq_no.get().to_le_bytes()].concat(),
        Elem::Data { data } => [&[1u8][..], data.key_val()].concat(),
        Elem::End { seq_no, calc_crc } => {
            [&[2u8][..], &seq_no.get().to_le_bytes(), &calc_crc.to_le_bytes()].concat()
        }
    }
}
pub fn kv<T: minicbor::Encode<()>>(key: &str, v: T) -> Vec<u8> {
    let mut b = minicbor::to_vec(key).unwrap();
    b.extend(minicbor::to_vec(v).unwrap());
    b
}
/// The elements of a whole record
pub fn record(seq: u32, entries: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let seq_no = NonZeroU32::new(seq).unwrap();
    let mut crc = Crc32::new();
    let mut v = vec![raw(&Elem::Start { seq_no })];
    for e in entries {
        crc.update(e);
        v.push([&[1u8][..], e].concat());
    }
    v.push(raw(&Elem::End { seq_no, calc_crc: crc.finalize() }));
    v
}
pub fn size(len: usize) -> usize {
    len + 8
}

pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub fn yield_now() -> Yield {
    Yield(false)
}

impl NdlDataStorage for Mem {
    type Iter<'t> = It<'t>;
    type Error = Fault;
    async fn iter_elems<'t>(&'t mut self) -> Result<It<'t>, Fault> {
        Ok(It { m: self, pos: 0 })
    }
    async fn push(&mut self, e: &Elem<'_>) -> Result<usize, Fault> {
        if self.yield_on_push {
            yield_now().await;
        }
        if due(&mut self.fail_push_in) {
            return Err(Fault::Write);
        }
        let b = raw(e);
        let n = size(b.len());
        let idx = self.pushes;
        self.pushes += 1;
        let b = match self.tamper {
            Some(f) => f(idx, b),
            None => Some(b),
        };
        self.items.extend(b);
        self.pushed_bytes += n;
        Ok(n)
    }
    const MAX_ELEM_SIZE: usize = 256;
}
pub struct It<'t> {
    m: &'t mut Mem,
    pos: usize,
}
impl<'t> NdlElemIter for It<'t> {
    type Item<'i, 'b>
        = Node<'i>
    where
        Self: 'i,
        Self: 'b;
    type Error = Fault;
    async fn next<'i, 'b>(&'i mut self, _: &'b mut [u8]) -> Result<Option<Node<'i>>, Fault>
    where
        Self: 'b,
        Self: 'i,
    {
        if due(&mut self.m.fail_next_in) {
            return Err(Fault::Read);
        }
        let Some(bytes) = self.m.items.get(self.pos).cloned() else {
            return Ok(None);
        };
        self.m.read_bytes += size(bytes.len());
        self.pos += 1;
        Ok(Some(Node { bytes, m: &mut *self.m, pos: &mut self.pos }))
    }
}
pub struct Node<'i> {
    bytes: Vec<u8>,
    m: &'i mut Mem,
    pos: &'i mut usize,
}
impl NdlElemIterNode for Node<'_> {
    type Error = Fault;
    fn data(&self) -> Option<Elem<'_>> {
        let u = |r: &[u8]| NonZeroU32::new(u32::from_le_bytes(r.try_into().unwrap()));
        match self.bytes.split_first()? {
            (0, r) if r.len() == 4 => Some(Elem::Start { seq_no: u(r)? }),
            (1, r) if !r.is_empty() => {
                Some(Elem::Data { data: SerData::from_existing(&self.bytes)? })
            }
            (2, r) if r.len() == 8 => Some(Elem::End {
                seq_no: u(&r[..4])?,
                calc_crc: u32::from_le_bytes(r[4..].try_into().unwrap()),
            }),
            _ => None,
        }
    }
    fn len(&self) -> usize {
        size(self.bytes.len())
    }
    async fn invalidate(self) -> Result<(), Fault> {
        if due(&mut self.m.fail_pop_in) {
            return Err(Fault::Write);
        }
        *self.pos -= 1;
        self.m.items.remove(*self.pos);
        self.m.pops += 1;
        self.m.popped_bytes += size(self.bytes.len());
        Ok(())
    }
}

/// attach on a list: poll once so it registers, run `process_reads`, finish
pub fn attach<T, const K: usize>(
    n: &'static cfg_noodle::StorageListNode<T>,
    l: &'static List<K>,
    m: &mut Mem,
    default: T,
) -> cfg_noodle::StorageListNodeHandle<T, Raw, K>
where
    T: Send + Sync + Clone + minicbor::Encode<()> + minicbor::CborLen<()> + 'static,
    for<'a> T: minicbor::Decode<'a, ()>,
{
    let mut f = pin!(n.attach_with_default(l, move || default));
    if let Poll::Ready(r) = poll(f.as_mut()) {
        return r.expect("attach");
    }
    run(l.process_reads(m, &mut [0; 256])).expect("reads");
    run(f).expect("attach")
}
pub fn reads<const K: usize>(l: &'static List<K>, m: &mut Mem) -> Result<(), String> {
    run(l.process_reads(m, &mut [0; 256])).map(|_| ()).map_err(|e| format!("{e:?}"))
}
pub fn writes<const K: usize>(l: &'static List<K>, m: &mut Mem) -> Result<(), String> {
    run(l.process_writes(m, &mut [0; 256])).map(|_| ()).map_err(|e| format!("{e:?}"))
}
pub fn garbage<const K: usize>(l: &'static List<K>, m: &mut Mem) -> Result<(), String> {
    run(l.process_garbage(m, &mut [0; 256])).map(|_| ()).map_err(|e| format!("{e:?}"))
}
/// What a fresh boot hydrates for the key
pub fn boot<T>(key: &'static str, m: &mut Mem, default: T) -> T
where
    T: Send + Sync + Clone + minicbor::Encode<()> + minicbor::CborLen<()> + 'static,
    for<'a> T: minicbor::Decode<'a, ()>,
{
    let l = list::<3>();
    attach(node::<T>(key), l, m, default).load()
}
