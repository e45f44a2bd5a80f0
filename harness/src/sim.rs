//! Building blocks: raw mutex, tracked payload, and one "boot" (a list plus its nodes).
use crate::exec::{run_now, run_pinned};
use cfg_noodle::{NdlDataStorage, StorageList, StorageListNode, StorageListNodeHandle, error::Error};
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder, decode, encode};
use mutex_traits::{ConstInit, ScopedRawMutex};
use std::{
    cell::{Cell, RefCell},
    collections::HashSet,
    future::Future,
    pin::Pin,
    sync::atomic::{AtomicBool, Ordering},
};

// ------------------------------------------------------------------ mutex

/// Spin lock. A lock that stays contended for very long means self-deadlock in a
/// single-threaded simulation.
pub struct SimMutex(AtomicBool);
impl ConstInit for SimMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = SimMutex(AtomicBool::new(false));
}
unsafe impl ScopedRawMutex for SimMutex {
    fn try_with_lock<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        if self
            .0
            .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
            .is_err()
        {
            return None;
        }
        struct G<'a>(&'a AtomicBool);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.store(false, Ordering::Release);
            }
        }
        let _g = G(&self.0);
        Some(f())
    }
    fn with_lock<R>(&self, f: impl FnOnce() -> R) -> R {
        let mut n = 0u64;
        while self
            .0
            .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
            .is_err()
        {
            n += 1;
            if n > 200_000_000 {
                panic!("raw mutex deadlock");
            }
            std::hint::spin_loop();
            if n % 64 == 0 {
                std::thread::yield_now();
            }
        }
        struct G<'a>(&'a AtomicBool);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.store(false, Ordering::Release);
            }
        }
        let _g = G(&self.0);
        f()
    }
    fn is_locked(&self) -> bool {
        self.0.load(Ordering::Relaxed)
    }
}

/// Give leaked memory back. Not under Miri, whose aliasing model forbids it (the nodes' contents
/// are gone by then anyway).
pub unsafe fn unleak<T>(r: &'static T) {
    if !cfg!(miri) {
        drop(unsafe { Box::from_raw((r as *const T).cast_mut()) });
    }
}

// ------------------------------------------------------------------ tracked payload

#[derive(Default)]
pub struct Tracker {
    pub live: HashSet<u64>,
    pub bad: Vec<String>,
    next: u64,
    pub created: u64,
}
thread_local! {
    static TRACK: RefCell<Tracker> = RefCell::new(Tracker::default());
    static IDS: Cell<u64> = const { Cell::new(1) };
    /// decode fails on purpose for ids for which this returns true
    static DECODE_FAIL: Cell<u64> = const { Cell::new(0) };
}
pub fn track_reset() {
    TRACK.with(|t| *t.borrow_mut() = Tracker::default());
    IDS.with(|i| i.set(1));
}
pub fn track_live() -> usize {
    TRACK.with(|t| t.borrow().live.len())
}
pub fn track_created() -> u64 {
    TRACK.with(|t| t.borrow().created)
}
pub fn track_bad() -> Vec<String> {
    TRACK.with(|t| t.borrow().bad.clone())
}
fn track_new() -> u64 {
    TRACK.with(|t| {
        let mut t = t.borrow_mut();
        t.next += 1;
        let n = t.next;
        t.created += 1;
        t.live.insert(n);
        n
    })
}
fn track_use(inst: u64, what: &str) {
    let _ = TRACK.try_with(|t| {
        if let Ok(mut t) = t.try_borrow_mut()
            && !t.live.contains(&inst)
            && t.bad.len() < 8
        {
            t.bad.push(format!("{what} of an instance that is not alive"));
        }
    });
}
fn track_drop(inst: u64) {
    let _ = TRACK.try_with(|t| {
        if let Ok(mut t) = t.try_borrow_mut()
            && !t.live.remove(&inst)
            && t.bad.len() < 8
        {
            t.bad.push("drop of an instance that is not alive (double drop or garbage)".into());
        }
    });
}
/// Fresh unique value id.
pub fn fresh_id() -> u64 {
    IDS.with(|i| {
        let n = i.get();
        i.set(n + 1);
        n
    })
}

/// Payload: a unique id plus derived padding. Every instance is tracked.
pub struct Val {
    inst: u64,
    pub id: u64,
    pub pad: u16,
}
impl Val {
    pub fn new(id: u64, pad: u16) -> Self {
        Val { inst: track_new(), id, pad }
    }
    pub fn pad_byte(id: u64, i: usize) -> u8 {
        ((id.wrapping_mul(0x9E37_79B9) >> 8) as u8).wrapping_add((i as u8).wrapping_mul(31))
    }
    pub fn encoded(id: u64, pad: u16) -> Vec<u8> {
        minicbor::to_vec(Val::new(id, pad)).unwrap()
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        track_use(self.inst, "clone");
        Val { inst: track_new(), id: self.id, pad: self.pad }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        track_drop(self.inst);
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Val({},{})", self.id, self.pad)
    }
}
impl<C> Encode<C> for Val {
    fn encode<W: encode::Write>(
        &self,
        e: &mut Encoder<W>,
        _: &mut C,
    ) -> Result<(), encode::Error<W::Error>> {
        track_use(self.inst, "encode");
        let v: Vec<u8> = (0..self.pad as usize).map(|i| Val::pad_byte(self.id, i)).collect();
        e.array(2)?.u64(self.id)?.bytes(&v)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Val {
    fn cbor_len(&self, _: &mut C) -> usize {
        fn hl(n: u64) -> usize {
            match n {
                0..=23 => 1,
                24..=0xff => 2,
                0x100..=0xffff => 3,
                0x1_0000..=0xffff_ffff => 5,
                _ => 9,
            }
        }
        1 + hl(self.id) + hl(self.pad as u64) + self.pad as usize
    }
}
impl<'b, C> Decode<'b, C> for Val {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, decode::Error> {
        if d.array()? != Some(2) {
            return Err(decode::Error::message("bad array"));
        }
        let id = d.u64()?;
        let b = d.bytes()?;
        // an instance exists already when the padding turns out to be wrong: it must be dropped
        let v = Val::new(id, b.len() as u16);
        for (i, x) in b.iter().enumerate() {
            if *x != Val::pad_byte(id, i) {
                return Err(decode::Error::message("bad padding"));
            }
        }
        Ok(v)
    }
}
/// The id carried by stored value bytes, if they are a faithful `Val`.
pub fn stored_id(b: &[u8]) -> Option<u64> {
    minicbor::decode::<Val>(b).ok().map(|v| v.id)
}

// ------------------------------------------------------------------ boot

pub const KEYS: [&str; 10] = [
    "a",
    "cfg/beta",
    "",
    "k23-aaaaaaaaaaaaaaaaaaa",
    "k24-aaaaaaaaaaaaaaaaaaaa",
    "cl\u{e9}/\u{1f980}",
    "config/some/longer/path",
    "aa",
    "b",
    "cfg/bet",
];

/// Groups of keys that a sloppy comparison takes for each other: case, trailing characters,
/// common prefixes and suffixes, equal lengths, equal first or last bytes, normalisation forms,
/// the lengths around which the CBOR head grows.
const CLUSTERS: [&[&str]; 12] = [
    &["a", "A", "a\0", "a ", "aa", " a", "a/", "/a", "\u{430}", ""],
    &["cfg/beta", "CFG/beta", "cfg/Beta", "cfg/bet", "cfg/beta1", "cfg/betb", "dfg/beta", "cfg/", "cfg"],
    &["cfg-beta", "cfg_beta", "cfg.beta", "cfgbeta", "cfg/beta", "beta/cfg", "cfg//beta"],
    &["cl\u{e9}", "cle\u{301}", "cle", "cl\u{e8}", "cl\u{c9}", "clE"],
    &["ab", "ba", "aab", "abb", "bb", "abab"],
    &["0", "00", "1", "01", "10", "-1", "+1", "1e0", "\0", "\u{1}", "\n"],
    &[
        "net/wifi/station/ssid",
        "net/wifi/station/ssie",
        "net/wifi/station/ssid2",
        "net/wifi/station",
        "net/wifi/statiom/ssid",
        "met/wifi/station/ssid",
    ],
    &[
        "k22-aaaaaaaaaaaaaaaaaa",
        "k23-aaaaaaaaaaaaaaaaaaa",
        "k24-aaaaaaaaaaaaaaaaaaaa",
        "k25-aaaaaaaaaaaaaaaaaaaaa",
        "k23-aaaaaaaaaaaaaaaaaab",
        "k24-aaaaaaaaaaaaaaaaaaab",
    ],
    &[
        "k32/0123456789abcdef0123456789ab",
        "k32/0123456789abcdef0123456789ac",
        "k33/0123456789abcdef0123456789abc",
        "k31/0123456789abcdef0123456789a",
        "K32/0123456789abcdef0123456789ab",
    ],
    &[
        "k64/0123456789abcdef0123456789abcdef0123456789abcdef0123456789ab",
        "k64/0123456789abcdef0123456789abcdef0123456789abcdef0123456789aB",
        "k64/0123456789abcdef0123456789abcdef0123456789abcdef0123456789",
        "k64/0123456789abcdef0123456789abcdee0123456789abcdef0123456789ab",
    ],
    &[
        "k127/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        "k128/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        "k128/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab",
    ],
    &[K255, K256, K256B],
];
const K255: &str = "k255/wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww255";
const K256: &str = "k256/wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww0256";
const K256B: &str = "k256/wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww0257";

/// Up to `n` distinct keys of at most `maxlen` bytes: a mixed bag, or mostly one cluster.
pub fn pick_keys(r: &mut crate::rng::Rng, n: usize, maxlen: usize) -> Vec<&'static str> {
    let mut pool: Vec<&'static str> = vec![];
    if r.chance(1, 2) {
        let mut c = r.pick(&CLUSTERS).to_vec();
        r.shuffle(&mut c);
        pool.extend(c);
        if r.chance(1, 2) {
            pool.truncate(n.saturating_sub(1).max(1));
        }
    }
    let mut rest = KEYS.to_vec();
    if r.chance(1, 3) {
        for c in CLUSTERS {
            rest.extend(c);
        }
    }
    r.shuffle(&mut rest);
    pool.extend(rest);
    let mut out: Vec<&'static str> = vec![];
    for k in pool {
        if k.len() <= maxlen && !out.contains(&k) && out.len() < n {
            out.push(k);
        }
    }
    r.shuffle(&mut out);
    out
}

/// `n` distinct short keys, for lists with many nodes. The strings live for the process.
pub fn many_keys(n: usize) -> Vec<&'static str> {
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let p = POOL.get_or_init(|| {
        (0..400)
            .map(|i| -> &'static str { Box::leak(format!("n{i}").into_boxed_str()) })
            .collect()
    });
    p[..n].to_vec()
}

pub type List<const K: usize> = StorageList<SimMutex, K>;
pub type Handle<const K: usize> = StorageListNodeHandle<Val, SimMutex, K>;
pub type AttachFut<const K: usize> = Pin<Box<dyn Future<Output = Result<Handle<K>, Error>>>>;

pub struct Slot<const K: usize> {
    pub key: &'static str,
    pub node: &'static StorageListNode<Val>,
    pub h: Option<Handle<K>>,
    pub pending: Option<AttachFut<K>>,
    /// id used by the latest attach's default closure
    pub def_id: u64,
}

pub struct Boot<const K: usize> {
    pub list: &'static List<K>,
    pub slots: Vec<Slot<K>>,
    /// do not free (a panic went through it)
    pub poisoned: bool,
}

impl<const K: usize> Boot<K> {
    pub fn new(keys: &[&'static str]) -> Self {
        let list: &'static List<K> = Box::leak(Box::new(StorageList::new()));
        let slots = keys
            .iter()
            .map(|k| Slot {
                key: k,
                node: Box::leak(Box::new(StorageListNode::new(k))),
                h: None,
                pending: None,
                def_id: 0,
            })
            .collect();
        Boot { list, slots, poisoned: false }
    }
    /// Begin attaching slot i (polls once).
    pub fn begin_attach(&mut self, i: usize, pad: u16) -> Option<Result<(), Error>> {
        let id = fresh_id();
        self.slots[i].def_id = id;
        let node = self.slots[i].node;
        let list = self.list;
        let mut fut: AttachFut<K> =
            Box::pin(async move { node.attach_with_default(list, move || Val::new(id, pad)).await });
        match run_pinned(&mut fut, 1000) {
            Some(Ok(h)) => {
                self.slots[i].h = Some(h);
                Some(Ok(()))
            }
            Some(Err(e)) => Some(Err(e)),
            None => {
                self.slots[i].pending = Some(fut);
                None
            }
        }
    }
    /// Poll a pending attach.
    pub fn poll_attach(&mut self, i: usize) -> Option<Result<(), Error>> {
        let mut fut = self.slots[i].pending.take()?;
        match run_pinned(&mut fut, 1000) {
            Some(Ok(h)) => {
                self.slots[i].h = Some(h);
                Some(Ok(()))
            }
            Some(Err(e)) => Some(Err(e)),
            None => {
                self.slots[i].pending = Some(fut);
                None
            }
        }
    }
    pub fn load(&self, i: usize) -> Option<u64> {
        self.slots[i].h.as_ref().map(|h| h.load().id)
    }
    pub fn write(&mut self, i: usize, id: u64, pad: u16) -> Option<Result<(), Error>> {
        let h = self.slots[i].h.as_mut()?;
        let v = Val::new(id, pad);
        run_now(h.write(&v))
    }
    pub fn detach(&mut self, i: usize) -> Option<Result<(), Error>> {
        let node = self.slots[i].node;
        run_now(node.detach(self.list))
    }
    /// Drop everything that is live and detach all nodes; true if all could be detached.
    pub fn teardown(&mut self) -> bool {
        let mut ok = true;
        for i in 0..self.slots.len() {
            self.slots[i].pending = None;
            self.slots[i].h = None;
            ok &= matches!(self.detach(i), Some(Ok(())));
        }
        ok
    }
}
impl<const K: usize> Drop for Boot<K> {
    fn drop(&mut self) {
        if self.poisoned || std::thread::panicking() {
            for s in self.slots.iter_mut() {
                std::mem::forget(s.pending.take());
                std::mem::forget(s.h.take());
            }
            return;
        }
        if self.teardown() {
            unsafe {
                for s in &self.slots {
                    crate::sim::unleak(s.node);
                }
                crate::sim::unleak(self.list);
            }
        }
    }
}

/// A fresh boot: attach all keys, one process_reads, read the values.
/// `None` means the node took its default.
pub fn observe<const K: usize, S: NdlDataStorage>(
    sto: &mut S,
    keys: &[&'static str],
    buf: &mut [u8],
) -> Result<(Vec<Option<u64>>, Boot<K>), String>
where
    S::Error: std::fmt::Debug,
{
    let mut b = Boot::<K>::new(keys);
    for i in 0..keys.len() {
        match b.begin_attach(i, 3) {
            None => {}
            Some(r) => return Err(format!("attach resolved before any read: {r:?}")),
        }
    }
    let r = match run_now(b.list.process_reads(sto, buf)) {
        None => Err("process_reads parked".to_string()),
        Some(Err(e)) => Err(format!("process_reads failed: {e:?}")),
        Some(Ok(_)) => Ok(()),
    };
    r?;
    let mut out = vec![];
    for i in 0..keys.len() {
        match b.poll_attach(i) {
            Some(Ok(())) => {}
            x => return Err(format!("attach did not complete after a good read: {x:?}")),
        }
        let id = b.load(i).unwrap();
        out.push(if id == b.slots[i].def_id { None } else { Some(id) });
    }
    Ok((out, b))
}
