//! Element-level storage: owned elements, an abstract in-memory backend, and a monitoring and
//! fault-injecting wrapper that works over any backend.
use crate::{
    exec::{park_forever, yield_once},
    rng::Rng,
};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use std::{cell::RefCell, collections::BTreeMap, num::NonZeroU32, rc::Rc};

/// Owned element. `Data` holds the key/value bytes only (no header byte).
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OElem {
    Start(u32),
    Data(Vec<u8>),
    End(u32, u32),
    /// present but not decodable
    Bad,
}
impl std::fmt::Debug for OElem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            OElem::Start(s) => write!(f, "S{s}"),
            OElem::Data(d) => {
                let hex: String = d.iter().take(12).map(|b| format!("{b:02x}")).collect();
                write!(f, "D[{}:{hex}]", d.len())
            }
            OElem::End(s, c) => write!(f, "E{s}:{c:08x}"),
            OElem::Bad => write!(f, "BAD"),
        }
    }
}

impl OElem {
    pub fn from_elem(e: &Elem<'_>) -> Self {
        match e {
            Elem::Start { seq_no } => OElem::Start(seq_no.get()),
            Elem::Data { data } => OElem::Data(data.key_val().to_vec()),
            Elem::End { seq_no, calc_crc } => OElem::End(seq_no.get(), *calc_crc),
        }
    }
    pub fn from_opt(e: Option<Elem<'_>>) -> Self {
        match e {
            None => OElem::Bad,
            Some(e) => Self::from_elem(&e),
        }
    }
}

/// A storage backend that can be snapshotted at every mutation.
pub trait Backend: NdlDataStorage<Error = <Self as Backend>::Err> + Sized + 'static {
    type Err: std::fmt::Debug + PartialEq + 'static;
    type Image: Clone + 'static;
    /// Current contents
    fn image(&self) -> Self::Image;
    fn from_image(img: &Self::Image) -> Self;
    /// Number of elementary mutations journaled so far
    fn journal_len(&self) -> usize;
    /// Switch journaling on (off by default: long runs do not need it)
    fn start_journal(&mut self);
    /// Images after each journaled mutation, starting with the image at `start_journal`
    /// (so `journal_len()+1` images). The callback returns false to stop.
    fn replay(&self, f: &mut dyn FnMut(usize, &Self::Image) -> bool);
    /// Decode the elements contained, in order, using a scratch mount
    fn elems(&self) -> Vec<OElem>;
    fn name() -> &'static str;
    /// Size the backend reports for a stored element
    fn stored_len(e: &OElem) -> usize;
    /// Put elements into an empty store, bypassing the code under test
    fn preload(&mut self, e: &[OElem]);
    /// Place a fault below the element level; no-op where there is no such level
    fn low_inject(&mut self, _rng: &mut Rng, _horizon: usize) {}
    fn low_clear(&mut self) {}
    /// Append an undecodable element; false where that cannot be done
    fn push_bad(&mut self) -> bool {
        false
    }
}

// ------------------------------------------------------------------ ElemStore

#[derive(Clone, Debug, PartialEq)]
pub enum StoreErr {
    Injected,
    Full,
    TooBig,
}

#[derive(Clone)]
enum Mutn {
    Push(OElem),
    Remove(usize),
}

/// Abstract FIFO of elements; `MAX` is the advertised maximum element size.
pub struct ElemStore<const MAX: usize = 512> {
    pub items: Vec<OElem>,
    pub cap: usize,
    base: Option<Vec<OElem>>,
    journal: Vec<Mutn>,
}

impl<const MAX: usize> ElemStore<MAX> {
    pub fn new() -> Self {
        Self::with(vec![])
    }
    pub fn with(items: Vec<OElem>) -> Self {
        ElemStore {
            items,
            cap: usize::MAX,
            base: None,
            journal: vec![],
        }
    }
}

pub fn abstract_len(e: &OElem) -> usize {
    match e {
        OElem::Start(_) => 5,
        OElem::Data(d) => 1 + d.len(),
        OElem::End(..) => 9,
        OElem::Bad => 3,
    }
}

impl<const MAX: usize> Backend for ElemStore<MAX> {
    type Err = StoreErr;
    type Image = Vec<OElem>;
    fn image(&self) -> Self::Image {
        self.items.clone()
    }
    fn from_image(img: &Self::Image) -> Self {
        Self::with(img.clone())
    }
    fn journal_len(&self) -> usize {
        self.journal.len()
    }
    fn start_journal(&mut self) {
        self.base = Some(self.items.clone());
        self.journal.clear();
    }
    fn replay(&self, f: &mut dyn FnMut(usize, &Self::Image) -> bool) {
        let mut img = self.base.clone().expect("journal");
        if !f(0, &img) {
            return;
        }
        for (i, m) in self.journal.iter().enumerate() {
            match m {
                Mutn::Push(e) => img.push(e.clone()),
                Mutn::Remove(i) => {
                    img.remove(*i);
                }
            }
            if !f(i + 1, &img) {
                return;
            }
        }
    }
    fn elems(&self) -> Vec<OElem> {
        self.items.clone()
    }
    fn name() -> &'static str {
        "backend_abstract"
    }
    fn stored_len(e: &OElem) -> usize {
        abstract_len(e)
    }
    fn preload(&mut self, e: &[OElem]) {
        self.items = e.to_vec();
    }
    fn push_bad(&mut self) -> bool {
        self.items.push(OElem::Bad);
        if self.base.is_some() {
            self.journal.push(Mutn::Push(OElem::Bad));
        }
        true
    }
}

pub struct ElemIter<'a, const MAX: usize> {
    sto: &'a mut ElemStore<MAX>,
    pos: usize,
}
pub struct ElemItem<'i, 'b, const MAX: usize> {
    sto: &'i mut ElemStore<MAX>,
    pos: &'i mut usize,
    kind: OElem,
    data: &'b [u8],
}

impl<const MAX: usize> NdlDataStorage for ElemStore<MAX> {
    type Iter<'this> = ElemIter<'this, MAX>;
    type Error = StoreErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<ElemIter<'this, MAX>, StoreErr> {
        Ok(ElemIter { sto: self, pos: 0 })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, StoreErr> {
        let e = OElem::from_elem(data);
        let l = abstract_len(&e);
        if matches!(e, OElem::Data(_)) && l > MAX {
            return Err(StoreErr::TooBig);
        }
        let used: usize = self.items.iter().map(abstract_len).sum();
        if used + l > self.cap {
            return Err(StoreErr::Full);
        }
        if self.base.is_some() {
            self.journal.push(Mutn::Push(e.clone()));
        }
        self.items.push(e);
        Ok(l)
    }
    const MAX_ELEM_SIZE: usize = MAX;
}

impl<'a, const MAX: usize> NdlElemIter for ElemIter<'a, MAX> {
    type Item<'this, 'buf>
        = ElemItem<'this, 'buf, MAX>
    where
        Self: 'this,
        Self: 'buf;
    type Error = StoreErr;
    async fn next<'iter, 'buf>(
        &'iter mut self,
        buf: &'buf mut [u8],
    ) -> Result<Option<ElemItem<'iter, 'buf, MAX>>, StoreErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let Some(e) = self.sto.items.get(self.pos) else {
            return Ok(None);
        };
        let kind = match e {
            OElem::Data(_) => OElem::Data(vec![]),
            o => o.clone(),
        };
        let data: &'buf [u8] = if let OElem::Data(d) = e {
            // like the NOR backend: the element must fit the scratch buffer
            if buf.len() < d.len() + 1 {
                return Err(StoreErr::Full);
            }
            buf[0] = cfg_noodle::consts::ELEM_DISCRIMINANT_DATA;
            buf[1..1 + d.len()].copy_from_slice(d);
            let n = d.len() + 1;
            &buf[..n]
        } else {
            &[]
        };
        self.pos += 1;
        Ok(Some(ElemItem {
            sto: self.sto,
            pos: &mut self.pos,
            kind,
            data,
        }))
    }
}

impl<const MAX: usize> NdlElemIterNode for ElemItem<'_, '_, MAX> {
    type Error = StoreErr;
    fn data(&self) -> Option<Elem<'_>> {
        match &self.kind {
            OElem::Start(s) => Some(Elem::Start {
                seq_no: NonZeroU32::new(*s)?,
            }),
            OElem::End(s, c) => Some(Elem::End {
                seq_no: NonZeroU32::new(*s)?,
                calc_crc: *c,
            }),
            OElem::Data(_) => SerData::from_existing(self.data).map(|data| Elem::Data { data }),
            OElem::Bad => None,
        }
    }
    fn len(&self) -> usize {
        match &self.kind {
            OElem::Data(_) => self.data.len(),
            o => abstract_len(o),
        }
    }
    async fn invalidate(self) -> Result<(), StoreErr> {
        *self.pos -= 1;
        let i = *self.pos;
        self.sto.items.remove(i);
        if self.sto.base.is_some() {
            self.sto.journal.push(Mutn::Remove(i));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ monitor / fault wrapper

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Iter,
    Next,
    Push,
    Inval,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// the operation has no effect and reports an error
    ErrBefore,
    /// the operation takes effect and then reports an error
    ErrAfter,
    /// the operation never returns (caller will drop the future); no effect
    HangBefore,
    /// the operation takes effect, then never returns
    HangAfter,
    /// only push: reports success but stores something else
    Garble(Garble),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Garble {
    Drop,
    Flip(u32),
    Truncate,
    Extend,
    Duplicate,
    OtherSeq,
    ToData,
    /// an undecodable element appears in front
    Stray,
}

/// One observed storage operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Iter,
    Next(Option<u64>),
    Push(u64),
    PushFailed,
    Inval(u64),
    InvalFailed(u64),
    ReadFailed,
}

#[derive(Default, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Traffic {
    pub read_bytes: usize,
    pub pushed_bytes: usize,
    pub popped_bytes: usize,
    pub iters: usize,
    pub nexts: usize,
    pub pushes: usize,
    pub invals: usize,
    pub errors: usize,
}

pub struct Ctl {
    /// Number of storage operations begun (index of next op)
    pub opno: u64,
    /// per-op-kind counts
    pub faults: BTreeMap<u64, Fault>,
    /// apply a fault to the n-th push only (pushes counted since start)
    pub push_faults: BTreeMap<u64, Fault>,
    pub pushno: u64,
    /// `pushno` when the current call began (kept by the users of the wrapper)
    pub push0: u64,
    pub log: Vec<Ev>,
    pub keep_log: bool,
    pub traffic: Traffic,
    /// all operations fail from now on
    pub dead: bool,
    /// yields before / after each op when scheduling concurrently: (numerator of /8)
    pub yield_level: u32,
    pub rng: Rng,
    pub fired: u64,
    /// shadow contents: (uid, element)
    pub shadow: Vec<(u64, OElem)>,
    next_uid: u64,
    /// uids that must not be invalidated (P04 monitor); None = off
    pub protected: Option<Vec<u64>>,
    pub protected_hits: Vec<String>,
    /// shadow and reality may differ (storage-level faults below us)
    pub shadow_ok: bool,
    pub inval_in_gc: u64,
    /// key/value bytes of every data element handed to us for storage (before any garbling)
    pub offered: Vec<Vec<u8>>,
    /// virtual delays (microseconds) an operation may take; empty = none
    pub delays: Vec<u64>,
    /// sum of all virtual delays so far
    pub delayed: u64,
    /// virtual times at which an iteration began
    pub iter_times: Vec<u64>,
    /// virtual times at which an append took effect
    pub push_times: Vec<u64>,
    /// fired when the operation with this number begins
    pub stop_at: Option<(u64, crate::exec::Event)>,
}
impl Ctl {
    pub fn reset_traffic(&mut self) {
        self.traffic = Traffic::default();
    }
    fn begin(&mut self, op: Op) -> Option<Fault> {
        let n = self.opno;
        self.opno += 1;
        if n > 3_000_000 {
            panic!("ORACLE: more than 3000000 storage operations in one run: endless loop");
        }
        if let Some((at, e)) = &self.stop_at
            && *at == n
        {
            e.fire();
            // no storage errors after the stop
            self.faults.clear();
        }
        let mut f = self.faults.get(&n).copied();
        if op == Op::Push {
            let p = self.pushno;
            self.pushno += 1;
            if let Some(x) = self.push_faults.get(&p) {
                f = Some(*x);
            }
        }
        if self.dead {
            return Some(Fault::ErrBefore);
        }
        if let Some(x) = f {
            if matches!(x, Fault::Garble(_)) && op != Op::Push {
                return None;
            }
            self.fired += 1;
        }
        f
    }
    fn ev(&mut self, e: Ev) {
        if self.keep_log {
            self.log.push(e);
        }
    }
    pub fn shadow_elems(&self) -> Vec<OElem> {
        self.shadow.iter().map(|x| x.1.clone()).collect()
    }
}

pub type CtlRef = Rc<RefCell<Ctl>>;

pub struct Mon<S: Backend> {
    pub inner: S,
    pub ctl: CtlRef,
}

#[derive(Debug, PartialEq)]
pub enum MonErr<E> {
    Injected,
    Inner(E),
}

impl<S: Backend> Mon<S> {
    pub fn new(inner: S, seed: u64) -> Self {
        let elems = inner.elems();
        let shadow: Vec<(u64, OElem)> = elems
            .into_iter()
            .enumerate()
            .map(|(i, e)| (i as u64 + 1, e))
            .collect();
        let next_uid = shadow.len() as u64 + 1;
        Mon {
            inner,
            ctl: Rc::new(RefCell::new(Ctl {
                opno: 0,
                faults: BTreeMap::new(),
                push_faults: BTreeMap::new(),
                pushno: 0,
                push0: 0,
                log: vec![],
                keep_log: false,
                traffic: Traffic::default(),
                dead: false,
                yield_level: 0,
                rng: Rng::new(seed),
                fired: 0,
                shadow,
                next_uid,
                protected: None,
                protected_hits: vec![],
                shadow_ok: true,
                inval_in_gc: 0,
                offered: vec![],
                delays: vec![],
                delayed: 0,
                iter_times: vec![],
                push_times: vec![],
                stop_at: None,
            })),
        }
    }
}

impl<S: Backend> Mon<S> {
    /// The medium itself does not hold what it acknowledged. The queue underneath the NOR backend
    /// guards its headers with 16 bits only: next to the remains of a torn header it can mistake
    /// the bytes of a new element for something else about once in 65536 cases.
    pub fn medium_lost_data(&self) -> bool {
        self.ctl.borrow().shadow_elems() != self.inner.elems()
    }
    /// Rebuild the shadow contents from what is really there.
    pub fn resync(&mut self, elems: &[OElem]) {
        let mut c = self.ctl.borrow_mut();
        let mut n = c.next_uid;
        c.shadow = elems
            .iter()
            .map(|e| {
                n += 1;
                (n, e.clone())
            })
            .collect();
        c.next_uid = n + 1;
    }
}

async fn maybe_yield(ctl: &CtlRef) {
    let n = {
        let mut c = ctl.borrow_mut();
        let lvl = c.yield_level;
        if lvl == 0 {
            0
        } else if c.rng.chance(lvl, 8) {
            1 + c.rng.below(2)
        } else {
            0
        }
    };
    for _ in 0..n {
        yield_once().await;
    }
    let d = {
        let mut g = ctl.borrow_mut();
        let c = &mut *g;
        if c.delays.is_empty() || !c.rng.chance(1, 4) {
            0
        } else {
            let d = *c.rng.pick(&c.delays);
            c.delayed += d;
            d
        }
    };
    if d > 0 {
        embassy_time::Timer::after_micros(d).await;
    }
}

pub struct MonIter<'a, S: Backend> {
    inner: S::Iter<'a>,
    ctl: CtlRef,
    uids: Vec<u64>,
    pos: usize,
}

pub struct MonItem<'t, 'b, 'a, S: Backend>
where
    S::Iter<'a>: 't + 'b,
    S: 'a,
{
    inner: <S::Iter<'a> as NdlElemIter>::Item<'t, 'b>,
    ctl: CtlRef,
    uid: u64,
}

impl<S: Backend> NdlDataStorage for Mon<S> {
    type Iter<'this>
        = MonIter<'this, S>
    where
        Self: 'this;
    type Error = MonErr<S::Error>;

    async fn iter_elems<'this>(&'this mut self) -> Result<MonIter<'this, S>, MonErr<S::Error>> {
        maybe_yield(&self.ctl).await;
        let f = self.ctl.borrow_mut().begin(Op::Iter);
        match f {
            Some(Fault::ErrBefore) | Some(Fault::ErrAfter) => {
                let mut c = self.ctl.borrow_mut();
                c.traffic.errors += 1;
                c.ev(Ev::ReadFailed);
                return Err(MonErr::Injected);
            }
            Some(Fault::HangBefore) | Some(Fault::HangAfter) => park_forever().await,
            _ => {}
        }
        let uids = {
            let mut c = self.ctl.borrow_mut();
            c.traffic.iters += 1;
            c.iter_times.push(crate::vtime::now());
            c.ev(Ev::Iter);
            c.shadow.iter().map(|x| x.0).collect()
        };
        let inner = self.inner.iter_elems().await.map_err(MonErr::Inner)?;
        Ok(MonIter {
            inner,
            ctl: self.ctl.clone(),
            uids,
            pos: 0,
        })
    }

    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, MonErr<S::Error>> {
        maybe_yield(&self.ctl).await;
        let f = self.ctl.borrow_mut().begin(Op::Push);
        let fail = |ctl: &CtlRef| {
            let mut c = ctl.borrow_mut();
            c.traffic.errors += 1;
            c.ev(Ev::PushFailed);
        };
        if let Elem::Data { data } = data {
            self.ctl.borrow_mut().offered.push(data.key_val().to_vec());
        }
        let mut times = 1;
        let mut scratch: Vec<u8>;
        let mut alt: Option<Elem<'_>> = None;
        match f {
            Some(Fault::ErrBefore) => {
                fail(&self.ctl);
                return Err(MonErr::Injected);
            }
            Some(Fault::HangBefore) => park_forever().await,
            Some(Fault::Garble(g)) => match g {
                Garble::Drop => times = 0,
                Garble::Duplicate => times = 2,
                Garble::Stray => {
                    if self.inner.push_bad() {
                        let mut c = self.ctl.borrow_mut();
                        let uid = c.next_uid;
                        c.next_uid += 1;
                        c.shadow.push((uid, OElem::Bad));
                    }
                }
                _ => {
                    scratch = match data {
                        Elem::Data { data } => {
                            let mut v = vec![data.hdr()];
                            v.extend_from_slice(data.key_val());
                            v
                        }
                        _ => vec![],
                    };
                    alt = Some(match (data, g) {
                        (Elem::Start { seq_no }, Garble::ToData) => {
                            scratch = vec![1, 0x60, seq_no.get() as u8];
                            Elem::Data {
                                data: SerData::from_existing(&scratch).unwrap(),
                            }
                        }
                        (Elem::Start { seq_no }, g) => Elem::Start {
                            seq_no: NonZeroU32::new(
                                seq_no.get()
                                    ^ match g {
                                        Garble::Flip(b) => 1 << (b % 32),
                                        _ => 1,
                                    },
                            )
                            .unwrap_or(NonZeroU32::MAX),
                        },
                        (Elem::End { seq_no, calc_crc }, g) => match g {
                            Garble::Flip(b) => Elem::End {
                                seq_no: *seq_no,
                                calc_crc: calc_crc ^ (1 << (b % 32)),
                            },
                            Garble::OtherSeq => Elem::End {
                                seq_no: seq_no.saturating_add(1),
                                calc_crc: *calc_crc,
                            },
                            Garble::ToData => {
                                scratch = vec![1, 0x60, 0];
                                Elem::Data {
                                    data: SerData::from_existing(&scratch).unwrap(),
                                }
                            }
                            _ => Elem::Start { seq_no: *seq_no },
                        },
                        (Elem::Data { .. }, g) => {
                            match g {
                                Garble::Flip(b) => {
                                    // never touch the header byte: that would be a different kind
                                    let n = (scratch.len() - 1) * 8;
                                    if n > 0 {
                                        let b = b as usize % n;
                                        scratch[1 + b / 8] ^= 1 << (b % 8);
                                    }
                                }
                                Garble::Truncate => {
                                    if scratch.len() > 2 {
                                        scratch.pop();
                                    }
                                }
                                Garble::Extend => scratch.push(0),
                                _ => {
                                    if scratch.len() > 1 {
                                        let l = scratch.len() - 1;
                                        scratch[l] ^= 0xff;
                                    }
                                }
                            }
                            Elem::Data {
                                data: SerData::from_existing(&scratch).unwrap(),
                            }
                        }
                    });
                }
            },
            _ => {}
        }
        let eff = alt.as_ref().unwrap_or(data);
        let mut used = match data {
            Elem::Data { data } => data.key_val().len() + 1,
            _ => 9,
        };
        for _ in 0..times {
            match self.inner.push(eff).await {
                Ok(u) => {
                    used = u;
                    let mut c = self.ctl.borrow_mut();
                    let uid = c.next_uid;
                    c.next_uid += 1;
                    c.shadow.push((uid, OElem::from_elem(eff)));
                    c.push_times.push(crate::vtime::now());
                    c.ev(Ev::Push(uid));
                }
                Err(e) => {
                    let mut c = self.ctl.borrow_mut();
                    c.traffic.errors += 1;
                    c.ev(Ev::PushFailed);
                    return Err(MonErr::Inner(e));
                }
            }
        }
        match f {
            Some(Fault::ErrAfter) => {
                fail(&self.ctl);
                return Err(MonErr::Injected);
            }
            Some(Fault::HangAfter) => park_forever().await,
            _ => {}
        }
        {
            let mut c = self.ctl.borrow_mut();
            c.traffic.pushes += 1;
            c.traffic.pushed_bytes += used;
        }
        maybe_yield(&self.ctl).await;
        Ok(used)
    }
    const MAX_ELEM_SIZE: usize = S::MAX_ELEM_SIZE;
}

impl<'a, S: Backend> NdlElemIter for MonIter<'a, S> {
    type Item<'this, 'buf>
        = MonItem<'this, 'buf, 'a, S>
    where
        Self: 'this,
        Self: 'buf;
    type Error = MonErr<S::Error>;

    async fn next<'iter, 'buf>(
        &'iter mut self,
        buf: &'buf mut [u8],
    ) -> Result<Option<MonItem<'iter, 'buf, 'a, S>>, MonErr<S::Error>>
    where
        Self: 'buf,
        Self: 'iter,
    {
        maybe_yield(&self.ctl).await;
        let f = self.ctl.borrow_mut().begin(Op::Next);
        match f {
            Some(Fault::ErrBefore) | Some(Fault::ErrAfter) => {
                let mut c = self.ctl.borrow_mut();
                c.traffic.errors += 1;
                c.ev(Ev::ReadFailed);
                return Err(MonErr::Injected);
            }
            Some(Fault::HangBefore) | Some(Fault::HangAfter) => park_forever().await,
            _ => {}
        }
        let r = self.inner.next(buf).await.map_err(|e| {
            let mut c = self.ctl.borrow_mut();
            c.traffic.errors += 1;
            c.ev(Ev::ReadFailed);
            MonErr::Inner(e)
        })?;
        let Some(item) = r else {
            self.ctl.borrow_mut().ev(Ev::Next(None));
            return Ok(None);
        };
        let uid = self.uids.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        {
            let mut c = self.ctl.borrow_mut();
            c.traffic.nexts += 1;
            c.traffic.read_bytes += item.len();
            c.ev(Ev::Next(Some(uid)));
        }
        Ok(Some(MonItem {
            inner: item,
            ctl: self.ctl.clone(),
            uid,
        }))
    }
}

impl<'t, 'b, 'a, S: Backend> NdlElemIterNode for MonItem<'t, 'b, 'a, S>
where
    S::Iter<'a>: 't + 'b,
{
    type Error = MonErr<S::Error>;
    fn data(&self) -> Option<Elem<'_>> {
        self.inner.data()
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    async fn invalidate(self) -> Result<(), MonErr<S::Error>> {
        maybe_yield(&self.ctl).await;
        let len = self.inner.len();
        let f = self.ctl.borrow_mut().begin(Op::Inval);
        {
            let mut c = self.ctl.borrow_mut();
            c.inval_in_gc += 1;
            if let Some(p) = &c.protected
                && p.contains(&self.uid)
            {
                let e = c
                    .shadow
                    .iter()
                    .find(|x| x.0 == self.uid)
                    .map(|x| format!("{:?}", x.1))
                    .unwrap_or_default();
                let msg = format!("element uid {} ({e}) of a protected record", self.uid);
                c.protected_hits.push(msg);
            }
        }
        match f {
            Some(Fault::ErrBefore) => {
                let mut c = self.ctl.borrow_mut();
                c.traffic.errors += 1;
                c.ev(Ev::InvalFailed(self.uid));
                return Err(MonErr::Injected);
            }
            Some(Fault::HangBefore) => park_forever().await,
            _ => {}
        }
        let MonItem { inner, ctl, uid } = self;
        let r = inner.invalidate().await;
        if let Err(e) = r {
            let mut c = ctl.borrow_mut();
            c.traffic.errors += 1;
            c.ev(Ev::InvalFailed(uid));
            return Err(MonErr::Inner(e));
        }
        {
            let mut c = ctl.borrow_mut();
            c.shadow.retain(|x| x.0 != uid);
            c.ev(Ev::Inval(uid));
        }
        match f {
            Some(Fault::ErrAfter) => {
                let mut c = ctl.borrow_mut();
                c.traffic.errors += 1;
                return Err(MonErr::Injected);
            }
            Some(Fault::HangAfter) => park_forever().await,
            _ => {}
        }
        {
            let mut c = ctl.borrow_mut();
            c.traffic.invals += 1;
            c.traffic.popped_bytes += len;
        }
        maybe_yield(&ctl).await;
        Ok(())
    }
}
