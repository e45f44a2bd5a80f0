//! Simulated NOR flash with per-page wear counters, program-rule monitor, word-granular journal
//! (for power-cut images) and fault injection; plus a [`Backend`] over cfg-noodle's `Flash`.
use crate::{
    exec::{park_forever, run_now},
    rng::Rng,
    store::{Backend, OElem},
};
use cfg_noodle::{NdlDataStorage, NdlElemIter, NdlElemIterNode, flash::Flash};
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use sequential_storage::cache::{CacheImpl, KeyPointerCache, NoCache, PagePointerCache, PageStateCache};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, sync::Arc};

#[derive(Clone, Debug, PartialEq)]
pub enum NorErr {
    OutOfBounds,
    NotAligned,
    Injected,
}
impl NorFlashError for NorErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            NorErr::OutOfBounds => NorFlashErrorKind::OutOfBounds,
            NorErr::NotAligned => NorFlashErrorKind::NotAligned,
            NorErr::Injected => NorFlashErrorKind::Other,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NorFault {
    /// no effect, error
    Err,
    /// the first n words take effect, then error
    Partial(usize),
    /// the first n words take effect, then never returns
    PartialHang(usize),
}

#[derive(Clone, Debug)]
enum NMut {
    Write(u32, Vec<u8>),
    /// erase of [from, to) bytes (a part of a page erase)
    Erase(u32, u32),
}

pub struct Core {
    pub mem: Vec<u8>,
    pub page: usize,
    pub word: usize,
    pub erases: Vec<u64>,
    pub reads: u64,
    pub writes: u64,
    pub bytes_written: u64,
    /// program operations that would need a 0 -> 1 transition
    pub illegal: Vec<String>,
    base: Option<Vec<u8>>,
    journal: Vec<NMut>,
    pub faults: BTreeMap<u64, NorFault>,
    pub opno: u64,
    pub fired: u64,
    /// bytes [range) outside which accesses are recorded as out-of-range
    pub range: std::ops::Range<u32>,
    pub stray: Vec<String>,
}

pub type CoreRef = Rc<RefCell<Core>>;

pub struct NorSim<const R: usize, const W: usize, const E: usize> {
    pub core: CoreRef,
}

impl<const R: usize, const W: usize, const E: usize> NorSim<R, W, E> {
    pub fn new(pages: usize) -> Self {
        Self::from_mem(vec![0xFF; pages * E])
    }
    pub fn from_mem(mem: Vec<u8>) -> Self {
        let pages = mem.len() / E;
        let len = mem.len() as u32;
        NorSim {
            core: Rc::new(RefCell::new(Core {
                mem,
                page: E,
                word: W,
                erases: vec![0; pages],
                reads: 0,
                writes: 0,
                bytes_written: 0,
                illegal: vec![],
                base: None,
                journal: vec![],
                faults: BTreeMap::new(),
                opno: 0,
                fired: 0,
                range: 0..len,
                stray: vec![],
            })),
        }
    }
}

impl Core {
    fn begin(&mut self) -> Option<NorFault> {
        let n = self.opno;
        self.opno += 1;
        let f = self.faults.get(&n).copied();
        if f.is_some() {
            self.fired += 1;
        }
        f
    }
    fn program(&mut self, addr: u32, w: &[u8]) {
        let a = addr as usize;
        for (i, b) in w.iter().enumerate() {
            let old = self.mem[a + i];
            if old & b != *b {
                if self.illegal.len() < 8 {
                    self.illegal
                        .push(format!("addr {:#x}: {:#04x} over {:#04x}", a + i, b, old));
                }
            }
            self.mem[a + i] = old & b;
        }
        self.writes += 1;
        self.bytes_written += w.len() as u64;
        if self.base.is_some() {
            self.journal.push(NMut::Write(addr, w.to_vec()));
        }
    }
    fn erase_part(&mut self, from: u32, to: u32) {
        self.mem[from as usize..to as usize].fill(0xFF);
        if self.base.is_some() {
            self.journal.push(NMut::Erase(from, to));
        }
    }
    fn check(&mut self, what: &str, from: u32, to: u32) {
        if (from < self.range.start || to > self.range.end) && self.stray.len() < 8 {
            self.stray.push(format!("{what} {from:#x}..{to:#x}"));
        }
    }
}

impl<const R: usize, const W: usize, const E: usize> ErrorType for NorSim<R, W, E> {
    type Error = NorErr;
}

impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for NorSim<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), NorErr> {
        let f = self.core.borrow_mut().begin();
        match f {
            Some(NorFault::Err) | Some(NorFault::Partial(_)) => return Err(NorErr::Injected),
            Some(NorFault::PartialHang(_)) => park_forever().await,
            None => {}
        }
        let mut c = self.core.borrow_mut();
        c.reads += 1;
        let o = offset as usize;
        if o % R != 0 || bytes.len() % R != 0 {
            return Err(NorErr::NotAligned);
        }
        if o + bytes.len() > c.mem.len() {
            return Err(NorErr::OutOfBounds);
        }
        c.check("read", offset, offset + bytes.len() as u32);
        bytes.copy_from_slice(&c.mem[o..o + bytes.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.core.borrow().mem.len()
    }
}

impl<const R: usize, const W: usize, const E: usize> NorFlash for NorSim<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), NorErr> {
        let f = self.core.borrow_mut().begin();
        if f == Some(NorFault::Err) {
            return Err(NorErr::Injected);
        }
        {
            let mut c = self.core.borrow_mut();
            if from as usize % E != 0 || to as usize % E != 0 || from > to {
                return Err(NorErr::NotAligned);
            }
            if to as usize > c.mem.len() {
                return Err(NorErr::OutOfBounds);
            }
            c.check("erase", from, to);
            let limit = match f {
                Some(NorFault::Partial(n)) | Some(NorFault::PartialHang(n)) => Some(n),
                _ => None,
            };
            for p in (from as usize / E)..(to as usize / E) {
                let a = (p * E) as u32;
                let w = W as u32;
                let e = E as u32;
                match limit {
                    None => {
                        c.erases[p] += 1;
                        // power can fail anywhere inside an erase: journal four stages
                        c.erase_part(a, a + w);
                        c.erase_part(a + w, a + e / 2);
                        c.erase_part(a + e / 2, a + e - w);
                        c.erase_part(a + e - w, a + e);
                    }
                    Some(n) => {
                        let end = (n.min(1 << 20) as u32 * w).min(e);
                        if end > 0 {
                            c.erases[p] += 1;
                            c.erase_part(a, a + end);
                        }
                    }
                }
            }
        }
        match f {
            Some(NorFault::Partial(_)) => Err(NorErr::Injected),
            Some(NorFault::PartialHang(_)) => {
                park_forever().await;
                Err(NorErr::Injected)
            }
            _ => Ok(()),
        }
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), NorErr> {
        let f = self.core.borrow_mut().begin();
        if f == Some(NorFault::Err) {
            return Err(NorErr::Injected);
        }
        {
            let mut c = self.core.borrow_mut();
            let o = offset as usize;
            if o % W != 0 || bytes.len() % W != 0 {
                return Err(NorErr::NotAligned);
            }
            if o + bytes.len() > c.mem.len() {
                return Err(NorErr::OutOfBounds);
            }
            c.check("write", offset, offset + bytes.len() as u32);
            let limit = match f {
                Some(NorFault::Partial(n)) | Some(NorFault::PartialHang(n)) => n,
                _ => usize::MAX,
            };
            for (i, w) in bytes.chunks_exact(W).enumerate() {
                if i >= limit {
                    break;
                }
                c.program(offset + (i * W) as u32, w);
            }
        }
        match f {
            Some(NorFault::Partial(_)) => Err(NorErr::Injected),
            Some(NorFault::PartialHang(_)) => {
                park_forever().await;
                Err(NorErr::Injected)
            }
            _ => Ok(()),
        }
    }
}
impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for NorSim<R, W, E> {}

// ------------------------------------------------------------------ backend

/// How to make the queue cache
pub trait MkCache: CacheImpl + 'static {
    const NAME: &'static str;
    fn mk() -> Self;
}
impl MkCache for NoCache {
    const NAME: &'static str = "no-cache";
    fn mk() -> Self {
        NoCache::new()
    }
}
impl<const P: usize> MkCache for PageStateCache<P> {
    const NAME: &'static str = "page-state-cache";
    fn mk() -> Self {
        PageStateCache::new()
    }
}
impl<const P: usize> MkCache for PagePointerCache<P> {
    const NAME: &'static str = "page-pointer-cache";
    fn mk() -> Self {
        PagePointerCache::new()
    }
}
impl<const P: usize, const KEYS: usize> MkCache for KeyPointerCache<P, u8, KEYS> {
    const NAME: &'static str = "key-pointer-cache";
    fn mk() -> Self {
        KeyPointerCache::new()
    }
}

/// `Flash` over a simulated NOR part with `P` pages, mounted at page `OFF` of a larger part.
pub struct NorBack<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache> {
    pub flash: Flash<NorSim<R, W, E>, C>,
    pub core: CoreRef,
}

impl<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache>
    NorBack<R, W, E, P, C>
{
    /// The queue lives at [1 page, 1+P pages) of a part with P+2 pages, so that accesses outside
    /// the assigned range are visible.
    pub fn from_mem(mem: Vec<u8>) -> Self {
        let nor = NorSim::<R, W, E>::from_mem(mem);
        let core = nor.core.clone();
        let range = E as u32..((P + 1) * E) as u32;
        core.borrow_mut().range = range.clone();
        NorBack {
            flash: Flash::new(nor, range, C::mk()),
            core,
        }
    }
    pub fn new() -> Self {
        Self::from_mem(vec![0xFF; (P + 2) * E])
    }
}

impl<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache> NdlDataStorage
    for NorBack<R, W, E, P, C>
{
    type Iter<'this> = <Flash<NorSim<R, W, E>, C> as NdlDataStorage>::Iter<'this>;
    type Error = sequential_storage::Error<NorErr>;
    async fn iter_elems<'this>(
        &'this mut self,
    ) -> Result<Self::Iter<'this>, <Self::Iter<'this> as NdlElemIter>::Error> {
        self.flash.iter_elems().await
    }
    async fn push(&mut self, data: &cfg_noodle::Elem<'_>) -> Result<usize, Self::Error> {
        self.flash.push(data).await
    }
    const MAX_ELEM_SIZE: usize = <Flash<NorSim<R, W, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE;
}

impl<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache> Backend
    for NorBack<R, W, E, P, C>
{
    type Err = sequential_storage::Error<NorErr>;
    type Image = Arc<Vec<u8>>;
    fn image(&self) -> Self::Image {
        Arc::new(self.core.borrow().mem.clone())
    }
    fn from_image(img: &Self::Image) -> Self {
        Self::from_mem(img.as_ref().clone())
    }
    fn journal_len(&self) -> usize {
        self.core.borrow().journal.len()
    }
    fn start_journal(&mut self) {
        let mut c = self.core.borrow_mut();
        c.base = Some(c.mem.clone());
        c.journal.clear();
    }
    fn replay(&self, f: &mut dyn FnMut(usize, &Self::Image) -> bool) {
        let (base, journal) = {
            let c = self.core.borrow();
            (c.base.clone().expect("journal"), c.journal.clone())
        };
        let mut img = Arc::new(base);
        if !f(0, &img) {
            return;
        }
        for (i, m) in journal.iter().enumerate() {
            let v = Arc::make_mut(&mut img);
            match m {
                NMut::Write(a, w) => {
                    for (k, b) in w.iter().enumerate() {
                        v[*a as usize + k] &= b;
                    }
                }
                NMut::Erase(a, b) => v[*a as usize..*b as usize].fill(0xFF),
            }
            if !f(i + 1, &img) {
                return;
            }
        }
    }
    fn elems(&self) -> Vec<OElem> {
        raw_elems::<R, W, E>(&self.core.borrow().mem, E, (P + 1) * E)
            .into_iter()
            .map(|b| decode(&b))
            .collect()
    }
    fn name() -> &'static str {
        "backend_nor"
    }
    fn stored_len(e: &OElem) -> usize {
        let word = if R > W { R } else { W };
        8usize.next_multiple_of(word) + encode(e).len().next_multiple_of(word)
    }
    fn preload(&mut self, e: &[OElem]) {
        let items: Vec<Vec<u8>> = e.iter().map(encode).collect();
        let mem = self.core.borrow().mem.clone();
        let mem = raw_push::<R, W, E>(mem, E, (P + 1) * E, &items);
        self.core.borrow_mut().mem = mem;
    }
    fn low_inject(&mut self, rng: &mut Rng, horizon: usize) {
        let mut c = self.core.borrow_mut();
        let at = c.opno + rng.below(horizon) as u64;
        let f = match rng.below(4) {
            0 => NorFault::Err,
            1 => NorFault::Partial(rng.below(6)),
            2 => NorFault::PartialHang(rng.below(6)),
            _ => NorFault::PartialHang(usize::MAX),
        };
        c.faults.insert(at, f);
    }
    fn low_clear(&mut self) {
        self.core.borrow_mut().faults.clear();
    }
}

/// Independent decoding of an element's bytes per the documented V0 format.
pub fn decode(b: &[u8]) -> OElem {
    match b {
        [0, s @ ..] if s.len() == 4 => {
            let n = u32::from_le_bytes(s.try_into().unwrap());
            if n == 0 { OElem::Bad } else { OElem::Start(n) }
        }
        [1, d @ ..] if !d.is_empty() => OElem::Data(d.to_vec()),
        [2, s @ ..] if s.len() == 8 => {
            let n = u32::from_le_bytes(s[..4].try_into().unwrap());
            let c = u32::from_le_bytes(s[4..].try_into().unwrap());
            if n == 0 { OElem::Bad } else { OElem::End(n, c) }
        }
        _ => OElem::Bad,
    }
}

/// All present items of a queue image, read with a scratch sequential-storage mount
/// (the queue library itself is trusted).
pub fn raw_elems<const R: usize, const W: usize, const E: usize>(
    mem: &[u8],
    from: usize,
    to: usize,
) -> Vec<Vec<u8>> {
    use sequential_storage::queue::{QueueConfig, QueueStorage};
    let nor = NorSim::<R, W, E>::from_mem(mem.to_vec());
    let mut q = QueueStorage::new(
        nor,
        QueueConfig::new(from as u32..to as u32),
        NoCache::new(),
    );
    let mut buf = vec![0u8; E];
    run_now(async {
        let mut out = vec![];
        let Ok(mut it) = q.iter().await else {
            return out;
        };
        loop {
            match it.next(&mut buf).await {
                Ok(Some(e)) => out.push(e.to_vec()),
                _ => break,
            }
        }
        out
    })
    .unwrap_or_default()
}

/// Append raw bytes to a queue image.
pub fn raw_push<const R: usize, const W: usize, const E: usize>(
    mem: Vec<u8>,
    from: usize,
    to: usize,
    items: &[Vec<u8>],
) -> Vec<u8> {
    use sequential_storage::queue::{QueueConfig, QueueStorage};
    let nor = NorSim::<R, W, E>::from_mem(mem);
    let core = nor.core.clone();
    let mut q = QueueStorage::new(
        nor,
        QueueConfig::new(from as u32..to as u32),
        NoCache::new(),
    );
    run_now(async {
        for i in items {
            let _ = q.push(i, false).await;
        }
    });
    drop(q);
    Rc::try_unwrap(core).ok().unwrap().into_inner().mem
}

/// Encode an element per the documented V0 format.
pub fn encode(e: &OElem) -> Vec<u8> {
    match e {
        OElem::Start(s) => {
            let mut v = vec![0u8];
            v.extend_from_slice(&s.to_le_bytes());
            v
        }
        OElem::Data(d) => {
            let mut v = vec![1u8];
            v.extend_from_slice(d);
            v
        }
        OElem::End(s, c) => {
            let mut v = vec![2u8];
            v.extend_from_slice(&s.to_le_bytes());
            v.extend_from_slice(&c.to_le_bytes());
            v
        }
        OElem::Bad => vec![0x0f, 1, 2],
    }
}

#[allow(dead_code)]
fn _assert_item<T: NdlElemIterNode>(_: &T) {}
